"""Models of the numeric libraries the simulator talks to (numpy column matrices, pandas frames,
sympy lambdify/Indexed, integrators): enough to know which value ends in which column, which
expression a compiled function evaluates and what an integrator was given.  Everything that is not
modelled stays an uninterpreted term."""
from .terms import *
from . import terms as T
from . import interp as I
from . import models as M
from .models import bi, ext, num_ty

ND = ('numpy.array', 'numpy.asarray', 'numpy.cols', 'numpy.col', 'numpy.linspace', 'numpy.hstack', 'numpy.vstack', 'numpy.concatenate', 'numpy.column_stack',
      'numpy.append', 'numpy.insert', 'numpy.zeros', 'numpy.ones', 'numpy.arange', 'numpy.concat', 'numpy.empty2', 'numpy.reshape', 'numpy.atleast_2d', 'numpy.atleast_1d',
      'scipy.integrate.odeint', 'scipy.linalg.solve', 'numpy.linalg.solve', 'numpy.transpose', 'numpy.copy', 'numpy.array2', 'numpy.flat')
OPEN_SLICE = (NONE, NONE, NONE)


def hname(t):
    return t.a[0].a if t.kind == 'app' and t.a[0].kind == 'ext' else None


def is_nd(t):
    if t.kind == 'app':
        if hname(t) in ND:
            return True
        h = t.a[0]
        if h.kind == 'attr' and h.a[1] in ('reshape', 'flatten', 'ravel', 'transpose', 'copy', 'astype', 'squeeze') and is_nd(h.a[0]):
            return True
    if t.kind == 'attr' and t.a[1] == 'T' and is_nd(t.a[0]):
        return True
    if t.kind == 'item' and is_nd(t.a[0]) and t.a[1].kind in ('slice', 't', 'lst'):
        return True
    return False


def seq_of(ip, v):
    if v.kind in ('lst', 't'):
        return list(v.a)
    if v.kind == 'r' and ip.h(v).kind in ('list', 'deque'):
        return [ip.simp(x) for x in ip.plain_list(v)]
    return None


def vec_elems(t):
    """elements of a vector whose elements are known"""
    if hname(t) in ('numpy.array', 'numpy.asarray') and len(t.a[1]) == 1 and t.a[1][0].kind in ('lst', 't') and not any(x.kind in ('lst', 't') for x in t.a[1][0].a):
        return list(t.a[1][0].a)
    return None


def mkvec(elems):
    return app(ext('numpy.array'), (mk('lst', tuple(elems)),), (), 'ext')


def is_times(t):
    """the times answered by an assimulo run"""
    return t.kind == 'item' and is_pynum(t.a[1]) and cval(t.a[1]) == 0 and t.a[0].kind == 'app' and t.a[0].a[0].kind == 'attr' and t.a[0].a[0].a[1] == 'simulate'


def is_vec(t):
    if hname(t) in ('numpy.array', 'numpy.asarray') and len(t.a[1]) == 1 and is_times(t.a[1][0]):
        return True
    return is_times(t) or hname(t) in ('numpy.linspace', 'numpy.col', 'numpy.arange') or vec_elems(t) is not None


def untolist(t):
    if t.kind == 'app' and t.a[0].kind == 'attr' and t.a[0].a[1] == 'tolist':
        return t.a[0].a[0]
    return t


def solver_ncols(ip, t):
    """number of state columns of an integrator's result matrix"""
    if hname(t) == 'scipy.integrate.odeint':
        y0 = arg(t, 1, 'y0')
        return len(y0.a) if y0 is not None and y0.kind in ('lst', 't') else None
    if t.kind == 'item' and is_pynum(t.a[1]) and cval(t.a[1]) in (1, 2) and t.a[0].kind == 'app' and t.a[0].a[0].kind == 'attr' and t.a[0].a[0].a[1] == 'simulate':
        p = problem_of(ip, t.a[0].a[0].a[0])
        y0 = arg(p, 1, 'y0') if p is not None else None
        if y0 is not None:
            e = vec_elems(y0)
            if e is not None:
                return len(e)
            return len(y0.a) if y0.kind in ('lst', 't') else None
    return None


def term_of(ip, v):
    if v.kind == 'r' and v.a in ip.st.heap and ip.h(v).kind == 'ext':
        return ip.h(v).meta.get('term', v)
    return v


def problem_of(ip, sim):
    t = term_of(ip, sim)
    if t.kind == 'app' and t.a[1]:
        return term_of(ip, t.a[1][0])
    return None


def arg(t, i, name):
    if t is None or t.kind != 'app':
        return None
    if name in dict(t.a[2]):
        return dict(t.a[2])[name]
    return t.a[1][i] if i < len(t.a[1]) else None


def to_cols(ip, v):
    """columns of a two-dimensional value, or None"""
    v = ip.simp(v)
    if v.kind == 'r' and ip.h(v).kind in ('list', 'deque') or v.kind in ('lst', 't'):
        rows = [seq_of(ip, r) if vec_elems(r) is None else vec_elems(r) for r in seq_of(ip, v)]
        if rows and all(r is not None and len(r) == len(rows[0]) for r in rows):
            return [mkvec([r[j] for r in rows]) for j in range(len(rows[0]))]
        return None
    v = untolist(v)
    n = hname(v)
    if n == 'numpy.cols':
        return list(v.a[1])
    if n in ('numpy.array', 'numpy.asarray') and len(v.a[1]) == 1:
        return to_cols(ip, v.a[1][0])
    if v.kind == 'item' and v.a[1].kind == 't' and len(v.a[1].a) == 2:
        c = to_cols(ip, v.a[0])
        if c is not None:
            return None
    k = solver_ncols(ip, v)
    if k is not None:
        return [app(ext('numpy.col'), (v, const(j)), (), 'ext') for j in range(k)]
    return None


def rows_of(ip, t):
    """rows of a matrix whose elements are known, or None"""
    if hname(t) not in ('numpy.cols', 'numpy.array', 'numpy.asarray'):
        return None
    c = to_cols(ip, t)
    if not c:
        return None
    es = [vec_elems(x) for x in c]
    if any(e is None for e in es):
        return None
    return [mkvec([e[i] for e in es]) for i in range(len(es[0]))]


def cols(cs):
    return app(ext('numpy.cols'), tuple(cs), (), 'ext')


def concat_vec(a, b):
    x, y = vec_elems(a), vec_elems(b)
    if x is not None and y is not None:
        return mkvec(x + y)
    return app(ext('numpy.concat'), (a, b), (), 'ext')


def hstack(ip, parts):
    out = []
    for p in parts:
        c = to_cols(ip, p)
        if c is None:
            return None
        out += c
    return cols(out)


def vstack(ip, parts):
    acc = None
    for p in parts:
        if hname(p) == 'numpy.empty2':
            continue
        c = to_cols(ip, p)
        if c is None:
            e = vec_elems(p) or (seq_of(ip, p) if p.kind != 'app' else None)
            if e is None:
                return None
            c = [mkvec([x]) for x in e]
        if acc is None:
            acc = c
        elif len(acc) != len(c):
            ip.raise_builtin('ValueError', 'all the input array dimensions must match')
        else:
            acc = [concat_vec(a, b) for a, b in zip(acc, c)]
    return cols(acc) if acc is not None else None


def is1(v):
    return v is not None and is_pynum(v) and cval(v) == 1


def is_int(d):
    """a dtype that truncates"""
    return d is not None and (d.kind == 'bt' and d.a in ('int', 'bool') or d.kind == 's' and (str_const(d) or '').startswith(('int', 'i', 'uint', 'u', 'bool')) or d.kind in ('ext', 'attr') and ('int' in show(d) or 'bool' in show(d)))


def numpy_call(ip, p, args, kw):
    kw = dict(kw)
    n = p[6:]
    if n in ('array', 'asarray', 'copy', 'ascontiguousarray') and len(args) == 1:
        a = ip.simp(args[0])
        if a.kind == 'g':
            return ip.split(a, lambda l: ip.ext_call(ext(p), [l], kw))
        a = untolist(a)
        if is_nd(a) and not is_int(kw.get('dtype')):
            return a
        c = to_cols(ip, a)
        if c is not None and not vec_elems(a) and not is_int(kw.get('dtype')):
            return cols(c)
        return None
    if n in ('hstack', 'column_stack', 'vstack', 'row_stack') and len(args) == 1 and not kw:
        parts = seq_of(ip, args[0])
        if parts is None:
            return None
        if n == 'column_stack':
            parts = [cols([q]) if is_vec(q) else q for q in parts]
        if n in ('hstack', 'column_stack'):
            return hstack(ip, parts)
        return vstack(ip, parts)
    if n == 'concatenate' and args:
        parts = seq_of(ip, args[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else const(0))
        if parts is None:
            return None
        if is1(ax):
            return hstack(ip, parts)
        if all(to_cols(ip, q) is not None or hname(q) == 'numpy.empty2' for q in parts):
            return vstack(ip, parts)
        es = [vec_elems(q) if q.kind == 'app' else seq_of(ip, q) for q in parts]
        if all(e is not None for e in es):
            return mkvec([x for e in es for x in e])
        return None
    if n == 'append' and len(args) == 2 and 'axis' in kw:
        return hstack(ip, args) if is1(kw['axis']) else vstack(ip, args)
    if n == 'insert' and len(args) == 3 and is1(kw.get('axis')) and is_pynum(args[1]):
        c = to_cols(ip, args[0])
        if c is not None:
            c.insert(int(cval(args[1])), args[2])
            return cols(c)
    if n == 'take' and len(args) == 2 and is1(kw.get('axis')):
        return take(ip, args[0], args[1])
    if n == 'reshape' and len(args) >= 2:
        return reshape(ip, args[0], seq_of(ip, args[1]) or args[1:])
    if n in ('zeros', 'ones') and len(args) == 1 and not kw and is_pynum(args[0]):
        return mkvec([const(0.0 if n == 'zeros' else 1.0)] * int(cval(args[0])))
    if n in ('shape', 'size') and len(args) == 1:
        return nd_attr(ip, args[0], n)
    if n == 'linspace' and kw and set(kw) <= {'start', 'stop', 'num'}:
        full = list(args) + [kw[k] for k in ('start', 'stop', 'num')[len(args):] if k in kw]
        if len(full) == len(args) + len(kw) and (len(full) == 3 or 'num' not in kw):
            return ip.ext_call(ext('numpy.linspace'), full, {})
    return None


def take(ip, m, idx):
    c = to_cols(ip, m)
    ix = seq_of(ip, idx) if vec_elems(idx) is None else vec_elems(idx)
    if c is None or ix is None or not all(is_pynum(i) for i in ix):
        return None
    if any(not -len(c) <= int(cval(i)) < len(c) for i in ix):
        ip.raise_builtin('IndexError', 'column index out of bounds')
    return cols([c[int(cval(i))] for i in ix])


def flat(ip, v):
    """the elements of an array, row after row"""
    if vec_elems(v) is not None:
        return v
    rows = rows_of(ip, v)
    if rows is not None:
        return mkvec([x for r in rows for x in vec_elems(r)])
    return v if is_vec(v) and is_nd(v) else None


def reshape(ip, v, shape):
    v = untolist(v)
    if len(shape) == 1 and is_pynum(shape[0]) and cval(shape[0]) == -1:
        return flat(ip, v)
    if len(shape) == 2 and is_pynum(shape[0]) and is_pynum(shape[1]) and cval(shape[0]) == -1 and cval(shape[1]) == 1:
        if is_vec(v):
            return cols([v])
        if v.kind in ('item', 'app') and to_cols(ip, v) is None:
            return cols([v])
    return None


def nd_attr(ip, l, name):
    if name in ('shape', 'size', 'ndim'):
        if hname(l) == 'numpy.empty2':
            return {'shape': tup([const(0), l.a[1][0]]), 'size': const(0), 'ndim': const(2)}[name]
        c = to_cols(ip, l)
        e = vec_elems(l)
        if c is not None:
            r = vec_elems(c[0]) if c else []
            nr = const(len(r)) if r is not None else app(ext('numpy.rows'), (l,), (), 'int')
            return {'shape': tup([nr, const(len(c))]), 'ndim': const(2), 'size': const(len(r) * len(c)) if r is not None else app(ext('numpy.size'), (l,), (), 'int')}[name]
        if e is not None:
            return {'shape': tup([const(len(e))]), 'size': const(len(e)), 'ndim': const(1)}[name]
    return None


# ------------------------------------------------------------------ pandas frames
def frame_new(ip, args, kw):
    kw = dict(kw)
    data = kw.pop('data', args[0] if args else NONE)
    names = kw.pop('columns', args[2] if len(args) > 2 else None)
    if kw.get('index') is NONE:
        kw.pop('index')
    if kw or len(args) > 3 or len(args) > 1 and args[1] is not NONE:
        return None
    data = ip.simp(data)
    if data.kind == 'g':
        return ip.split(data, lambda d: frame_new(ip, [d], {'columns': names} if names is not None else {}) or ip.undecided('DataFrame of opaque data'))
    if ip.isobj(data, 'dict'):
        items = list(ip.h(data).data.items())
        nm = [k for k, _ in items]
        cs = []
        for _, v in items:
            s = seq_of(ip, v)
            cs.append(mkvec(s) if s is not None else untolist(v))
        d = tup(cs)
    else:
        if names is None or ip.simp(names) is NONE:
            # default labels 0, 1, ...
            cs = [] if data is NONE or seq_of(ip, data) == [] else to_cols(ip, data)
            return None if cs is None else mkframe(ip, [const(j) for j in range(len(cs))], tup(cs) if cs else NONE)
        nm = names_of(ip, names)
        if nm is None:
            return None
        if data is NONE or (seq_of(ip, data) == []):
            d = NONE
        else:
            cs = to_cols(ip, data)
            if cs is None and hname(data) == 'numpy.empty2':
                d = NONE
            elif cs is None:
                if not (data.kind in ('app', 'item', 'attr', 'sym')):
                    e = seq_of(ip, data)
                    return None if e is None or len(nm) != 1 else mkframe(ip, nm, tup([mkvec(e)]))
                d = tup([app(ext('numpy.col'), (data, const(j)), (), 'ext') for j in range(len(nm))])
            elif len(cs) != len(nm):
                ip.raise_builtin('ValueError', 'shape of passed values does not match the columns')
            else:
                d = tup(cs)
    return mkframe(ip, nm, d)


def mkframe(ip, names, data):
    return ip.alloc('ext', {'__cols__': tup(names), '__data__': data}, meta={'term': ext('pandas.DataFrame'), 'head': ext('pandas.DataFrame'), 'frame': True})


def names_of(ip, v):
    v = ip.simp(v)
    s = seq_of(ip, v)
    if s is not None:
        return s
    if v.kind == 'app' and hname(v) == 'pandas.Index':
        return list(v.a[1][0].a)
    if ip.isobj(v, 'dict'):
        return list(ip.h(v).data)
    return None


def is_frame(ip, v):
    return v.kind == 'r' and v.a in ip.st.heap and ip.h(v).kind == 'ext' and ip.h(v).meta.get('frame')


def frame_parts(ip, l):
    o = ip.h(l)
    return ip.simp(o.data['__cols__']), ip.simp(o.data['__data__'])


def frame_split(ip, l, f):
    c, d = frame_parts(ip, l)
    return ip.splitn([c, d], lambda vs: f(list(vs[0].a), None if vs[1] is NONE else list(vs[1].a)))


def frame_attr(ip, l, name):
    def f(nm, d):
        if name == 'values':
            return app(ext('numpy.empty2'), (const(len(nm)),), (), 'ext') if d is None else cols(d)
        if name == 'columns':
            return app(ext('pandas.Index'), (mk('lst', tuple(nm)),), (), 'ext')
        if name == 'empty':
            return const(d is None or not nm)
        if name in ('shape', 'size', 'ndim'):
            return nd_attr(ip, frame_attr(ip, l, 'values'), name)
        return None
    if name in ('values', 'columns', 'empty', 'shape', 'size', 'ndim'):
        return frame_split(ip, l, f)
    return None


def rename_map(ip, m):
    m = ip.simp(m)
    if ip.isobj(m, 'dict'):
        its = list(ip.h(m).data.items())
        if any(I.presence(v) is not TRUE for _, v in its):
            return None
        return dict(its)
    return None


def frame_method(ip, l, name, args, kw):
    if name == 'rename':
        kw2 = dict(kw)
        m = kw2.pop('columns', None)
        ax = ip.simp(kw2.get('axis', const(0)))
        if m is None and len(args) == 1 and set(kw2) <= {'axis', 'inplace'}:
            kw2['mapper'], args = args[0], ()
        if m is None and ('mapper' in kw2 or 'index' in kw2) and (ax is const(0) or str_const(ax) in ('index', 'rows')) and ip.isobj(ip.simp(kw2.get('mapper', kw2.get('index'))), 'dict'):
            # labels of rows: the columns keep theirs
            m = ip.new_dict()
            for z in ('mapper', 'index', 'axis'):
                kw2.pop(z, None)
        if m is None and str_const(ax) == 'columns':
            kw2['axis'] = const(1)
        if m is None and 'mapper' in kw2 and is1(kw2.pop('axis', None)):
            m = kw2.pop('mapper')
        inplace = kw2.pop('inplace', FALSE)
        if m is None or args or kw2 or inplace not in (TRUE, FALSE):
            return None
        mp = rename_map(ip, m)
        if mp is None:
            return None
        c, d = frame_parts(ip, l)
        new = gmap(lambda t: tup([mp.get(x, x) for x in t.a]), c)
        if inplace is TRUE:
            ip.mut(l).data['__cols__'] = new
            return NONE
        return ip.alloc('ext', {'__cols__': new, '__data__': d}, meta=dict(ip.h(l).meta))
    if name == 'to_dict':
        o = kw.get('orient', args[0] if args else None)
        if o is None or str_const(o) != 'list':
            return None

        def f(nm, d):
            out = ip.new_dict()
            for i, k in enumerate(nm):
                ip.mut(out).data[k] = ip.new_list([]) if d is None else tolist(ip, d[i])
            return out
        return frame_split(ip, l, f)
    if name == 'to_numpy' and not args and not kw:
        return frame_attr(ip, l, 'values')
    if name == 'copy':
        c, d = frame_parts(ip, l)
        return ip.alloc('ext', {'__cols__': c, '__data__': d}, meta=dict(ip.h(l).meta))
    return None


PURE = {'sort_values', 'sort_index', 'head', 'tail', 'drop', 'drop_duplicates', 'dropna', 'fillna', 'reset_index', 'astype', 'round', 'abs', 'transpose', 'sample', 'shift', 'cumsum', 'cummin', 'cummax', 'diff', 'clip', 'interpolate', 'iloc', 'T'}


def frame_pure(ip, l, name, args, kw):
    """another table computed by the library from this one"""
    if name not in PURE or ip.simp(kw.get('inplace', FALSE)) is not FALSE:
        return None
    return frame_split(ip, l, lambda nm, d: app(ext('pandas.method.' + name), (tup(nm), cols(d or ())) + tuple(ip.freeze(a) for a in args), tuple(sorted((k, ip.freeze(v)) for k, v in kw.items())), 'ext'))


def tolist(ip, v):
    e = vec_elems(v)
    if e is not None:
        return ip.new_list(e)
    return app(attr(v, 'tolist'), (), (), 'ext')


def frame_item(ip, l, k):
    def f(nm, d):
        for i, x in enumerate(nm):
            if x is k:
                return app(ext('pandas.Series'), (mkvec([]) if d is None else d[i],), (), 'ext')
        if k.kind in ('s', 'c'):
            ip.raise_builtin('KeyError', show(k))
        return None
    ks = seq_of(ip, k)
    if ks is not None:
        return None
    r = frame_split(ip, l, f)
    return r


# ------------------------------------------------------------------ sympy: compiled functions
def lambdified(ip, fn, args, kw):
    """call of sympy.lambdify(names, exprs, modules): the expressions at the arguments"""
    if kw:
        return None
    names, exprs = fn.a[1][0], fn.a[1][1]
    mods = arg(fn, 2, 'modules')
    if names.kind not in ('lst', 't'):
        names = mk('lst', (names,))
    nm = list(names.a)
    if any(x.kind == 'g' for x in nm):
        return None
    if len(args) != len(nm):
        ip.raise_builtin('TypeError', 'compiled function takes %d arguments, %d given' % (len(nm), len(args)))
    syms = {M.sym_key(ip, k): ip.simp(a) for k, a in zip(nm, args)}
    if not all(M.is_symbol(k) or k.kind == 'app' for k in syms):
        return None
    over = {}
    if mods is not None:
        ms = list(mods.a) if mods.kind in ('lst', 't') else [mods]
        for m in reversed(ms):
            if m.kind == 'dct':
                over.update({str_const(k): v for k, v in m.a})
    es = list(exprs.a) if exprs.kind in ('lst', 't') else [exprs]
    out = []
    for e in es:
        r = gmap(lambda x: subs_call(ip, x, syms, over), e) if e.kind == 'g' else subs_call(ip, e, syms, over)
        if r is None:
            return None
        out.append(r)
    if exprs.kind not in ('lst', 't'):
        return out[0]
    return ip.new_list(out) if exprs.kind == 'lst' else tup(out)


def subs_call(ip, e, syms, over):
    mp = {}
    bad = []

    def visit(u):
        if u in mp:
            return
        if M.is_symbol(u):
            if u in syms:
                v = syms[u]
                if num_ty(v) is None:
                    bad.append(u)
                mp[u] = v
            else:
                ip.raise_builtin('NameError', 'name %s is not defined in the compiled function' % M.symbol_name(u))
        elif is_indexed(u):
            base = app(ext('sympy.symbols'), (u.a[1][0],), (), 'sym')
            if base not in syms:
                ip.raise_builtin('NameError', 'name %s is not defined in the compiled function' % show(u))
            mp[u] = ip.getitem(syms[base], u.a[1][1])
        elif M.is_deriv(u):
            bad.append(u)
            return False
    if not M.sym_walk(e, visit) or bad:
        return None
    rep = {'sympy.Min': 'Min', 'sympy.Max': 'Max', 'sympy.log': 'log', 'sympy.exp': 'exp', 'sympy.sin': 'sin', 'sympy.cos': 'cos', 'sympy.tan': 'tan', 'sympy.Abs': 'Abs', 'sympy.sinh': 'sinh', 'sympy.cosh': 'cosh', 'sympy.tanh': 'tanh'}
    SAFE = {'Min': ('min', 'numpy.minimum', 'numpy.min', 'sympy.Min'), 'Max': ('max', 'numpy.maximum', 'numpy.max', 'sympy.Max'), 'log': ('numpy.log', 'math.log', 'sympy.log'), 'exp': ('numpy.exp', 'math.exp', 'sympy.exp'),
            'sin': ('numpy.sin', 'math.sin', 'sympy.sin'), 'cos': ('numpy.cos', 'math.cos', 'sympy.cos'), 'tan': ('numpy.tan', 'math.tan', 'sympy.tan'), 'Abs': ('abs', 'numpy.abs', 'math.fabs', 'sympy.Abs', 'numpy.absolute'),
            'sinh': ('numpy.sinh', 'math.sinh', 'sympy.sinh'), 'cosh': ('numpy.cosh', 'math.cosh', 'sympy.cosh'), 'tanh': ('numpy.tanh', 'math.tanh', 'sympy.tanh')}
    conv = {}
    for u in T.subterms(e):
        if u.kind == 'app' and I.head_name(u.a[0]) in rep:
            key = rep[I.head_name(u.a[0])]
            if key in over and I.head_name(over[key]) not in SAFE[key]:
                conv[u] = app(over[key], u.a[1], (), 'sym')
    if conv:
        e = T.subst(e, conv)
    try:
        if any(v.kind == 'g' for v in mp.values()):
            r = e
            for k, v in mp.items():
                r = gmap2(lambda a, b: T.subst(a, {k: b}), r, v)
            return r
        return T.subst(e, mp)
    except Exception:
        return None


def is_indexed(t):
    return hname(t) == 'sympy.Indexed'


# ------------------------------------------------------------------ hooks
_call_ext = M.call_ext
_ext_attr = M.ext_attr
_ext_item = M.ext_item
_length = M.length
_ext_isinstance = M.ext_isinstance
_is_fresh = M.is_fresh
_to_str1 = M.to_str1


def call_ext(ip, head, args, kw):
    if head.kind == 'ext':
        if head.a.startswith('numpy.'):
            r = numpy_call(ip, head.a, [ip.simp(a) for a in args], kw)
            if r is not None:
                return r
        if head.a == 'pandas.DataFrame':
            r = frame_new(ip, args, kw)
            if r is not None:
                return r
    if head.kind == 'attr':
        base, name = head.a
        if is_frame(ip, base):
            r = frame_method(ip, base, name, args, kw) or frame_pure(ip, base, name, args, kw)
            if r is not None:
                return r
            ip.undecided('table operation %s' % name)
        if base.kind in ('app', 'item', 'attr'):
            if name == 'reshape' and not kw:
                sh = args
                if len(args) == 1:
                    sh = seq_of(ip, args[0]) or args
                r = reshape(ip, base, sh)
                if r is not None:
                    return r
            if name == 'tolist' and not args:
                e = vec_elems(base)
                if e is not None:
                    return ip.new_list(e)
                c = to_cols(ip, base)
                if c is not None and all(vec_elems(x) is not None for x in c) and c:
                    return ip.new_list([ip.new_list([vec_elems(x)[i] for x in c]) for i in range(len(vec_elems(c[0])))])
                if hname(base) == 'pandas.Index':
                    return ip.new_list(list(base.a[1][0].a))
                if hname(base) == 'pandas.Series':
                    return tolist(ip, base.a[1][0])
            if hname(base) == 'pandas.Series' and not args and not kw and name in ('to_list', 'to_numpy'):
                return tolist(ip, base.a[1][0]) if name == 'to_list' else base.a[1][0]
            if name in ('flatten', 'ravel', 'squeeze', 'copy') and is_nd(base) and is_vec(base):
                return base
            if name in ('flatten', 'ravel') and not args and not kw:
                r = flat(ip, base)
                if r is not None:
                    return r
        if name == 'get' and args and args[0].kind == 's' and is_report(base):
            # a library documents the entries of its report
            return ext_item(ip, base, args[0])
        if num_ty(base) == 'sym' and name in ('evalf', 'n'):
            m = kw.get('subs', args[1] if len(args) > 1 else None)
            digits = kw.get('n', args[0] if args else None)
            if (digits is None or is_pynum(digits)) and not set(kw) - {'subs', 'n', 'maxn', 'strict', 'verbose', 'quad', 'chop'} and len(args) <= 2:
                r = base if m is None else M.sym_subs(ip, base, [m])
                if r is not None:
                    chop = kw.get('chop')
                    if digits is not None and T.cval(digits) < 15 or chop is not None and chop != FALSE:
                        # fewer digits than a float has, or small parts dropped: another value
                        return app(ext('sympy.N'), (r,) + tuple(x for x in (digits, chop) if x is not None), (), 'sym')
                    return r
    if head.kind == 'app' and hname(head) == 'sympy.lambdify' and len(head.a[1]) >= 2:
        r = lambdified(ip, head, args, kw)
        if r is not None:
            return r
    return _call_ext(ip, head, args, kw)


def ext_attr(ip, l, name):
    if is_frame(ip, l) and name in ('loc', 'iloc'):
        return app(ext('pandas.' + name), (l,), (), 'ext')
    if is_frame(ip, l):
        return frame_attr(ip, l, name)
    if l.kind in ('app', 'item', 'attr'):
        if name in ('shape', 'size', 'ndim'):
            r = nd_attr(ip, l, name)
            if r is not None:
                return r
        if hname(l) == 'pandas.Series' and name == 'values':
            return l.a[1][0]
        if hname(l) == 'pandas.Index' and name == 'values':
            return mkvec(l.a[1][0].a)
        if is_indexed(l) and name == 'indices':
            return tup([l.a[1][1]])
    return _ext_attr(ip, l, name)


def is_row(k):
    """an index: a number, or a generic member of range(...)"""
    return is_pynum(k) or k.kind == 'item' and k.a[0].kind == 'app' and k.a[0].a[0] is bi('range')


def is_report(l):
    """the report of a solver: second part of the answer of pyneqsys, answer of scipy"""
    if l.kind == 'item' and is_pynum(l.a[1]) and l.a[0].kind == 'app':
        h = l.a[0].a[0]
        return h.kind == 'attr' and h.a[1] == 'solve' and cval(l.a[1]) in (1, -1, 2)
    return hname(l) == 'scipy.optimize.root'


def ext_item(ip, l, k):
    if k.kind == 's' and hname(l) == 'scipy.optimize.root' and str_const(k):
        return ext_attr(ip, l, str_const(k)) or mk('attr', (l, str_const(k)))
    if is_frame(ip, l):
        r = frame_item(ip, l, k)
        if r is not None:
            return r
    if hname(l) in ('pandas.loc', 'pandas.iloc') and k.kind == 't' and len(k.a) == 2 and k.a[0].kind == 'slice' and k.a[0].a == OPEN_SLICE:
        if hname(l) == 'pandas.loc':
            r = frame_item(ip, l.a[1][0], k.a[1])
        else:
            r = frame_split(ip, l.a[1][0], lambda nm, d: frame_item(ip, l.a[1][0], nm[int(cval(k.a[1]))]) if is_pynum(k.a[1]) and -len(nm) <= int(cval(k.a[1])) < len(nm) else None)
        if r is not None:
            return r
    if hname(l) == 'sympy.IndexedBase' and l.a[1] and l.a[1][0].kind == 's' and is_pynum(k):
        return app(ext('sympy.Indexed'), (l.a[1][0], k), (), 'sym')
    if hname(l) == 'pandas.Index':
        return ip.seq_item(list(l.a[1][0].a), k)
    if l.kind == 'app' and (is_pynum(k) or k.kind == 'slice'):
        rows = rows_of(ip, l)
        if rows is not None:
            r = ip.seq_item(rows, k)
            if k.kind != 'slice':
                return r
            return cols([mkvec([vec_elems(x)[j] for x in r.a]) for j in range(len(to_cols(ip, l)))])
        e = vec_elems(l)
        if e is not None:
            r = ip.seq_item(e, k)
            return r if k.kind != 'slice' else mkvec(list(r.a))
    if l.kind == 'app' and l.a[0].kind == 'attr' and l.a[0].a[1] == 'tolist' and not l.a[1] and is_row(k):
        return ext_item(ip, l.a[0].a[0], k)
    if k.kind == 't' and len(k.a) == 2 and is_row(k.a[0]) and l.kind in ('app', 'item'):
        c = to_cols(ip, l)
        rows = rows_of(ip, l)
        if c is not None and rows is not None and is_pynum(k.a[0]):
            r = ip.seq_item(rows, k.a[0])
            return r if k.a[1].kind == 'slice' and k.a[1].a == OPEN_SLICE else ext_item(ip, r, k.a[1])
        if c is not None:
            r = mkvec([ext_item(ip, x, k.a[0]) for x in c])
            return r if k.a[1].kind == 'slice' and k.a[1].a == OPEN_SLICE else ext_item(ip, r, k.a[1])
    if k.kind == 't' and len(k.a) == 2 and k.a[0].kind == 'slice' and k.a[0].a == OPEN_SLICE:
        j = k.a[1]
        c = to_cols(ip, l)
        if c is not None:
            if j.kind == 'slice':
                return cols(ip.seq_item(c, j).a)
            if is_pynum(j):
                i = int(cval(j))
                if not -len(c) <= i < len(c):
                    ip.raise_builtin('IndexError', 'column index out of bounds')
                return c[i]
            r = take(ip, l, j)
            if r is not None:
                return r
    return _ext_item(ip, l, k)


def length(ip, v):
    if v.kind == 'app' and hname(v) == 'pandas.Index':
        return const(len(v.a[1][0].a))
    if v.kind == 'app':
        e = vec_elems(v)
        if e is not None:
            return const(len(e))
        c = to_cols(ip, v)
        if c and vec_elems(c[0]) is not None:
            return const(len(vec_elems(c[0])))
        if hname(v) == 'numpy.empty2':
            return const(0)
    if is_frame(ip, v):
        s = frame_attr(ip, v, 'shape')
        return gmap(lambda t: t.a[0], s)
    return _length(ip, v)


def ext_isinstance(ip, v, n):
    if is_nd(v) and n in ('list', 'dict', 'tuple', 'str', 'int', 'float'):
        return FALSE
    return _ext_isinstance(ip, v, n)


def is_fresh(head):
    if head.kind == 'ext' and head.a.endswith('.SymbolicSys'):
        return False
    return _is_fresh(head)


def to_str1(ip, l, how):
    if l.kind == 'app' and how in ('str', 'repr'):
        if M.is_deriv(l) and len(l.a[1]) == 2 and all(M.is_symbol(x) for x in l.a[1]):
            return sstr(['Derivative(', to_str1(ip, l.a[1][0], 'str'), ', ', to_str1(ip, l.a[1][1], 'str'), ')'])
        if hname(l) == 'sympy.Dummy':
            return const('_Dummy_%s' % cval(l.a[1][0]))
        if is_indexed(l):
            return sstr([l.a[1][0], '[%d]' % cval(l.a[1][1])])
    return _to_str1(ip, l, how)


M.call_ext, M.ext_attr, M.ext_item, M.length, M.ext_isinstance, M.is_fresh, M.to_str1 = call_ext, ext_attr, ext_item, length, ext_isinstance, is_fresh, to_str1

_sym_walk_ok = M.sym_walk


def sym_walk(t, visit):
    if is_indexed(t):
        visit(t)
        return True
    return _sym_walk_ok(t, visit)


# the recursive calls inside models go through the module attribute
M.sym_walk = sym_walk

_isinstance1 = I.Interp.isinstance1
_compare1 = I.Interp.compare1
_truth1 = I.Interp.truth1
_try_items = I.Interp.try_items
_eq1 = I.Interp.eq1


def isinstance1(self, v, c):
    if c.kind == 'ext' and c.a == 'numpy.ndarray' and is_nd(v):
        return TRUE
    if c.kind == 'ext' and c.a == 'pandas.DataFrame':
        return const(bool(is_frame(self, v)))
    return _isinstance1(self, v, c)


def positive_count(t):
    return hname(t) in ('numpy.size', 'numpy.rows')


def compare1(self, op, a, b):
    if op in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE'):
        if positive_count(a) and is_pynum(b) and cval(b) <= 0:
            return const(op in ('NotEq', 'Gt', 'GtE'))
        if positive_count(b) and is_pynum(a) and cval(a) <= 0:
            return const(op in ('NotEq', 'Lt', 'LtE'))
    return _compare1(self, op, a, b)


def truth1(self, l):
    if positive_count(l):
        return TRUE
    return _truth1(self, l)


def try_items(self, l):
    if l.kind == 'app':
        if hname(l) == 'pandas.Index':
            return list(l.a[1][0].a)
        e = vec_elems(l)
        if e is not None:
            return e
        e = rows_of(self, l)
        if e is not None:
            return e
    if is_frame(self, l):
        c, d = frame_parts(self, l)
        if c.kind == 't':
            return list(c.a)
    return _try_items(self, l)


def closed(t):
    """structurally known symbolic expression without opaque parts"""
    ok = [True]

    def visit(u):
        if u.kind == 'sym' or (M.is_symbol(u) and u.a[1] and u.a[1][0].kind != 's' and hname(u) != 'sympy.Dummy'):
            ok[0] = False
        if M.is_symbol(u) and u.a[1][0].kind == 's' and str_const(u.a[1][0]) is None:
            ok[0] = False
    return num_ty(t) == 'sym' and M.sym_walk(t, visit) and ok[0]


def eq1(self, a, b):
    if a is not b and a.kind in ('app', 'n') and b.kind in ('app', 'n') and closed(a) and closed(b):
        return FALSE
    return _eq1(self, a, b)


I.Interp.isinstance1, I.Interp.compare1, I.Interp.truth1, I.Interp.try_items, I.Interp.eq1 = isinstance1, compare1, truth1, try_items, eq1
