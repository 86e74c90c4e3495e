"""Models of Python builtins, container methods and the few library functions whose meaning the
rules need; every other library call stays an uninterpreted term."""
import ast
from .terms import *
from .terms import to_poly
from . import terms as T
from . import symattrs as SY
from fractions import Fraction
from . import interp as I

LIST_M = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'index', 'count', 'sort', 'reverse', 'copy', '__len__', '__iter__', '__contains__', '__getitem__', '__setitem__', '__add__'}
DICT_M = {'keys', 'values', 'items', 'get', 'update', 'pop', 'popitem', 'setdefault', 'clear', 'copy', 'fromkeys', '__len__', '__iter__', '__contains__', '__getitem__', '__setitem__'}
SET_M = {'add', 'discard', 'remove', 'update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy', 'clear', 'pop', 'isdisjoint', 'symmetric_difference', 'difference_update', 'intersection_update', '__contains__', '__len__', '__iter__'}
METHODS = {'list': LIST_M, 'dict': DICT_M, 'set': SET_M, 'iter': {'__next__', '__iter__'}, 'gen': {'__next__', '__iter__'}, 'deque': LIST_M | {'appendleft', 'popleft'}}


def bi(n):
    return mk('bi', n)


# ------------------------------------------------------------------ strings
def to_str(ip, v, how='str'):
    return ip.split(v, lambda l: to_str1(ip, l, how))


def to_str1(ip, l, how):
    k = l.kind
    if how.startswith('fmt:'):
        c = None
        if l.kind == 'c' or str_const(l) is not None:
            try:
                return const(format(cval(l) if l.kind == 'c' else str_const(l), how[4:]))
            except Exception:
                pass
        return sstr([app(bi(how), (ip.freeze(l),))])
    if k == 's':
        if how == 'repr':
            return sstr(["'", l, "'"])
        return l
    if k == 'c':
        return const(str(cval(l)))
    if k == 'r':
        o = ip.h(l)
        if o.kind == 'inst' and ip.isobj(o.cls, 'class'):
            order = ('__repr__',) if how == 'repr' else ('__str__', '__repr__')
            for nm in order:
                m = ip.class_attr(o.cls, nm)
                if m is not None:
                    return ip.call(ip.bind(m, l), [], {})
            return sstr([app(bi('str'), (l,))])
        if o.kind == 'inst':
            a = o.data.get('args')
            if a is not None and a.kind == 't' and len(a.a) == 1:
                return to_str(ip, a.a[0], how)
            return sstr([app(bi('str'), (l,))])
        return sstr([app(bi('str'), (ip.freeze(l),))])
    if k == 'app' and l.a[0].kind == 'ext' and l.a[0].a in ('sympy.symbols', 'sympy.Symbol') and l.a[1] and l.a[1][0].kind == 's':
        return l.a[1][0]
    if k == 'bt' or k == 'fn':
        return sstr([app(bi('str'), (l,))])
    return sstr([app(bi('str'), (ip.freeze(l),))])


def str_eq(ip, a, b):
    if a is b:
        return TRUE
    ca, cb = str_const(a), str_const(b)
    if ca is not None and cb is not None:
        return const(ca == cb)
    if opaque_str(a) or opaque_str(b):
        return atom('streq', *sorted((a, b)))
    # generic names: pairwise distinct, non-empty, unrelated to literals
    return FALSE


def opaque_str(s):
    """contains parts that are neither literals nor generic names"""
    return any(not isinstance(p, str) and not (p.kind == 'sym' and p.ty == 'str') for p in s.a)


def in_printed(name, parts):
    """whether a name occurs in the printed form of symbolic expressions over symbols of known names"""
    if '_' not in name or not name.isidentifier():
        return None
    known = True
    for p in parts:
        if isinstance(p, str):
            continue
        if not (p.kind == 'app' and p.a[0].kind == 'bi' and p.a[0].a == 'str' and len(p.a[1]) == 1) or contains(p, lambda u: u.kind in ('g', 'r', 'top')):
            known = False
            continue
        for u in subterms(p.a[1][0]):
            if u.kind == 'app' and u.a[0].kind == 'ext' and u.a[0].a in ('sympy.symbols', 'sympy.Symbol', 'sympy.Function') or u.kind == 's':
                c = str_const(u.a[1][0]) if u.kind == 'app' else str_const(u)
                if c is None:
                    known = False
                elif name in c and u.kind == 'app':
                    return True
    return False if known else None


def str_contains(ip, cont, x):
    if x.kind != 's':
        if x.kind in ('app', 'attr', 'item', 'sym'):
            return atom('instr', x, cont)
        ip.raise_builtin('TypeError', 'in <string> requires string')
    cc, cx = str_const(cont), str_const(x)
    if cc is not None and cx is not None:
        return const(cx in cc)
    if not x.a:
        return TRUE
    # structural containment
    px, pc = x.a, cont.a
    if len(px) == 1 and isinstance(px[0], str):
        if any(isinstance(p, str) and px[0] in p for p in pc):
            return TRUE
        if not opaque_str(cont):
            return FALSE
        r = in_printed(px[0], pc)
        return atom('instr', x, cont) if r is None else const(r)
    n = len(px)
    for i in range(len(pc) - n + 1):
        if tuple(pc[i:i + n]) == tuple(px):
            return TRUE
        ok = True
        for j in range(n):
            p, q = px[j], pc[i + j]
            if isinstance(p, str) and isinstance(q, str):
                if j == 0:
                    ok &= q.endswith(p)
                elif j == n - 1:
                    ok &= q.startswith(p)
                else:
                    ok &= p == q
            else:
                ok &= p is q
        if ok:
            return TRUE
    if opaque_str(cont) or opaque_str(x):
        return atom('instr', x, cont)
    return FALSE


def str_len(s):
    n = 0
    r = const(0)
    for p in s.a:
        if isinstance(p, str):
            n += len(p)
        else:
            r = arith('+', r, app(bi('len'), (mk('s', (p,)),), ty='int'))
    return arith('+', r, const(n))


def str_item(ip, s, k):
    c = str_const(s)
    if k.kind == 'slice':
        lo, hi, step = k.a
        if c is not None and all(x is NONE or is_pynum(x) for x in k.a):
            b = [None if x is NONE else int(cval(x)) for x in k.a]
            return const(c[slice(*b)])
        if step is NONE:
            r = str_slice(ip, s, lo, hi)
            if r is not None:
                return r
        return sstr([app(bi('slice'), (s,) + k.a)])
    if c is not None and is_pynum(k):
        try:
            return const(c[int(cval(k))])
        except IndexError:
            ip.raise_builtin('IndexError', 'string index')
    if is_pynum(k) and s.a:
        i = int(cval(k))
        if i == 0 and isinstance(s.a[0], str):
            return const(s.a[0][0])
        if i == -1 and isinstance(s.a[-1], str):
            return const(s.a[-1][-1])
    return sstr([app(bi('char'), (s, k))])


def _chars(s):
    out = []
    for p in s.a:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def str_slice(ip, s, lo, hi):
    chars = _chars(s)
    total = str_len(s)

    def cut(b):
        """index into chars at which offset b falls, or None"""
        acc = const(0)
        for i in range(len(chars) + 1):
            if arith('-', acc, b) is const(0):
                return i
            if i < len(chars):
                p = chars[i]
                acc = arith('+', acc, const(1) if isinstance(p, str) else app(bi('len'), (mk('s', (p,)),), ty='int'))
        return None

    def norm(b, dflt):
        if b is NONE:
            return dflt
        if num_ty(b) is None:
            return None
        # negative: constant part <= 0 and all coefs negative
        p = to_poly(b)
        if p and all(c < 0 for c in p.values()):
            return arith('+', total, b)
        return b
    lo2, hi2 = norm(lo, const(0)), norm(hi, total)
    if lo2 is None or hi2 is None:
        return None
    i = cut(lo2)
    j = cut(hi2)
    if i is None or j is None:
        return None
    return sstr(chars[i:j])


def str_mod(ip, fmt, args):
    f = str_const(fmt)
    if f is None:
        # generic text: split literal pieces
        return sstr([app(bi('%'), (fmt, ip.freeze(args)))])
    vals = list(args.a) if args.kind == 't' else [args]
    parts = []
    i = 0
    import re
    pos = 0
    for m in re.finditer(r'%(\(\w+\))?[-#0 +]*\d*(?:\.\d+)?([sdifgerxXc%])', f):
        parts.append(const(f[pos:m.start()]))
        pos = m.end()
        if m.group(2) == '%':
            parts.append(const('%'))
            continue
        if m.group(1):
            parts.append(to_str(ip, ip.getitem(args, const(m.group(1)[1:-1]))))
            continue
        if i >= len(vals):
            ip.raise_builtin('TypeError', 'not enough arguments for format string')
        parts.append(to_str(ip, vals[i], 'str'))
        i += 1
    if i < len(vals) and not ('%(' in f) and not (args.kind != 't' and ip.isobj(args, 'dict')):
        ip.raise_builtin('TypeError', 'not all arguments converted during string formatting')
    parts.append(const(f[pos:]))
    r = const('')
    for p in parts:
        r = gmap2(lambda a, b: sstr([a, b]), r, p)
    return r


def str_format(ip, s, args, kw):
    f = str_const(s)
    if f is None:
        return sstr([app(bi('format'), (s,) + tuple(ip.freeze(a) for a in args))])
    import string
    r = const('')
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        r = gmap(lambda a: sstr([a, lit]), r)
        if field is None:
            continue
        name = field.split('.')[0].split('[')[0]
        if name == '':
            if auto >= len(args):
                ip.raise_builtin('IndexError', 'Replacement index out of range')
            v = args[auto]
            auto += 1
        elif name.isdigit():
            if int(name) >= len(args):
                ip.raise_builtin('IndexError', 'Replacement index out of range')
            v = args[int(name)]
        else:
            if name not in kw:
                ip.raise_builtin('KeyError', name)
            v = kw[name]
        rest = field[len(name):]
        if rest:
            for part in rest.replace('[', '.[').split('.')[1:]:
                if part.startswith('['):
                    key = part[1:-1]
                    v = ip.getitem(v, const(int(key)) if key.isdigit() else const(key))
                else:
                    v = ip.getattr(v, part)
        t = to_str(ip, v, 'fmt:' + spec if spec else ('repr' if conv == 'r' else 'str'))
        r = gmap2(lambda a, b: sstr([a, b]), r, t)
    return r


def str_join(ip, sep, items):
    r = None
    for it in items:
        p = I.presence(it)
        it = I.drop_absent(it)
        for l in leafset(it):
            if l.kind != 's' and l.kind in ('c', 'r', 't', 'n'):
                ip.raise_builtin('TypeError', 'sequence item: expected str instance')
        it = gmap(lambda l: l if l.kind == 's' else sstr([app(bi('str'), (l,))]), it)
        if r is None:
            r = it if p is TRUE else ite(p, it, ABSENT)
        else:
            new = gmap2(lambda a, b: b if a is ABSENT else sstr([a, sep, b]), r, it)
            r = new if p is TRUE else ite(p, new, r)
    if r is None:
        return const('')
    return gmap(lambda l: const('') if l is ABSENT else l, r)


def str_method(ip, s, name, args, kw):
    c = str_const(s)
    if name == 'join':
        return str_join(ip, s, ip.iter_items(args[0]))
    if name == 'format':
        return str_format(ip, s, args, kw)
    if name == 'format_map':
        return str_format(ip, s, [], {str_const(k): v for k, v in ip.h(args[0]).data.items()})
    cargs = []
    for a in args:
        if a.kind == 's':
            cargs.append(str_const(a))
        elif is_pynum(a):
            cargs.append(cval(a))
        elif a is NONE:
            cargs.append(None)
        elif a.kind == 't' and all(x.kind == 's' and str_const(x) is not None for x in a.a):
            cargs.append(tuple(str_const(x) for x in a.a))
        else:
            cargs.append(ip)
    if name in ('startswith', 'endswith') and args and args[0].kind == 's' and len(args) == 1:
        x = args[0]
        if c is not None and str_const(x) is not None:
            return const(getattr(c, name)(str_const(x)))
        a_, b_ = _chars(s), _chars(x)
        if len(b_) <= len(a_):
            seg = a_[:len(b_)] if name == 'startswith' else a_[len(a_) - len(b_):]
            if all((p is q) or p == q if isinstance(p, str) == isinstance(q, str) else False for p, q in zip(seg, b_)):
                return TRUE
        if opaque_str(s) or opaque_str(x):
            return atom(name, s, x)
        return FALSE
    if c is not None and not any(a is ip for a in cargs) and not any(a.kind == 's' and b is None for a, b in zip(args, cargs)):
        try:
            r = getattr(c, name)(*cargs)
        except (ValueError, IndexError) as e:
            ip.raise_builtin(type(e).__name__, str(e))
        except TypeError as e:
            ip.raise_builtin('TypeError', str(e))
        if isinstance(r, (str, bool, int)):
            return const(r)
        if isinstance(r, list):
            return ip.new_list([const(x) for x in r])
        if isinstance(r, tuple):
            return tup([const(x) for x in r])
    if name in ('strip', 'lstrip', 'rstrip') and not opaque_str(s) and s.a:
        first, last = s.a[0], s.a[-1]
        parts = list(s.a)
        chars_ = cargs[0] if cargs and isinstance(cargs[0], str) else None
        if isinstance(first, str) and name in ('strip', 'lstrip'):
            parts[0] = first.lstrip(chars_)
        if isinstance(last, str) and name in ('strip', 'rstrip'):
            parts[-1] = parts[-1].rstrip(chars_)
        return sstr(parts)
    if name in ('removesuffix', 'removeprefix') and args[0].kind == 's':
        a_, b_ = _chars(s), _chars(args[0])
        n = len(b_)
        if n <= len(a_):
            seg = a_[len(a_) - n:] if name == 'removesuffix' else a_[:n]
            if seg == b_:
                return sstr(a_[:len(a_) - n] if name == 'removesuffix' else a_[n:])
        return s
    if name == 'replace' and len(args) == 2 and args[0].kind == 's':
        a_, b_, r_ = _chars(s), _chars(args[0]), args[1]
        n = len(b_)
        if n:
            out, i = [], 0
            while i < len(a_):
                if a_[i:i + n] == b_:
                    out.append(r_)
                    i += n
                else:
                    out.append(a_[i])
                    i += 1
            return sstr(out)
    if name in ('rsplit', 'split', 'partition', 'rpartition') and cargs and isinstance(cargs[0], str) and not opaque_str(s):
        # generic names are assumed not to contain the separator only when it is not '_'
        sepc = cargs[0]
        if sepc != '_':
            out, cur = [], []
            ch = _chars(s)
            i = 0
            n = len(sepc)
            segs = []
            while i < len(ch):
                if all(isinstance(x, str) for x in ch[i:i + n]) and ''.join(ch[i:i + n]) == sepc and len(ch[i:i + n]) == n:
                    segs.append(sstr(cur))
                    cur = []
                    i += n
                else:
                    cur.append(ch[i])
                    i += 1
            segs.append(sstr(cur))
            if name in ('split', 'rsplit') and len(args) == 1:
                return ip.new_list(segs)
    if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'encode', 'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'strip', 'lstrip', 'rstrip', 'replace'):
        return sstr([app(bi('str.' + name), (s,) + tuple(ip.freeze(a) for a in args))])
    if name in ('index', 'find', 'rfind', 'rindex', 'count'):
        return top('str.' + name)
    if name in ('isdigit', 'isalpha', 'isidentifier', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal'):
        return atom('str.' + name, s)
    return top('str.' + name)


# ------------------------------------------------------------------ containers
def is_star(k):
    """key under which a dictionary records an opaque mapping it was updated with"""
    return k.kind == 'bi' and k.a.startswith('**')


def star_item(ip, data, k):
    """value of an absent key: (condition, value) from the opaque mappings, the latest first; None without any"""
    maps = [v for q, v in data.items() if is_star(q)]
    if not maps:
        return None
    if any(I.presence(m) is not TRUE for m in maps):
        ip.undecided('dictionary perhaps updated with an opaque mapping')
    r = ABSENT
    for m in maps:
        r = ite(atom('in', k, m), ext_item(ip, m, k), r)
    return r


def opaque_update(ip, d, o, skip=()):
    data = ip.mut(d).data
    if any(v is o for k, v in data.items() if is_star(k)):
        ip.undecided('dictionary updated twice with the same opaque mapping')
    for k in list(data):
        if not is_star(k) and k not in skip:
            data[k] = ite(atom('in', k, o), ext_item(ip, o, k), data[k])
    data[mk('bi', '**%d' % sum(map(is_star, data)))] = o


def is_any(k):
    """the key (or value) of an arbitrary entry of an opaque mapping"""
    return k.kind == 'app' and k.a[0].kind == 'bi' and k.a[0].a in ('anykey', 'anyval')


def anykey(x):
    return app(mk('bi', 'anykey'), (x,))


def anyval(x):
    return app(mk('bi', 'anyval'), (x,))


def any_items(ip, v):
    """one generic entry standing for all entries of an opaque mapping (a loop over them); None when v is not recognised as one"""
    x = v
    kind = 'keys'
    if v.kind == 'app' and v.a[0].kind == 'attr' and v.a[0].a[1] in ('items', 'keys', 'values') and not v.a[1]:
        x, kind = v.a[0].a[0], v.a[0].a[1]
    if hname1(x) not in ('json.load', 'json.loads'):
        return None
    ip.any_used = True
    return [tup([anykey(x), anyval(x)]) if kind == 'items' else anykey(x) if kind == 'keys' else anyval(x)]


def any_store(ip, l, k, v):
    x = k.a[1][0]
    if k.a[0].a != 'anykey' or v is not anyval(x):
        ip.undecided('computed entry for every entry of an opaque mapping')
    opaque_update(ip, l, x)
    return NONE


def hname1(t):
    return t.a[0].a if t.kind == 'app' and t.a[0].kind == 'ext' else None


def no_stars(ip, data):
    if any(map(is_star, data)):
        ip.undecided('content of a dictionary updated with an opaque mapping')


def dict_update(ip, d, other):
    def f(o):
        if ip.isobj(o, 'dict'):
            src = dict(ip.h(o).data)
            maps = [v for k, v in src.items() if is_star(k)]
            for m in maps:
                opaque_update(ip, d, m, skip=src)
            for k, v in src.items():
                if is_star(k):
                    continue
                v = ip.simp(v)
                p = I.presence(v)
                if p is TRUE:
                    ip.mut(d).data[k] = v
                elif p is not FALSE:
                    old = ip.h(d).data.get(k, ABSENT)
                    ip.mut(d).data[k] = ite(p, v, old)
            return NONE
        if o.kind == 'idict':
            for n, v in list(ip.h(mk('r', o.a)).data.items()):
                ip.mut(d).data[const(n)] = v
            return NONE
        if o.kind == 'dct':
            for k, v in o.a:
                ip.mut(d).data[k] = v
            return NONE
        if o is NONE or o.kind in ('c', 'n') or num_ty(o) in ('int', 'float', 'num'):
            ip.raise_builtin('TypeError', 'not a mapping')
        if o.kind in ('app', 'attr', 'item', 'sym') or ip.isobj(o, 'ext'):
            opaque_update(ip, d, o)
            return NONE
        if ip.isobj(o, 'inst'):
            ip.raise_builtin('TypeError', 'not a mapping')
        store_pairs(ip, d, ip.iter_items(o))
        return NONE
    return ip.split(other, f)


def make_dict(ip, acc, od=False):
    d = ip.new_dict(od=od)
    store_pairs(ip, d, list(ip.h(acc).data))
    return d


def store_pairs(ip, d, items):
    for it in items:
        p = I.presence(ip.simp(it))
        it = I.drop_absent(ip.simp(it))

        def one(t, p=p):
            def store(vs):
                k = vs[0]
                if ip.isobj(k, ('list', 'dict', 'set')):
                    ip.raise_builtin('TypeError', 'unhashable type')
                if is_any(k):
                    if p is not TRUE:
                        ip.undecided('conditional entry of an opaque mapping')
                    return any_store(ip, d, k, ip.simp(t.a[1]))
                old = ip.h(d).data.get(k, ABSENT)
                ip.mut(d).data[k] = t.a[1] if p is TRUE else ite(p, t.a[1], old)
                return NONE
            if t.kind == 't':
                return ip.splitn([t.a[0]], store)
            kv = ip.try_items(t)
            if kv is None:
                kv = [ip.opaque_item(t, const(0)), ip.opaque_item(t, const(1))]
            if len(kv) != 2:
                ip.raise_builtin('ValueError', 'dictionary update sequence')
            old = ip.h(d).data.get(kv[0], ABSENT)
            ip.mut(d).data[kv[0]] = kv[1] if p is TRUE else ite(p, kv[1], old)
            return NONE
        ip.split(it, one)


def make_set(ip, acc):
    d = {}
    for it in (acc if isinstance(acc, list) else ip.h(acc).data if ip.isobj(acc, "list") else acc):
        it = ip.simp(it)
        for c, l in leaves(it):
            if l is ABSENT:
                continue
            if ip.isobj(l, ('list', 'dict', 'set')):
                ip.raise_builtin('TypeError', 'unhashable type')
            d[l] = OR(I.presence(d[l]) if l in d else FALSE, c)
    d = {k: (TRUE if c is TRUE else ite(c, TRUE, ABSENT)) for k, c in d.items()}
    return ip.alloc('set', d)


def length(ip, v):
    def f(l):
        k = l.kind
        if k == 's':
            return str_len(l)
        if k in ('t', 'lst', 'dct'):
            return const(len(l.a))
        if k == 'r':
            o = ip.h(l)
            if o.kind in ('list', 'dict', 'set', 'deque'):
                data = o.data if isinstance(o.data, list) else list(o.data.values())
                n = const(0)
                for x in data:
                    p = I.presence(ip.simp(x))
                    n = gmap2(lambda a, b: arith('+', a, b), n, ite(p, const(1), const(0)))
                return n
            if o.kind == 'inst' and ip.isobj(o.cls, 'class'):
                m = ip.class_attr(o.cls, '__len__')
                if m is not None:
                    return ip.call(ip.bind(m, l), [], {})
                ip.raise_builtin('TypeError', 'object has no len()')
            if o.kind == 'ext':
                return app(bi('len'), (l,), ty='int')
            ip.raise_builtin('TypeError', 'object has no len()')
        if k == 'idict':
            return const(len(ip.h(mk('r', l.a)).data))
        if k == 'c' or num_ty(l) in ('int', 'float', 'num', 'sym') or k in ('fn', 'bm', 'bt', 'bi'):
            ip.raise_builtin('TypeError', 'object has no len()')
        if k == 'app' and l.a[0].kind == 'ext' and l.a[0].a in ('numpy.array', 'numpy.asarray') and l.a[1] and l.a[1][0].kind == 'lst':
            return const(len(l.a[1][0].a))
        return app(bi('len'), (l,), ty='int')
    return ip.split(v, f)


def list_method(ip, l, name, args, kw):
    if name == 'append':
        ip.mut(l).data.append(args[0])
        return NONE
    if name == 'appendleft':
        ip.mut(l).data.insert(0, args[0])
        return NONE
    if name in ('extend', '__iadd__'):
        its = ip.iter_items(args[0])
        ip.mut(l).data.extend(its)
        return NONE
    if name == 'insert':
        d = ip.plain_list(l)
        if not is_pynum(args[0]):
            ip.undecided('insert at opaque index')
        d.insert(int(cval(args[0])), args[1])
        ip.mut(l).data[:] = d
        return NONE
    if name in ('pop', 'popleft'):
        d = ip.plain_list(l)
        i = int(cval(args[0])) if args and is_pynum(args[0]) else (0 if name == 'popleft' else -1)
        if args and not is_pynum(args[0]):
            ip.undecided('pop at opaque index')
        if not -len(d) <= i < len(d):
            ip.raise_builtin('IndexError', 'pop index out of range')
        r = d.pop(i)
        ip.mut(l).data[:] = d
        return r
    if name == 'clear':
        ip.mut(l).data[:] = []
        return NONE
    if name == 'remove':
        d = ip.plain_list(l)
        for i, x in enumerate(d):
            c = ip.simp(OR(ip.same(x, args[0]), ip.eq_bool(x, args[0])))
            if c is TRUE:
                del d[i]
                ip.mut(l).data[:] = d
                return NONE
            if c is not FALSE:
                ip.undecided('remove of opaque element')
        ip.raise_builtin('ValueError', 'list.remove(x): x not in list')
    if name == 'reverse':
        ip.mut(l).data.reverse()
        return NONE
    if name == 'copy':
        return ip.new_list(ip.h(l).data)
    if name == 'sort':
        its = sort_items(ip, ip.plain_list(l), kw)
        ip.mut(l).data[:] = its
        return NONE
    if name == 'index':
        d = ip.plain_list(l)
        for i, x in enumerate(d):
            c = ip.simp(OR(ip.same(x, args[0]), ip.eq_bool(x, args[0])))
            if c is TRUE:
                return const(i)
            if c is not FALSE:
                ip.undecided('index of opaque element')
        ip.raise_builtin('ValueError', 'not in list')
    if name == 'count':
        n = const(0)
        for x in ip.plain_list(l):
            c = OR(ip.same(x, args[0]), ip.eq_bool(x, args[0]))
            n = gmap2(lambda a, b: arith('+', a, b), n, ite(c, const(1), const(0)))
        return n
    if name == '__contains__':
        return ip.contains1(l, args[0])
    if name == '__getitem__':
        return ip.getitem(l, args[0])
    if name == '__setitem__':
        ip.setitem(l, args[0], args[1])
        return NONE
    if name == '__len__':
        return length(ip, l)
    if name == '__add__':
        return ip.binop('Add', l, args[0])
    if name == '__iter__':
        return ip.alloc('iter', ip.iter_items(l))
    ip.undecided('list.' + name)


def view(ip, l, name):
    o = ip.h(l)
    no_stars(ip, o.data)
    out = []
    for k, v in o.data.items():
        v = ip.simp(v)
        p = I.presence(v)
        if p is FALSE:
            continue
        w = I.drop_absent(v)
        e = k if name == 'keys' else w if name == 'values' else tup([k, w])
        out.append(e if p is TRUE else ite(p, e, ABSENT))
    return out


def dict_method(ip, l, name, args, kw):
    if name in ('keys', 'values', 'items'):
        return ip.alloc('list', view(ip, l, name), meta='view:' + name)
    if name in ('get', 'pop', 'setdefault'):
        def f(vs):
            k = vs[0]
            o = ip.h(l)
            kk = k if k in o.data else ip.find_key(o.data, k)
            dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
            if kk is None and any(map(is_star, o.data)):
                w = star_item(ip, o.data, k)
                if name != 'get':
                    no_stars(ip, o.data)
                return gmap2(lambda x, y: y if x is ABSENT else x, w, dflt)
            if name == 'pop':
                no_stars(ip, o.data)
            if kk is None:
                if (ip.key_uncertain(k) and o.data) or any(ip.key_uncertain(x) and x.kind == k.kind for x in o.data):
                    ip.undecided('dictionary lookup with opaque key')
                if name == 'pop' and len(args) < 2:
                    ip.raise_builtin('KeyError', show(k))
                if name == 'setdefault':
                    ip.mut(l).data[k] = dflt
                return dflt
            v = ip.simp(o.data[kk])
            p = I.presence(v)
            if name == 'pop':
                if p is not TRUE and len(args) < 2:
                    ip.fork(p, lambda: NONE, lambda: ip.raise_builtin('KeyError', show(k)))
                    v = ip.simp(v)
                del ip.mut(l).data[kk]
            r = v if p is TRUE else gmap2(lambda x, y: y if x is ABSENT else x, v, dflt)
            if name == 'setdefault' and p is not TRUE:
                ip.mut(l).data[kk] = r
            return r
        return ip.splitn([args[0]], f)
    if name == 'update':
        for a in args:
            dict_update(ip, l, a)
        for k, v in kw.items():
            ip.mut(l).data[const(k)] = v
        return NONE
    if name == 'clear':
        ip.mut(l).data.clear()
        return NONE
    if name in ('copy', '__copy__'):
        return ip.alloc('dict', dict(ip.h(l).data), meta=ip.h(l).meta)
    if name == 'popitem':
        d = ip.h(l).data
        if not d:
            ip.raise_builtin('KeyError', 'popitem')
        last = kw.get('last', args[0] if args else TRUE)
        k = list(d)[-1 if last is TRUE else 0]
        v = ip.mut(l).data.pop(k)
        return tup([k, v])
    if name == 'move_to_end':
        d = ip.mut(l).data
        v = d.pop(args[0])
        if kw.get('last', args[1] if len(args) > 1 else TRUE) is FALSE:
            items = list(d.items())
            d.clear()
            d[args[0]] = v
            d.update(items)
        else:
            d[args[0]] = v
        return NONE
    if name == 'fromkeys':
        return ip.new_dict([(k, args[1] if len(args) > 1 else NONE) for k in ip.iter_items(args[0])])
    if name == '__contains__':
        return ip.contains1(l, args[0])
    if name == '__getitem__':
        return ip.getitem(l, args[0])
    if name == '__setitem__':
        ip.setitem(l, args[0], args[1])
        return NONE
    if name == '__len__':
        return length(ip, l)
    if name == '__iter__':
        return ip.alloc('iter', ip.iter_items(l))
    ip.undecided('dict.' + name)


def set_method(ip, l, name, args, kw):
    if name == 'add':
        for c, x in leaves(ip.simp(args[0])):
            old = ip.h(l).data.get(x)
            ip.mut(l).data[x] = TRUE if c is TRUE or old is TRUE else ite(c, TRUE, ABSENT if old is None else old)
        return NONE
    if name in ('discard', 'remove'):
        if args[0] in ip.h(l).data:
            del ip.mut(l).data[args[0]]
        elif name == 'remove':
            ip.raise_builtin('KeyError', show(args[0]))
        return NONE
    if name == 'update':
        for a in args:
            for x in ip.iter_items(a):
                set_method(ip, l, 'add', [x], {})
        return NONE
    if name == 'copy':
        return ip.alloc('set', dict(ip.h(l).data))
    if name == 'clear':
        ip.mut(l).data.clear()
        return NONE
    if name in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
        cur = dict(ip.h(l).data)
        for a in args:
            oth = ip.h(make_set(ip, ip.iter_items(a))).data
            if name == 'union':
                cur.update(oth)
            elif name == 'intersection':
                cur = {k: v for k, v in cur.items() if k in oth}
            elif name == 'difference':
                cur = {k: v for k, v in cur.items() if k not in oth}
            elif name == 'symmetric_difference':
                cur = {**{k: v for k, v in cur.items() if k not in oth}, **{k: v for k, v in oth.items() if k not in cur}}
            elif name == 'issubset':
                return const(set(cur) <= set(oth))
            elif name == 'issuperset':
                return const(set(cur) >= set(oth))
            else:
                return const(not (set(cur) & set(oth)))
        return ip.alloc('set', cur)
    if name == '__contains__':
        return ip.contains1(l, args[0])
    if name == '__len__':
        return length(ip, l)
    ip.undecided('set.' + name)


def call_method(ip, l, name, args, kw):
    if l.kind == 's':
        return ip.splitn(args, lambda vs: str_method(ip, l, name, vs, kw))
    if l.kind == 't':
        if name == 'index':
            for i, x in enumerate(l.a):
                if ip.simp(ip.eq_bool(x, args[0])) is TRUE:
                    return const(i)
            ip.raise_builtin('ValueError', 'tuple.index')
        if name == 'count':
            return const(sum(1 for x in l.a if ip.simp(ip.eq_bool(x, args[0])) is TRUE))
        if name == '__len__':
            return const(len(l.a))
        if name == '__getitem__':
            return ip.getitem(l, args[0])
        if name == '__contains__':
            return ip.contains1(l, args[0])
        ip.undecided('tuple.' + name)
    if l.kind == 'idict':
        base = mk('r', l.a)
        d = ip.h(base).data
        if name in ('get', 'pop', 'setdefault', '__contains__', '__getitem__'):
            n = str_const(args[0])
            if n is None:
                ip.undecided('__dict__ access with opaque name')
            if name == '__contains__':
                return const(n in d)
            if n in d:
                if name == 'pop':
                    return ip.mut(base).data.pop(n)
                return d[n]
            if name in ('pop', '__getitem__') and len(args) < 2:
                ip.raise_builtin('KeyError', n)
            dv = args[1] if len(args) > 1 else NONE
            if name == 'setdefault':
                ip.mut(base).data[n] = dv
            return dv
        if name == 'update':
            for a in args:
                if ip.isobj(a, 'dict'):
                    for k, v in ip.h(a).data.items():
                        ip.setitem(l, k, v)
                elif a.kind == 'idict':
                    ip.mut(base).data.update(ip.h(mk('r', a.a)).data)
                else:
                    ip.undecided('__dict__.update')
            for k, v in kw.items():
                ip.mut(base).data[k] = v
            return NONE
        if name in ('keys', 'values', 'items'):
            return ip.new_list([const(n) if name == 'keys' else v if name == 'values' else tup([const(n), v]) for n, v in d.items()])
        if name == 'copy':
            return ip.new_dict([(const(n), v) for n, v in d.items()])
        if name == '__setitem__':
            ip.setitem(l, args[0], args[1])
            return NONE
        ip.undecided('__dict__.' + name)
    if l.kind == 'r':
        o = ip.h(l)
        if o.kind in ('list', 'deque'):
            return list_method(ip, l, name, args, kw)
        if o.kind == 'dict':
            return dict_method(ip, l, name, args, kw)
        if o.kind == 'set':
            return set_method(ip, l, name, args, kw)
        if o.kind in ('iter', 'gen'):
            if name == '__next__':
                return call_builtin(ip, 'next', [l], {})
            return l
        if o.kind == 'inst':
            if name in ('__str__', '__repr__'):
                return to_str(ip, l)
            if name == '__setattr__':
                n = str_const(args[0])
                ip.mut(l).data[n] = args[1]
                return NONE
            if name == '__getattribute__':
                return ip.getattr(l, str_const(args[0]))
            return l
    if l.kind == 'c' or num_ty(l) in ('int', 'float', 'num'):
        if name == 'is_integer':
            if l.kind == 'c':
                return const(float(cval(l)).is_integer())
            return atom('is_integer', l)
        OPM = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__pow__': 'Pow'}
        if name in OPM:
            return ip.binop(OPM[name], l, args[0])
        if name in ('__radd__', '__rsub__', '__rmul__', '__rtruediv__', '__rpow__'):
            return ip.binop(OPM['__' + name[3:]], args[0], l)
        if name == '__eq__':
            return ip.compare('Eq', l, args[0])
        if name == '__neg__':
            return neg(l)
        if name in ('real', 'conjugate'):
            return l
        return top('number.' + name)
    ip.undecided('method %s' % name)


# ------------------------------------------------------------------ sorting
def sort_key(ip, v):
    v = ip.simp(v)
    if v.kind == 's':
        return (1, sort_label(v)), str_const(v) is not None
    if is_pynum(v):
        return (0, cval(v)), True
    if v.kind == 't':
        ks = [sort_key(ip, x) for x in v.a]
        return (2,) + tuple(k for k, _ in ks), all(e for _, e in ks)
    if v.kind == 'g':
        ip.undecided('sort by gated key')
    return (3, show(v)), False


def sort_items(ip, items, kw):
    key = kw.get('key', NONE)
    rev = kw.get('reverse', FALSE)
    ks = []
    for x in items:
        if I.presence(x) is not TRUE:
            ip.undecided('sorting conditional elements')
        k = ip.call(key, [x], {}) if key is not NONE else x
        kk, exact = sort_key(ip, k)
        if not exact:
            ip.approx.append(('sort order of opaque keys', ip.site()))
        ks.append(kk)
    order = sorted(range(len(items)), key=lambda i: ks[i])
    if ip.simp(ip.truth(rev)) is TRUE:
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=True)
    return [items[i] for i in order]


# ------------------------------------------------------------------ copy
def deepcopy(ip, v, memo=None):
    memo = {} if memo is None else memo

    def f(l):
        if l.kind == 't':
            return tup([gmap(f, x) for x in l.a])
        if l.kind == 'bm':
            return mk('bm', (f(l.a[0]), l.a[1]))
        if l.kind != 'r':
            return l
        o = ip.h(l)
        if o.kind in ('class', 'module', 'env', 'classenv'):
            return l
        if l.a in memo:
            return memo[l.a]
        if o.kind == 'inst' and ip.isobj(o.cls, 'class'):
            m = ip.class_attr(o.cls, '__deepcopy__')
            if m is not None:
                return ip.call(ip.bind(m, l), [ip.new_dict()], {})
        new = ip.alloc(o.kind, [] if isinstance(o.data, list) else {}, cls=o.cls, meta=o.meta)
        memo[l.a] = new
        src = o.data
        if isinstance(src, list):
            ip.mut(new).data.extend([gmap(f, x) for x in src])
        elif o.kind in ('dict', 'set'):
            ip.mut(new).data.update({(f(k) if k.kind in ('r', 't') else k): gmap(f, x) for k, x in src.items()})
        else:
            ip.mut(new).data.update({k: gmap(f, x) for k, x in src.items()})
        return new
    return gmap(f, v)


def shallow(ip, v):
    def f(l):
        if l.kind != 'r':
            return l
        o = ip.h(l)
        if o.kind in ('class', 'module', 'env'):
            return l
        d = o.data.copy()
        if o.kind == 'inst' and ip.isobj(o.cls, 'class'):
            m = ip.class_attr(o.cls, '__copy__')
            if m is not None:
                return ip.call(ip.bind(m, l), [], {})
        return ip.alloc(o.kind, d, cls=o.cls, meta=o.meta)
    return ip.split(v, f)


# ------------------------------------------------------------------ builtins
def call_type(ip, n, args, kw):
    if n in I.EXC_BASE:
        return ip.alloc('inst', {'args': tup(args)}, cls=mk('bt', n))
    if n == 'list':
        return ip.new_list(ip.iter_items(args[0]) if args else [])
    if n == 'tuple':
        its = ip.iter_items(args[0]) if args else []
        if any(I.presence(x) is not TRUE for x in its):
            ip.undecided('tuple with conditional elements')
        return tup(its)
    if n in ('set', 'frozenset'):
        return make_set(ip, ip.iter_items(args[0]) if args else [])
    if n == 'dict':
        d = ip.new_dict()
        if args:
            dict_update(ip, d, args[0])
        for k, v in kw.items():
            if k == '**':
                dict_update(ip, d, v)
            else:
                ip.mut(d).data[const(k)] = v
        return d
    if n == 'str':
        return to_str(ip, args[0]) if args else const('')
    if n == 'bool':
        return ip.truth(args[0]) if args else FALSE
    if n in ('int', 'float'):
        if not args:
            return const(0 if n == 'int' else 0.0)

        def f(l):
            if l.kind == 'c':
                x = cval(l)
                if x is None:
                    ip.raise_builtin('TypeError', '%s() argument' % n)
                return const(float(x) if n == 'float' else int(x))
            if l.kind == 's':
                c = str_const(l)
                if c is not None:
                    try:
                        return const(float(c) if n == 'float' else int(c))
                    except ValueError:
                        ip.raise_builtin('ValueError', 'could not convert string')
                return app(bi(n), (l,), ty=n)
            t = num_ty(l)
            if t in ('int', 'num', 'float') and n == 'float':
                return l
            if t == 'int' and n == 'int':
                return l
            if l.kind == 't' or ip.isobj(l, ('list', 'dict', 'set')):
                ip.raise_builtin('TypeError', '%s() argument' % n)
            if ip.isobj(l, 'inst'):
                m = ip.class_attr(ip.h(l).cls, '__%s__' % n)
                if m is None:
                    ip.raise_builtin('TypeError', '%s() argument' % n)
                return ip.call(ip.bind(m, l), [], {})
            return app(bi(n), (l,), ty=n)
        return ip.split(args[0], f)
    if n == 'type':
        if len(args) == 1:
            return ip.split(args[0], lambda l: ip.type_of(l))
        ip.undecided('type() with 3 arguments')
    if n == 'object':
        return ip.alloc('ext', {}, meta={'term': bi('object'), 'head': bi('object'), 'strict': True})
    if n == 'range':
        if all(is_pynum(ip.simp(a)) for a in args):
            return ip.new_list([const(i) for i in range(*[int(cval(ip.simp(a))) for a in args])])
        return ip.splitn(args, lambda vs: ip.new_list([const(i) for i in range(*[int(cval(a)) for a in vs])]) if all(is_pynum(a) for a in vs) else app(bi('range'), vs, ty='ext'))
    if n in ('property', 'staticmethod', 'classmethod'):
        return mk('deco', (n, args[0] if args else kw.get('fget')) + ((args[1],) if len(args) > 1 else ()))
    if n == 'super':
        if len(args) == 2:
            return mk('super', (args[0], args[1]))
    if n == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return mk('slice', tuple(a))
    if n == 'complex':
        return app(bi('complex'), args)
    return top('type ' + n)


def minmax(ip, n, args, kw):
    if len(args) == 1:
        its = ip.iter_items(args[0])
    else:
        its = list(args)
    if not its:
        if 'default' in kw:
            return kw['default']
        ip.raise_builtin('ValueError', '%s() arg is an empty sequence' % n)
    key = kw.get('key', NONE)
    best = its[0]
    bk = ip.call(key, [best], {}) if key is not NONE else best
    for x in its[1:]:
        xk = ip.call(key, [x], {}) if key is not NONE else x
        c = ip.truth(ip.compare('Lt', xk, bk) if n == 'min' else ip.compare('Gt', xk, bk))
        best = ite(ip.simp(c), x, best)
        bk = ite(ip.simp(c), xk, bk)
    return best


def call_builtin(ip, n, args, kw):
    if n == 'print':
        # evaluate string conversions (may raise) but ignore the text
        for a in args:
            try_str(ip, a)
        ip.events.append(I.Event(ip.st.pc, bi('print'), (), (), ip.site(), NONE, (tuple(args), dict(kw))))
        return NONE
    if n == 'len':
        return length(ip, args[0])
    if n == 'isinstance':
        return ip.isinstance(args[0], args[1])
    if n == 'issubclass':
        c = args[1]
        if ip.isobj(args[0], 'class'):
            mro = ip.h(args[0]).meta['mro']
            if c.kind == 't':
                return const(any(x in mro for x in c.a))
            return const(c in mro)
        return FALSE
    if n == 'hasattr':
        nm = str_const(ip.simp(args[1]))
        if nm is None:
            ip.undecided('hasattr with opaque name')

        def f(l):
            if l.kind in ('app', 'attr', 'item') or (l.kind in ('sym', 'n') and l.ty not in NUMTY_NUM):
                return ext_hasattr(ip, l, nm)
            r = ip.getattr0(l, nm)
            return FALSE if r is None else I.presence(r)
        return ip.split(args[0], f)
    if n == 'getattr':
        nm = str_const(ip.simp(args[1]))
        if nm is None:
            return ip.split(args[1], lambda s: call_builtin(ip, 'getattr', [args[0], s] + args[2:], kw)) if ip.simp(args[1]).kind == 'g' else getattr_opaque(ip, args)
        if len(args) > 2:
            return ip.split(args[0], lambda l: ip.getattr1(l, nm, default=args[2]))
        return ip.getattr(args[0], nm)
    if n == 'setattr':
        nm = str_const(ip.simp(args[1]))
        if nm is None:
            s = ip.simp(args[1])
            if s.kind == 's':
                nm = '$' + str_label(s)
            else:
                return ip.split(args[1], lambda q: call_builtin(ip, 'setattr', [args[0], q, args[2]], kw))
        ip.setattr(args[0], nm, args[2])
        return NONE
    if n == 'delattr':
        nm = str_const(ip.simp(args[1]))
        ip.mut(args[0]).data.pop(nm, None)
        return NONE
    if n in ('all', 'any'):
        it = args[0]
        r = TRUE if n == 'all' else FALSE
        if ip.isobj(it, 'gen'):
            return quantified(ip, it, n == 'all')
        for x in ip.iter_items(it):
            p = I.presence(x)
            t = ip.truth(I.drop_absent(x))
            r = AND(r, OR(NOT(p), t)) if n == 'all' else OR(r, AND(p, t))
        return ip.simp(r)
    if n == 'sum':
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        acc = start
        for x in ip.iter_items(args[0]):
            p = I.presence(x)
            w = I.drop_absent(x)
            if p is TRUE:
                acc = ip.binop('Add', acc, w)
            else:
                cur = acc
                acc = ip.fork(p, lambda: ip.binop('Add', cur, w), lambda: cur)
        return acc
    if n in ('min', 'max'):
        return minmax(ip, n, args, kw)
    if n == 'abs':
        def f(l):
            if is_pynum(l):
                return const(abs(cval(l)))
            if ip.isobj(l, 'inst'):
                m = ip.class_attr(ip.h(l).cls, '__abs__')
                if m is None:
                    ip.raise_builtin('TypeError', 'bad operand type for abs()')
                return ip.call(ip.bind(m, l), [], {})
            if l.kind == 's' or l is NONE:
                ip.raise_builtin('TypeError', 'bad operand type for abs()')
            return app(bi('abs'), (l,), ty=num_ty(l))
        return ip.split(args[0], f)
    if n == 'pow' and len(args) == 2:
        return ip.binop('Pow', args[0], args[1])
    if n == 'round':
        if is_pynum(args[0]):
            return const(round(cval(args[0]), *[int(cval(a)) for a in args[1:]]))
        return app(bi('round'), [ip.freeze(a) for a in args], ty=num_ty(args[0]))
    if n == 'zip':
        cols = []
        opaque = []
        for a in args:
            a = ip.simp(a)
            its = None
            if a.kind == 'g' and all(ip.try_items(l) is None for _, l in leaves(a)):
                its = None
            elif a.kind == 'g':
                its = ip.iter_items(a)
            else:
                its = ip.try_items(a)
            cols.append(its)
            opaque.append(a)
        known = [c for c in cols if c is not None]
        for c in known:
            if any(I.presence(x) is not TRUE for x in c):
                return zip_opt(ip, cols, opaque)
        if not known:
            m = 2
            ip.approx.append(('generic zip', ip.site()))
        else:
            m = min(len(c) for c in known)
        out = []
        for i in range(m):
            out.append(tup([c[i] if c is not None else gmap(lambda l: ip.opaque_item(l, const(i)), o) for c, o in zip(cols, opaque)]))
        return ip.alloc('iter', out)
    if n == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', const(0))
        out = []
        i = start
        for x in ip.iter_items(args[0]):
            p = I.presence(x)
            if p is TRUE:
                out.append(gmap(lambda q: tup([q, x]), i) if i.kind == 'g' else tup([i, x]))
                i = gmap(lambda q: arith('+', q, const(1)), i)
            else:
                w = I.drop_absent(x)
                cur = i
                out.append(ite(p, gmap(lambda q: tup([q, w]), cur), ABSENT))
                i = ite(p, gmap(lambda q: arith('+', q, const(1)), cur), cur)
        return ip.alloc('iter', out)
    if n == 'map':
        cols = [ip.iter_items(a) for a in args[1:]]
        out = []
        for xs in zip(*cols):
            p = TRUE
            for x in xs:
                p = AND(p, I.presence(x))
            ws = [I.drop_absent(x) for x in xs]
            if p is TRUE:
                out.append(ip.call(args[0], ws, {}))
            elif p is not FALSE:
                out.append(ip.fork(p, lambda: ip.call(args[0], ws, {}), lambda: ABSENT))
        return ip.alloc('iter', out)
    if n == 'filter':
        out = []
        for x in ip.iter_items(args[1]):
            p = I.presence(x)
            w = I.drop_absent(x)
            t = ip.truth(ip.call(args[0], [w], {}) if args[0] is not NONE else w)
            c = AND(p, t)
            if c is not FALSE:
                out.append(ite(c, w, ABSENT))
        return ip.alloc('iter', out)
    if n == 'sorted':
        its = ip.iter_items(args[0])
        if any(I.presence(x) is not TRUE for x in its):
            r = sort_opt(ip, its, kw)
            return ip.new_list(r)
        return ip.new_list(sort_items(ip, its, kw))
    if n == 'reversed':
        return ip.alloc('iter', list(reversed(ip.iter_items(args[0]))))
    if n == 'iter':
        a = ip.simp(args[0])
        if ip.isobj(a, ('iter', 'gen')):
            return a
        return ip.alloc('iter', ip.iter_items(a))
    if n == 'next':
        a = ip.simp(args[0])
        if ip.isobj(a, 'gen'):
            its = list(ip.gen_items(a))
        elif ip.isobj(a, 'iter'):
            its = ip.mut(a).data
        elif ip.isobj(a, 'inst'):
            return ip.call(ip.getattr(a, '__next__'), [], {})
        else:
            return top('next')
        r = args[1] if len(args) > 1 else None
        if ip.isobj(a, 'iter'):
            if not its:
                if r is None:
                    ip.raise_builtin('StopIteration', '')
                return r
            x = its[0]
            if I.presence(x) is TRUE:
                del its[0]
                return x
        # first present element
        acc = r
        tot = FALSE
        for x in its:
            tot = OR(tot, I.presence(x))
        if tot is not TRUE and r is None:
            ip.fork(tot, lambda: NONE, lambda: ip.raise_builtin('StopIteration', ''))
        res = r if r is not None else NONE
        for x in reversed(its):
            p = I.presence(x)
            res = ite(p, I.drop_absent(x), res) if p is not FALSE else res
        return ip.simp(res)
    if n == 'repr':
        return to_str(ip, args[0], 'repr')
    if n == 'callable':
        l = args[0]
        if l.kind in ('fn', 'bm', 'bi', 'bt', 'ext', 'bmeth', 'pf'):
            return TRUE
        if l.kind == 'r':
            o = ip.h(l)
            return const(o.kind == 'class' or (o.kind == 'inst' and ip.class_attr(o.cls, '__call__') is not None))
        if l.kind in ('app', 'attr', 'item', 'sym') and num_ty(l) in (None, 'ext'):
            return atom('callable', l)
        return FALSE
    if n == 'id':
        return app(bi('id'), (args[0],), ty='int')
    if n == 'hash':
        return app(bi('hash'), (ip.freeze(args[0]),), ty='int')
    if n == 'divmod':
        return tup([ip.binop('FloorDiv', *args), ip.binop('Mod', *args)])
    if n == 'format':
        sp = str_const(args[1]) if len(args) > 1 else ''
        return to_str(ip, args[0], 'fmt:' + sp if sp else 'str')
    if n == 'open':
        v = ip.alloc('ext', {}, meta={'term': app(bi('open'), [ip.freeze(a) for a in args]), 'head': bi('open')})
        ip.events.append(I.Event(ip.st.pc, bi('open'), tuple(ip.freeze(a) for a in args), tuple(sorted(kw.items())), ip.site(), v, (tuple(args), kw)))
        return v
    if n == 'input':
        return sstr([app(bi('input'), ())])
    if n == 'vars':
        return ip.getattr(args[0], '__dict__')
    if n == 'object.__init__':
        return NONE
    if n == 'object.__new__':
        return ip.alloc('inst', {}, cls=args[0])
    if n == 'object.__setattr__':
        ip.mut(args[0]).data[str_const(args[1])] = args[2]
        return NONE
    if n == 'dir':
        a = args[0]
        if ip.isobj(a, 'inst'):
            return ip.new_list([const(x) for x in sorted(ip.h(a).data)])
        return top('dir')
    if n in ('dict.fromkeys', 'OrderedDict.fromkeys'):
        d = ip.new_dict(od=n[0] == 'O')
        for k in ip.iter_items(args[0]):
            p = I.presence(k)
            v = args[1] if len(args) > 1 else NONE
            for c, l in leaves(k):
                if l is ABSENT:
                    continue
                old = ip.h(d).data.get(l, ABSENT)
                ip.mut(d).data[l] = ite(c, v, old)
        return d
    if '.' in n:
        t, m = n.split('.', 1)
        if t in ('dict', 'list', 'str', 'set', 'tuple') and args:
            return call_method(ip, args[0], m, args[1:], kw)
        if m == '__init__':
            return NONE
    if n == 'propset':
        pass
    if n == 'deco.setter':
        pass
    if n == 'NotImplemented' or n == 'Ellipsis':
        ip.raise_builtin('TypeError', 'not callable')
    if n == '__import__':
        nm = str_const(args[0])
        if nm:
            return ext(nm)
    return top('builtin ' + n)


NUMTY_NUM = ('int', 'float', 'num')


def getattr_opaque(ip, args):
    s = ip.simp(args[1])
    o = ip.simp(args[0])
    if s.kind == 's' and ip.isobj(o, 'inst'):
        nm = '$' + str_label(s)
        d = ip.h(o).data
        if nm in d:
            return d[nm]
        if len(args) > 2:
            return args[2]
    ip.undecided('getattr with opaque name')


def try_str(ip, a):
    """printing never affects the analysed state; only evaluate cheap conversions"""
    return None


def quantified(ip, gen, is_all):
    """any/all over a generator expression, short-circuiting under gated conditions"""
    o = ip.h(gen)
    node, env, first = o.meta
    res = [TRUE if is_all else FALSE]

    def step(e):
        # element evaluated only when not yet short-circuited
        go = res[0] if is_all else NOT(res[0])

        def ev():
            return ip.truth(ip.eval(node.elt, e))
        c = ip.simp(go)
        if c is FALSE:
            return
        t = ip.fork(c, ev, lambda: TRUE if is_all else FALSE)
        res[0] = AND(res[0], t) if is_all else OR(res[0], t)
    cond_stack = []

    def emit(e):
        step_pc(e)

    base_pc = ip.st.pc

    def step_pc(e):
        cur = restrict(ip.st.pc, base_pc)   # condition under which this element is produced
        go = res[0] if is_all else NOT(res[0])
        c = ip.simp(go)
        if c is FALSE:
            return
        t = ip.fork(c, lambda: ip.truth(ip.eval(node.elt, e)), lambda: TRUE if is_all else FALSE)
        if is_all:
            res[0] = AND(res[0], OR(NOT(cur), t))
        else:
            res[0] = OR(res[0], AND(cur, t))
    ip.comp(node.generators, 0, env, emit, first)
    return ip.simp(res[0])


def zip_opt(ip, cols, opaque):
    """zip of sequences with conditional elements: sound only when presence patterns agree"""
    n = max(len(c) for c in cols if c is not None)
    out = []
    pres = None
    for c in cols:
        if c is None:
            continue
        pp = [I.presence(x) for x in c] + [FALSE] * (n - len(c))
        if pres is None:
            pres = pp
        elif pres != pp:
            ip.undecided('zip of conditional sequences')
    if any(c is None for c in cols) and any(p is not TRUE for p in pres):
        ip.undecided('zip of conditional and opaque sequences')
    for i in range(n):
        t = tup([I.drop_absent(c[i]) for c in cols])
        out.append(t if pres[i] is TRUE else ite(pres[i], t, ABSENT))
    return ip.alloc('iter', out)


def sort_opt(ip, its, kw):
    key = kw.get('key', NONE)
    ks = []
    for x in its:
        p, w = I.presence(x), I.drop_absent(x)
        if w.kind == 'g':
            ip.undecided('sorting gated elements')
        k = ip.call(key, [w], {}) if key is not NONE else w
        ks.append(sort_key(ip, k)[0])
    order = sorted(range(len(its)), key=lambda i: ks[i])
    return [its[i] for i in order]


def scope_builtin(ip, n, args, kw, env):
    if n in ('exec', 'eval'):
        code = str_const(ip.simp(args[0])) if args[0].kind == 's' or args[0].kind == 'g' else None
        if code is None:
            ip.undecided('%s of non-constant source' % n)
        try:
            tree = ast.parse(code.strip(), mode='exec' if n == 'exec' else 'eval')
        except SyntaxError:
            ip.raise_builtin('TypeError', 'exec syntax error')
        for x in ast.walk(tree):
            if hasattr(x, 'lineno'):
                x.lineno = ip.frames[-1]['line']
        if n == 'eval':
            return ip.eval(tree.body, env)
        ip.exec_block(tree.body, env)
        if ip.st is None:
            raise I.Dead()
        return NONE
    if n == 'locals':
        o = ip.h(env)
        return ip.new_dict([(const(k), v) for k, v in o.data.items() if presence_ok(v)])
    if n == 'vars' and args:
        return ip.getattr(args[0], '__dict__')
    if n == 'dir' and args:
        return call_builtin(ip, 'dir', args, kw)
    if n == 'globals':
        m = ip.modules[ip.frames[-1]['module']]
        return mk('idict', m.a)
    ip.undecided(n)


def presence_ok(v):
    return I.presence(v) is TRUE


# ------------------------------------------------------------------ library
ALIASES = {
    'sympy.Symbol': 'sympy.symbols', 'copy.deepcopy': 'copy.deepcopy',
}
ROOTS = {'np': 'numpy'}
INTERNAL = {
    'collections.OrderedDict', 'copy.deepcopy', 'copy.copy', 'functools.reduce', 'functools.partial', 'functools.wraps', 'functools.lru_cache', 'functools.cache',
    'itertools.chain', 'itertools.product', 'itertools.chain.from_iterable', 'itertools.zip_longest', 'itertools.repeat', 'itertools.islice', 'itertools.starmap', 'itertools.count', 'itertools.accumulate',
    'collections.defaultdict', 'collections.deque', 'collections.namedtuple', 'collections.Counter', 'collections.ChainMap',
    'numba.jit', 'numba.njit',
}
OPERATOR = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'pow': 'Pow', 'mod': 'Mod', 'floordiv': 'FloorDiv', '__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__pow__': 'Pow', 'concat': 'Add',
            'or_': 'BitOr', 'and_': 'BitAnd'}
OPCMP = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'gt': 'Gt', 'le': 'LtE', 'ge': 'GtE', 'is_': 'Is', 'is_not': 'IsNot'}


def ext_name(path):
    path = {'sympy.Symbol': 'sympy.symbols', 'sympy.core.symbol.Symbol': 'sympy.symbols', 'numpy.math': 'math', 'sympy.Derivative': 'sympy.Derivative',
            'sympy.functions.log': 'sympy.log', 'sympy.ln': 'sympy.log'}.get(path, path)
    if path in ('collections.OrderedDict', 'typing.OrderedDict'):
        return mk('ext', 'collections.OrderedDict')
    return mk('ext', path)


def result_type(head):
    n = I.head_name(head)
    if head.kind == 'ext':
        if n.startswith('sympy.'):
            last = n.rsplit('.', 1)[1]
            if last in ('solve', 'linear_eq_to_matrix', 'lambdify', 'srepr', 'nsolve', 'linsolve', 'Matrix', 'nonlinsolve'):
                return 'ext'
            return 'sym'
        if n in ('math.sqrt', 'math.log', 'math.exp', 'math.sin', 'math.cos', 'math.fabs', 'math.pow', 'math.floor', 'math.ceil', 'math.fsum', 'math.log10', 'math.tan'):
            return 'float'
        return 'ext'
    if head.kind == 'attr':
        b = head.a[0]
        if num_ty(b) == 'sym' or (b.kind in ('app', 'attr', 'item') and b.ty == 'sym'):
            if head.a[1] in ('subs', 'diff', 'evalf', 'doit', 'simplify', 'xreplace', 'expand', 'n', 'replace'):
                return 'sym'
    return 'ext'


FRESH_ROOT_SKIP = ('sympy', 'numpy', 'math', 'operator')


def is_fresh(head):
    """constructor-like library calls return a new mutable object"""
    if head.kind != 'ext':
        return False
    root = head.a.split('.')[0]
    last = head.a.rsplit('.', 1)[1] if '.' in head.a else head.a
    if head.a in ('threading.local', 'pygmo.problem', 'pygmo.algorithm', 'pygmo.population', 'pygmo.archipelago', 'pygmo.island', 'pygmo.de', 'pygmo.pso', 'collections.Counter'):
        return True
    if root in FRESH_ROOT_SKIP:
        return False
    return last[:1].isupper()


def may_raise(ip, head):
    f = getattr(ip, 'raising', None)
    return bool(f) and I.head_name(head) in f


def ext_attr(ip, l, name):
    if l.kind == 'app' and l.a[0].kind == 'ext':
        h, a, kw = l.a
        if h.a in ('sympy.diff', 'sympy.Derivative') and name == 'args':
            return tup([a[0], tup([a[1] if len(a) > 1 else NONE, const(1)])])
        if name == 'name' and h.a in ('sympy.symbols', 'sympy.Symbol') and a:
            return a[0]
        if name == 'T' and h.a == 'numpy.array':
            return attr(l, 'T', 'ext')
    if l.kind in ('app', 'attr', 'item') and num_ty(l) == 'sym' and name in ('name',):
        return None
    return None


def ext_hasattr(ip, l, nm):
    if nm in ('name', 'symbolic_object', 'unit_object', 'variable_map', 'symbolic_map', 'units', 'obj_latex_name', 'Diff') and num_ty(l) in ('sym', 'int', 'float', 'num'):
        return FALSE
    if num_ty(l) == 'sym' and not nm.startswith('__'):
        # a symbolic expression, or a number where its symbols cancel
        if nm in SY.EVERY and not is_pynum(l):
            return TRUE
        if nm not in SY.EVERY | SY.SOME:
            return FALSE
    return atom('hasattr', l, const(nm))


def ext_item(ip, l, k):
    if is_any(k) and k.a[0].a == 'anykey' and k.a[1][0] is l:
        return anyval(l)
    if l.kind == 'app' and l.a[0].kind == 'ext' and l.a[0].a in ('numpy.array', 'numpy.asarray') and l.a[1] and l.a[1][0].kind in ('lst', 't') and is_pynum(k):
        seq = l.a[1][0].a
        i = int(cval(k))
        if -len(seq) <= i < len(seq):
            return seq[i]
        ip.raise_builtin('IndexError', 'index out of bounds')
    if l.kind == 'app' and l.a[0].kind == 'bi' and l.a[0].a == 'listmul' and is_pynum(k):
        base, n = l.a[1]
        if base.kind == 'lst' and len(base.a) == 1:
            return base.a[0]
    return item(l, ip.freeze(k), None)


def ext_isinstance(ip, v, n):
    if v.kind == 'app' and v.a[0].kind == 'ext':
        h = v.a[0].a
        if h in ('json.load', 'json.loads'):
            return const(n == 'dict')       # contents of configuration files are taken to be mappings
        if h.startswith('sympy.') and h not in ('sympy.solve',):
            return FALSE
        if h.startswith('numpy.') and n in ('list', 'dict', 'tuple', 'str'):
            return FALSE
    return None


def call_ext(ip, head, args, kw):
    if head.kind == 'ext':
        p = head.a
        if p == 'collections.OrderedDict':
            d = ip.new_dict(od=True)
            if args:
                dict_update(ip, d, args[0])
            for k, v in kw.items():
                ip.mut(d).data[const(k)] = v
            return d
        if p == 'collections.OrderedDict.fromkeys':
            return call_builtin(ip, 'OrderedDict.fromkeys', args, kw)
        if p == 'copy.deepcopy':
            return deepcopy(ip, args[0])
        if p == 'copy.copy':
            return shallow(ip, args[0])
        if p in ('numba.jit', 'numba.njit') and args:
            return args[0]
        if p in ('functools.lru_cache', 'functools.cache', 'numba.jit'):
            ip.undecided('memoised function')
        if p == 'functools.wraps':
            return mk('pf', (mk('bi', '_identity'), (), ()))
        if p == 'functools.partial':
            return mk('pf', (args[0], tuple(args[1:]), tuple(sorted(kw.items()))))
        if p == 'functools.reduce':
            its = ip.iter_items(args[1])
            acc = args[2] if len(args) > 2 else None
            for x in its:
                if I.presence(x) is not TRUE:
                    ip.undecided('reduce over conditional elements')
                acc = x if acc is None else ip.call(args[0], [acc, x], {})
            if acc is None:
                ip.raise_builtin('TypeError', 'reduce() of empty iterable')
            return acc
        if p == 'itertools.chain':
            out = []
            for a in args:
                out.extend(ip.iter_items(a))
            return ip.alloc('iter', out)
        if p == 'itertools.chain.from_iterable':
            out = []
            for a in ip.iter_items(args[0]):
                out.extend(ip.iter_items(a))
            return ip.alloc('iter', out)
        if p == 'itertools.product' and 'repeat' not in kw:
            acc = [()]
            for a in args:
                its = ip.iter_items(a)
                acc = [x + (y,) for x in acc for y in its]
            return ip.alloc('iter', [tup(x) for x in acc])
        if p == 'itertools.repeat':
            if len(args) > 1 and is_pynum(args[1]):
                return ip.alloc('iter', [args[0]] * int(cval(args[1])))
            ip.undecided('itertools.repeat')
        if p == 'itertools.zip_longest':
            cols = [ip.iter_items(a) for a in args]
            n = max(len(c) for c in cols)
            fv = kw.get('fillvalue', NONE)
            return ip.alloc('iter', [tup([c[i] if i < len(c) else fv for c in cols]) for i in range(n)])
        if p == 'itertools.islice' and all(is_pynum(a) or a is NONE for a in args[1:]):
            b = [None if a is NONE else int(cval(a)) for a in args[1:]]
            return ip.alloc('iter', ip.iter_items(args[0])[slice(*b)])
        if p == 'itertools.starmap':
            return ip.alloc('iter', [ip.call(args[0], ip.iter_items(x), {}) for x in ip.iter_items(args[1])])
        if p.startswith('itertools.'):
            ip.undecided(p)
        if p == 'collections.deque':
            return ip.alloc('deque', ip.iter_items(args[0]) if args else [])
        if p == 'collections.defaultdict':
            d = ip.alloc('dict', {}, meta=('defaultdict', args[0] if args else NONE))
            for a in args[1:]:
                dict_update(ip, d, a)
            return d
        if p == 'collections.ChainMap':
            d = ip.new_dict()
            for a in reversed(args):
                dict_update(ip, d, a)
            return d
        if p.startswith('operator.'):
            n = p[9:]
            if n in OPERATOR:
                return ip.binop(OPERATOR[n], *args)
            if n in OPCMP:
                return ip.compare(OPCMP[n], *args)
            if n == 'contains':
                return ip.compare('In', args[1], args[0])
            if n == 'neg':
                return neg(args[0])
            if n == 'not_':
                return NOT(ip.truth(args[0]))
            if n == 'getitem':
                return ip.getitem(*args)
            if n in ('attrgetter', 'itemgetter') and len(args) == 1:
                return mk('pf', (mk('bi', '_' + n), tuple(args), ()))
            if n == 'methodcaller':
                return mk('pf', (mk('bi', '_methodcaller'), tuple(args), tuple(sorted(kw.items()))))
            ip.undecided(p)
        if p == 'threading.local':
            v = ip.alloc('ext', {}, meta={'term': ext(p), 'head': head, 'strict': True})
            return v
        if p == 'threading.current_thread':
            return app(head, ())
        if p.startswith('warnings.') or p.startswith('logging.'):
            return NONE if p.startswith('warnings.') else None
        if p == 'sympy.symbols' or p == 'sympy.Symbol':
            if args and args[0].kind == 's':
                return app(mk('ext', 'sympy.symbols'), (args[0],), (), 'sym')
        if p == 'sympy.sqrt' and args:
            kw2 = {k: v for k, v in kw.items()}
        if p in ('math.pow', 'operator.pow', 'numpy.power') and len(args) == 2:
            try:
                return arith('**', *args)
            except Exception:
                return None
        if p in ('math.isclose', 'numpy.isclose', 'numpy.allclose'):
            return atom(p, *[ip.freeze(a) for a in args])
        if p in ('numpy.float64', 'numpy.float', 'numpy.int'):
            return call_type(ip, 'float', args, kw)
        if p == 'math.fsum' or p == 'numpy.sum':
            if ip.isobj(args[0], ('list', 'gen', 'iter')) and not kw:
                return call_builtin(ip, 'sum', [args[0]], {})
    return None


_old_call_builtin = call_builtin


def call_builtin(ip, n, args, kw):  # noqa: F811
    if n == '_identity':
        return args[0]
    if n == '_attrgetter':
        v = args[1]
        for part in str_const(args[0]).split('.'):
            v = ip.getattr(v, part)
        return v
    if n == '_itemgetter':
        return ip.getitem(args[1], args[0])
    if n == '_methodcaller':
        m = ip.getattr(args[-1], str_const(args[0]))
        return ip.call(m, args[1:-1], kw)
    return _old_call_builtin(ip, n, args, kw)


# ------------------------------------------------------------------ sympy
SYF = {'log', 'exp', 'sqrt', 'Abs', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'asinh', 'acosh', 'floor', 'ceiling',
       'Min', 'Max', 'diff', 'Derivative', 'symbols', 'Symbol', 'sympify', 'S', 'Add', 'Mul', 'Pow', 'Dummy', 'Integer', 'Float', 'ln', 'root', 'cbrt'}
SYM_ATOM_OK = ('sympy.log', 'sympy.exp', 'sympy.Abs', 'sympy.sin', 'sympy.cos', 'sympy.tan', 'sympy.sinh', 'sympy.cosh', 'sympy.tanh', 'sympy.asin',
               'sympy.acos', 'sympy.atan', 'sympy.asinh', 'sympy.acosh', 'sympy.floor', 'sympy.ceiling', 'sympy.Min', 'sympy.Max', 'pow')


def is_symbol(t):
    return t.kind == 'app' and t.a[0].kind == 'ext' and t.a[0].a in ('sympy.symbols', 'sympy.Dummy')


def is_deriv(t):
    return t.kind == 'app' and t.a[0].kind == 'ext' and t.a[0].a == 'sympy.diff'


def sym_walk(t, visit):
    """visit(term) on every symbolic sub-expression; False when the structure is not known"""
    if t.kind == 'c':
        return True
    if visit(t) is False:
        return True
    if is_symbol(t):
        return True
    if t.kind == 'n':
        return all(sym_walk(a, visit) for m, c in t.a for a, e in m)
    if is_deriv(t):
        return sym_walk(t.a[1][0], visit)
    if t.kind == 'app' and I.head_name(t.a[0]) in SYM_ATOM_OK:
        return all(sym_walk(a, visit) for a in t.a[1])
    if t.kind == 'sym' and t.ty in ('num', 'int', 'float'):
        return True
    if t.kind == 'app' and I.head_name(t.a[0]) == 'sympy.sympify' and t.a[1][0].kind == 'c':
        return True
    return False


def free_symbols(t):
    out = []

    def visit(u):
        if is_symbol(u) and u not in out:
            out.append(u)
    return out if sym_walk(t, visit) else None


def derivs(t):
    out = []

    def visit(u):
        if is_deriv(u) and u not in out:
            out.append(u)
    return out if sym_walk(t, visit) else None


def symbolic_difference(a, b):
    """sympy compares expressions, not values: two expressions are equal when every coefficient of their difference, as a
    polynomial of their symbols, is zero.  The coefficients, or None for other terms"""
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        return None
    groups = {}
    for m, c in T.padd(pa, pb, -1).items():
        sy, rest = [], []
        for x, e in m:
            names = [u for u in T.subterms(x) if is_symbol(u)]
            if not names:
                rest.append((x, e))
            elif (is_symbol(x) or is_deriv(x)) and all(str_const(u.a[1][0]) is not None for u in names if u.a[0].a == 'sympy.symbols'):
                sy.append((x, e))
            else:
                return None
        groups.setdefault(tuple(sy), {})[tuple(rest)] = c
    if not any(groups):
        return None
    return [T.from_poly(g, 'num') for g in groups.values()]


def symbol_name(t):
    return show(t.a[1][0])


def sym_key(ip, k):
    if k.kind == 's':
        return app(ext('sympy.symbols'), (k,), (), 'sym')
    return k


def sym_subs(ip, t, args, exact=False):
    mp = {}
    if len(args) == 2:
        mp[sym_key(ip, args[0])] = args[1]
    else:
        m = args[0]
        if ip.isobj(m, 'dict'):
            its = list(ip.h(m).data.items())
        else:
            its = []
            for e in ip.iter_items(m):
                if e.kind != 't' or len(e.a) != 2:
                    return None
                its.append(e.a)
        for k, v in its:
            if I.presence(v) is not TRUE or I.presence(k) is not TRUE or k.kind == 'g' or (v.kind == 'g' and any(num_ty(x) is None and x.kind != 's' for _, x in leaves(v))):
                return None
            mp[sym_key(ip, k)] = v
    for k, v in list(mp.items()):
        mp[k] = gmap(lambda l: sym_key(ip, l), v)
    fs = free_symbols(t)
    if fs is None:
        return None
    for f in fs:
        for k in mp:
            if k is not f and is_symbol(k) and is_symbol(f) and k.a[1][0].kind == 's' and f.a[1][0].kind == 's':
                if ip.simp(ip.eq_bool(k.a[1][0], f.a[1][0])) is not FALSE:
                    return None
    if not exact:
        for v in mp.values():       # sequential versus simultaneous substitution
            for _, l in leaves(v):
                if is_symbol(l) and l in mp and mp[l] is not l:
                    return sequential(ip, t, mp) if len(args) == 1 and ip.isobj(args[0], 'dict') else None
    try:
        if any(v.kind == 'g' for v in mp.values()):
            ks = [k for k in mp if mp[k].kind == 'g']
            r = t
            for k in ks:
                r = gmap2(lambda a, b: T.subst(a, {k: b}), r, mp[k])
            rest = {k: v for k, v in mp.items() if v.kind != 'g'}
            return gmap(lambda l: T.subst(l, rest), r)
        return T.subst(t, mp)
    except Exception:
        return None


def sequential(ip, t, mp):
    """sympy replaces the names of a dictionary one after another, in the order of the names"""
    if not all(is_symbol(k) and str_const(k.a[1][0]) is not None and v.kind != 'g' for k, v in mp.items()):
        return None
    for k in sorted(mp, key=lambda k: str_const(k.a[1][0])):
        t = T.subst(t, {k: mp[k]})
    return t


def sym_method(ip, t, name, args, kw):
    if name in ('subs', 'xreplace', 'replace') and args and not kw:
        return sym_subs(ip, t, args, name == 'xreplace')
    if name == 'diff' and len(args) == 1 and not kw:
        return None
    if name == 'atoms' and len(args) == 1 and args[0].kind == 'ext':
        if args[0].a in ('sympy.Derivative',):
            d = derivs(t)
            return make_set(ip, d) if d is not None else None
        if args[0].a in ('sympy.symbols', 'sympy.Symbol'):
            d = free_symbols(t)
            return make_set(ip, d) if d is not None else None
    if name == 'has':
        fs, ds = free_symbols(t), derivs(t)
        if fs is None:
            return None
        r = FALSE
        for a in args:
            if a.kind == 'ext' and a.a == 'sympy.Derivative':
                r = OR(r, const(bool(ds)))
            elif is_symbol(a):
                for f in fs:
                    r = OR(r, ip.eq_bool(f.a[1][0], a.a[1][0]) if f is not a else TRUE)
            elif ds is not None and a.kind == 'app' and I.head_name(a.a[0]) == 'sympy.diff' and len(a.a[1]) == 2 and all(is_symbol(x) for x in a.a[1]):
                for d in ds:
                    if d is a:
                        r = TRUE
                    elif d.kind == 'app' and len(d.a[1]) == 2 and all(is_symbol(x) for x in d.a[1]):
                        r = OR(r, AND(*[ip.eq_bool(x.a[1][0], y.a[1][0]) for x, y in zip(d.a[1], a.a[1])]))
                    else:
                        return None
            else:
                return None
        return r
    return None


def sym_solve(ip, args, kw):
    """solve(equations, unknowns, dict=True): a list of solutions, each mapping every unknown to its value.
    The list is represented by one generic solution (an empty list is an IndexError of the caller)"""
    if len(args) == 2 and not kw:
        return linear_root(ip, ip.freeze(args[0]), ip.freeze(args[1]))
    if len(args) != 2 or not set(kw) <= {'dict'} or kw.get('dict') is not TRUE:
        return None
    eqs, un = ip.freeze(args[0]), ip.freeze(args[1])
    if un.kind not in ('lst', 't') or any(u.kind == 'g' for u in un.a):
        return None
    head = ext('sympy.solve')
    keys = [sym_key(ip, u) for u in un.a]
    if not all(is_symbol(k) for k in keys):
        return None
    term = app(head, (eqs, mk('lst', tuple(keys))), (), 'ext')
    d = ip.alloc('dict', {k: app(attr(term, 'solution'), (k,), (), 'num') for k in keys})
    ip.events.append(I.Event(ip.st.pc, head, (eqs, mk('lst', tuple(keys))), (), ip.site(), d, (tuple(args), dict(kw))))
    return ip.may_fail(head, term, ip.new_list([d]))


def linear_root(ip, e, x):
    """solve(expression, unknown) of an expression linear in the unknown: the list of its one root"""
    from . import interp as I
    if e.kind == 'app' and I.head_name(e.a[0]) == 'sympy.Eq' and len(e.a[1]) == 2:
        e = arith('-', e.a[1][0], e.a[1][1])
    if num_ty(e) is None or e.kind == 'g' or x.kind != 'app' or I.head_name(x.a[0]) not in ('sympy.diff', 'sympy.symbols'):
        return None
    y = T.sym('linear root')
    f = T.subst(e, {x: y})
    c0 = T.subst(e, {x: const(0)})
    c1 = arith('-', T.subst(e, {x: const(1)}), c0)
    if c1.kind == 'c' and cval(c1) == 0 or arith('+', c0, arith('*', c1, y)) is not f:
        # quadratic: two roots
        cm = arith('-', T.subst(e, {x: const(-1)}), c0)
        c2, c1 = arith('/', arith('+', c1, cm), const(2)), arith('/', arith('-', c1, cm), const(2))
        if not (c2.kind == 'c' and cval(c2) == 0) and arith('+', c0, arith('+', arith('*', c1, y), arith('*', c2, arith('*', y, y)))) is f and not (c0.kind == 'c' and cval(c0) == 0 and c1.kind == 'c' and cval(c1) == 0):
            return ip.new_list([app(ext('sympy.root_of'), (c2, c1, c0, const(i)), (), 'sym') for i in (0, 1)])
        return None
    return ip.new_list([arith('/', T.neg(c0), c1)])


def sym_call(ip, p, args, kw):
    """normal form of sympy constructors"""
    last = p.rsplit('.', 1)[1]
    if p in ('sympy.solve', 'sympy.solvers.solve', 'sympy.solvers.solvers.solve'):
        return sym_solve(ip, args, kw)
    if last not in SYF:
        return None
    last = {'ln': 'log', 'S': 'sympify', 'Symbol': 'symbols', 'Derivative': 'diff'}.get(last, last)
    ev = kw.get('evaluate')
    kw = {k: v for k, v in kw.items() if k != 'evaluate'}
    args = [ip.freeze(a) for a in args]
    if any(a.kind == 'g' for a in args):
        return ip.splitn(args, lambda vs: ip.ext_call(ext(p), vs, dict(kw, **({'evaluate': ev} if ev is not None else {}))))
    if last == 'symbols' and p.endswith('.symbols') and len(args) == 1 and args[0].kind in ('lst', 't') and all(x.kind == 's' for x in args[0].a):
        out = [ip.ext_call(ext(p), [x], kw) for x in args[0].a]
        return ip.new_list(out) if args[0].kind == 'lst' else mk('t', tuple(out))
    if last == 'symbols':
        if args and args[0].kind == 's':
            if kw:
                return app(ext('sympy.symbols(assumptions)'), (args[0],), tuple((k, ip.freeze(v)) for k, v in kw.items()), 'sym')
            return app(ext('sympy.symbols'), (args[0],), (), 'sym')
        return None
    if last == 'Dummy':
        ip.ndummy = getattr(ip, 'ndummy', 0) + 1
        return app(ext('sympy.Dummy'), (const(ip.ndummy),), (), 'sym')
    if kw:
        return None
    if last == 'diff':
        if p.endswith('.Derivative') or (ev is not None and ev is FALSE):
            if len(args) == 2 and args[1].kind == 't' and len(args[1].a) == 2 and args[1].a[1] is const(1):
                args = [args[0], args[1].a[0]]
            return app(ext('sympy.diff'), tuple(args), (('evaluate', FALSE),), 'sym')
        return None
    if any(num_ty(a) is None for a in args):
        return None
    if last == 'sympify':
        if len(args) == 1 and num_ty(args[0]) is not None:
            if num_ty(args[0]) != 'sym' and args[0].kind != 'c':
                ip.sympified.add(args[0])
            return args[0] if args[0].kind != 'c' else app(ext('sympy.sympify'), (args[0],), (), 'sym')
        return None
    if last in ('Integer', 'Float'):
        return None
    if last in ('Add', 'Mul'):
        r = args[0] if args else const(0 if last == 'Add' else 1)
        for a in args[1:]:
            r = arith('+' if last == 'Add' else '*', r, a)
        return r
    if last == 'Pow' and len(args) == 2:
        return arith('**', args[0], args[1])
    if last == 'sqrt' and len(args) == 1:
        return app(ext('sympy.sqrt'), args, (), 'sym') if args[0].kind == 'c' else arith('**', args[0], const(0.5))
    if last == 'log':
        if len(args) == 1:
            return app(ext('sympy.log'), args, (), 'sym')
        if len(args) == 2:
            if ev is FALSE:
                return app(ext('sympy.log'), args, (('evaluate', FALSE),), 'sym')
            return arith('/', app(ext('sympy.log'), args[:1], (), 'sym'), app(ext('sympy.log'), args[1:], (), 'sym'))
        return None
    if last in ('Min', 'Max'):
        if len(set(args)) == 1:
            return args[0]
        return app(ext('sympy.' + last), sorted(set(args), key=lambda v: v.id), (), 'sym')
    if len(args) == 1:
        return app(ext('sympy.' + last), args, (), 'sym')
    return None


_call_ext0 = call_ext


def call_ext(ip, head, args, kw):  # noqa: F811
    if head.kind == 'ext' and (head.a.startswith('sympy.') or head.a == 'sympy'):
        r = sym_call(ip, head.a, args, kw)
        if r is not None:
            return r
    if head.kind == 'attr' and (num_ty(head.a[0]) == 'sym' or head.a[0] in ip.sympified):
        r = sym_method(ip, head.a[0], head.a[1], args, kw)
        if r is not None:
            return r
    return _call_ext0(ip, head, args, kw)


_ext_attr0 = ext_attr


def ext_attr(ip, l, name):  # noqa: F811
    if num_ty(l) == 'sym':
        if name == 'free_symbols':
            fs = free_symbols(l)
            if fs is not None:
                return make_set(ip, fs)
        if name == 'name' and is_symbol(l):
            return l.a[1][0]
        if name in ('is_number', 'is_constant'):
            fs = free_symbols(l)
            if fs is not None and fs:
                return FALSE
        if is_deriv(l):
            if name == 'expr':
                return l.a[1][0]
            if name == 'variables':
                return tup(l.a[1][1:2])
    return _ext_attr0(ip, l, name)
