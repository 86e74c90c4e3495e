"""Abstract interpreter over the Python syntax trees of the analysed repository.

Nothing of the repository is imported or run.  Source files are parsed with `ast`; statements are
interpreted over the abstract domain of `terms.py`: heap of abstract objects, opaque scalars, gated
values at joins.  Undecided branches are interpreted on both sides and *merged* at the join point
(no path enumeration); callees are inlined through resolved classes/functions; third-party library
functions are uninterpreted terms (with a table of models in `models.py`).
"""
import ast
import os
import time
from .terms import *
from .terms import to_poly
from . import symattrs as SY


class Undecided(Exception):
    """the analysis cannot decide this obligation (never reported as a violation)"""

    def __init__(self, reason, site=None):
        super().__init__(reason)
        self.reason, self.site = reason, site


class Dead(Exception):
    """current abstract state has no normal continuation"""


class SourceError(Exception):
    """analysed source vanished / does not parse"""


def bt(n):
    return mk('bt', n)


def bi(n):
    return mk('bi', n)


EXC_BASE = {
    'BaseException': None, 'Exception': 'BaseException', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'AssertionError': 'Exception', 'AttributeError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
    'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception',
    'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'IOError': 'OSError', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
}
TYPES = {'int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bool', 'object', 'type', 'complex', 'bytes', 'property',
         'staticmethod', 'classmethod', 'super', 'range', 'slice'}
BUILTINS = {'len', 'print', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'delattr', 'all', 'any', 'sum', 'min', 'max', 'abs',
            'zip', 'enumerate', 'map', 'filter', 'sorted', 'reversed', 'iter', 'next', 'repr', 'callable', 'id', 'round', 'pow',
            'divmod', 'open', 'input', 'vars', 'dir', 'exec', 'eval', 'globals', 'locals', 'hash', 'format', 'chr', 'ord', '__import__'}


class FnInfo:
    __slots__ = ('node', 'name', 'qual', 'env', 'defaults', 'kwdefaults', 'module', 'clsref', 'locals', 'is_gen', 'globals', 'nonlocals')


class HObj:
    __slots__ = ('kind', 'cls', 'data', 'owner', 'site', 'meta')

    def __init__(self, kind, cls, data, owner, site=None, meta=None):
        self.kind, self.cls, self.data, self.owner, self.site, self.meta = kind, cls, data, owner, site, meta

    def copy(self, owner):
        d = self.data
        if isinstance(d, (dict, list)):
            d = d.copy()
        return HObj(self.kind, self.cls, d, owner, self.site, self.meta)


_owner = [0]


def new_owner():
    _owner[0] += 1
    return _owner[0]


class State:
    __slots__ = ('heap', 'pc', 'owner')

    def __init__(self, heap, pc):
        self.heap, self.pc, self.owner = heap, pc, new_owner()

    def fork(self, pc):
        self.owner = new_owner()
        return State(dict(self.heap), pc)


class Event:
    __slots__ = ('pc', 'head', 'args', 'kw', 'site', 'result', 'raw', 'st')

    def __init__(self, pc, head, args, kw, site, result, raw, st=None):
        self.pc, self.head, self.args, self.kw, self.site, self.result, self.raw, self.st = pc, head, args, kw, site, result, raw, st

    @property
    def name(self):
        h = self.head
        return head_name(h)


# library calls that run code of the program or copy its objects: the state at the call is kept
PYPLOT = {'set_xlabel': 'xlabel', 'set_ylabel': 'ylabel', 'set_title': 'title', 'suptitle': 'suptitle', 'set_xlim': 'xlim', 'set_ylim': 'ylim', 'set_xscale': 'xscale', 'set_yscale': 'yscale', 'plot': 'plot', 'grid': 'grid',
          'legend': 'legend', 'savefig': 'savefig', 'show': 'show', 'clf': 'clf', 'clear': 'clf', 'cla': 'cla', 'scatter': 'scatter', 'step': 'step', 'semilogy': 'semilogy', 'semilogx': 'semilogx', 'loglog': 'loglog'}
SNAPSHOT = {'scipy.integrate.odeint', 'pyneqsys.symbolic.SymbolicSys', 'assimulo.problem.Explicit_Problem', 'assimulo.problem.Implicit_Problem', '.simulate', '.solve', 'scipy.linalg.solve',
            'pygmo.problem', 'pygmo.population', '.evolve'}


def head_name(h):
    if h.kind == 'ext':
        return h.a
    if h.kind == 'attr':
        return '.' + h.a[1]
    if h.kind in ('bi', 'bt'):
        return h.a
    return show(h)


class Raised:
    __slots__ = ('st', 'exc', 'site', 'msg')

    def __init__(self, st, exc, site, msg):
        self.st, self.exc, self.site, self.msg = st, exc, site, msg


class Interp:
    def __init__(self, root, pkg_root='src', maxdepth=80, budget=3000000):
        self.root = root
        self.modules = {}
        self.parsed = {}
        self.st = State({}, TRUE)
        self.nexto = 1
        self.raises = [[]]
        self.frames = []
        self.events = []
        self.writes = []      # (pc, oid, name, site) heap writes
        self.visited = set()  # (file, function) interpreted
        self.visited_lines = set()
        self.calls = 0
        self.steps = 0
        self.budget = budget
        self.deadline = float('inf')
        self.answers = {}
        self.maxdepth = maxdepth
        self.approx = []
        self.sympified = set()   # numeric terms that went through sympify
        self.any_used = False
        self.ext_raise = None     # hook: head -> bool (may raise)
        self.ext_model = None     # hook(interp, head, args, kw) -> V or None
        from . import models
        self.models = models

    # ------------------------------------------------------------ heap
    def alloc(self, kind, data, cls=None, meta=None):
        oid = self.nexto
        self.nexto += 1
        self.st.heap[oid] = HObj(kind, cls, data, self.st.owner, self.site(), meta)
        return mk('r', oid)

    def h(self, v):
        return self.st.heap[v.a]

    def mut(self, v):
        o = self.st.heap[v.a]
        if o.owner != self.st.owner:
            o = o.copy(self.st.owner)
            self.st.heap[v.a] = o
        if o.kind != 'env':
            self.writes.append((self.st.pc, v.a, o.kind, self.site()))
        return o

    def isobj(self, v, kind=None):
        if v.kind != 'r':
            return False
        o = self.st.heap.get(v.a)
        if o is None:
            return False
        return o.kind == kind if isinstance(kind, str) else (kind is None or o.kind in kind)

    def new_list(self, items):
        return self.alloc('list', list(items))

    def new_dict(self, items=(), od=False):
        d = {}
        for k, v in items:
            d[k] = v
        return self.alloc('dict', d, meta='OrderedDict' if od else None)

    # ------------------------------------------------------------ sites and raising
    def site(self):
        if self.frames:
            f = self.frames[-1]
            return (f['file'], f['line'], f['fn'])
        return ('<scenario>', 0, '')

    def raise_exc(self, exc, msg=''):
        self.raises[-1].append(Raised(self.st, exc, self.site(), msg))
        self.st = None
        raise Dead()

    def raise_builtin(self, name, msg=''):
        exc = self.alloc('inst', {'args': tup([const(msg)])}, cls=bt(name))
        self.raise_exc(exc, msg)

    def undecided(self, why):
        raise Undecided(why, self.site())

    # ------------------------------------------------------------ forking / merging
    def simp(self, c):
        return restrict(c, self.st.pc)

    def fork(self, cond, f, g):
        c = self.simp(cond)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        st0 = self.st
        pcA, pcB = AND(st0.pc, c), AND(st0.pc, NOT(c))
        if self.any_used and contains(c, self.models.is_any):
            self.undecided('branch on an element of an opaque mapping')
        if pcA is FALSE or not feasible(pcA):
            st0.pc = st0.pc
            return g()
        if pcB is FALSE or not feasible(pcB):
            return f()
        sA = st0.fork(pcA)
        sB = st0.fork(pcB)
        self.st = sA
        va = vb = None
        try:
            va = f()
            sA = self.st
        except Dead:
            sA = None
        self.st = sB
        try:
            vb = g()
            sB = self.st
        except Dead:
            sB = None
        if sA is None and sB is None:
            self.st = None
            raise Dead()
        if sA is None:
            self.st = sB
            return vb
        if sB is None:
            self.st = sA
            return va
        self.st = self.merge(sA, sB, c)
        if va is None and vb is None:
            return None
        return ite(c, va if va is not None else NONE, vb if vb is not None else NONE)

    def merge(self, a, b, c=None):
        pc = OR(a.pc, b.pc)
        if c is None:
            c = restrict(a.pc, pc)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        st = State(a.heap, pc)
        ha, hb = a.heap, b.heap
        for oid, ob in hb.items():
            oa = ha.get(oid)
            if oa is ob:
                continue
            if oa is None:
                ha[oid] = ob
                continue
            ha[oid] = self.merge_obj(oa, ob, c, st.owner)
        st.heap = ha
        # objects of `a` keep stale owner tokens -> copied on next write
        return st

    def merge_obj(self, oa, ob, c, owner):
        if oa.kind != ob.kind:
            raise Undecided('heap object changed kind across branches')
        if oa.data == ob.data and type(oa.data) is type(ob.data) and (not isinstance(oa.data, dict) or list(oa.data) == list(ob.data)):
            return oa
        r = HObj(oa.kind, oa.cls, None, owner, oa.site, oa.meta if oa.meta is not None else ob.meta)
        if isinstance(oa.data, dict):
            d = {}
            for k, v in oa.data.items():
                d[k] = ite(c, v, ob.data.get(k, ABSENT))
            for k, v in ob.data.items():
                if k not in d:
                    d[k] = ite(c, ABSENT, v)
            r.data = d
        elif isinstance(oa.data, list):
            n = min(len(oa.data), len(ob.data))
            out = [ite(c, x, y) for x, y in zip(oa.data[:n], ob.data[:n])]
            out += [ite(c, x, ABSENT) for x in oa.data[n:]]
            out += [ite(c, ABSENT, y) for y in ob.data[n:]]
            r.data = out
        else:
            raise Undecided('cannot merge heap object of kind %s' % oa.kind)
        return r

    def merge_many(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge(r, s)
        return r

    def split(self, v, f):
        """apply f(leaf) with effects on every leaf of v under its condition"""
        if v.kind != 'g':
            return f(v)
        v = self.simp(v)
        if v.kind != 'g':
            return f(v)
        ls = leaves(v)
        if len(ls) > 24:
            self.undecided('too many alternatives')

        def go(i):
            c, l = ls[i]
            if i == len(ls) - 1:
                return f(l)
            return self.fork(c, lambda: f(l), lambda: go(i + 1))
        return go(0)

    def splitn(self, vs, f):
        vs = list(vs)
        for i, v in enumerate(vs):
            if v.kind == 'g':
                v2 = self.simp(v)
                if v2.kind == 'g':
                    return self.split(v2, lambda l: self.splitn(vs[:i] + [l] + vs[i + 1:], f))
                vs[i] = v2
        return f(vs)

    def if_(self, cond, f, g):
        return self.fork(cond, f, g)

    # ------------------------------------------------------------ modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p):
            q = os.path.join(p, '__init__.py')
            return (q if os.path.isfile(q) else None), True
        return None, None

    def is_repo_module(self, name):
        p, pkg = self.modpath(name)
        return p is not None or pkg is True

    def parse(self, path):
        if path not in self.parsed:
            try:
                with open(path, 'rb') as fh:
                    self.parsed[path] = ast.parse(fh.read(), path)
            except (OSError, SyntaxError, ValueError) as e:
                raise SourceError('%s: %s' % (path, e))
        return self.parsed[path]

    def load(self, name):
        """abstractly import a repository module; returns module ref"""
        if name in self.modules:
            return self.modules[name]
        path, pkg = self.modpath(name)
        if path is None and not pkg:
            raise SourceError('module %s not found' % name)
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        m = self.alloc('module', {'__name__': const(name)}, meta={'name': name, 'pkg': pkg, 'file': path})
        self.modules[name] = m
        if '.' in name:
            par, last = name.rsplit('.', 1)
            self.mut(self.modules[par]).data[last] = m
        if path is not None:
            tree = self.parse(path)
            self.frames.append({'file': os.path.relpath(path, self.root), 'line': 0, 'fn': '<module>', 'module': name, 'returns': [], 'loops': []})
            try:
                self.exec_block(tree.body, m)
                if self.st is None:
                    raise Dead()
            finally:
                self.frames.pop()
        return m

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s, env)

    def exec_stmt(self, s, env):
        self.steps += 1
        if self.steps > self.budget or not self.steps & 1023 and time.monotonic() > self.deadline:
            raise Undecided('analysis budget exceeded')
        fr = self.frames[-1]
        fr['line'] = s.lineno
        self.visited_lines.add((fr['file'], s.lineno))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.undecided('statement %s' % type(s).__name__)
        try:
            m(s, env)
        except Dead:
            self.st = None

    def st_Pass(self, s, env):
        pass

    def st_Expr(self, s, env):
        self.eval(s.value, env)

    def st_Global(self, s, env):
        pass

    st_Nonlocal = st_Global

    def st_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def st_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            new = self.augop(op, cur, self.eval(s.value, env))
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            new = self.augop(op, cur, self.eval(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = self.getitem(o, k)
            new = self.augop(op, cur, self.eval(s.value, env))
            self.setitem(o, k, new)
        else:
            self.undecided('augmented assignment')

    def augop(self, op, cur, v):
        def f(vs):
            c, x = vs
            if self.isobj(c, 'list') and op == 'Add':
                items = self.iter_items(x)
                self.mut(c).data.extend(items)
                return c
            if self.isobj(c, 'dict') and op == 'BitOr':
                self.models.dict_update(self, c, x)
                return c
            if self.isobj(c, 'inst'):
                nm = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(op)
                if nm:
                    m = self.class_attr(self.h(c).cls, nm)
                    if m is not None:
                        return self.call(self.bind(m, c), [x], {})
            return self.binop(op, c, x)
        return self.splitn([cur, v], f)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.mut(env).data.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                self.splitn([o, k], lambda vs: self.delitem(*vs))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                self.split(o, lambda l: (self.mut(l).data.pop(t.attr, None), NONE)[1])
            else:
                self.undecided('delete')

    def delitem(self, o, k):
        if self.isobj(o, 'dict'):
            self.models.no_stars(self, self.h(o).data)
            if k not in self.h(o).data:
                self.raise_builtin('KeyError', show(k))
            del self.mut(o).data[k]
            return NONE
        if self.isobj(o, 'list') and is_pynum(k):
            del self.mut(o).data[int(cval(k))]
            return NONE
        if o.kind == 'idict':
            self.mut(mk('r', o.a)).data.pop(str_const(k), None)
            return NONE
        if self.isobj(o, 'list') and k.kind == 'slice':
            self.undecided('del slice')
        return NONE

    def st_Return(self, s, env):
        v = self.eval(s.value, env) if s.value is not None else NONE
        self.frames[-1]['returns'].append((self.st, v))
        self.st = None

    def st_If(self, s, env):
        c = self.truth(self.eval(s.test, env))

        def run(body):
            def f():
                self.exec_block(body, env)
                if self.st is None:
                    raise Dead()
                return None
            return f
        self.fork(c, run(s.body), run(s.orelse))

    def st_Assert(self, s, env):
        c = self.truth(self.eval(s.test, env))

        def bad():
            msg = self.eval(s.msg, env) if s.msg is not None else NONE
            exc = self.alloc('inst', {'args': tup([msg])}, cls=bt('AssertionError'))
            self.raise_exc(exc, 'assert')
        self.fork(c, lambda: None, bad)

    def st_Raise(self, s, env):
        if s.exc is None:
            cur = self.frames[-1].get('handling')
            if cur:
                self.raise_exc(cur[-1], 're-raise')
            self.raise_builtin('RuntimeError', 'No active exception to reraise')
        v = self.eval(s.exc, env)

        def go(l):
            if (l.kind == 'bt' and l.a in EXC_BASE) or self.isobj(l, 'class'):
                l = self.call(l, [], {})
            self.raise_exc(l, 'raise')
        self.split(v, go)

    def st_Import(self, s, env):
        for a in s.names:
            if self.is_repo_module(a.name):
                m = self.load(a.name)
                if a.asname:
                    self.bind_name(a.asname, m, env)
                else:
                    self.bind_name(a.name.split('.')[0], self.modules[a.name.split('.')[0]], env)
            else:
                top_ = a.name if a.asname else a.name.split('.')[0]
                self.bind_name(a.asname or top_, ext(top_), env)

    def st_ImportFrom(self, s, env):
        base = self.frames[-1]['module']
        if s.level:
            path, pkg = self.modpath(base)
            parts = base.split('.')
            if not pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([s.module] if s.module else []))
        else:
            name = s.module
        if not self.is_repo_module(name):
            if s.level:
                self.raise_builtin('ModuleNotFoundError', name)
            for a in s.names:
                if a.name == '*':
                    self.undecided('star import from library')
                self.bind_name(a.asname or a.name, self.models.ext_name(name + '.' + a.name), env)
            return
        m = self.load(name)
        for a in s.names:
            data = self.h(m).data
            if a.name == '*':
                if '__all__' in data:
                    names = [str_const(x) for x in self.iter_items(data['__all__'])]
                else:
                    names = [n for n in data if not n.startswith('_')]
                for n in names:
                    if n in data:
                        self.bind_name(n, data[n], env)
                continue
            if a.name in data:
                self.bind_name(a.asname or a.name, data[a.name], env)
            elif self.is_repo_module(name + '.' + a.name):
                self.bind_name(a.asname or a.name, self.load(name + '.' + a.name), env)
            else:
                self.raise_builtin('ImportError', 'cannot import name %s from %s' % (a.name, name))

    def st_FunctionDef(self, s, env):
        fn = self.make_fn(s, env)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, env)
            fn = self.call(dv, [fn], {})
        self.bind_name(s.name, fn, env)

    def make_fn(self, node, env):
        fi = FnInfo()
        fi.node = node
        fi.name = getattr(node, 'name', '<lambda>')
        fr = self.frames[-1]
        owner = self.h(env)
        fi.qual = fi.name
        fi.clsref = None
        if owner.kind == 'classenv':
            fi.qual = owner.meta['name'] + '.' + fi.name
            fi.env = owner.meta['parent']
            fi.clsref = owner.meta['ref']
        else:
            fi.env = env
            if owner.kind == 'env':
                fi.qual = owner.meta['qual'] + '.' + fi.name
                fi.clsref = owner.meta.get('clsref')
        a = node.args
        fi.defaults = [self.eval(d, env) for d in a.defaults]
        fi.kwdefaults = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        fi.module = (fr['module'], fr['file'])
        fi.locals, fi.globals, fi.nonlocals, fi.is_gen = scan_locals(node)
        return mk('fn', fi)

    def st_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        ref = self.alloc('class', {}, meta=None)
        meta = {'name': s.name, 'bases': bases, 'module': self.frames[-1]['module'], 'file': self.frames[-1]['file'], 'line': s.lineno}
        meta['mro'] = self.mro(ref, bases)
        self.h(ref).meta = meta
        cenv = self.alloc('classenv', {}, meta={'name': s.name, 'parent': env, 'ref': ref})
        self.exec_block(s.body, cenv)
        if self.st is None:
            raise Dead()
        self.mut(ref).data.update(self.h(cenv).data)
        v = ref
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), [v], {})
        self.bind_name(s.name, v, env)

    def mro(self, ref, bases):
        seqs = []
        for b in bases:
            if self.isobj(b, 'class'):
                seqs.append(list(self.h(b).meta['mro']))
            elif b.kind == 'bt' and b.a in EXC_BASE:
                l, n = [], b.a
                while n:
                    l.append(bt(n))
                    n = EXC_BASE[n]
                seqs.append(l)
            else:
                seqs.append([b])
        seqs.append(list(bases))
        out = [ref]
        while True:
            seqs = [q for q in seqs if q]
            if not seqs:
                break
            for q in seqs:
                if not any(q[0] in r[1:] for r in seqs):
                    c = q[0]
                    break
            else:
                self.undecided('inconsistent MRO')
            out.append(c)
            for q in seqs:
                if q and q[0] is c:
                    q.pop(0)
        return out

    def st_For(self, s, env):
        it = self.eval(s.iter, env)
        fr = self.frames[-1]
        ctx = {'breaks': [], 'conts': []}

        def body(v):
            def run():
                self.assign(s.target, v, env)
                self.exec_block(s.body, env)
                if self.st is None:
                    raise Dead()
                return None
            pres = presence(v)
            if pres is not TRUE:
                v2 = drop_absent(v)
                w = v2

                def run2():
                    self.assign(s.target, w, env)
                    self.exec_block(s.body, env)
                    if self.st is None:
                        raise Dead()
                    return None
                self.fork(pres, run2, lambda: None)
            else:
                run()

        fr['loops'].append(ctx)
        try:
            for v in self.iter_lazy(it):
                try:
                    body(v)
                except Dead:
                    self.st = None
                if ctx['conts']:
                    self.st = self.merge_many([self.st] + ctx['conts'])
                    ctx['conts'] = []
                if self.st is None:
                    break
        finally:
            fr['loops'].pop()
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, env)
        self.st = self.merge_many([self.st] + ctx['breaks'])
        if self.st is None:
            raise Dead()

    def st_While(self, s, env):
        fr = self.frames[-1]
        ctx = {'breaks': [], 'conts': []}
        exits = []
        fr['loops'].append(ctx)
        undec = 0
        n = 0
        try:
            while self.st is not None:
                n += 1
                if n > 300:
                    self.undecided('while loop bound')
                try:
                    c = self.simp(self.truth(self.eval(s.test, env)))
                except Dead:
                    self.st = None
                    break
                if c is FALSE:
                    exits.append(self.st)
                    self.st = None
                    break
                if c is not TRUE:
                    undec += 1
                    if undec > 6:
                        self.undecided('while loop with undecided condition')
                    pcA, pcB = AND(self.st.pc, c), AND(self.st.pc, NOT(c))
                    ex = self.st.fork(pcB)
                    exits.append(ex)
                    self.st = self.st.fork(pcA)
                self.exec_block(s.body, env)
                if ctx['conts']:
                    self.st = self.merge_many([self.st] + ctx['conts'])
                    ctx['conts'] = []
        finally:
            fr['loops'].pop()
        self.st = self.merge_many(exits)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse, env)
        self.st = self.merge_many([self.st] + ctx['breaks'])
        if self.st is None:
            raise Dead()

    def st_Break(self, s, env):
        self.frames[-1]['loops'][-1]['breaks'].append(self.st)
        self.st = None

    def st_Continue(self, s, env):
        self.frames[-1]['loops'][-1]['conts'].append(self.st)
        self.st = None

    def st_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)

            def enter(l):
                if self.isobj(l, 'inst'):
                    m = self.class_attr(self.h(l).cls, '__enter__')
                    if m is not None:
                        return self.call(self.bind(m, l), [], {})
                if self.isobj(l, 'nullctx'):
                    return self.h(l).data.get('v', NONE)
                return l
            w = self.split(v, enter)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, env)
        self.exec_block(s.body, env)
        if self.st is None:
            raise Dead()
        for it in s.items:
            pass

    def st_Try(self, s, env):
        fr = self.frames[-1]
        nret = len(fr['returns'])
        self.raises.append([])
        fr['try'] = fr.get('try', 0) + 1
        st0 = self.st
        try:
            self.exec_block(s.body, env)
        finally:
            caught = self.raises.pop()
            fr['try'] -= 1
        outs = []
        pend = []
        if s.finalbody:
            self.raises.append([])
        if self.st is not None:
            if s.orelse:
                self.exec_block(s.orelse, env)
            if self.st is not None:
                outs.append(self.st)
        for r in caught:
            self.st = r.st
            handled = False
            for hd in s.handlers:
                if hd.type is None:
                    match = TRUE
                else:
                    tv = self.eval(hd.type, env)
                    match = self.simp(self.exc_matches(r.exc, tv))
                if match is FALSE:
                    continue
                if match is not TRUE:
                    self.undecided('exception match')
                if hd.name:
                    self.bind_name(hd.name, r.exc, env)
                fr.setdefault('handling', []).append(r.exc)
                try:
                    self.exec_block(hd.body, env)
                finally:
                    fr['handling'].pop()
                if self.st is not None:
                    outs.append(self.st)
                handled = True
                break
            if not handled:
                self.raises[-1].append(r)
        if s.finalbody:
            pend = self.raises.pop()
            rets = fr['returns'][nret:]
            del fr['returns'][nret:]
            for st, v in rets:
                self.st = st
                self.exec_block(s.finalbody, env)
                if self.st is not None:
                    fr['returns'].append((self.st, v))
            for r in pend:
                self.st = r.st
                self.exec_block(s.finalbody, env)
                if self.st is not None:
                    self.raises[-1].append(Raised(self.st, r.exc, r.site, r.msg))
        self.st = self.merge_many(outs)
        if self.st is None:
            raise Dead()
        if s.finalbody:
            self.exec_block(s.finalbody, env)
            if self.st is None:
                raise Dead()

    def exc_matches(self, exc, tv):
        if tv.kind == 't':
            r = FALSE
            for x in tv.a:
                r = OR(r, self.exc_matches(exc, x))
            return r
        return self.isinstance(exc, tv)

    def st_Match(self, s, env):
        self.undecided('match statement')

    # ------------------------------------------------------------ names
    def bind_name(self, name, v, env):
        o = self.h(env)
        if o.kind == 'env':
            m = o.meta
            if name in m['globals']:
                env = self.modules[m['module']]
            elif name in m['nonlocals']:
                e = m['parent']
                while e is not None:
                    oe = self.h(e)
                    if oe.kind == 'env' and name in oe.meta['locals']:
                        env = e
                        break
                    e = oe.meta.get('parent') if oe.kind == 'env' else None
        self.mut(env).data[name] = v

    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            o = self.h(e)
            if name in o.data and not (o.kind == 'classenv' and not first):
                if o.kind == 'env' and name in o.meta['globals']:
                    e = self.modules[o.meta['module']]
                    continue
                v = o.data[name]
                if v is ABSENT:
                    self.raise_builtin('UnboundLocalError', name)
                if v.kind == 'g':
                    v = self.simp(v)
                    p = presence(v)
                    if p is not TRUE:
                        w = drop_absent(v)
                        return self.fork(p, lambda: w, lambda: self.raise_builtin('UnboundLocalError', name))
                return v
            if o.kind == 'env':
                if name in o.meta['locals'] and name not in o.meta['globals'] and name not in o.meta['nonlocals']:
                    self.raise_builtin('UnboundLocalError', name)
                e = o.meta['parent']
            elif o.kind == 'classenv':
                e = o.meta['parent']
            else:
                break
            first = False
        if name in TYPES or name in EXC_BASE:
            return bt('OSError' if name == 'IOError' else name)
        if name in BUILTINS:
            return bi(name)
        if name == 'NotImplemented':
            return mk('bi', 'NotImplemented')
        if name == '__name__':
            return const('mod')
        if name == '__file__':
            return const('file')
        self.raise_builtin('NameError', name)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            v = self.simp(v)

            def unpack(l):
                n = len(t.elts)
                items = self.try_items(l)
                if items is None:
                    if star:
                        self.undecided('starred unpack of opaque value')
                    return tup([self.opaque_item(l, const(i)) for i in range(n)])
                if star:
                    i = star[0]
                    if len(items) < n - 1:
                        self.raise_builtin('ValueError', 'unpack')
                    k = len(items) - (n - 1 - i)
                    return tup(items[:i] + [self.new_list(items[i:k])] + items[k:])
                if len(items) != n:
                    self.raise_builtin('ValueError', 'unpack')
                return tup(items)
            r = self.split(v, unpack)
            for i, x in enumerate(t.elts):
                xi = gmap(lambda q: q.a[i], r)
                self.assign(x.value if isinstance(x, ast.Starred) else x, xi, env)
        else:
            self.undecided('assignment target')

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        if self.isobj(cls, 'class'):
            for c in self.h(cls).meta['mro']:
                if self.isobj(c, 'class'):
                    d = self.h(c).data
                    if name in d:
                        return d[name]
        return None

    def cls_has_ext_base(self, cls):
        return any(not self.isobj(c, 'class') and not (c.kind == 'bt') for c in self.h(cls).meta['mro'])

    def bind(self, a, inst, cls=None):
        if a.kind == 'fn':
            return mk('bm', (inst, a))
        if a.kind == 'deco':
            k, f = a.a
            if k == 'property':
                return self.call(f, [inst], {})
            if k == 'staticmethod':
                return f
            if k == 'classmethod':
                return mk('bm', (self.h(inst).cls if self.isobj(inst, 'inst') else inst, f))
        return a

    def getattr(self, o, name):
        return self.split(o, lambda l: self.getattr1(l, name))

    def getattr1(self, l, name, default=None):
        r = self.getattr0(l, name)
        if r is None:
            if default is not None:
                return default
            self.raise_builtin('AttributeError', '%s has no attribute %s' % (self.describe(l), name))
        if r.kind == 'g':
            r = self.simp(r)
        if r.kind == 'g' and presence(r) is not TRUE or r is ABSENT:
            w = drop_absent(r)
            p = presence(r)
            return self.fork(p, lambda: w, lambda: default if default is not None else self.raise_builtin('AttributeError', name))
        return r

    def describe(self, l):
        if l.kind == 'r':
            o = self.h(l)
            if o.kind == 'inst':
                return self.cls_name(o.cls) + ' object'
            return o.kind
        return show(l)

    def cls_name(self, c):
        if self.isobj(c, 'class'):
            return self.h(c).meta['name']
        if c.kind == 'bt':
            return c.a
        return show(c)

    def getattr0(self, l, name):
        """value, or None when the attribute definitely does not exist"""
        k = l.kind
        if k in ('app', 'n') and l.ty == 'sym' and not name.startswith('__') and name not in SY.EVERY and name not in SY.SOME:
            return None
        if k == 'r':
            o = self.h(l)
            if o.kind == 'inst':
                if name in o.data:
                    d = o.data[name]
                    if d is not ABSENT:
                        ca = self.class_attr(o.cls, name) if self.isobj(o.cls, 'class') else None
                        if ca is not None and presence(d) is not TRUE:
                            return drop_absent_with(d, self.bind(ca, l))
                        return d
                if name == '__dict__':
                    return mk('idict', l.a)
                if name == '__class__':
                    return o.cls
                if self.isobj(o.cls, 'class'):
                    a = self.class_attr(o.cls, name)
                    if a is not None:
                        return self.bind(a, l)
                    if self.cls_has_ext_base(o.cls):
                        return attr(l, name)
                    if name not in ('__getattr__',):
                        ga = self.class_attr(o.cls, '__getattr__')
                        if ga is not None:
                            return self.call(self.bind(ga, l), [const(name)], {})
                if name == '__str__' or name == '__repr__':
                    return mk('bmeth', (l, name))
                if o.cls.kind == 'bt' and name == 'with_traceback':
                    return mk('bmeth', (l, name))
                return None
            if o.kind == 'module':
                if name in o.data:
                    return o.data[name]
                sub = o.meta['name'] + '.' + name
                if sub in self.modules:
                    return self.modules[sub]
                if name == '__dict__':
                    return mk('idict', l.a)
                return None
            if o.kind == 'class':
                if name == '__name__':
                    return const(o.meta['name'])
                if name in ('__mro__', '__bases__'):
                    return tup(o.meta['mro' if name == '__mro__' else 'bases'])
                if name == '__dict__':
                    return mk('idict', l.a)
                a = self.class_attr(l, name)
                if a is None:
                    if name in ('__init__', '__call__', '__new__', '__setattr__', '__getattribute__'):
                        return mk('bi', 'object.' + name)
                    if self.cls_has_ext_base(l):
                        return attr(l, name)
                    return None
                if a.kind == 'deco':
                    kk, f = a.a
                    if kk == 'staticmethod':
                        return f
                    if kk == 'classmethod':
                        return mk('bm', (l, f))
                return a
            if o.kind == 'ext':
                if name in o.data:
                    return o.data[name]
                if o.meta.get('strict'):
                    return None
                r = self.models.ext_attr(self, l, name)
                return r if r is not None else attr(l, name)
            if o.kind in ('list', 'dict', 'set', 'iter', 'gen', 'deque'):
                if name == '__class__':
                    return bt(o.kind)
                if name in self.models.METHODS.get(o.kind, ()):
                    return mk('bmeth', (l, name))
                if o.kind == 'dict' and o.meta == 'OrderedDict' and name in ('move_to_end',):
                    return mk('bmeth', (l, name))
                return None
            return None
        if k == 'super':
            cls, inst = l.a
            o = self.h(inst)
            base = o.cls if o.kind == 'inst' else inst
            mro = self.h(base).meta['mro']
            i = mro.index(cls)
            for c in mro[i + 1:]:
                if self.isobj(c, 'class'):
                    d = self.h(c).data
                    if name in d:
                        return self.bind(d[name], inst)
                elif c.kind != 'bt':
                    return attr(mk('super', l.a), name)
            if name in ('__init__', '__setattr__', '__getattribute__', '__new__'):
                return mk('bi', 'object.' + name) if name == '__init__' else mk('bmeth', (inst, name))
            return None
        if k == 'ext':
            return self.models.ext_name(l.a + '.' + name)
        if k == 's':
            return mk('bmeth', (l, name)) if hasattr('', name) else None
        if k == 't':
            return mk('bmeth', (l, name)) if hasattr((), name) else None
        if k == 'c':
            x = cval(l)
            if name == '__class__':
                return self.type_of(l)
            if hasattr(x, name):
                return mk('bmeth', (l, name))
            return None
        if k in ('fn', 'bm'):
            f = l.a if k == 'fn' else l.a[1].a
            if name == '__name__':
                return const(f.name)
            if name == '__doc__':
                return NONE
            if name == '__self__' and k == 'bm':
                return l.a[0]
            if name == '__func__' and k == 'bm':
                return l.a[1]
            return None
        if k == 'bt':
            if name == '__name__':
                return const(l.a)
            if l.a in ('dict', 'str', 'list', 'object', 'float', 'int', 'Exception', 'tuple', 'set'):
                return mk('bi', l.a + '.' + name)
            return None
        if k == 'idict':
            return mk('bmeth', (l, name)) if hasattr({}, name) else None
        if k in ('n', 'sym', 'app', 'attr', 'item'):
            ty = num_ty(l)
            if ty in ('int', 'float', 'num') and not (l in self.sympified and name in SY.EVERY):
                if hasattr(1.0, name) or hasattr(1, name):
                    return mk('bmeth', (l, name))
                return None
            r = self.models.ext_attr(self, l, name)
            if r is not None:
                return r
            return attr(l, name)
        if k == 'top':
            self.undecided('attribute %s of unknown value (%s)' % (name, l.a))
        if k == 'bi':
            if name == '__name__':
                return const(l.a)
            return None
        if k == 'pf':
            return None
        return None

    def setattr(self, o, name, v):
        def f(l):
            if l.kind == 'r':
                ho = self.h(l)
                if ho.kind == 'inst' and self.isobj(ho.cls, 'class'):
                    ca = self.class_attr(ho.cls, name)
                    if ca is not None and ca.kind == 'deco' and ca.a[0] == 'propset':
                        self.call(ca.a[1], [l, v], {})
                        return NONE
                    sa = self.class_attr(ho.cls, '__setattr__')
                    if sa is not None and not any(fr['fn'].endswith('.__setattr__') for fr in self.frames[-1:]):
                        self.call(self.bind(sa, l), [const(name), v], {})
                        return NONE
                if ho.kind in ('inst', 'module', 'class', 'ext'):
                    mo = self.mut(l)
                    mo.data[name] = v
                    return NONE
                self.raise_builtin('AttributeError', 'cannot set %s' % name)
            if l.kind in ('app', 'attr', 'item', 'ext') or (l.kind == 'sym' and l.ty not in ('int', 'float', 'num', 'str')):
                self.events.append(Event(self.st.pc, attr(l, name), (v,), (('set', TRUE),), self.site(), NONE, (v,)))
                return NONE
            if l.kind == 'fn':
                return NONE
            self.raise_builtin('AttributeError', 'cannot set attribute %s' % name)
        self.split(o, f)

    # ------------------------------------------------------------ items
    def opaque_item(self, l, k):
        return self.models.ext_item(self, l, k)

    def getitem(self, o, k):
        return self.splitn([o, k], lambda vs: self.getitem1(*vs))

    def getitem1(self, l, k):
        if l.kind == 'r':
            o = self.h(l)
            if o.kind == 'dict':
                if k in o.data:
                    v = self.simp(o.data[k])
                    p = presence(v)
                    if p is TRUE:
                        return v
                    w = drop_absent(v)
                    return self.fork(p, lambda: w, lambda: self.dict_missing(l, o, k))
                k2 = self.find_key(o.data, k)
                if k2 is not None:
                    return self.getitem1(l, k2)
                return self.dict_missing(l, o, k)
            if o.kind in ('list', 'deque'):
                return self.seq_item(self.plain_list(l), k, list_=True)
            if o.kind == 'inst':
                if self.isobj(o.cls, 'class'):
                    m = self.class_attr(o.cls, '__getitem__')
                    if m is not None:
                        return self.call(self.bind(m, l), [k], {})
                self.raise_builtin('TypeError', 'not subscriptable')
            if o.kind == 'ext':
                return self.models.ext_item(self, l, k)
            if o.kind == 'class':
                return l
            self.raise_builtin('TypeError', 'not subscriptable')
        if l.kind == 't':
            return self.seq_item(list(l.a), k)
        if l.kind == 's':
            return self.models.str_item(self, l, k)
        if l.kind == 'idict':
            n = str_const(k)
            d = self.h(mk('r', l.a)).data
            if n is None:
                self.undecided('__dict__ lookup with opaque name')
            if n in d:
                return d[n]
            self.raise_builtin('KeyError', n)
        if l.kind in ('c',):
            self.raise_builtin('TypeError', 'not subscriptable')
        if l.kind in ('app', 'attr', 'item', 'sym', 'n', 'ext'):
            if num_ty(l) in ('int', 'float', 'num'):
                self.raise_builtin('TypeError', 'number is not subscriptable')
            return self.models.ext_item(self, l, k)
        if l.kind in ('lst',):
            return self.seq_item(list(l.a), k)
        if l.kind == 'bt':
            return l
        if l.kind == 'top':
            self.undecided('item of unknown value')
        self.raise_builtin('TypeError', 'not subscriptable')

    def dict_missing(self, l, o, k):
        w = self.models.star_item(self, o.data, k)
        if w is not None:
            p = presence(w)
            return self.fork(p, lambda: drop_absent(w), lambda: self.raise_builtin('KeyError', show(k)))
        if isinstance(o.meta, tuple) and o.meta[0] == 'defaultdict':
            v = self.call(o.meta[1], [], {})
            self.mut(l).data[k] = v
            return v
        if self.key_uncertain(k) or any(self.key_uncertain(x) for x in o.data):
            self.undecided('dictionary lookup with opaque key %s' % show(k))
        self.raise_builtin('KeyError', show(k))

    def key_uncertain(self, k):
        if k.kind in ('n', 'app', 'attr', 'item'):
            return True
        if k.kind == 'sym' and k.ty not in ('str',):
            return k.ty != 'key'
        if k.kind == 's':
            return any(not isinstance(p, str) and p.kind not in ('sym',) for p in k.a)
        if k.kind == 't':
            return any(self.key_uncertain(x) for x in k.a)
        return False

    def find_key(self, data, k):
        """equal-but-not-identical numeric constant keys (1 vs 1.0 vs True)"""
        if is_pynum(k):
            for x in data:
                if is_pynum(x) and cval(x) == cval(k):
                    return x
        return None

    def plain_list(self, l):
        """python list of V without optional elements (splits when needed)"""
        d = [self.simp(x) for x in self.h(l).data]
        if all(presence(x) is TRUE for x in d):
            return d
        if all(presence(x) in (TRUE, FALSE) for x in d):
            return [x for x in d if presence(x) is TRUE]
        self.undecided('list with conditionally present elements')

    def seq_item(self, items, k, list_=False):
        if k.kind == 'slice':
            lo, hi, step = k.a
            bounds = []
            for b in (lo, hi, step):
                if b is NONE:
                    bounds.append(None)
                elif is_pynum(b):
                    bounds.append(int(cval(b)))
                else:
                    self.undecided('opaque slice bound')
            r = items[slice(*bounds)]
            return self.new_list(r) if list_ else tup(r)
        if is_pynum(k) and num_ty(k) == 'float' or k is NONE:
            self.raise_builtin('TypeError', 'indices must be integers')
        if is_pynum(k):
            i = int(cval(k))
            if -len(items) <= i < len(items):
                return items[i]
            self.raise_builtin('IndexError', 'index out of range')
        if k.kind == 's':
            self.raise_builtin('TypeError', 'indices must be integers')
        if not items:
            self.raise_builtin('IndexError', 'index out of range')
        self.undecided('opaque index %s' % show(k))

    def setitem(self, o, k, v):
        self.splitn([o, k], lambda vs: self.setitem1(vs[0], vs[1], v))

    def setitem1(self, l, k, v):
        if l.kind == 'r':
            o = self.h(l)
            if o.kind == 'dict':
                if self.isobj(k, ('list', 'dict', 'set')):
                    self.raise_builtin('TypeError', 'unhashable type')
                if self.models.is_any(k):
                    return self.models.any_store(self, l, k, v)
                k2 = self.find_key(o.data, k) if k not in o.data else k
                self.mut(l).data[k2 if k2 is not None else k] = v
                return NONE
            if o.kind == 'list':
                items = self.plain_list(l)
                if is_pynum(k):
                    i = int(cval(k))
                    if -len(items) <= i < len(items):
                        items[i] = v
                        self.mut(l).data[:] = items
                        return NONE
                    self.raise_builtin('IndexError', 'assignment index')
                if k.kind == 'slice':
                    b = [None if x is NONE else int(cval(x)) for x in k.a]
                    items[slice(*b)] = self.iter_items(v)
                    self.mut(l).data[:] = items
                    return NONE
                self.undecided('list store at opaque index')
            if o.kind == 'inst' and self.isobj(o.cls, 'class'):
                m = self.class_attr(o.cls, '__setitem__')
                if m is not None:
                    return self.call(self.bind(m, l), [k, v], {})
                self.raise_builtin('TypeError', 'item assignment')
            if o.kind == 'ext':
                self.events.append(Event(self.st.pc, attr(l, '__setitem__'), (k, self.freeze(v)), (), self.site(), NONE, (k, v)))
                return NONE
        if l.kind == 'idict':
            n = str_const(k)
            if n is None:
                # attribute with opaque (generic) name: keep it under its label
                n = '$' + str_label(k) if k.kind == 's' else None
            if n is None:
                self.undecided('__dict__ store with opaque name')
            self.mut(mk('r', l.a)).data[n] = v
            return NONE
        if l.kind in ('app', 'attr', 'item', 'sym'):
            self.events.append(Event(self.st.pc, attr(l, '__setitem__'), (k, self.freeze(v)), (), self.site(), NONE, (k, v)))
            return NONE
        self.raise_builtin('TypeError', 'item assignment')

    # ------------------------------------------------------------ truth / comparison
    def truth(self, v):
        return self.split_bool(v, self.truth1)

    def split_bool(self, v, f):
        if v.kind != 'g':
            return f(v)
        return self.split(v, f)

    def truth1(self, l):
        k = l.kind
        if k == 'c':
            return TRUE if cval(l) else FALSE
        if k == 's':
            return TRUE if l.a else FALSE
        if k in ('t', 'lst', 'dct'):
            return TRUE if l.a else FALSE
        if k == 'r':
            o = self.h(l)
            if o.kind in ('list', 'dict', 'set', 'deque'):
                if o.kind == 'dict' and not any(presence(x) is TRUE for q, x in o.data.items() if not self.models.is_star(q)):
                    self.models.no_stars(self, o.data)
                data = o.data if isinstance(o.data, list) else list(o.data.values())
                r = FALSE
                for x in data:
                    r = OR(r, presence(x))
                return r
            if o.kind == 'inst' and self.isobj(o.cls, 'class'):
                m = self.class_attr(o.cls, '__bool__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, l), [], {}))
                m = self.class_attr(o.cls, '__len__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, l), [], {}))
            if o.kind == 'ext':
                return TRUE
            return TRUE
        if k == 'idict':
            return TRUE
        if k == 'top':
            self.undecided('branch on unknown value (%s)' % (l.a,))
        if k in ('n', 'sym') or (k in ('app', 'attr', 'item') and num_ty(l) in ('int', 'float', 'num', 'sym')):
            if k == 'sym' and l.ty not in NUMTY:
                return atom('truthy', l)
            return NOT(self.eq0(l))
        if k in ('app', 'attr', 'item'):
            return atom('truthy', l)
        if k == 'absent':
            self.undecided('absent value')
        return TRUE

    def eq0(self, d):
        if is_pynum(d):
            return TRUE if cval(d) == 0 else FALSE
        p = to_poly(d)
        if p is None:
            return atom('eq', d, const(0))
        lead = p[min(p, key=lambda m: tuple((a.id, e) for a, e in m))]
        q = from_poly({m: c / lead for m, c in p.items()}, 'num')
        return atom('eq0', q)

    def compare(self, op, a, b):
        return self.splitn([a, b], lambda vs: self.compare1(op, *vs))

    def compare1(self, op, a, b):
        if op in ('Eq', 'NotEq'):
            r = self.eq1(a, b)
            if r.kind not in ('c', 'g') or (r.kind == 'c' and r not in (TRUE, FALSE)):
                # user defined __eq__ returning a non-boolean
                if op == 'NotEq':
                    return NOT(self.truth(r))
                return r
            if op == 'NotEq':
                return NOT(r) if all(x in (TRUE, FALSE) for x in leafset(r)) else NOT(self.truth(r))
            return r
        if op in ('Is', 'IsNot'):
            r = self.is1(a, b)
            return NOT(r) if op == 'IsNot' else r
        if op in ('In', 'NotIn'):
            r = self.contains1(b, a)
            return NOT(r) if op == 'NotIn' else r
        # ordering
        nm = {'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[op]
        if self.isobj(a, 'inst'):
            m = self.class_attr(self.h(a).cls, nm)
            if m is not None:
                return self.call(self.bind(m, a), [b], {})
            self.raise_builtin('TypeError', 'unorderable')
        if self.isobj(b, 'inst'):
            rn = {'Lt': '__gt__', 'Gt': '__lt__', 'LtE': '__ge__', 'GtE': '__le__'}[op]
            m = self.class_attr(self.h(b).cls, rn)
            if m is not None:
                return self.call(self.bind(m, b), [a], {})
            self.raise_builtin('TypeError', 'unorderable')
        if is_pynum(a) and is_pynum(b):
            x, y = cval(a), cval(b)
            return const({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])
        if a.kind == 's' and b.kind == 's':
            x, y = sort_label(a), sort_label(b)
            if str_const(a) is None or str_const(b) is None:
                self.approx.append(('string order', self.site()))
            return const({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])
        if self.isobj(a, 'set') and self.isobj(b, 'set'):
            x, y = set(self.h(a).data), set(self.h(b).data)
            return const({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])
        if a.kind == 't' and b.kind == 't':
            return self.tuple_lt(op, a, b)
        if a is NONE or b is NONE or (a.kind == 's') != (b.kind == 's'):
            self.raise_builtin('TypeError', 'unorderable')
        try:
            if op in ('Lt', 'GtE'):
                r = self.lt0(arith('-', a, b))
                return r if op == 'Lt' else NOT(r)
            r = self.lt0(arith('-', b, a))
            return r if op == 'Gt' else NOT(r)
        except NotNum:
            return atom('ord', const(op), a, b)

    def tuple_lt(self, op, a, b):
        for x, y in zip(a.a, b.a):
            e = self.simp(self.eq_bool(x, y))
            if e is TRUE:
                continue
            if e is FALSE:
                return self.compare1(op, x, y)
            self.undecided('tuple order')
        x, y = len(a.a), len(b.a)
        return const({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])

    def lt0(self, d):
        if is_pynum(d):
            return TRUE if cval(d) < 0 else FALSE
        p = to_poly(d)
        mono = [m for m in p if m]
        # lengths are never negative
        if all(all(a.kind == 'app' and a.a[0].kind == 'bi' and a.a[0].a == 'len' for a, e in m) for m in mono):
            if all(c > 0 for c in p.values()):
                return FALSE
        lead = abs(p[min(p, key=lambda m: tuple((a.id, e) for a, e in m))])
        return atom('lt0', from_poly({m: c / lead for m, c in p.items()}, 'num'))

    def eq_bool(self, a, b):
        r = self.compare('Eq', a, b)
        return r if all(x in (TRUE, FALSE) for x in leafset(r)) else self.truth(r)

    def eq1(self, a, b):
        if self.isobj(a, 'inst') and self.isobj(self.h(a).cls, 'class'):
            m = self.class_attr(self.h(a).cls, '__eq__')
            if m is not None:
                return self.call(self.bind(m, a), [b], {})
        if self.isobj(b, 'inst') and self.isobj(self.h(b).cls, 'class'):
            m = self.class_attr(self.h(b).cls, '__eq__')
            if m is not None:
                return self.call(self.bind(m, b), [a], {})
        if a is b:
            return TRUE
        ka, kb = a.kind, b.kind
        if ka == 'top' or kb == 'top':
            self.undecided('comparison with unknown value')
        if ka == 's' and kb == 's':
            return self.models.str_eq(self, a, b)
        if ka == 'c' and kb == 'c':
            return TRUE if cval(a) == cval(b) else FALSE
        if ka == 't' and kb == 't':
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = AND(r, self.eq_bool(x, y))
            return r
        if ka == 'r' and kb == 'r':
            oa, ob = self.h(a), self.h(b)
            if oa.kind == 'list' and ob.kind == 'list':
                x, y = self.plain_list(a), self.plain_list(b)
                if len(x) != len(y):
                    return FALSE
                r = TRUE
                for p, q in zip(x, y):
                    r = AND(r, self.eq_bool(p, q))
                return r
            if oa.kind == 'dict' and ob.kind == 'dict':
                return self.dict_eq(oa, ob)
            if oa.kind == 'set' and ob.kind == 'set':
                return TRUE if set(oa.data) == set(ob.data) else FALSE
            if oa.kind == 'ext' or ob.kind == 'ext':
                return atom('eq', *sorted((a, b)))
            return FALSE
        opaque = ('app', 'attr', 'item', 'sym', 'n')
        if ka in opaque or kb in opaque:
            if ka == 's' or kb == 's' or a is NONE or b is NONE or ka == 'r' or kb == 'r' or ka == 't' or kb == 't':
                o, q = (a, b) if ka in opaque else (b, a)
                if num_ty(o) in ('int', 'float', 'num', 'sym') and not (q.kind == 'r' and self.h(q).kind == 'ext'):
                    return FALSE
                if o.kind == 'sym' and o.ty in ('obj', 'key', 'Unit'):
                    return FALSE
                if q is NONE:
                    return FALSE if never_none(o) else atom('is', o, NONE)
                return atom('eq', o, q)
            co = self.models.symbolic_difference(a, b)
            if co is not None:
                r = TRUE
                for c in co:
                    r = AND(r, self.eq0(c))
                return r
            try:
                return self.eq0(arith('-', a, b))
            except NotNum:
                if ka == 'sym' and kb == 'sym' and a.ty in ('obj', 'key') and b.ty in ('obj', 'key'):
                    return FALSE
                return atom('eq', *sorted((a, b)))
        return FALSE

    def dict_eq(self, oa, ob):
        r = TRUE
        self.models.no_stars(self, oa.data)
        self.models.no_stars(self, ob.data)
        if oa.meta == 'OrderedDict' and ob.meta == 'OrderedDict':
            if set(oa.data) == set(ob.data) and list(oa.data) != list(ob.data):
                return FALSE
        for k in list(oa.data) + [k for k in ob.data if k not in oa.data]:
            x, y = oa.data.get(k, ABSENT), ob.data.get(k, ABSENT)
            if x is ABSENT or y is ABSENT:
                r = AND(r, const(x is y))
                continue
            r = AND(r, self.eq_bool(x, y))
        return r

    def is1(self, a, b):
        if a is b:
            return TRUE
        ka, kb = a.kind, b.kind
        opaque = ('app', 'attr', 'item', 'sym')
        if ka == 's' and kb == 's':
            return self.models.str_eq(self, a, b)
        if ka == 'top' or kb == 'top':
            self.undecided('identity with unknown value')
        if ka == 'c' and kb == 'c':
            if a.a[0] is b.a[0] and a.a[0] in (int,):
                return const(cval(a) == cval(b))
            return FALSE
        if (ka in opaque and (kb == 'c')) or (kb in opaque and ka == 'c'):
            o, q = (a, b) if ka in opaque else (b, a)
            if o.kind == 'sym' and o.ty in ('obj', 'str', 'key'):
                return FALSE
            if num_ty(o) in ('int', 'float', 'num', 'sym') and q in (NONE, TRUE, FALSE):
                return FALSE
            if q in (TRUE, FALSE) and o.kind != 'sym' or q in (TRUE, FALSE):
                # `is True` on an opaque flag
                t = atom('truthy', o)
                return t if q is TRUE else NOT(t)
            if q is NONE and never_none(o):
                return FALSE
            return atom('is', o, q)
        return FALSE

    def contains1(self, cont, x):
        k = cont.kind
        if k == 'r':
            o = self.h(cont)
            if o.kind in ('dict', 'set'):
                if self.isobj(x, ('list', 'dict', 'set')):
                    self.raise_builtin('TypeError', 'unhashable type')
                kk = x if x in o.data else self.find_key(o.data, x)
                if kk is not None:
                    return presence(self.simp(o.data[kk]))
                w = self.models.star_item(self, o.data, x)
                if w is not None:
                    return presence(w)
                if self.key_uncertain(x) and o.data or any(self.key_uncertain(q) and q.kind == x.kind for q in o.data):
                    r = FALSE
                    for q, v in o.data.items():
                        r = OR(r, AND(presence(v), self.eq_bool(q, x)))
                    return r
                return FALSE
            if o.kind in ('list', 'deque', 'iter'):
                r = FALSE
                for y in o.data:
                    p = presence(y)
                    if p is FALSE:
                        continue
                    w = drop_absent(y)
                    r = OR(r, AND(p, OR(self.same(w, x), self.eq_bool(w, x))))
                return r
            if o.kind == 'gen':
                r = FALSE
                for y in self.iter_items(cont):
                    r = OR(r, self.eq_bool(y, x))
                return r
            if o.kind == 'inst':
                m = self.class_attr(o.cls, '__contains__')
                if m is not None:
                    return self.truth(self.call(self.bind(m, cont), [x], {}))
                self.raise_builtin('TypeError', 'not iterable')
            if o.kind == 'ext':
                return atom('in', x, cont)
        if k in ('t', 'lst'):
            r = FALSE
            for y in cont.a:
                r = OR(r, OR(self.same(y, x), self.eq_bool(y, x)))
            return r
        if k == 's':
            return self.models.str_contains(self, cont, x)
        if k == 'idict':
            n = str_const(x)
            d = self.h(mk('r', cont.a)).data
            return presence(d[n]) if n in d else FALSE
        if cont is NONE or (k == 'c') or num_ty(cont) in ('int', 'float', 'num'):
            self.raise_builtin('TypeError', 'not iterable')
        return atom('in', x, cont)

    def same(self, a, b):
        if a.kind == 'g' or b.kind == 'g':
            return gmap2(lambda x, y: const(x is y), a, b)
        return const(a is b)

    # ------------------------------------------------------------ types
    def type_of(self, v):
        k = v.kind
        if k == 'c':
            return {int: bt('int'), float: bt('float'), bool: bt('bool'), type(None): bt('NoneType')}.get(v.a[0], bt('object'))
        if k == 's':
            return bt('str')
        if k == 't':
            return bt('tuple')
        if k == 'r':
            o = self.h(v)
            if o.kind == 'inst':
                return o.cls
            if o.kind in ('list', 'dict', 'set'):
                return bt(o.kind)
            if o.kind == 'class':
                return bt('type')
        t = num_ty(v)
        if t in ('int', 'float'):
            return bt(t)
        if t == 'num':
            return ite(atom('isfloat', v), bt('float'), bt('int'))
        return app(bi('type'), (v,))

    def isinstance(self, v, c):
        if c.kind == 't':
            r = FALSE
            for x in c.a:
                r = OR(r, self.isinstance(v, x))
            return r
        return self.splitn([v, c], lambda vs: self.isinstance1(*vs))

    def isinstance1(self, v, c):
        if c.kind == 't':
            return self.isinstance(v, c)
        if c.kind == 'app' or c.kind == 'ext' and c.a in ('numpy.ndarray',):
            if v.kind in ('c', 's', 't') or (v.kind == 'r' and self.h(v).kind != 'ext') or num_ty(v) in ('int', 'float', 'num', 'sym'):
                return FALSE
            if v.kind == 'app' and v.a[0].kind == 'ext' and v.a[0].a.startswith('numpy.'):
                return TRUE
            return atom('isinst', v, c)
        if c.kind == 'ext':
            if c.a in ('numbers.Number', 'numbers.Real', 'typing.SupportsFloat'):
                t = num_ty(v)
                return const(t in ('int', 'float', 'num')) if v.kind != 'app' or t in ('int', 'float', 'num', 'sym') else atom('isinst', v, c)
            if c.a in ('collections.abc.Mapping', 'collections.abc.MutableMapping', 'collections.OrderedDict', 'typing.Mapping'):
                if self.isobj(v, 'dict'):
                    return TRUE if c.a != 'collections.OrderedDict' else const(self.h(v).meta == 'OrderedDict')
                return FALSE
            if c.a in ('collections.abc.Iterable', 'collections.abc.Sequence', 'typing.Iterable'):
                return const(v.kind == 't' or self.isobj(v, ('list',)) or (v.kind == 's') or (c.a.endswith('Iterable') and self.isobj(v, ('dict', 'set'))))
            if c.a == 'collections.abc.Callable':
                return const(v.kind in ('fn', 'bm', 'bi', 'bt'))
            if v.kind == 'c' or v.kind in ('s', 't') or num_ty(v) in ('int', 'float', 'num'):
                return FALSE
            if v.kind == 'r' and self.h(v).kind in ('list', 'dict', 'set', 'inst'):
                o = self.h(v)
                if o.kind == 'inst' and self.isobj(o.cls, 'class') and c in self.h(o.cls).meta['mro']:
                    return TRUE
                return FALSE
            return atom('isinst', v, c)
        if c.kind == 'bt':
            n = c.a
            if n == 'object':
                return TRUE
            k = v.kind
            if k == 'c':
                x = cval(v)
                py = {'int': int, 'float': float, 'bool': bool, 'complex': complex}.get(n)
                if n == 'NoneType':
                    return const(x is None)
                return const(py is not None and isinstance(x, py))
            if k == 's':
                return const(n == 'str')
            if k == 't':
                return const(n == 'tuple')
            if k in ('fn', 'bm', 'bi', 'bt', 'ext'):
                return const(n == 'type' and k == 'bt')
            if k == 'idict':
                return const(n == 'dict')
            if k == 'r':
                o = self.h(v)
                if o.kind in ('list', 'dict', 'set'):
                    return const(n == o.kind)
                if o.kind == 'class':
                    return const(n == 'type')
                if o.kind == 'inst':
                    if o.cls.kind == 'bt':
                        m = o.cls.a
                        while m:
                            if m == n:
                                return TRUE
                            m = EXC_BASE.get(m)
                        return FALSE
                    return const(c in self.h(o.cls).meta['mro'])
                if o.kind == 'ext' and o.meta.get('types'):
                    return const(n in o.meta['types'])
                if o.kind == 'ext':
                    return atom('isinst', v, c) if n not in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict') else FALSE
                return FALSE
            t = num_ty(v)
            if k == 'sym' and v.ty == 'str':
                return const(n == 'str')
            if k == 'sym' and v.ty not in NUMTY:
                return FALSE if n in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'bool', 'set') else atom('isinst', v, c)
            if t in ('int', 'float'):
                return const(n == t)
            if t == 'num':
                return atom('isfloat', v) if n == 'float' else NOT(atom('isfloat', v)) if n == 'int' else FALSE
            if t == 'sym':
                return FALSE
            if k == 'top':
                self.undecided('type of unknown value')
            r = self.models.ext_isinstance(self, v, n)
            if r is not None:
                return r
            return atom('isinst', v, c)
        if self.isobj(c, 'class'):
            if self.isobj(v, 'inst'):
                cl = self.h(v).cls
                return const(self.isobj(cl, 'class') and c in self.h(cl).meta['mro'])
            if v.kind == 'sym' and v.ty not in NUMTY and v.ty not in ('str', 'obj'):
                return atom('isinst', v, c)
            return FALSE
        if c.kind == 'top' or v.kind == 'top':
            self.undecided('isinstance on unknown')
        self.raise_builtin('TypeError', 'isinstance() arg 2')

    # ------------------------------------------------------------ iteration
    def try_items(self, l):
        """list of elements if the structure is known, else None; splits nothing"""
        k = l.kind
        if k in ('t', 'lst'):
            return list(l.a)
        if k == 'dct':
            return [x for x, _ in l.a]
        if k == 'r':
            o = self.h(l)
            if o.kind in ('list', 'deque'):
                return [self.simp(x) for x in o.data if self.simp(x) is not ABSENT]
            if o.kind == 'dict':
                self.models.no_stars(self, o.data)
                return [gate_presence(kk, self.simp(v)) for kk, v in o.data.items() if self.simp(v) is not ABSENT]
            if o.kind == 'set':
                # iteration order of a set is unspecified: use a deliberately different order
                return [gate_presence(kk, self.simp(v)) for kk, v in reversed(list(o.data.items())) if self.simp(v) is not ABSENT]
            if o.kind == 'iter':
                d = list(o.data)
                self.mut(l).data[:] = []
                return d
            if o.kind == 'gen':
                return list(self.gen_items(l))
            if o.kind == 'inst':
                m = self.class_attr(o.cls, '__iter__') if self.isobj(o.cls, 'class') else None
                if m is not None:
                    return self.iter_items(self.call(self.bind(m, l), [], {}))
                self.raise_builtin('TypeError', 'object is not iterable')
            return None
        if k == 's':
            c = str_const(l)
            if c is not None:
                return [const(x) for x in c]
            return None
        if k == 'idict':
            return [const(n) for n in self.h(mk('r', l.a)).data]
        if k == 'c' or num_ty(l) in ('int', 'float', 'num'):
            self.raise_builtin('TypeError', 'not iterable')
        if k in ('fn', 'bm', 'bt', 'bi'):
            self.raise_builtin('TypeError', 'not iterable')
        return None

    def iter_items(self, v):
        """elements (possibly optional, i.e. gated with ABSENT) of any iterable value"""
        v = self.simp(v)
        if v.kind == 'g':
            alts = leaves(v)
            cols = []
            for c, l in alts:
                its = self.try_items(l)
                if its is None:
                    self.undecided('iteration over gated opaque value')
                cols.append((c, its))
            n = max(len(i) for _, i in cols)
            out = []
            for j in range(n):
                r = ABSENT
                for c, its in reversed(cols):
                    r = ite(c, its[j] if j < len(its) else ABSENT, r)
                out.append(r)
            return out
        its = self.try_items(v)
        if its is None:
            its = self.models.any_items(self, v)
        if its is None:
            self.approx.append(('generic elements of %s' % show(v), self.site()))
            its = [self.opaque_item(v, const(0)), self.opaque_item(v, const(1))]
        return its

    def iter_lazy(self, v):
        v = self.simp(v)
        if v.kind == 'r' and self.h(v).kind == 'gen':
            yield from self.gen_items(v)
            return
        if v.kind == 'r' and self.h(v).kind == 'list':
            # live iteration: the list may be extended by the loop body
            i = 0
            while self.st is not None and i < len(self.h(v).data):
                x = self.simp(self.h(v).data[i])
                i += 1
                if i > 2000:
                    self.undecided('unbounded list iteration')
                if x is not ABSENT:
                    yield x
            return
        for x in self.iter_items(v):
            yield self.simp(x) if self.st is not None else x

    def gen_items(self, v):
        o = self.h(v)
        node, env, first = o.meta
        if o.data:
            return
        self.mut(v).data['done'] = TRUE
        out = []
        self.comp(node.generators, 0, env, lambda e: out.append(self.eval(node.elt, e)), first)
        # conditional elements were appended under forks by comp()
        yield from out

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        self.steps += 1
        if self.steps > self.budget or not self.steps & 1023 and time.monotonic() > self.deadline:
            raise Undecided('analysis budget exceeded')
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            self.undecided('expression %s' % type(n).__name__)
        ln = getattr(n, 'lineno', None)
        if ln is not None and self.frames:
            self.frames[-1]['line'] = ln
        v = m(n, env)
        if v is None:
            raise RuntimeError('eval returned None for %s' % ast.dump(n))
        return v

    def ex_Constant(self, n, env):
        x = n.value
        if x is None or isinstance(x, (int, float, str, bool)):
            return const(x)
        if x is Ellipsis:
            return mk('bi', 'Ellipsis')
        if isinstance(x, bytes):
            return mk('bi', 'bytes')
        return top('constant')

    def ex_Name(self, n, env):
        return self.lookup(n.id, env)

    def ex_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def ex_Subscript(self, n, env):
        o = self.eval(n.value, env)
        k = self.eval(n.slice, env)
        return self.getitem(o, k)

    def ex_Slice(self, n, env):
        return mk('slice', tuple(NONE if x is None else self.simp(self.eval(x, env)) for x in (n.lower, n.upper, n.step)))

    def ex_Tuple(self, n, env):
        return tup(self.elts(n.elts, env))

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_items(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def ex_List(self, n, env):
        return self.new_list(self.elts(n.elts, env))

    def ex_Set(self, n, env):
        return self.alloc('set', {x: TRUE for x in self.elts(n.elts, env)})

    def ex_Dict(self, n, env):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(self, d, self.eval(v, env))
            else:
                kv = self.eval(k, env)
                self.setitem(d, kv, self.eval(v, env))
        return d

    def ex_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, env)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                    if str_const(spec):
                        parts.append(self.models.to_str(self, x, 'fmt:' + str_const(spec)))
                        continue
                parts.append(self.models.to_str(self, x, 'repr' if v.conversion == 114 else 'str'))
        r = const('')
        for p in parts:
            r = gmap2(lambda a, b: sstr([a, b]), r, p)
        return r

    def ex_FormattedValue(self, n, env):
        return self.models.to_str(self, self.eval(n.value, env), 'str')

    def ex_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return NOT(self.truth(v))

        def f(l):
            if self.isobj(l, 'inst'):
                nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[type(n.op).__name__]
                m = self.class_attr(self.h(l).cls, nm)
                if m is None:
                    self.raise_builtin('TypeError', 'bad operand type for unary operator')
                return self.call(self.bind(m, l), [], {})
            try:
                if isinstance(n.op, ast.USub):
                    if is_pynum(l):
                        return const(-cval(l))
                    return neg(l)
                if isinstance(n.op, ast.UAdd):
                    return l
            except NotNum:
                pass
            if l.kind in ('s', 't') or l is NONE or self.isobj(l, ('list', 'dict')):
                self.raise_builtin('TypeError', 'bad operand type')
            return app(bi('unary' + type(n.op).__name__), (l,))
        return self.split(v, f)

    def ex_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(type(n.op).__name__, a, b)

    OPS = {'Add': ('+', '__add__', '__radd__'), 'Sub': ('-', '__sub__', '__rsub__'), 'Mult': ('*', '__mul__', '__rmul__'),
           'Div': ('/', '__truediv__', '__rtruediv__'), 'Pow': ('**', '__pow__', '__rpow__'), 'FloorDiv': ('//', '__floordiv__', '__rfloordiv__'),
           'Mod': ('%', '__mod__', '__rmod__'), 'MatMult': ('@', '__matmul__', '__rmatmul__'), 'BitOr': ('|', '__or__', '__ror__'),
           'BitAnd': ('&', '__and__', '__rand__'), 'BitXor': ('^', '__xor__', '__rxor__'), 'LShift': ('<<', '__lshift__', '__rlshift__'),
           'RShift': ('>>', '__rshift__', '__rrshift__')}

    def binop(self, op, a, b):
        return self.splitn([a, b], lambda vs: self.binop1(op, *vs))

    def binop1(self, op, a, b):
        o, m, rm = self.OPS[op]
        ia, ib = self.isobj(a, 'inst'), self.isobj(b, 'inst')
        if ia or ib:
            if ia and ib and self.h(b).cls is not self.h(a).cls and self.isobj(self.h(b).cls, 'class') and self.h(a).cls in self.h(self.h(b).cls).meta['mro']:
                f = self.class_attr(self.h(b).cls, rm)
                fb = self.class_attr(self.h(a).cls, rm)
                if f is not None and f is not fb:
                    r = self.call(self.bind(f, b), [a], {})
                    if not (r.kind == 'bi' and r.a == 'NotImplemented'):
                        return r
            if ia:
                f = self.class_attr(self.h(a).cls, m)
                if f is not None:
                    r = self.call(self.bind(f, a), [b], {})
                    if not (r.kind == 'bi' and r.a == 'NotImplemented'):
                        return r
            if ib and not (ia and self.h(a).cls is self.h(b).cls):
                f = self.class_attr(self.h(b).cls, rm)
                if f is not None:
                    r = self.call(self.bind(f, b), [a], {})
                    if not (r.kind == 'bi' and r.a == 'NotImplemented'):
                        return r
            self.raise_builtin('TypeError', 'unsupported operand type(s) for %s' % o)
        if a.kind == 'top' or b.kind == 'top':
            return top('arith')
        if a.kind == 's' or b.kind == 's':
            if a.kind == 's' and b.kind == 's' and op == 'Add':
                return sstr([a, b])
            if op == 'Mod' and a.kind == 's':
                return self.models.str_mod(self, a, b)
            if op == 'Mult' and (is_pynum(a) or is_pynum(b)):
                s_, n_ = (a, b) if a.kind == 's' else (b, a)
                return sstr([s_] * int(cval(n_)))
            if op == 'Mult':
                s_, n_ = (a, b) if a.kind == 's' else (b, a)
                return sstr([app(bi('strmul'), (s_, n_))])
            if op == 'Add' and (a.kind in ('app', 'attr', 'item') or b.kind in ('app', 'attr', 'item')):
                return sstr([x if x.kind == 's' else app(bi('str'), (x,)) for x in (a, b)])
            self.raise_builtin('TypeError', 'unsupported operand type(s) for %s: str' % o)
        if a.kind == 't' and b.kind == 't' and op == 'Add':
            return tup(a.a + b.a)
        if a.kind == 't' and op == 'Mult' and is_pynum(b):
            return tup(a.a * int(cval(b)))
        la, lb = self.isobj(a, 'list'), self.isobj(b, 'list')
        if la or lb:
            if la and lb and op == 'Add':
                return self.new_list(list(self.h(a).data) + list(self.h(b).data))
            if op == 'Mult' and (is_pynum(a) or is_pynum(b)):
                l, n_ = (a, b) if la else (b, a)
                return self.new_list(list(self.h(l).data) * int(cval(n_)))
            if op == 'Mult':
                l, n_ = (a, b) if la else (b, a)
                return app(bi('listmul'), (self.freeze(l), n_), ty='ext')
            o_ = b if la else a
            if o_.kind in ('app', 'attr', 'item'):
                return app(bi(o), (self.freeze(a), self.freeze(b)), ty='ext')
            self.raise_builtin('TypeError', 'unsupported operand type(s) for %s: list' % o)
        if self.isobj(a, 'dict') or self.isobj(b, 'dict'):
            if op == 'BitOr' and self.isobj(a, 'dict') and self.isobj(b, 'dict'):
                d = self.new_dict(self.h(a).data.items())
                self.models.dict_update(self, d, b)
                return d
            self.raise_builtin('TypeError', 'unsupported operand type(s) for %s: dict' % o)
        if self.isobj(a, 'set') and self.isobj(b, 'set'):
            x, y = self.h(a).data, self.h(b).data
            if op == 'BitOr':
                return self.alloc('set', {**x, **y})
            if op == 'BitAnd':
                return self.alloc('set', {k: v for k, v in x.items() if k in y})
            if op == 'Sub':
                return self.alloc('set', {k: v for k, v in x.items() if k not in y})
            if op == 'BitXor':
                return self.alloc('set', {**{k: v for k, v in x.items() if k not in y}, **{k: v for k, v in y.items() if k not in x}})
        if a is NONE or b is NONE:
            self.raise_builtin('TypeError', 'unsupported operand type(s) for %s: NoneType' % o)
        if op in ('BitAnd', 'BitOr', 'BitXor') and a in (TRUE, FALSE) and b in (TRUE, FALSE):
            x, y = cval(a), cval(b)
            return const({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
        try:
            return arith(o, a, b)
        except ZeroDivisionError:
            self.raise_builtin('ZeroDivisionError', 'division by zero')
        except OverflowError:
            return top('overflow')
        except NotNum:
            pass
        if a.kind in ('fn', 'bm', 'bt', 'bi', 't', 'idict') or b.kind in ('fn', 'bm', 'bt', 'bi', 't', 'idict'):
            if not (a.kind in ('app', 'attr', 'item') or b.kind in ('app', 'attr', 'item')):
                self.raise_builtin('TypeError', 'unsupported operand type(s) for %s' % o)
        return app(bi(o), (self.freeze(a), self.freeze(b)), ty='ext')

    def ex_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i], env)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v)
            if is_and:
                return self.fork(c, lambda: go(i + 1), lambda: self.simp(v))
            return self.fork(c, lambda: self.simp(v), lambda: go(i + 1))
        return go(0)

    def ex_Compare(self, n, env):
        left = self.eval(n.left, env)

        def go(i, left):
            right = self.eval(n.comparators[i], env)
            r = self.compare(type(n.ops[i]).__name__, left, right)
            if i == len(n.ops) - 1:
                return r
            return self.fork(self.truth(r), lambda: go(i + 1, right), lambda: r)
        return go(0, left)

    def ex_IfExp(self, n, env):
        c = self.truth(self.eval(n.test, env))
        return self.fork(c, lambda: self.eval(n.body, env), lambda: self.eval(n.orelse, env))

    def ex_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.bind_name(n.target.id, v, env)
        return v

    def ex_Lambda(self, n, env):
        return self.make_fn(n, env)

    def ex_Starred(self, n, env):
        self.undecided('starred expression')

    def ex_Await(self, n, env):
        self.undecided('await')

    def ex_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else NONE
        fr = self.frames[-1]
        y = fr.get('yields')
        if y is None:
            self.undecided('yield')
        self.mut(y).data.append(v)
        return NONE

    def ex_YieldFrom(self, n, env):
        v = self.eval(n.value, env)
        y = self.frames[-1].get('yields')
        if y is None:
            self.undecided('yield')
        self.mut(y).data.extend(self.iter_items(v))
        return NONE

    # comprehensions
    def comp_env(self, env):
        o = self.h(env)
        # a comprehension scope: child env whose locals are the targets
        if o.kind == 'env':
            meta = {'parent': env, 'locals': set(), 'globals': o.meta['globals'], 'nonlocals': set(), 'module': o.meta['module'], 'qual': o.meta['qual'],
                    'clsref': o.meta.get('clsref')}
        else:
            meta = {'parent': env, 'locals': set(), 'globals': set(), 'nonlocals': set(), 'module': self.frames[-1]['module'], 'qual': '<comp>', 'clsref': None}
        return self.alloc('env', {}, meta=meta)

    def comp(self, gens, i, env, emit, first=None):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = first if first is not None else self.eval(g.iter, env)
        its = self.iter_lazy(it)
        for v in its:
            def one(v=v):
                self.assign(g.target, v, env)

                def conds(j):
                    if j == len(g.ifs):
                        self.comp(gens, i + 1, env, emit)
                        return None
                    c = self.truth(self.eval(g.ifs[j], env))
                    return self.fork(c, lambda: conds(j + 1), lambda: None)
                conds(0)
                return None
            p = presence(v)
            if p is TRUE:
                one()
            elif p is not FALSE:
                w = drop_absent(v)
                self.fork(p, lambda: one(w), lambda: None)

    def run_comp(self, n, env, elt):
        """returns list of (optional) element values, in order"""
        acc = self.alloc('list', [])
        cenv = self.comp_env(env)
        first = self.eval(n.generators[0].iter, env)

        def emit(e):
            v = elt(e)
            self.mut(acc).data.append(v)
        self.comp(n.generators, 0, cenv, emit, first)
        return acc

    def ex_ListComp(self, n, env):
        return self.run_comp(n, env, lambda e: self.eval(n.elt, e))

    def ex_SetComp(self, n, env):
        acc = self.run_comp(n, env, lambda e: self.eval(n.elt, e))
        return self.models.make_set(self, acc)

    def ex_DictComp(self, n, env):
        acc = self.run_comp(n, env, lambda e: tup([self.eval(n.key, e), self.eval(n.value, e)]))
        return self.models.make_dict(self, acc)

    def ex_GeneratorExp(self, n, env):
        cenv = self.comp_env(env)
        first = self.eval(n.generators[0].iter, env)
        return self.alloc('gen', {}, meta=(n, cenv, first))

    # ------------------------------------------------------------ calls
    def ex_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and self.h(e).kind == 'env':
                m = self.h(e).meta
                if m.get('clsref') is not None and m.get('selfname'):
                    return mk('super', (m['clsref'], self.h(e).data[m['selfname']]))
                e = m['parent']
            self.undecided('super()')
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                its = self.iter_items(self.eval(a.value, env))
                its = [self.simp(x) for x in its]
                its = [x for x in its if presence(x) is not FALSE]
                if sum(presence(x) is not TRUE for x in its) > 4:
                    self.undecided('call with conditionally present arguments')
                args.extend(its)
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                v = self.simp(v)
                if self.isobj(v, 'dict'):
                    for kk, vv in self.h(v).data.items():
                        s_ = str_const(kk)
                        if s_ is None:
                            self.undecided('** with opaque keys')
                        if presence(vv) is not TRUE:
                            self.undecided('** with conditional keys')
                        if s_ in kw:
                            self.raise_builtin('TypeError', 'multiple values for keyword argument')
                        kw[s_] = vv
                elif v.kind == 'idict':
                    kw.update(self.h(mk('r', v.a)).data)
                elif v.kind in ('dct',):
                    for kk, vv in v.a:
                        kw[str_const(kk)] = vv
                elif v.kind in ('app', 'attr', 'item', 'sym'):
                    kw['**'] = v
                else:
                    self.undecided('** of %s' % show(v))
            else:
                if k.arg in kw:
                    self.raise_builtin('TypeError', 'multiple values for keyword argument %s' % k.arg)
                kw[k.arg] = v
        self.frames[-1]['line'] = n.lineno
        if isinstance(n.func, ast.Name) and f.kind == 'bi' and f.a in ('locals', 'globals', 'exec', 'eval', 'vars', 'dir'):
            return self.models.scope_builtin(self, f.a, args, kw, env)
        if any(presence(x) is not TRUE for x in args):
            return self.call_present(f, args, kw, 0)
        return self.call(f, args, kw)

    def call_present(self, f, args, kw, i):
        """a call whose starred arguments include elements that are present on some paths only"""
        args = list(args)
        while i < len(args):
            x = self.simp(args[i])
            c = presence(x)
            if c is FALSE:
                del args[i]
                continue
            args[i] = x
            if c is not TRUE:
                return self.fork(c, lambda: self.call_present(f, args[:i] + [self.simp(args[i])] + args[i + 1:], kw, i + 1),
                                 lambda: self.call_present(f, args[:i] + args[i + 1:], kw, i))
            i += 1
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.simp(f)
        if f.kind == 'g':
            return self.split(f, lambda l: self.call1(l, args, kw))
        return self.call1(f, args, kw)

    def call1(self, f, args, kw):
        k = f.kind
        if k == 'fn':
            return self.call_fn(f.a, list(args), kw)
        if k == 'bm':
            return self.call(f.a[1], [f.a[0]] + list(args), kw)
        if k == 'deco':
            return self.call(f.a[1], args, kw)
        if k == 'pf':
            fn, a0, k0 = f.a
            return self.call(fn, list(a0) + list(args), {**dict(k0), **kw})
        if k == 'r':
            o = self.h(f)
            if o.kind == 'class':
                return self.instantiate(f, args, kw)
            if o.kind == 'inst' and self.isobj(o.cls, 'class'):
                m = self.class_attr(o.cls, '__call__')
                if m is not None:
                    return self.call(self.bind(m, f), args, kw)
                if self.cls_has_ext_base(o.cls):
                    return self.ext_call(f, args, kw)
            if o.kind == 'ext':
                return self.ext_call(f, args, kw)
            self.raise_builtin('TypeError', '%s is not callable' % self.describe(f))
        if k == 'bi':
            return self.models.call_builtin(self, f.a, list(args), kw)
        if k == 'bt':
            return self.models.call_type(self, f.a, list(args), kw)
        if k == 'bmeth':
            return self.models.call_method(self, f.a[0], f.a[1], list(args), kw)
        if k in ('ext', 'app', 'attr', 'item') or (k == 'sym' and f.ty not in ('int', 'float', 'num', 'str')):
            return self.ext_call(f, args, kw)
        if k == 'top':
            self.undecided('call of unknown value')
        self.raise_builtin('TypeError', '%s is not callable' % show(f))

    def call_fn(self, fi, args, kw):
        self.calls += 1
        if len(self.frames) > self.maxdepth:
            self.undecided('call depth')
        n = fi.node
        a = n.args
        env_data = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kw = dict(kw)
        opaque_kw = kw.pop('**', None)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_builtin('TypeError', '%s() takes %d positional arguments but %d were given' % (fi.qual, len(pos), len(args)))
        for name, v in zip(pos, args):
            env_data[name] = v
        if a.vararg is not None:
            env_data[a.vararg.arg] = tup(args[len(pos):])
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in env_data:
                    self.raise_builtin('TypeError', '%s() got multiple values for argument %s' % (fi.qual, k))
                env_data[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_builtin('TypeError', '%s() got an unexpected keyword argument %s' % (fi.qual, k))
        if opaque_kw is not None:
            if a.kwarg is None:
                self.undecided('opaque ** into repository function')
        if a.kwarg is not None:
            env_data[a.kwarg.arg] = self.new_dict([(const(k), v) for k, v in extra.items()])
        for name, d in zip(pos[len(pos) - len(fi.defaults):], fi.defaults):
            if name not in env_data:
                env_data[name] = d
        for name, d in zip(kwonly, fi.kwdefaults):
            if name not in env_data and d is not None:
                env_data[name] = d
        miss = [x for x in pos + kwonly if x not in env_data]
        if miss:
            self.raise_builtin('TypeError', '%s() missing required argument(s) %s' % (fi.qual, ', '.join(miss)))
        meta = {'parent': fi.env, 'locals': fi.locals, 'globals': fi.globals, 'nonlocals': fi.nonlocals, 'module': fi.module[0], 'qual': fi.qual,
                'clsref': fi.clsref, 'selfname': pos[0] if pos else None}
        mod, file = fi.module
        self.visited.add((file, fi.qual))
        env = self.alloc('env', env_data, meta=meta)
        frame = {'file': file, 'line': getattr(n, 'lineno', 0), 'fn': fi.qual, 'module': mod, 'returns': [], 'loops': []}
        if sum(1 for fr in self.frames if fr['fn'] == fi.qual and fr['file'] == file) > 12:
            self.undecided('recursion')
        self.frames.append(frame)
        try:
            if isinstance(n, ast.Lambda):
                return self.eval(n.body, env)
            if fi.is_gen:
                frame['yields'] = self.alloc('iter', [])
            self.exec_block(n.body, env)
            outs = frame['returns']
            if self.st is not None:
                outs.append((self.st, NONE))
            if not outs:
                raise Dead()
            st, v = outs[0]
            for s2, v2 in outs[1:]:
                pc = OR(st.pc, s2.pc)
                c = restrict(st.pc, pc)
                v = ite(c, v, v2)
                st = self.merge(st, s2, c)
            self.st = st
            if fi.is_gen:
                return frame['yields']
            return self.simp(v)
        finally:
            self.frames.pop()

    def instantiate(self, cref, args, kw):
        meta = self.h(cref).meta
        new = self.class_attr(cref, '__new__')
        inst = self.alloc('inst', {}, cls=cref)
        if new is not None:
            inst = self.call(new, [cref] + list(args), kw)
        init = self.class_attr(cref, '__init__')
        isexc = any(c.kind == 'bt' and c.a in EXC_BASE for c in meta['mro'])
        if isexc:
            self.mut(inst).data['args'] = tup(args)
        if init is not None:
            self.call(self.bind(init, inst), list(args), kw)
        elif (args or kw) and not isexc and not self.cls_has_ext_base(cref):
            if new is None:
                self.raise_builtin('TypeError', '%s() takes no arguments' % meta['name'])
        return inst

    # ------------------------------------------------------------ external calls
    def freeze(self, v, depth=0):
        if depth > 8:
            return top('depth')
        if v.kind == 'g':
            return gmap(lambda l: self.freeze(l, depth), self.simp(v))
        if v.kind == 'r':
            o = self.st.heap.get(v.a)
            if o is None:
                return v
            if o.kind in ('list', 'deque', 'iter'):
                return mk('lst', tuple(self.freeze(x, depth + 1) for x in o.data if self.simp(x) is not ABSENT))
            if o.kind == 'gen':
                return mk('lst', tuple(self.freeze(x, depth + 1) for x in self.iter_items(v)))
            if o.kind == 'dict':
                return mk('dct', tuple((self.freeze(k, depth + 1), self.freeze(x, depth + 1)) for k, x in o.data.items()))
            if o.kind == 'set':
                return app(bi('set'), sorted(self.freeze(x, depth + 1) for x in o.data))
            return v
        if v.kind == 't':
            return tup([self.freeze(x, depth + 1) for x in v.a])
        return v

    def ext_call(self, head, args, kw):
        args = list(args)
        r = None
        if head.kind == 'attr' and (head.a[1] in PYPLOT or head.a[1] == 'set') and self.of_pyplot(head.a[0]):
            # methods of the current figure and axes are the functions of pyplot
            if head.a[1] != 'set':
                return self.ext_call(mk('ext', 'matplotlib.pyplot.' + PYPLOT[head.a[1]]), args, kw)
            if not args and set(kw) <= set(PYPLOT.values()):
                for k, x in kw.items():
                    xs = list(x.a) if k in ('xlim', 'ylim') and x.kind in ('t', 'lst') else [x]
                    self.ext_call(mk('ext', 'matplotlib.pyplot.' + k), xs, {})
                return NONE
        if self.ext_model is not None and head_name(head) not in self.answers:
            r = self.ext_model(self, head, args, kw)
        if r is None and head_name(head) not in self.answers:
            r = self.models.call_ext(self, head, args, kw)
        if r is not None:
            return r
        fa = [self.freeze(x) for x in args]
        fk = [(k, self.freeze(x)) for k, x in sorted(kw.items())]
        ty = self.models.result_type(head)
        term = app(head, fa, fk, ty)
        if self.models.is_fresh(head):
            v = self.alloc('ext', {}, meta={'term': term, 'head': head})
        else:
            v = term
        if head_name(head) in self.answers:      # the scenario says what the library answers here
            v = self.answers[head_name(head)]()
        st = self.st.fork(self.st.pc) if head_name(head) in SNAPSHOT else None
        self.events.append(Event(self.st.pc, head, tuple(fa), tuple(fk), self.site(), v, (tuple(args), dict(kw)), st))
        return self.may_fail(head, term, v)

    def of_pyplot(self, v):
        """the current figure or its axes"""
        if v.kind == 'r' and v.a in self.st.heap and self.h(v).kind == 'ext':
            v = self.h(v).meta.get('term', v)
        if v.kind == 'item' or v.kind == 'attr' and v.a[1] in ('figure', 'axes'):
            v = v.a[0]
            if v.kind == 'r' and v.a in self.st.heap and self.h(v).kind == 'ext':
                v = self.h(v).meta.get('term', v)
            return self.of_pyplot(v) or head_name(v.a[0]) == 'matplotlib.pyplot.subplots' if v.kind == 'app' else False
        if v.kind != 'app':
            return False
        if v.a[0].kind == 'attr' and v.a[0].a[1] in ('gca', 'add_subplot', 'subplots', 'get_figure'):
            return self.of_pyplot(v.a[0].a[0])
        return v.a[0].kind == 'ext' and v.a[0].a in ('matplotlib.pyplot.gca', 'matplotlib.pyplot.gcf', 'matplotlib.pyplot.figure', 'matplotlib.pyplot.subplot', 'matplotlib.pyplot.axes')

    def may_fail(self, head, term, v):
        """a library call that the scenario lets fail: it raises under an opaque condition"""
        if not self.models.may_raise(self, head):
            return v
        at = atom('raises', term)
        self.failures.append(at)
        return self.fork(at, lambda: self.raise_builtin('Exception', 'library error'), lambda: v)


# ---------------------------------------------------------------- helpers
def never_none(v):
    """results of numpy constructors, champions of an evolved population, contents of configuration files (taken to be mappings)"""
    if v.kind == 'attr' and v.a[1] in ('champion_x', 'champion_f'):
        return True
    return v.kind == 'app' and v.a[0].kind == 'ext' and (v.a[0].a.startswith('numpy.') or v.a[0].a in ('json.load', 'json.loads'))


def presence(v):
    if v is ABSENT:
        return FALSE
    if v.kind != 'g':
        return TRUE
    return gmap(lambda l: FALSE if l is ABSENT else TRUE, v)


def drop_absent(v):
    """value given presence (arbitrary elsewhere)"""
    if v.kind != 'g':
        return v
    p = presence(v)
    if p is TRUE:
        return v
    return restrict(v, p)


def drop_absent_with(v, d):
    return gmap(lambda l: d if l is ABSENT else l, v)


def gate_presence(key, v):
    p = presence(v)
    if p is TRUE:
        return key
    return ite(p, key, ABSENT)


_scan = {}


def scan_locals(node):
    r = _scan.get(node)
    if r is not None:
        return r
    loc, glob, nonl = set(), set(), set()
    gen = [False]
    a = node.args
    for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                loc.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r = (loc - glob - nonl, glob, nonl, gen[0])
    _scan[node] = r
    return r
