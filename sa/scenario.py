"""Client scenarios: small client programs (Python source) over opaque inputs, interpreted by the
abstract interpreter together with the repository source they reach.  A rule states obligations on
the abstract result (value terms, exit conditions, heap effects)."""
import ast
import copy
import functools
import json
import os
import re
import time
from .terms import *
from . import terms as T
from . import witness as W
from . import interp as I
from .interp import Interp, Undecided, Dead, SourceError, Raised
from . import numerics  # noqa: F401  (installs the models of the numeric libraries)
from . import tables  # noqa: F401  (and of printed tables)


def least_length(s):
    """a lower bound of the length of a text: a printed sum or product of symbols names each of them"""
    n = 0
    for p in s.a:
        if isinstance(p, str):
            n += len(p)
        elif p.kind == 'app' and p.a[0] is I.bi('str') and len(p.a[1]) == 1 and p.a[1][0].kind == 'n':
            names = set()
            for m, _ in p.a[1][0].a:
                for a, _e in m:
                    if not (a.kind == 'app' and a.a[0].kind == 'ext' and a.a[0].a == 'sympy.symbols' and len(a.a[1]) == 1 and str_const(a.a[1][0]) is not None):
                        return n
                    names.add(str_const(a.a[1][0]))
            n += sum(map(len, names)) + max(0, len(names) - 1)
    return n


def clipped(a, b):
    """one text is the other without its end"""
    for x, y in ((a, b), (b, a)):
        if x.kind == 's' and y.kind == 's':
            for p in x.a:
                if not isinstance(p, str) and p.kind == 'app' and p.a[0] is I.bi('slice') and p.a[1][0] is y and p.a[1][1] in (NONE, const(0)) and p.a[1][3] is NONE \
                        and is_pynum(p.a[1][2]) and 0 <= cval(p.a[1][2]) + sum(len(q) if isinstance(q, str) else 10 ** 9 if q is not p else 0 for q in x.a) < least_length(y):
                    return True
    return False


class Vanished(Exception):
    """a public anchor the rule is written against is not there any more"""


VOCAB = {'sympy.symbols', 'sympy.exp', 'sympy.log', 'sympy.sqrt', 'sympy.cos', 'sympy.sin', 'sympy.tan', 'sympy.cosh', 'sympy.sinh', 'sympy.tanh',
         'sympy.acos', 'sympy.asin', 'sympy.atan', 'sympy.Abs', 'sympy.Min', 'sympy.Max', 'sympy.diff', 'sympy.acosh', 'sympy.asinh',
         'sympy.functions.acos', 'len', 'str', 'int', 'abs', 'round', 'math.floor', 'math.ceil', 'math.sqrt', 'math.exp', 'math.log', 'sympy.ceiling', 'sympy.floor', 'sympy.log10'}


def unknown_heads(v, vocab):
    """library/opaque heads in a term whose meaning the rule does not fix"""
    out = set()
    for u in T.subterms(v):
        if u.kind == 'top':
            out.add('unknown')
        elif u.kind == 'app':
            h = u.a[0]
            n = I.head_name(h)
            if n not in vocab:
                out.add(n)
        elif u.kind in ('attr',):
            if ('.' + u.a[1]) not in vocab:
                out.add('.' + u.a[1])
        elif u.kind == 'g':
            k = T.atom_key(u.a[0])
            if k[0] not in ('eq0', 'lt0', 'is', 'streq', 'isin', 'type', 'eq', 'raises', 'truth', 'truthy', 'in', 'isfloat') and k[0] not in vocab:
                out.add('atom:' + str(k[0]))
    return out


def plain_value(msg):
    """the client asked None, a number, a string or a container for an attribute: the wrong value, not a renamed attribute"""
    return bool(msg) and bool(re.match(r"(None|True|False|list|dict|set|tuple|['\"\[\(\{]|-?\d).* has no attribute ", msg))


class Timeout(Exception):
    pass


def bounded(f):
    """an obligation whose conditions have too many cases is undecided"""
    @functools.wraps(f)
    def run(self, oid, *a, **k):
        self.an.allow()
        try:
            return f(self, oid, *a, **k)
        except T.Explosion:
            self.an.record(oid, 'undecided', 'too many cases', '')
            return False
    return run


class Ob:
    def __init__(self, oid, status, detail, at, kind=''):
        self.oid, self.status, self.detail, self.at, self.kind = oid, status, detail, at, kind

    @property
    def key(self):
        return self.oid + ('|' + self.kind if self.kind else '')


class Analysis:
    def __init__(self, root='/repo', pkg='src.sloth'):
        self.root = root
        self.pkg = pkg
        self.obs = []
        self.ip = Interp(root)
        self.base = None
        self.functions = set()
        self.lines = set()
        self.counts = {}
        self.preloaded = False
        self.rule = ''
        self.used = {}
        self.names = None      # renaming of the names used by client programs and expressions
        self.t0 = time.time()
        self.expired = False   # the time of the whole run is used up

    def allow(self):
        """terms and time for one more scenario or obligation"""
        T.budget()
        self.ip.deadline = time.monotonic() + 60

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def preload(self, mods):
        for m in mods:
            try:
                self.ip.load(self.pkg + '.' + m)
            except (Undecided, Dead, SourceError) as e:
                raise Vanished('module %s: %s' % (m, e))
        self.functions |= self.ip.visited
        self.lines |= self.ip.visited_lines
        self.base = self.ip.st
        self.base_modules = dict(self.ip.modules)
        self.base_next = self.ip.nexto

    # ------------------------------------------------------------ source anchors
    def where(self, at):
        """'core.unit:Unit.__mul__' -> 'src/sloth/core/unit.py:123 Unit.__mul__'"""
        if not at:
            return ''
        out = []
        for a in ([at] if isinstance(at, str) else at):
            mod, _, qual = a.partition(':')
            path = os.path.join(self.root, *(self.pkg + '.' + mod).split('.')) + '.py'
            rel = os.path.relpath(path, self.root)
            try:
                node = self.ip.parse(path)
            except SourceError:
                out.append(rel)
                continue
            line = 1
            for part in qual.split('.') if qual else ():
                nxt = None
                for c in ast.walk(node):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part:
                        nxt = c
                        break
                if nxt is None:
                    break
                node, line = nxt, nxt.lineno
            out.append('%s:%d %s' % (rel, line, qual))
        return ', '.join(out)

    def record(self, oid, status, detail='', at='', kind=''):
        self.obs.append(Ob(oid if self.names is None else 'nested names: ' + oid, status, detail, at, kind))

    def plain(self, name):
        """the name of the rule for a name of the analysed program"""
        if self.names is None or not isinstance(name, str) or name in self.used:
            return name if self.names is None else self.used.get(name, name)
        own, sep, model = name.rpartition('_')
        return self.used.get(own, own) + sep + self.used.get(model, model)

    def scn(self, src, prelude='', **inputs):
        assume = inputs.pop('_assume', None)
        raising = inputs.pop('_raising', None)
        answers = inputs.pop('_answers', {})
        return Scn(self, src, prelude, inputs, assume, raising, answers)


NAME = re.compile(r'([a-ln-rt-z])(\d*)((?:_[A-GL]|_M[1-4])?(?:_d)?|_)|([A-GL]|M[1-4])|(?:(\w+)(_[A-GL]|_M[1-4])(_d)?)|(T|P|H|mdot|ndot)_([a-z])')
MODEL = {**{c: 'A' * (i + 1) for i, c in enumerate('ABCDEFGL')}, **{'M%d' % i: 'M' * i for i in range(1, 5)}}


def nested(name):
    """a renaming that keeps the order of names but makes every name a part of the ones after it"""
    if ',' in name:
        return ','.join(nested(x) for x in name.split(','))
    m = NAME.fullmatch(name)
    if m is None:
        return name
    if m.group(4):
        return MODEL[m.group(4)]
    if m.group(8):
        return m.group(8) + '_' + nested(m.group(9))
    if m.group(5):
        return nested(m.group(5)) + '_' + MODEL[m.group(6)[1:]] + (m.group(7) or '')
    tail = m.group(3)
    if tail and tail not in ('_d', '_'):
        model = tail[1:-2] if tail.endswith('_d') else tail[1:]
        tail = '_' + MODEL[model] + tail[1 + len(model):]
    return 'a' * (ord(m.group(1)) - 96) + m.group(2) + tail


class Renamer(ast.NodeTransformer):
    """the names of a client program, and its attributes of the same names (incorporated objects become attributes)"""

    def __init__(self, names, used):
        self.names, self.used = names, used

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            new = self.names(node.value)
            self.used[new] = node.value
            return ast.copy_location(ast.Constant(new), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if re.fullmatch(r'[a-z]\d*', node.attr) and not (isinstance(node.value, ast.Name) and len(node.value.id) > 1 and node.value.id.isupper()):      # not those of values bound by a rule
            node.attr = self.names(node.attr)
        return node

    def visit_Compare(self, node):
        if isinstance(node.ops[0], (ast.Eq, ast.In)) and len(node.ops) == 1 and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) == 1 and x.value.islower() for x in [node.left] + node.comparators):
            return node         # letters that stand for kinds of something
        return self.generic_visit(node)


class Scn:
    def parse(self, src, mode='eval'):
        tree = ast.parse(src, mode=mode)
        return tree if self.an.names is None else Renamer(self.an.names, self.an.used).visit(tree)

    def __init__(self, an, src, prelude='', inputs=None, assume=None, raising=None, answers=None):
        self.an = an
        ip = self.ip = an.ip
        if an.expired:
            raise Timeout()
        an.allow()
        if an.base is None:
            an.preload(['core.template_units', 'core.equation_operators'])
        ip.st = an.base.fork(TRUE)
        ip.modules = dict(an.base_modules)
        ip.events, ip.writes, ip.raises, ip.frames = [], [], [[]], []
        ip.visited, ip.visited_lines = set(), set()
        ip.steps = 0
        ip.raising = raising
        ip.failures = []
        ip.answers = {h: self.answer(e) for h, e in (answers or {}).items()}
        self.undecided = None
        self.vanished = None
        self.src = src
        import textwrap
        code = textwrap.dedent(prelude) + '\n' + textwrap.dedent(src)
        self.nprelude = textwrap.dedent(prelude).count('\n') + 1
        m = self.env = ip.alloc('module', {'__name__': const('<scenario>')}, meta={'name': '<scenario>', 'pkg': False, 'file': '<scenario>'})
        ip.modules['<scenario>'] = m
        for k, v in (inputs or {}).items():
            ip.h(m).data[k] = v
        ip.frames.append(self.frame())
        self.lines = code.split('\n')
        try:
            if assume is not None:
                ip.st.pc = AND(ip.st.pc, assume(ip) if callable(assume) else assume)
            ip.exec_block(self.parse(code, 'exec').body, m)
        except Undecided as e:
            self.undecided = '%s at %s' % (e.reason, e.site)
        except Dead:
            ip.st = None
        except RecursionError:
            self.undecided = 'recursion limit'
        except Timeout:
            self.undecided = 'analysis time limit'
            an.expired = True
        except T.Explosion:
            self.undecided = 'too many cases'
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.undecided = 'construct outside the analysed fragment (%s: %s)' % (type(e).__name__, str(e)[:80])
        finally:
            ip.frames = []
        self.st = ip.st if not self.undecided else None
        self.raised = ip.raises[0]
        self.events = ip.events
        self.failures = ip.failures
        self.writes = ip.writes
        an.functions |= ip.visited
        an.lines |= ip.visited_lines
        self.visited = ip.visited
        self.modules = ip.modules
        an.count('scenarios')
        for r in self.raised:
            if r.site[0] == '<scenario>' and r.exc.kind == 'r':
                n = self.exc_name(r)
                if n in ('AttributeError', 'NameError', 'ImportError', 'ModuleNotFoundError', 'UnboundLocalError') and not plain_value(r.msg):
                    self.vanished = '%s: %s (client line: %s)' % (n, r.msg, self.line(r.site[1]))

    def line(self, n):
        return self.lines[n - 1].strip() if 0 < n <= len(self.lines) else ''

    def frame(self):
        return {'file': '<scenario>', 'line': 0, 'fn': '<client>', 'module': '<scenario>', 'returns': [], 'loops': []}

    def exc_name(self, r, st=None):
        if r.exc.kind != 'r':
            return show(r.exc)
        o = r.st.heap[r.exc.a]
        if o.kind == 'class':
            return o.meta['name']
        if o.cls.kind == 'bt':
            return o.cls.a
        return r.st.heap[o.cls.a].meta['name']

    def exc_names(self, r):
        """class name and names of all bases"""
        if r.exc.kind != 'r':
            return {show(r.exc)}
        o = r.st.heap[r.exc.a]
        cls = r.exc if o.kind == 'class' else o.cls
        out = set()
        if cls.kind == 'bt':
            n = cls.a
            while n:
                out.add(n)
                n = I.EXC_BASE.get(n)
            return out
        for c in r.st.heap[cls.a].meta['mro']:
            if c.kind == 'bt':
                out.add(c.a)
                n = c.a
                while n:
                    out.add(n)
                    n = I.EXC_BASE.get(n)
            elif c.kind == 'r':
                out.add(r.st.heap[c.a].meta['name'])
        return out

    def answer(self, expr):
        """what a library call gives: a client expression, evaluated anew for every call"""
        def run():
            return self.ip.eval(self.parse(expr.strip()).body, self.env)
        return run

    # ------------------------------------------------------------ evaluation in the end state
    def val(self, expr, st=None):
        """value of a client expression in the end state (effects discarded)"""
        ip = self.ip
        base = st if st is not None else self.st
        if base is None:
            raise Dead()
        keep = (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules)
        ip.st = base.fork(base.pc)
        ip.events, ip.writes, ip.raises, ip.frames = [], [], [[]], [self.frame()]
        ip.modules = self.modules
        try:
            n = self.parse(expr.strip()).body
            v = ip.eval(n, self.env)
            if ip.raises[0]:
                raise _EvalRaised(ip.raises[0][0])
            v = ip.freeze(v)
            v = ip.simp(v)
            return v
        except Dead:
            if ip.raises[0]:
                raise _EvalRaised(ip.raises[0][0])
            raise
        except (Undecided, _EvalRaised, Timeout):
            raise
        except T.Explosion:
            raise Undecided('too many cases')
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            raise Undecided('construct outside the analysed fragment (%s: %s)' % (type(e).__name__, str(e)[:80]))
        finally:
            (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules) = keep

    def digest(self, *exprs):
        """state of the objects reachable from client expressions, as path -> value, object identities replaced by the path they are first reached by"""
        ip = self.ip
        if self.st is None:
            return None
        keep = (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules)
        ip.st = self.st.fork(self.st.pc)
        ip.events, ip.writes, ip.raises, ip.frames = [], [], [[]], [self.frame()]
        ip.modules = self.modules
        try:
            names, queue, out, used = {}, [], {}, set()

            def ref(v, path):
                if v not in names:
                    o = ip.st.heap.get(v.a)
                    if o is not None and o.kind in ('inst', 'list', 'deque', 'dict', 'set', 'ext'):
                        n = '@' + path
                        while n in used:
                            n += "'"
                        used.add(n)
                        names[v] = sym(n, 'obj')
                        path = n[1:]
                        queue.append((path, v))
                    elif o is not None and o.kind == 'class':
                        names[v] = sym('@class ' + o.meta['name'], 'obj')
                    else:
                        names[v] = sym('@code', 'obj')

            def put(path, v):
                v = ip.simp(v)
                for u in T.subterms(v):
                    if u.kind == 'r':
                        ref(u, path)
                    elif u.kind == 'fn':
                        names[u] = sym('@code %s' % u.a.qual, 'obj')
                out[path] = v

            for e in exprs:
                put(e, ip.eval(self.parse(e).body, self.env))
            while queue:
                path, r = queue.pop(0)
                o = ip.h(r)
                if o.kind == 'inst':
                    for k in sorted(o.data, key=str):
                        put('%s.%s' % (path, k), o.data[k])
                    for c in (ip.h(o.cls).meta['mro'] if o.cls is not None and o.cls.kind == 'r' else ()):
                        if c.kind != 'r' or not isinstance(ip.h(c).data, dict):
                            continue
                        for k, v in sorted(ip.h(c).data.items(), key=lambda x: str(x[0])):
                            if isinstance(v, V) and v.kind == 'r' and ip.h(v).kind in ('list', 'dict', 'set', 'deque') and k not in o.data:
                                put('%s.%s' % (path, k), v)
                elif o.kind in ('list', 'deque'):
                    for i, x in enumerate(o.data):
                        put('%s[%d]' % (path, i), x)
                    out[path + '#'] = const(len(o.data))
                elif o.kind == 'dict':
                    ks = list(o.data)
                    for i, k in enumerate(ks):
                        put('%s key %d' % (path, i), k)
                        put('%s[%s]' % (path, show(k) if k.kind in ('s', 'c') else 'key %d' % i), o.data[k])
                    out[path + '#'] = const(len(ks))
                elif o.kind == 'set':
                    out[path] = app(ext('set'), sorted(o.data), (), 'obj') if not isinstance(o.data, dict) else app(ext('set'), tuple(o.data), (), 'obj')
                elif o.kind == 'ext' and isinstance(o.data, dict):
                    for k in sorted(o.data, key=str):
                        put('%s.%s' % (path, k), o.data[k])
            memo = {}
            return {p: T.subst(v, names, memo) if v.kind != 'g' else gmap(lambda l: T.subst(l, names, memo), v) for p, v in out.items()}
        finally:
            (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules) = keep

    @bounded
    def same(self, oid, before, after, what='', at='', vocab=(), pc=None):
        """two digests agree"""
        an = self.an
        if not self._pre(oid, at):
            return False
        if before is None or after is None:
            an.record(oid, 'undecided', '%s: no normal completion' % what, at)
            return False
        vocab = VOCAB | set(vocab)
        care = self.st.pc if pc is None else AND(self.st.pc, pc)
        und = None
        for p in list(before) + [p for p in after if p not in before]:
            a, b = after.get(p), before.get(p)
            if a is b:
                continue
            if a is None or b is None:
                an.record(oid, 'violated', '%s: %s %s' % (what, p, 'appeared' if b is None else 'disappeared'), an.where(at), 'value')
                return False
            r = self.differ(a, b, care, vocab)
            if r is None:
                continue
            if r[0] == 'violated':
                an.record(oid, 'violated', '%s: %s is %s instead of %s%s' % (what, p, show(r[2])[:200], show(r[3])[:200], '' if r[1] == 'always' else ' when ' + r[1]), an.where(at), 'value')
                return False
            und = und or '%s: %s (%s)' % (what, p, r[1])
        an.record(oid, 'undecided' if und else 'ok', und or '%s (%d places)' % (what, len(before)), at)
        return und is None

    def bind(self, name, v, st=None):
        """make a value of the analysis available to client expressions"""
        st = st if st is not None else self.st
        if st is None:      # the client program never completes: there is nothing to bind a value in
            return
        o = st.heap[self.env.a]
        if o.owner != st.owner:
            o = o.copy(st.owner)
            st.heap[self.env.a] = o
        o.data[name] = v

    def during(self, e):
        """the scenario as it stood at a library call whose state was kept"""
        if e.st is None or self.st is None:
            return self
        s = copy.copy(self)
        s.st = e.st.fork(e.st.pc)
        return s

    def calls(self, *names):
        """library calls (events) with one of the given heads; '.name' matches a method"""
        return [e for e in self.events if e.name in names or any(n.startswith('*') and e.name.endswith(n[1:]) for n in names)]

    def record(self, oid, status, detail, at, kind=''):
        self.an.record(oid, status, detail, self.an.where(at) if status == 'violated' else at, kind)

    def cond(self, c):
        if isinstance(c, V):
            return c
        if c in (True, None):
            return TRUE
        if c is False:
            return FALSE
        return self.spec_cond(c)

    def spec_cond(self, expr):
        """boolean over the inputs only; evaluated in the initial state"""
        ip = self.ip
        keep = (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules)
        any_st = self.st or (self.raised[0].st if self.raised else None)
        ip.st = any_st.fork(TRUE)
        ip.events, ip.writes, ip.raises, ip.frames = [], [], [[]], [self.frame()]
        try:
            n = self.parse(expr.strip()).body
            return ip.truth(ip.eval(n, self.env))
        finally:
            (ip.st, ip.events, ip.writes, ip.raises, ip.frames, ip.modules) = keep

    def _pre(self, oid, at):
        if self.undecided:
            self.an.record(oid, 'undecided', self.undecided, at)
            return False
        if self.vanished:
            self.an.record(oid, 'undecided', 'anchor vanished: ' + self.vanished, at)
            return False
        return True

    def describe_raise(self, r):
        f, l, fn = r.site
        where = ('%s:%s %s' % (f, l, fn)) if f != '<scenario>' else 'client line "%s"' % self.line(l)
        return '%s raised at %s%s' % (self.exc_name(r), where, (' (%s)' % r.msg) if r.msg else '')

    # ------------------------------------------------------------ obligations
    @bounded
    def exits(self, oid, ok=True, exc=None, what='', at='', vocab=()):
        """normal completion exactly under condition `ok`; everywhere else one of the exceptions `exc` is raised"""
        an = self.an
        if not self._pre(oid, at):
            return False
        vocab = VOCAB | set(vocab)
        try:
            c = self.cond(ok)
        except (Undecided, Dead) as e:
            an.record(oid, 'undecided', 'condition: %s' % e, at)
            return False
        pcok = self.st.pc if self.st is not None else FALSE
        # 1. normal completion where an error is required
        bad = AND(pcok, NOT(c))
        r = self._infeasible(bad, vocab)
        if r is not None:
            an.record(oid, r[0], '%s: completes without an error when %s' % (what, r[1]), self.an.where(at), 'accepts')
            return False
        # 2. an exception where success is required, or of the wrong kind
        for x in self.raised:
            names = self.exc_names(x)
            bad = AND(x.st.pc, c)
            r = self._infeasible(bad, vocab)
            if r is not None:
                an.record(oid, r[0], '%s: %s when %s' % (what, self.describe_raise(x), r[1]), self.an.where(at), 'raises ' + self.exc_name(x))
                return False
            if exc is not None and x.st.pc is not FALSE and not (names & set([exc] if isinstance(exc, str) else exc)):
                r = self._infeasible(x.st.pc, vocab)
                if r is not None:
                    an.record(oid, r[0], '%s: wrong error, %s' % (what, self.describe_raise(x)), self.an.where(at), 'wrong ' + self.exc_name(x))
                    return False
        an.record(oid, 'ok', what, at)
        return True

    def completes(self, oid, what='', at='', vocab=()):
        return self.exits(oid, True, None, what, at, vocab)

    def rejects(self, oid, exc, what='', at='', vocab=()):
        return self.exits(oid, False, exc, what, at, vocab)

    @staticmethod
    def _bad_atoms(atoms, vocab):
        bad = set()
        for i in atoms:
            k = T.atom_key(i)
            if k[0] not in ('eq0', 'lt0', 'is', 'streq', 'isin', 'type', 'eq', 'raises', 'truth', 'truthy', 'in', 'keyin', 'isfloat') and k[0] not in vocab:
                bad.add(str(k[0]))
            for x in k[1:]:
                if isinstance(x, V) and k[0] != 'raises':
                    bad |= unknown_heads(x, vocab)
        return bad

    def _infeasible(self, c, vocab):
        """None if the condition is infeasible; ('violated'|'undecided', text) otherwise"""
        if c is FALSE or not T.feasible(c):
            return None
        und = None
        n = 0
        for cb in T.cubes(c):
            n += 1
            if n > 4000:
                break
            if not T._theory_ok(cb):
                continue
            bad = self._bad_atoms(cb, vocab)
            if not bad:
                return ('violated', T.show_cube(cb))
            w = W.point(cb)
            if w is not None and not self._bad_atoms(w[1], vocab):
                return ('violated', '%s (for instance %s)' % (T.show_cube(cb), w[0]))
            und = ('undecided', '%s (depends on %s)' % (T.show_cube(cb), ', '.join(sorted(bad))))
        return und

    @bounded
    def equal(self, oid, expr, spec, what='', at='', vocab=(), when=None):
        """client expression equals the spec expression wherever the scenario completes"""
        an = self.an
        if not self._pre(oid, at):
            return False
        vocab = VOCAB | set(vocab)
        if self.st is None:
            an.record(oid, 'violated', '%s: no normal completion; %s' % (what, '; '.join(self.describe_raise(r) for r in self.raised[:2])), an.where(at), 'raises ' + (self.exc_name(self.raised[0]) if self.raised else ''))
            return False
        try:
            a = self.val(expr)
        except _EvalRaised as e:
            r = e.r
            st = 'undecided' if r.site[0] == '<scenario>' and self.exc_name(r) in ('AttributeError', 'NameError') and not plain_value(r.msg) else 'violated'
            an.record(oid, st, '%s: reading the result: %s' % (what, self.describe_raise(r)), an.where(at), 'raises ' + self.exc_name(r))
            return False
        except Undecided as e:
            an.record(oid, 'undecided', '%s: %s' % (what, e.reason), at)
            return False
        except Dead:
            an.record(oid, 'undecided', '%s: no value' % what, at)
            return False
        try:
            b = spec if isinstance(spec, V) else self.val(spec)
        except (Undecided, Dead, _EvalRaised) as e:
            an.record(oid, 'undecided', '%s: spec %s' % (what, e), at)
            return False
        care = self.st.pc
        if when is not None:
            care = AND(care, self.cond(when))
        res = self.differ(a, b, care, vocab)
        if res is None:
            an.record(oid, 'ok', what, at)
            return True
        status, ctext, la, lb = res
        an.record(oid, status, '%s: got %s, required %s%s' % (what, show(la)[:400], show(lb)[:400], '' if ctext == 'always' else ' when ' + ctext), an.where(at), 'value')
        return False

    def differ(self, a, b, care, vocab):
        und = None
        spec_heads = set()
        for u in T.subterms(b):
            if u.kind == 'app':
                spec_heads.add(I.head_name(u.a[0]))
            if u.kind == 'attr':
                spec_heads.add('.' + u.a[1])
        vocab = vocab | spec_heads
        for ca, la in T.leaves(T.restrict(a, care)):
            for cb, lb in T.leaves(T.restrict(b, care)):
                if la is lb:
                    continue
                c = AND(AND(ca, cb), care)
                r = self._infeasible(c, vocab)
                if r is None:
                    continue
                if la.kind in ('lst', 't') and lb.kind == la.kind and len(la.a) == len(lb.a) and any(u.kind == 'g' for u in la.a + lb.a):
                    for x, y in zip(la.a, lb.a):
                        d = self.differ(x, y, c, vocab)
                        if d is not None and (d[0] == 'violated' or und is None):
                            if d[0] == 'violated':
                                return d
                            und = d
                    continue
                e = same_value(la, lb)
                if e is not True and clipped(la, lb):
                    return ('violated', 'text cut short when %s' % r[1], la, lb)
                if e is True or (e is False and self.equal_under(la, lb, c)):
                    continue
                un = unknown_heads(la, vocab)
                # gates nested inside a frozen structure
                if e is False and (un or r[0] == 'undecided'):
                    w = self._refuted(la, lb, c, vocab)
                    if w is not None:
                        return ('violated', w, la, lb)
                if e is None or un or r[0] == 'undecided':
                    if und is None:
                        und = ('undecided', r[1] + (' [%s]' % ', '.join(sorted(un)) if un else ''), la, lb)
                    continue
                return ('violated', r[1], la, lb)
        return und

    def _refuted(self, la, lb, c, vocab):
        """a point at which two closed arithmetic terms differ, found under a feasible cube of the condition"""
        for n, cb in enumerate(T.cubes(c)):
            if n >= 40:
                break
            if not T._theory_ok(cb):
                continue
            w = W.different(la, lb, cb)
            if w is not None and not self._bad_atoms(w[1], vocab):
                return '%s (for instance %s)' % (T.show_cube(cb), w[0])
        return None

    def equal_under(self, la, lb, c):
        """numeric leaves whose equality follows from the condition they occur under"""
        if la.kind in ('r', 's', 'lst', 't', 'dct') or lb.kind in ('r', 's', 'lst', 't', 'dct'):
            return False
        try:
            d = arith('-', la, lb)
            if is_pynum(d):
                return cval(d) == 0
            z = self.ip.eq0(d)
            return z is not FALSE and not T.feasible(AND(c, NOT(z)))
        except Exception:
            return False

    def holds(self, oid, expr, what='', at='', vocab=(), when=None):
        return self.equal(oid, 'bool(%s)' % expr, const(True), what, at, vocab, when)


class _EvalRaised(Exception):
    def __init__(self, r):
        super().__init__('raised')
        self.r = r


def same_value(a, b):
    """structural equality of two leaf terms (True / False / None = cannot tell)"""
    if a is b:
        return True
    if a.kind in ('lst', 't') and b.kind == a.kind:
        if len(a.a) != len(b.a):
            return False
        r = True
        for x, y in zip(a.a, b.a):
            e = same_value(x, y)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if a.kind == 'dct' and b.kind == 'dct':
        da, db = dict(a.a), dict(b.a)
        if set(da) != set(db):
            return False
        r = True
        for k in da:
            e = same_value(da[k], db[k])
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if a.kind == 'g' or b.kind == 'g':
        for ca, la in T.leaves(a):
            for cb, lb in T.leaves(b):
                if T.feasible(AND(ca, cb)):
                    e = same_value(la, lb)
                    if e is not True:
                        return e if e is None else False
        return True
    if a.kind == 'top' or b.kind == 'top':
        return None
    if is_pynum(a) and is_pynum(b):
        return cval(a) == cval(b)
    try:
        if a.kind not in ('r', 's', 'lst', 't', 'dct') and b.kind not in ('r', 's', 'lst', 't', 'dct'):
            d = arith('-', a, b)
            if is_pynum(d):
                return cval(d) == 0
            p = T.to_poly(d)
            # floating literals: tolerate rounding of folded constants
            if p is not None and all(abs(float(c)) < 1e-12 for c in p.values()):
                return True
    except Exception:
        pass
    return False
