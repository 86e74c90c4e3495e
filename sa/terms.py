"""Hash-consed value terms, rational-polynomial normal form and gate (decision) diagrams.

The abstract domain of the analysis: every abstract value is one interned `V`.  Leaves are
constants, opaque symbols, polynomials over them, strings (concatenations of literals and opaque
names), references to abstract heap objects, and uninterpreted applications of library functions.
At control-flow joins two values are combined with a gate node `g(atom, hi, lo)`, ordered by atom
index and reduced, so gated values (and booleans, which are gates over True/False) are canonical.
No solver is involved: equality is identity of interned normal forms.
"""
from fractions import Fraction

_table = {}
_all = []


class V:
    __slots__ = ('kind', 'a', 'id', 'ty', 'hasg')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError('V is interned')

    def __lt__(self, other):
        return self.id < other.id


class Explosion(Exception):
    """more terms than a scenario may use"""


BUDGET = 60000      # new terms for one scenario or obligation (the largest uses about 3000 today)
TOTAL = 6000000     # terms of one run (the largest uses about 1.1 million)
_limit = [BUDGET]


def budget():
    _limit[0] = min(len(_all) + BUDGET, TOTAL + 20000)


def mk(kind, a, ty=None):
    k = (kind, a, ty)
    v = _table.get(k)
    if v is None:
        if len(_all) > _limit[0]:
            raise Explosion('too many cases')
        v = V()
        v.kind, v.a, v.ty = kind, a, ty
        v.id = len(_all)
        v.hasg = kind == 'g'
        _all.append(v)
        _table[k] = v
    return v


def const(x):
    t = type(x)
    if t is float and x == 0:
        return mk('c', (t, '0.0', 0.0 if str(x) == '0.0' else 0.0))
    if isinstance(x, str):
        return mk('s', (x,) if x else ())
    return mk('c', (t, repr(x), x))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ABSENT = mk('absent', None)


def cval(v):
    return v.a[2]


def is_const(v):
    return v.kind == 'c'


def is_pynum(v):
    return v.kind == 'c' and v.a[0] in (int, float, bool)


def top(reason):
    return mk('top', reason)


# ---------------------------------------------------------------- symbols
def sym(name, ty='num'):
    """opaque value; ty in int,float,num,sym(bolic expression),obj,str,..."""
    return mk('sym', name, ty)


def ext(path):
    return mk('ext', path)


def tup(items):
    return mk('t', tuple(items))


def app(head, args=(), kw=(), ty=None):
    return mk('app', (head, tuple(args), tuple(sorted(kw))), ty)


def attr(base, name, ty=None):
    return mk('attr', (base, name), ty)


def item(base, key, ty=None):
    return mk('item', (base, key), ty)


# ---------------------------------------------------------------- strings
def sstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
            else:
                out.append(p)
        elif p.kind == 's':
            for q in p.a:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                else:
                    out.append(q)
        else:
            out.append(p)
    return mk('s', tuple(out))


def strsym(name):
    return mk('s', (mk('sym', name, 'str'),))


def is_str(v):
    return v.kind == 's'


def str_const(v):
    """python str if the string term is fully literal else None"""
    if v.kind == 's':
        if not v.a:
            return ''
        if len(v.a) == 1 and isinstance(v.a[0], str):
            return v.a[0]
    return None


def str_label(v):
    out = ''
    for p in v.a:
        out += p if isinstance(p, str) else show(p)
    return out


def sort_label(v):
    """order of strings; generic names (any order is possible) against their labels, so that code which sorts is told from code which does not"""
    out = ''
    for p in v.a:
        out += p if isinstance(p, str) else ''.join(chr(0x17f - ord(c)) if ord(c) < 0x100 else c for c in show(p))
    return out


# ---------------------------------------------------------------- polynomials
NUMTY = {'int': 0, 'float': 2, 'num': 1, 'sym': 4, 'ext': 3}


def num_ty(v):
    if v.kind == 'c':
        return {int: 'int', float: 'float', bool: 'int'}.get(v.a[0])
    if v.kind in ('n', 'sym'):
        return v.ty if v.ty in NUMTY else None
    if v.kind in ('app', 'attr', 'item'):
        return v.ty if v.ty in NUMTY else 'ext'
    return None


def join_ty(a, b):
    if a is None or b is None:
        return a or b
    return a if NUMTY[a] >= NUMTY[b] else b


def to_poly(v):
    """dict mono->Fraction, or None"""
    if v.kind == 'c':
        if v.a[0] in (int, float, bool):
            x = cval(v)
            try:
                f = Fraction(x)
            except (ValueError, OverflowError):
                return None
            return {(): f} if f else {}
        return None
    if v.kind == 'n':
        return dict(v.a)
    if v.kind in ('sym', 'app', 'attr', 'item'):
        if v.kind == 'sym' and v.ty not in NUMTY:
            return None
        return {((v, Fraction(1)),): Fraction(1)}
    return None


def from_poly(p, ty):
    p = {m: c for m, c in p.items() if c != 0}
    if not p or (len(p) == 1 and () in p):
        c = p.get((), Fraction(0))
        if ty in ('int',) and c.denominator == 1:
            return const(int(c))
        if ty in ('float', 'num', 'int', 'sym', 'ext') and ty != 'sym':
            return const(int(c)) if (ty == 'num' and c.denominator == 1) else const(float(c))
        # symbolic constant (e.g. x - x): keep as a plain number
        return const(int(c)) if c.denominator == 1 else const(float(c))
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind != 'n':
                return a
    key = tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk('n', key, ty)


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def mmul(m, n):
    d = {}
    for a, e in m + n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    # sums that appear as atoms with positive integer exponent are re-expanded by ppow only
    return {m: c for m, c in r.items() if c}


def _content(p):
    """leading coefficient normalisation for sums used as atoms"""
    key = min(p, key=lambda m: tuple((a.id, e) for a, e in m))
    return p[key]


def ppow(p, e, ty):
    """p ** e for Fraction e; returns poly"""
    if e == 0:
        return {(): Fraction(1)}
    if e == 1:
        return p
    if len(p) == 0:
        return p if e > 0 else None
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1:
            return {tuple((a, x * e) for a, x in m): c ** int(e)}
        if c == 1 or (c > 0 and False):
            # (a^k)^e -> only safe to merge for single exponents 1
            if all(x == 1 for _, x in m) and len(m) == 1:
                return {tuple((a, x * e) for a, x in m): Fraction(1)}
        base = from_poly(p, ty)
        return {((mk('n', base.a, base.ty) if base.kind == 'n' else base, e),): Fraction(1)}
    if e.denominator == 1 and 0 < e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        return r
    # sum to a non positive-integer power: atom with normalised leading coefficient
    if e.denominator == 1:
        c = _content(p)
        q = {m: x / c for m, x in p.items()}
        base = from_poly(q, ty)
        return {((base, e),): c ** int(e)}
    base = from_poly(p, ty)
    return {((base, e),): Fraction(1)}


class NotNum(Exception):
    pass


def arith(op, a, b):
    """arithmetic on leaf values; raises NotNum if not numeric terms"""
    if is_pynum(a) and is_pynum(b):
        x, y = cval(a), cval(b)
        if op == '+':
            return const(x + y)
        if op == '-':
            return const(x - y)
        if op == '*':
            return const(x * y)
        if op == '/':
            return const(x / y)
        if op == '**':
            r = x ** y
            if isinstance(r, complex):
                return top('complex')
            return const(r)
        if op == '//':
            return const(x // y)
        if op == '%':
            return const(x % y)
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        raise NotNum
    ta, tb = num_ty(a), num_ty(b)
    ty = join_ty(ta, tb)
    if op in ('+', '-'):
        return from_poly(padd(pa, pb, 1 if op == '+' else -1), ty)
    if op == '*':
        return from_poly(pmul(pa, pb), ty)
    if op == '/':
        if ty == 'int' or ty == 'num':
            ty = 'float' if ty == 'int' else 'num'
        inv = ppow(pb, Fraction(-1), tb)
        if inv is None:
            raise ZeroDivisionError
        return from_poly(pmul(pa, inv), ty)
    if op == '**':
        if len(pb) == 0 or (len(pb) == 1 and () in pb):
            e = pb.get((), Fraction(0))
            if e.denominator <= 16:
                r = ppow(pa, e, ta)
                if r is None:
                    raise ZeroDivisionError
                return from_poly(r, ty)
        if is_pynum(a) and cval(a) == 1:
            return a
        return mk('app', (mk('bi', 'pow'), (a, b), ()), ty)
    return mk('app', (mk('bi', op), (a, b), ()), ty)


def neg(a):
    return arith('*', a, const(-1))


# ---------------------------------------------------------------- gates
_atoms = {}
_atom_list = []


def atom_index(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
    return i


def atom_key(i):
    return _atom_list[i]


def atom(*key):
    """boolean gate value for a fresh/known atomic predicate"""
    return mkgate(atom_index(key), TRUE, FALSE)


def mkgate(i, hi, lo):
    if hi is lo:
        return hi
    return mk('g', (i, hi, lo))


_ite_cache = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    if c.kind != 'g':
        raise ValueError('ite on non boolean %r' % (c,))
    i = c.a[0]
    if a.kind == 'g':
        i = min(i, a.a[0])
    if b.kind == 'g':
        i = min(i, b.a[0])

    def cof(v, s):
        if v.kind == 'g' and v.a[0] == i:
            return v.a[1] if s else v.a[2]
        return v
    r = mkgate(i, ite(cof(c, 1), cof(a, 1), cof(b, 1)), ite(cof(c, 0), cof(a, 0), cof(b, 0)))
    _ite_cache[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


_restrict_cache = {}


def restrict(f, care):
    """simplify f knowing that `care` holds (Coudert-Madre restrict)"""
    if care is TRUE or f.kind != 'g':
        return f
    if care is FALSE:
        return f
    k = (f, care)
    r = _restrict_cache.get(k)
    if r is not None:
        return r
    i, ci = f.a[0], care.a[0]
    if ci < i:
        r = restrict(f, OR(care.a[1], care.a[2]))
    elif ci == i:
        if care.a[1] is FALSE:
            r = restrict(f.a[2], care.a[2])
        elif care.a[2] is FALSE:
            r = restrict(f.a[1], care.a[1])
        else:
            r = mkgate(i, restrict(f.a[1], care.a[1]), restrict(f.a[2], care.a[2]))
    else:
        r = mkgate(i, restrict(f.a[1], care), restrict(f.a[2], care))
    _restrict_cache[k] = r
    return r


def leaves(v):
    """list of (cond, leaf); conds are booleans (gates)"""
    if v.kind != 'g':
        return [(TRUE, v)]
    acc = {}
    order = []

    def walk(u, c):
        if u.kind != 'g':
            if u not in acc:
                acc[u] = c
                order.append(u)
            else:
                acc[u] = OR(acc[u], c)
            return
        i = u.a[0]
        at = mkgate(i, TRUE, FALSE)
        walk(u.a[1], AND(c, at))
        walk(u.a[2], AND(c, NOT(at)))
    walk(v, TRUE)
    return [(acc[u], u) for u in order]


def leafset(v):
    out, seen = [], set()
    stack = [v]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.kind == 'g':
            stack.append(u.a[2])
            stack.append(u.a[1])
        else:
            out.append(u)
    return out


def gmap(f, v):
    """map leaves of v"""
    if v.kind != 'g':
        return f(v)
    cache = {}

    def walk(u):
        if u in cache:
            return cache[u]
        if u.kind != 'g':
            r = f(u)
        else:
            i = u.a[0]
            at = mkgate(i, TRUE, FALSE)
            r = ite(at, walk(u.a[1]), walk(u.a[2]))
        cache[u] = r
        return r
    return walk(v)


def gmap2(f, a, b):
    if a.kind != 'g' and b.kind != 'g':
        return f(a, b)
    return gmap(lambda x: gmap(lambda y: f(x, y), b), a)


def cubes(c):
    """iterate satisfying partial assignments of boolean c: dict atom->bool"""
    if c is FALSE:
        return
    if c is TRUE:
        yield {}
        return
    i, hi, lo = c.a
    for r in cubes(hi):
        yield {i: True, **r}
    for r in cubes(lo):
        yield {i: False, **r}


def _theory_ok(cube):
    """cheap consistency filter for a conjunction of atomic predicates (linear equalities on
    one difference, order of a difference, truthiness of numbers)."""
    eqs = {}
    for i, val in cube.items():
        k = atom_key(i)
        if k[0] == 'eq0' and val:
            p = dict(to_poly(k[1]) or {})
            c = p.pop((), Fraction(0))
            if not p:
                continue
            lead = _content(p)
            key = tuple(sorted(((m, x / lead) for m, x in p.items()), key=lambda t: tuple((a.id, e) for a, e in t[0])))
            if eqs.setdefault(key, -c / lead) != -c / lead:
                return False
    for i, val in cube.items():
        k = atom_key(i)
        if k[0] == 'eq0' and not val:
            p = dict(to_poly(k[1]) or {})
            c = p.pop((), Fraction(0))
            if p:
                lead = _content(p)
                key = tuple(sorted(((m, x / lead) for m, x in p.items()), key=lambda t: tuple((a.id, e) for a, e in t[0])))
                if key in eqs and eqs[key] == -c / lead:
                    return False
    if eqs and not _linear_ok(cube, eqs):
        return False
    held = {atom_key(i)[2] for i, val in cube.items() if val and atom_key(i)[0] == 'in'}
    if held and any(not val and atom_key(i)[0] == 'truthy' and atom_key(i)[1] in held for i, val in cube.items()):
        return False        # an empty collection holds nothing
    groups = {}
    for i, val in cube.items():
        k = atom_key(i)
        if k[0] in ('isin', 'streq', 'is') and val:
            groups.setdefault((k[0], k[1]), []).append(k)
        if k[0] == 'type' and val:
            groups.setdefault(('type', k[1]), []).append(k)
    for g, ks in groups.items():
        if g[0] in ('type', 'streq', 'is') and len(ks) > 1:
            # one opaque value equal to two different literals / of two different types
            lits = {k[2] for k in ks}
            if len(lits) > 1 and all(x.kind in ('c', 's', 'bt') for x in lits):
                if g[0] != 'type':
                    return False
    # x == 0 with lt atoms
    lts = [(i, val) for i, val in cube.items() if atom_key(i)[0] == 'lt0']
    for i, val in lts:
        t = atom_key(i)[1]
        p = dict(to_poly(t) or {})
        c = p.pop((), Fraction(0))
        if not p:
            continue
        lead = _content(p)
        key = tuple(sorted(((m, x / lead) for m, x in p.items()), key=lambda t: tuple((a.id, e) for a, e in t[0])))
        if key in eqs:
            v = eqs[key] * lead + c
            if (v < 0) != val:
                return False
    return True


def _linear_ok(cube, eqs):
    """several equations together: elimination over the monomials; an atom an equation gives is put into the other monomials"""
    rows, given = [], {}      # pivot monomial -> what it equals

    def value(p):
        out = dict(p)
        for _ in range(4):
            new, more = {}, False
            for m, x in out.items():
                hit = next(((a, e) for a, e in m if a in given and e > 0 and e == int(e)), None)
                if hit is None:
                    new[m] = new.get(m, 0) + x
                    continue
                more = True
                rest = tuple((a, e - 1 if a is hit[0] else e) for a, e in m if a is not hit[0] or e != 1)
                for m2, x2 in given[hit[0]].items():
                    d = dict(rest)
                    for a, e in m2:
                        d[a] = d.get(a, 0) + e
                    k = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))
                    new[k] = new.get(k, 0) + x * x2
            out = {m: x for m, x in new.items() if x}
            if not more or len(out) > 60:
                break
        for m, sol in rows:
            x = out.pop(m, 0)
            if x:
                for m2, x2 in sol.items():
                    out[m2] = out.get(m2, 0) + x * x2
        return {m: x for m, x in out.items() if x}

    def poly(p):
        return {tuple(sorted(m, key=lambda t: t[0].id)): Fraction(x) for m, x in p.items()}
    todo = [poly(dict(list(k) + [((), -v)])) for k, v in eqs.items()]
    for _ in range(2):        # a second time with the atoms the first has given
        rows = []
        for p in sorted(todo, key=len):
            q = value(p)
            if not q:
                continue
            if set(q) == {()}:
                return False
            m = max((m for m in q if m), key=lambda m: (len(m) == 1 and m[0][1] == 1, m[0][0].id))
            x = q.pop(m)
            sol = {k: -c / x for k, c in q.items()}
            rows = [(m0, _put(s0, m, sol)) for m0, s0 in rows] + [(m, sol)]
            if len(m) == 1 and m[0][1] == 1 and not any(a is m[0][0] for k in sol for a, e in k):
                given[m[0][0]] = sol
        for i in cube:        # and the integer part of something the equations fix
            k = atom_key(i)
            for m in (to_poly(k[1]) or ()) if k[0] in ('eq0', 'lt0') else ():
                for a, e in m:
                    if a.kind == 'app' and a not in given and a.a[0].kind == 'bi' and a.a[0].a == 'int' and len(a.a[1]) == 1:
                        p = to_poly(a.a[1][0])
                        q = None if p is None else value(poly(p))
                        if q is not None and set(q) <= {()}:
                            given[a] = {(): Fraction(int(q.get((), 0)))} if q else {}
    for i, val in cube.items():
        k = atom_key(i)
        if k[0] in ('eq0', 'lt0'):
            p = to_poly(k[1])
            if p is None:
                continue
            q = value(poly(p))
            if k[0] == 'eq0' and not val and not q:
                return False
            if k[0] == 'lt0' and set(q) <= {()} and (q.get((), 0) < 0) != val:
                return False
    return True


def _put(sol, m, other):
    if m not in sol:
        return sol
    out = dict(sol)
    x = out.pop(m)
    for k, c in other.items():
        out[k] = out.get(k, 0) + x * c
    return {k: c for k, c in out.items() if c}


def feasible(c):
    """some satisfying cube passes the cheap theory filter"""
    n = 0
    for cb in cubes(c):
        if _theory_ok(cb):
            return True
        n += 1
        if n > 4000:
            return True
    return False


def show_cube(cb):
    out = []
    for i, val in cb.items():
        out.append(('' if val else 'not ') + show_atom(atom_key(i)))
    return ' and '.join(out) or 'always'


def show_cond(c):
    if c is TRUE:
        return 'always'
    for cb in cubes(c):
        if _theory_ok(cb):
            return show_cube(cb)
    return 'never'


def show_atom(k):
    if k[0] == 'eq0':
        return '(%s == 0)' % show(k[1])
    if k[0] == 'lt0':
        return '(%s < 0)' % show(k[1])
    return '%s(%s)' % (k[0], ', '.join(show(x) if isinstance(x, V) else str(x) for x in k[1:]))


# ---------------------------------------------------------------- display / traversal
def show(v, d=0):
    if d > 6:
        return '...'
    k = v.kind
    if k == 'c':
        return v.a[1]
    if k == 's':
        return "'" + ''.join(p if isinstance(p, str) else '<%s>' % show(p, d + 1) for p in v.a) + "'"
    if k == 'sym':
        return str(v.a)
    if k == 'n':
        out = []
        for m, c in v.a:
            t = '*'.join((show(a, d + 1) if a.kind != 'n' else '(%s)' % show(a, d + 1)) + ('' if e == 1 else '^%s' % e) for a, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(t)
            elif c == -1:
                out.append('-' + t)
            else:
                out.append('%s*%s' % (c if c.denominator < 1000 else float(c), t))
        return ' + '.join(out)
    if k == 'r':
        return '<obj %d>' % v.a
    if k in ('t', 'lst'):
        return ('(%s)' if k == 't' else '[%s]') % ', '.join(show(x, d + 1) for x in v.a)
    if k == 'dct':
        return '{%s}' % ', '.join('%s: %s' % (show(x, d + 1), show(y, d + 1)) for x, y in v.a)
    if k == 'app':
        h, a, kw = v.a
        return '%s(%s)' % (show(h, d + 1), ', '.join([show(x, d + 1) for x in a] + ['%s=%s' % (n, show(x, d + 1)) for n, x in kw]))
    if k == 'attr':
        return '%s.%s' % (show(v.a[0], d + 1), v.a[1])
    if k == 'item':
        return '%s[%s]' % (show(v.a[0], d + 1), show(v.a[1], d + 1))
    if k == 'ext':
        return v.a
    if k == 'g':
        return 'if %s then %s else %s' % (show_atom(atom_key(v.a[0])), show(v.a[1], d + 1), show(v.a[2], d + 1))
    if k == 'absent':
        return '<absent>'
    if k == 'top':
        return '<unknown: %s>' % (v.a,)
    if k == 'fn':
        return '<function %s>' % v.a.name
    if k == 'bm':
        return '%s.%s' % (show(v.a[0], d + 1), show(v.a[1], d + 1))
    return '<%s %s>' % (k, v.a)


def children(v):
    k = v.kind
    if k in ('t', 'lst'):
        return list(v.a)
    if k == 's':
        return [p for p in v.a if not isinstance(p, str)]
    if k == 'dct':
        return [x for kv in v.a for x in kv]
    if k == 'app':
        h, a, kw = v.a
        return [h] + list(a) + [x for _, x in kw]
    if k == 'attr':
        return [v.a[0]]
    if k == 'item':
        return [v.a[0], v.a[1]]
    if k == 'n':
        return [a for m, c in v.a for a, e in m]
    if k == 'g':
        ak = atom_key(v.a[0])
        return [x for x in ak if isinstance(x, V)] + [v.a[1], v.a[2]]
    if k == 'bm':
        return [v.a[0], v.a[1]]
    return []


def subterms(v):
    seen = set()
    stack = [v]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(children(u))


def contains(v, pred):
    return any(pred(u) for u in subterms(v))


def subst(v, mp, memo=None):
    """substitute opaque terms in a term (leaf replacement, re-normalising)"""
    memo = {} if memo is None else memo
    if v in mp:
        return mp[v]
    if v in memo:
        return memo[v]
    k = v.kind
    r = v
    if k in ('t', 'lst'):
        r = mk(k, tuple(subst(x, mp, memo) for x in v.a))
    elif k == 's':
        r = sstr([p if isinstance(p, str) else subst(p, mp, memo) for p in v.a])
    elif k == 'dct':
        r = mk('dct', tuple((subst(x, mp, memo), subst(y, mp, memo)) for x, y in v.a))
    elif k == 'app':
        h, a, kw = v.a
        args = tuple(subst(x, mp, memo) for x in a)
        if h.kind == 'ext' and h.a in ('sympy.Min', 'sympy.Max'):
            args = tuple(sorted(set(args)))
            if len(args) == 1:
                memo[v] = args[0]
                return args[0]
        r = mk('app', (subst(h, mp, memo), args, tuple((n, subst(x, mp, memo)) for n, x in kw)), v.ty)
    elif k == 'attr':
        r = mk('attr', (subst(v.a[0], mp, memo), v.a[1]), v.ty)
    elif k == 'item':
        r = mk('item', (subst(v.a[0], mp, memo), subst(v.a[1], mp, memo)), v.ty)
    elif k == 'n':
        tot = const(0)
        for m, c in v.a:
            t = from_poly({(): c}, 'num')
            for a, e in m:
                t = arith('*', t, arith('**', subst(a, mp, memo), from_poly({(): e}, 'num')))
            tot = arith('+', tot, t)
        r = tot
    memo[v] = r
    return r
