"""Refutation of identities between arithmetic terms.

Two normal forms over inputs and known mathematical functions that do not coincide are different functions unless a point
cannot tell them apart; the terms are compared on a fixed set of exact rational points that satisfy the path condition.
Only closed terms are looked at: anything with an opaque library call or attribute is left to the caller (undecided)."""
import math
from fractions import Fraction

from . import terms as T


class Open(Exception):
    pass


class NoValue(Exception):
    pass


def _fl(x):
    return float(x)


def _real(f):
    def g(x):
        try:
            return f(float(x))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoValue
    return g


def _pow(a, b):
    try:
        if isinstance(b, Fraction) and b.denominator == 1 and abs(b) <= 64:
            return a ** int(b)
        r = float(a) ** float(b)
    except (ZeroDivisionError, OverflowError, ValueError):
        raise NoValue
    if isinstance(r, complex):
        raise NoValue
    return r


def _round(a, b=None):
    n = 0 if b is None else int(b)
    return Fraction(round(Fraction(a), n)) if n or True else a


UN = {'abs': abs, 'int': lambda x: Fraction(int(x)), 'float': lambda x: x, 'math.floor': lambda x: Fraction(math.floor(x)),
      'math.ceil': lambda x: Fraction(math.ceil(x)), 'math.trunc': lambda x: Fraction(int(x)), 'bool': lambda x: Fraction(1 if x else 0)}
for _m in ('math', 'sympy', 'numpy'):
    for _n, _f in (('exp', math.exp), ('log', math.log), ('sqrt', math.sqrt), ('sin', math.sin), ('cos', math.cos), ('tan', math.tan),
                   ('log10', math.log10), ('cosh', math.cosh), ('sinh', math.sinh), ('tanh', math.tanh)):
        UN['%s.%s' % (_m, _n)] = _real(_f)
for _n in ('math.fabs', 'sympy.Abs', 'numpy.abs', 'numpy.absolute'):
    UN[_n] = abs
for _n in ('sympy.floor', 'numpy.floor'):
    UN[_n] = UN['math.floor']
for _n in ('sympy.ceiling', 'numpy.ceil'):
    UN[_n] = UN['math.ceil']


def _floordiv(a, b):
    if b == 0:
        raise NoValue
    return Fraction(math.floor(Fraction(a) / Fraction(b)))


def _mod(a, b):
    return a - b * _floordiv(a, b)


def _digits(a, n):
    return Fraction('%.*e' % (int(n) - 1, float(a)))


BIN = {'pow': _pow, '//': _floordiv, '%': _mod, 'sympy.N': _digits}
NARY = {'min': min, 'max': max, 'sympy.Min': min, 'sympy.Max': max}


def _flat(f):
    def g(x, *a):
        if not isinstance(x, tuple) or any(isinstance(i, tuple) for i in x):
            raise NoValue
        return tuple(f(list(x), *a))
    return g


def _running(f):
    def g(x):
        for i in range(1, len(x)):
            x[i] = f(x[i - 1], x[i])
        return x
    return g


def _roll(x, n):
    n = int(n) % len(x) if x else 0
    return x[-n:] + x[:-n] if n else x


# vectors: values are tuples
VEC = {'numpy.array': _flat(list), 'numpy.unique': _flat(lambda x: sorted(set(x))), 'numpy.sort': _flat(sorted), 'sorted': _flat(sorted), 'numpy.flip': _flat(lambda x: x[::-1]), 'numpy.flipud': _flat(lambda x: x[::-1]),
       'numpy.minimum.accumulate': _flat(_running(min)), 'numpy.maximum.accumulate': _flat(_running(max)), 'numpy.cumsum': _flat(_running(lambda a, b: a + b)), 'numpy.add.accumulate': _flat(_running(lambda a, b: a + b)),
       'numpy.cumprod': _flat(_running(lambda a, b: a * b)), 'numpy.diff': _flat(lambda x: [b - a for a, b in zip(x, x[1:])]), 'numpy.roll': _flat(_roll),
       'numpy.round': _flat(lambda x, n=0: [_round(i, n) for i in x]), 'numpy.rint': _flat(lambda x: [_round(i) for i in x]), 'numpy.trunc': _flat(lambda x: [Fraction(int(i)) for i in x]),
       'numpy.clip': _flat(lambda x, a, b: [min(max(i, a), b) for i in x])}
VEC['numpy.around'] = VEC['numpy.round']
for _n in ('numpy.asarray', 'numpy.copy', 'numpy.ravel', 'numpy.squeeze', 'numpy.atleast_1d', 'list', 'tuple', '.tolist', '.copy', '.flatten', '.ravel'):
    VEC[_n] = VEC['numpy.array']
for _n in ('numpy.exp', 'numpy.log', 'numpy.sqrt', 'numpy.abs', 'numpy.absolute', 'numpy.floor', 'numpy.ceil'):
    VEC[_n] = _flat(lambda x, f=UN[_n]: [f(i) for i in x])


def _order(x):
    if len(set(x)) != len(x):
        raise NoValue
    return [Fraction(i) for i in sorted(range(len(x)), key=x.__getitem__)]


NAN = Fraction(10 ** 17 + 3, 7)   # stands for an entry that is not a number, in terms with nan_to_num only
VEC['numpy.argsort'] = _flat(_order)
VEC['numpy.nan_to_num'] = _flat(lambda x: [Fraction(0) if i == NAN else i for i in x])


def part(k):
    """an index that takes several entries: a slice of constants or a vector"""
    return k.kind == 'slice' and all(T.is_pynum(x) or x is T.NONE for x in k.a) or k.kind != 'slice' and is_vec(k)


def entries(x, k, env):
    if not isinstance(x, tuple):
        raise NoValue
    if k.kind == 'slice':
        return x[slice(*[None if i is T.NONE else int(T.cval(i)) for i in k.a])]
    i = value(k, env)
    if not all(isinstance(j, Fraction) and j.denominator == 1 and -len(x) <= j < len(x) for j in i):
        raise NoValue
    return tuple(x[int(j)] for j in i)


def truncating(v):
    kw = dict(v.a[2])
    return list(kw) == ['dtype'] and v.a[0].kind == 'ext' and v.a[0].a in ('numpy.array', 'numpy.asarray') and kw['dtype'].kind == 'bt' and kw['dtype'].a == 'int'


def vec_args(v):
    """arguments of a known function of a vector, or None"""
    h = v.a[0]
    if v.a[2] and not (truncating(v) and v.a[1]):
        return None
    if h.kind == 'attr' and '.' + h.a[1] in VEC:
        return (h.a[0],) + tuple(v.a[1])
    n = h.a if h.kind in ('ext', 'bi', 'bt') else show_attr(h)
    return tuple(v.a[1]) if n in VEC and v.a[1] else None


def show_attr(h):
    if h.kind == 'attr':
        b = show_attr(h.a[0])
        return b and b + '.' + h.a[1]
    return h.a if h.kind == 'ext' else None


def vec_name(v):
    h = v.a[0]
    return '.' + h.a[1] if h.kind == 'attr' and '.' + h.a[1] in VEC else h.a if h.kind in ('ext', 'bi', 'bt') else show_attr(h)


def is_vec(v):
    return v.kind in ('lst', 't') or v.kind == 'item' and part(v.a[1]) and is_vec(v.a[0]) or v.kind == 'app' and (v.a[0].kind == 'ext' and v.a[0].a == 'numpy.col' or (vec_args(v) or [None])[0] is not None and is_vec(vec_args(v)[0]))


def hname(h):
    if h.kind in ('ext', 'bi', 'bt'):
        return h.a
    return None


def symbols(v, out):
    """numeric inputs of a closed term; raises Open if the term contains anything else"""
    k = v.kind
    if k == 'c':
        if not T.is_pynum(v):
            raise Open
    elif k == 'sym':
        if v.ty not in T.NUMTY or v.ty == 'ext':
            raise Open
        out[v] = v.ty
    elif k == 'n':
        for m, _ in v.a:
            for a, _e in m:
                symbols(a, out)
    elif k in ('lst', 't'):
        for x in v.a:
            symbols(x, out)
    elif k == 'app' and v.a[0].kind == 'ext' and v.a[0].a == 'numpy.col':
        out[v] = 'vec'
    elif k == 'app' and is_vec(v):
        for x in vec_args(v):
            symbols(x, out)
    elif k == 'item' and is_vec(v.a[0]) and (T.is_pynum(v.a[1]) or part(v.a[1])):
        symbols(v.a[0], out)
        if v.a[1].kind != 'slice':
            symbols(v.a[1], out)
    elif k == 'app':
        n = hname(v.a[0])
        if n is None or [x for x in v.a[2] if x[0] != 'evaluate']:
            raise Open
        if not (n in UN and len(v.a[1]) == 1 or n in BIN and len(v.a[1]) == 2 or n in NARY and v.a[1] or n == 'round' and len(v.a[1]) in (1, 2)):
            raise Open
        for x in v.a[1]:
            symbols(x, out)
    elif k == 'g':
        cond(v.a[0], out)
        symbols(v.a[1], out)
        symbols(v.a[2], out)
    else:
        raise Open


def cond(i, out):
    k = T.atom_key(i)
    if k[0] not in ('eq0', 'lt0'):
        raise Open
    symbols(k[1], out)


def value(v, env):
    k = v.kind
    if k == 'c':
        x = T.cval(v)
        if isinstance(x, float) and not math.isfinite(x):
            raise NoValue
        return Fraction(x)
    if k == 'sym' or v in env:
        return env[v]
    if k in ('lst', 't'):
        return tuple(value(x, env) for x in v.a)
    if k == 'app' and is_vec(v):
        try:
            r = VEC[vec_name(v)](*[value(x, env) for x in vec_args(v)])
            return VEC['numpy.trunc'](r) if v.a[2] else r
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            raise NoValue
    if k == 'item':
        x = value(v.a[0], env)
        if part(v.a[1]):
            return entries(x, v.a[1], env)
        i = int(T.cval(v.a[1]))
        if not isinstance(x, tuple) or not -len(x) <= i < len(x):
            raise NoValue
        return x[i]
    if k == 'n':
        s = Fraction(0)
        for m, c in v.a:
            p = c
            for a, e in m:
                p = p * _pow(value(a, env), e)
            s = s + p
        return s
    if k == 'app':
        n = hname(v.a[0])
        xs = [value(x, env) for x in v.a[1]]
        try:
            if n == 'round':
                return _round(*xs)
            if n in NARY:
                return NARY[n](xs)
            return (UN.get(n) if len(xs) == 1 else BIN[n])(*xs)
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            raise NoValue
    if k == 'g':
        return value(v.a[1] if holds(v.a[0], env) else v.a[2], env)
    raise NoValue


def holds(i, env):
    k = T.atom_key(i)
    x = value(k[1], env)
    if isinstance(x, float) and abs(x) < 1e-12:
        raise NoValue
    return x == 0 if k[0] == 'eq0' else x < 0


POOL = [Fraction(x) for x in (2, 3, -1, 5, -3, 7, 1, 0, -2, 4, 11, -7, 13)] + \
       [Fraction(a, b) for a, b in ((5, 2), (-3, 2), (1, 3), (-7, 3), (1, 7), (22, 7), (1, 1000003), (-1, 3000017), (1234567, 891), (-987654, 321), (100000000007, 3), (1, 700000000001))]
INTS = [x for x in POOL if x.denominator == 1] + [Fraction(100), Fraction(-64), Fraction(1000003)]


def points(syms, n=600, nan=False):
    if nan and syms:
        env = next(points(syms, 1))
        s = min(env, key=lambda s: str(s.a))
        env[s] = (NAN,) + env[s][1:] if isinstance(env[s], tuple) else NAN
        yield env
    names = sorted(syms, key=lambda s: str(s.a))
    x = 12345
    for i in range(n):
        env = {}
        for j, s in enumerate(names):
            if syms[s] == 'vec':
                env[s] = tuple(POOL[(i * 7 + 5 * j + 3 * q + q * q) % len(POOL)] for q in range(4))
                continue
            pool = INTS if syms[s] == 'int' else POOL
            if i < len(pool) and (j == 0 or i < 6):
                env[s] = pool[(i + 5 * j) % len(pool)]
            else:
                x = (1103515245 * x + 12345) % 2147483648
                env[s] = pool[(x >> 8) % len(pool)]
        yield env


def bindings(cube, num):
    """equalities of the cube as definitions: [(symbol, coefficient, term)], symbol = -(rest of term)/coefficient"""
    out, done = [], set()
    for i in num:
        k = T.atom_key(i)
        if k[0] != 'eq0' or not cube[i]:
            continue
        t = k[1]
        if t.kind == 'sym' and t not in done:
            out.append((t, Fraction(1), t))
            done.add(t)
        elif t.kind == 'n':
            inside = {}
            for m, _ in t.a:
                for a, _e in m:
                    inside[a] = inside.get(a, 0) + 1
            for m, c in t.a:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and m[0][0] not in done and inside[m[0][0]] == 1:
                    out.append((m[0][0], c, t))
                    done.add(m[0][0])
                    break
    return out


def solved(env, binds):
    for s, c, t in binds:
        env[s] = Fraction(0)
        env[s] = -Fraction(value(t, env)) / c
    return env


def satisfied(cube, env, numeric):
    for i in numeric:
        if holds(i, env) != cube[i]:
            return False
    return True


def split(cube, syms):
    """numeric atoms that can be evaluated; the others"""
    num, rest = [], []
    for i in cube:
        try:
            o = {}
            cond(i, o)
            syms.update(o)
            num.append(i)
        except Open:
            rest.append(i)
    return num, rest


def nearly(x, y):
    if isinstance(x, tuple) != isinstance(y, tuple):
        raise NoValue
    if isinstance(x, tuple):
        return len(x) == len(y) and all([nearly(a, b) for a, b in zip(x, y)])
    d = abs(x - y)
    return not (d > Fraction(1, 10 ** 9) * max(abs(x), abs(y)) and d > Fraction(1, 10 ** 11))


def show(env):
    return ', '.join('%s = %s' % (s.a if s.kind == 'sym' else T.show(s), '[%s]' % ', '.join('nan' if i == NAN else str(float(i)) for i in x) if isinstance(x, tuple) else 'nan' if x == NAN else x if x.denominator == 1 else float(x)) for s, x in sorted(env.items(), key=lambda t: str(t[0].a))[:6])


def different(a, b, cube):
    """(point, other atoms) at which the closed terms a and b differ under the cube, or None"""
    syms = {}
    try:
        symbols(a, syms)
        symbols(b, syms)
    except Open:
        return None
    num, rest = split(cube, syms)
    if len(syms) > 40:
        return None
    binds = bindings(cube, num)
    for env in points(syms, nan=any('nan_to_num' in T.show(x) for x in (a, b))):
        try:
            solved(env, binds)
            if not satisfied(cube, env, num):
                continue
            x, y = value(a, env), value(b, env)
            if not nearly(x, y):
                return show(env), rest
        except NoValue:
            continue
    return None


def point(cube):
    """a point satisfying the numeric atoms of the cube: (point, other atoms) or None"""
    syms = {}
    num, rest = split(cube, syms)
    if not num or len(syms) > 40:
        return None
    binds = bindings(cube, num)
    for env in points(syms):
        try:
            solved(env, binds)
            if satisfied(cube, env, num):
                return show(env), rest
        except NoValue:
            continue
    return None
