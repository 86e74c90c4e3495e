from .common import *

RULE = ('every expression carries exactly one of linear / nonlinear / differential, decided by the documented precedence: sums take the strongest of their operands '
        '(differential > nonlinear > linear); a product with a known factor and a quotient by a known divisor keep the other operand; products and quotients of unknowns, '
        'division by an unknown, powers and functions are at least nonlinear; derivatives are differential and stay so')
NESTED = True
AT = 'core.expression_evaluation:EquationNode.'
RANK = {'is_linear': 0, 'is_nonlinear': 1, 'is_differential': 2}
BY = {v: k for k, v in RANK.items()}
KINDS = [('is_linear', False), ('is_nonlinear', False), ('is_differential', False), ('is_linear', True), ('is_nonlinear', True)]


def expect(op, fa, ka, fb, kb):
    m = max(RANK[fa], RANK[fb])
    if op in '+-':
        return BY[m]
    if op == '*':
        if ka and kb:
            return None
        if kb:
            return fa
        if ka:
            return fb
        return BY[max(m, 1)]
    if op == '/':
        if kb and ka:
            return None
        if kb:
            return fa
        return BY[max(m, 1)]
    return BY[max(m, 1)]


def flags(s, oid, expr, want, what, at):
    s.equal(oid, '(%s.equation_type["is_linear"], %s.equation_type["is_nonlinear"], %s.equation_type["is_differential"])' % (expr, expr, expr),
            str((want == 'is_linear', want == 'is_nonlinear', want == 'is_differential')), what, at)


def run(an, tier):
    U = 'Unit("d", {})'
    names = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '**': '__pow__'}
    for op, m in names.items():
        for fa, ka in KINDS:
            for fb, kb in KINDS:
                w = expect(op, fa, ka, fb, kb)
                if w is None or (op == '**' and ka and kb):
                    continue
                s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', fa, ka, U), node('b', fb, kb, U), op), PRE, **{**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')})
                flags(s, '%s %s %s %s %s' % (fa, 'known' if ka else 'unknown', op, fb, 'known' if kb else 'unknown'), 'r', w, 'classification of a%sb' % op, AT + m)
        # operands with several unknowns
        for fa, ka in KINDS:
            for fb, kb in KINDS:
                w = expect(op, fa, ka, fb, kb)
                if w is None or (op == '**' and ka and kb):
                    continue
                for na, nb in ((2, 1), (1, 2), (2, 2)):
                    if ka and na == 2 or kb and nb == 2:
                        continue
                    s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', fa, ka, U, na), node('b', fb, kb, U, nb), op), PRE, **{**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')})
                    flags(s, '%s %s %s %s %s, %d and %d unknowns' % (fa, 'known' if ka else 'unknown', op, fb, 'known' if kb else 'unknown', na, nb), 'r', w, 'classification of a%sb' % op, AT + m)
        for fa, ka in KINDS:
            for ty in ('int', 'float'):
                inp = {**node_inputs('a', 'num' if ka else 'sym'), 'n': sym('n', ty)}
                s = an.scn('a=%s\nr=a%sn\n' % (node('a', fa, ka, U), op), PRE, **inp)
                flags(s, '%s %s %s %s' % (fa, ka, op, ty), 'r', fa if op != '**' else BY[max(1, RANK[fa])], 'classification of expression%snumber' % op, AT + m)
                if op != '**':
                    if ka and op == '/':
                        continue
                    s = an.scn('a=%s\nr=n%sa\n' % (node('a', fa, ka, U), op), PRE, **inp)
                    flags(s, '%s %s %s %s reflected' % (ty, op, fa, ka), 'r', fa if op != '/' else BY[max(1, RANK[fa])], 'classification of number%sexpression' % op, AT + '__r' + m[2:])
    for f in ('Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan'):
        for fa, ka in KINDS[:3]:
            s = an.scn('a=%s\nr=eo.%s(a)\n' % (node('a', fa, ka, U), f), PRE, **node_inputs('a'))
            flags(s, '%s of %s' % (f, fa), 'r', BY[max(1, RANK[fa])], 'classification of ' + f, 'core.equation_operators:' + f)
    for f in ('Min', 'Max'):
        for fa, _ in KINDS[:3]:
            for fb, _ in KINDS[:3]:
                for args in ('a,b', 'a,n,b', 'n,a', 'b,n'):
                    s = an.scn('a=%s\nb=%s\nr=eo.%s(%s)\n' % (node('a', fa, False, U), node('b', fb, False, U), f, args), PRE, **{**node_inputs('a'), **node_inputs('b'), 'n': num('n')})
                    m = max([RANK[fa]] * ('a' in args) + [RANK[fb]] * ('b' in args))
                    flags(s, '%s(%s) %s %s' % (f, args, fa, fb), 'r', BY[max(1, m)], 'classification of ' + f, 'core.equation_operators:' + f)
    # real quantities, and the kind recorded by equations
    pre = PRE + '''
from src.sloth.core.equation import Equation
from src.sloth.core.domain import Domain
x=Variable("x", tu.dimless, "")
y=Variable("y", tu.dimless, "")
z=Variable("z", tu.m, "")
t=Variable("t", tu.s, "")
d=Domain("d","",t)
z.distributeOnDomain(d)
x.distributeOnDomain(d)
p=Parameter("p", tu.dimless, "")
p.setValue(pv)
k=Constant("k", tu.s, "")
k.setValue(kv)
'''
    L, N, D = 'linear', 'nonlinear', 'differential'
    for e, w in (('x()', L), ('2*x()', L), ('x()*p()', L), ('p()*x()', L), ('x()/p()', L), ('x()+y()', L), ('x()-2.0', L), ('2.0-x()', L), ('x()/3', L), ('p()*(x()-y())', L),
                 ('x()*y()', N), ('x()/y()', N), ('p()/x()', N), ('1/x()', N), ('x()**2', N), ('x()**p()', N), ('eo.Exp(x())', N), ('eo.Log(x())+y()', N), ('x()-eo.Min(x(),y())', N),
                 ('p()*x()*y()', N), ('x()*x()', N), ('(x()+y())*x()', N), ('p()/x()+y()', N), ('2*eo.Sin(x())-y()', N),
                 ('x.Diff(t)', D), ('2*x.Diff(t)', D), ('x.Diff(t)*k()', D), ('k()*x.Diff(t)-x()', D), ('y()*x.Diff(t)', D), ('x.Diff(t)*y()', D), ('x.Diff(t)/y()', D), ('x.Diff(t)*x.Diff(t)', D),
                 ('1/x.Diff(t)', D), ('x.Diff(t)**2', D), ('x()*x()+k()*x.Diff(t)', D), ('k()*x.Diff(t)+eo.Exp(x())', D), ('z.Diff(t)', D), ('eo.Exp(k()*x.Diff(t))', D), ('x()**(k()*x.Diff(t))', D),
                 ('eo.Min(k()*x.Diff(t), x())', D), ('-1*z.Diff(t)', D), ('p()/ (k()*x.Diff(t))', D)):
        src = 'r=%s\n' % e
        s = an.scn(src, pre, pv=num('pv'), kv=num('kv'))
        flags(s, 'expression ' + e, 'r', 'is_' + w, 'classification of ' + e.replace('()', ''), AT + '__mul__')
    kx = {'x()*k()': 's', 'k()*x.Diff(t)': ''}
    for a, b, w in (('x()', 'p()*y()', L), ('x()', '2.0', L), ('x()', 'y()*x()', N), ('eo.Exp(x())', 'y()', N), ('k()*x.Diff(t)', 'y()', D), ('y()', 'k()*x.Diff(t)', D), ('k()*x.Diff(t)', '0.0', D),
                    ('k()*x.Diff(t)', 'y()*x()', D), ('x()*y()', '1.5', N), ('x()*y()', 'k()*x.Diff(t)', D),
                    ('eo.Exp(p())', '2.0', N), ('p()', '2.0', L), ('p()**2', 'p()', N), ('eo.Exp(p())', 'x()', N), ('p()', 'x()*y()', N)):
        for form in ('e=Equation("e","",fast_expr=(%s == %s))', 'e=Equation("e","")\ne.setResidual(%s == %s)', 'e=Equation("e","")\ne.setResidual(%s - %s)', 'e=Equation("e","",fast_expr=(%s - %s))'):
            s = an.scn(form % (a, '(%s)' % b) + '\n', pre, pv=num('pv'), kv=num('kv'))
            s.equal('equation type %s = %s, %s' % (a, b, form), 'e.type', const(w), 'kind of the equation %s = %s' % (a, b), 'core.equation:Equation._getTypeFromExpression')
        # whatever the equation stated before
        for first in ('x() == y()', 'x()*y() == 2.0', 'k()*x.Diff(t) == y()', 'eo.Exp(x()) - y()'):
            for form in ('%s == %s', '%s - %s'):
                s = an.scn('e=Equation("e","",fast_expr=(%s))\nwas=e.type\nheld=e()\ne.setResidual(%s)\n' % (first, form % (a, '(%s)' % b)), pre, pv=num('pv'), kv=num('kv'))
                s.equal('equation type %s after %s' % (form % (a, b), first), 'e.type', const(w), 'kind of an equation declared anew as %s' % (form % (a, b)), 'core.equation:Equation._getTypeFromExpression')
