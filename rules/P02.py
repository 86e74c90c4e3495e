from .common import *

RULE = ('additions, subtractions, Min/Max members and equation sides complete exactly when all seven unit exponents agree '
        '(otherwise the coherence error), and the result carries the common unit; a plain number never changes the unit')


def same_dims(s, oid, expr, p, what, at, when=None):
    for d in DIMS:
        s.equal('%s dim %s' % (oid, d), '%s.dimension["%s"]' % (expr, d), '%s_%s' % (p, d), what, at, when=when)


def run(an, tier):
    u2 = dim_inputs('u', 'v')
    # the names of units say nothing about their dimensions: two units of one name may be incoherent, two of different names coherent
    for na, nb in (('k', 'k'), ('k', 'l')):
        for e in ('u+v', 'v-u', 'EquationNode(unit_object=u, symbolic_object=sa, repr_symbolic=sa)+EquationNode(unit_object=v, symbolic_object=sb, repr_symbolic=sb)', 'Equation("e", "", fast_expr=(x() == y()))',
                  'Equation("e", "", fast_expr=(y() - x()))', 'p+q', 'q-p'):
            s = an.scn('from src.sloth.core.equation import Equation\nu=%s\nv=%s\nx=Variable("x", u, "")\ny=Variable("y", v, "")\np=Quantity("p", u, "", 1.0)\nq=Quantity("q", v, "", 2.0)\nr=%s\n' % (unit('u', na), unit('v', nb), e), PRE,
                       sa=syms('sa'), sb=syms('sb'), **u2)
            s.exits('units named %s and %s: %s' % (na, nb, e), coherent('u', 'v'), 'DimensionalCoherenceError', 'coherence of units that have names', 'core.unit:Unit._check_dimensional_coherence')
        s = an.scn('u=%s\nv=%s\nq=Parameter("q", u, "")\nq.setValue(1.5, v)\n' % (unit('u', na), unit('v', nb)), PRE, **u2)
        s.exits('units named %s and %s: setValue' % (na, nb), coherent('u', 'v'), ('UnexpectedValueError', 'DimensionalCoherenceError'), 'coherence of units that have names', 'core.unit:Unit._check_dimensional_coherence')
        s = an.scn('u=%s\nv=%s\na=%s\nb=%s\nr=eo.Min(a,b)\n' % (unit('u', na), unit('v', nb), node('a', unit_src='u'), node('b', unit_src='v')), PRE, **{**node_inputs('a'), **node_inputs('b'), **u2})
        s.exits('units named %s and %s: Min' % (na, nb), coherent('u', 'v'), 'UnexpectedValueError', 'coherence of units that have names', 'core.unit:Unit._check_dimensional_coherence')
    for op in '+-':
        s = an.scn('u=%s\nv=%s\nr=u%sv\n' % (unit('u'), unit('v'), op), PRE, **u2)
        at = 'core.unit:Unit.' + ('__add__' if op == '+' else '__sub__')
        s.exits('unit %s unit' % op, coherent('u', 'v'), 'DimensionalCoherenceError', 'units under %s' % op, at)
        same_dims(s, 'unit %s unit' % op, 'r', 'u', 'unit under %s' % op, at)
    at = 'core.expression_evaluation:EquationNode.'
    for ka in (False, True):
        for kb in (False, True):
            inp = {**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')}
            for op, m in (('+', '__add__'), ('-', '__sub__')):
                s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', known=ka), node('b', known=kb), op), PRE, **inp)
                oid = 'expression %s%s%s' % ('known' if ka else 'unknown', op, 'known' if kb else 'unknown')
                s.exits(oid, coherent('a', 'b'), 'DimensionalCoherenceError', 'two expressions under %s' % op, at + m)
                same_dims(s, oid, 'r.unit_object', 'a', 'unit of a %s of expressions' % ('sum' if op == '+' else 'difference'), at + m)
    for ty in ('int', 'float'):
        inp = {**node_inputs('a'), 'n': sym('n', ty)}
        for op, m in (('a+n', '__add__'), ('a-n', '__sub__'), ('n+a', '__radd__'), ('n-a', '__rsub__'), ('a*n', '__mul__'), ('n*a', '__rmul__'), ('a/n', '__truediv__')):
            s = an.scn('a=%s\nr=%s\n' % (node('a'), op), PRE, **inp)
            s.completes('expression %s %s' % (op, ty), 'expression with a plain number', at + m, vocab={'raises'})
            same_dims(s, 'expression %s %s' % (op, ty), 'r.unit_object', 'a', 'unit with a plain number operand', at + m)
        s = an.scn('a=%s\nr=n/a\n' % node('a'), PRE, **inp)
        for d in DIMS:
            s.equal('expression n/a %s %s' % (ty, d), 'r.unit_object.dimension["%s"]' % d, '-a_' + d, 'unit of number/expression', at + '__rtruediv__')
    inp = {**node_inputs('a'), **node_inputs('b')}
    for op, f in (('*', 'a_{d}+b_{d}'), ('/', 'a_{d}-b_{d}')):
        for ka, kb in ((False, False), (True, False), (False, True), (True, True)):
            s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', known=ka), node('b', known=kb), op), PRE, **{**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')})
            for d in DIMS:
                s.equal('expression %s%s%s dim %s' % (ka, op, kb, d), 'r.unit_object.dimension["%s"]' % d, f.format(d=d), 'unit of a %s of expressions' % ('product' if op == '*' else 'quotient'), at + ('__mul__' if op == '*' else '__truediv__'))
    # equation sides, both ways of declaring an equation
    for form, ka, kb in [(f, ka, kb) for f in ('eq.setResidual(a == b)', 'eq.setResidual(a - b)', 'eq = Equation("e", "", fast_expr=a == b)') for ka in (False, True) for kb in (False, True)]:
        s = an.scn('from src.sloth.core.equation import Equation\na=%s\nb=%s\neq=Equation("e","")\n%s\n' % (node('a', known=ka), node('b', known=kb), form), PRE,
                   **{**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')})
        form += ' (%s, %s)' % tuple('known' if k else 'unknown' for k in (ka, kb)) if ka or kb else ''
        s.exits('equation ' + form, coherent('a', 'b'), 'DimensionalCoherenceError', 'sides of an equation', 'core.equation:Equation.setResidual')
        same_dims(s, 'equation ' + form, 'eq.equation_expression.unit_object', 'a', 'unit of the residual', 'core.equation:Equation.setResidual')
    s = an.scn('''
from src.sloth.model import Model
class M(Model):
    def __init__(self, name):
        super().__init__(name, "")
        self.x=self.createVariable("x", %s, "")
        self.y=self.createVariable("y", %s, "")
    def DeclareEquations(self):
        self.e=self.createEquation("e", "", self.x() == self.y())
mm=M("M0")
mm()
''' % (unit('u'), unit('v')), PRE, **u2)
    s.exits('model equation', coherent('u', 'v'), 'DimensionalCoherenceError', 'equation declared in a model', 'model:Model.createEquation')
    # Min / Max
    for f in ('Min', 'Max'):
        at = 'core.equation_operators:' + f
        for n in (2, 3):
            names = ['a', 'b', 'c'][:n]
            inp = {}
            for x in names:
                inp.update(node_inputs(x))
            src = ''.join('%s=%s\n' % (x, node(x)) for x in names) + 'r=eo.%s(%s)\n' % (f, ','.join(names))
            s = an.scn(src, PRE, **inp)
            ok = ' and '.join(coherent('a', x) for x in names[1:])
            s.exits('%s of %d expressions' % (f, n), ok, 'UnexpectedValueError', '%s of expressions' % f, at)
            same_dims(s, '%s of %d expressions' % (f, n), 'r.unit_object', 'a', 'unit of ' + f, at)
        for order in ('n,a,b', 'a,n,b', 'a,b,n'):
            inp = {**node_inputs('a'), **node_inputs('b'), 'n': num('n')}
            s = an.scn('a=%s\nb=%s\nr=eo.%s(%s)\n' % (node('a'), node('b'), f, order), PRE, **inp)
            s.exits('%s(%s)' % (f, order), coherent('a', 'b'), 'UnexpectedValueError', '%s of a number and two expressions' % f, at)
            same_dims(s, '%s(%s)' % (f, order), 'r.unit_object', 'a', 'unit of ' + f, at)
        s = an.scn('r=eo.%s(n, k)\n' % f, PRE, n=sym('n', 'int'), k=sym('k', 'float'))
        s.completes('%s of numbers' % f, '%s of plain numbers' % f, at)
        for d in DIMS:
            s.equal('%s of numbers dim %s' % (f, d), 'r.unit_object.dimension["%s"]' % d, '0', '%s of plain numbers' % f, at)
