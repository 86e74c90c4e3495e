from .common import *

RULE = ('transcendental functions accept an expression exactly when its unit is dimensionless (TypeError otherwise), exponents that are expressions '
        'must be dimensionless (coherence error otherwise), powers scale the exponents of the base')
FUNCS = ['Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan']


def run(an, tier):
    for f in FUNCS:
        at = 'core.equation_operators:' + f
        for known in (False, True):
            inp = node_inputs('a', 'num' if known else 'sym')
            s = an.scn('a=%s\nr=eo.%s(a)\n' % (node('a', known=known), f), PRE, **inp)
            oid = '%s of %s expression' % (f, 'a known' if known else 'an unknown')
            s.exits(oid, dimless('a'), 'TypeError', '%s of an expression' % f, [at, 'core.equation_operators:wrapper'])
            for d in DIMS:
                s.equal(oid + ' dim ' + d, 'r.unit_object.dimension["%s"]' % d, '0', 'result is dimensionless', at)
        for ty in ('int', 'float'):
            s = an.scn('r=eo.%s(n)\n' % f, PRE, n=sym('n', ty))
            s.completes('%s of %s' % (f, ty), '%s of a plain number' % f, at)
            for d in DIMS:
                s.equal('%s of %s dim %s' % (f, ty, d), 'r.unit_object.dimension["%s"]' % d, '0', 'result is dimensionless', at)
        for xs in ('"a"', 'None', '[1]'):
            s = an.scn('r=eo.%s(%s)\n' % (f, xs), PRE)
            s.rejects('%s of %s' % (f, xs), 'TypeError', '%s of an object that is no expression' % f, at)
        # through real quantities
        for cls in ('Variable', 'Parameter', 'Constant'):
            for setv in ('', 'q.setValue(v)\n'):
                s = an.scn('q=%s("q", %s, "")\n%sr=eo.%s(q()*q()/q())\n' % (cls, unit('u'), setv, f), PRE, v=num('v'), **dim_inputs('u'))
                s.exits('%s of %s%s' % (f, cls, ' with value' if setv else ''), dimless('u'), 'TypeError', '%s of an expression of a %s' % (f, cls), at, vocab={'raises'})
    # Min and Max: one common unit for all expressions, wherever they stand; numbers are free
    for f in ('Min', 'Max'):
        at = 'core.equation_operators:' + f
        for args in ('abc', 'ab', 'a', 'anb', 'nab', 'abn', 'anbc', 'abcn', 'nanb', 'na', 'abcd'):
            ex = [c for c in args if c != 'n']
            src = ''.join('%s=%s\n' % (c, node(c)) for c in ex) + 'r=eo.%s(%s)\n' % (f, ', '.join(args))
            s = an.scn(src, PRE, n=num('n'), **{k: v for c in ex for k, v in node_inputs(c).items()})
            oid = '%s of %s' % (f, args)
            s.exits(oid, ' and '.join([coherent(ex[0], c) for c in ex[1:]] or ['True']), None, '%s of expressions (letters) and numbers (n)' % f, at, vocab={'raises'})
            if s.st is not None:
                for d in DIMS:
                    s.equal(oid + ' dim ' + d, 'r.unit_object.dimension["%s"]' % d, '%s_%s' % (ex[0], d), 'unit of the result', at)
    E = 'core.expression_evaluation:EquationNode.__pow__'
    for ka in (False, True):
        for kb in ('unknown', 'int', 'float', 'known symbolic'):
            inp = {**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', {'unknown': 'sym', 'known symbolic': 'sym'}.get(kb, kb))}
            s = an.scn('a=%s\nb=%s\nr=a**b\n' % (node('a', known=ka), node('b', known=kb != 'unknown')), PRE, **inp)
            oid = 'power %s**%s' % ('known' if ka else 'unknown', kb)
            s.exits(oid, dimless('b'), 'DimensionalCoherenceError', 'expression as exponent', E)
            if kb in ('int', 'float'):
                for d in DIMS:
                    s.equal(oid + ' dim ' + d, 'r.unit_object.dimension["%s"]' % d, 'a_%s*b_sym' % d, 'unit of a power with a known exponent', E)
    for ty in ('int', 'float'):
        s = an.scn('a=%s\nr=a**n\n' % node('a'), PRE, n=sym('n', ty), **node_inputs('a'))
        s.completes('power with %s' % ty, 'power with a plain number', E)
        for d in DIMS:
            s.equal('power with %s dim %s' % (ty, d), 'r.unit_object.dimension["%s"]' % d, 'a_%s*n' % d, 'unit of a power', E)
    # specified dimensionless quantity as exponent
    for cls in ('Parameter', 'Constant', 'Variable'):
        s = an.scn('x=Variable("x", %s, "")\np=%s("p", %s, "")\np.setValue(v)\nr=x()**p()\n' % (unit('u'), cls, unit('w')), PRE, v=sym('v', 'float'), **dim_inputs('u', 'w'))
        s.exits('power with specified %s' % cls, dimless('w'), 'DimensionalCoherenceError', 'specified quantity as exponent', E)
        for d in DIMS:
            s.equal('power with specified %s dim %s' % (cls, d), 'r.unit_object.dimension["%s"]' % d, 'u_%s*v' % d, 'unit of a power with a specified exponent', E)
