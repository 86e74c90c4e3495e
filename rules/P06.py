from .common import *

RULE = ('using a quantity in an expression: without a value it contributes its own symbol and is the only unknown; with a value it contributes that value, '
        'is no unknown, but stays listed and printed under its name; earlier expressions keep what they were built with')
CLS = {'Quantity': 'core.quantity', 'Constant': 'core.constant', 'Parameter': 'core.parameter', 'Variable': 'core.variable'}


def run(an, tier):
    at = 'core.quantity:Quantity.__call__'
    for cls in CLS:
        inp = {**dim_inputs('u'), 'nm': strsym('nm'), 'v': num('v'), 'v2': num('v2'), 'lt': strsym('lt')}
        mk = 'q=%s(nm, %s, "d", latex_text=lt)\n' % (cls, unit('u'))

        def common(s, oid, e, known, val):
            s.completes(oid, 'quantity used in an expression', at)
            s.equal(oid + ' symbol', e + '.symbolic_object', val if known else 'sp.symbols(nm)', 'symbolic content of a quantity', at)
            s.equal(oid + ' printed form', e + '.repr_symbolic', 'sp.symbols(nm)', 'printed form of a quantity', at)
            s.equal(oid + ' repr', 'repr(%s)' % e, 'nm', 'printed form of a quantity', at)
            s.equal(oid + ' name', e + '.name', 'nm', 'name of the expression of a quantity', at)
            s.equal(oid + ' latex', e + '.latex_text', 'lt', 'latex text of the expression', at)
            s.equal(oid + ' objects', e + '.symbolic_map', '{nm: q}', 'objects used by the expression', at)
            s.equal(oid + ' unknowns', e + '.variable_map', '{}' if known else '{nm: q}', 'unknowns of the expression', at)
            s.equal(oid + ' linear', '(%s.equation_type["is_linear"], %s.equation_type["is_nonlinear"], %s.equation_type["is_differential"])' % (e, e, e),
                    '(True, False, False)', 'classification of a lone quantity', at)
            for d in DIMS:
                s.equal(oid + ' dim ' + d, '%s.unit_object.dimension["%s"]' % (e, d), 'u_' + d, 'unit of the expression of a quantity', at)

        P = PRE + 'import sympy as sp\n'
        s = an.scn(mk + 'e=q()\ne2=q()\n', P, **inp)
        common(s, cls + ' without value', 'e', False, None)
        common(s, cls + ' without value, second use', 'e2', False, None)
        s = an.scn(mk + 'q.setValue(v)\ne=q()\n', P, **inp)
        common(s, cls + ' with value', 'e', True, 'v')
        s = an.scn(mk + 'e=q()\nq.setValue(v)\nf=q()\nq.setValue(v2)\ng=q()\n', P, **inp)
        common(s, cls + ' earlier use', 'e', False, None)
        common(s, cls + ' first value', 'f', True, 'v')
        common(s, cls + ' second value', 'g', True, 'v2')
        s = an.scn(mk + 'q2=%s(nm2, %s, "d", latex_text=lt)\nq.setValue(v)\ne2=q2()\ne=q()\n' % (cls, unit('u')), P, **{**inp, 'nm2': strsym('nm2')})
        common(s, cls + ' among others', 'e', True, 'v')
        s.equal(cls + ' other unknowns', 'e2.variable_map', '{nm2: q2}', 'unknowns of another quantity', at)
        s.equal(cls + ' other symbol', 'e2.symbolic_object', 'sp.symbols(nm2)', 'symbol of another quantity', at)
        s = an.scn(mk + 'e=q()\ne.symbolic_map[nm2]=1\ne.variable_map[nm2]=1\nf=q()\n', P, **{**inp, 'nm2': strsym('nm2')})
        common(s, cls + ' independent uses', 'f', False, None)
    # parameters and constants declared with a value
    for cls in ('Parameter',):
        s = an.scn('q=%s(nm, %s, "d", value=v, is_specified=True)\ne=q()\n' % (cls, unit('u')), PRE, nm=strsym('nm'), v=num('v'), **dim_inputs('u'))
        s.equal(cls + ' declared with a value', 'e.symbolic_object', 'v', 'value given at creation', at)
        s.equal(cls + ' declared with a value unknowns', 'e.variable_map', '{}', 'value given at creation', at)
    # a derivative uses its variable like any expression: by the value it has when the derivative is made
    s = an.scn('from src.sloth.core.domain import Domain\nt=Variable("t", Unit("d", {}), "")\nx=Variable(nm, Unit("d", {}), "")\nx.distributeOnDomain(Domain("d", "", t))\n'
               'a=x.Diff(t)\nx.setValue(v)\nb=x.Diff(t)\n', PRE, nm=strsym('nm'), v=num('v'))
    for e, want in (('a', '{nm: x}'), ('b', '{}')):
        s.equal('derivative %s a value' % ('before' if e == 'a' else 'after'), '(%s.variable_map, %s.symbolic_map)' % (e, e), '(%s, {nm: x})' % want, 'unknowns and objects of a derivative', 'core.equation_operators:_Diff')
