from .common import *

RULE = ('units are vectors of seven exponents: product adds, quotient subtracts, power scales each exponent, '
        'operands keep their own exponents and results share no state with them; a unit times/over a number is a quantity with that unit and value n resp. 1/n')
AT = 'core.unit:Unit.'


def run(an, tier):
    algebra(an, unit)
    record = an.record
    an.record = lambda oid, *a, **k: record('named: ' + oid, *a, **k)
    try:
        algebra(an, lambda p: unit(p, p))
    finally:
        an.record = record


def algebra(an, unit):
    inp = dim_inputs('u', 'v', 'w')
    inp['n'] = num('n')
    s = an.scn('u=%s\nv=%s\np=u*v\nq=u/v\n' % (unit('u'), unit('v')), PRE, **inp)
    s.completes('unit mul div completes', 'product and quotient of two units', [AT + '__mul__', AT + '__truediv__'])
    for d in DIMS:
        s.equal('unit product %s' % d, 'p.dimension["%s"]' % d, 'u_%s + v_%s' % (d, d), 'exponent %s of a product of units' % d, AT + '__mul__')
        s.equal('unit quotient %s' % d, 'q.dimension["%s"]' % d, 'u_%s - v_%s' % (d, d), 'exponent %s of a quotient of units' % d, AT + '__truediv__')
        for o in 'uv':
            s.equal('operand %s exponent %s kept' % (o, d), '%s.dimension["%s"]' % (o, d), '%s_%s' % (o, d), 'operand of product/quotient unchanged', [AT + '__mul__', AT + '__truediv__'])
    s.equal('product has seven exponents', 'set(p.dimension) == {%s}' % ','.join(repr(d) for d in DIMS), const(True), 'base dimensions of a product', AT + '__mul__')
    # associativity / cancellation on three units, nested use
    s = an.scn('u=%s\nv=%s\nw=%s\na=(u*v)/w\nb=u*(v/w)\nc=(u/v)*v\n' % (unit('u'), unit('v'), unit('w')), PRE, **inp)
    for d in DIMS:
        s.equal('unit (u*v)/w %s' % d, 'a.dimension["%s"]' % d, 'u_%s + v_%s - w_%s' % (d, d, d), 'nested unit algebra', [AT + '__mul__', AT + '__truediv__'])
        s.equal('unit u*(v/w) %s' % d, 'b.dimension["%s"]' % d, 'u_%s + v_%s - w_%s' % (d, d, d), 'nested unit algebra', [AT + '__mul__', AT + '__truediv__'])
        s.equal('unit (u/v)*v %s' % d, 'c.dimension["%s"]' % d, 'u_%s' % d, 'cancellation', [AT + '__mul__', AT + '__truediv__'])
    for ty in ('int', 'float'):
        i2 = dict(inp)
        i2['n'] = sym('n', ty)
        s = an.scn('u=%s\nr=u**n\n' % unit('u'), PRE, **i2)
        s.completes('unit power %s completes' % ty, 'power of a unit', AT + '__pow__')
        for d in DIMS:
            s.equal('unit power %s %s' % (ty, d), 'r.dimension["%s"]' % d, 'u_%s * n' % d, 'exponent %s of a power of a unit' % d, AT + '__pow__')
            s.equal('unit power operand %s %s' % (ty, d), 'u.dimension["%s"]' % d, 'u_%s' % d, 'operand of a power unchanged', AT + '__pow__')
        s = an.scn('u=%s\nq=u*n\n' % unit('u'), PRE, **i2)
        s.completes('unit times %s' % ty, 'unit times a number', AT + '__mul__')
        s.equal('unit times %s value' % ty, 'q.value', 'n', 'value of unit*n', AT + '__mul__')
        for d in DIMS:
            s.equal('unit times %s dim %s' % (ty, d), 'q.units.dimension["%s"]' % d, 'u_%s' % d, 'unit of unit*n', AT + '__mul__')
        s = an.scn('u=%s\nq=u/n\n' % unit('u'), PRE, _assume=None, **i2)
        s.equal('unit over %s value' % ty, 'q.value', '1.0 / n', 'value of unit/n', AT + '__truediv__')
        for d in DIMS:
            s.equal('unit over %s dim %s' % (ty, d), 'q.units.dimension["%s"]' % d, 'u_%s' % d, 'unit of unit/n', AT + '__truediv__')
    # partial dictionaries, unit given as a unit
    s = an.scn('u=Unit("u", {"kg": u_kg, "s": u_s})\nw=Unit("w", u)\n', PRE, **inp)
    for d in DIMS:
        s.equal('partial unit %s' % d, 'u.dimension["%s"]' % d, 'u_%s' % d if d in ('kg', 's') else '0', 'exponents not given are zero', AT + '__init__')
        s.equal('unit from unit %s' % d, 'w.dimension["%s"]' % d, 'u_%s' % d if d in ('kg', 's') else '0', 'unit defined from a unit', AT + '__init__')
    # no shared state
    # the table given by the caller stays the caller's
    for how in ('dict', 'OrderedDict'):
        for full in (True, False):
            tab = ', '.join('("%s", u_%s)' % (d, d) for d in (DIMS if full else DIMS[:3]))
            s = an.scn('from collections import OrderedDict\nt=%s([%s])\nu=Unit("u", t)\nv=Unit("v", t)\nt["m"]=t["m"]+1\nt["s"]=7\nv.dimension["kg"]=v.dimension["kg"]+1\nw=u*v\n' % (how, tab), PRE, **inp)
            for d in DIMS:
                s.equal('unit from the %s of a caller, %s given: %s' % (how, 'all' if full else 'some', d), 'u.dimension["%s"]' % d, 'u_%s' % d if full or d in DIMS[:3] else '0', 'unit unchanged by what happens to the table it was given', AT + '__init__')
            s.holds('table %s of a caller, %s given, comes back' % (how, 'all' if full else 'some'), '(list(t), t["kg"]) == (%r, u_kg)' % (list(DIMS if full else DIMS[:3]) + ([] if 's' in (DIMS if full else DIMS[:3]) else ['s']),), 'the table given by the caller is not changed', AT + '__init__')
    for op, txt in (('u*v', 'product'), ('u/v', 'quotient'), ('u**2', 'power'), ('Unit("x", u)', 'copy')):
        s = an.scn('u=%s\nv=%s\nr=%s\nk=dict(r.dimension)\nu.dimension["m"]=u.dimension["m"]+1\nv.dimension["s"]=v.dimension["s"]+1\n' % (unit('u'), unit('v'), op), PRE, **inp)
        for d in DIMS:
            s.equal('independent %s %s' % (txt, d), 'r.dimension["%s"]' % d, 'k["%s"]' % d, 'the %s shares its exponents with an operand' % txt, AT + ('__pow__' if op == 'u**2' else '__mul__'))
        s = an.scn('u=%s\nv=%s\nr=%s\nr.dimension["m"]=r.dimension["m"]+1\n' % (unit('u'), unit('v'), op), PRE, **inp)
        s.equal('independent operand of %s' % txt, 'u.dimension["m"]', 'u_m', 'changing the %s changes an operand' % txt, AT + '__mul__')
    s = an.scn('u=Unit("u",{"m":1})\nu2=Unit("u2",{})\nu.dimension["kg"]=5\nu3=Unit("u3",{})\nv=u2*u3\n', PRE)
    for d in DIMS:
        s.equal('fresh units independent %s' % d, 'v.dimension["%s"]' % d, '0', 'units created from nothing are independent', AT + '__init__')
    # dimensionless unit as exponent; other types rejected
    s = an.scn('u=%s\nv=%s\nr=u**v\n' % (unit('u'), unit('v')), PRE, **inp)
    s.exits('unit power unit', dimless('v'), 'UnexpectedValueError', 'power with a unit as exponent', AT + '__pow__')
    for op in ('u*x', 'u/x', 'u**x'):
        for xs in ('"a"', 'None', '[1]'):
            s = an.scn('u=%s\nx=%s\nr=%s\n' % (unit('u'), xs, op), PRE, **inp)
            s.rejects('unit %s with x=%s' % (op, xs), 'UnexpectedValueError', 'operand of another type', AT + '__mul__')
    # quantities
    base = 'a=%s("a", %s, value=va)\nb=%s("b", %s, value=vb)\n'
    qi = dict(inp)
    qi['va'], qi['vb'] = num('va'), num('vb')
    Q = 'core.quantity:Quantity.'
    for cls in ('Quantity', 'Constant', 'Parameter', 'Variable'):
        src = '%s("%s", %s)\n%s.setValue(%s)\n'
        mk = 'a=' + src % (cls, 'a', unit('u'), 'a', 'va') + 'b=' + src % (cls, 'b', unit('v'), 'b', 'vb')
        for op, us, vs, at in (('a*b', 'u_{d}+v_{d}', 'va*vb', '__mul__'), ('a/b', 'u_{d}-v_{d}', 'va/vb', '__truediv__')):
            s = an.scn(mk + 'r=%s\n' % op, PRE, **qi)
            oid = '%s %s' % (cls, op)
            s.equal(oid + ' value', 'r.value', vs, 'value of %s' % op, Q + at)
            for d in DIMS:
                s.equal(oid + ' dim ' + d, 'r.units.dimension["%s"]' % d, us.format(d=d), 'unit of %s' % op, Q + at)
        for op, sg in (('a+b', '+'), ('a-b', '-')):
            s = an.scn(mk + 'r=%s\n' % op, PRE, **qi)
            oid = '%s %s' % (cls, op)
            s.exits(oid + ' coherence', coherent('u', 'v'), 'DimensionalCoherenceError', '%s of quantities' % op, Q + '__add__')
            s.equal(oid + ' value', 'r.value', 'va%svb' % sg, 'value of %s' % op, Q + '__add__')
            for d in DIMS:
                s.equal(oid + ' dim ' + d, 'r.units.dimension["%s"]' % d, 'u_' + d, 'unit of %s' % op, Q + '__add__')
        s = an.scn(mk + 'r=a**b\n', PRE, **qi)
        s.exits('%s a**b' % cls, dimless('v'), 'DimensionalCoherenceError', 'power of quantities', Q + '__pow__')
        s.equal('%s a**b value' % cls, 'r.value', 'va**vb', 'value of a power', Q + '__pow__')
        for d in DIMS:
            s.equal('%s a**b dim %s' % (cls, d), 'r.units.dimension["%s"]' % d, 'u_%s*vb' % d, 'unit of a power', Q + '__pow__')
