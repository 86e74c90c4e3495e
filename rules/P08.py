from .common import *

RULE = 'the objects and the unknowns of a compound expression are exactly the union of those of its operands (numbers add none), for every operator and function'
NESTED = True
AT = 'core.expression_evaluation:EquationNode.'


def umap(*ps, known=()):
    return '{**%s}' % ', **'.join('{%s_key: %s_obj, %s_key2: %s_obj2}' % (p, p, p, p) for p in ps)


def vmap(*ps):
    return '{%s}' % ', '.join('%s_key: %s_obj' % (p, p) for p in ps)


# whatever the listed quantities are like when the expression is built (an operand keeps what it was built with)
FIELDS = ('.is_specified', '.value', '.name', '.units', '.owner_model_name', '.domain')


def eq(s, oid, got, spec, what, at):
    s.equal(oid, got, spec, what, at, vocab=FIELDS)


def run(an, tier):
    U = 'Unit("d", {})'
    for op, m in (('+', '__add__'), ('-', '__sub__'), ('*', '__mul__'), ('/', '__truediv__'), ('**', '__pow__')):
        for ka in (False, True):
            for kb in (False, True):
                inp = {**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')}
                oid = '%s%s%s' % ('known' if ka else 'unknown', op, 'known' if kb else 'unknown')
                s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', known=ka, unit_src=U), node('b', known=kb, unit_src=U), op), PRE, **inp)
                eq(s, oid + ' objects', 'r.symbolic_map', umap('a', 'b'), 'objects of a%sb' % op, AT + m)
                eq(s, oid + ' unknowns', 'r.variable_map', vmap(*([] if ka else ['a']) + ([] if kb else ['b'])), 'unknowns of a%sb' % op, AT + m)
        # overlapping operands
        inp = {**node_inputs('a'), **node_inputs('b'), **node_inputs('c')}
        s = an.scn('a=%s\nb=%s\nc=a*b\nr=c%sa\nq=a%sc\n' % (node('a', unit_src=U), node('b', unit_src=U), op, op), PRE, **inp)
        for r in 'rq':
            eq(s, 'overlapping %s %s objects' % (r, op), r + '.symbolic_map', umap('a', 'b'), 'objects when operands overlap', AT + m)
            eq(s, 'overlapping %s %s unknowns' % (r, op), r + '.variable_map', vmap('a', 'b'), 'unknowns when operands overlap', AT + m)
        for ty in ('int', 'float'):
            for ex in ('a%sn' % op,) + (('n%sa' % op,) if op != '**' else ()):
                s = an.scn('a=%s\nr=%s\n' % (node('a', unit_src=U), ex), PRE, **{**node_inputs('a'), 'n': sym('n', ty)})
                eq(s, '%s %s objects' % (ex, ty), 'r.symbolic_map', umap('a'), 'objects of %s' % ex, AT + m)
                eq(s, '%s %s unknowns' % (ex, ty), 'r.variable_map', vmap('a'), 'unknowns of %s' % ex, AT + m)
    for f in ('Log', 'Log10', 'Sqrt', 'Abs', 'Exp', 'Sin', 'Cos', 'Tan'):
        for k in (False, True):
            s = an.scn('a=%s\nr=eo.%s(a)\n' % (node('a', known=k, unit_src=U), f), PRE, **node_inputs('a', 'num' if k else 'sym'))
            eq(s, '%s objects %s' % (f, k), 'r.symbolic_map', umap('a'), 'objects of ' + f, 'core.equation_operators:' + f)
            eq(s, '%s unknowns %s' % (f, k), 'r.variable_map', '{}' if k else vmap('a'), 'unknowns of ' + f, 'core.equation_operators:' + f)
    for f in ('Min', 'Max'):
        for args in ('a,b,c', 'a,n,b', 'n,a', 'a,b,a'):
            for kn in ('', 'a', 'b'):
                used = [x for x in 'abc' if x in args]
                s = an.scn(''.join('%s=%s\n' % (x, node(x, known=x in kn, unit_src=U)) for x in 'abc') + 'r=eo.%s(%s)\n' % (f, args), PRE,
                           **{**node_inputs('a'), **node_inputs('b'), **node_inputs('c'), 'n': num('n')})
                eq(s, '%s(%s) objects %s' % (f, args, kn), 'r.symbolic_map', umap(*used), 'objects of ' + f, 'core.equation_operators:' + f)
                eq(s, '%s(%s) unknowns %s' % (f, args, kn), 'r.variable_map', vmap(*[x for x in used if x not in kn]), 'unknowns of ' + f, 'core.equation_operators:' + f)
    # whole expressions of real quantities
    s = an.scn('''
x=Variable(xn, tu.dimless, "")
y=Variable(yn, tu.dimless, "")
p=Parameter(pn, tu.dimless, "")
p.setValue(pv)
k=Constant(kn, tu.dimless, "")
r=2*x()*p() - eo.Exp(y()/k())**2 + eo.Min(p(), x(), 3.0)
lhs=(r==x())[0]
rhs=(r==x())[1]
''', PRE, xn=strsym('xn'), yn=strsym('yn'), pn=strsym('pn'), kn=strsym('kn'), pv=num('pv'))
    eq(s, 'expression objects', 'r.symbolic_map', '{xn: x, yn: y, pn: p, kn: k}', 'objects of a whole expression', AT + '__add__')
    eq(s, 'expression unknowns', 'r.variable_map', '{xn: x, yn: y, kn: k}', 'unknowns of a whole expression', AT + '__add__')
    s.holds('sides of ==', 'lhs is r', 'left side of ==', AT + '__eq__')
    eq(s, 'sides of == right', 'rhs.symbolic_map', '{xn: x}', 'right side of ==', AT + '__eq__')
    # operands of the same name, the same operand twice, and objects known in one operand and unknown in the other
    for op, m in (('+', '__add__'), ('-', '__sub__'), ('*', '__mul__'), ('/', '__truediv__'), ('**', '__pow__')):
        s = an.scn('a=%s\nr=a%sa\n' % (node('a', unit_src=U), op), PRE, **node_inputs('a'))
        eq(s, 'same operand %s objects' % op, 'r.symbolic_map', umap('a'), 'objects of a%sa' % op, AT + m)
        eq(s, 'same operand %s unknowns' % op, 'r.variable_map', vmap('a'), 'unknowns of a%sa' % op, AT + m)
        s = an.scn('a=%s\nb=%s\nb.name=a.name\nr=a%sb\n' % (node('a', unit_src=U), node('b', unit_src=U), op), PRE, **{**node_inputs('a'), **node_inputs('b')})
        eq(s, 'operands of one name %s objects' % op, 'r.symbolic_map', umap('a', 'b'), 'objects of a%sb' % op, AT + m)
        eq(s, 'operands of one name %s unknowns' % op, 'r.variable_map', vmap('a', 'b'), 'unknowns of a%sb' % op, AT + m)
        s = an.scn('x=Variable(xn, tu.dimless, "")\ny=Variable(yn, tu.dimless, "")\na=x()\nb=y()\nx.setValue(v)\nk=x()\nr=a%sk\nq=k%sa\nt=(a*b)%sk\nw=k%s(a*b)\nz=(k*b)%sa\nzz=a%s(k*b)\n' % ((op,) * 6), PRE,
                   xn=strsym('xn'), yn=strsym('yn'), v=num('v'))
        for r, ns in (('r', 'xn: x'), ('q', 'xn: x'), ('t', 'xn: x, yn: y'), ('w', 'xn: x, yn: y'), ('z', 'xn: x, yn: y'), ('zz', 'xn: x, yn: y')):
            eq(s, 'known and unknown at once %s %s unknowns' % (r, op), r + '.variable_map', '{%s}' % ns, 'unknowns when an operand holds a quantity as unknown and the other as known', AT + m)
            eq(s, 'known and unknown at once %s %s objects' % (r, op), r + '.symbolic_map', '{%s}' % ns, 'objects when an operand holds a quantity as unknown and the other as known', AT + m)
    for f in ('Min', 'Max'):
        for args in ('a,k', 'k,a', 'k,a*b', 'a*b,k', 'a,a', 'k,1.0,a'):
            s = an.scn('x=Variable(xn, tu.dimless, "")\ny=Variable(yn, tu.dimless, "")\na=x()\nb=y()\nx.setValue(v)\nk=x()\nr=eo.%s(%s)\n' % (f, args), PRE, xn=strsym('xn'), yn=strsym('yn'), v=num('v'))
            for g in ('symbolic_map', 'variable_map'):
                eq(s, 'known and unknown at once %s(%s) %s' % (f, args, g), 'r.' + g, '{xn: x%s}' % (', yn: y' if 'b' in args else ''), 'members that hold a quantity as unknown and as known', 'core.equation_operators:' + f)
    # quantities specified after their nodes were made, before the nodes are combined
    for op, m in (('+', '__add__'), ('-', '__sub__'), ('*', '__mul__'), ('/', '__truediv__'), ('**', '__pow__')):
        s = an.scn('x=Variable(xn, tu.dimless, "")\ny=Variable(yn, tu.dimless, "")\na=x()\nb=y()\nx.setValue(v)\nr=a%sb\nq=b%sa\nx.setValue(v+1)\ny.setValue(v)\nt=2*r\n' % (op, op), PRE,
                   xn=strsym('xn'), yn=strsym('yn'), v=num('v'))
        for r in 'rqt':
            eq(s, 'specified meanwhile %s %s unknowns' % (r, op), r + '.variable_map', '{xn: x, yn: y}', 'unknowns when a quantity got its value after its node was made', AT + m)
            eq(s, 'specified meanwhile %s %s objects' % (r, op), r + '.symbolic_map', '{xn: x, yn: y}', 'objects when a quantity got its value after its node was made', AT + m)
    # nothing is remembered from one derivative, node or expression to the next: objects of one name, the same object again, other domains
    D = """from src.sloth.core.domain import Domain
t=Variable(tn, tu.dimless, "")
z=Variable(zn, tu.dimless, "")
x=Variable(xn, tu.dimless, "")
y=Variable(xn, tu.m, "")
x.distributeOnDomain(Domain("d", "", t))
y.distributeOnDomain(Domain("d", "", t))
"""
    two = dict(tn=strsym('tn'), zn=strsym('zn'), xn=strsym('xn'), v=num('v'))
    for first, second, want in (('x.Diff(t)', 'y.Diff(t)', '{xn: y}'), ('x()', 'y()', '{xn: y}'), ('x()*2', 'y()*2', '{xn: y}'), ('eo.Abs(x()/x())', 'eo.Abs(y()/y())', '{xn: y}'),
                                ('x.Diff(t)+1', 'y.Diff(t)+1', '{xn: y}'), ('x.Diff(t)', 'x()', '{xn: x}'), ('x()', 'x.Diff(t)', '{xn: x}'), ('x.Diff(t)', 'x.Diff(t)', '{xn: x}')):
        s = an.scn(D + 'a=%s\nr=%s\n' % (first, second), PRE, **two)
        for g in ('symbolic_map', 'variable_map'):
            eq(s, '%s, then %s of the same name: %s' % (first, second, g), 'r.' + g, want, 'objects of an expression made after one of another object of the same name', 'core.variable:Variable.Diff')
    for e in ('x()', 'y()*x()/y()', 'x.Diff(t)'):
        s = an.scn(D + 'a=%s\nx.setValue(v)\nr=%s\n' % (e, e), PRE, **two)
        eq(s, '%s before and after a value: unknowns' % e, 'a.variable_map', '{xn: x}' if 'y' not in e else '{xn: a.variable_map[xn]}', 'unknowns of an expression made before its quantity had a value', 'core.quantity:Quantity.__call__')
