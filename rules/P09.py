from .common import *

RULE = ('building an expression, equation or comparison leaves its operands (their contents, units, objects, unknowns, classification) as they were, '
        'and a result shares none of its tables with an operand or with another result')
NESTED = True
AT = 'core.expression_evaluation:EquationNode.'
SNAP = '({p}.name, {p}.symbolic_object, {p}.repr_symbolic, {p}.symbolic_map, {p}.variable_map, {p}.equation_type, {p}.unit_object.dimension, {p}.latex_text)'


def fields(s, oid, p, flag, at, known=False):
    for f, spec in (('name', p + '_name'), ('symbolic_object', p + '_sym'), ('repr_symbolic', p + '_rep'), ('latex_text', p + '_latex'),
                    ('symbolic_map', '{%s_key: %s_obj, %s_key2: %s_obj2}' % (p, p, p, p)), ('variable_map', '{}' if known else '{%s_key: %s_obj}' % (p, p)),
                    ('equation_type["is_linear"]', str(flag == 'is_linear')), ('equation_type["is_nonlinear"]', str(flag == 'is_nonlinear')),
                    ('equation_type["is_differential"]', str(flag == 'is_differential'))):
        s.equal('%s operand %s %s' % (oid, p, f), '%s.%s' % (p, f), spec, 'operand changed by building an expression', at)
    for d in DIMS:
        s.equal('%s operand %s dim %s' % (oid, p, d), '%s.unit_object.dimension["%s"]' % (p, d), '%s_%s' % (p, d), 'unit of an operand changed', at)


TOUCH = '''
r.symbolic_map["zz"]=zz
r.variable_map["zz"]=zz
r.equation_type["is_linear"]=zz
r.equation_type["is_nonlinear"]=zz
r.equation_type["is_differential"]=zz
r.name=zz
'''


def run(an, tier):
    inp = {**node_inputs('a'), **node_inputs('b'), 'n': num('n'), 'zz': obj('zz')}
    exprs = ['a+b', 'a-b', 'a*b', 'a/b', 'a**b', 'a+n', 'n+a', 'a-n', 'n-a', 'a*n', 'n*a', 'a/n', 'n/a', 'a**n', 'a==b', 'a==n', 'eo.Exp(a)', 'eo.Log10(a)',
             'eo.Abs(a)', 'eo.Min(a, b)', 'eo.Max(a, n, b)', 'Equation("e", "", fast_expr=a==b)', 'Equation("e", "", fast_expr=a==n)', 'Equation("e", "", fast_expr=a)']
    pre = PRE + 'from src.sloth.core.equation import Equation\n'
    for e in exprs:
        at = [AT + '__add__', 'core.equation:Equation.setResidual'] if 'Eq' in e else ['core.equation_operators:wrapper'] if 'eo.' in e else [AT + '__add__']
        for flag, ka, kb in (('is_linear', False, False), ('is_nonlinear', True, False), ('is_differential', False, True)):
            if ka and flag == 'is_differential':
                continue
            s = an.scn('a=%s\nb=%s\nerr=False\ntry:\n    r=%s\nexcept Exception as x:\n    err=True\n' % (node('a', flag, known=ka), node('b', known=kb), e), pre, **inp)
            oid = '%s (%s)' % (e, flag)
            fields(s, oid, 'a', flag, at, ka)
            fields(s, oid, 'b', 'is_linear', at, kb)
            s.equal(oid + ' operand arguments', '(a.args, b.args)', '([], [])', 'argument lists of operands changed by building an expression', at)
    U = 'Unit("d", {})'
    for e in exprs:
        if '==' in e or 'Eq' in e:
            continue
        for ka, kb in ((False, False), (True, False), (False, True)):
            fa = 'is_linear'
            s = an.scn('a=%s\nb=%s\nr0=%s\nr=%s\n%s' % (node('a', known=ka, unit_src=U), node('b', known=kb, unit_src=U), e, e, TOUCH), pre, **inp)
            oid = '%s shares (%s,%s)' % (e, ka, kb)
            at = [AT + '__add__']
            for p, k in (('a', ka), ('b', kb)):
                s.equal('%s %s maps' % (oid, p), '(%s.symbolic_map, %s.variable_map)' % (p, p), '({%s_key: %s_obj, %s_key2: %s_obj2}, %s)' % (p, p, p, p, '{}' if k else '{%s_key: %s_obj}' % (p, p)),
                        'changing the tables of a result changes an operand', at)
                s.equal('%s %s flags' % (oid, p), '(%s.equation_type["is_linear"], %s.equation_type["is_nonlinear"], %s.equation_type["is_differential"])' % (p, p, p), '(True, False, False)',
                        'changing the classification of a result changes an operand', at)
            s.holds('%s other result' % oid, '"zz" not in r0.symbolic_map and "zz" not in r0.variable_map', 'two results share tables', at)
            s.equal('%s default maps' % oid, '(EquationNode().symbolic_map, EquationNode().variable_map)', '({}, {})', 'results share the default tables', at)
    s = an.scn('q=EquationNode(name="q")\nq.symbolic_map["zz"]=zz\nq.variable_map["zz"]=zz\nq.equation_type["is_linear"]=zz\nr=EquationNode(name="r")\n', pre, zz=obj('zz'))
    s.equal('expressions without objects share', '(r.symbolic_map, r.variable_map, r.equation_type["is_linear"])', '({}, {}, True)', 'expressions without objects share tables', 'core.expression_evaluation:EquationNode.__init__')
    s = an.scn('g={xk: xo}\nh={xk: xo}\nq=EquationNode(name="q", symbolic_map=g, variable_map=h)\nq.symbolic_map["zz"]=zz\nq.variable_map["zz"]=zz\n', pre, zz=obj('zz'), xk=strsym('xk'), xo=obj('xo'))
    s.equal('tables given to an expression', '(g, h)', '({xk: xo}, {xk: xo})', 'an expression shares the tables it was built from', 'core.expression_evaluation:EquationNode.__init__')
    s = an.scn('r=eo.Exp(2.0)\nr.symbolic_map["zz"]=zz\nr.variable_map["zz"]=zz\nr2=eo.Exp(2.0)\n', pre, zz=obj('zz'))
    s.equal('functions of numbers share', '(r2.symbolic_map, r2.variable_map)', '({}, {})', 'functions of numbers share tables', 'core.equation_operators:wrapper')
    # the table of objects an equation keeps is its own
    for form in ('a', 'a==b', 'a==n', 'a-b'):
        for decl in ('e=Equation("e", "", fast_expr=x)', 'e=Equation("e", "")\ne.setResidual(x)'):
            s = an.scn('a=%s\nb=%s\nx=%s\n%s\ne.objects_declared["zz"]=zz\n' % (node('a', unit_src=U), node('b', unit_src=U), form, decl), pre, **inp)
            for g in ['x'] if '==' not in form else ['x[0]'] + ['x[1]'] * (form == 'a==b'):
                s.holds('objects of the equation %s %s %s' % (form, decl[-8:], g), '"zz" not in %s.symbolic_map and "zz" not in %s.variable_map' % (g, g), 'changing the object table of an equation changes the expression it was given', 'core.equation:Equation.setResidual')
            for g in 'ab':
                s.holds('objects of the equation %s %s operand %s' % (form, decl[-8:], g), '"zz" not in %s.symbolic_map and "zz" not in %s.variable_map' % (g, g), 'changing the object table of an equation changes an operand', 'core.equation:Equation.setResidual')
    # equations against numbers do not share the default tables
    s = an.scn('a=%s\ne1=Equation("e1","",fast_expr=a==n)\ne1.elementary_equation_expression[1].symbolic_map["zz"]=zz\ne1.elementary_equation_expression[1].variable_map["zz"]=zz\ne1.elementary_equation_expression[1].equation_type["is_linear"]=zz\ne2=Equation("e2","",fast_expr=a==n)\n' % node('a'), pre, **inp)
    s.equal('number side tables', '(e2.elementary_equation_expression[1].symbolic_map, e2.elementary_equation_expression[1].variable_map, e2.elementary_equation_expression[1].equation_type["is_linear"])', '({}, {}, True)', 'number sides of equations share tables', 'core.equation:Equation.setResidual')
    # quantities are not changed by expressions
    s = an.scn('x=Variable("x", %s, "")\np=Parameter("p", %s, "")\np.setValue(v)\nr=x()*p()/x()**2 - 3.0/x()*p()\n' % (unit('u'), unit('v')), pre, **{**dim_inputs('u', 'v'), 'v': num('v')})
    s.equal('quantity value kept', '(p.value, p.is_specified, x.is_specified)', '(v, True, False)', 'quantities unchanged by expressions', AT + '__mul__')
    for q, p in (('x', 'u'), ('p', 'v')):
        for d in DIMS:
            s.equal('quantity %s dim %s' % (q, d), '%s.units.dimension["%s"]' % (q, d), '%s_%s' % (p, d), 'unit of a quantity unchanged by expressions', AT + '__mul__')
    # the same expression made twice: two expressions, whatever is done with one of them
    pd = pre + 'from src.sloth.core.domain import Domain\n'
    for e in ('x()', 'x.Diff(t)', 'x.Diff()', 'eo.Exp(x())', 'x()+1', 'x()*x()', '-1*x.Diff(t)', 'eo.Min(x(), 1)'):
        mk = 't=Variable("t", Unit("d", {}), "")\nx=Variable("x", Unit("d", {}), "")\nx.distributeOnDomain(Domain("d", "", t))\nr0=%s\nr=%s\n' % (e, e)
        s = an.scn(mk + TOUCH + 'r.unit_object.dimension["m"]=5\n', pd, zz=obj('zz'))
        at2 = 'core.equation_operators:_Diff' if 'Diff' in e else AT + '__init__'
        s.holds('%s made twice' % e, 'r0 is not r and "zz" not in r0.symbolic_map and "zz" not in r0.variable_map and r0.name is not zz', 'the same expression made twice is one object', at2)
        s.equal('%s made twice classification' % e, '(r0.equation_type["is_linear"] is zz, r0.equation_type["is_nonlinear"] is zz, r0.equation_type["is_differential"] is zz)', '(False, False, False)',
                'the same expression made twice is classified through one table', at2)
    for dv in ('x.setValue(v)', 'x.setValue(v)\nx.setValue(v+1)'):
        s = an.scn('t=Variable("t", Unit("d", {}), "")\nx=Variable("x", Unit("d", {}), "")\nx.distributeOnDomain(Domain("d", "", t))\na=x.Diff(t)\nk=(a.symbolic_object, a.repr_symbolic)\n%s\nb=x.Diff(t)\ny=x()\n' % dv, pd, v=num('v'))
        s.equal('derivative before %s' % dv.replace('\n', '; '), '(a.symbolic_object, a.repr_symbolic, a.variable_map)', '(k[0], k[1], {"x": x})', 'a derivative made before its variable had a value', 'core.equation_operators:_Diff')
        s.equal('derivative after %s' % dv.replace('\n', '; '), '(b.variable_map, y.variable_map)', '({}, {})', 'a derivative made after its variable had a value', 'core.equation_operators:_Diff')
