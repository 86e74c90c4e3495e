from .common import *

RULE = ('objects created through a model are registered exactly once, in the table of their kind, under <name>_<model>, carrying the unit, description, bounds, value and owner they were created with; '
        'exposed variables are listed under the direction they were declared with; what is not exposed is not listed')
NESTED = True
AT = 'model:Model.'
P = PRE + '''
from src.sloth.model import Model
m=Model(mn, "desc")
other=Model(on, "desc")
'''


def run(an, tier):
    inp = {**dim_inputs('u'), 'mn': strsym('mn'), 'on': strsym('on'), 'nm': strsym('nm'), 'n2': strsym('n2'), 'ds': strsym('ds'), 'lt': strsym('lt'), 'v': num('v'), 'lo': num('lo'), 'hi': num('hi')}
    tabs = ('variables', 'parameters', 'constants', 'equations', 'connections', 'parameter_arrays')
    for kind, cls in (('variables', 'Variable'), ('parameters', 'Parameter'), ('constants', 'Constant')):
        at = AT + 'create' + cls
        for kw in ('', ', value=v', ', latex_text=lt', ', value=v, latex_text=lt'):
            s = an.scn('q=m.create%s(nm, %s, ds%s)\n' % (cls, unit('u'), kw), P, **inp)
            oid = 'create%s(%s)' % (cls, kw)
            s.completes(oid, 'creation of a ' + cls, at)
            s.equal(oid + ' table', 'm.' + kind, '{nm + "_" + mn: q}', 'registered in the table of its kind', at)
            for t in tabs:
                if t != kind:
                    s.equal(oid + ' not in ' + t, 'm.' + t, '{}', 'not registered elsewhere', at)
                s.equal(oid + ' other model ' + t, 'other.' + t, '{}', 'other models not affected', at)
            s.equal(oid + ' name', 'q.name', 'nm + "_" + mn', 'name of the object', at)
            s.equal(oid + ' owner', 'q.owner_model_name', 'mn', 'owner of the object', at)
            s.equal(oid + ' description', 'q.description', 'ds', 'description', at)
            s.equal(oid + ' latex', 'q.latex_text', 'lt' if 'latex' in kw else 'nm', 'latex text', at)
            s.holds(oid + ' class', 'type(q) is %s' % cls, 'kind of the object', at)
            s.equal(oid + ' specified', 'q.is_specified', const(False), 'not specified before a value is set', at)
            if 'value' in kw:
                s.equal(oid + ' value', 'q.value', 'v', 'initial value', at)
            for d in DIMS:
                s.equal(oid + ' dim ' + d, 'q.units.dimension["%s"]' % d, 'u_' + d, 'unit of the object', at)
            s.equal(oid + ' exposed', 'm.exposed_vars', '{"input": [], "output": []}', 'not exposed', at)
        s = an.scn('q=m.create%s(nm, %s, ds)\nr=m.create%s(n2, %s, ds)\no=other.create%s(nm, %s, ds)\n' % (cls, unit('u'), cls, unit('u'), cls, unit('u')), P,
                   _assume=lambda ip: NOT(ip.eq_bool(strsym('nm'), strsym('n2'))), **inp)
        s.equal('two %s' % kind, 'm.' + kind, '{nm + "_" + mn: q, n2 + "_" + mn: r}', 'both objects registered', at)
        s.equal('two models %s' % kind, 'other.' + kind, '{nm + "_" + on: o}', 'object of the other model', at)
        s.equal('order of %s' % kind, 'list(m.%s.values())' % kind, '[q, r]', 'creation order kept', at)
        # declared again, before and after the earlier object was given a value: the later one takes its place, as if declared at first
        for early in ('', 'q.setValue(v)\n', 'q.setValue(v)\nq.description="other"\nq.is_specified=False\n', 'm()\nq.setValue(v)\nm()\n'):
            for kw in ('', ', value=lo', ', latex_text=lt'):
                s = an.scn('q=m.create%s(nm, %s, "first", value=hi)\nr=m.create%s(n2, %s, "")\nr.setValue(v)\n%sp=m.create%s(nm, %s, ds%s)\n' % (cls, unit('u'), cls, unit('u'), early, cls, unit('w'), kw), P,
                           _assume=lambda ip: NOT(ip.eq_bool(strsym('nm'), strsym('n2'))), **{**inp, **dim_inputs('w')})
                oid = '%s declared again%s%s' % (cls, ' with' + kw[1:] if kw else '', ' after ' + repr(early) if early else '')
                s.completes(oid, 'object declared again', AT + 'create' + cls)
                s.equal(oid + ' table', 'm.' + kind, '{nm + "_" + mn: p, n2 + "_" + mn: r}', 'the object declared again takes the place of the earlier one', AT + 'create' + cls)
                s.equal(oid + ' content', '(p is q, p.name, p.description, p.is_specified, p.latex_text, p.owner_model_name)', '(False, nm + "_" + mn, ds, False, %s, mn)' % ('lt' if 'latex' in kw else 'nm'), 'the object carries what it was declared with last', AT + 'create' + cls)
                if 'value' in kw:
                    s.equal(oid + ' value', 'p.value', 'lo', 'the object carries the value it was declared with last', AT + 'create' + cls)
                s.equal(oid + ' dimensions', '[p.units.dimension[d] for d in %r]' % DIMS, '[%s]' % ', '.join('w_' + d for d in DIMS), 'the object carries the unit it was declared with last', AT + 'create' + cls)
                s.equal(oid + ' other', '(r.value, r.is_specified)', '(v, True)', 'other objects are not affected', AT + 'create' + cls)
    at = AT + 'createVariable'
    for ty in ('input', 'output'):
        s = an.scn('q=m.createVariable(nm, %s, ds, is_exposed=True, type="%s")\nr=m.createVariable(n2, %s, ds)\n' % (unit('u'), ty, unit('u')), P, **inp)
        s.equal('exposed %s' % ty, 'm.exposed_vars', '{"input": [%s], "output": [%s]}' % (('q', '') if ty == 'input' else ('', 'q')), 'listed under its direction', at)
        s.equal('exposed %s flag' % ty, '(q.is_exposed, q.type, r.is_exposed)', '(True, "%s", False)' % ty, 'exposure recorded on the variable', at)
        s.equal('exposed other model %s' % ty, 'other.exposed_vars', '{"input": [], "output": []}', 'other models not affected', at)
    for kw, lo, hi in (('', 'None', 'None'), (', lower_bound=lo', 'lo', 'None'), (', upper_bound=hi', 'None', 'hi'), (', lower_bound=lo, upper_bound=hi', 'lo', 'hi')):
        s = an.scn('q=m.createVariable(nm, %s, ds%s)\n' % (unit('u'), kw), P, **inp)
        s.equal('bounds (%s)' % kw, '(q.lower_bound, q.upper_bound, q.is_lower_bounded, q.is_upper_bounded)', '(%s, %s, %s, %s)' % (lo, hi, lo != 'None', hi != 'None'), 'bounds of the variable', at)
        s = an.scn('q=m.createVariable(nm, %s, ds, value=v%s)\n' % (unit('u'), kw), P, **inp)
        s.completes('value with bounds (%s)' % kw, 'creation of a bounded variable with a value', at)
        s.equal('value with bounds (%s) value' % kw, 'q.value', 'v', 'value of a bounded variable', at)
    # several exposed variables: listed in the order of creation under their direction
    s = an.scn('a=m.createVariable("z", %s, ds, is_exposed=True, type="output")\nb=m.createVariable("y", %s, ds, is_exposed=True, type="input")\nc=m.createVariable("x", %s, ds)\n'
               'd=m.createVariable("w", %s, ds, is_exposed=True, type="output")\ne=m.createVariable("v", %s, ds, is_exposed=True, type="input")\nf=m.createVariable("a", %s, ds, is_exposed=True, type="output")\n' % ((unit('u'),)*6), P, **inp)
    s.equal('several exposed', 'm.exposed_vars', '{"input": [b, e], "output": [a, d, f]}', 'exposed variables in the order of creation', at)
    # the initialiser running a second time (two bases that both initialise the model) keeps what was created
    s = an.scn('''
class A(Model):
    def __init__(self, n):
        Model.__init__(self, n, "first")
        self.a=self.createVariable("a", tu.dimless, "", is_exposed=True, type="input")
        self.p=self.createParameter("p", tu.dimless, "")
        self.k=self.createConstant("k", tu.dimless, "")
        self.e=self.createEquation("e", "", self.a()-self.p())
class B(Model):
    def __init__(self, n):
        Model.__init__(self, n, "second")
        self.b=self.createVariable("b", tu.dimless, "", is_exposed=True, type="output")
class C(A, B):
    def __init__(self, n):
        A.__init__(self, n)
        B.__init__(self, n)
q=C(mn)
''', P, **inp)
    s.completes('initialised twice', 'two bases initialising the model', at)
    s.equal('initialised twice tables', '(q.variables, q.parameters, q.constants, q.equations)', '({"a_" + mn: q.a, "b_" + mn: q.b}, {"p_" + mn: q.p}, {"k_" + mn: q.k}, {"e_" + mn: q.e})', 'objects of both bases registered', at)
    # a variable declared again takes the place of the earlier one
    for d1 in ('input', 'output', ''):
        for d2 in ('input', 'output', ''):
            kw = lambda d: ', is_exposed=True, type="%s"' % d if d else ''
            s = an.scn('w=m.createVariable("w", tu.m, "", is_exposed=True, type="input")\nx=m.createVariable("x", tu.m, ""%s)\nv=m.createVariable("v", tu.m, "", is_exposed=True, type="output")\nx2=m.createVariable("x", tu.m, ""%s)\n' % (kw(d1), kw(d2)), P, **inp)
            oid = 'declared %s, then %s' % (d1 or 'inside', d2 or 'inside')
            s.completes(oid, 'variable declared again', AT + 'createVariable')
            s.equal(oid + ' table', 'm.variables', '{"w_" + mn: w, "x_" + mn: x2, "v_" + mn: v}', 'variables of the model', AT + 'createVariable')
            for d, o in (('input', 'w'), ('output', 'v')):
                s.equal(oid + ' exposed as ' + d, '(len(m.exposed_vars["%s"]), any(e is x for e in m.exposed_vars["%s"]), any(e is x2 for e in m.exposed_vars["%s"]), any(e is %s for e in m.exposed_vars["%s"]))' % (d, d, d, o, d),
                        '(%d, False, %s, True)' % (1 + (d == d2), d == d2), 'exposed variables are those declared last', AT + 'createVariable')
    # names that contain the name of the model, or of another object of it
    for cls, kind, extra in (('Variable', 'variables', ', is_exposed=True, type="output"'), ('Variable', 'variables', ''), ('Parameter', 'parameters', ''), ('Constant', 'constants', '')):
        at = AT + 'create' + cls
        ns = ['x', 'x_A', 'A', 'x_A_A', '_x', 'x_', 'xx', 'X']
        s = an.scn('A=Model("A", "")\nq=[A.create%s(n, tu.m, ""%s) for n in %r]\n' % (cls, extra, ns), P, **inp)
        oid = 'names like the model %s%s' % (kind, ' exposed' if extra else '')
        s.completes(oid, 'objects whose names end with the name of the model', at)
        s.equal(oid + ' table', 'A.' + kind, '{%s}' % ', '.join('"%s_A": q[%d]' % (n, i) for i, n in enumerate(ns)), 'registered under name_model', at)
        s.equal(oid + ' names', '[i.name for i in q]', repr([n + '_A' for n in ns]), 'name of the object', at)
        if extra:
            s.equal(oid + ' exposed', 'A.exposed_vars["output"]', 'q', 'exposed variables', at)
            for i, n in enumerate(ns):
                for kw in (extra, ''):
                    s = an.scn('A=Model("A", "")\nq=[A.create%s(n, tu.m, ""%s) for n in %r]\nr=A.createVariable("%s", tu.m, ""%s)\n' % (cls, extra, ns, n, kw), P, **inp)
                    left = [j for j in range(len(ns)) if j != i]
                    s.equal('%s again %s %s' % (oid, n, bool(kw)), '[[v is i for v in A.exposed_vars["output"]].count(True) for i in q + [r]]', str([int(j != i) for j in range(len(ns))] + [int(bool(kw))]),
                            'exposed variables after one of them is declared again', at)
    s = an.scn('A=Model("A", "")\nx=A.createVariable("x", tu.m, "")\nq=[A.createEquation(n, "", x()-2.0) for n in ("e", "e_A", "A", "e_A_A")]\n', P, **inp)
    s.equal('names like the model equations', '(A.equations, [i.name for i in q])', '({"e_A": q[0], "e_A_A": q[1], "A_A": q[2], "e_A_A_A": q[3]}, ["e_A", "e_A_A", "A_A", "e_A_A_A"])', 'equations registered under name_model', AT + 'createEquation')
    # equations
    at = AT + 'createEquation'
    for ex in ('x()==y()', 'x()-y()', 'x()==2.0', 'x()'):
        for ck in ('', ', check_equation=False'):
            s = an.scn('x=m.createVariable("x", %s, "")\ny=m.createVariable("y", %s, "")\ne=m.createEquation(nm, ds, %s%s)\n' % (unit('u'), unit('u'), ex, ck), P, **inp)
            oid = 'createEquation(%s%s)' % (ex, ck)
            s.completes(oid, 'creation of an equation', at)
            s.equal(oid + ' table', 'm.equations', '{nm + "_" + mn: e}', 'registered as an equation', at)
            s.equal(oid + ' name', '(e.name, e.owner_model_name, e.description)', '(nm + "_" + mn, mn, ds)', 'name, owner and description', at)
            s.equal(oid + ' other', 'other.equations', '{}', 'other models not affected', at)
            s.equal(oid + ' variables', 'm.variables', '{"x_" + mn: x, "y_" + mn: y}', 'variables not affected', at)
            s.equal(oid + ' objects', 'e.objects_declared', '{"x_" + mn: x, "y_" + mn: y}' if 'y' in ex else '{"x_" + mn: x}', 'objects listed by the equation', at)
    s = an.scn('x=m.createVariable("x", %s, "")\ne=m.createEquation(nm, ds, x())\nf=m.createEquation(n2, ds, x()-1)\n' % unit('u'), P, _assume=lambda ip: NOT(ip.eq_bool(strsym('nm'), strsym('n2'))), **inp)
    s.equal('two equations', 'm.equations', '{nm + "_" + mn: e, n2 + "_" + mn: f}', 'both equations registered', at)
    for early in ('', 'm()\n', 'x.setValue(v)\n'):
        s = an.scn('x=m.createVariable("x", %s, "")\ne=m.createEquation(nm, "first", x() == 2.0)\ng=m.createEquation(n2, "", x())\n%sf=m.createEquation(nm, ds, x()-3.0)\n' % (unit('u'), early), P, _assume=lambda ip: NOT(ip.eq_bool(strsym('nm'), strsym('n2'))), **inp)
        s.equal('equation declared again%s' % (' after ' + repr(early) if early else ''), '(m.equations, f is e, f.description, f.equation_form)', '({nm + "_" + mn: f, n2 + "_" + mn: g}, False, ds, "residual")', 'the equation declared again takes the place of the earlier one', at)
        s.equal('equation declared again%s content' % (' after ' + repr(early) if early else ''), 'f.equation_expression.repr_symbolic', 'x().repr_symbolic-3.0', 'the equation declared again is the later one', at)
    # unnamed equations do not replace each other
    s = an.scn('x=m.createVariable("x", %s, "")\ne=m.createEquation("", ds, x())\nf=m.createEquation("", ds, x()-1)\n' % unit('u'), P, **inp)
    s.equal('unnamed equations', 'list(m.equations.values())', '[e, f]', 'unnamed equations all registered', ['core.equation:gen_rnd_str', at])
