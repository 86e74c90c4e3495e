from .common import *

RULE = ('incorporating a model copies its objects and equations under the receiving model\'s name, rewrites the equations to the copies (residual, sides, objects), '
        'and leaves the source model and its objects untouched; exposed variables stay exposed in their direction')
NESTED = True
AT = 'model:Model.incorporateFromExternalModel'
SRC = '''
import sympy as sp
from src.sloth.model import Model
A=Model("A", "")
x=A.createVariable("x", %(u)s, "dx", is_exposed=True, type="output", lower_bound=lo)
y=A.createVariable("y", %(u)s, "dy", is_exposed=True, type="input")
z=A.createVariable("z", %(u)s, "dz")
p=A.createParameter("p", Unit("d", {}), "dp")
k=A.createConstant("k", Unit("d", {}), "dk")
p.setValue(pv)
k.setValue(kv)
e1=A.createEquation("e1", "", x() == 2.0*y())
e2=A.createEquation("e2", "", z()*p()-y()*k())
e3=A.createEquation("e3", "", y() == 3.0)
''' % {'u': unit('u')}


def run(an, tier):
    inp = {**dim_inputs('u'), 'pv': num('pv'), 'kv': num('kv'), 'lo': num('lo')}
    P = PRE + SRC
    s = an.scn('B=Model("B", "")\nw=B.createVariable("w", %s, "")\nB.incorporateFromExternalModel(A)\n' % unit('u'), P, **inp)
    s.completes('incorporation completes', 'incorporation of a model', AT)
    s.equal('variables', 'list(B.variables)', '["w_B", "x_B", "y_B", "z_B"]', 'variables of the receiving model', AT)
    s.equal('parameters', 'list(B.parameters)', '["p_B"]', 'parameters of the receiving model', AT)
    s.equal('constants', 'list(B.constants)', '["k_B"]', 'constants of the receiving model', AT)
    s.equal('equations', 'list(B.equations)', '["e1_B", "e2_B", "e3_B"]', 'equations of the receiving model', AT)
    for n, d in (('x', 'dx'), ('y', 'dy'), ('z', 'dz'), ('p', 'dp'), ('k', 'dk')):
        tab = {'p': 'parameters', 'k': 'constants'}.get(n, 'variables')
        g = 'B.%s["%s_B"]' % (tab, n)
        s.equal('copy %s' % n, '(%s.name, %s.owner_model_name, %s.description)' % (g, g, g), '("%s_B", "B", "%s")' % (n, d), 'name and owner of the copy', AT)
        s.holds('copy %s distinct' % n, '%s is not %s' % (g, n), 'the copy is a new object', AT)
        s.holds('attribute %s exists' % n, 'hasattr(B, "%s")' % n, 'the copy is reachable as an attribute', AT)
        s.holds('attribute %s' % n, 'B.%s is %s' % (n, g), 'the copy is reachable as an attribute', AT)
        s.equal('copy %s value' % n, '(%s.value, %s.is_specified)' % (g, g), '(%s.value, %s.is_specified)' % (n, n), 'value of the copy', AT)
        for dd in DIMS:
            s.equal('copy %s dim %s' % (n, dd), '%s.units.dimension["%s"]' % (g, dd), '%s' % ('u_' + dd if n in 'xyz' else '0'), 'unit of the copy', AT)
        # source untouched
        s.equal('source %s' % n, '(%s.name, %s.owner_model_name)' % (n, n), '("%s_A", "A")' % n, 'object of the source model unchanged', AT)
    s.equal('copy bounds', '(B.x.lower_bound, B.x.is_lower_bounded, B.x.is_upper_bounded)', '(lo, True, False)', 'bounds of the copy', AT)
    s.equal('exposed', 'B.exposed_vars', '{"input": [B.y], "output": [B.x]}', 'exposed copies', AT)
    s.equal('source exposed', 'A.exposed_vars', '{"input": [y], "output": [x]}', 'exposed variables of the source', AT)
    s.equal('source tables', '(A.variables, A.parameters, A.constants, A.equations)', '({"x_A": x, "y_A": y, "z_A": z}, {"p_A": p}, {"k_A": k}, {"e1_A": e1, "e2_A": e2, "e3_A": e3})', 'tables of the source', AT)
    res = {'e1': 'sp.symbols("x_{m}")-2.0*sp.symbols("y_{m}")', 'e2': 'sp.symbols("z_{m}")*pv-sp.symbols("y_{m}")*kv', 'e3': 'sp.symbols("y_{m}")-3.0'}
    rep = {'e1': res['e1'], 'e2': 'sp.symbols("z_{m}")*sp.symbols("p_{m}")-sp.symbols("y_{m}")*sp.symbols("k_{m}")', 'e3': res['e3']}
    objs = {'e1': ['x', 'y'], 'e2': ['z', 'p', 'y', 'k'], 'e3': ['y']}
    for e in res:
        for m, g in (('B', 'B.equations["%s_B"]' % e), ('A', e)):
            t = '%s in %s' % (e, 'copy' if m == 'B' else 'source')
            s.equal(t + ' residual', g + '.equation_expression.symbolic_object', res[e].format(m=m), 'residual', AT)
            s.equal(t + ' printed', g + '.equation_expression.repr_symbolic', rep[e].format(m=m), 'printed residual', AT)
            s.equal(t + ' objects', g + '.objects_declared', '{%s}' % ', '.join('"%s_%s": %s.%s' % (o, m, m, o) if m == 'B' else '"%s_A": %s' % (o, o) for o in objs[e]), 'objects of the equation', AT)
            s.equal(t + ' name', '(%s.name, %s.owner_model_name)' % (g, g), '("%s_%s", "%s")' % (e, m, m), 'name and owner', AT)
            s.equal(t + ' type', g + '.type', const('linear'), 'kind of the equation', AT)
    for side, i, t in (('lhs', 0, 'sp.symbols("x_{m}")'), ('rhs', 1, '2.0*sp.symbols("y_{m}")')):
        for m, g in (('B', 'B.equations["e1_B"]'), ('A', 'e1')):
            s.equal('side %s in %s' % (side, m), '%s.elementary_equation_expression[%d].symbolic_object' % (g, i), t.format(m=m), 'side of the equation', AT)
            s.equal('side objects %s in %s' % (side, m), '%s.elementary_equation_expression[%d].symbolic_map' % (g, i), ('{"%s_B": B.%s}' if m == 'B' else '{"%s_A": %s}') % (('x', 'x') if i == 0 else ('y', 'y')), 'objects of the side', AT)
    # changing the copy does not change the source and vice versa
    s = an.scn('B=Model("B", "")\nB.incorporateFromExternalModel(A)\nB.p.setValue(v2)\nB.x.setValue(v3)\nB.x.units.dimension["m"]=77\nB.equations["e1_B"].equation_expression.symbolic_map.clear()\nB.y.description="zz"\nB.exposed_vars["input"].clear()\n', P, v2=num('v2'), v3=num('v3'), **inp)
    s.equal('source values', '(p.value, p.is_specified, x.value, x.is_specified, x.units.dimension["m"], y.description)', '(pv, True, 0.0, False, u_m, "dy")', 'the copy shares state with the source', AT)
    s.equal('source map', 'e1.equation_expression.symbolic_map', '{"x_A": x, "y_A": y}', 'the copied equation shares its tables with the source', AT)
    s.equal('source exposed kept', 'A.exposed_vars["input"]', '[y]', 'the copy shares its exposure list with the source', AT)
    # several exposed variables of one direction
    MANY = ''.join('%s=A.createVariable("%s", %s, "", is_exposed=True, type="%s")\n' % (n, n, unit('u') if i % 2 else 'Unit("d", {})', ty) for i, (n, ty) in enumerate([('o1', 'output'), ('i1', 'input'), ('o2', 'output'), ('i2', 'input'), ('o3', 'output'), ('i3', 'input')]))
    for txt, body, own in (('one source', 'B=Model("B", "")\nB.incorporateFromExternalModel(A)\n', 'B'), ('beside its own', 'B=Model("B", "")\nB.o0=B.createVariable("o0", Unit("d", {}), "", is_exposed=True, type="output")\nB.incorporateFromExternalModel(A)\n', 'B'),
                           ('chain', 'C=Model("C", "")\nC.incorporateFromExternalModel(A)\nB=Model("B", "")\nB.incorporateFromExternalModel(C)\n', 'B')):
        s = an.scn(MANY + body, P, **inp)
        s.completes('several exposed, %s' % txt, 'incorporation of a model', AT)
        s.equal('several exposed, %s: directions' % txt, 'B.exposed_vars', '{"input": [B.y, B.i1, B.i2, B.i3], "output": [%sB.x, B.o1, B.o2, B.o3]}' % ('B.o0, ' if 'own' in txt else ''), 'every exposed variable of the source is exposed in its direction', AT)
        s.equal('several exposed, %s: source' % txt, 'A.exposed_vars', '{"input": [y, i1, i2, i3], "output": [x, o1, o2, o3]}', 'exposed variables of the source', AT)
    # twice, and chains
    s = an.scn('B=Model("B", "")\nC=Model("C", "")\nB.incorporateFromExternalModel(A)\nC.incorporateFromExternalModel(B)\n', P, **inp)
    s.equal('chain variables', 'list(C.variables)', '["x_C", "y_C", "z_C"]', 'chain of incorporations', AT)
    for e in res:
        s.equal('chain ' + e, 'C.equations["%s_C"].equation_expression.symbolic_object' % e, res[e].format(m='C'), 'chain of incorporations', AT)
        s.equal('chain middle ' + e, 'B.equations["%s_B"].equation_expression.symbolic_object' % e, res[e].format(m='B'), 'chain of incorporations', AT)
        s.equal('chain objects ' + e, 'C.equations["%s_C"].objects_declared' % e, '{%s}' % ', '.join('"%s_C": C.%s' % (o, o) for o in objs[e]), 'chain of incorporations', AT)
    # partial and without renaming
    for kw, v, p_, c, e in (('incorporate_equations=False', 3, 1, 1, 0), ('incorporate_parameters=False, incorporate_equations=False', 3, 0, 1, 0), ('incorporate_variables=False, incorporate_equations=False', 0, 1, 1, 0), ('incorporate_constants=False, incorporate_equations=False', 3, 1, 0, 0)):
        s = an.scn('B=Model("B", "")\nB.incorporateFromExternalModel(A, %s)\n' % kw, P, **inp)
        s.equal('partial ' + kw, '(len(B.variables), len(B.parameters), len(B.constants), len(B.equations))', str((v, p_, c, e)), 'only the requested kinds are incorporated', AT)
    s = an.scn('B=Model("B", "")\nB.incorporateFromExternalModel(A, rewrite_name=False)\n', P, **inp)
    s.equal('no renaming variables', 'list(B.variables)', '["x_A", "y_A", "z_A"]', 'incorporation without renaming', AT)
    s.equal('no renaming equations', 'list(B.equations)', '["e1_A", "e2_A", "e3_A"]', 'incorporation without renaming', AT)
    for e in res:
        s.equal('no renaming ' + e, 'B.equations["%s_A"].equation_expression.symbolic_object' % e, res[e].format(m='A'), 'incorporation without renaming', AT)
        s.equal('no renaming objects ' + e, 'B.equations["%s_A"].objects_declared' % e, '{%s}' % ', '.join('"%s_A": B.%s' % (o, o) for o in objs[e]), 'incorporation without renaming', AT)
    # the receiving model checks equations over the copies
    s = an.scn('B=Model("B", "")\nB.incorporateFromExternalModel(A)\nn=B.createEquation("n", "", B.x() == B.z())\n', P, **inp)
    s.completes('new equation over copies', 'equation over the copies', AT)
    s.equal('new equation residual', 'n.equation_expression.symbolic_object', 'sp.symbols("x_B")-sp.symbols("z_B")', 'equation over the copies', AT)
    # sides with known quantities, other classes and units
    P2 = P + """
from src.sloth.core.domain import Domain
t=A.createVariable("t", Unit("d", {}), "time", upper_bound=lo)
q=A.createParameter("q", Unit("d", {}), "open")
dom=Domain("dom", Unit("d", {}), t, "")
x.distributeOnDomain(dom)
e4=A.createEquation("e4", "d4", z()*p() == y()*k()+q()*x())
e5=A.createEquation("e5", "", x.Diff(t)*p() == y()-z()*q())
e6=A.createEquation("e6", "", eo.Exp(p()*q()) == t()*t()*k())
"""
    sy = {n: 'sp.symbols("%s_{m}")' % n for n in 'xyztpkq'}
    dx = 'sp.diff(%s, %s, evaluate=False)' % (sy['x'], sy['t'])
    SIDES = {'e4': (('%s*pv' % sy['z'], '%s*%s' % (sy['z'], sy['p']), 'zp', 'z'), ('%s*kv+%s*%s' % (sy['y'], sy['q'], sy['x']), '%s*%s+%s*%s' % (sy['y'], sy['k'], sy['q'], sy['x']), 'ykqx', 'yqx'), 'nonlinear'),
             'e5': ((dx + '*pv', dx + '*' + sy['p'], 'xp', 'x'), ('%s-%s*%s' % (sy['y'], sy['z'], sy['q']), '%s-%s*%s' % (sy['y'], sy['z'], sy['q']), 'yzq', 'yzq'), 'differential'),
             'e6': (('sp.exp(pv*%s)' % sy['q'], 'sp.exp(%s*%s)' % (sy['p'], sy['q']), 'pq', 'q'), ('%s*%s*kv' % (sy['t'], sy['t']), '%s*%s*%s' % (sy['t'], sy['t'], sy['k']), 'tk', 't'), 'nonlinear')}
    voc = {'sympy.symbols', 'sympy.diff', 'sympy.exp'}
    for name, body, m, g in (('copy', 'B=Model("B", "")\nB.incorporateFromExternalModel(A)\n', 'B', 'B.equations["%s_B"]'), ('source', 'B=Model("B", "")\nB.incorporateFromExternalModel(A)\n', 'A', '%s'),
                             ('second copy', 'C=Model("C", "")\nC.incorporateFromExternalModel(A)\nB=Model("B", "")\nB.incorporateFromExternalModel(C)\n', 'B', 'B.equations["%s_B"]'),
                             ('copy beside another', 'C=Model("C", "")\nC.incorporateFromExternalModel(A)\nB=Model("B", "")\nB.incorporateFromExternalModel(A)\n', 'B', 'B.equations["%s_B"]'),
                             ('copy keeping names', 'B=Model("B", "")\nB.incorporateFromExternalModel(A, rewrite_name=False)\n', 'A', 'B.equations["%s_A"]')):
        s = an.scn(body, P2, **inp)
        s.completes('%s with known quantities' % name, 'incorporation of a model', AT)
        own = 'A.' if m == 'A' and name == 'source' else 'B.'

        def tab(os):
            return '{%s}' % ', '.join('"%s_%s": %s%s' % (o, m, own, o) if own == 'B.' else '"%s_%s": %s' % (o, m, o) for o in os)
        for e, (l, r, kind) in SIDES.items():
            h = g % e
            for i, (sy_, rep_, ob, unk) in enumerate((l, r)):
                h2 = '%s.elementary_equation_expression[%d]' % (h, i)
                oid = '%s %s side %d' % (name, e, i)
                s.equal(oid + ' content', h2 + '.symbolic_object', sy_.format(m=m), 'side of the equation', AT, vocab=voc)
                s.equal(oid + ' printed', h2 + '.repr_symbolic', rep_.format(m=m), 'printed side of the equation', AT, vocab=voc)
                s.equal(oid + ' objects', h2 + '.symbolic_map', tab(ob), 'objects of the side', AT, vocab=voc)
            s.equal('%s %s residual' % (name, e), h + '.equation_expression.symbolic_object', '(%s)-(%s)' % (l[0].format(m=m), r[0].format(m=m)), 'residual', AT, vocab=voc)
            s.equal('%s %s printed residual' % (name, e), h + '.equation_expression.repr_symbolic', '(%s)-(%s)' % (l[1].format(m=m), r[1].format(m=m)), 'printed residual', AT, vocab=voc)
            al = ''.join(dict.fromkeys(l[2] + r[2]))  # the independent variable of a derivative is no operand
            s.equal('%s %s objects' % (name, e), h + '.objects_declared', tab(al), 'objects of the equation', AT, vocab=voc)
            s.equal('%s %s residual objects' % (name, e), h + '.equation_expression.symbolic_map', tab(al), 'objects of the residual', AT, vocab=voc)
            s.equal('%s %s kind' % (name, e), h + '.type', const(kind), 'kind of the equation', AT, vocab=voc)
            s.equal('%s %s class' % (name, e), '%s.equation_expression.equation_type' % h, '{"is_linear": False, "is_nonlinear": %s, "is_differential": %s}' % (kind == 'nonlinear', kind == 'differential'), 'class of the residual', AT, vocab=voc)
        s.equal('%s bounds' % name, '(%st.upper_bound, %st.is_upper_bounded, %st.is_lower_bounded)' % ((own.replace('A.', ''),) * 3), '(lo, True, False)', 'bounds of the copy', AT)
    # objects on both sides; names that contain the names of the models or of other objects
    for A, B, names in () if an.names else (('in', 'out', ('T_in', 'in', 'in_in', 'out', 'T')), ('T', 'a_T', ('T', 'T_T', 'T_T_T', 'a_T', 'TT')), ('a_b', 'b', ('b', 'a', 'a_b', 'b_a', 'x')), ('M1', 'M11', ('x', 'xM1', 'M1x', 'M', '1'))):
        src = PRE + 'import sympy as sp\nfrom src.sloth.model import Model\nA=Model("%s", "")\n' % A
        mk = ('createVariable', 'createVariable', 'createVariable', 'createParameter', 'createConstant')
        src += ''.join('o%d=A.%s("%s", Unit("d", {}), "")\n' % (i, m, n) for i, (m, n) in enumerate(zip(mk, names)))
        src += 'e1=A.createEquation("%s", "", o0()*o3()-o1() == o1()+o2()*o0()*o4())\ne2=A.createEquation("%s", "", o2()+o1())\n' % (names[0], names[2])
        s = an.scn('B=Model("%s", "")\nB.incorporateFromExternalModel(A)\n' % B, src)
        oid = 'names %s' % A
        s.completes(oid, 'incorporation of a model', AT)
        for m, mod, g in ((B, 'B', 'B.equations["%s_' + B + '"]'), (A, 'A', 'A.equations["%s_' + A + '"]')):
            y = ['sp.symbols("%s_%s")' % (n, m) for n in names]
            ob = ['"%s_%s": %s.%s["%s_%s"]' % (n, m, mod, t, n, m) for n, t in zip(names, ('variables',) * 3 + ('parameters', 'constants'))]
            s.equal('%s tables %s' % (oid, mod), '(list({0}.variables), list({0}.parameters), list({0}.constants), list({0}.equations))'.format(mod),
                    repr((['%s_%s' % (n, m) for n in names[:3]], ['%s_%s' % (names[3], m)], ['%s_%s' % (names[4], m)], ['%s_%s' % (n, m) for n in (names[0], names[2])])), 'names of the objects', AT)
            h = g % names[0]
            l, r = '%s*%s-%s' % (y[0], y[3], y[1]), '%s+%s*%s*%s' % (y[1], y[2], y[0], y[4])
            for i, (t, os) in enumerate(((l, (0, 3, 1)), (r, (1, 2, 0, 4)))):
                s.equal('%s side %d %s' % (oid, i, mod), h + '.elementary_equation_expression[%d].symbolic_object' % i, t, 'side of the equation', AT)
                s.equal('%s side %d objects %s' % (oid, i, mod), h + '.elementary_equation_expression[%d].symbolic_map' % i, '{%s}' % ', '.join(ob[o] for o in os), 'objects of the side', AT)
            s.equal('%s residual %s' % (oid, mod), h + '.equation_expression.symbolic_object', '(%s)-(%s)' % (l, r), 'residual', AT)
            s.equal('%s objects %s' % (oid, mod), h + '.objects_declared', '{%s}' % ', '.join(ob), 'objects of the equation', AT)
            s.equal('%s second %s' % (oid, mod), g % names[2] + '.equation_expression.symbolic_object', '%s+%s' % (y[2], y[1]), 'residual', AT)
    # copies without renaming are copies, too
    for kw in ('', ', rewrite_name=False', ', incorporate_equations=False', ', incorporate_equations=False, rewrite_name=False'):
        n = 'A' if 'rewrite' in kw else 'B'
        s = an.scn('B=Model("B", "")\nB.incorporateFromExternalModel(A%s)\nB.p.setValue(v2)\nB.k.setValue(v3)\nB.x.setValue(v3)\nB.z.description="zz"\nB.p.description="zz"\n' % kw, P, **{**inp, 'v2': num('v2'), 'v3': num('v3')})
        s.equal('independent copies%s' % kw, '(p.value, p.description, k.value, x.value, x.is_specified, z.description)', '(pv, "dp", kv, 0.0, False, "dz")', 'the copies share state with the source', AT)
        s.equal('independent tables%s' % kw, '[o.owner_model_name for t in (A.variables, A.parameters, A.constants, A.equations) for o in t.values()]', '["A"]*8', 'objects of the source', AT)
        s.equal('owners%s' % kw, '[o.owner_model_name for t in (B.variables, B.parameters, B.constants, B.equations) for o in t.values()]', '["B"]*%d' % (5 if 'equations' in kw else 8), 'owner of the copies', AT)
        s.equal('values of copies%s' % kw, '(B.parameters["p_%s"].value, B.constants["k_%s"].value, B.variables["x_%s"].value, A.parameters["p_A"] is p)' % (n, n, n), '(v2, v3, v3, True)', 'values of the copies', AT)
