from .solve import *
from sa.tables import texts

RULE = ('reports show what they describe: one row per equation of a model with its name, description, printed form, objects (specified ones marked) and kind; result tables give every variable the unit and value the results hold, '
        'under the label of its column; a unit prints exactly its non-zero dimensions; configurations are dumped as they are')
AM = 'analysis:Analysis.modelReport'
AP = 'analysis:Analysis.problemReport'
AR = 'simulation:Simulation.showResults'
V = {'pyneqsys.symbolic.SymbolicSys', '.solve', 'sympy.solve', 'truthy', '.simulate', 'scipy.integrate.odeint', 'float', 'scipy.linalg.solve', 'sympy.linear_eq_to_matrix', 'numpy.array', 'numpy.col', 'sympy.symbols', 'sympy.diff', 'sympy.exp'}
H = 'm=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s)\n'
MOD = '''
from src.sloth.analysis import Analysis
class Rep(Model):
    """all kinds of equations and objects, some specified"""
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.z=self.createVariable("z", ud, "")
        self.t=self.createVariable("t", us, "")
        self.x=self.createVariable("x", ud, "")
        self.dom=Domain("dom", us, self.t, "")
        self.x.distributeOnDomain(self.dom)
        self.k=self.createParameter("k", Unit("k", {"s": -1}), "")
        self.p=self.createParameter("p", ud, "")
        self.q=self.createParameter("q", ud, "")
        self.c=self.createConstant("c", ud, "")
        self.h=self.createConstant("h", ud, "")
    def DeclareParameters(self):
        self.p.setValue(pv)
    def DeclareConstants(self):
        self.c.setValue(hv)
    def DeclareEquations(self):
        self.createEquation("lin", d1, 2.0*self.x() == self.p()*self.z()+self.q())
        self.createEquation("non", d2, eo.Exp(self.x()*self.c()) - self.h()*self.z())
        self.createEquation("dif", d3, self.x.Diff(self.t) == self.k()*self.x()*self.c())
        self.createEquation("prod", d4, self.x()*self.z() == 1.0)
'''
INP = {'pv': num('pv'), 'hv': num('hv'), **{'d%d' % i: strsym('d%d' % i) for i in range(1, 5)}}
ROWS = [('lin_M1', 'd1', 'm.x_M', 'xz', ['p', 'q'], [], 'linear'), ('non_M1', 'd2', '', 'xz', [], ['c', 'h'], 'nonlinear'), ('dif_M1', 'd3', '', 'x', ['k'], ['c'], 'differential'), ('prod_M1', 'd4', '', 'xz', [], [], 'nonlinear')]
KINDS = {'linear': 'is_linear', 'nonlinear': 'is_nonlinear', 'differential': 'is_differential'}


def const_text(v):
    """the literal characters of a text, opaque parts as one mark"""
    return ''.join(p if isinstance(p, str) else '\0' for p in v.a) if v.kind == 's' else None


def printed(s, i=0):
    """texts handed to print, in order"""
    out = []
    for e in s.events:
        if e.name == 'print':
            out.append(e.raw[0])
    return out


def tables_printed(s):
    """tables printed by the client, as a list of (header, rows)"""
    out = []
    keep = s.ip.st
    s.ip.st = s.st
    try:
        for args in printed(s):
            for a in args:
                try:
                    from sa import models as M
                    v = M.to_str(s.ip, a, 'str')
                except (Undecided, Dead):
                    continue
                out.extend(texts(v))
    finally:
        s.ip.st = keep
    return out


def fill(s, T):
    """bind F (header) and R (rows) to a printed table"""
    def thaw(v):
        return tup([thaw(x) for x in v.a]) if v.kind == 'lst' else v
    s.bind('F', thaw(T.a[1][0]))
    s.bind('R', thaw(T.a[1][1]))


def models(an):
    P = PROB + MOD
    src = 'm=Rep("M1")\nm()\nr=Analysis().modelReport(m)\n'
    s = an.scn(src, P, **INP)
    s.completes('report of a model', 'report of a model', AM)
    s.equal('report rows', 'len(r.rows)', '4', 'rows of the report', AM)
    s.equal('report header', 'sorted(r.field_names)', repr(sorted(['Equation name', 'Description', 'Representation', 'Variables', 'Parameters', 'Constants', 'Equation type'])), 'header of the report', AM)

    def cell(i, h):
        return 'r.rows[%d][r.field_names.index("%s")]' % (i, h)
    spec = {'p': '(*)', 'c': '(*)'}
    for i, (n, d, _, vs, ps, cs, k) in enumerate(ROWS):
        o = 'row %d ' % i
        s.equal(o + 'name', cell(i, 'Equation name'), repr(n), 'name of the equation', AM)
        s.equal(o + 'description', cell(i, 'Description'), d, 'description of the equation', AM)
        s.equal(o + 'form', cell(i, 'Representation'), 'repr(m.equations["%s"].equation_expression)' % n, 'printed form of the equation', AM, vocab=V)
        for h, names, suffix in (('Variables', list(vs), '_M1'), ('Parameters', ps, '_M1'), ('Constants', cs, '_M1')):
            want = sorted(x + suffix + (spec.get(x, '') if h != 'Variables' else '') for x in names)
            s.equal(o + h, 'sorted(%s.split(", "))' % cell(i, h), repr(want or ['']), '%s of the equation' % h.lower(), AM, vocab=V)
        s.equal(o + 'kind', cell(i, 'Equation type'), repr(k), 'kind of the equation', AM)
    # marks follow what is specified when the report is made
    for what, act, marks in (('nothing', '', 'pc'), ('parameter', 'm.q.setValue(1.0)', 'pqc'), ('constant', 'm.h.setValue(1.0)', 'pch'), ('all', 'm.q.setValue(1.0)\nm.h.setValue(2.0)\nm.k.setValue(3.0)', 'pqchk'), ('zeros', 'm.q.setValue(0)\nm.h.setValue(0.0)\nm.k.setValue(0)', 'pqchk'),
                             ('negative values', 'm.q.setValue(-1)\nm.h.setValue(-0.5)\nm.p.setValue(0.0)\nm.c.setValue(0)', 'pqch'), ('unit values', 'm.q.setValue(1, m.q.units)\nm.k.setValue(True)', 'pqck'), ('values that were not given', 'm.q.value=5.0\nm.h.value=2', 'pc')):
        s = an.scn('m=Rep("M1")\nm()\nbefore=Analysis().modelReport(m)\n%s\nr=Analysis().modelReport(m)\n' % act, P, **INP)
        for i, (n, d, _, vs, ps, cs, k) in enumerate(ROWS):
            for h, names in (('Parameters', ps), ('Constants', cs)):
                want = sorted(x + '_M1' + ('(*)' if x in marks else '') for x in names)
                s.equal('marks after %s row %d %s' % (what, i, h), 'sorted(%s.split(", "))' % cell(i, h), repr(want or ['']), 'marks of the specified %s' % h.lower(), AM, vocab=V)
    # printed expression
    for e, want in (('2.0*m.x()+m.p()', '2.0*sp.symbols("x_M1")+sp.symbols("p_M1")'), ('m.p()*m.c()', 'sp.symbols("p_M1")*sp.symbols("c_M1")'), ('m.x()', 'sp.symbols("x_M1")')):
        s = an.scn('m=Rep("M1")\nm()\ne=%s\n' % e, P, **INP)
        s.equal('printed expression ' + e, 'repr(e)', 'str(%s)' % want, 'printed expression keeps the names of known quantities', 'core.expression_evaluation:EquationNode.__repr__', vocab=V)
    # nothing changes by reporting
    s = an.scn('m=Rep("M1")\nm()\nA=Analysis()\nA.modelReport(m)\n', P, **INP)
    s.equal('model unchanged', '(list(m.equations), list(m.variables), list(m.parameters), m.p.value, m.q.is_specified)', '(["lin_M1", "non_M1", "dif_M1", "prod_M1"], ["z_M1", "t_M1", "x_M1"], ["k_M1", "p_M1", "q_M1"], pv, False)', 'model after the report', AM)
    # a report says what is there now, whatever the same analysis reported before
    s = an.scn('m=Rep("M1")\nm()\nk=Rep("M2")\nk()\nA=Analysis()\nA.modelReport(m)\nA.modelReport(k)\nm.createEquation("last", d1, m.x() == m.z())\nm.q.setValue(1.0)\nr=A.modelReport(m)\nr2=A.modelReport(k)\nm.createEquation("lin", d2, m.z() - m.q())\nr3=A.modelReport(m)\nm.createEquation("one more", d1, m.x() - 2.0*m.z())\nr4=A.modelReport(m)\n', P, **INP)
    s.completes('reported again', 'second report by the same analysis', AM)
    s.equal('reported again names', '[[q[x.field_names.index("Equation name")] for q in x.rows] for x in [r, r2, r3]]', '[["lin_M1", "non_M1", "dif_M1", "prod_M1", "last_M1"], ["lin_M2", "non_M2", "dif_M2", "prod_M2"], ["lin_M1", "non_M1", "dif_M1", "prod_M1", "last_M1"]]', 'rows of a second report', AM)
    s.equal('reported again forms', '[q[r3.field_names.index("Representation")] for q in r3.rows]', '[repr(m.equations[n].equation_expression) for n in ["lin_M1", "non_M1", "dif_M1", "prod_M1", "last_M1"]]', 'printed forms of a later report', AM, vocab=V)
    s.equal('reported at once again', '[q[r4.field_names.index("Equation name")] for q in r4.rows]', '["lin_M1", "non_M1", "dif_M1", "prod_M1", "last_M1", "one more_M1"]', 'rows of a report made at once again', AM)
    s.equal('reported again marks', '(sorted(r.rows[0][r.field_names.index("Parameters")].split(", ")), sorted(r2.rows[0][r2.field_names.index("Parameters")].split(", ")))', '(["p_M1(*)", "q_M1(*)"], ["p_M2(*)", "q_M2"])', 'marks of a second report', AM)
    # equations of one form, and a long one
    s = an.scn('m=Rep("M1")\nm.createEquation("a", d1, m.x() - m.z())\nm.createEquation("b", d2, m.x() - m.z())\nm.createEquation("c", d1, m.x() == m.z())\nr=Analysis().modelReport(m)\n', P, **INP)
    s.equal('equations of one form', '[[q[r.field_names.index(h)] for q in r.rows] for h in ["Equation name", "Description"]]', '[["a_M1", "b_M1", "c_M1"], [d1, d2, d1]]', 'rows of the report', AM, vocab=V)
    if an.names is None:
        s = an.scn('m=Model("M1", "")\nx=[m.createVariable("a_rather_long_name_"+str(i), ud, "") for i in range(18)]\ne=2.0*x[0]()\nfor v in x[1:]:\n    e=e+v()\nm.createEquation("e", "", e)\nr=Analysis().modelReport(m)\n', P, **INP)
        s.equal('long equation form', 'r.rows[0][r.field_names.index("Representation")]', 'repr(m.equations["e_M1"].equation_expression)', 'printed form of a long equation', AM, vocab=V)
        s.equal('long equation variables', 'sorted(r.rows[0][r.field_names.index("Variables")].split(", "))', 'sorted(["a_rather_long_name_"+str(i)+"_M1" for i in range(18)])', 'variables of a long equation', AM, vocab=V)
    # inputs and outputs, overview
    O = PROB + '''
class Ov(Model):
    def DeclareVariables(self):
        self.a=self.createVariable("a", ul, "", is_exposed=True, type="output")
        self.b=self.createVariable("b", ul, "", is_exposed=True, type="input")
        self.z=self.createVariable("z", ul, "")
        self.d=self.createVariable("d", ul, "", is_exposed=True, type="input")
    def DeclareParameters(self):
        self.p=self.createParameter("p", ul, "")
        self.k=self.createParameter("k", ul, "")
'''
    AI = ['model:Model._infoInputOutputVariables', 'model:Model._getModelOverviewForGraph']
    VALUED = 'm.b.setValue(v1)\nm.a.setValue(v2)\nm.p.setValue(v1)\n'
    for val, st in (('', ''), (VALUED, ', values given')):
        for arg in ('', 'False', 'print_output=True'):
            s = an.scn('m=Ov("M1")\nm()\no=Ov("M2")\n%sr=m._infoInputOutputVariables(%s)\n' % (val, arg), O, **{**INP, 'v1': num('v1'), 'v2': num('v2')})
            s.completes('inputs and outputs %s%s' % (arg, st), 'listing of inputs and outputs', AI)
            s.equal('inputs and outputs %s%s lists' % (arg, st), '[list(x) for x in r]', '[["b_M1", "d_M1"], ["a_M1"]]', 'names of the exposed inputs and outputs', AI)
        s = an.scn('m=Ov("M1")\nm()\n%sr=m._getModelOverviewForGraph()\n' % val, O, **{**INP, 'v1': num('v1'), 'v2': num('v2')})
        s.completes('overview' + st, 'overview of a model', AI)
        for n in ('M1', 'b_M1, d_M1', 'a_M1', 'p_M1, k_M1'):
            s.holds('overview%s names %s' % (st, n), '%r in r' % n, 'overview of a model', AI)
        s.holds('overview%s names no inner variable' % st, '"z_M1" not in r', 'overview of a model', AI)
    # an empty model
    s = an.scn('m=Model("M1", "")\nr=Analysis().modelReport(m)\n', P, **INP)
    s.equal('empty model', 'len(r.rows)', '0', 'report of a model without equations', AM)
    # the report of a problem holds the report of each model
    for ms, kind in ((['Lin'], 'linear'), (['Nl'], 'nonlinear'), (['Lin', 'Nl'], 'nonlinear'), (['Nl', 'Lin', 'Lin'], 'nonlinear'), (['Lin'] * 12, 'linear')):
        oid = 'problem of ' + (','.join(ms) if len(ms) < 9 else '%d models' % len(ms))
        src = 'P=Problem("thename", "")\n' + ''.join('m%d=%s("M%d")\nP.addModels(m%d)\n' % (i, c, i, i) for i, c in enumerate(ms)) + 'P.resolve()\nr=Analysis().problemReport(P)\n' \
            + 'R=[%s]\n' % ', '.join('str(Analysis().modelReport(m%d))' % i for i in range(len(ms)))
        for via, act in (('', ''), (' by the simulation', 'S=Simulation("S", "")\nS.report(P)\n'), (' by the problem', 'P._infoProblemReport_()\n')):
            s = an.scn(src + act, P, **INP)
            s.completes(oid + via, 'report of a problem', AP)
            if s.undecided or s.st is None:
                continue
            if via:
                pr = [a[0] for a in printed(s) if len(a) == 1]
                if not pr:
                    s.record(oid + via, 'violated', 'nothing printed', AP)
                    continue
                s.bind('PR', pr[-1])
                s.equal(oid + via, 'str(PR)', 'r', 'printed report', AP, vocab=V | {'prettytable.text'})
                continue
            v, R = s.val('r'), elems(s, s.val('R'))
            tx = const_text(v)
            if tx is None or R is None:
                s.record(oid + ' text', 'undecided', 'report is not a text', AP)
                continue
            got = [p for p in v.a if not isinstance(p, str) and p.kind == 'app' and p.a[0].a == 'prettytable.text']
            want = [p for t in R for p in t.a if not isinstance(p, str)]
            s.record(oid + ' tables', 'ok' if got == want else 'violated', 'the report holds the table of every model of the problem', AP)
            s.record(oid + ' name', 'ok' if 'thename' in tx and kind in tx.replace('nonlinear', 'N') + ('nonlinear' if 'nonlinear' in tx else '') and ('nonlinear' in tx) == (kind == 'nonlinear') else 'violated', 'name and kind of the problem in %r' % tx, AP)
            s.record(oid + ' models', 'ok' if all('M%d' % i in tx for i in range(len(ms))) else 'violated', 'names of the models in %r' % tx, AP)
    # the simulation prints the report of a model
    for via, act in (('simulation', 'S=Simulation("S", "")\nS.report(m)\n'), ('model', 'm._infoModelReport_()\n')):
        s = an.scn('m=Rep("M1")\nm()\nr=Analysis().modelReport(m)\n' + act, P, **INP)
        s.completes('report by the ' + via, 'report of a model', 'simulation:Simulation.report')
        t = tables_printed(s) if not s.undecided and s.st is not None else []
        if len(t) != 1:
            s.record('report by the %s table' % via, 'undecided' if s.undecided else 'violated', '%d tables printed' % len(t), 'simulation:Simulation.report')
            continue
        fill(s, t[0])
        s.equal('report by the %s header' % via, 'list(F)', 'r.field_names', 'printed header', 'simulation:Simulation.report', vocab=V)
        s.equal('report by the %s rows' % via, '[list(q) for q in R]', 'r.rows', 'printed rows', 'simulation:Simulation.report', vocab=V)
    for x in ('3', 'None', '[m]', '"m"', 'm.x', 'S'):
        s = an.scn('m=Rep("M1")\nS=Simulation("S", "")\nS.report(%s)\n' % x, P, **INP)
        s.rejects('report of %s' % x, ('UnexpectedValueError',), 'report of something else', 'simulation:Simulation.report')
    # the counts of a model
    at = 'model:Model._infoDegreesOfFreedom_'
    for cls, n in (('Rep', (4, 3, 3)), ('Lin', (2, 2, 1)), ('Ode', (2, 3, 1))):
        s = an.scn('m=%s("M1")\nm()\nr=m._infoDegreesOfFreedom_()\n' % cls, DYN + MOD, **{**INP, **CONF})
        s.equal('freedom of ' + cls, 'r', '(len(m.equations)-len(m.variables)-len(m.parameters), 0, 0)', 'degrees of freedom', at)
        t = tables_printed(s) if not s.undecided and s.st is not None else []
        hit = [x for x in t if x.a[1][0].kind == 'lst' and any(str_const(y) == 'Nb. Equations' for y in x.a[1][0].a)]
        if len(hit) != 1:
            s.record('counts of ' + cls, 'undecided', 'counts not recognised', at)
            continue
        fill(s, hit[0])
        for h, o in (('Nb. Equations', 'equations'), ('Nb. Variables', 'variables'), ('Nb. Parameters', 'parameters')):
            s.equal('%s of %s' % (h, cls), 'str(R[0][F.index("%s")])' % h, 'str(len(m.%s))' % o, 'count of the %s' % o, at)


def results(an):
    for model, conf in (('Lin', 'linear_solver="symbolicsys"'), ('Lin', 'linear_solver="sympy"'), ('Lin', 'linear_solver="scipy"'), ('Nl', 'nonlinear_solver="*"'), ('Nl', 'nonlinear_solver="sympy"')):
        oid = 'results of %s %s' % (model, conf)
        s = an.scn(H % (model, conf) + 'S.runSimulation(show_output_msg=False, show_final_residuals=False)\no=S.output\nS.showResults()\nres=S.getResults("dict")\n', PROB, pv=num('pv'))
        t = tables_printed(s) if not s.undecided and s.st is not None else []
        if len(t) != 1:
            s.record(oid + ' table', 'undecided', '%d tables printed' % len(t), AR)
            continue
        fill(s, t[0])
        s.equal(oid + ' header', 'list(F)', '["Variable", "Unit", "Value"]', 'header of the results', AR, vocab=V)
        s.equal(oid + ' variables', 'sorted(q[0] for q in R)', 'sorted(res)', 'variables shown', AR, vocab=V)
        s.equal(oid + ' values', '{q[0]: q[2] for q in R}', 'res', 'values shown', AR, vocab=V)
        s.equal(oid + ' units', '{q[0]: q[1] for q in R}', '{k: str(P.equation_block.variable_dict[k].units) for k in res}', 'units shown', AR, vocab=V)
        s.equal(oid + ' kept', 'S.output is o', 'True', 'results after they were shown', AR, vocab=V)
        s = an.scn(H % (model, conf) + 'S.showResults()\n', PROB, pv=num('pv'))
        s.rejects(oid + ' before a run', ('AssertionError',), 'results shown before any run', AR)
    Q = {'q%d' % i: num('q%d' % i) for i in range(3)}
    for model in MODELS:
        m = MODELS[model]
        for solver in (('IDA',) if m.residuals else ('ODEINT', 'CVODE')):
            for heads in ('own', 'default', 'renamed'):
                names = m.domain
                labels = ['t_M1'] + [v + '_M1' for v in names]
                own = ['H%d' % i for i in range(len(labels))]
                conf = ', times_for_solution=[q0, q1, q2]' + (', differential_solver="%s"' % solver if solver != 'IDA' else '')
                if heads == 'own':
                    conf += ', output_headers=%r' % own
                if heads == 'renamed':
                    conf += ', variable_name_map={%s}' % ', '.join('"%s": "%s"' % z for z in zip(labels, own))
                for how, c, runs in (('shown', '', 'S.runSimulation()\nS.showResults()\n'), ('printed while solving', ', print_output=True', 'S.runSimulation()\n'), ('shown after a second run', '', 'S.runSimulation()\nS.reset()\nm.dom._reset()\nS.runSimulation()\nS.showResults()\n')):
                    if how.startswith('shown after') and heads != 'own':
                        continue
                    oid = 'results of %s %s, %s headers, %s' % (model, solver, heads, how)
                    at = AR if how.startswith('shown') else 'solvers:%s.solve' % ('DaeSolver' if solver == 'IDA' else 'DSolver')
                    s = dynamic(an, model, conf + c, runs=runs, **Q)
                    s.completes(oid, 'results shown', at, vocab=V)
                    t = tables_printed(s) if not s.undecided and s.st is not None else []
                    if len(t) != 1:
                        s.record(oid + ' table', 'undecided', '%d tables printed' % len(t), at)
                        continue
                    fill(s, t[0])
                    res = own if heads == 'renamed' else labels
                    hd = own if heads == 'own' or heads == 'renamed' and how == 'shown' else labels
                    s.equal(oid + ' header', 'list(F)', repr(hd), 'header of the results', at, vocab=V)
                    rows = t[0].a[1][1].a
                    for i, row in enumerate(rows):
                        r = elems(s, row)
                        if r is None and row.kind == 't':
                            r = list(row.a)
                        if r is None:
                            s.record(oid + ' row %d' % i, 'undecided', 'row not recognised', at)
                            continue
                        if len(r) != len(labels):
                            s.record(oid + ' row %d' % i, 'violated', '%d values in a row of %d columns' % (len(r), len(labels)), at)
                            continue
                        s.bind('W', tup(r))
                        k = r[0].a[1] if r[0].kind == 'item' and solver != 'ODEINT' else const(i)
                        s.bind('K', k)
                        for j, l in enumerate(res):
                            if j == 0 and solver != 'ODEINT':
                                continue
                            s.equal(oid + ' row %d %s' % (i, l), 'W[%d]' % j, 'S.getResults("dict")["t_M1"]["%s"][K]' % l if solver == 'ODEINT' else 'm.dom.values["t_M1"]["%s"].values[K]' % l, 'value shown under the label', at, vocab=V)
                    s.record(oid + ' rows', 'ok' if len(rows) == 3 or solver != 'ODEINT' else 'violated', '%d rows shown' % len(rows), at)


def units(an):
    at = 'core.unit:Unit.__str__'
    vals = [0, 1, -1, 2, 0.5, -2, 3]
    cases = []
    for i in range(7):
        cases.append({DIMS[i]: 1})
        cases.append({DIMS[j]: vals[(i + j) % 7] for j in range(7)})
        cases.append({DIMS[j]: vals[(2 * i + 3 * j) % 7] for j in range(7) if (i + j) % 3})
        cases.append({DIMS[j]: 0 for j in range(i + 1)})
    cases.append({})
    for d in cases:
        s = an.scn('u=Unit("n", %r)\nr=str(u)\n' % d, PRE)
        s.equal('unit %r' % d, 'sorted(r.split(" ")) if r else []', 'sorted([k+"^"+str(v) for k, v in u.dimension.items() if v != 0])', 'printed dimensions', at)
        s.equal('unit %r count' % d, 'len(r.split(" ")) if r else 0', str(sum(1 for v in d.values() if v)), 'number of printed dimensions', at)
    for e in ('tu.Pa*tu.m', 'tu.J/tu.mol/tu.K', 'tu.Pa**2', 'tu.J/tu.s/tu.m**2/tu.K', 'tu.m/tu.m'):
        s = an.scn('u=%s\nr=str(u)\nd={**u.dimension}\n' % e, PRE)
        s.equal('unit ' + e, 'sorted(r.split(" ")) if r else []', 'sorted([k+"^"+str(v) for k, v in u.dimension.items() if v != 0])', 'printed dimensions', at)
        s.equal('unit %s kept' % e, 'd', 'u.dimension', 'unit after it was printed', at)
    for d in DIMS:
        s = an.scn('u=Unit("n", {"%s": a})\nr=str(u)\n' % d, PRE, a=num('a'))
        s.equal('symbolic exponent of ' + d, 'r', '"%s^"+str(u.dimension["%s"]) if a != 0 else ""' % (d, d), 'printed dimension', at, vocab={'str'})


def dump(an):
    at = 'simulation:Simulation.dumpConfigurations'
    conf = 'end_time=t1, number_of_time_steps=n, linear_solver="scipy", args=[1, 2], verbosity_solver=2, print_output=True, output_headers=["a"], configuration_args={"tol": tol}'
    for f, want in (('', '"S-conf.json"'), ('fn', 'fn'), ('file_name="x.json"', '"x.json"'), ('None', '"S-conf.json"')):
        s = an.scn('S=Simulation("S", "")\nS.setConfigurations(%s)\nc={**S.configurations}\nS.dumpConfigurations(%s)\n' % (conf, f), PROB, t1=num('t1'), n=sym('n', 'int'), tol=num('tol'), fn=strsym('fn'))
        oid = 'dump %s' % (f or 'without a name')
        s.completes(oid, 'configurations dumped', at)
        op, du = s.calls('open'), s.calls('json.dump')
        if s.undecided or len(op) != 1 or len(du) != 1:
            s.record(oid + ' calls', 'undecided', 'file access not recognised', at)
            continue
        s.bind('FN', raw(op[0], 0, 'file'))
        s.bind('MO', raw(op[0], 1, 'mode') or const('r'))
        s.bind('OB', raw(du[0], 0, 'obj'))
        s.equal(oid + ' file', '(FN, MO)', '(%s, "w")' % want, 'file of the dump', at)
        s.equal(oid + ' contents', 'OB', 'c', 'configurations dumped', at)
        s.equal(oid + ' kept', 'S.configurations', 'c', 'configurations after the dump', at)
        fh = raw(du[0], 1, 'fp')
        s.record(oid + ' handle', 'ok' if fh is op[0].result else 'undecided', 'the dump goes to the file opened', at)


ERRORS = [
    ('incoherent units', 'Unit("a", {"m": 1})+Unit("b", {"s": 2})', 'DimensionalCoherenceError', ()),
    ('incoherent sum', 'x()+y()', 'DimensionalCoherenceError', ()),
    ('incoherent equation', 'm.createEquation("e", "", x() == y())', 'DimensionalCoherenceError', ()),
    ('exponent', '2.0**x()', None, ()),
    ('exponential', 'eo.Exp(x())', None, ()),
    ('sine', 'eo.Sin(x())', None, ()),
    ('value with a unit', 'p.setValue(1.0, Unit("s", {"s": 1}))', None, ()),
    ('undeclared object', 'm2.createEquation("e", "", x() == x())', 'UnexpectedObjectDeclarationError', ('x_M',)),
    ('wrong value', 'p.setValue("a")', 'UnexpectedValueError', ()),
    ('connection of hidden variables', 'P.createConnection(m, m2, x, w)', 'ExposedVariableError', ('x_M', 'w_N')),
    ('no solver', 'S.runSimulation()', None, ()),
]


def errors(an):
    """every error a user meets can be printed"""
    src = 'm=Model("M", "")\nm2=Model("N", "")\nx=m.createVariable("x", ul, "")\ny=m.createVariable("y", us, "")\nw=m2.createVariable("w", ul, "")\np=m.createParameter("p", ul, "")\nP=Problem("P", "")\nP.addModels([m, m2])\nS=Simulation("S", "")\nmsg=None\ntry:\n    %s\nexcept Exception as e:\n    msg=str(e)\n    kind=type(e).__name__\n'
    at = 'core.error_definitions:'
    for name, act, kind, words in ERRORS:
        s = an.scn(src % act, PROB)
        s.completes('message: ' + name, 'message of the error', at)
        if s.undecided or s.st is None:
            continue
        if kind:
            s.equal('error: ' + name, 'kind', repr(kind), 'kind of the error', at)
        t = s.val('msg')
        tx = const_text(t)
        if tx is None:
            s.record('words: ' + name, 'undecided' if t is not NONE else 'violated', 'no message', at)
            continue
        for w in words:
            s.record('words: %s %s' % (name, w), 'ok' if w in tx else 'violated' if '\0' not in tx else 'undecided', '%r names %s' % (tx, w), at)


def run(an, tier):
    models(an)
    results(an)
    units(an)
    dump(an)
    errors(an)
