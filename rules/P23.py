from .solve import *

RULE = ('every solution value is reported under the variable whose equation/initial value stands at its position in the solver; every initial value or initial guess reaches the position of its variable; '
        'the residual table pairs equations with their own residuals')
NESTED = True
AT = ['solvers:DSolver.solve', 'solvers:DaeSolver.solve', 'core.domain:Domain._register', 'simulation:Simulation.getResults']
PRE2 = DYN + '\nimport numpy as np\n'
MIX = ['nlong', 'b', 'aa10', 'aa2']
PRE3 = PROB + '''
class LinN(Model):
    """unknowns whose order of declaration follows neither their names nor the equations"""
    nl=False
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.v=[self.createVariable(n, ul, "") for n in ("nlong", "b", "aa10", "aa2")]
        self.p=self.createParameter("p", ud, "dp")
    def DeclareParameters(self):
        self.p.setValue(pv)
    def DeclareEquations(self):
        n, b, a10, a2 = [x() for x in self.v]
        self.createEquation("zz", "", a2 == 2.0*b + a10)
        self.createEquation("q", "", self.p()*n + b - 3.0)
        self.createEquation("a", "", a10 - 3.0*b + n)
        if self.nl:
            self.createEquation("k1", "", b*a2 - 4.0)
        else:
            self.createEquation("k1", "", b + a2 == 4.0)
class NlN(LinN):
    nl=True
'''


def dyn(an, model, conf, oid, **kw):
    m = MODELS[model]
    names = m.states + m.algebraic
    s = dynamic(an, model, conf, **kw)
    if not s.completes(oid, 'simulation runs', AT):
        return
    g = integration(s)
    p = s.calls('assimulo.problem.Implicit_Problem')
    if g is not None:
        y0 = elems(g['made'], g['y0'])
    elif len(p) == 1:
        y0 = elems(s.during(p[0]), raw(p[0], 1, 'y0'))
    else:
        an.record(oid, 'undecided', 'integration not recognised', AT)
        return
    pos = position_names(y0, names)
    if pos is None and any(T.is_const(x) for x in y0 or []):
        s.record(oid + ' positions', 'violated', 'initial state %s is not the initial conditions last given' % [show(x) for x in y0], at=AT, kind='value')
        return
    if pos is None or sorted(pos) != sorted(names):
        an.record(oid, 'undecided', 'initial state not recognised', AT)
        return
    sim = s.calls('.simulate')
    if sim:
        s.bind('RES', sim[-1].result)
        Y = 'np.array(RES[1])'
        times = ('np.array(RES[0])',) if g is not None else ('np.array(RES[0])', 'np.linspace(t0, t1, n+1)')
    else:
        s.bind('RES', g['result'])
        Y = 'RES'
        times = ('np.linspace(t0, t1, n+1)',)
    s.equal(oid + ' tables', 'list(S.getResults("dict"))', '["t_M1"]', 'result tables', AT)
    s.equal(oid + ' labels', 'sorted(S.getResults("dict")["t_M1"])', repr(sorted(['t_M1'] + [v + '_M1' for v in names])), 'labels of the results', AT)
    for v in names:
        s.equal(oid + ' results of %s' % v, 'S.getResults("dict")["t_M1"]["%s_M1"]' % v, '%s[:, %d].tolist()' % (Y, pos.index(v)), 'values reported for %s' % v, AT, vocab={'.simulate', 'numpy.col'})
    tv = []
    try:
        tv = [t for t in times if s.differ(s.val('S.getResults("dict")["t_M1"]["t_M1"]'), s.val('(%s).tolist()' % t), s.st.pc, {'.simulate'}) is None]
    except (Undecided, Dead, _EvalRaised):
        pass
    s.equal(oid + ' times', 'S.getResults("dict")["t_M1"]["t_M1"]', '(%s).tolist()' % (tv[0] if tv else times[-1]), 'times reported', AT, vocab={'.simulate'})
    s.equal(oid + ' list', '[[m.dom.values["t_M1"].columns[j], r[:, j].tolist()] for r in S.getResults("list") for j in range(%d)]' % (len(names) + 1),
            '[[k, v] for k, v in S.getResults("dict")["t_M1"].items()]', 'results as a list of columns', AT, vocab={'.simulate'})
    return s


def rows(s, oid, V, n):
    """the residual table pairs every equation with its own residual"""
    rs = s.calls('.add_row')
    if len(rs) != n:
        other = [e for e in s.events if e.name and ('add_rows' in e.name or 'add_column' in e.name)]
        s.record(oid + ' residual table', 'undecided' if other else 'violated', 'residual table not recognised' if other else '%d rows, %d equations' % (len(rs), n), 'simulation:Simulation.runSimulation')
        return
    for i, e in enumerate(rs):
        s.bind('ROW', raw(e, 0, 'row'))
        s.equal(oid + ' residual row %d' % i, 'ROW[0]', 'P.equation_block.equations[%d].name' % i, 'equation of a row of the residual table', 'simulation:Simulation.runSimulation', vocab=V)
        s.equal(oid + ' residual of row %d' % i, 'ROW[1]', 'P.equation_block._equations_list[%d].subs(S.getResults("dict"))' % i, 'residual in a row of the residual table', 'simulation:Simulation.runSimulation', vocab=V)


def alg(an, model, conf, oid, pre=''):
    at = ['solvers:LASolver', 'solvers:NLASolver', 'simulation:Simulation.getResults']
    V = {'pyneqsys.symbolic.SymbolicSys', '.solve', 'truth', 'scipy.optimize.root', 'scipy.linalg.solve', 'sympy.solve', 'sympy.linear_eq_to_matrix', '.success', '.x', 'numpy.array', 'float'}
    s = an.scn('%sP=Problem("P", "")\nP.addModels(%s)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s)\nS.runSimulation()\n' % (pre or 'm=%s("M1")\n' % model, '[m, mm]' if pre else 'm', conf),
               PRE3, pv=num('pv'), **{'g' + v + i: num('g' + v + i) for v in ['x', 'y'] + MIX for i in '12'})
    if s.undecided or s.st is None:
        an.record(oid, 'undecided', 'run: %s' % s.undecided, at)
        return
    sy, so, li = s.calls('pyneqsys.symbolic.SymbolicSys'), s.calls('sympy.solve'), s.calls('sympy.linear_eq_to_matrix')
    names = ['%s_M%d' % (v, i) for i in ((2, 1) if pre else (1,)) for v in (MIX if model.endswith('N') else 'xy')]
    if len(sy) == 1 and not so and not li:
        call = s.calls('.solve')
        if len(call) != 1:
            an.record(oid, 'undecided', 'solver call not recognised', at)
            return
        s.bind('NAMES', sy[0].raw[0][0])
        s.bind('R', call[0].result)
        s.bind('GUESS', raw(call[0], 0, 'x0'))
        val = 'R[0][%d]'
    elif len(so) == 1 and not sy and not li:
        s.bind('R', so[0].result)
        val = None
    elif len(li) == 1 and not sy and not so:
        call = s.calls('scipy.linalg.solve')
        if len(call) != 1:
            an.record(oid, 'undecided', 'solver call not recognised', at)
            return
        s.bind('NAMES', li[0].raw[0][1])
        s.bind('R', call[0].result)
        val = 'R[%d]'
    else:
        an.record(oid, 'undecided', 'solver call not recognised', at)
        return
    if val is None:
        s.equal(oid + ' output', '{str(k): v for k, v in S.output.items()}', '{str(k): v for k, v in R.items()}', 'solution returned', at, vocab=V)
        s.equal(oid + ' results', 'S.getResults("dict")', '{str(k): v for k, v in R.items()}', 'results of the unknowns', at, vocab=V)
        s.equal(oid + ' list', '[v for v in S.getResults("list")]', '[float(v) for v in S.output.values()]', 'results as a list', at, vocab=V)
        rows(s, oid, V, len(names))
        return
    try:
        order = [an.plain(str_const(x)) for x in elems(s, s.val('[str(v) for v in NAMES]'))]
    except (Undecided, Dead, _EvalRaised, TypeError) as e:
        an.record(oid, 'undecided', 'unknowns not recognised', at)
        return
    if sorted(map(str, order)) != sorted(names):
        an.record(oid, 'undecided', 'unknowns not recognised', at)
        return
    s.equal(oid + ' output', '{str(k): v for k, v in S.output.items()}', '{%s}' % ', '.join('"%s": %s' % (n, val % order.index(n)) for n in names), 'values reported for the unknowns', at, vocab=V)
    s.equal(oid + ' results', 'S.getResults("dict")', '{%s}' % ', '.join('"%s": %s' % (n, val % order.index(n)) for n in names), 'results of the unknowns', at, vocab=V)
    s.equal(oid + ' list', '[v for v in S.getResults("list")]', '[%s]' % ', '.join('float(%s)' % (val % order.index(n)) for n in names), 'results as a list, in the order of the unknowns', at, vocab=V)
    if 'GUESS' in s.st.heap[s.env.a].data:
        given = 'initial_guess=' in conf
        spec = '[%s]' % ', '.join('g%s%s' % (n[:-3], n[-1]) if given else '1.0' for n in order)
        if 'initial_guess_solver' in conf:
            r = s.calls('scipy.optimize.root')
            if len(r) != 1:
                an.record(oid + ' guess', 'undecided', 'improvement of the guess not recognised', at)
                return
            s.bind('ROOT', r[0].result)
            s.bind('START', raw(r[0], 1, 'x0'))
            s.equal(oid + ' start', '[v for v in START]', spec, 'initial guess given to the improvement', at, vocab=V)
            spec = '(%s if not ROOT.success or ROOT.x is None else ROOT.x)' % spec
        s.equal(oid + ' guess', 'GUESS', spec, 'initial guess given to the solver', at, vocab=V)
    rows(s, oid, V, len(names))


def run(an, tier):
    for model in MODELS:
        for conf in ([''] + ([', differential_solver="CVODE"', ', compile_equations=False'] if not model.startswith('Dae') else [', compilation_mechanism="math"'])):
            dyn(an, model, conf, model + conf)
        dyn(an, model, '', model + ' conditions in another order', shuffle=True)
        dyn(an, model, '', model + ' conditions given in parts', parts=True)
        s = dyn(an, model, '', model + ' conditions given twice', before='early={"b_M1": 11.0, "t_M1": 12.0, "a_M1": 13.0, "x_M1": 14.0, "nothing": 15.0}\nP.setInitialConditions(early)\n')
        if s is not None:
            s.equal(model + ' conditions given twice kept', 'early', '{"b_M1": 11.0, "t_M1": 12.0, "a_M1": 13.0, "x_M1": 14.0, "nothing": 15.0}', 'initial conditions given before', 'problem:Problem.setInitialConditions')
    # several integrations into one domain: rows are appended under the same labels; a reset starts anew
    for conf in ('', ', differential_solver="CVODE"'):
        s = dynamic(an, 'Ode', conf, runs='S.runSimulation()\nfirst=S.getResults("dict")\nS.reset()\ncleared=S.getResults("dict")\nS.runSimulation()\n')
        s.completes('rerun after reset' + conf, 'second run after a reset', AT)
        ev = s.calls('scipy.integrate.odeint') or s.calls('assimulo.problem.Explicit_Problem')
        sim = s.calls('.simulate')
        s.equal('reset %s results' % conf, 'cleared', '{"t_M1": {"t_M1": [], "a_M1": [], "b_M1": []}}', 'results after a reset', AT, vocab={'.simulate', 'scipy.integrate.odeint', '.tolist', 'numpy.array', 'numpy.col', 'numpy.linspace', '.to_dict'})
        pos = position_names(elems(s.during(ev[1]), raw(ev[1], 1, 'y0')), ['a', 'b']) if len(ev) == 2 else None
        if pos is None or sorted(pos) != ['a', 'b'] or len(sim) not in (0, 2):
            an.record('rerun after reset %s results' % conf, 'undecided', 'integration not recognised', AT)
            continue
        s.bind('RES', sim[1].result if sim else ev[1].result)
        Y = 'np.array(RES[1])' if sim else 'RES'
        s.equal('rerun after reset %s results' % conf, 'S.getResults("dict")["t_M1"]', '{"t_M1": %s.tolist(), %s}' % ('np.array(RES[0])' if sim else 'np.linspace(t0, t1, n+1)', ', '.join('"%s_M1": %s[:, %d].tolist()' % (v, Y, pos.index(v)) for v in ('b', 'a'))),
                'results after a reset and a second run', AT, vocab={'.simulate'})
    # whatever happened before: a reset empties the results
    for conf in ('', ', differential_solver="CVODE"'):
        for what, acts in (('a run that failed', 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n, differential_solver="none")\ntry:\n    S.runSimulation()\nexcept Exception:\n    pass\n'),
                           ('a reset', 'S.reset()\n'), ('another configuration', 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=5)\n'), ('a second run', 'S.runSimulation()\n'),
                           ('reading the results', 'k=S.getResults("dict")\nl=S.getResults()\nst=S.getStatus()\n'), ('a run stopped by the sanity check', 'k=m.createVariable("more", m.a.units, "")\nw=m.createVariable("more2", m.a.units, "")\nm.createEquation("more", "", k()+w()-m.a())\nP.resolve()\ntry:\n    S.runSimulation()\nexcept Exception:\n    pass\n')):
            s = dynamic(an, 'Ode', conf, runs='S.runSimulation()\nbefore=S.getResults("dict")\n%sS.reset()\ncleared=S.getResults("dict")\nlisted=S.getResults()\n' % acts)
            oid = 'reset after %s%s' % (what, conf)
            if s.completes(oid, 'reset', AT):
                W = {'.simulate', 'scipy.integrate.odeint', '.tolist', 'numpy.array', 'numpy.col', 'numpy.linspace', '.to_dict'}
                s.equal(oid + ' results', 'cleared', '{"t_M1": {"t_M1": [], "a_M1": [], "b_M1": []}}', 'results after a reset', AT, vocab=W)
                s.equal(oid + ' list', '[len(v) for v in listed]', '[0]', 'results after a reset', AT, vocab=W)
    # names given for the results
    for model in ('Ode', 'Dae'):
        s = dynamic(an, model, ', variable_name_map={"a_M1": "alpha", "t_M1": "time"}')
        r = dynamic(an, model, '')
        s.completes('renamed ' + model, 'results under given names', AT)
        s.equal('renamed %s labels' % model, 'sorted(S.getResults("dict")["t_M1"])', 'sorted(["alpha", "time", "b_M1"%s])' % (', "c_M1"' if model == 'Dae' else ''), 'names of the results', AT)
        g = integration(s)
        if model == 'Ode' and g is not None and (position_names(elems(g['made'], g['y0']), ['a', 'b']) or [None]).count('a') == 1:
            j = position_names(elems(g['made'], g['y0']), ['a', 'b']).index('a')
            s.bind('RES', g['result'])
            s.equal('renamed values', 'S.getResults("dict")["t_M1"]["alpha"]', 'RES[:, %d].tolist()' % j, 'values under a given name', AT)
            s.equal('renamed other values', 'S.getResults("dict")["t_M1"]["b_M1"]', 'RES[:, %d].tolist()' % (1 - j), 'values under the own name', AT)
    for model, kw in (('Lin', 'linear_solver'), ('Nl', 'nonlinear_solver'), ('LinN', 'linear_solver'), ('NlN', 'nonlinear_solver')):
        for sv in ('symbolicsys', 'sympy') + (('scipy',) if model.startswith('Lin') else ('*',)):
            pol = ['', ', initial_guess={%s}' % ', '.join('"%s_M1": g%s1' % (v, v) for v in (sorted(MIX) if model.endswith('N') else 'yx'))]
            if model.startswith('Nl') and sv != 'sympy':
                pol += [p + ', initial_guess_solver="%s"' % q for p in pol for q in ('hybr', 'anderson')]
            for c in pol:
                alg(an, model, '%s="%s"%s' % (kw, sv, c), '%s by %s%s' % (model, sv, c))
            if model.endswith('N'):
                continue
            alg(an, model, '%s="%s"' % (kw, sv), 'two %s by %s' % (model, sv), 'mm=%s("M1")\nm=%s("M2")\n' % (model, model))
            alg(an, model, '%s="%s", initial_guess={"x_M2": gx2, "y_M1": gy1, "y_M2": gy2, "x_M1": gx1}' % (kw, sv), 'two %s by %s with a guess' % (model, sv), 'mm=%s("M1")\nm=%s("M2")\n' % (model, model))
    # no initial value is made up
    for model in MODELS:
        m = MODELS[model]
        for v in m.states + m.algebraic + ([v + '_d' for v in m.states] if m.residuals else []):
            for conf in (('', ', differential_solver="CVODE"') if not m.residuals else ('',)):
                at = ['solvers:DSolver.solve'] if not m.residuals else ['solvers:DaeSolver.solve']
                oid = '%s%s without the initial value of %s' % (model, conf, v)
                s = dynamic(an, model, conf, skip=('%s_M1' % v if not v.endswith('_d') else '%s_M1_d' % v[:-2],))
                ev = s.calls('scipy.integrate.odeint', '.simulate')
                if s.undecided:
                    an.record(oid, 'undecided', s.undecided, at)
                elif s.st is not None and not ev:
                    an.record(oid, 'undecided', 'integration not recognised', at)
                else:
                    s.record(oid, 'violated' if ev else 'ok', 'integrated without the initial value of %s' % v if ev else 'run is rejected', at, 'value')
    definite(an)


def definite(an):
    """solutions of definite values, also zero, equal and negative ones: reported and put into the residuals as they are"""
    at = ['simulation:Simulation.getResults', 'simulation:Simulation.runSimulation']
    for model, kw, head in (('Lin', 'linear_solver="symbolicsys"', '.solve'), ('Lin', 'linear_solver="scipy"', 'scipy.linalg.solve'), ('Nl', '', '.solve'), ('Lin', 'linear_solver="sympy"', 'sympy.solve'), ('Nl', 'nonlinear_solver="sympy"', 'sympy.solve')):
        for u, w in (('0.0', '0.0'), ('0.0', '2.5'), ('-1.0', '0.0'), ('3.0', '3.0'), ('1e-14', '-1e12')):
            ans = {'.solve': '(np.array([%s, %s]), {"success": True})' % (u, w), 'scipy.linalg.solve': 'np.array([%s, %s])' % (u, w), 'sympy.solve': '[{sp.Symbol("y_M1"): %s, sp.Symbol("x_M1"): %s}]' % (w, u)}
            oid = '%s %s solution %s, %s' % (model, kw, u, w)
            s = an.scn('import numpy as np\nm=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s)\nS.runSimulation()\nst=S.getStatus()\nr=S.getResults("dict")\nl=S.getResults()\n' % (model, kw), PROB, pv=num('pv'), _answers={head: ans[head]})
            if not s.completes(oid, 'run of an algebraic problem', at):
                continue
            sy, li = s.calls('pyneqsys.symbolic.SymbolicSys'), s.calls('sympy.linear_eq_to_matrix')
            if head == 'sympy.solve':
                pos = ['x_M1', 'y_M1']
            elif len(sy) + len(li) == 1:
                names = elems(s, (sy[0].raw[0][0] if sy else li[0].raw[0][1]))
                s.bind('NAMES', sy[0].raw[0][0] if sy else li[0].raw[0][1])
                pos = None
            else:
                an.record(oid, 'undecided', 'solver call not recognised', at)
                continue
            want = '{"x_M1": %s, "y_M1": %s}' % (u, w) if pos else 'dict(zip([str(n) for n in NAMES], [%s, %s]))' % (u, w)
            s.equal(oid + ' results', 'r', want, 'solution as a dictionary', at)
            s.equal(oid + ' list', 'sorted(l)', 'sorted([%s, %s])' % (u, w), 'solution as a list', at)
            s.equal(oid + ' status', 'st', '0', 'status', at)
            rs = s.calls('.add_row')
            if len(rs) == 2:
                for i, e in enumerate(rs):
                    s.bind('ROW', raw(e, 0, 'row'))
                    s.equal(oid + ' residual of row %d' % i, 'ROW[1]', 'P.equation_block._equations_list[%d].subs(%s)' % (i, want), 'residual in a row of the residual table', at)
