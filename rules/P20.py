from .solve import *

RULE = ('the right side given to an ODE integrator maps position i (the position of the initial value of a state) to the right side of that state\'s equation at the given state and time; '
        'the residual given to a DAE integrator evaluates exactly the residuals of the equations; compiled and interpreted evaluation agree; algebraic solvers get the residuals over the unknowns')


def leftover(v):
    """a compiled function whose expressions still contain a derivative, which no argument of the function replaces"""
    from sa import terms as T, interp as I
    for u in T.subterms(v):
        if u.kind == 'app' and I.head_name(u.a[0]) == 'sympy.lambdify' and len(u.a[1]) >= 2:
            if any(w.kind == 'app' and I.head_name(w.a[0]) in ('sympy.diff', 'sympy.Derivative') for w in T.subterms(u.a[1][1])):
                return True
    return False


NESTED = True
AT = ['solvers:DSolver.solve', 'core.equation_block:EquationBlock._getEquationBlockAsFunction']


def ode(an, model, conf, oid, pre='', shuffle=False):
    m = MODELS[model]
    s = dynamic(an, model, conf, pre, shuffle=shuffle)
    if not s.completes(oid, 'simulation runs', AT):
        return
    g = integration(s)
    y0 = elems(g['made'], g['y0']) if g else None
    pos = position_names(y0, m.states)
    if pos is None:
        an.record(oid + ' positions', 'undecided', 'initial state not recognised', AT)
        return
    if sorted(pos) != sorted(m.states):
        s.record(oid + ' positions', 'violated', 'initial values given to the integrator are those of %s, required each state once (%s)' % (pos, m.states), AT, 'value')
        return
    s.record(oid + ' positions', 'ok', 'every state has its initial value once', AT)
    s = g['runs']
    s.bind('F', g['fun'])
    s.bind('Y', N.mkvec([num('Y' + v) for v in pos]))
    spec = '[%s]' % ', '.join(m.rhs[v].format(t='TT', **{w: 'Y' + w for w in m.states}) for v in pos)
    call = 'F(Y, TT)' if g['kind'] == 'odeint' else 'F(TT, Y)'
    s.equal(oid + ' right sides', '[v for v in %s]' % call, spec, 'right sides given to the integrator at a state (%s) and time' % ', '.join(pos), AT, when='pv != 0')


def two_ode(an, classes, times, conf, oid):
    """two models in one problem, each with a time variable of its own"""
    ms = [MODELS[c] for c in classes]
    names = [(v, i) for i in (1, 2) for v in ms[i - 1].states]
    ics = ['"%s_M%d": %s%d0' % (v, i, v, i) for v, i in names] + ['"t_M%d": tic' % i for i in times]
    inp = dict(CONF, TT=num('TT'))
    for v, i in names:
        inp['%s%d0' % (v, i)] = num('%s%d0' % (v, i))
        inp['Y%s%d' % (v, i)] = num('Y%s%d' % (v, i))
    s = an.scn('m=%s("M1")\nk=%s("M2")\nP=Problem("P", "")\nP.addModels([m, k])\nfor v in [%s]:\n    v.distributeOnDomain(m.dom)\nP.setTimeVariableName(["t_M%d", "t_M%d"])\nP.setInitialConditions({%s})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
               'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\nS.runSimulation()\n' % (classes[0], classes[1], ', '.join('k.' + v for v in ms[1].states), times[0], times[1], ', '.join(ics), conf), DYN + "\nimport numpy as np\n", **inp)
    if not s.completes(oid, 'simulation runs', AT):
        return
    g = integration(s)
    pos = position_names(elems(g['made'], g['y0']) if g else None, ['%s%d' % x for x in names])
    if pos is None:
        an.record(oid + ' positions', 'undecided', 'initial state not recognised', AT)
        return
    s.holds(oid + ' positions', repr(sorted(pos) == sorted('%s%d' % x for x in names)), 'every state has its initial value once', AT)
    s = g['runs']
    s.bind('F', g['fun'])
    s.bind('Y', N.mkvec([num('Y' + v) for v in pos]))
    spec = '[%s]' % ', '.join(ms[int(v[-1]) - 1].rhs[v[:-1]].format(t='TT', **{w: 'Y%s%s' % (w, v[-1]) for w in ms[int(v[-1]) - 1].states}) for v in pos)
    call = 'F(Y, TT)' if g['kind'] == 'odeint' else 'F(TT, Y)'
    s.equal(oid + ' right sides', '[v for v in %s]' % call, spec, 'right sides given to the integrator at a state (%s) and time' % ', '.join(pos), AT, when='pv != 0')


def dae(an, model, conf, oid, shuffle=False):
    m = MODELS[model]
    at = ['solvers:DaeSolver.solve', 'core.equation_block:EquationBlock._getEquationBlockAsFunction', 'core.equation_block:EquationBlock._getMapForRewriteSystemAsResidual']
    dae_function(an, dynamic(an, model, conf, shuffle=shuffle), m.states, m.algebraic, m.residuals, oid, at)


def two_dae(an, classes, times, conf, oid):
    """a differential-algebraic problem of two models, each with a time variable of its own"""
    ms = [MODELS[c] for c in classes]
    states = [v + str(i) for i in (1, 2) for v in ms[i - 1].states]
    algebraic = [v + str(i) for i in (1, 2) for v in ms[i - 1].algebraic]
    ics = ['"%s_M%s": %s0' % (v[:-1], v[-1], v) for v in states + algebraic] + ['"%s_M%s_d": %sd0' % (v[:-1], v[-1], v) for v in states] + ['"t_M%d": tic' % i for i in times]
    inp = dict(CONF, TT=num('TT'))
    for v in states + algebraic:
        for k in ('%s0', '%sd0', 'Y%s', 'D%s'):
            inp[k % v] = num(k % v)
    s = an.scn('m=%s("M1")\nk=%s("M2")\nP=Problem("P", "")\nP.addModels([m, k])\nfor v in [%s]:\n    v.distributeOnDomain(m.dom)\nP.setTimeVariableName(["t_M%d", "t_M%d"])\nP.setInitialConditions({%s})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
               'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\nS.runSimulation()\n' % (classes + (', '.join('k.' + v for v in ms[1].states + ms[1].algebraic),) + tuple(times) + (', '.join(ics), conf)), DYN, **inp)
    res = [r.format(t='TT', **{k: '{%s%d}' % (k.replace('_d', ''), i) if not k.endswith('_d') else '{%s%d_d}' % (k[:-2], i) for k in ms[i - 1].states + ms[i - 1].algebraic + [v + '_d' for v in ms[i - 1].states]}) for i in (1, 2) for r in (ms[i - 1].residuals or ['{%s_d}-(%s)' % (v, ms[i - 1].rhs[v]) for v in ms[i - 1].states])]
    dae_function(an, s, states, algebraic, res, oid, ['solvers:DaeSolver.solve', 'core.equation_block:EquationBlock._getEquationBlockAsFunction', 'core.equation_block:EquationBlock._getMapForRewriteSystemAsResidual'])


def dae_function(an, s, states, algebraic, residuals, oid, at):
    if not s.completes(oid, 'simulation runs', at):
        return
    p = s.calls('assimulo.problem.Implicit_Problem')
    if len(p) != 1:
        an.record(oid + ' problem', 'undecided', 'DAE problem not recognised', at)
        return
    names = states + algebraic
    y0 = elems(s.during(p[0]), raw(p[0], 1, 'y0'))
    yd0 = elems(s.during(p[0]), raw(p[0], 2, 'yd0'))
    pos = position_names(y0, names)
    if pos is None or yd0 is None:
        an.record(oid + ' positions', 'undecided', 'initial state not recognised', at)
        return
    if sorted(pos) != sorted(names):
        s.record(oid + ' positions', 'violated', 'initial values given to the integrator are those of %s, required each variable once (%s)' % (pos, names), at, 'value')
        return
    s.record(oid + ' positions', 'ok', 'every variable has its initial value once', at)
    s = running(s, p[0])
    s.bind('F', raw(p[0], 0, 'res'))
    s.bind('Y', N.mkvec([num('Y' + v) for v in pos]))
    s.bind('D', N.mkvec([num('D' + v) for v in pos]))
    env = {v: 'Y' + v for v in names}
    env.update({v + '_d': 'D' + v for v in names})
    spec = [r.format(t='TT', **env) for r in residuals]
    try:
        got = elems(s, s.val('F(TT, Y, D)'))
        want = [s.val(x) for x in spec]
    except (Undecided, Dead, _EvalRaised) as e:
        st = 'violated' if isinstance(e, _EvalRaised) and e.r.site[0] != '<scenario>' else 'undecided'
        s.record(oid + ' residuals', st, 'residual function: %s' % (s.describe_raise(e.r) if isinstance(e, _EvalRaised) else e), at, 'raises')
        return
    if got is None:
        if leftover(s.val('F(TT, Y, D)')):
            s.record(oid + ' residuals', 'violated', 'the compiled residual function leaves a derivative unreplaced', at, 'value')
            return
        an.record(oid + ' residuals', 'undecided', 'residual function not recognised', at)
        return
    from sa.scenario import same_value, unknown_heads, VOCAB
    if any(unknown_heads(x, VOCAB) for x in got):

        an.record(oid + ' residuals', 'undecided', 'residual function not recognised', at)
        return
    rest = list(got)
    for w in want:
        hit = next((x for x in rest if same_value(x, w)), None)
        if hit is None:
            s.record(oid + ' residuals', 'violated', 'residual %s is not among those given to the integrator: %s' % (show(w), '; '.join(show(x) for x in got)), at, 'value')
            return
        rest.remove(hit)
    if rest:
        s.record(oid + ' residuals', 'violated', 'additional residuals given to the integrator: %s' % '; '.join(show(x) for x in rest), at, 'value')
        return
    s.record(oid + ' residuals', 'ok', 'residuals given to the integrator', at)
    for v in states:
        i = pos.index(v)
        if yd0[i] is not num(v + 'd0'):
            s.record(oid + ' initial derivative of %s given' % v, 'violated', 'initial derivative of %s is %s' % (v, show(yd0[i])), at, 'value')
        else:
            s.record(oid + ' initial derivative of %s given' % v, 'ok', 'initial derivative', at)
    # differential/algebraic flags: position by position
    cands = [o for o in s.st.heap.values() if o.kind == 'ext' and 'algvar' in o.data]
    if len(cands) == 1:
        s.bind('FLAGS', cands[0].data['algvar'])
        s.equal(oid + ' flags', '[bool(f) for f in FLAGS]', repr([v in states for v in pos]), 'differential (1) and algebraic (0) variables', at)
    else:
        an.record(oid + ' flags', 'undecided', 'flags not recognised', at)


FULL = {None, 'numpy.float64', 'float', 'float64', 'd', 'f8', 'numpy.double', 'double', 'numpy.longdouble'}
LESS = {'numpy.float32', 'numpy.float16', 'numpy.single', 'numpy.half', 'float32', 'float16', 'f4', 'f2', 'f', 'int', 'int32', 'int64', 'numpy.int32', 'numpy.int64', 'bool', 'i'}


def matrix(t):
    """(index of the matrix made of the equations, negated, numeric types used on the way) of an argument of the linear solver; None when not recognised"""
    from sa import interp as I
    from sa.terms import str_const, cval, is_pynum
    types, sign = [], 1

    def dtype(d):
        if d is None:
            return None
        return d.a if d.kind in ('ext', 'bt') else str_const(d) if d.kind == 's' else show(d)
    while t is not None:
        if t.kind == 'item' and t.a[0].kind == 'app' and I.head_name(t.a[0].a[0]) == 'sympy.linear_eq_to_matrix' and is_pynum(t.a[1]):
            return int(cval(t.a[1])), sign, types
        if t.kind == 'sum' or t.kind == 'mul' or t.kind == 'neg':
            p = T.neg(t)
            if p.kind in ('app', 'item'):
                t, sign = p, -sign
                continue
            return None
        if t.kind != 'app':
            return None
        n, kw = I.head_name(t.a[0]), dict(t.a[2])
        if n in ('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray') and t.a[1]:
            types.append(dtype(kw.get('dtype', t.a[1][1] if len(t.a[1]) > 1 else None)))
            t = t.a[1][0]
        elif n == '.astype' and t.a[1]:
            types.append(dtype(t.a[1][0]))
            t = t.a[0].a[0]
        elif n in ('.flatten', '.ravel', '.tolist', '.copy', '.squeeze'):
            t = t.a[0].a[0]
        elif n in ('numpy.ravel', 'numpy.squeeze', 'numpy.copy') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return None
    return None


def given(s, oid, at):
    """matrix and right side given to the linear solver"""
    call = s.calls('scipy.linalg.solve')
    if s.undecided or len(call) != 1:
        s.record(oid, 'undecided', 'solver call not recognised', at, 'value')
        return
    for i, name, label in ((0, 'a', 'matrix'), (1, 'b', 'right side')):
        m = matrix(raw(call[0], i, name))
        if m is None or not all(d in FULL or d in LESS for d in m[2]):
            s.record(oid + ' ' + label, 'undecided', '%s not recognised' % label, at, 'value')
        else:
            bad = 'item %d of the equations in matrix form, required item %d' % (m[0], i) if m[0] != i else 'negated' if m[1] < 0 else 'reduced to %s' % [d for d in m[2] if d in LESS] if any(d in LESS for d in m[2]) else None
            s.record(oid + ' ' + label, 'violated' if bad else 'ok', '%s given to the linear solver: %s' % (label, bad or 'complete'), at, 'value')
    kw = {k: v for k, v in call[0].raw[1].items() if k not in ('a', 'b', 'lower', 'overwrite_a', 'overwrite_b', 'check_finite', 'debug')}
    bad = [k for k, v in kw.items() if k == 'assume_a' and str_const(v) not in ('gen', 'general') or k == 'transposed' and v is not FALSE or k in ('sym_pos',) and v is not FALSE]
    s.record(oid + ' assumptions', 'violated' if bad else 'ok', 'assumptions about the matrix: %s' % ({k: show(kw[k]) for k in bad} or 'none'), at, 'value')


def algebraic(an):
    at = ['solvers:LASolver', 'solvers:NLASolver']
    X = lambda n: 'sp.symbols("%s_M1")' % n
    eqs = {'Lin': ['%s-2.0*%s' % (X('x'), X('y')), 'pv*%s+%s-3.0' % (X('x'), X('y'))], 'Nl': ['%s-2.0*%s' % (X('x'), X('y')), '%s*%s-3.0' % (X('x'), X('y'))]}
    for model, kw in (('Lin', 'linear_solver'), ('Nl', 'nonlinear_solver')):
        for sv in ('symbolicsys', 'sympy') + (('scipy',) if model == 'Lin' else ('*',)):
            for polish in ('',) if model == 'Lin' or sv == 'sympy' else ('', ', initial_guess_solver="hybr"', ', initial_guess_solver="anderson"'):
                oid = '%s by %s%s' % (model, sv, polish)
                s = an.scn('m=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s="%s"%s)\nS.runSimulation()\n' % (model, kw, sv, polish), PROB, pv=num('pv'), G1=num('G1'), G2=num('G2'))
                ev = s.calls('*.SymbolicSys', '*.solve', '*.linear_eq_to_matrix')
                ev = [e for e in ev if e.head.kind == 'ext' and e.name in ('pyneqsys.symbolic.SymbolicSys', 'sympy.solve', 'sympy.linear_eq_to_matrix')]
                if len(ev) != 1:
                    an.record(oid, 'undecided', 'solver call not recognised: %s' % s.undecided, at)
                    continue
                a, b = (1, 0) if ev[0].name == 'pyneqsys.symbolic.SymbolicSys' else (0, 1)
                s.bind('EQS', ev[0].raw[0][a])
                s.bind('NAMES', ev[0].raw[0][b])
                s.equal(oid + ' equations', '[e for e in EQS]', '[%s]' % ', '.join(eqs[model]), 'equations given to the solver', at)
                s.equal(oid + ' unknowns', 'sorted([str(v) for v in NAMES])', '["x_M1", "y_M1"]', 'unknowns given to the solver', at)
                if sv == 'scipy':
                    given(s, oid, at + ['solvers:LASolver._getABfromEquations'])
                if polish:
                    r = s.calls('scipy.optimize.root')
                    if len(r) != 1:
                        an.record(oid + ' polish', 'undecided', 'polishing not recognised', at)
                        continue
                    s.bind('F', raw(r[0], 0, 'fun'))
                    names = [an.plain(str_const(x)) for x in (elems(s, ev[0].raw[0][b]) or [])]
                    if sorted(map(str, names)) != ['x_M1', 'y_M1']:
                        an.record(oid + ' polish', 'undecided', 'unknowns not recognised', at)
                        continue
                    s.bind('Y', N.mkvec([num('G1'), num('G2')]))
                    g = dict(zip(names, ('G1', 'G2')))
                    s.equal(oid + ' polishing residuals', '[e for e in F(Y)]', '[%s-2.0*%s, %s*%s-3.0]' % (g['x_M1'], g['y_M1'], g['x_M1'], g['y_M1']), 'residuals used to improve the initial guess', ['solvers:Solver._polishRoot', AT[1]])


HIST = DYN + """
import numpy as np
class Turn(Model):
    \"\"\"a model whose equations can be changed between two resolutions\"\"\"
    def __init__(self, name, kind="ode"):
        super().__init__(name, "")
        self.b=self.createVariable("b", ul, "")
        self.a=self.createVariable("a", ul, "")
        self.t=self.createVariable("t", us, "")
        self.k=self.createParameter("k", Unit("k", {"s": -1}), "")
        self.k.setValue(pv)
        self.kind=kind
        self.way=0
        self.dom=Domain("dom", us, self.t, "")
        for v in [self.a, self.b]:
            v.distributeOnDomain(self.dom)
    def DeclareEquations(self):
        w=[1.0, 2.0][self.way]
        if self.kind == "ode":
            self.createEquation("ea", "", self.a.Diff(self.t) == w*self.k()*self.b())
            self.createEquation("eb", "", w*self.b.Diff(self.t) - self.k()*self.a())
        if self.kind == "odet":
            self.createEquation("ea", "", self.a.Diff(self.t) == (w*self.k()*self.k()*self.t()*self.b() if self.way == 0 else self.k()*self.b()))
            self.createEquation("eb", "", w*self.b.Diff(self.t) - self.k()*self.a())
        if self.kind == "dae":
            self.createEquation("ea", "", self.a.Diff(self.t) == w*self.k()*self.b())
            self.createEquation("eb", "", self.b() == 3.0*w*self.a())
        if self.kind == "lin":
            self.createEquation("ea", "", self.a() == w*self.b())
            self.createEquation("eb", "", self.k()*self.b()/self.k() - w*self.a())
        if self.kind == "nl":
            self.createEquation("ea", "", self.a() == w*self.b())
            self.createEquation("eb", "", self.a()*self.b() - w*self.a()*self.a())
def made(m):
    P=Problem("P", "")
    P.addModels(m)
    P.setTimeVariableName(["t_M1"])
    P.setInitialConditions({"t_M1": tic, "a_M1": a0, "b_M1": b0, "a_M1_d": a0})
    P.resolve()
    S=Simulation("S", "")
    S.setProblem(P)
    return P, S
"""
CFG = {'ode': 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\n', 'lin': 'S.setConfigurations(linear_solver="%s")\n', 'nl': 'S.setConfigurations(nonlinear_solver="%s")\n'}
CFG['dae'] = CFG['odet'] = CFG['ode']


def histories(an):
    """what a solver is given depends on the system as it is now, not on what was solved before"""
    inp = dict(CONF, a0=num('a0'), b0=num('b0'), pw=num('pw'))
    for kind, variants in (('ode', ('', ', compile_equations=False', ', differential_solver="CVODE"')), ('odet', ('', ', compile_equations=False')), ('dae', ('',)), ('lin', ('sympy', 'scipy', 'symbolicsys')), ('nl', ('sympy', '*'))):
        at = AT if kind in ('ode', 'odet') else ['solvers:DaeSolver.solve', AT[1]] if kind == 'dae' else ['solvers:%sSolver' % ('LA' if kind == 'lin' else 'NLA'), 'core.equation_block:EquationBlock']
        for v in variants:
            conf = CFG[kind] % v
            runs = 'S.runSimulation()\n'
            reset = 'S.reset()\n'
            start = 'm=Turn("M1", "%s")\nP, S=made(m)\n' % kind
            name = '%s %s' % (kind, v)
            # another system of the same names
            past = start.replace('m=', 'q=').replace('(m)', '(q)') + 'q.way=1\nP.resolve()\n' + conf.replace('m.dom', 'q.dom') + runs
            history(an, name + ' after another system of the same names', past, start + conf + MARK + runs, 2, at, HIST, **inp)
            # a simulation is given another problem, of the same or of another name
            other = 'q=Turn("M1", "%s")\nQ, R=made(q)\nq.way=1\nQ.resolve()\n' % kind
            qconf = conf.replace('m.dom', 'q.dom')
            for before in ('', conf, conf + runs, conf + runs + reset):
                for nm in ('', 'Q.name="other"\n'):
                    same_run(an, '%s given another problem%s after %d acts' % (name, ' of another name' if nm else '', before.count('\n')), other + nm + 'S=Simulation("S", "")\nS.setProblem(Q)\n' + qconf + MARK + runs,
                             start + before + other + nm + 'S.setProblem(Q)\n' + qconf + MARK + runs, 2, at, HIST, **inp)
            # a model that was solved before becomes part of another one
            if kind != 'dae' or not v:
                more = 'D=Model("M2", "")\nD.incorporateFromExternalModel(m)\nd=Domain("d", us, D.t, "")\nfor v in [D.b, D.a]:\n    v.distributeOnDomain(d)\nQ=Problem("Q", "")\nQ.addModels(D)\nQ.setTimeVariableName("t_M2")\nQ.setInitialConditions({"t_M2": tic, "a_M2": a0, "b_M2": b0, "a_M2_d": a0})\nQ.resolve()\nR=Simulation("R", "")\nR.setProblem(Q)\n' + conf.replace('m.dom', 'd').replace('S.', 'R.')
                same_run(an, name + ' incorporated after a run', start + more + MARK + 'R.runSimulation()\n', start + conf + runs + more + MARK + 'R.runSimulation()\n', 2, at, HIST, **inp)
            # the same system, configured otherwise before
            for w in [w for w in variants if w != v]:
                same_run(an, '%s after %s' % (name, w or 'the default'), start + conf + MARK + runs, start + CFG[kind] % w + runs + reset + conf + MARK + runs, 2, at, HIST, **inp)
            # the same system, changed in between
            for what, change, now in (('another value of a parameter', 'm.k.setValue(pw)\n', 'm.k.setValue(pw)\n'), ('other equations', 'm.way=1\n', 'm.way=1\n')):
                past = start + conf + runs + 'm.k.setValue(pv)\n'
                for again in ('', conf):
                    a = start + change + 'P.resolve()\n' + conf + MARK + runs
                    b = start + conf + runs + reset + change + 'P.resolve()\n' + again + MARK + runs
                    same_run(an, '%s after a run and %s%s' % (name, what, ', configured again' if again else ''), a, b, 2, at, HIST, **inp)


def run(an, tier):
    for model in ('Ode', 'OdeT', 'Ode3', 'OdeL', 'OdeR', 'OdeZ', 'OdeS', 'OdeS2'):
        for comp in ('', ', compile_equations=False', ', compilation_mechanism="math"'):
            for sv in ('', ', differential_solver="CVODE"'):
                ode(an, model, comp + sv, '%s%s%s' % (model, comp, sv))
        ode(an, model, '', model + ' conditions in another order', shuffle=True)
        ode(an, model, '', model + ' resolved twice', pre='P.resolve()\n')
    for classes in (('OdeT', 'OdeT'), ('Ode', 'OdeT'), ('OdeT', 'Ode3')):
        for times in ((1, 2), (2, 1)):
            for conf in ('', ', compile_equations=False', ', differential_solver="CVODE"'):
                two_ode(an, classes, times, conf, '%s and %s, times of %d and %d%s' % (classes + times + (conf,)))
    for classes in (('Dae', 'Dae'), ('Ode', 'Dae'), ('DaeT', 'DaeT2'), ('DaeT2', 'OdeT')):
        for times in ((1, 2), (2, 1)):
            two_dae(an, classes, times, '', 'residuals of %s and %s, times of %d and %d' % (classes + times))
    for model in ('OdeC', 'OdeC2', 'OdeC3', 'OdeN', 'OdeN2'):
        for comp in ('', ', compile_equations=False'):
            dynamic(an, model, comp, runs='').completes(model + comp + ' built', 'the problem itself is resolved', AT)
            # neither integrator of explicit problems can be given these equations
            s = dynamic(an, model, comp)
            if not s.undecided and s.st is not None and integration(s) is None:
                an.record(model + comp, 'undecided', 'integration not recognised', AT)
            else:
                s.rejects(model + comp, None, 'equations that are not explicit in one derivative are not integrated as explicit ones', AT)
    for model in ('Dae', 'Dae4', 'Dae5', 'DaeT', 'DaeT2'):
        dae(an, model, '', model)
        dae(an, model, '', model + ' conditions in another order', shuffle=True)
        dae(an, model, ', compilation_mechanism="math"', model + ' other mechanism')
    algebraic(an)
    histories(an)
    # a variable that was given a value is not among the unknowns
    KN = PROB + """
class KnL(Model):
    def __init__(self, name):
        super().__init__(name, "")
        self.w=self.createVariable("w", ul, "")
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
        self.p=self.createParameter("p", ud, "")
        self.p.setValue(pv)
    def DeclareVariables(self):
        self.w.setValue(wv)
    def DeclareEquations(self):
        self.createEquation("e1", "", self.x() - self.w() == 2.0*self.y())
        self.createEquation("e2", "", self.p()*self.x() + self.w() == self.y())
class KnN(KnL):
    def DeclareEquations(self):
        self.createEquation("e1", "", self.x() - self.w() == 2.0*self.y())
        self.createEquation("e2", "", self.p()*self.x()*self.y() == self.w()*self.y())
"""
    at = ['problem:Problem._buildEquationBlock', 'solvers:LASolver', 'solvers:NLASolver']
    X, Y = 'sp.symbols("x_M1")', 'sp.symbols("y_M1")'
    for model, kw, second in (('KnL', 'linear_solver', 'pv*%s+wv-%s' % (X, Y)), ('KnN', 'nonlinear_solver', 'pv*%s*%s-wv*%s' % (X, Y, Y))):
        for sv in ('symbolicsys', 'sympy') + (('scipy',) if model == 'KnL' else ('*',)):
            oid = '%s by %s' % (model, sv)
            s = an.scn('m=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s="%s")\nS.runSimulation()\n' % (model, kw, sv), KN, pv=num('pv'), wv=num('wv'))
            ev = [e for e in s.calls('*') if e.head.kind == 'ext' and e.name in ('pyneqsys.symbolic.SymbolicSys', 'sympy.solve', 'sympy.linear_eq_to_matrix')]
            if len(ev) != 1:
                an.record(oid, 'undecided', 'solver call not recognised: %s' % s.undecided, at)
                continue
            a, b = (1, 0) if ev[0].name == 'pyneqsys.symbolic.SymbolicSys' else (0, 1)
            s.bind('EQS', ev[0].raw[0][a])
            s.bind('NAMES', ev[0].raw[0][b])
            s.equal(oid + ' equations', '[e for e in EQS]', '[%s-wv-2.0*%s, %s]' % (X, Y, second), 'equations given to the solver', at)
            s.equal(oid + ' unknowns', 'sorted([str(v) for v in NAMES])', '["x_M1", "y_M1"]', 'unknowns given to the solver', at)
