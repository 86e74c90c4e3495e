from .solve import *

RULE = ('a simulation is solved by the mechanism configured for the kind of its problem, and a mechanism name that is not offered for that kind is rejected with the absent-object error before anything is solved; '
        'mechanisms configured for other kinds have no influence')
NAMES = {'linear_solver': ['sympy', 'scipy', 'symbolicsys'], 'nonlinear_solver': ['*', 'sympy', 'symbolicsys'], 'differential_solver': ['ODEINT', 'CVODE'], 'differential_algebraic_solver': ['IDA']}
CALL = {'sympy': ['sympy.solve'], 'scipy': ['scipy.linalg.solve'], 'symbolicsys': ['pyneqsys.symbolic.SymbolicSys'], '*': ['pyneqsys.symbolic.SymbolicSys'], 'ODEINT': ['scipy.integrate.odeint'],
        'CVODE': ['assimulo.problem.Explicit_Problem', 'assimulo.solvers.CVode'], 'IDA': ['assimulo.problem.Implicit_Problem', 'assimulo.solvers.IDA']}
ALL = sorted({c for v in CALL.values() for c in v})
KIND = {'Lin': 'linear_solver', 'Nl': 'nonlinear_solver', 'Ode': 'differential_solver', 'Dae': 'differential_algebraic_solver'}
ERR = ('AbsentRequiredObjectError',)


def sim(an, model, conf, tail='S.runSimulation()\n', pre='', **inp):
    if model in ('Lin', 'Nl'):
        return an.scn('m=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n%sS.setConfigurations(%s)\n%s' % (model, pre, conf.lstrip(', '), tail), PROB, pv=num('pv'), **inp)
    return dynamic(an, model, conf, runs=pre + tail, **inp)


def run(an, tier):
    for model, kw in KIND.items():
        at = ['solvers:_createSolver', 'solvers:' + {'Lin': 'LASolver.lookUpForSolver', 'Nl': 'NLASolver.lookUpForSolver', 'Ode': 'DSolver.lookUpForSolver', 'Dae': 'DaeSolver.solve'}[model]]
        for sv in [None] + NAMES[kw]:
            others = ['']
            if sv is not None:
                others += [''.join(', %s="nosuch"' % o for o in NAMES if o != kw)]
                if tier == 'thorough':
                    others += [', %s="%s"' % (o, v) for o in NAMES if o != kw for v in NAMES[o]]
            for ot in others:
                conf = ('' if sv is None else ', %s="%s"' % (kw, sv)) + ot
                s = sim(an, model, conf)
                oid = '%s%s' % (model, conf)
                s.exits(oid, True, None, 'simulation with mechanism %s' % sv, at, vocab={'truth'}) if model in ('Ode', 'Dae') or sv in ('sympy', 'scipy') else None
                if s.undecided:
                    an.record(oid + ' mechanism', 'undecided', s.undecided, at)
                    continue
                used = sorted({c for c in ALL if s.calls(c)})
                want = sorted(CALL[sv or {'Lin': 'symbolicsys', 'Nl': '*', 'Ode': 'ODEINT', 'Dae': 'IDA'}[model]])
                if used == want:
                    s.record(oid + ' mechanism', 'ok', 'mechanism used', at)
                else:
                    s.record(oid + ' mechanism', 'violated' if used else 'undecided', 'mechanism %s configured for a %s: library calls made are %s, required %s' % (sv, model, used, want), at, 'mechanism')
        bad = ['"nosuch"', '""', '"Sympy"', '"idaa"', '3', 'nm'] + ['"%s"' % v for o in NAMES if o != kw for v in NAMES[o] if v not in NAMES[kw]]
        if model == 'Ode':
            bad += ['"RADAU5"', '"odeint"', '"CVODES"']
        for b in bad:
            s = sim(an, model, ', %s=%s' % (kw, b), nm=strsym('nm'))
            oid = '%s with unknown mechanism %s' % (model, b)
            s.rejects(oid, ERR, 'mechanism not offered for this kind of problem', at)
            if not s.undecided:
                done = [c for c in ALL if s.calls(c) and c not in ('assimulo.problem.Implicit_Problem', 'assimulo.problem.Explicit_Problem')]
                s.record(oid + ' solves nothing', 'violated' if done else 'ok', 'library calls %s although the mechanism is rejected' % done if done else 'nothing solved', at, 'mechanism')
    # offered by name (listed among the accepted ones), so it must either solve or be rejected properly
    s = sim(an, 'Ode', ', differential_solver="RADAU"')
    at = ['solvers:DSolver.lookUpForSolver', 'solvers:DSolver.solve']
    if s.undecided:
        an.record('RADAU', 'undecided', s.undecided, at)
    else:
        wrong = [r for r in s.raised if not (s.exc_names(r) & set(ERR))]
        s.record('Ode with mechanism RADAU', 'violated' if wrong else 'ok', 'accepted by name but %s' % s.describe_raise(wrong[0]) if wrong else 'mechanism RADAU', at, 'raises')
    # a problem that has not been given the equations of any kind
    s = an.scn('P=Problem("P", "")\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations()\nS.runSimulation()\n', PROB, pv=num('pv'))
    s.rejects('empty problem', ('UnexpectedValueError', 'UnresolvedPanicError'), 'problem without equations', 'simulation:Simulation.runSimulation')
