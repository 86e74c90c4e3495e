from .solve import *

RULE = ('a run of an algebraic system completes and stores a solution only where the solver reported success; where it reported failure the numerical error is raised, nothing is stored, '
        'results of earlier runs are gone and the status is not successful; an unsuccessful improvement of the initial guess is ignored; errors of a library propagate')
AT = ['solvers:LASolver._symbolicSysSolveMechanism', 'solvers:NLASolver._symbolicSysSolveMechanism', 'simulation:Simulation.runSimulation']
V = {'pyneqsys.symbolic.SymbolicSys', '.solve', 'truth', 'scipy.optimize.root', 'scipy.linalg.solve', 'sympy.solve', 'sympy.linear_eq_to_matrix', '.success', '.x', 'numpy.array', 'float', 'item', 'sympy.lambdify', 'call'}
HEAD = 'm=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'


def success(s, e):
    s.bind('R', e.result)
    return s.spec_cond('R[1]["success"]')


def run(an, tier):
    for model, kws in (('Lin', ['linear_solver="symbolicsys"']), ('Nl', ['nonlinear_solver="*"', 'nonlinear_solver="symbolicsys"', 'nonlinear_solver="*", initial_guess_solver="hybr"', 'nonlinear_solver="*", initial_guess_solver="anderson"'])):
        for kw in kws:
            for fl in ('', 'show_final_residuals=False', 'show_output_msg=False, show_final_residuals=False', 'sanity_check=False'):
                oid = '%s %s %s' % (model, kw, fl)
                s = an.scn(HEAD % model + 'S.setConfigurations(%s)\nS.runSimulation(%s)\n' % (kw, fl), PROB, pv=num('pv'))
                call = s.calls('.solve')
                if s.undecided or len(call) != 1:
                    an.record(oid, 'undecided', 'solver call not recognised: %s' % s.undecided, AT)
                    continue
                ok = success(s, call[0])
                s.exits(oid, ok, ('NumericalError',), 'run of the simulation (R is the answer of the solver)', AT, vocab=V)
            # a second run after a successful one
            oid = '%s %s second run' % (model, kw)
            s = an.scn(HEAD % model + 'S.setConfigurations(%s)\nS.runSimulation()\nS.setConfigurations(%s, initial_guess={"x_M1": G1, "y_M1": G2})\nfailed=False\ntry:\n    S.runSimulation()\nexcept Exception:\n    failed=True\n' % (kw, kw), PROB, pv=num('pv'), G1=num('G1'), G2=num('G2'))
            call = s.calls('.solve')
            if s.undecided or len(call) != 2:
                an.record(oid, 'undecided', 'solver calls not recognised: %s' % s.undecided, AT)
                continue
            ok = success(s, call[1])
            s.equal(oid + ' failure noticed', 'failed', 'True', 'second run where the solver failed', AT, vocab=V, when=NOT(ok))
            s.equal(oid + ' nothing kept', 'S.output is None', 'True', 'output after a failed second run', AT, vocab=V, when=NOT(ok))
            s.equal(oid + ' status', 'S.getStatus() == 0', 'False', 'status after a failed second run', AT, vocab=V, when=NOT(ok))
            # a failed run followed by a successful one
            oid = '%s %s after a failure' % (model, kw)
            s = an.scn(HEAD % model + 'S.setConfigurations(%s)\ntry:\n    S.runSimulation()\nexcept Exception:\n    pass\nS.setConfigurations(%s, initial_guess={"x_M1": G1, "y_M1": G2})\nS.runSimulation()\n' % (kw, kw), PROB, pv=num('pv'), G1=num('G1'), G2=num('G2'))
            call = s.calls('.solve')
            if s.undecided or len(call) != 2:
                an.record(oid, 'undecided', 'solver calls not recognised: %s' % s.undecided, AT)
                continue
            ok = success(s, call[1])
            s.exits(oid, ok, ('NumericalError',), 'run after a failed run', AT, vocab=V)
            s.equal(oid + ' status', 'S.getStatus()', '0', 'status after a successful run', AT, vocab=V)
            s.equal(oid + ' output', 'sorted(float(v) for v in [1.0]) and {str(k): v for k, v in S.output.items()}["x_M1"] in [R[0][0], R[0][1]]', 'True', 'output of the successful run', AT, vocab=V)
    # an improvement of the initial guess is used only if successful
    for q in ('hybr', 'anderson'):
        oid = 'improvement by %s' % q
        s = an.scn(HEAD % 'Nl' + 'S.setConfigurations(nonlinear_solver="*", initial_guess_solver="%s", initial_guess={"x_M1": G, "y_M1": G})\nS.runSimulation()\n' % q, PROB, pv=num('pv'), G=num('G'))
        call, root = s.calls('.solve'), s.calls('scipy.optimize.root')
        at = ['solvers:Solver._polishRoot', AT[1]]
        if s.undecided or len(call) != 1 or len(root) != 1:
            an.record(oid, 'undecided', 'solver calls not recognised: %s' % s.undecided, at)
            continue
        s.bind('ROOT', root[0].result)
        s.bind('GUESS', raw(call[0], 0, 'x0'))
        s.equal(oid + ' failed', 'GUESS', '[G, G]', 'guess where the improvement failed', at, vocab=V, when=NOT(s.spec_cond('ROOT.success')))
        s.equal(oid + ' succeeded', 'GUESS', 'ROOT.x', 'guess where the improvement succeeded', at, vocab=V, when=AND(s.spec_cond('ROOT.success'), NOT(s.spec_cond('ROOT.x is None'))))
    # errors of the libraries reach the caller and leave no output
    LIB = {'Lin': [('linear_solver="symbolicsys"', 'pyneqsys.symbolic.SymbolicSys'), ('linear_solver="symbolicsys"', '.solve'), ('linear_solver="scipy"', 'scipy.linalg.solve'), ('linear_solver="sympy"', 'sympy.solve')],
           'Nl': [('nonlinear_solver="*"', '.solve'), ('nonlinear_solver="sympy"', 'sympy.solve'), ('nonlinear_solver="*", initial_guess_solver="hybr"', 'scipy.optimize.root')]}
    for model, cases in LIB.items():
        for kw, lib in cases:
            oid = '%s %s: error of %s' % (model, kw, lib)
            s = an.scn(HEAD % model + 'S.setConfigurations(%s)\nS.output={"x_M1": 5.0, "y_M1": 5.0}\nfailed=False\ntry:\n    S.runSimulation()\nexcept Exception:\n    failed=True\n' % kw, PROB, pv=num('pv'), _raising={lib})
            if s.undecided or not s.calls(lib):
                an.record(oid, 'undecided', 'library call not recognised: %s' % s.undecided, AT)
                continue
            if len(s.failures) != 1:
                an.record(oid, 'undecided', 'library error not recognised', AT)
                continue
            c = s.failures[0]
            s.equal(oid + ' reaches the caller', 'failed', 'True', 'run where the library raises an error', AT, vocab=V | {'raises'}, when=c)
            s.equal(oid + ' nothing kept', 'S.output is None', 'True', 'output after the error', AT, vocab=V | {'raises'}, when=c)
            s.equal(oid + ' status', 'S.getStatus() == 0', 'False', 'status after the error', AT, vocab=V | {'raises'}, when=c)
    for model, conf, lib in (('Ode', '', 'scipy.integrate.odeint'), ('Ode', ', differential_solver="CVODE"', '.simulate'), ('Dae', '', '.simulate'), ('Dae', '', '.make_consistent')):
        oid = '%s%s: error of %s' % (model, conf, lib)
        at = ['solvers:DSolver.solve' if model == 'Ode' else 'solvers:DaeSolver.solve', AT[2]]
        s = dynamic(an, model, conf, runs='S.output=(5.0, 5.0)\nfailed=False\ntry:\n    S.runSimulation()\nexcept Exception:\n    failed=True\n', _raising={lib})
        if s.undecided or len(s.failures) != 1:
            an.record(oid, 'undecided', 'library call not recognised: %s' % s.undecided, at)
            continue
        c = s.failures[0]
        W = V | {lib, 'scipy.integrate.odeint', '.simulate', '.make_consistent'}
        s.equal(oid + ' reaches the caller', 'failed', 'True', 'run where the library raises an error', at, vocab=W, when=c)
        s.equal(oid + ' nothing kept', 'S.output is None', 'True', 'output after the error', at, vocab=W, when=c)
        s.equal(oid + ' status', 'S.getStatus() == 0', 'False', 'status after the error', at, vocab=W, when=c)
        s.equal(oid + ' nothing registered', 'S.getResults("dict")["t_M1"]["a_M1"]', '[]', 'results after the error', at, vocab=W, when=c)
    # runs stopped before anything is solved
    ADD = 'k=Lin2("M2")\nP.addModels(k)\nP.resolve()\n'
    EX = PROB + '''
class Lin2(Model):
    """two unknowns, one equation"""
    def __init__(self, name):
        super().__init__(name, "")
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
    def DeclareEquations(self):
        self.createEquation("e", "", self.x() == 2.0*self.y())
'''
    at = AT[2:]
    for model, kw, stop in (('Lin', 'linear_solver="sympy"', ADD), ('Lin', 'linear_solver="sympy"', 'S.setConfigurations(linear_solver="none")\n'), ('Nl', 'nonlinear_solver="sympy"', 'S.setConfigurations(nonlinear_solver="none")\n'), ('Lin', 'linear_solver="scipy"', ADD),
                            ('Nl', 'nonlinear_solver="sympy"', ADD), ('Lin', 'linear_solver="sympy"', 'S.setConfigurations(problem_type="none")\n')):
        oid = '%s %s stopped by %s' % (model, kw, stop.split('\n')[0])
        s = an.scn(HEAD % model + 'S.setConfigurations(%s)\nS.output={"x_M1": 5.0, "y_M1": 5.0}\n%sfailed=False\ntry:\n    S.runSimulation()\nexcept Exception:\n    failed=True\n' % (kw, stop), EX, pv=num('pv'))
        s.equal(oid, '(failed, S.output, S.getStatus() == 0)', '(True, None, False)', 'output and status after a run that was stopped', at)
    for model, pre, runs in (('OdeT', '', 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n, differential_solver="none")\n'), ('OdeT', '', 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n, time_variable_name="other_M1")\n')):
        oid = 'dynamic run stopped by %s' % runs.split('(')[0]
        s = dynamic(an, model, pre=pre, runs='S.output=(5.0, 5.0)\n' + runs + 'failed=False\ntry:\n    S.runSimulation()\nexcept Exception:\n    failed=True\n')
        s.equal(oid, '(failed, S.output, S.getStatus() == 0)', '(True, None, False)', 'output and status after a run that was stopped', at)
