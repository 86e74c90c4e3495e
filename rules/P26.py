from .solve import *

RULE = ('the status of a simulation is 0 exactly when its last run stored results, and not 0 before any run; reading results never changes them, returns new containers each time, and refuses unknown kinds; '
        'a simulation gives the parameters of its problem by name or object')
NESTED = True
AT = ['simulation:Simulation.getStatus', 'simulation:Simulation.getResults']
V = {'pyneqsys.symbolic.SymbolicSys', '.solve', 'sympy.solve', 'truthy', '.simulate', 'scipy.integrate.odeint', 'float', 'scipy.linalg.solve', 'sympy.linear_eq_to_matrix', 'numpy.array'}
H = 'm=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(%s)\n'


def sim(an, model, conf, runs, **inp):
    if model in ('Lin', 'Nl'):
        return an.scn(H % (model, conf) + runs, PROB, pv=num('pv'), **inp)
    return dynamic(an, model, conf, runs=runs, **inp)


def run(an, tier):
    cases = [('Lin', 'linear_solver="symbolicsys"'), ('Lin', 'linear_solver="sympy"'), ('Lin', 'linear_solver="scipy"'), ('Nl', 'nonlinear_solver="*"'), ('Nl', 'nonlinear_solver="sympy"'), ('Ode', ''), ('Ode', ', differential_solver="CVODE"'), ('Ode3', ''), ('Dae', ''), ('Dae4', '')]
    for model, conf in cases:
        oid = model + ' ' + conf
        s = sim(an, model, conf, 'before=S.getStatus()\nS.runSimulation()\nafter=S.getStatus()\n')
        s.equal(oid + ' status before', 'before == 0', 'False', 'status before any run', AT, vocab=V)
        s.equal(oid + ' status after', 'after', '0', 'status after a successful run', AT, vocab=V)
        s.equal(oid + ' status stored', 'S.status', '0', 'status after a successful run', AT, vocab=V)
        s = sim(an, model, conf, 'S.runSimulation()\na=S.getResults("dict")\nb=S.getResults("dict")\nl=S.getResults("list")\nk=S.getResults()\no=S.output\nst=[S.getStatus(), S.getStatus()]\n')
        if s.undecided:
            an.record(oid, 'undecided', s.undecided, AT)
            continue
        s.equal(oid + ' same results', 'a', 'b', 'results read twice', AT, vocab=V)
        s.equal(oid + ' default kind', '[[v for v in r] for r in k]' if model in MODELS else 'k', '[[v for v in r] for r in l]' if model in MODELS else 'l', 'results read without a kind', AT, vocab=V)
        s.equal(oid + ' own containers', '(a is b, l is k, a is S.output)', '(False, False, False)', 'results are returned in new containers', AT, vocab=V)
        s.equal(oid + ' output kept', 'S.output is o', 'True', 'output after reading the results', AT, vocab=V)
        s = sim(an, model, conf, 'S.runSimulation()\na0={**S.getResults("dict")}\na=S.getResults("dict")\nfor q in list(a):\n    a[q]="changed"\na["more"]=1.0\nl=S.getResults("list")\nl.append(3.0)\nb=S.getResults("dict")\nst=S.getStatus()\nc=S.getResults("list")\n')
        s.equal(oid + ' results isolated', '("more" in b, len(c) == len(l), st)', '(False, False, 0)', 'results after the caller changed what it was given', AT, vocab=V)
        s.equal(oid + ' values isolated', 'b', 'a0', 'values after the caller changed what it was given', AT, vocab=V)
        for kind in ('"array"', '"List"', '""', '3', 'None', 'kn'):
            s = sim(an, model, conf, 'S.runSimulation()\nok=True\ntry:\n    S.getResults(%s)\nexcept Exception as e:\n    ok=type(e).__name__\n' % kind, kn=strsym('kn'))
            s.equal(oid + ' results of kind %s' % kind, 'ok', '"UnexpectedValueError"', 'results of an unknown kind', AT, vocab=V)
    # what is configured for a later run leaves the result of the last one
    for model, conf in cases:
        again = 'S.setConfigurations(%s)\n' % conf if model in ('Lin', 'Nl') else 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\n' % conf
        for what, act in (('another configuration', again), ('reading the problem kind', 'P._getProblemType()\n'), ('the same problem set again', 'S.setProblem(P)\n'), ('a second simulation', 'Q=Simulation("Q", "")\nQ.setProblem(P)\nq=Q.getStatus()\n')):
            s = sim(an, model, conf, 'S.runSimulation()\na=S.getResults("dict")\no=S.output\n%sst=S.getStatus()\nb=S.getResults("dict")\n' % act)
            oid = '%s %s after %s' % (model, conf, what)
            s.equal(oid + ' status', 'st', '0', 'status of the last run', AT, vocab=V)
            s.equal(oid + ' output', 'S.output is o', 'True', 'output of the last run', AT, vocab=V)
            s.equal(oid + ' results', 'b', 'a', 'results of the last run', AT, vocab=V)
            if what == 'a second simulation':
                s.equal(oid + ' its own', 'q == 0', 'False', 'status of a simulation that was not run', AT, vocab=V)
    # a run is not needed to be told so
    s = an.scn('S=Simulation("S", "")\nr=S.getStatus()\n', PROB)
    s.equal('fresh status', 'r == 0', 'False', 'status of a new simulation', AT)
    # where the solver failed
    for model, kw in (('Lin', 'linear_solver="symbolicsys"'), ('Nl', 'nonlinear_solver="*"')):
        s = an.scn(H % (model, kw) + 'try:\n    S.runSimulation()\nexcept Exception:\n    pass\nst=S.getStatus()\n', PROB, pv=num('pv'))
        call = s.calls('.solve')
        if s.undecided or len(call) != 1:
            an.record(model + ' failed status', 'undecided', 'solver call not recognised', AT)
            continue
        s.bind('R', call[0].result)
        s.equal(model + ' failed status', 'st == 0', '(True if R[1]["success"] else False)', 'status is success exactly where the solver reported success (R is its answer)', AT, vocab=V)
    # messages tell the status
    # parameters by name or object
    s = an.scn(H % ('Lin', '') + 'a=S["p_M1"]\nb=S[m.p]\n', PROB, pv=num('pv'))
    at = 'simulation:Simulation.__getitem__'
    s.completes('parameter access', 'parameter of the problem', at)
    s.equal('parameter access', '(a is m.p, b is m.p, a.value)', '(True, True, pv)', 'parameter of the problem', at)
    for order in (('a', 'ab', 'abc'), ('abc', 'ab', 'a'), ('ab', 'a', 'abc')) if an.names is None else ():
        s = an.scn('m=Model("M", "")\nk=Model("M1", "")\nfor n in %r:\n    m.createParameter(n, ud, "")\n    k.createParameter(n, ud, "")\nx=m.createVariable("x", ud, "")\n'
                   'm.createEquation("e", "", x() == m.parameters["a_M"]()+m.parameters["ab_M"]()+m.parameters["abc_M"]())\nz=k.createVariable("x", ud, "")\n'
                   'k.createEquation("e", "", z() == k.parameters["a_M1"]()*k.parameters["ab_M1"]()*k.parameters["abc_M1"]())\nP=Problem("P", "")\nP.addModels([k, m])\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n' % (list(order),), PROB, pv=num('pv'))
        for n in order:
            for o, mm in (('m', 'M'), ('k', 'M1')):
                s.equal('parameter %s_%s among %s' % (n, mm, ', '.join(order)), '(S["%s_%s"] is %s.parameters["%s_%s"], S[%s.parameters["%s_%s"]] is %s.parameters["%s_%s"])' % (n, mm, o, n, mm, o, n, mm, o, n, mm), '(True, True)',
                        'parameter whose name is part of other names', at)
    for k in ('3', 'None', 'm', '[m.p]'):
        s = an.scn(H % ('Lin', '') + 'S[%s]\n' % k, PROB, pv=num('pv'))
        s.rejects('parameter access by %s' % k, ('UnexpectedValueError',), 'parameter access by something else', at)
    s = an.scn(H % ('Lin', '') + 'm.p.setValue(7.0)\nS[m.p].setValue(8.0)\n', PROB, pv=num('pv'))
    s.equal('parameter set through the simulation', 'm.p.value', '8.0', 'parameter set through the simulation', at)
