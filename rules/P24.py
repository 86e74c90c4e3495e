from .solve import *

RULE = ('with the sanity check on, a run proceeds exactly when unknowns + unspecified parameters = equations (+ 1 for every time variable on which equations of a dynamic problem depend); '
        'otherwise an error is raised before anything is solved and nothing is stored; with the check off the run is not stopped by it')
NESTED = True
AT = ['analysis:DOF_Analysis._dofTest', 'simulation:Simulation.runSimulation']
LIBS = ['sympy.solve', 'scipy.linalg.solve', '.solve', 'scipy.integrate.odeint', '.simulate', 'scipy.optimize.root']
PRE2 = PROB + '''
class V(Model):
    """nv unknowns, ne equations, npar parameters of which the first nspec get a value; parameter i enters equation i"""
    def __init__(self, name, nv, ne, npar, nspec, nl=False):
        super().__init__(name, "")
        self.ne=ne
        self.nspec=nspec
        self.nl=nl
        self.unused=self.createVariable("unused", ul, "")
        self.unusedp=self.createParameter("unusedp", ud, "")
        self.x=[self.createVariable("x"+str(i), ul, "", value=xv) if i%2 else self.createVariable("x"+str(i), ul, "") for i in range(nv)]
        self.q=[self.createParameter("q"+str(i), ud, "", value=dv) if i%2==0 else self.createParameter("q"+str(i), ud, "") for i in range(npar)]
        self.c=self.createConstant("c", ud, "")
        self.c.setValue(cv)
    def DeclareParameters(self):
        for i in range(self.nspec):
            self.q[i].setValue(pv)
    def DeclareEquations(self):
        for i in range(self.ne):
            e=self.c()*self.x[i%len(self.x)]() + 1.0
            for j, v in enumerate(self.x):
                if j>=i:
                    e=e+v()*(2.0+j)
            for j, p in enumerate(self.q):
                if j%self.ne==i:
                    e=e+p()*self.x[0]()
            if self.nl:
                e=e+self.x[0]()*self.x[-1]()/self.x[0]()
            self.createEquation("e"+str(i), "", e)
'''


def judge(an, s, oid, dof):
    """a run with the check on proceeds to the solver exactly when there is no degree of freedom"""
    if s.undecided:
        an.record(oid, 'undecided', s.undecided, AT)
        return
    late = after_mark(s)
    late = s.events if late is None else late
    done = [c for c in LIBS if any(e in late for e in s.calls(c))]
    if dof:
        s.rejects(oid, ('Exception',), 'run of a system with %d degrees of freedom' % dof, AT)
        s.record(oid + ' solves nothing', 'violated' if done else 'ok', 'solved (%s) although the system has %d degrees of freedom' % (done, dof) if done else 'nothing solved', AT, 'solves')
    else:
        wrong = [r for r in s.raised if r.site[0].endswith('analysis.py') and T.feasible(r.st.pc)]
        s.record(oid, 'violated' if wrong else 'ok' if done else 'undecided', 'system with no degree of freedom stopped: %s' % s.describe_raise(wrong[0]) if wrong else 'run reaches the solver' if done else 'solver call not recognised', AT, 'raises')


def run(an, tier):
    inp = {'pv': num('pv'), 'cv': num('cv'), 'dv': num('dv'), 'xv': num('xv')}
    cases = [(2, 2, 0, 0), (3, 3, 1, 1), (3, 2, 0, 0), (2, 3, 0, 0), (2, 3, 1, 0), (2, 3, 1, 1), (2, 2, 1, 0), (2, 2, 2, 1), (1, 2, 2, 1), (1, 3, 2, 0), (1, 1, 0, 0), (4, 4, 2, 2), (4, 3, 0, 0), (3, 4, 3, 2), (1, 2, 0, 0), (2, 1, 1, 1), (2, 1, 0, 0)]
    if tier == 'thorough':
        cases += [(a, b, c, d) for a in range(1, 5) for b in range(1, 5) for c in range(0, 3) for d in range(0, c + 1) if (a, b, c, d) not in cases]
    for nv, ne, npar, nspec in cases:
        dof = nv + (npar - nspec) - ne
        for nl in (False, True):
            for rs, check in (('', True), ('sanity_check=True', True), ('sanity_check=False', False)):
                oid = '%d unknowns %d equations %d parameters %d specified%s %s' % (nv, ne, npar, nspec, ' nonlinear' if nl else '', rs)
                s = an.scn('m=V("M1", %d, %d, %d, %d, %s)\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy", nonlinear_solver="sympy")\nS.runSimulation(%s)\n' % (nv, ne, npar, nspec, nl, rs), PRE2, **inp)
                if s.undecided:
                    an.record(oid, 'undecided', s.undecided, AT)
                    continue
                if check and dof:
                    s.rejects(oid, ('Exception',), 'run of a system with %d degrees of freedom' % dof, AT)
                    done = [c for c in LIBS if s.calls(c)]
                    s.record(oid + ' solves nothing', 'violated' if done else 'ok', 'solved (%s) although the system has %d degrees of freedom' % (done, dof) if done else 'nothing solved', AT, 'solves')
                else:
                    # the check does not stop the run
                    wrong = [r for r in s.raised if r.site[0].endswith('analysis.py') and T.feasible(r.st.pc)]
                    done = [c for c in LIBS if s.calls(c)]
                    s.record(oid, 'violated' if wrong else 'ok' if done else 'undecided', 'system with %d degrees of freedom stopped: %s' % (dof, s.describe_raise(wrong[0])) if wrong else 'run reaches the solver' if done else 'solver call not recognised', AT, 'raises')
    # a problem without derivatives has no time: naming one of its variables changes nothing
    for nv, ne in ((2, 2), (3, 2), (2, 3), (1, 1)):
        for names in ('"x0_M1"', '["x0_M1"]', '["x0_M1", "x1_M1"]', '["none"]'):
            for nl in (False, True):
                s = an.scn('m=V("M1", %d, %d, 0, 0, %s)\nP=Problem("P", "")\nP.addModels(m)\nP.setTimeVariableName(%s)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy", nonlinear_solver="sympy")\nMARK=0\nS.runSimulation()\n' % (nv, ne, nl, names), PRE2, **inp)
                judge(an, s, '%d unknowns %d equations%s, time %s' % (nv, ne, ' nonlinear' if nl else '', names), nv - ne)
    # names that contain each other, or look like those of derivatives
    if an.names is None:
        N = PROB + '''
class Nm(Model):
    def __init__(self, name, names, pars, ne):
        super().__init__(name, "")
        self.v=[self.createVariable(n, ul, "") for n in names]
        self.q=[self.createParameter(n, ud, "") for n in pars]
        self.ne=ne
    def DeclareEquations(self):
        for i in range(self.ne):
            e=1.0+self.v[0]()
            for j, w in enumerate(self.v):
                if j>=i or i>=len(self.v):
                    e=e+w()*(2.0+j)
            for w in self.q:
                e=e+w()*self.v[0]()
            self.createEquation("e"+str(i), "", e)
'''
        for ms in ([('d', ['a_b', 'a_c'], [])], [('d', ['a_b', 'a_c', 'a'], ['q', 'q_b'])], [('M1', ['x', 'x_d', 'x_d_d'], [])], [('M1', ['x', 'xx', 'x_M1'], [])], [('M1', ['x', 'y'], ['p', 'p_d'])], [('d', ['x'], []), ('d_d', ['x'], [])],
                   [('M', ['x', 'y'], []), ('M_M', ['x', 'y'], [])], [('M1', ['t', 'time', 'X', 'x'], [])], [('M1', ['x', 'X'], []), ('m1', ['x', 'X'], [])], [('M1', ['v%d' % i for i in range(12)], [])], [('M1', ['x1', 'x11', 'x'], ['x1_', 'x_1'])]):
            n = sum(len(v) + len(q) for _, v, q in ms)
            for short in (0, 1, -1):
                src, left = '', n - short
                for i, (k, v, q) in enumerate(ms):
                    ne = left if i == len(ms) - 1 else len(v) + len(q)
                    left -= ne
                    src += 'm%d=Nm("%s", %r, %r, %d)\n' % (i, k, v, q, ne)
                if left or ne < 1:
                    continue
                s = an.scn('%sP=Problem("P", "")\nP.addModels([%s])\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy")\nS.runSimulation()\n' % (src, ', '.join('m%d' % i for i in range(len(ms)))), N, **inp)
                judge(an, s, 'names %s, %d degrees of freedom' % (', '.join('%s: %s' % (k, '+'.join(v + q)) for k, v, q in ms), short), short)
    # dynamic problems; a time variable in a differential equation is an unknown balanced by time itself
    D = PROB + '''
class W(Model):
    def __init__(self, name, kinds, params=""):
        super().__init__(name, "")
        self.kinds=kinds
        self.params=params
        self.t=self.createVariable("t", us, "")
        self.x=self.createVariable("x", ud, "")
        self.y=self.createVariable("y", ud, "")
        self.z=self.createVariable("z", ud, "")
        self.k=self.createParameter("k", us, "")
        self.u=self.createParameter("u", ud, "", value=dv)
        self.dom=Domain("dom", us, self.t, "")
        for v in [self.x, self.y, self.z]:
            v.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k.setValue(pv)
        if "u" in self.params:
            self.u.setValue(cv)
    def DeclareEquations(self):
        for i, c in enumerate(self.kinds):
            if c=="x":
                self.createEquation("e"+str(i), "", self.x.Diff(self.t) == self.y()/self.k())
            elif c=="y":
                self.createEquation("e"+str(i), "", self.y.Diff(self.t) == self.x()/self.k())
            elif c=="X":
                self.createEquation("e"+str(i), "", self.x.Diff(self.t) == self.y()*self.t()/self.k()/self.k())
            elif c=="Y":
                self.createEquation("e"+str(i), "", self.y.Diff(self.t) == self.x()/self.k() + self.t()/self.k()/self.k())
            elif c=="U":
                self.createEquation("e"+str(i), "", self.y.Diff(self.t) == self.x()*self.u()/self.k())
            elif c=="z":
                self.createEquation("e"+str(i), "", self.z() == self.x() + self.y())
            elif c=="Z":
                self.createEquation("e"+str(i), "", self.z() == self.x() + self.t()/self.k())
            elif c=="w":
                self.createEquation("e"+str(i), "", self.z()*self.x() == self.y())
'''
    for kinds, params, nv, npar in (('xy', '', 2, 0), ('x', '', 2, 0), ('Xy', '', 3, 0), ('XY', '', 3, 0), ('X', '', 3, 0), ('xyz', '', 3, 0), ('xyw', '', 3, 0), ('xyzw', '', 3, 0), ('xz', '', 3, 0), ('xU', 'u.', 2, 0), ('xU', '', 2, 1), ('xyx', '', 2, 0), ('xyZ', '', 4, 0), ('XyZ', '', 4, 0), ('XYz', '', 4, 0), ('xZ', '', 4, 0)):
        timed = any(c in 'XYZ' for c in kinds)
        dof = nv + npar - len(kinds) - (1 if timed else 0)
        oid = 'dynamic %s %s' % (kinds, params)
        s = an.scn('m=W("M1", "%s.", "%s")\nP=Problem("P", "")\nP.addModels(m)\nP.setTimeVariableName("t_M1")\nP.setInitialConditions({"t_M1": 0.0, "x_M1": x0, "y_M1": y0, "z_M1": z0, "x_M1_d": x0, "y_M1_d": y0})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
                   'S.setConfigurations(end_time=t1, is_dynamic=True, domain=m.dom)\nS.runSimulation()\n' % (kinds, params), D, t1=num('t1'), x0=num('x0'), y0=num('y0'), z0=num('z0'), **inp)
        judge(an, s, oid, dof)
    # several models, each with a time variable of its own
    for k1, k2, nv in (('XY', 'XY', 6), ('XY', 'xy', 5), ('xy', 'XY', 5), ('xy', 'xy', 4), ('XY', 'X', 6), ('xyZ', 'xyZ', 8), ('xyz', 'xyZ', 7)):
        timed = sum(any(c in 'XYZ' for c in k) for k in (k1, k2))
        dof = nv - len(k1) - len(k2) - timed
        for names in ('["t_M1", "t_M2"]', '["t_M2", "t_M1"]'):
            oid = 'dynamic models %s and %s, time %s' % (k1, k2, names)
            s = an.scn('m=W("M1", "%s.")\nk=W("M2", "%s.")\nP=Problem("P", "")\nP.addModels([m, k])\nfor v in [k.x, k.y, k.z]:\n    v.distributeOnDomain(m.dom)\nP.setTimeVariableName(%s)\n'
                       'P.setInitialConditions({"t_M1": 0.0, "x_M1": x0, "y_M1": y0, "z_M1": z0, "x_M1_d": x0, "y_M1_d": y0, "t_M2": 0.0, "x_M2": x0, "y_M2": y0, "z_M2": z0, "x_M2_d": x0, "y_M2_d": y0})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
                       'S.setConfigurations(end_time=t1, is_dynamic=True, domain=m.dom)\nS.runSimulation()\n' % (k1, k2, names), D, t1=num('t1'), x0=num('x0'), y0=num('y0'), z0=num('z0'), **inp)
            judge(an, s, oid, dof)
    # parameters to be optimized have their values; they change nothing
    for nv, ne, npar, nspec in ((2, 2, 1, 1), (3, 2, 1, 1), (2, 2, 1, 0), (2, 3, 1, 0)):
        for number in (1, 2):
            s = an.scn('m=V("M1", %d, %d, %d, %d)\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy", number_parameters_to_optimize=%d)\nS.runSimulation()\n' % (nv, ne, npar, nspec, number), PRE2, **inp)
            judge(an, s, '%d unknowns %d equations %d parameters %d specified, %d to optimize' % (nv, ne, npar, nspec, number), nv + npar - nspec - ne)
    # the check looks at the current system; nothing of an earlier run is kept when it fails
    s = an.scn('m=V("M1", 2, 2, 1, 1)\nP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy")\nS.runSimulation()\nk=V("M2", 2, 1, 0, 0)\nP.addModels(k)\nP.resolve()\nS.runSimulation()\n', PRE2, **inp)
    s.rejects('extended problem', ('Exception',), 'run after the problem became under-specified', AT)
    s = an.scn('m=V("M1", 3, 2, 0, 0)\nk=V("M2", 1, 2, 0, 0)\nP=Problem("P", "")\nP.addModels([m, k])\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy")\nS.runSimulation()\n', PRE2, **inp)
    s.completes('balanced over two models', 'run of a system balanced over two models', AT, vocab={'sympy.solve'})
    # a variable that was given a value is not an unknown
    K = PRE2 + '''
class K(V):
    def __init__(self, name, nv, ne, nk, when):
        super().__init__(name, nv, ne, 0, 0)
        self.nk=nk
        self.when=when
        if when=="init":
            self.give()
    def give(self):
        for v in self.x[:self.nk]:
            v.setValue(pv)
    def DeclareParameters(self):
        if self.when=="parameters":
            self.give()
    def DeclareVariables(self):
        if self.when=="variables":
            self.give()
'''
    for nv, ne, nk in ((2, 1, 1), (2, 2, 1), (3, 2, 1), (3, 1, 2), (3, 2, 0), (3, 3, 1), (2, 2, 0), (4, 2, 2)):
        for when in ('init', 'parameters', 'variables', 'before'):
            s = an.scn('m=K("M1", %d, %d, %d, "%s")\n%sP=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy")\nS.runSimulation()\n' % (nv, ne, nk, when, 'm.give()\n' if when == 'before' else ''), K, **inp)
            judge(an, s, '%d variables of which %d are given a value (%s), %d equations' % (nv, nk, when, ne), nv - nk - ne)
    # dynamic: a variable that was given a value
    for kinds, given, dof in (('xy', '', 0), ('x', 'y', 0), ('xy', 'z', 0), ('xyz', 'z', -1), ('xz', 'y', 0), ('XY', '', 0), ('X', 'y', 0), ('xU', 'u', 0)):
        for tn in ('"t_M1"', '["t_M1"]', '["t_M1", "t_M1"]', '["t_M1", "q_M1"]'):
            oid = 'dynamic %s, %s given, time %s' % (kinds, given or 'nothing', tn)
            s = an.scn('m=W("M1", "%s.")\n%sP=Problem("P", "")\nP.addModels(m)\nP.setTimeVariableName(%s)\nP.setInitialConditions({"t_M1": 0.0, "q_M1": 0.0, "x_M1": x0, "y_M1": y0, "z_M1": z0, "x_M1_d": x0, "y_M1_d": y0})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
                       'S.setConfigurations(end_time=t1, is_dynamic=True, domain=m.dom)\nS.runSimulation()\n' % (kinds, 'm.%s.setValue(cv)\n' % given if given else '', tn), D, t1=num('t1'), x0=num('x0'), y0=num('y0'), z0=num('z0'), **inp)
            judge(an, s, oid, dof)
    # what was checked before is of no account: other problems of the same names, and the same problem as it was
    ENV = dict(inp, t1=num('t1'), x0=num('x0'), y0=num('y0'), z0=num('z0'))
    MADE = 'P=Problem("P", "")\nP.addModels(m)\nP.setTimeVariableName("t_M1")\nP.setInitialConditions({"t_M1": 0.0, "x_M1": x0, "y_M1": y0, "z_M1": z0, "x_M1_d": x0, "y_M1_d": y0})\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(end_time=t1, is_dynamic=True, domain=m.dom)\n'
    for k1, k2, dof in (('XY', 'xy', 0), ('xy', 'XY', 0), ('xy', 'X', 1), ('X', 'xy', 0), ('xyz', 'xyZ', 0), ('xyZ', 'xyz', 0), ('xyzw', 'xyz', 0), ('xyz', 'xyzw', -1)):
        past = 'm=W("M1", "%s.")\n%stry:\n    S.runSimulation()\nexcept Exception:\n    pass\n' % (k1, MADE)
        s = an.scn(past + 'm=W("M1", "%s.")\n%s%sS.runSimulation()\n' % (k2, MADE, MARK), D, **ENV)
        judge(an, s, 'dynamic %s after %s of the same names' % (k2, k1), dof)
        if len(k2) >= len(k1):
            s = an.scn(past + 'm.kinds="%s"\nP.resolve()\nS.reset()\n%sS.runSimulation()\n' % (k2, MARK), D, **ENV)
            judge(an, s, 'dynamic %s that was %s' % (k2, k1), dof)
    for a, b in (((2, 2, 1, 1), (2, 2, 1, 0)), ((2, 2, 1, 0), (2, 2, 1, 1)), ((3, 3, 0, 0), (3, 2, 0, 0)), ((3, 2, 0, 0), (3, 3, 0, 0)), ((2, 1, 0, 0), (2, 2, 0, 0))):
        go = 'P=Problem("P", "")\nP.addModels(m)\nP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\nS.setConfigurations(linear_solver="sympy")\n'
        past = 'm=V("M1", %d, %d, %d, %d)\n' % a + go + 'try:\n    S.runSimulation()\nexcept Exception:\n    pass\n'
        s = an.scn(past + 'm=V("M1", %d, %d, %d, %d)\n' % b + go + MARK + 'S.runSimulation()\n', PRE2, **inp)
        judge(an, s, '%s after %s of the same names' % (b, a), b[0] + b[2] - b[3] - b[1])
        if b[1] >= a[1] and b[3] >= a[3]:
            s = an.scn(past + 'm.ne=%d\nm.nspec=%d\nP.resolve()\n' % (b[1], b[3]) + MARK + 'S.runSimulation()\n', PRE2, **inp)
            judge(an, s, '%s that was %s' % (b, a), b[0] + b[2] - b[3] - b[1])
