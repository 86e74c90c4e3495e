from .common import *

RULE = ('resolving a problem runs the declarations of every model once, constants, parameters and variables before equations, and rebuilds the whole system; '
        'resolving again, after changes of values, models, equations or connections, gives the system of the current models: nothing stale, lost or duplicated')
NESTED = True
AT = ['problem:Problem.resolve', 'problem:Problem._buildEquationBlock', 'model:Model.__call__']
X = lambda n, m='A': 'sp.symbols("%s_%s")' % (n, m)
P = PROB + '''
class O(Model):
    def __init__(self, name, log):
        super().__init__(name, "")
        self.log=log
    def DeclareConstants(self):
        self.log.append((self.name, "c."))
        self.c=self.createConstant("c", ud, "")
        self.c.setValue(cv)
    def DeclareParameters(self):
        self.log.append((self.name, "p."))
        self.p=self.createParameter("p", ud, "")
        self.p.setValue(pv)
    def DeclareVariables(self):
        self.log.append((self.name, "v."))
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
    def DeclareEquations(self):
        self.log.append((self.name, "e."))
        self.e1=self.createEquation("e1", "", self.x()*self.c() == self.p()*self.y())
        self.e2=self.createEquation("e2", "", self.x() - self.y() == 1.0)
log=[]
'''


def run(an, tier):
    inp = {'pv': num('pv'), 'cv': num('cv'), 'p2': num('p2'), 'v2': num('v2')}
    EB = 'P.equation_block'
    sysm = lambda m, p='pv', c='cv': ['%s*%s-%s*%s' % (X('x', m), c, p, X('y', m)), '%s-%s-1.0' % (X('x', m), X('y', m))]

    def check(s, oid, eqs, vs, what, n=None):
        s.completes(oid, what, AT)
        s.equal(oid + ' residuals', EB + '._equations_list', '[%s]' % ', '.join(eqs), what, AT)
        s.equal(oid + ' unknowns', 'sorted(%s.variable_dict)' % EB, repr(sorted(vs)), what, AT)
        s.equal(oid + ' unknown list', 'sorted(%s._var_list)' % EB, repr(sorted(vs)), what, AT)

    s = an.scn('A=O("A", log)\nB=O("B", log)\nP=Problem("P", "")\nP.addModels([A, B])\nP.resolve()\n', P, **inp)
    check(s, 'once', sysm('A') + sysm('B'), ['x_A', 'y_A', 'x_B', 'y_B'], 'system after resolving')
    for m in 'AB':
        s.equal('hooks of %s run once' % m, 'sorted([h for h in log if h[0]=="%s"])' % m, repr(sorted((m, h + '.') for h in 'cpve')), 'declarations of a model run once', AT)
        s.equal('equations last in %s' % m, '[h for h in log if h[0]=="%s"][-1]' % m, repr((m, 'e.')), 'equations are declared after the objects', AT)
        s.equal('current objects of %s' % m, '[v for k, v in %s.variable_dict.items() if k.split("_")[1]=="%s"]' % (EB, m), '[%s.x, %s.y]' % (m, m), 'the system holds the objects the model holds', AT)
    s = an.scn('A=O("A", log)\nP=Problem("P", "")\nP.addModels([A])\nP.resolve()\nP.resolve()\n', P, **inp)
    check(s, 'twice', sysm('A'), ['x_A', 'y_A'], 'system after resolving twice')
    s.equal('twice objects', '{**%s.variable_dict}' % EB, '{"x_A": A.x, "y_A": A.y}', 'objects of the system after resolving twice', AT)
    s.equal('twice parameters', '{**%s.parameter_dict}' % EB, '{"p_A": A.p}', 'parameters of the system after resolving twice', AT)
    s = an.scn('A=O("A", log)\nB=O("B", log)\nP=Problem("P", "")\nP.addModels([A])\nP.resolve()\nP.addModels([B])\nP.resolve()\nP.resolve()\n', P, **inp)
    check(s, 'extended', sysm('A') + sysm('B'), ['x_A', 'y_A', 'x_B', 'y_B'], 'system after adding a model and resolving again')
    # models that already hold objects: created in the constructor, from outside, by incorporation or by an earlier resolve
    for pre, how in (('', 'none'), ('A.c0=A.createConstant("c0", ud, "")\n', 'constant'), ('A.p0=A.createParameter("p0", ud, "")\n', 'parameter'), ('A.v0=A.createVariable("v0", ul, "")\n', 'variable'), ('A.v0=A.createVariable("v0", ul, "", is_exposed=True, type="input")\n', 'exposed'),
                     ('A.v0=A.createVariable("v0", ul, "")\nA.e0=A.createEquation("e0", "", A.v0() == A.v0()*3.0)\n', 'equation'), ('A.c0=A.createConstant("c0", ud, "")\nA.p0=A.createParameter("p0", ud, "")\nA.v0=A.createVariable("v0", ul, "")\nA.e0=A.createEquation("e0", "", A.v0() == A.c0()*A.v0())\n', 'all')):
        for order in (('A', 'B'), ('B', 'A')):
            s = an.scn('A=O("A", log)\nB=O("B", log)\n%sP=Problem("P", "")\nP.addModels([%s, %s])\nn=[]\nfor i in range(3):\n    P.resolve()\n    n.append(len(log))\n' % ((pre,) + order), P, **inp)
            s.completes('models holding %s, %s first' % (how, order[0]), 'repeated resolve', AT)
            s.equal('models holding %s, %s first: declarations' % (how, order[0]), '[sorted(log[:n[0]]), sorted(log[n[0]:n[1]]), sorted(log[n[1]:])]', repr([sorted((m, h + '.') for m in 'AB' for h in 'cpve')] * 3), 'every resolve runs every declaration of every model once', AT)
            s.equal('models holding %s, %s first: residuals' % (how, order[0]), EB + '._equations_list', '[%s]' % ', '.join(sum([(['%s-%s' % (X('v0'), ('3.0*%s' if how == 'equation' else '%s*%s' % (X('c0'), '%s')) % X('v0'))] if m == 'A' and how in ('equation', 'all') else []) + sysm(m) for m in order], [])), 'system after resolving three times', AT)
    # values and equations changed between
    s = an.scn('M=Lin("A")\nP=Problem("P", "")\nP.addModels(M)\nP.resolve()\nM.DeclareParameters=lambda: M.p.setValue(p2)\nP.resolve()\n', P, **inp)
    check(s, 'new parameter value', ['%s-2.0*%s' % (X('x'), X('y')), 'p2*%s+%s-3.0' % (X('x'), X('y'))], ['x_A', 'y_A'], 'system after a parameter value changed')
    s = an.scn('A=O("A", log)\nP=Problem("P", "")\nP.addModels([A])\nP.resolve()\nA.DeclareEquations=lambda: A.createEquation("e1", "", A.x() == 7.0)\nP.resolve()\n', P, **inp)
    check(s, 'replaced equation', ['%s-7.0' % X('x'), '%s-%s-1.0' % (X('x'), X('y'))], ['x_A', 'y_A'], 'system after an equation was declared anew')
    s = an.scn('A=O("A", log)\nP=Problem("P", "")\nP.addModels([A])\nP.resolve()\nA.DeclareVariables=lambda: A.x.setValue(v2)\nP.resolve()\n', P, **inp)
    s.completes('specified variable', 'variable specified between', AT)
    s.equal('specified variable residuals', EB + '._equations_list', '[v2*cv-pv*%s, v2-%s-1.0]' % (X('y'), X('y')), 'system after a variable was specified', AT)
    s = an.scn('A=Lin("A")\nB=Lin("B")\nP=Problem("P", "")\nP.addModels([A, B])\nP.resolve()\nP.createConnection(A, B, A.x, B.y)\nP.resolve()\nP.resolve()\n', P, **inp)
    lin = lambda m: ['%s-2.0*%s' % (X('x', m), X('y', m)), 'pv*%s+%s-3.0' % (X('x', m), X('y', m))]
    s.completes('connection added', 'connection added between', AT)
    s.equal('connection added residuals', EB + '._equations_list', '[%s]' % ', '.join(lin('A') + lin('B') + ['%s-%s' % (X('y', 'B'), X('x', 'A'))]), 'system after a connection was added', AT)
    s = an.scn('A=Lin("A")\nB=Lin("B")\nP=Problem("P", "")\nP.addModels([A, B])\nP.createConnection(A, B, A.x, B.y)\nP.createConnection("", A, 3.0*B.x(), A.y())\nP.resolve()\nn1=len(P.equation_block.equations)\nP.resolve()\nn2=len(P.equation_block.equations)\nP.resolve()\nn3=len(P.equation_block.equations)\n', P, **inp)
    s.equal('connections kept', '(n1, n2, n3)', '(6, 6, 6)', 'equations after resolving repeatedly', AT)
    # a model takes the place of an earlier one of the same name
    for k in (0, 1, 2):
        s = an.scn('A=O("A", log)\nP=Problem("P", "")\nP.addModels(A)\n%sB=Lin("A")\nP.addModels(B)\n' % ('P.resolve()\n' * k) + 'P.resolve()\n', P, **inp)
        check(s, 'model replaced after %d resolves' % k, lin('A'), ['x_A', 'y_A'], 'system after a model took the place of another')
        s.equal('model replaced after %d resolves: unknowns' % k, '[v is B.x or v is B.y for v in %s.variable_dict.values()]' % EB, '[True, True]', 'unknowns are those of the current model', AT)
    # differential
    s = an.scn('A=Ode("A")\nP=Problem("P", "")\nP.addModels(A)\nP.resolve()\nP.resolve()\n', P, **inp)
    s.completes('dynamic twice', 'dynamic problem resolved twice', AT)
    s.equal('dynamic twice kinds', '[len(g) for g in %s._equation_groups.values()]' % EB, '[0, 0, 2]', 'kinds of equations', AT)
    s.equal('dynamic twice sides', '[(e.elementary_equation_expression[0].symbolic_object, e.elementary_equation_expression[1].symbolic_object) for e in %s.equations]' % EB,
            '[(sp.Derivative(%s, %s), pv*%s), (sp.Derivative(%s, %s), 2.0*pv*%s)]' % (X('a'), X('t'), X('b'), X('b'), X('t'), X('a')), 'sides of the differential equations', AT)
    # two problems over one model; a system already built keeps its equations
    s = an.scn('A=Lin("A")\nP=Problem("P", "")\nQ=Problem("Q", "")\nP.addModels(A)\nP.resolve()\nB=Lin("B")\nQ.addModels([A, B])\nQ.resolve()\n', P, **inp)
    s.equal('shared model', EB + '._equations_list', '[%s]' % ', '.join(lin('A')), 'system of a problem after another problem with the same model was resolved', AT)
    s.equal('shared model other', 'Q.equation_block._equations_list', '[%s]' % ', '.join(lin('A') + lin('B')), 'system of the other problem', AT)
    # what the declarations of a model make is there once, however often the problem is resolved
    R = P + '''
class N(Model):
    def DeclareParameters(self):
        self.p=self.createParameter("p", ul, "")
        self.p.setValue(pv)
    def DeclareVariables(self):
        self.x=self.createVariable("x", ul, "", is_exposed=True, type="input")
        self.y=self.createVariable("y", ul, "", is_exposed=True, type="output")
    def DeclareEquations(self):
        self.f=self.createEquation("", "", self.x() == self.p())
        self.e=self.createEquation("e", "", self.x() + self.y() == 3.0*self.p())
        self.createEquation("", "", self.y() == 2.0*self.x())
class Inc(Model):
    def __init__(self, name, other):
        super().__init__(name, "")
        self.other=other
    def DeclareVariables(self):
        self.incorporateFromExternalModel(self.other)
'''
    un = lambda m: sorted(['%s-pv' % X('x', m), '%s+%s-3.0*pv' % (X('x', m), X('y', m)), '%s-2.0*%s' % (X('y', m), X('x', m))])
    for k in (1, 2, 3):
        s = an.scn('A=N("A")\nB=N("B")\nP=Problem("P", "")\nP.addModels([A, B])\n' + 'P.resolve()\n' * k, R, **inp)
        oid = 'unnamed equations resolved %d times' % k
        s.completes(oid, 'equations without a name', AT)
        s.equal(oid + ' number', '(len(%s._equations_list), len(A.equations), len(B.equations))' % EB, '(6, 3, 3)', 'number of equations', AT)
        for m in 'AB':
            for e in un(m):
                s.holds(oid + ' residual %s' % e, 'len([r for r in %s._equations_list if r == %s]) == 1' % (EB, e), 'equation of the system', AT)
            s.equal(oid + ' exposed of ' + m, '([v is %s.x for v in %s.exposed_vars["input"]], [v is %s.y for v in %s.exposed_vars["output"]])' % (m, m, m, m), '([True], [True])', 'exposed variables are the current ones', AT)
            s.holds(oid + ' declared of ' + m, 'any(e is %s.e for e in %s.equations) and any(e is %s.f for e in %s.equations)' % (m, EB, m, EB), 'the system holds the equations declared last', AT)
    s = an.scn('A=N("A")\nA()\nf=A.createEquation("", "", A.x() == 7.0)\nA()\nP=Problem("P", "")\nP.addModels(A)\nP.resolve()\nP.resolve()\n', R, **inp)
    s.equal('unnamed equation from outside', '(len(%s._equations_list), len([e for e in %s.equations if e is f]))' % (EB, EB), '(4, 1)', 'an equation made by the user stays', AT)
    s = an.scn('A=N("A")\nB=N("B")\nA()\nB()\nP=Problem("P", "")\nP.addModels([A, B])\nP.createConnection("", B, B.x(), A.y())\nP.createConnection("", B, B.x(), A.x())\nP.resolve()\nP.resolve()\n', R, **inp)
    s.equal('unnamed connections', 'len(%s._equations_list)' % EB, '8', 'connections without a name stay', AT)
    s = an.scn('B=N("B")\nB()\nA=Inc("A", B)\nP=Problem("P", "")\nP.addModels(A)\nP.resolve()\nP.resolve()\n', R, **inp)
    s.completes('incorporated anew', 'incorporation in the declarations of a model', AT)
    s.equal('incorporated anew exposed', '([v is A.x for v in A.exposed_vars["input"]], [v is A.y for v in A.exposed_vars["output"]], len(A.equations))', '([True], [True], 3)', 'exposed variables are the current ones', AT)
    # all models are declared before the system is put together
    s = an.scn('''
class U(Model):
    def __init__(self, name, other):
        super().__init__(name, "")
        self.other=other
    def DeclareVariables(self):
        self.x=self.createVariable("x", ul, "")
    def DeclareEquations(self):
        self.createEquation("e", "", self.x() == 1.0)
        self.other.createEquation("late", "", self.other.y() == 4.0)
L=Lin("L")
u=U("G", L)
P=Problem("P", "")
P.addModels([L, u])
P.resolve()
''', P, **inp)
    s.completes('late equation', 'equation declared by a later model', AT)
    s.equal('late equation residuals', EB + '._equations_list', '[%s]' % ', '.join(lin('L') + ['%s-4.0' % X('y', 'L'), '%s-1.0' % X("x", "G")]), 'equations declared by later models are part of the system', AT)
