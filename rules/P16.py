from .common import *

RULE = ('the resolved system of a problem consists of exactly the equations of its models, each once, in order of addition and declaration, every one entering as its residual (left minus right); '
        'its unknowns are exactly the variables occurring in those equations and its parameters exactly those occurring; the objects are the ones of the models (not copies)')
NESTED = True
AT = ['problem:Problem._buildEquationBlock', 'core.equation_block:EquationBlock.__call__']
P = PROB + '''
class G(Model):
    """unused objects, shared objects, several equations"""
    def __init__(self, name, n=0):
        super().__init__(name, "")
        self.n=n
        self.u=self.createVariable("u", ul, "")
        self.x=self.createVariable("x", ul, "", is_exposed=True, type="input")
        self.y=self.createVariable("y", ul, "", is_exposed=True, type="output")
        self.z=self.createVariable("z", ul, "")
        self.p=self.createParameter("p", ud, "")
        self.q=self.createParameter("q", ud, "")
        self.c=self.createConstant("c", ud, "")
        self.w=self.createParameter("w", ud, "")
        self.c.setValue(cv)
    def DeclareParameters(self):
        self.p.setValue(pv)
    def DeclareEquations(self):
        self.createEquation("g2", "", self.y() == self.p()*self.x())
        self.createEquation("g1", "", self.z()*self.q() == self.c()*self.y() + 2.0*self.x())
        self.createEquation("g3", "", self.x() - self.p()*self.z())
'''


def g(m, p='pv'):
    X = lambda n: 'sp.symbols("%s_%s")' % (n, m)
    return ['%s-%s*%s' % (X('y'), p, X('x')), '%s*%s-(cv*%s+2.0*%s)' % (X('z'), X('q'), X('y'), X('x')), '%s-%s*%s' % (X('x'), p, X('z'))]


def lin(m):
    X = lambda n: 'sp.symbols("%s_%s")' % (n, m)
    return ['%s-2.0*%s' % (X('x'), X('y')), 'pv*%s+%s-3.0' % (X('x'), X('y'))]


def run(an, tier):
    inp = {'pv': num('pv'), 'cv': num('cv')}
    EB = 'P.equation_block'
    cases = [('one model', 'A=G("A")\nP.addModels(A)\n', ['A']), ('two models', 'A=G("A")\nB=G("B")\nP.addModels([B, A])\n', ['B', 'A']), ('separately added', 'A=G("A")\nB=G("B")\nP.addModels(A)\nP.addModels(B)\n', ['A', 'B']),
             ('three models', 'A=G("A")\nB=G("B")\nC=G("C")\nP.addModels([A, [C]])\nP.addModels(B)\n', ['A', 'C', 'B']), ('added twice', 'A=G("A")\nB=G("B")\nP.addModels([A, B])\nP.addModels(A)\n', ['A', 'B'])]
    for oid, src, ms in cases:
        s = an.scn('P=Problem("P", "")\n' + src + 'P.resolve()\n', P, **inp)
        s.completes(oid, 'assembly of a problem', AT)
        s.equal(oid + ' equations', EB + '.equations', '[%s]' % ', '.join('%s.equations["%s_%s"]' % (m, e, m) for m in ms for e in ('g2', 'g1', 'g3')), 'equations of the system', AT)
        s.equal(oid + ' residuals', EB + '._equations_list', '[%s]' % ', '.join(e for m in ms for e in g(m)), 'residuals of the system', AT)
        vs = ['%s_%s' % (v, m) for m in ms for v in 'xyz']
        s.equal(oid + ' unknowns', 'sorted(%s.variable_dict)' % EB, repr(sorted(vs)), 'unknowns of the system', AT)
        s.equal(oid + ' unknown objects', '{**%s.variable_dict}' % EB, '{%s}' % ', '.join('"%s": %s.%s' % (v, v[2:], v[0]) for v in vs), 'the unknowns are the variables of the models', AT)
        s.equal(oid + ' unknown list', 'sorted(%s._var_list)' % EB, repr(sorted(vs)), 'list of unknowns of the system', AT)
        s.equal(oid + ' parameters', '{**%s.parameter_dict}' % EB, '{%s}' % ', '.join('"%s_%s": %s.%s' % (v, m, m, v) for m in ms for v in 'pq'), 'parameters of the system', AT)
        s.equal(oid + ' groups', '{**%s._equation_groups}' % EB, '{"linear": [%s], "nonlinear": [%s], "differential": []}' % (
            ', '.join('%s.equations["%s_%s"]' % (m, e, m) for m in ms for e in ('g2', 'g3')), ', '.join('%s.equations["%s_%s"]' % (m, e, m) for m in ms for e in ('g1',))), 'equations by kind', AT)
        s.equal(oid + ' own tables', '(list(A.equations), list(A.variables), A.p.value, A.p.is_specified, A.q.is_specified)', '(["g2_A", "g1_A", "g3_A"], ["u_A", "x_A", "y_A", "z_A"], pv, True, False)', 'models after the assembly', AT)
    # connections enter with the model that receives them
    s = an.scn('P=Problem("P", "")\nA=G("A")\nB=G("B")\nP.addModels([A, B])\nP.createConnection(A, B, A.y, B.x)\nP.createConnection(B, A, B.y, A.x)\nP.resolve()\n', P, **inp)
    s.completes('connected', 'assembly with connections', AT)
    cn = lambda o, i: 'sp.symbols("x_%s")-sp.symbols("y_%s")' % (i, o)
    s.equal('connected residuals', EB + '._equations_list', '[%s]' % ', '.join([cn('B', 'A')] + g('A') + [cn('A', 'B')] + g('B')), 'residuals with connections', AT)
    s.equal('connected count', '(len(P.connections), len(%s.equations))' % EB, '(2, 8)', 'equations with connections', AT)
    # equations of different models whose full names are equal
    for order in (('A', 'B'), ('B', 'A')) if an.names is None else ():
        s = an.scn('class H(Model):\n    def __init__(self, name, eq):\n        super().__init__(name, "")\n        self.eq=eq\n        self.x=self.createVariable("x", ul, "")\n        self.y=self.createVariable("y", ul, "")\n    def DeclareEquations(self):\n        self.createEquation(self.eq, "", self.x() == 2.0*self.y())\n        self.createEquation("o", "", self.x() - self.y() == 3.0*self.y())\n'
                   'A=H("A", "e_1")\nB=H("1_A", "e")\nP=Problem("P", "")\nP.addModels([%s, %s])\nP.resolve()\n' % order, P, **inp)
        s.completes('equal full names %s' % order[0], 'assembly of a problem', AT)
        X = lambda v, m: 'sp.symbols("%s_%s")' % (v, {'A': 'A', 'B': '1_A'}[m])
        s.equal('equal full names %s residuals' % order[0], EB + '._equations_list', '[%s]' % ', '.join('%s-2.0*%s, %s-%s-3.0*%s' % (X('x', m), X('y', m), X('x', m), X('y', m), X('y', m)) for m in order), 'residuals of the system', AT)
    # a variable that enters only through a connection
    s = an.scn('''
class Free(Model):
    def DeclareVariables(self):
        if "f_F" not in self.variables:
            self.f=self.createVariable("f", ul, "", is_exposed=True, type="input")
            self.h=self.createVariable("h", ul, "")
F=Free("F", "")
F()
A=G("A")
P=Problem("P", "")
P.addModels([A, F])
P.createConnection(A, F, A.y, F.f)
P.resolve()
''', P, **inp)
    s.completes('connection only', 'variable entering through a connection', AT)
    s.equal('connection only unknowns', 'sorted(%s.variable_dict)' % EB, '["f_F", "x_A", "y_A", "z_A"]', 'unknowns of the system', AT)
    s.equal('connection only residuals', EB + '._equations_list', '[%s]' % ', '.join(g('A') + ['sp.symbols("f_F")-sp.symbols("y_A")']), 'residuals of the system', AT)
    # a variable of another model that occurs nowhere but in an expression connection
    for order in ('[A, B]', '[B, A]'):
        s = an.scn('P=Problem("P", "")\nA=G("A")\nB=Lin("B")\nP.addModels(%s)\nP.createConnection(A, B, A.u()*A.w(), B.y())\nP.resolve()\n' % order, P, **inp)
        oid = 'foreign objects %s' % order
        s.completes(oid, 'assembly with objects of another model', AT)
        s.equal(oid + ' unknowns', 'sorted(%s.variable_dict)' % EB, '["u_A", "x_A", "x_B", "y_A", "y_B", "z_A"]', 'unknowns of the system', AT)
        s.equal(oid + ' parameters', 'sorted(%s.parameter_dict)' % EB, '["p_A", "p_B", "q_A", "w_A"]', 'parameters of the system', AT)
        s.holds(oid + ' unknown object', '%s.variable_dict["u_A"] is A.u' % EB, 'unknown of another model', AT)
    # equations that state the same are still separate equations
    s = an.scn('''
class Same(Model):
    def __init__(self, name):
        super().__init__(name, "")
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
        self.p=self.createParameter("p", ud, "")
        self.p.setValue(pv)
    def DeclareEquations(self):
        self.createEquation("a", "", self.x() == self.p()*self.y())
        self.createEquation("b", "", self.x() - self.p()*self.y())
        self.createEquation("c", "", self.x() == self.p()*self.y())
        self.createEquation("d", "", self.p()*self.p())
A=Same("A")
P=Problem("P", "")
P.addModels(A)
P.resolve()
''', P, **inp)
    s.completes('same statements', 'assembly of equations that state the same', AT)
    s.equal('same statements equations', EB + '.equations', '[A.equations[k+"_A"] for k in ["a", "b", "c", "d"]]', 'equations of the system', AT)
    s.equal('same statements residuals', EB + '._equations_list', '[%s, pv*pv]' % ', '.join(3*['sp.symbols("x_A")-pv*sp.symbols("y_A")']), 'residuals of the system', AT)
    s.equal('same statements groups', '{**%s._equation_groups}' % EB, '{"linear": [A.equations[k+"_A"] for k in ["a", "b", "c", "d"]], "nonlinear": [], "differential": []}', 'equations by kind', AT)
    # variables of another model of the problem used in an expression connection
    s = an.scn('P=Problem("P", "")\nA=G("A")\nB=Lin("B")\nP.addModels([A, B])\nP.createConnection(A, B, 2.0*A.y()+A.z(), B.y())\nP.resolve()\n', P, **inp)
    s.completes('expression connection', 'assembly with an expression connection', AT)
    s.equal('expression connection residuals', EB + '._equations_list', '[%s]' % ', '.join(g('A') + ['sp.symbols("y_B")-(2.0*sp.symbols("y_A")+sp.symbols("z_A"))'] + lin('B')), 'residuals with an expression connection', AT)
    s.equal('expression connection unknowns', 'sorted(%s.variable_dict)' % EB, '["x_A", "x_B", "y_A", "y_B", "y_B"][:0] + sorted(["x_A", "y_A", "z_A", "x_B", "y_B"])', 'unknowns of the system', AT)
    # objects declared in the hooks, while resolving
    s = an.scn('''
class H(Model):
    def DeclareVariables(self):
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
    def DeclareParameters(self):
        self.p=self.createParameter("p", ud, "")
    def DeclareEquations(self):
        self.e=self.createEquation("e", "", self.x() == self.p()*self.y())
A=H("A", "")
P=Problem("P", "")
P.addModels(A)
P.resolve()
''', P, **inp)
    s.completes('hooks', 'objects declared while resolving', AT)
    s.equal('hooks unknowns', '{**%s.variable_dict}' % EB, '{"x_A": A.x, "y_A": A.y}', 'unknowns declared while resolving', AT)
    s.equal('hooks parameters', '{**%s.parameter_dict}' % EB, '{"p_A": A.p}', 'parameters declared while resolving', AT)
    s.equal('hooks residuals', EB + '._equations_list', '[sp.symbols("x_A")-sp.symbols("p_A")*sp.symbols("y_A")]', 'equations declared while resolving', AT)
    # differential and algebraic equations keep their places
    s = an.scn('P=Problem("P", "")\nA=Dae("A")\nP.addModels(A)\nP.resolve()\n', P, **inp)
    D = 'sp.Derivative(sp.symbols("%s_A"), sp.symbols("t_A"))'
    s.equal('dynamic residuals', EB + '._equations_list', '[%s-pv*sp.symbols("b_A"), sp.symbols("c_A")-(sp.symbols("a_A")+sp.symbols("b_A")), %s-pv*sp.symbols("c_A")]' % (D % 'a', D % 'b'), 'residuals of a dynamic system', AT, vocab={'sympy.Derivative'})
    s.equal('dynamic groups', '[len(v) for v in %s._equation_groups.values()]' % EB, '[1, 0, 2]', 'equations by kind', AT)
    # each problem has its own system
    s = an.scn('A=G("A")\nB=G("B")\nP=Problem("P", "")\nP.addModels(A)\nQ=Problem("Q", "")\nQ.addModels(B)\nP.resolve()\nQ.resolve()\n', P, **inp)
    for p, m in (('P', 'A'), ('Q', 'B')):
        s.equal('two problems ' + p, p + '.equation_block._equations_list', '[%s]' % ', '.join(g(m)), 'residuals of one of two problems', AT)
        s.equal('two problems unknowns ' + p, 'sorted(%s.equation_block.variable_dict)' % p, '["x_%s", "y_%s", "z_%s"]' % (m, m, m), 'unknowns of one of two problems', AT)
    # a variable that was given a value enters the equations as that value and is no unknown
    SV = """
class SV(Model):
    def __init__(self, name, when, e0=False):
        super().__init__(name, "")
        self.when=when
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
        self.z=self.createVariable("z", ul, "")
        self.k=self.createParameter("k", ud, "")
        if e0:
            self.createEquation("e0", "", self.z() == 3.0*self.x())
        if when=="init":
            self.x.setValue(xv)
    def DeclareParameters(self):
        if self.when=="parameters":
            self.x.setValue(xv)
    def DeclareVariables(self):
        if self.when=="variables":
            self.x.setValue(xv)
    def DeclareEquations(self):
        self.createEquation("e1", "", self.y() == self.k()*self.x())
        if self.when=="between":
            self.x.setValue(xv)
        self.createEquation("e2", "", self.z() == self.x() + self.y())
"""
    X = lambda n: 'sp.symbols("%s_A")' % n
    for when, first, unk, r1, r2 in (('init', '', 'yz', 'xv', 'xv'), ('parameters', '', 'yz', 'xv', 'xv'), ('variables', '', 'yz', 'xv', 'xv'), ('before', 'A.x.setValue(xv)\n', 'yz', 'xv', 'xv'), ('between', '', 'xyz', X('x'), 'xv'), ('never', '', 'xyz', X('x'), X('x'))):
        for more in ('', 'P.resolve()\n'):
            if more and when == 'between':
                continue
            s = an.scn('A=SV("A", "%s")\n%sP=Problem("P", "")\nP.addModels(A)\nP.resolve()\n%s' % (when, first, more), PROB + '\n' + SV, xv=num('xv'), pv=num('pv'))
            oid = 'variable given a value %s%s' % (when, ', resolved twice' if more else '')
            s.completes(oid, 'assembly of a problem with a variable given a value', AT)
            s.equal(oid + ' unknowns', '(sorted(%s.variable_dict), sorted(%s._var_list))' % (EB, EB), repr((['%s_A' % v for v in unk],) * 2), 'unknowns of the system', AT)
            s.equal(oid + ' residuals', EB + '._equations_list', '[%s-%s*%s, %s-(%s+%s)]' % (X('y'), X('k'), r1, X('z'), r2, X('y')), 'residuals of the system', AT)
            s.equal(oid + ' parameters', 'list(%s.parameter_dict)' % EB, '["k_A"]', 'parameters of the system', AT)
    # an equation stated before the value was given keeps the unknown
    s = an.scn('A=SV("A", "before", True)\nA.x.setValue(xv)\nP=Problem("P", "")\nP.addModels(A)\nP.resolve()\n', PROB + '\n' + SV, xv=num('xv'), pv=num('pv'))
    s.completes('value after an equation', 'assembly of a problem with a variable given a value after an equation', AT)
    s.equal('value after an equation unknowns', '(sorted(%s.variable_dict), sorted(%s._var_list))' % (EB, EB), '(["x_A", "y_A", "z_A"], ["x_A", "y_A", "z_A"])', 'unknowns of the system', AT)
    s.equal('value after an equation residuals', EB + '._equations_list', '[%s-3.0*%s, %s-%s*xv, %s-(xv+%s)]' % (X('z'), X('x'), X('y'), X('k'), X('z'), X('y')), 'residuals of the system', AT)
    # known in one model, unknown in another; exposed ones too
    s = an.scn('A=G("A")\nB=G("B")\nA.y.setValue(xv)\nP=Problem("P", "")\nP.addModels([A, B])\nP.createConnection(A, B, A.y, B.x)\nP.resolve()\n', P, xv=num('xv'), **inp)
    s.completes('connected known', 'connection to a variable that was given a value', AT)
    s.equal('connected known unknowns', '(sorted(%s.variable_dict), sorted(%s._var_list))' % (EB, EB), '(["x_A", "x_B", "y_B", "z_A", "z_B"], ["x_A", "x_B", "y_B", "z_A", "z_B"])', 'unknowns of the system', AT)
    s.equal('connected known residual', '%s._equations_list[3]' % EB, 'sp.symbols("x_B")-xv', 'connection to a variable that was given a value', AT)
