from .common import *

RULE = ('an equation that uses an object not declared in its model is rejected with the undeclared-object error and not registered; '
        'equations over declared variables, parameters and constants are accepted')
P = PRE + '''
from src.sloth.model import Model
m=Model("A", "")
n=Model("B", "")
x=m.createVariable("x", tu.dimless, "")
p=m.createParameter("p", tu.dimless, "")
k=m.createConstant("k", tu.dimless, "")
k.setValue(2.0)
y=n.createVariable("y", tu.dimless, "")
q=n.createParameter("q", tu.dimless, "")
q.setValue(3.0)
c=n.createConstant("c", tu.dimless, "")
free=Variable("free", tu.dimless, "")
same=n.createVariable("x", tu.dimless, "")
'''
NESTED = True


def run(an, tier):
    at = 'model:Model._checkEquation_'
    own = ['x()', 'p()', 'k()', '2.0*x()-p()', 'x()*k()+p()', 'eo.Exp(x())', 'x()**k()']
    foreign = ['y()', 'q()', 'c()', 'free()', 'same()']
    for e in own:
        for f in ('%s', '%s == 1.0', '%s == x()'):
            s = an.scn('e=m.createEquation("e", "", %s)\n' % (f % e), P)
            oid = 'declared ' + f % e
            s.completes(oid, 'equation over declared objects accepted', at)
            s.equal(oid + ' registered', 'm.equations', '{"e_A": e}', 'registered', at)
    for g in foreign:
        for f in ('%s', 'x()-%s', '%s*x()', '%s == x()', 'x() == %s', 'x() == 2.0*%s+p()', 'eo.Exp(%s)-x()', 'x()/%s', 'x()**(0.0*%s)', 'eo.Min(x(), %s)', 'p()*k()-%s/x() == k()'):
            oid = 'undeclared ' + f % g
            s = an.scn('e=m.createEquation("e", "", %s)\n' % (f % g), P)
            s.rejects(oid, 'UnexpectedObjectDeclarationError', 'equation over an undeclared object rejected', at)
            s = an.scn('try:\n    m.createEquation("e", "", %s)\nexcept Exception:\n    pass\n' % (f % g), P)
            s.equal(oid + ' not registered', '(m.equations, n.equations)', '({}, {})', 'rejected equation not registered', at)
            s = an.scn('e0=m.createEquation("e", "", x())\ntry:\n    m.createEquation("e", "", %s)\nexcept Exception:\n    pass\n' % (f % g), P)
            s.equal(oid + ' does not replace', 'm.equations', '{"e_A": e0}', 'rejected equation does not replace a registered one', at)
    # whatever else the model and the object are
    for oid, pre in (('exposed input', 'i=m.createVariable("i", tu.dimless, "", is_exposed=True, type="input")\n'), ('exposed output', 'i=m.createVariable("i", tu.dimless, "", is_exposed=True, type="output")\n'),
                     ('exposed elsewhere', 'i=n.createVariable("i", tu.dimless, "", is_exposed=True, type="output")\n'), ('own equation', 'm.createEquation("first", "", x()-p())\n'), ('equation elsewhere', 'n.createEquation("e", "", y()-q())\n'),
                     ('declared', 'm()\nn()\n'), ('resolved', 'from src.sloth.problem import Problem\nR=Problem("R", "")\nR.addModels([m, n])\nm.createEquation("first", "", x()-p())\nR.resolve()\n'),
                     ('connected', 'from src.sloth.problem import Problem\ni=m.createVariable("i", tu.dimless, "", is_exposed=True, type="input")\no=n.createVariable("o", tu.dimless, "", is_exposed=True, type="output")\nR=Problem("R", "")\nR.addModels([m, n])\nR.createConnection(n, m, o, i)\n'),
                     ('incorporated', 'n2=Model("C", "")\nn2.createVariable("y", tu.dimless, "")\nm.incorporateFromExternalModel(n2)\n'), ('given a value', 'y.setValue(2.0)\nfree.setValue(2.0)\n'), ('refused before', 'try:\n    m.createEquation("e", "", x()-y())\nexcept Exception:\n    pass\n')):
        for g in foreign:
            s = an.scn(pre + 'm.createEquation("z", "", x()-%s)\n' % g, P)
            s.rejects('%s: undeclared %s' % (oid, g), 'UnexpectedObjectDeclarationError', 'equation over an undeclared object rejected (%s)' % oid, at)
        s = an.scn(pre + 'e=m.createEquation("z", "", x()-p()*k())\n', P)
        s.completes('%s: declared' % oid, 'equation over declared objects accepted (%s)' % oid, at)
        s.equal('%s: declared registered' % oid, 'm.equations["z_A"]', 'e', 'registered', at)
    # an arbitrary foreign name
    s = an.scn('z=Variable(zn, tu.dimless, "")\nm.createEquation("e", "", x()-z())\n', P, zn=strsym('zn'))
    s.exits('arbitrary name', 'zn in ("x_A", "p_A", "k_A")', 'UnexpectedObjectDeclarationError', 'object of an arbitrary name', at)
    # names that look like declared ones: same ending, beginning, parts of each other, a model of the same name
    N = """
M=Model("A", "")
x=M.createVariable("x", tu.dimless, "")
xy=M.createVariable("x_y", tu.dimless, "")
M2=Model("AA", "")
M3=Model("A", "")
M4=Model("y_A", "")
f1=M2.createVariable("x", tu.dimless, "")
f2=M3.createVariable("z", tu.dimless, "")
f3=M4.createVariable("q", tu.dimless, "")
f4=Variable("x_A_A", tu.dimless, "")
f5=Variable("x", tu.dimless, "")
f6=Variable("A", tu.dimless, "")
f7=Variable("xx_A", tu.dimless, "")
f8=Variable("X_A", tu.dimless, "")
f9=Variable("x_A ", tu.dimless, "")
"""
    for i in range(1, 10):
        for e in ('x()-f%d()', 'f%d() == xy()'):
            s = an.scn(N + 'M.createEquation("e", "", %s)\n' % (e % i), PRE + 'from src.sloth.model import Model\n')
            s.rejects('similar name ' + e % i, 'UnexpectedObjectDeclarationError', 'undeclared object with a similar name', at)
    s = an.scn(N + 'e=M.createEquation("e", "", x()-xy())\n', PRE + 'from src.sloth.model import Model\n')
    s.equal('similar names declared', 'M.equations', '{"e_A": e}', 'declared objects with similar names', at)
    # declared while resolving
    s = an.scn('''
class M(Model):
    def __init__(self, nm, v):
        super().__init__(nm, "")
        self.v=v
    def DeclareVariables(self):
        self.x=self.createVariable("x", tu.dimless, "")
    def DeclareParameters(self):
        self.p=self.createParameter("p", tu.dimless, "")
    def DeclareConstants(self):
        self.k=self.createConstant("k", tu.dimless, "")
    def DeclareEquations(self):
        self.e=self.createEquation("e", "", self.x()+self.p()*self.k() == 1.0)
        if self.v is not None:
            self.f=self.createEquation("f", "", self.x() == self.v())
a=M("M1", None)
a()
err=False
b=M("M2", a.x)
try:
    b()
except Exception as ex:
    err=type(ex).__name__
''', P)
    s.equal('declared in hooks', 'list(a.equations)', '["e_M1"]', 'objects declared by the model hooks', 'model:Model.__call__')
    s.equal('foreign in hooks', '(err, list(b.equations))', '("UnexpectedObjectDeclarationError", ["e_M2"])', 'object of another model in the model hooks', 'model:Model.__call__')
