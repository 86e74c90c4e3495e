from .common import *

RULE = ('the kind of a resolved problem follows from the kinds of its equations alone: only differential -> differential; differential with any other -> differential-algebraic; '
        'no differential and some nonlinear -> nonlinear; only linear -> linear; whatever their order, number and model')
AT = ['problem:Problem._getProblemType', 'core.equation_block:EquationBlock._assignEquationGroups']
P = PROB + '''
class G(Model):
    def __init__(self, name, kinds):
        super().__init__(name, "")
        self.kinds=kinds
        self.t=self.createVariable("t", us, "")
        self.x=self.createVariable("x", ud, "")
        self.y=self.createVariable("y", ud, "")
        self.k=self.createParameter("k", us, "")
        self.k.setValue(pv)
        self.dom=Domain("dom", us, self.t, "")
        self.x.distributeOnDomain(self.dom)
        self.y.distributeOnDomain(self.dom)
    def DeclareEquations(self):
        for i, c in enumerate(self.kinds):
            if c=="l":
                self.createEquation("e"+str(i), "", self.x() == 2.0*self.y())
            elif c=="L":
                self.createEquation("e"+str(i), "", self.x() - self.y())
            elif c=="n":
                self.createEquation("e"+str(i), "", self.x()*self.y() == 2.0)
            elif c=="N":
                self.createEquation("e"+str(i), "", self.x() - eo.Exp(self.y()))
            elif c=="d":
                self.createEquation("e"+str(i), "", self.k()*self.x.Diff(self.t) == self.y())
            elif c=="f":
                self.createEquation("e"+str(i), "", self.x.Diff(self.t) == self.y()/self.k())
            elif c=="z":
                self.createEquation("e"+str(i), "", eo.Exp(1.0) - eo.Log(2.0))
            elif c=="p":
                self.createEquation("e"+str(i), "", eo.Exp(self.k()/self.k()) == 1.0)
            elif c=="c":
                self.createEquation("e"+str(i), "", self.k()*self.k() - 4.0*self.k()*self.k())
            else:
                self.createEquation("e"+str(i), "", self.k()*self.x.Diff(self.t) - self.y())
'''


def kind(ks):
    g = {'l' if c == 'c' else 'n' if c in 'zp' else c.lower() if c.lower() in 'ln' else 'd' for c in ks}
    if not g:
        return None
    if g == {'d'}:
        return 'differential'
    if 'd' in g:
        return 'differential-algebraic'
    return 'nonlinear' if 'n' in g else 'linear'


def run(an, tier):
    combos = ['p', 'pd', 'lp', 'l', 'n', 'd', 'D', 'L', 'N', 'f', 'll', 'ln', 'nl', 'ld', 'dl', 'nd', 'dn', 'dd', 'lD', 'Dn', 'lnd', 'ndl', 'dln', 'LND', 'lln', 'nll', 'ddl', 'ldd', 'nnd', 'fl', 'Lf', 'dfD', 'LNl', 'fN', 'Nf', 'c', 'cd', 'dc', 'cn', 'fcf']
    if tier == 'thorough':
        combos += ['lllln', 'dddn', 'nnnld', 'DDDDf', 'llllL', 'lndf', 'nNnN', 'fDdl']
    for ks in combos:
        w = kind(ks)
        s = an.scn('M=G("M", %r)\nP=Problem("P", "")\nP.addModels(M)\nP.resolve()\nr=P._getProblemType()\n' % ks, P, pv=num('pv'))
        s.completes('resolve %s' % ks, 'problem with equations of kinds %s' % ks, AT)
        s.equal('kind %s' % ks, 'r', const(w), 'kind of a problem with equations of kinds %s' % ks, AT)
        if len(ks) > 1:
            for order in ('[M, N]', '[N, M]'):
                s = an.scn('M=G("M", %r)\nN=G("N", %r)\nP=Problem("P", "")\nP.addModels(%s)\nP.resolve()\nr=P._getProblemType()\n' % (ks[:1], ks[1:], order), P, pv=num('pv'))
                s.equal('kind %s over two models %s' % (ks, order), 'r', const(w), 'kind of a problem with equations of kinds %s in two models' % ks, AT)
    # the kind is that of the current equations
    for a, b in (('l', 'n'), ('n', 'l'), ('d', 'l'), ('l', 'd'), ('dl', 'd'), ('d', 'dl'), ('d', 'nd'), ('n', 'dn'), ('l', 'ln'), ('ln', 'l'), ('dn', 'n'), ('dl', 'n')):
        s = an.scn('M=G("M", %r)\nP=Problem("P", "")\nP.addModels(M)\nP.resolve()\nfirst=P._getProblemType()\nM.equations.clear()\nM.kinds=%r\nP.resolve()\nr=P._getProblemType()\n' % (a, b), P, pv=num('pv'))
        s.equal('kind %s after %s' % (b, a), 'r', const(kind(b)), 'kind after the equations were replaced and the problem resolved again', AT)
        s = an.scn('M=G("M", %r)\nP=Problem("P", "")\nP.addModels(M)\nP.resolve()\nfirst=P._getProblemType()\nN=G("N", %r)\nP.addModels(N)\nP.resolve()\nr=P._getProblemType()\nr2=P._getProblemType()\n' % (a, b), P, pv=num('pv'))
        s.equal('kind %s before %s' % (a, b), 'first', const(kind(a)), 'kind before a model was added', AT)
        s.equal('kind %s extended by %s, asked twice' % (a, b), 'r2', const(kind(a + b)), 'kind asked for twice', AT)
        s.equal('kind %s extended by %s' % (a, b), 'r', const(kind(a + b)), 'kind after a model was added and the problem resolved again', AT)
