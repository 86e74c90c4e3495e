from .common import *

RULE = ('declaring a model that has inlet streams first brings in the objects of every stream and the variables of the total inlet, and adds exactly one balance each for pressure and temperature: the inlet value is the smallest of '
        'those of all inlet streams of all ports; a model without inlets gets nothing; a totalization function given to the model is used instead, once, after the objects and before the equations')
NESTED = True
AT = ['model:_totalizeInletsFunction_genericMaterialStreams', 'model:Model._setInlets', 'model:Model.__call__']
P = PROB + '''
from src.sloth import unit_op_library as lib
class M(Model):
    """uses the total inlet in its own equations"""
    def __init__(self, name, **kw):
        super().__init__(name, "", **kw)
    def DeclareVariables(self):
        self.z=self.createVariable("z", tu.K, "")
        self.w=self.createVariable("w", tu.Pa, "")
    def DeclareEquations(self):
        self.seen=list(self.equations)
        if hasattr(self, "T_in") and hasattr(self, "P_in"):
            self.createEquation("e1", "", self.z() == 2.0*self.T_in())
            self.createEquation("e2", "", self.w() - self.P_in())
class Plain(Model):
    def DeclareVariables(self):
        self.z=self.createVariable("z", tu.K, "")
    def DeclareEquations(self):
        self.createEquation("e1", "", self.z() == 2.0*self.z())
def stream(n, T, p):
    q=lib.MaterialStream(n)
    q.T.setValue(T)
    q.P.setValue(p)
    return q
p=stream("p", Tp, Pp)
q=stream("q", Tq, Pq)
r=stream("r", Tr, Pr)
def expr(m, n):
    return m.equations[n+"_"+m.name].equation_expression.symbolic_object
'''
IN = {k + s: num(k + s) for k in 'TP' for s in 'pqr'}
CASES = [('one', 'm._setInlets(p)', 'p'), ('one in a list', 'm._setInlets([p])', 'p'), ('two', 'm._setInlets([p, q])', 'pq'), ('two backwards', 'm._setInlets([q, p])', 'qp'), ('three', 'm._setInlets([p, q, r])', 'pqr'),
         ('two ports', 'm._setInlets(p, "b")\nm._setInlets(q, "a")', 'pq'), ('two ports of several', 'm._setInlets([p, r], "b")\nm._setInlets(q, "a")', 'prq'), ('same port twice', 'm._setInlets(p)\nm._setInlets([r, q])', 'prq'),
         ('same port thrice', 'm._setInlets(p, "x")\nm._setInlets(q, "x")\nm._setInlets(r, "x")', 'pqr')]


def S(n, m='A'):
    return 'sp.symbols("%s_%s")' % (n, m)


def run(an, tier):
    for oid, ins, ss in CASES:
        for how, dec in (('', 'm()\n'), (' resolved', 'R=Problem("R", "")\nR.addModels(m)\nR.resolve()\n'), (' twice', 'm()\nm()\n')):
            s = an.scn('m=M("A")\n' + ins + '\n' + dec, P, **IN)
            o = oid + how
            s.completes(o, 'declaration of a model with inlets', AT)
            least = lambda x: 'sp.Min(%s)' % ', '.join(x + k for k in ss) if len(ss) > 1 else x + ss
            s.equal(o + ' inlets', '[k.name for k in m._inlets]', repr(list(ss)), 'inlet streams in the order of their ports', AT)
            s.holds(o + ' inlet objects', 'all(%s)' % ('[%s]' % ', '.join('m._inlets[%d] is %s' % (i, k) for i, k in enumerate(ss))), 'inlet streams are the given ones', AT)
            for x in 'TP':
                s.equal('%s least %s' % (o, x), 'expr(m, "totalization_%s")' % x, '%s-%s' % (S(x + '_in'), least(x)), 'inlet value is the smallest of the streams', AT)
                s.equal('%s inlet %s' % (o, x), '(m.%s_in is m.variables["%s_in_A"], m.%s_in.is_exposed, m.%s_in.type, m.%s_in.is_specified, m.%s_in in m.exposed_vars["input"])' % ((x,)*6), '(True, True, "input", False, True)', 'variable of the total inlet', AT)
            s.equal(o + ' unit', '[k.units.dimension for k in [m.T_in, m.P_in, m.mdot_in, m.ndot_in, m.H_in]]', '[k.dimension for k in [tu.K, tu.Pa, tu.kg/tu.s, tu.mol/tu.s, tu.J/tu.mol]]', 'units of the total inlet', AT)
            s.holds(o + ' before', '"totalization_T_A" in m.seen and "totalization_P_A" in m.seen', 'totalization before the equations of the model', AT)
            s.equal(o + ' nothing void', 'sorted(m.equations)', 'sorted(["totalization_P_A", "totalization_T_A", "e1_A", "e2_A"])', 'streams of known conditions add no further equation', AT)
            if how == ' resolved':
                s.equal(o + ' solvable', '(len(R.equation_block.equations), sorted(R.equation_block._var_list))', '(4, ["P_in_A", "T_in_A", "w_A", "z_A"])', 'as many equations as unknowns', AT)
            s.equal(o + ' parameters', 'sorted(m.parameters)', 'sorted([%s])' % ', '.join('"%s_%s"' % (v, k) for k in ss for v in ('T', 'P', 'H', 'mdot', 'ndot')), 'objects of the streams', AT)
            s.equal(o + ' parameter values', '{k: v.value for k, v in m.parameters.items() if k[0] in "TP"}', '{%s}' % ', '.join('"%s_%s": %s%s' % (x, k, x, k) for k in ss for x in 'TP'), 'values of the streams', AT)
            s.equal(o + ' variables', 'sorted(m.variables)', 'sorted(["z_A", "w_A"]+[v+"_in_A" for v in ["T", "P", "H", "mdot", "ndot"]])', 'variables of the model', AT)
            s.equal(o + ' own', '(expr(m, "e1"), expr(m, "e2"))', '(%s-2.0*%s, %s-%s)' % (S('z'), S('T_in'), S('w'), S('P_in')), 'equations of the model over the total inlet', AT)
            s.equal(o + ' streams', '[(len(k.parameters), len(k.variables), len(k.equations), k.T.name, k.T.owner_model_name) for k in [p, q, r]]', '[(5, 0, 0, "T_"+n, n) for n in ["p", "q", "r"]]', 'streams unchanged', AT)
    # a model without inlets
    s = an.scn('m=Plain("A", "")\nn=M("B")\nn._setInlets([p, q])\nn()\nm()\n', P, **IN)
    s.completes('no inlets', 'declaration of a model without inlets', AT)
    s.equal('no inlets tables', '(list(m.variables), list(m.parameters), list(m.equations), m._inlets, m.exposed_vars, m.ports)', '(["z_A"], [], ["e1_A"], [], {"input": [], "output": []}, {"inlets": {}, "outlets": {}})', 'model without inlets', AT)
    # two models with the same stream
    s = an.scn('m=M("A")\nn=M("B")\nm._setInlets([p, q])\nn._setInlets([q, r])\nm()\nn()\n', P, **IN)
    s.completes('shared stream', 'two models with a common inlet', AT)
    for k, t in (('m', 'Min(Tp, Tq)'), ('n', 'Min(Tq, Tr)')):
        s.equal('shared stream ' + k, 'expr(%s, "totalization_T")' % k, '%s-sp.%s' % (S('T_in', 'A' if k == 'm' else 'B'), t), 'inlet temperature', AT)
    # the streams are given in a list that is used again
    for how, more in (('another inlet of the first', 'm._setInlets(r)\n'), ('another inlet at another port', 'm._setInlets(r, "b")\n'), ('the list changed', 'K=[i for i in L]\nL.append(r)\n'), ('the list emptied', 'K=[i for i in L]\nL.clear()\n')):
        s = an.scn('L=[p, q]\nm=M("A")\nm._setInlets(L)\nn=M("B")\nn._setInlets(L)\n%sm()\nn()\n' % more, P, **IN)
        oid = 'streams in one list, ' + how
        s.completes(oid, 'two models given the same list of inlets', AT)
        for k, t in (('m', 'Min(Tp, Tq%s)' % (', Tr' if 'm.' in more else '')), ('n', 'Min(Tp, Tq)')):
            s.equal('%s: %s' % (oid, k), 'expr(%s, "totalization_T")' % k, '%s-sp.%s' % (S('T_in', 'A' if k == 'm' else 'B'), t), 'inlet temperature', AT)
        if 'm.' in more:
            s.equal(oid + ': list', 'L', '[p, q]', 'the list given', AT)
    # inlets given between two declarations
    for how, ins, more, ss in (('another port', 'm._setInlets(p)', 'm._setInlets([q, r], "b")', 'pqr'), ('other streams', 'm._setInlets([p, q], "a")', 'm._setInlets([r], "c")', 'pqr'), ('one more', 'm._setInlets([q])', 'm._setInlets([p])', 'pq'), ('first of all', '', 'm._setInlets([p, q])', 'pq')):
        s = an.scn('m=M("A")\n%s\nm()\n%s\nm()\n' % (ins, more), P, **IN)
        oid = 'declared again with ' + how
        s.completes(oid, 'second declaration with further inlets', AT)
        for x in 'TP':
            s.equal('%s: least %s' % (oid, x), 'expr(m, "totalization_%s")' % x, '%s-sp.Min(%s)' % (S(x + '_in'), ', '.join(x + k for k in ss)), 'inlet value is the smallest of all streams there are', AT)
        s.equal(oid + ': equations', 'sorted(m.equations)', 'sorted(["totalization_P_A", "totalization_T_A", "e1_A", "e2_A"])', 'equations of the model', AT)
        s.equal(oid + ': values', '{k: v.value for k, v in m.parameters.items() if k[0] in "TP"}', '{%s}' % ', '.join('"%s_%s": %s%s' % (x, k, x, k) for k in ss for x in 'TP'), 'values of the streams', AT)
    # many streams
    for n in (9, 13):
        for ports in (1, n):
            src = 'L=[%s]\nm=M("A")\n' % ', '.join('stream("f%d", %s, %s)' % (i, 'Tp' if i == n - 1 else 'Tq+%d' % i, 'Pq' if i == n - 1 else 'Pr-%d' % i) for i in range(n))
            src += 'm._setInlets(L)\n' if ports == 1 else ''.join('m._setInlets(L[%d], "i%d")\n' % (i, i) for i in range(n))
            s = an.scn(src + 'm()\n', P, **IN)
            oid = '%d streams, %d ports' % (n, ports)
            s.completes(oid, 'model with many inlets', AT)
            for x, last, rest in (('T', 'Tp', 'Tq+%d'), ('P', 'Pq', 'Pr-%d')):
                s.equal('%s: least %s' % (oid, x), 'expr(m, "totalization_%s")' % x, '%s-sp.Min(%s)' % (S(x + '_in'), ', '.join([rest % i for i in range(n - 1)] + [last])), 'inlet value is the smallest of all streams', AT)
            s.equal(oid + ': parameters', 'len(m.parameters)', str(5 * n), 'objects of the streams', AT)
    # own variables for the total inlet are used
    s = an.scn('class Own(M):\n    def DeclareVariables(self):\n        super().DeclareVariables()\n        self.T_in=self.createVariable("tin", tu.K, "")\nm=Own("A")\nm._setInlets([p, q])\nm()\n', P, **IN)
    s.completes('own inlet variable', 'model with its own inlet temperature', AT)
    s.equal('own inlet variable balance', 'expr(m, "totalization_T")', '%s-sp.Min(Tp, Tq)' % S('tin'), 'inlet temperature', AT)
    s.equal('own inlet variable variables', 'sorted(m.variables)', 'sorted(["z_A", "w_A", "tin_A"]+[v+"_in_A" for v in ["P", "H", "mdot", "ndot"]])', 'variables of the model', AT)
    # streams specified in other units or later
    s = an.scn('m=M("A")\nm._setInlets([p, q])\np.T.setValue(Tr)\nm()\n', P, **IN)
    s.equal('specified later', 'expr(m, "totalization_T")', '%s-sp.Min(Tr, Tq)' % S('T_in'), 'inlet temperature is that of the streams when the model is declared', AT)
    s = an.scn('m=M("A")\nm._setInlets([p, q])\nm()\np.T.setValue(Tr)\nm()\n', P, **IN)
    s.equal('specified anew', 'expr(m, "totalization_T")', '%s-sp.Min(Tr, Tq)' % S('T_in'), 'inlet temperature after a stream was specified anew', AT)
    s.equal('specified anew: values', '(m.parameters["T_p"].value, m.parameters["P_p"].value, m.parameters["T_q"].value)', '(Tr, Pp, Tq)', 'values of the streams', AT)
    # special values
    for t, v in (('0.0', '0.0'), ('0', '0'), ('-1.0', '2.0'), ('2.0', '2.0'), ('1e300', '1e300'), ('True', 'True')):
        for ins, k in (('p', 1), ('[p, q]', 2), ('[q, p]', 2)):
            s = an.scn('p.T.setValue(%s)\np.P.setValue(%s)\nm=M("A")\nm._setInlets(%s)\nm()\n' % (t, v, ins), P, **IN)
            s.completes('stream at %s, %s in %s' % (t, v, ins), 'declaration of a model with inlets', AT)
            for x, w in (('T', t), ('P', v)):
                s.equal('stream at %s, %s in %s: %s' % (t, v, ins, x), 'expr(m, "totalization_%s")' % x, '%s-%s' % (S(x + '_in'), w if k == 1 else 'sp.Min(%s, %sq)' % (w, x)), 'inlet value', AT)
    # a stream of unknown conditions enters by its parameters
    s = an.scn('m=M("A")\nf=lib.MaterialStream("f")\nm._setInlets([p, f])\nm()\n', P, **IN)
    s.completes('unknown stream', 'inlet stream of unknown conditions', AT)
    for x in 'TP':
        s.equal('unknown stream ' + x, 'expr(m, "totalization_%s")' % x, '%s-sp.Min(%sp, %s)' % (S(x + '_in'), x, S(x, 'f')), 'inlet value with a stream of unknown conditions', AT)
    # given totalization function
    own = '''
log=[]
class L(Model):
    def DeclareConstants(self):
        log.append("c")
    def DeclareParameters(self):
        log.append("p")
    def DeclareVariables(self):
        log.append("v")
        self.x=self.createVariable("x", tu.K, "")
    def DeclareEquations(self):
        log.append("e")
        self.createEquation("e1", "", self.x() == self.y())
def tot(main_model):
    log.append(main_model)
    main_model.y=main_model.createVariable("y", tu.K, "")
'''
    for ins in ('m._setInlets(p)', 'm._setInlets([p, q], "a")\nm._setInlets(r, "b")'):
        s = an.scn(own + 'm=L("A", "", function_for_inlets_totalization=tot)\n%s\nm()\n' % ins, P, **IN)
        oid = 'given function %d' % ins.count('\n')
        s.completes(oid, 'totalization by a given function', AT)
        s.equal(oid + ' order', '(sorted(log[:3]), log[3] is m, log[4:])', '(["c", "p", "v"], True, ["e"])', 'totalization after the objects and before the equations, once', AT)
        s.equal(oid + ' tables', '(list(m.variables), list(m.equations), list(m.parameters))', '(["x_A", "y_A"], ["e1_A"], [])', 'only the given totalization takes place', AT)
    s = an.scn(own + 'm=L("A", "", function_for_inlets_totalization=tot)\nm.y=m.createVariable("y", tu.K, "")\nm()\n', P, **IN)
    s.equal('given function without inlets', '(sorted(log[:3]), log[3:])', '(["c", "p", "v"], ["e"])', 'no totalization without inlets', AT)
