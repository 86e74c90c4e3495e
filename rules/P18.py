from .common import *

RULE = ('a connection of variables is accepted exactly when every source is an exposed output of the first model and every target an exposed input of the second, otherwise the exposed-variable error '
        'is raised and nothing changes; an accepted connection adds exactly one equation to the receiving model, sum(inputs) - sum(outputs) (or the given expression), recorded with the source as output and the target as input; '
        'an expression connection adds exactly one equation input - output')
NESTED = True
AT = 'problem:Problem.createConnection'
P = PROB + '''
class G(Model):
    def __init__(self, name):
        super().__init__(name, "")
        self.i1=self.createVariable("i1", ul, "", is_exposed=True, type="input")
        self.i2=self.createVariable("i2", ul, "", is_exposed=True, type="input")
        self.o1=self.createVariable("o1", ul, "", is_exposed=True, type="output")
        self.o2=self.createVariable("o2", ul, "", is_exposed=True, type="output")
        self.v=self.createVariable("v", ul, "")
        self.k=self.createVariable("k", us, "", is_exposed=True, type="input")
        self.p=self.createParameter("p", ud, "")
    def DeclareEquations(self):
        pass
A=G("A")
B=G("B")
P=Problem("P", "")
P.addModels([A, B])
free=Variable("free", ul, "", is_exposed=True, type="input")
'''
NEW = '[v for k, v in B.equations.items()]'


def S(n):
    return 'sp.symbols("%s_%s")' % (n.split('.')[1], n.split('.')[0])


def run(an, tier):
    good = [('A.o1', 'B.i1'), ('A.o2', 'B.i1'), ('A.o1', 'B.i2'), ('[A.o1]', 'B.i1'), ('A.o1', '[B.i1]'), ('[A.o1, A.o2]', 'B.i1'), ('[A.o1]', '[B.i1, B.i2]'), ('[A.o2, A.o1]', '[B.i1, B.i2]')]
    at = [AT, 'problem:Problem._createDirectConnection', 'model:Model._createConnection']
    for o, i in good:
        ol = [x.strip() for x in o.strip('[]').split(',')]
        il = [x.strip() for x in i.strip('[]').split(',')]
        oid = 'connect %s to %s' % (o, i)
        for pre, pn in (('', ''), ('B.createEquation("e0", "", B.v() == 1.0)\n', ' beside an equation')):
            s = an.scn(pre + 'P.createConnection(A, B, %s, %s)\n' % (o, i), P)
            s.completes(oid + pn, 'connection of exposed variables', at)
            n = len(pre) > 0
            s.equal(oid + pn + ' count', '(len(A.equations), len(B.equations), len(P.connections))', '(0, %d, 1)' % (2 if n else 1), 'one equation added to the receiving model', at)
            s.equal(oid + pn + ' residual', NEW + '[-1].equation_expression.symbolic_object', '+'.join(S(x) for x in il) + ''.join('-' + S(x) for x in ol), 'balance of the connection', at)
            s.equal(oid + pn + ' objects', NEW + '[-1].objects_declared', '{%s}' % ', '.join('"%s": %s' % (x.split('.')[1] + '_' + x.split('.')[0], x) for x in il + ol), 'objects of the connection', at)
            s.equal(oid + pn + ' type', NEW + '[-1].type', const('linear'), 'kind of the connection equation', at)
            s.holds(oid + pn + ' recorded', 'list(P.connections.values())[0] is %s[-1]' % NEW, 'connection recorded in the problem', at)
            s.equal(oid + pn + ' direction', '(%s[-1].output_var_name, %s[-1].input_var_name)' % (NEW, NEW), '("%s", "%s")' % (','.join(x.split('.')[1] + '_A' for x in ol), ','.join(x.split('.')[1] + '_B' for x in il)), 'direction of the connection', at)
            s.equal(oid + pn + ' exposure', '(A.exposed_vars, B.exposed_vars)', '({"input": [A.i1, A.i2, A.k], "output": [A.o1, A.o2]}, {"input": [B.i1, B.i2, B.k], "output": [B.o1, B.o2]})', 'exposed variables unchanged', at)
            s.equal(oid + pn + ' values', '[(v.is_specified, v.value) for v in [A.o1, A.o2, B.i1, B.i2]]', '[(False, 0.0)]*4', 'connected variables stay unknown', at)
        if len(ol) == 1 and len(il) == 1:
            s = an.scn('P.createConnection(A, B, %s, %s, %s() == %s()*A.p())\n' % (o, i, il[0], ol[0]), P)
            s.completes(oid + ' given expression', 'connection with a given expression', at)
            s.equal(oid + ' given expression residual', NEW + '[-1].equation_expression.symbolic_object', '%s-%s*sp.symbols("p_A")' % (S(il[0]), S(ol[0])), 'given expression of the connection', at)
            s.equal(oid + ' given expression count', '(len(A.equations), len(B.equations), len(P.connections))', '(0, 1, 1)', 'one equation added', at)
    bad = [('A.i1', 'B.i1'), ('A.o1', 'B.o1'), ('A.v', 'B.i1'), ('A.o1', 'B.v'), ('B.o1', 'B.i1'), ('A.o1', 'A.i1'), ('B.i1', 'A.o1'), ('A.v', 'B.v'), ('[A.o1, A.v]', 'B.i1'), ('[A.v, A.o1]', 'B.i1'), ('A.o1', '[B.i1, B.v]'), ('A.o1', '[B.v, B.i1]'),
           ('[A.o1, A.i1]', '[B.i1]'), ('[A.o1]', '[B.i1, B.o1]'), ('[A.o1, B.o1]', 'B.i1'), ('A.o1', '[B.i1, A.i1]'), ('free', 'B.i1'), ('A.o1', 'free'), ('A.o1', '[free, B.i1]')]
    for o, i in bad:
        oid = 'not exposed %s to %s' % (o, i)
        for ex in ('', ', B.i1() == A.o1()'):
            s = an.scn('P.createConnection(A, B, %s, %s%s)\n' % (o, i, ex), P)
            s.rejects(oid + ex, 'ExposedVariableError', 'connection of a variable that is not exposed in that direction', at)
            s = an.scn('try:\n    P.createConnection(A, B, %s, %s%s)\nexcept Exception:\n    pass\n' % (o, i, ex), P)
            s.equal(oid + ex + ' nothing changed', '(A.equations, B.equations, len(P.connections), A.exposed_vars["output"], B.exposed_vars["input"])', '({}, {}, 0, [A.o1, A.o2], [B.i1, B.i2, B.k])', 'rejected connection changes nothing', at)
    # exposure belongs to the object, not to its name: other objects under the names of exposed ones
    fake = 'fi=Variable("i1", ul, "", is_exposed=True, type="input", owner_model_name="B")\nfo=Variable("o1", ul, "", is_exposed=True, type="output", owner_model_name="A")\nfi.name=B.i1.name\nfo.name=A.o1.name\n'
    for o, i in (('A.o1', 'fi'), ('fo', 'B.i1'), ('[A.o1]', '[fi]'), ('[fo]', '[B.i1]'), ('[A.o1, fo]', '[B.i1]'), ('A.o1', '[B.i2, fi]')):
        oid = 'same name %s to %s' % (o, i)
        s = an.scn(fake + 'P.createConnection(A, B, %s, %s)\n' % (o, i), P)
        s.rejects(oid, 'ExposedVariableError', 'connection of another object under the name of an exposed one', at)
    # units of a direct connection
    s = an.scn('P.createConnection(A, B, A.o1, B.k)\n', P)
    s.rejects('incoherent connection', 'DimensionalCoherenceError', 'connection of variables of different dimensions', at)
    s = an.scn('try:\n    P.createConnection(A, B, A.o1, B.k)\nexcept Exception:\n    pass\n', P)
    s.equal('incoherent connection nothing', '(A.equations, B.equations, len(P.connections))', '({}, {}, 0)', 'rejected connection changes nothing', at)
    # several connections
    s = an.scn('P.createConnection(A, B, A.o1, B.i1)\nP.createConnection(A, B, A.o2, B.i2)\nP.createConnection(B, A, B.o1, A.i1)\n', P)
    s.completes('several connections', 'several connections', at)
    s.equal('several connections equations', '([e.equation_expression.symbolic_object for e in A.equations.values()], [e.equation_expression.symbolic_object for e in B.equations.values()])',
            '([%s-%s], [%s-%s, %s-%s])' % (S('A.i1'), S('B.o1'), S('B.i1'), S('A.o1'), S('B.i2'), S('A.o2')), 'every connection enters once', at)
    s.equal('several connections recorded', 'list(P.connections.values())', 'list(B.equations.values())+list(A.equations.values())', 'every connection recorded', at)
    s = an.scn('P.createConnection(A, B, A.o1, B.i1)\nP.createConnection(A, B, A.o2, B.i1)\n', P)
    s.equal('two sources', '[e.equation_expression.symbolic_object for e in B.equations.values()]', '[%s-%s, %s-%s]' % (S('B.i1'), S('A.o1'), S('B.i1'), S('A.o2')), 'two connections to one input', at)
    # the same connection in a second problem
    s = an.scn('Q=Problem("Q", "")\nP.createConnection(A, B, A.o1, B.i1)\n', P)
    s.equal('other problem', 'len(Q.connections)', '0', 'other problems not affected', at)
    # expression connections
    at = AT
    for m1 in ('A', '""', '"src"', 'nm'):
        for pre in ('', 'B.createEquation("e0", "", B.v() == 1.0)\n'):
            for o, i, r in (('A.o1()', 'B.i1()', '%s-%s' % (S('B.i1'), S('A.o1'))), ('2.0*A.o1()+A.v()', 'B.i1()*A.p()', '%s*sp.symbols("p_A")-(2.0*%s+%s)' % (S('B.i1'), S('A.o1'), S('A.v'))),
                            ('eo.Min(A.o1(), A.o2())', 'B.v()', '%s-sp.Min(%s, %s)' % (S('B.v'), S('A.o1'), S('A.o2'))), ('A.i1()', 'B.o1()', '%s-%s' % (S('B.o1'), S('A.i1')))):
                oid = 'expression %s from %s to %s%s' % (o, m1, i, ' beside' if pre else '')
                s = an.scn(pre + 'P.createConnection(%s, B, %s, %s)\n' % (m1, o, i), P, nm=strsym('nm'))
                s.completes(oid, 'expression connection', at)
                s.equal(oid + ' count', '(len(A.equations), len(B.equations))', '(0, %d)' % (2 if pre else 1), 'one equation added to the receiving model', at)
                s.equal(oid + ' residual', NEW + '[-1].equation_expression.symbolic_object', r, 'balance of the expression connection', at)
                s.equal(oid + ' owner', NEW + '[-1].owner_model_name', '"B"', 'owner of the connection equation', at)
        s = an.scn('P.createConnection(%s, B, A.o1(), B.i1())\nP.createConnection(%s, B, A.o2(), B.i2())\nP.createConnection(%s, B, A.v()+A.o1(), B.v()-B.i1())\n' % (m1, m1, m1), P, nm=strsym('nm'))
        s.completes('expressions from %s' % m1, 'several expression connections', at)
        s.equal('expressions from %s residuals' % m1, '[e.equation_expression.symbolic_object for e in B.equations.values()]',
                '[%s-%s, %s-%s, %s-%s-(%s+%s)]' % tuple(S(x) for x in ('B.i1', 'A.o1', 'B.i2', 'A.o2', 'B.v', 'B.i1', 'A.v', 'A.o1')), 'every expression connection enters once', at)
    s = an.scn('P.createConnection("", B, A.o1(), B.i1())\nP.createConnection("", B, A.o2(), B.i1())\n', P)
    s.equal('unnamed to one input', '[e.equation_expression.symbolic_object for e in B.equations.values()]', '[%s-%s, %s-%s]' % tuple(S(x) for x in ('B.i1', 'A.o1', 'B.i1', 'A.o2')), 'two unnamed connections to one input', at)
    s = an.scn('P.createConnection(A, B, A.o1(), B.k())\n', P)
    s.rejects('incoherent expressions', 'DimensionalCoherenceError', 'expression connection of different dimensions', at)
    for m1 in ('None', '3', 'P'):
        s = an.scn('P.createConnection(%s, B, A.o1(), B.i1())\n' % m1, P)
        s.rejects('source %s' % m1, 'AbsentRequiredObjectError', 'source of another kind', at)
        s = an.scn('try:\n    P.createConnection(%s, B, A.o1(), B.i1())\nexcept Exception:\n    pass\n' % m1, P)
        s.equal('source %s nothing' % m1, '(A.equations, B.equations)', '({}, {})', 'rejected connection changes nothing', at)
    # connections that share models and inputs are separate ones; one stated again is the same
    OI, SS = '[A.o1, A.o2], [B.i1, B.i2], ', ('B.i1', 'B.i2', 'A.o1', 'A.o2')
    for oid, calls, want, nc in (
            ('expressions to one input', ['A, B, A.o1(), B.i1()', 'A, B, A.o2(), B.i1()', 'A, B, A.v()*2.0, B.i1()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-%s' % (S('B.i1'), S('A.o2')), '%s-2.0*%s' % (S('B.i1'), S('A.v'))], 0),
            ('sources by name to one input', ['"src", B, A.o1(), B.i1()', '"src", B, A.o2(), B.i1()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-%s' % (S('B.i1'), S('A.o2'))], 0),
            ('targets that read alike', ['A, B, A.o1(), (B.i1()+B.i2())*A.p()', 'A, B, A.o1(), B.i1()+B.i2()*A.p()'], ['(%s+%s)*sp.symbols("p_A")-%s' % (S('B.i1'), S('B.i2'), S('A.o1')), '%s+%s*sp.symbols("p_A")-%s' % (S('B.i1'), S('B.i2'), S('A.o1'))], 0),
            ('given equations', ['A, B, ' + OI + 'B.i1() - A.o1()', 'A, B, ' + OI + 'B.i2() == A.o2()', 'A, B, ' + OI + 'B.i2() + B.i1() == A.o2()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-%s' % (S('B.i2'), S('A.o2')), '%s+%s-%s' % (S('B.i2'), S('B.i1'), S('A.o2'))], 3),
            ('given equation and sum', ['A, B, A.o1, B.i1', 'A, B, A.o1, B.i1, B.i1() == 2.0*A.o1()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-2.0*%s' % (S('B.i1'), S('A.o1'))], 2),
            ('direct and expression', ['A, B, A.o1, B.i1', 'A, B, A.o1(), B.i1()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-%s' % (S('B.i1'), S('A.o1'))], 1),
            ('both directions', ['A, B, A.o1, B.i1', 'B, A, B.o1, A.i1', 'A, B, A.o1(), B.i2()', 'B, A, B.o1(), A.i2()'], None, 2),
            ('stated again', ['A, B, A.o1, B.i1', 'A, B, A.o1, B.i1', 'A, B, A.o2(), B.i2()', 'A, B, A.o2(), B.i2()'], ['%s-%s' % (S('B.i1'), S('A.o1')), '%s-%s' % (S('B.i2'), S('A.o2'))], 1)):
        s = an.scn(''.join('P.createConnection(%s)\n' % c for c in calls), P)
        s.completes(oid, 'connections that share models and inputs', AT)
        if want is not None:
            s.equal(oid + ' residuals', '[e.equation_expression.symbolic_object for e in B.equations.values()]', '[%s]' % ', '.join(want), 'every connection enters once', AT)
        else:
            s.equal(oid + ' residuals', '(len(A.equations), len(B.equations))', '(2, 2)', 'every connection enters once', AT)
        s.equal(oid + ' recorded', 'len(P.connections)', str(nc), 'connections recorded', AT)
        s.equal(oid + ' names', '[k == e.name for m in [A, B] for k, e in m.equations.items()]', repr([True] * (len(want) if want is not None else 4)), 'connections are registered under their names', AT)
        if nc:
            s.equal(oid + ' recorded objects', 'all([any([c is e for m in [A, B] for e in m.equations.values()]) for c in P.connections.values()])', 'True', 'recorded connections are the ones in the models', AT)
