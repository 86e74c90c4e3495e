"""Shared by the rules about running simulations: client programs and readers of the library calls they make."""
from .common import *
from sa import numerics as N
from sa.scenario import Undecided, Dead, _EvalRaised  # noqa: F401

DYN = PROB + '''
class Ode3(Model):
    """three states; variables, equations and domain members each in an order of their own"""
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.z=self.createVariable("z", ul, "")
        self.t=self.createVariable("t", us, "")
        self.x=self.createVariable("x", ul, "")
        self.y=self.createVariable("y", ul, "")
        self.k=self.createParameter("k", Unit("k", {"s": -1}), "")
        self.h=self.createConstant("h", ul, "")
        self.h.setValue(hv)
        self.dom=Domain("dom", us, self.t, "")
        for v in [self.y, self.z, self.x]:
            v.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k.setValue(pv)
    def DeclareEquations(self):
        self.createEquation("ey", "", self.y.Diff(self.t) == self.k()*self.h()*eo.Exp(self.x()/self.h()) - self.k()*self.z())
        self.createEquation("ez", "", self.z.Diff(self.t) == self.k()*self.x() - 2.0*self.k()*self.y())
        self.createEquation("ex", "", self.x.Diff(self.t) == self.k()*eo.Min(self.z(), self.y()))
class OdeL(Ode):
    """derivatives with further terms beside them, and on the right"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.k()*self.a() + self.a.Diff(self.t) == self.k()*self.b())
        self.eb = self.createEquation("eb", "", 2.0*self.k()*self.a() == self.b.Diff(self.t))
class OdeR(Ode):
    """residual form, and a derivative with a coefficient"""
    def DeclareEquations(self):
        self.eb = self.createEquation("eb", "", 2.0*self.b.Diff(self.t) == self.k()*self.a() - self.k()*self.b())
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) - self.k()*self.b())
class OdeZ(Ode):
    """a state added to its derivative, and nothing on the right"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) + self.k()*self.a() == 0.0*self.k()*self.a())
        self.eb = self.createEquation("eb", "", 3.0*self.b.Diff(self.t) + self.k()*self.a() == self.b.Diff(self.t))
class OdeC(Ode):
    """two derivatives in each equation"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b() + self.b.Diff(self.t))
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a() - self.a.Diff(self.t))
class OdeC2(Ode):
    """a second derivative in one of the equations"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b() + self.b.Diff(self.t))
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a())
class OdeC3(Ode):
    """a second derivative in the other equation"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a() + self.a.Diff(self.t))
class OdeN(Ode):
    """a derivative in the second power"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t)*self.a.Diff(self.t) == self.k()*self.b()*self.k()*self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a())
class OdeN2(Ode):
    """a derivative in the first and second power"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t)*self.b.Diff(self.t) - 2.0*self.k()*self.b.Diff(self.t)*self.a() + self.k()*self.k()*self.b()*self.b())
class OdeS(Ode):
    """a multiple of a derivative, a derivative with another term"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", 2.0*self.a.Diff(self.t) == self.k()*self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) + self.k()*self.b() == 2.0*self.k()*self.a())
class OdeS2(Ode):
    """derivatives on both sides, on the right only"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b() - 3.0*self.a.Diff(self.t))
        self.eb = self.createEquation("eb", "", 2.0*self.k()*self.a() == self.b.Diff(self.t))
class Dae4(Model):
    """two differential and two algebraic equations, interleaved"""
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.w=self.createVariable("w", ul, "")
        self.b=self.createVariable("b", ul, "")
        self.t=self.createVariable("t", us, "")
        self.a=self.createVariable("a", ul, "")
        self.c=self.createVariable("c", ul, "")
        self.k=self.createParameter("k", Unit("k", {"s": -1}), "")
        self.dom=Domain("dom", us, self.t, "")
        for v in [self.c, self.a, self.w, self.b]:
            v.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k.setValue(pv)
    def DeclareEquations(self):
        self.createEquation("e1", "", self.w() - self.a()*self.b()/self.c())
        self.createEquation("e2", "", self.b.Diff(self.t) + self.k()*self.w() == self.k()*self.c())
        self.createEquation("e3", "", self.c() == self.a() + 2.0*self.b())
        self.createEquation("e4", "", 2.0*self.a.Diff(self.t) - self.k()*self.b())
class Dae5(Dae4):
    """coupled derivatives: two in one equation, one of them in another, and a scaled one"""
    def DeclareEquations(self):
        self.createEquation("e1", "", self.b.Diff(self.t) - 3.0*self.a.Diff(self.t) == self.k()*self.w())
        self.createEquation("e2", "", self.w() == self.c() + 2.0*self.b())
        self.createEquation("e3", "", self.a.Diff(self.t) + 2.0*self.b.Diff(self.t) - self.k()*self.c())
        self.createEquation("e4", "", self.c()*self.a() == self.b()*self.w())
class DaeT(Dae4):
    """an explicit dependence on time"""
    def DeclareEquations(self):
        self.createEquation("e1", "", self.w() - self.a())
        self.createEquation("e2", "", self.b.Diff(self.t) == self.k()*self.k()*self.t()*self.c())
        self.createEquation("e3", "", self.c() == self.a() + 2.0*self.b())
        self.createEquation("e4", "", self.a.Diff(self.t) - self.k()*self.b())
class DaeT2(Dae4):
    """time in an algebraic equation"""
    def DeclareEquations(self):
        self.createEquation("e1", "", self.w() - self.a())
        self.createEquation("e2", "", self.b.Diff(self.t) == self.k()*self.c())
        self.createEquation("e3", "", self.c() == self.a() + 2.0*self.k()*self.t()*self.b())
        self.createEquation("e4", "", self.a.Diff(self.t) - self.k()*self.b())
'''
CONF = {'t0': num('t0'), 't1': num('t1'), 'n': sym('n', 'int'), 'pv': num('pv'), 'hv': num('hv'), 'tic': num('tic')}


class M:
    """a model class of DYN/PROB with its mathematical content (independent of the code)"""

    def __init__(self, cls, states, rhs=None, algebraic=(), residuals=None, domain=None, time=False):
        self.cls, self.states, self.rhs, self.algebraic, self.residuals, self.domain, self.time = cls, states, rhs, list(algebraic), residuals, domain or states, time


MODELS = {
    'Ode': M('Ode', ['b', 'a'], {'a': 'pv*{b}', 'b': '2.0*pv*{a}'}),
    'OdeT': M('OdeT', ['b', 'a'], {'a': 'pv*{b}+pv*pv*{t}*{a}', 'b': '2.0*pv*{a}'}, time=True),
    'OdeL': M('OdeL', ['b', 'a'], {'a': 'pv*{b}-pv*{a}', 'b': '2.0*pv*{a}'}),
    'OdeR': M('OdeR', ['b', 'a'], {'a': 'pv*{b}', 'b': '(pv*{a}-pv*{b})/2.0'}),
    'OdeZ': M('OdeZ', ['b', 'a'], {'a': '0.0-pv*{a}', 'b': '0.0-pv*{a}/2.0'}),
    'OdeS': M('OdeS', ['b', 'a'], {'a': 'pv*{b}/2.0', 'b': '2.0*pv*{a}-pv*{b}'}),
    'OdeS2': M('OdeS2', ['b', 'a'], {'a': 'pv*{b}/4.0', 'b': '2.0*pv*{a}'}),
    'Ode3': M('Ode3', ['z', 'x', 'y'], {'y': 'pv*hv*sp.exp({x}/hv)-pv*{z}', 'z': 'pv*{x}-2.0*pv*{y}', 'x': 'pv*sp.Min({z}, {y})'}, domain=['y', 'z', 'x']),
    'Dae': M('Dae', ['a', 'b'], algebraic=['c'], residuals=['{a_d}-pv*{b}', '{c}-({a}+{b})', '{b_d}-pv*{c}'], domain=['a', 'b', 'c']),
    'Dae4': M('Dae4', ['a', 'b'], algebraic=['w', 'c'], residuals=['{w}-{a}*{b}/{c}', '{b_d}+pv*{w}-pv*{c}', '{c}-({a}+2.0*{b})', '2.0*{a_d}-pv*{b}'], domain=['c', 'a', 'w', 'b']),
    'Dae5': M('Dae5', ['a', 'b'], algebraic=['w', 'c'], residuals=['{b_d}-3.0*{a_d}-pv*{w}', '{w}-({c}+2.0*{b})', '{a_d}+2.0*{b_d}-pv*{c}', '{c}*{a}-{b}*{w}'], domain=['c', 'a', 'w', 'b']),
    'DaeT': M('DaeT', ['a', 'b'], algebraic=['w', 'c'], residuals=['{w}-{a}', '{b_d}-pv*pv*{t}*{c}', '{c}-({a}+2.0*{b})', '{a_d}-pv*{b}'], time=True, domain=['c', 'a', 'w', 'b']),
    'DaeT2': M('DaeT2', ['a', 'b'], algebraic=['w', 'c'], residuals=['{w}-{a}', '{b_d}-pv*{c}', '{c}-({a}+2.0*pv*{t}*{b})', '{a_d}-pv*{b}'], time=True, domain=['c', 'a', 'w', 'b']),
}

# not explicit in one derivative each
COUPLED = {
    'OdeC': M('OdeC', ['b', 'a']),
    'OdeC2': M('OdeC2', ['b', 'a']),
    'OdeC3': M('OdeC3', ['b', 'a']),
    'OdeN': M('OdeN', ['b', 'a']),
    'OdeN2': M('OdeN2', ['b', 'a']),
}


def dynamic(an, model, conf='', pre='', post='', runs='S.runSimulation()\n', shuffle=False, before='', skip=(), parts=False, **inp):
    """client program that runs a dynamic simulation of one model instance m named M1"""
    m = MODELS.get(model) or COUPLED[model]
    names = m.states + m.algebraic
    ics = ['"t_M1": tic'] + ['"%s_M1": %s0' % (v, v) for v in names] + (['"%s_M1_d": %sd0' % (v, v) for v in m.states] if m.residuals else [])
    ics = [i for i in ics if i.split('"')[1] not in skip]
    if shuffle:
        ics = ics[::-1]
    src = ('m=%s("M1")\nP=Problem("P", "")\nP.addModels(m)\nP.setTimeVariableName([m.t.name])\n%s%s%sP.resolve()\nS=Simulation("S", "")\nS.setProblem(P)\n'
           'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\n%s%s') % (m.cls, before, ''.join('P.setInitialConditions({%s})\n' % i for i in (ics if parts else [', '.join(ics)])), pre, conf, runs, post)
    inputs = dict(CONF)
    for v in names:
        inputs[v + '0'] = num(v + '0')
        inputs[v + 'd0'] = num(v + 'd0')
        inputs['Y' + v] = num('Y' + v)
        inputs['D' + v] = num('D' + v)
    inputs['TT'] = num('TT')
    inputs.update(inp)
    return an.scn(src, DYN + "\nimport numpy as np\n", **inputs)


FILE = {'json.load', 'json.loads', 'open', '.__enter__', '.read', 'in', 'keyin'}


def unread(s):
    """the scenario ends normally although nothing was read from the file given"""
    return not s.undecided and s.st is not None and not any(k in e.name.lower() for e in s.calls('*') for k in ('load', 'read', 'decode', 'pars'))


def raw(e, i, name):
    """argument of a library call as the interpreter value"""
    a, k = e.raw
    if name in k:
        return k[name]
    return a[i] if i < len(a) else None


def elems(s, v):
    """elements of a sequence value in the end state of scenario s"""
    if v is None:
        return None
    ip = s.ip
    keep = ip.st
    ip.st = s.st
    try:
        v = ip.simp(v)
        v = N.untolist(v)
        e = N.vec_elems(v)
        if e is not None:
            return e
        return N.seq_of(ip, v)
    finally:
        ip.st = keep


def integration(s):
    """the one integration of a scenario: dict(kind, fun, y0, times, result) or None"""
    o = s.calls('scipy.integrate.odeint')
    p = s.calls('assimulo.problem.Explicit_Problem')
    if len(o) == 1 and not p:
        e = o[0]
        return {'kind': 'odeint', 'fun': raw(e, 0, 'func'), 'y0': raw(e, 1, 'y0'), 'times': raw(e, 2, 't'), 'site': e.site, 'result': e.result, 'made': s.during(e), 'runs': running(s, e)}
    if len(p) == 1 and not o:
        e = p[0]
        return {'kind': 'cvode', 'fun': raw(e, 0, 'rhs'), 'y0': raw(e, 1, 'y0'), 'times': None, 'site': e.site, 'result': e.result, 'made': s.during(e), 'runs': running(s, e)}
    return None


def running(s, made):
    """the scenario as it stands while the integrator of a problem calls back into the program"""
    i = next((k for k, e in enumerate(s.events) if e is made), None)
    later = [e for e in s.events[i:] if e.name == 'scipy.integrate.odeint' or e.name == '.simulate'] if i is not None else []
    return s.during(later[0] if later else made)


def position_names(y0, names):
    """which variable's initial value stands at each position"""
    if y0 is None:
        return None
    out = []
    for t in y0:
        hit = [v for v in names if t is num(v + '0')]
        if t is num('tic'):
            hit = ['(time)']
        if len(hit) != 1:
            return None
        out.append(hit[0])
    return out


def receiver(e):
    """object a library method was called on"""
    return e.head.a[0] if e.head.kind == 'attr' else NONE


# ---------------------------------------------------------------- what a run does after a history
MARK = 'print("the last run")\n'
SOLVERS = ('scipy.integrate.odeint', 'assimulo.problem.Explicit_Problem', 'assimulo.problem.Implicit_Problem', 'pyneqsys.symbolic.SymbolicSys', 'sympy.solve', 'sympy.linear_eq_to_matrix')


def after_mark(s):
    """library calls after the last mark"""
    i = max([k for k, e in enumerate(s.events) if e.name == 'print' and e.raw[0] and str_const(e.raw[0][0]) == 'the last run'], default=None)
    return None if i is None else s.events[i + 1:]


def last_run(end, names):
    """what the last run of a scenario gives to its solver: (calls, [(what, value), ...]) or None"""
    ev = after_mark(end)
    if ev is None or end.undecided or end.st is None:
        return None
    ev = [e for e in ev if e.name in SOLVERS or e.name in ('.solve', 'scipy.linalg.solve') and receiver(e).kind != 'r']
    out = []
    for e in ev:
        a, k = e.raw
        s = running(end, e) if 'Problem' in e.name else end.during(e)
        s.bind('Y', N.mkvec([num('Y%d' % i) for i in range(names)]))
        s.bind('D', N.mkvec([num('D%d' % i) for i in range(names)]))
        s.bind('TT', num('TT'))
        if e.name == 'scipy.integrate.odeint':
            s.bind('F', raw(e, 0, 'func'))
            out += [('right sides', 'fun', s.val('[v for v in F(Y, TT)]'))]
        elif e.name == 'assimulo.problem.Explicit_Problem':
            s.bind('F', raw(e, 0, 'rhs'))
            out += [('right sides', 'fun', s.val('[v for v in F(TT, Y)]'))]
        elif e.name == 'assimulo.problem.Implicit_Problem':
            s.bind('F', raw(e, 0, 'res'))
            out += [('residuals', 'fun', s.val('[v for v in F(TT, Y, D)]'))]
        for i, v in enumerate(a):
            if v.kind not in ('fn',) and not (v.kind == 'r' and s.st.heap[v.a].kind in ('fn', 'bound', 'partial')):
                out.append(('%s argument %d' % (e.name, i), '', v))
        for n in sorted(k):
            if n not in ('rhs', 'res', 'func'):
                out.append(('%s argument %s' % (e.name, n), '', k[n]))
    return [e.name for e in ev], out


def history(an, oid, past, present, size, at, lib=None, vocab=(), results='', **inp):
    """what `present` gives to the solver (and its results) is the same when `past` was done before"""
    same_run(an, oid, present, past + present, size, at, lib, vocab, results, **inp)


def same_run(an, oid, plain, other, size, at, lib=None, vocab=(), results='', **inp):
    """the last runs of two programs give the same to the solver"""
    lib = lib or DYN + "\nimport numpy as np\n"
    a = an.scn(plain, lib, **inp)
    b = an.scn(other, lib, **inp)
    for s in (a, b):
        if s.undecided or s.st is None and not s.raised:
            an.record(oid, 'undecided', s.undecided or 'no end', at)
            return
    if a.st is None:
        an.record(oid, 'undecided', 'run does not end', at)
        return
    if b.st is None:
        an.record(oid, 'violated', 'run fails after a history: %s' % b.describe_raise(b.raised[0]), an.where(at), 'raises')
        return
    try:
        x, y = last_run(a, size), last_run(b, size)
    except (Undecided, Dead, _EvalRaised) as e:
        an.record(oid, 'undecided', 'what the solver is given: %s' % e, at)
        return
    if x is None or y is None or not x[0]:
        an.record(oid, 'undecided', 'solver calls not recognised', at)
        return
    if x[0] != y[0]:
        an.record(oid, 'violated', 'calls to the solver after a history: %s, without it: %s' % (y[0], x[0]), an.where(at), 'calls')
        return
    if len(x[1]) != len(y[1]):
        an.record(oid, 'undecided', 'arguments of the solver not comparable', at)
        return
    for s, r in ((a, x), (b, y)):
        for i, (_, _, v) in enumerate(r[1]):
            s.bind('ARG%d' % i, v)
    args = ['ARG%d' % i for i in range(len(x[1]))]
    b.same(oid, a.digest(*args), b.digest(*args), 'what the solver is given after a history (%s)' % ', '.join('%s: %s' % (n, w[0]) for n, w in zip(args, x[1])), at, vocab)
    if results:
        b.same(oid + ' results', a.digest(*results), b.digest(*results), 'results after a history', at, vocab)
