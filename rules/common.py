"""Builders shared by the rules: generic units, quantities and expression nodes over opaque fields."""
from sa.scenario import Analysis, Vanished  # noqa: F401
from sa.terms import *  # noqa: F401,F403
from sa import terms as T  # noqa: F401

DIMS = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']


def num(n):
    return sym(n, 'num')


def syms(n):
    return sym(n, 'sym')


def obj(n):
    return sym(n, 'obj')


def dim_inputs(*prefixes):
    return {'%s_%s' % (p, d): num('%s_%s' % (p, d)) for p in prefixes for d in DIMS}


def unit(p, name=''):
    """source of a unit with seven arbitrary exponents (anonymous, like the results of unit algebra, unless a name is given)"""
    return "Unit('%s', {%s})" % (name, ', '.join("'%s': %s_%s" % (d, p, d) for d in DIMS))


def coherent(p, q):
    return '(%s)' % ' and '.join('%s_%s == %s_%s' % (p, d, q, d) for d in DIMS)


def dimless(p):
    return '(%s)' % ' and '.join('%s_%s == 0' % (p, d) for d in DIMS)


FLAGS = ['is_linear', 'is_nonlinear', 'is_differential']


def node_inputs(p, ty='sym'):
    d = dim_inputs(p)
    d.update({p + '_name': strsym(p + '_name'), p + '_sym': sym(p + '_sym', ty), p + '_rep': sym(p + '_rep', 'sym'),
              p + '_key': strsym(p + '_key'), p + '_obj': obj(p + '_obj'), p + '_key2': strsym(p + '_key2'), p + '_obj2': obj(p + '_obj2'),
              p + '_latex': strsym(p + '_latex')})
    return d


def node(p, flag='is_linear', known=False, unit_src=None, unknowns=1):
    """source of a generic expression node with opaque fields; the given flag is set, one or both of its objects are unknowns"""
    fl = ', '.join('%s=%s' % (f, f == flag) for f in FLAGS)
    return ("EquationNode(name={p}_name, symbolic_object={p}_sym, symbolic_map={{{p}_key: {p}_obj, {p}_key2: {p}_obj2}}, variable_map={vm}, {fl}, "
            "unit_object={u}, latex_text={p}_latex, repr_symbolic={p}_rep)").format(
        p=p, vm='{}' if known else '{%s_key: %s_obj}' % (p, p) if unknowns == 1 else '{%s_key: %s_obj, %s_key2: %s_obj2}' % (p, p, p, p), fl=fl, u=unit_src or unit(p))


PRE = '''
from src.sloth.core.unit import Unit
from src.sloth.core.expression_evaluation import EquationNode
from src.sloth.core.quantity import Quantity
from src.sloth.core.variable import Variable
from src.sloth.core.parameter import Parameter
from src.sloth.core.constant import Constant
import src.sloth.core.template_units as tu
import src.sloth.core.equation_operators as eo
'''

PROB = PRE + '''
import sympy as sp
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation
from src.sloth.core.domain import Domain
ul = Unit("l", {"m": 1})
ud = Unit("d", {})
us = Unit("s", {"s": 1})
uls = Unit("ls", {"m": 1, "s": -1})
class Lin(Model):
    """two unknowns, two linear equations, one of them declared as left == right"""
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.x = self.createVariable("x", ul, "dx", is_exposed=True, type="output")
        self.y = self.createVariable("y", ul, "dy", is_exposed=True, type="input")
        self.p = self.createParameter("p", ud, "dp")
    def DeclareParameters(self):
        self.p.setValue(pv)
    def DeclareEquations(self):
        self.e1 = self.createEquation("e1", "", self.x() == 2.0*self.y())
        self.e2 = self.createEquation("e2", "", self.p()*self.x() + self.y() - 3.0)
class Nl(Model):
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.x = self.createVariable("x", ul, "dx", is_exposed=True, type="output")
        self.y = self.createVariable("y", ul, "dy", is_exposed=True, type="input")
    def DeclareEquations(self):
        self.e1 = self.createEquation("e1", "", self.x() == 2.0*self.y())
        self.e2 = self.createEquation("e2", "", self.x()*self.y() - 3.0)
class Ode(Model):
    """two states declared in the order b, a; equations in the order a, b"""
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.t = self.createVariable("t", us, "time")
        self.b = self.createVariable("b", ul, "db", is_exposed=True, type="output")
        self.a = self.createVariable("a", ul, "da")
        self.k = self.createParameter("k", Unit("k", {"s": -1}), "dk")
        self.dom = Domain("dom", us, self.t, "domain")
        self.b.distributeOnDomain(self.dom)
        self.a.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k.setValue(pv)
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a())
class OdeT(Ode):
    """right side depends on time"""
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b() + self.k()*self.k()*self.t()*self.a())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == 2.0*self.k()*self.a())
class Dae(Model):
    def __init__(self, name, description=""):
        super().__init__(name, description)
        self.t = self.createVariable("t", us, "time")
        self.c = self.createVariable("c", ul, "dc")
        self.b = self.createVariable("b", ul, "db", is_exposed=True, type="output")
        self.a = self.createVariable("a", ul, "da")
        self.k = self.createParameter("k", Unit("k", {"s": -1}), "dk")
        self.dom = Domain("dom", us, self.t, "domain")
        self.a.distributeOnDomain(self.dom)
        self.b.distributeOnDomain(self.dom)
        self.c.distributeOnDomain(self.dom)
    def DeclareParameters(self):
        self.k.setValue(pv)
    def DeclareEquations(self):
        self.ea = self.createEquation("ea", "", self.a.Diff(self.t) == self.k()*self.b())
        self.ec = self.createEquation("ec", "", self.c() == self.a() + self.b())
        self.eb = self.createEquation("eb", "", self.b.Diff(self.t) == self.k()*self.c())
'''
