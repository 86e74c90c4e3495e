from .common import *
from sa.terms import to_poly, arith

RULE = ('each unit operation of the library declares exactly its balances (each up to a non-zero factor), over quantities with the units of their kind, '
        'with the quantities of the inlet exposed as input and those of the outlet as output')
LIB = PROB + '''
import src.sloth.unit_op_library as lib
class Phase:
    def __init__(self, rho, cp, mw):
        self.rho=rho
        self.Cp=cp
        self.MW=mw
class Package:
    """stand-in for a property package: constant properties"""
    def __init__(self, names):
        self.phase_names=list(names)
        self.number_of_phases=len(self.phase_names)
        self.T=300.0
        self.P=100000.0
        self.phases={n: Phase(rho if n == self.phase_names[-1] else rho2, cp if n == self.phase_names[-1] else cp2, mw) for n in self.phase_names}
    def __getitem__(self, k):
        return self.phases[self.phase_names[-1] if k == "*" else k]
    def calculate(self, T=298.15, P=101325):
        pass
kg=tu.kg
mol=tu.mol
Pa=tu.Pa
K=tu.K
J=tu.J
m=tu.m
s=tu.s
'''
INP = {k: num(k) for k in ('rho', 'rho2', 'cp2', 'cp', 'mw', 'qv', 'dv', 'pv', 'rv')}
FLOW = {'ndot': 'mol/s', 'mdot': 'kg/s', 'T': 'K', 'P': 'Pa', 'H': 'J/mol'}
IN, OUT = [q + '_in' for q in FLOW], [q + '_out' for q in FLOW]
UNITS = {q + side: u for q, u in FLOW.items() for side in ('_in', '_out')}


def x(n):
    return 'A.%s().symbolic_object' % n


def minus(a, b):
    return '%s-%s' % (x(a), x(b))


MOLAR, MASS, TEMP, PRES = minus('ndot_in', 'ndot_out'), minus('mdot_in', 'mdot_out'), minus('T_out', 'T_in'), minus('P_out', 'P_in')
ENERGY = '%s*%s-%s*%s' % (x('ndot_in'), x('H_in'), x('ndot_out'), x('H_out'))


def diff(v, right):
    return 'A.%s.Diff(A.t).symbolic_object-(%s)' % (v, right)


def fractions(names, cls):
    out = []
    if len(names) < 2:
        return out
    if cls in ('Mixer', 'Splitter'):
        for side in ('in', 'out'):
            for f in 'zw':
                out.append('+'.join(x('%s_%s_%s' % (f, n, side)) for n in names) + '-1')
        out += [minus('%s_%s_out' % (f, n), '%s_%s_in' % (f, n)) for n in names[:-1] for f in 'zw']
    elif cls in ('SimplePump', 'Valve', 'Heater', 'Cooler'):
        out += [minus('%s_%s_out' % (f, n), '%s_%s_in' % (f, n)) for n in names for f in 'zw']
    return out


HOLD = ('N', 'M', 'E', 'level')
TANK = ([diff('N', MOLAR), diff('M', MASS), diff('E', ENERGY + '+' + x('Q')), diff('level', '(%s)/(%s*%s)' % (MASS, x('rho'), x('area_sec'))), minus('P_In', 'P_Out')],
        {**{q + e: u for q, u in FLOW.items() if q in ('ndot', 'mdot', 'H') for e in ('_in', '_out')}, 'N': 'mol', 'M': 'kg', 'E': 'J', 'level': 'm', 't': 's', 'P_In': 'Pa', 'P_Out': 'Pa', 'Q': 'J/s', 'area_sec': 'm**2', 'rho': 'kg/m**3'},
        ['ndot_in', 'mdot_in', 'H_in'], ['ndot_out', 'mdot_out', 'H_out'], {'Q': 'qv', 'area_sec': 'dv'}, HOLD)
MIX = ([MOLAR, MASS, TEMP, PRES, ENERGY], UNITS, IN, OUT, {}, ())
HEAT = ([MOLAR, MASS, '%s+%s' % (PRES, x('Delta_P')), ENERGY + '+' + x('Q'), '%s-%s/(%s*%s)' % (TEMP, x('Q'), x('mdot_out'), x('cp_mix'))],
        {**UNITS, 'Delta_P': 'Pa', 'Q': 'J/s', 'cp_mix': 'J/(kg*K)'}, IN, OUT, {'Q': 'qv', 'Delta_P': 'dv'}, ())
VALVE = ([MOLAR, MASS, ENERGY, '%s+%s' % (PRES, x('Delta_P')), TEMP, '%s-%s*%s/A.parameters["mix_rho_A"]().symbolic_object' % (x('Qdot_out'), x('perc_open'), x('mdot_out'))],
         {**UNITS, 'Delta_P': 'Pa', 'Qdot_out': 'm**3/s', 'perc_open': 'm/m'}, IN, OUT + ['Qdot_out'], {'Delta_P': 'dv', 'perc_open': 'pv'}, ())
PUMP = ([MOLAR, MASS, ENERGY, '%s-%s' % (PRES, x('Delta_P')), TEMP], {**UNITS, 'Delta_P': 'Pa'}, IN, OUT, {'Delta_P': 'dv'}, ())
OPS = {'Mixer': MIX, 'Splitter': MIX, 'Tank': TANK, 'Fermenter': TANK, 'Valve': VALVE, 'SimplePump': PUMP, 'Heater': HEAT, 'Cooler': HEAT}
SINGLE = ('Valve', 'Heater', 'Cooler')


def shape(v):
    """polynomial of a residual up to a non-zero monomial factor, or None"""
    p = to_poly(v)
    if not p:
        return None
    low = {}
    for mono in p:
        for a, e in mono:
            low[a] = min(low.get(a, 0), e)
    for a in low:      # an atom that some monomial lacks occurs there with exponent 0
        if any(a not in dict(mono) for mono in p):
            low[a] = min(low[a], 0)
    out = {}
    for mono, c in p.items():
        d = dict(mono)
        out[tuple(sorted(((a.id, d.get(a, 0) - low[a]) for a in low if d.get(a, 0) != low[a])))] = c
    k = out[min(out)]
    return {mono: round(float(c / k), 12) for mono, c in out.items()}


def balances(an, s, oid, specs, at, vocab):
    if not s._pre(oid, at) or s.st is None:
        return
    try:
        acts = [s.val('[e.equation_expression.symbolic_object for e in A.equations.values()][%d]' % i) for i in range(cval(s.val('len(A.equations)')))]
        want = [s.val(e) for e in specs]
    except Exception as e:
        an.record(oid, 'undecided', 'balances of the unit operation cannot be read: %s %s' % (type(e).__name__, e), an.where(at))
        return
    left = list(range(len(acts)))
    und = False
    from sa.scenario import unknown_heads
    shapes = [shape(a) for a in acts]
    for e, w in zip(specs, want):
        sw = shape(w)
        hit = [i for i in left if shapes[i] is not None and shapes[i] == sw]
        if hit:
            left.remove(hit[0])
            an.record('%s balance %s' % (oid, e.replace('().symbolic_object', '')), 'ok', 'declared balance', at)
            continue
        und = any(shapes[i] is None or unknown_heads(acts[i], vocab) for i in left) or sw is None
        an.record('%s balance %s' % (oid, e.replace('().symbolic_object', '')), 'undecided' if und else 'violated',
                  'required balance %s = 0 is not among the equations declared: %s' % (show(w)[:250], '; '.join(show(acts[i])[:200] for i in left)), an.where(at), 'missing')
    an.record('%s number of equations' % oid, 'ok' if len(acts) == len(want) else 'violated', '%d equations declared, %d balances required' % (len(acts), len(want)), an.where(at), 'count')


def run(an, tier):
    voc = {'sympy.symbols', 'sympy.diff'}
    for cls, (specs, units, ins, outs, params, hold) in OPS.items():
        base = [b for b in (['Tank'] if cls in ('Tank', 'Fermenter') else ['Mixer'] if cls in ('Mixer', 'Splitter') else ['Heater'] if cls in ('Heater', 'Cooler') else [cls])][0]
        at = ['unit_op_library:%s.DeclareEquations' % base, 'unit_op_library:%s.__init__' % base]
        packs = ['["w"]', 'None'] if base == 'Mixer' else ['["w"]']
        if cls not in SINGLE:
            packs += ['["w", "h"]', '["w", "h", "u"]']
        for pack in packs:
            names = eval(pack) or []
            fr = ['%s_%s_%s' % (f, n, side) for n in names for f in 'zw' for side in ('in', 'out')] if len(names) > 1 else []
            for given in ([], *[[q] for q in params], list(params)) if len(params) > 1 else ([], list(params)) if params else ([],):
                for when in ('before', 'declared') if given else ('',):
                    setv = ''.join('%s.%s.setValue(%s)\n' % ('A' if when == 'before' else '    self', q, params[q]) for q in given)
                    pp = pack if pack == 'None' else 'Package(%s)' % pack
                    if when == 'declared':
                        src = 'class Mine(lib.%s):\n  def DeclareParameters(self):\n    super().DeclareParameters()\n%sA=Mine("A", "", property_package=%s)\nA()\n' % (cls, setv, pp)
                    else:
                        src = 'A=lib.%s("A", "", property_package=%s)\n%sA()\n' % (cls, pp, setv)
                    sc = an.scn(src, LIB, **INP)
                    oid = '%s of %s%s' % (cls, pack, (' given %s %s' % ('+'.join(given), when)) if given else '')
                    sc.completes(oid, 'unit operation declared', at, vocab=voc)
                    balances(an, sc, oid, specs + fractions(names, cls), at, voc)
                    for q in given:
                        sc.equal(oid + ' value of ' + q, 'A.%s.value' % q, params[q], 'parameter of the unit operation', at)
                    for q in params:
                        sc.equal(oid + ' given ' + q, 'A.%s.is_specified' % q, repr(q in given), 'a parameter is specified exactly if it was given', at)
                    if given:
                        continue
                    for q, u in units.items():
                        sc.holds(oid + ' unit of ' + q, 'A.%s.units._check_dimensional_coherence(%s)' % (q, u), 'unit of %s' % q, at)
                    for q in fr:
                        sc.holds(oid + ' unit of ' + q, 'A.%s.units._is_dimensionless()' % q, 'unit of %s' % q, at)
                    for side, qs in (('input', ins + [f for f in fr if f.endswith('_in')]), ('output', outs + [f for f in fr if f.endswith('_out')])):
                        sc.equal(oid + ' exposed as ' + side, 'sorted(v.name for v in A.exposed_vars["%s"])' % side, repr(sorted(q + '_A' for q in qs)), 'quantities exposed as ' + side, at)
                        for q in qs:
                            sc.holds(oid + ' exposed object %s' % q, 'any(v is A.%s for v in A.exposed_vars["%s"])' % (q, side), 'exposed object', at)
                    for q in hold:
                        sc.holds(oid + ' distributed ' + q, 'A.%s.domain is A.time_domain and A.time_domain.dependent_objs["%s_A"] is A.%s' % (q, q, q), 'holdups are distributed in time', at)
                    if hold:
                        sc.equal(oid + ' time', '(list(A.time_domain.independent_vars.values())[0] is A.t, len(A.time_domain.independent_vars))', '(True, 1)', 'time of the holdups', at)
                    if base == 'Tank':
                        sc.equal(oid + ' density', 'A.rho.value', 'rho', 'density of the package', at)
                    if base == 'Heater':
                        sc.equal(oid + ' heat capacity', 'A.cp_mix.value', 'cp', 'heat capacity of the package', at)
                    if base == 'Valve':
                        sc.equal(oid + ' density', 'A.parameters["mix_rho_A"].value', 'rho', 'density of the package', at)
