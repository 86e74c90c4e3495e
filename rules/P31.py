from .solve import *

RULE = ('a stream with one of the two fluxes given gets the other as ndot = mdot/(0.001*MW) of the last phase of its package, and its package is brought to the temperature and pressure given; '
        'a property package gives each phase under its name (* is the last), adding merges the missing phases in order, and ports list exactly the streams set')
LIB = PROB + '''
import src.sloth.unit_op_library as lib
from src.sloth.core.property_package import PropertyPackage
from src.sloth.unit_op import UnitOp
class Phase:
    def __init__(self, mw):
        self.MW=mw
class Package:
    def __init__(self, names, mws):
        self.phase_names=list(names)
        self.number_of_phases=len(self.phase_names)
        self.phases={n: Phase(w) for n, w in zip(names, mws)}
        self.seen=[]
    def __getitem__(self, k):
        return self.phases[self.phase_names[-1] if k == "*" else k]
    def calculate(self, T=298.15, P=101325):
        self.seen.append((T, P))
'''
INP = {k: num(k) for k in ('w1', 'w2', 'v1', 'v2', 'tv', 'pp')}
STREAMS = ('HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream')
AP = 'core.property_package:PropertyPackage'


def run(an, tier):
    for cls in STREAMS:
        at = ['unit_op_library:%s.DeclareParameters' % cls]
        for pack, w in (('Package(["a"], [w1])', 'w1'), ('Package(["a", "b"], [w1, w2])', 'w2'), ('None', None)):
            if pack == 'None' and cls == 'MultiphasicMaterialStream':
                continue
            for given, nd, md in (((), None, None), (('mdot',), 'v1/(0.001*%s)' % w, 'v1'), (('ndot',), 'v1', 'v1*0.001*%s' % w), (('mdot', 'ndot'), 'v2', 'v1')):
                for tp in ((), ('T',), ('P',), ('T', 'P')):
                    src = 'k=%s\nA=lib.%s("A", "", k)\n' % (pack, cls)
                    src += ''.join('A.%s.setValue(%s)\n' % (q, v) for q, v in zip(given, ('v1', 'v2'))) + ''.join('A.%s.setValue(%s)\n' % (q, v) for q, v in (('T', 'tv'), ('P', 'pp')) if q in tp)
                    s = an.scn(src + 'A()\n', LIB, **INP)
                    oid = '%s with %s given %s' % (cls, pack, '+'.join(given + tp) or 'nothing')
                    s.completes(oid, 'resolved stream', at)
                    specs = {'T': 'tv' if 'T' in tp else None, 'P': 'pp' if 'P' in tp else None, 'H': None}
                    specs['mdot'] = md if w or 'mdot' in given else None
                    specs['ndot'] = nd if w or 'ndot' in given else None
                    for q, v in specs.items():
                        s.equal('%s %s' % (oid, q), '(A.%s.value, A.%s.is_specified)' % (q, q) if v else 'A.%s.is_specified' % q, '(%s, True)' % v if v else 'False', 'value of %s' % q, at)
                    if w:
                        seen = [] if not tp else ['(%s, %s)' % ('tv' if 'T' in tp else '298.15', 'pp' if 'P' in tp else '101325')]
                        s.equal(oid + ' package', 'k.seen[-1:]', '[%s]' % ', '.join(seen), 'conditions of the package', at)
                        s.equal(oid + ' phases', '(k.phase_names, k["*"].MW)', '(%s, %s)' % ('["a"]' if w == 'w1' else '["a", "b"]', w), 'phases of the package', at)
            # resolving twice and other streams
            if w:
                s = an.scn('k=%s\nA=lib.%s("A", "", k)\nB=lib.%s("B", "", k)\nA.mdot.setValue(v1)\nA()\nA()\nB()\n' % (pack, cls, cls), LIB, **INP)
                s.equal('%s with %s resolved twice' % (cls, pack), '(A.mdot.value, A.ndot.value, B.mdot.is_specified, B.ndot.is_specified)', '(v1, v1/(0.001*%s), False, False)' % w, 'streams are resolved independently', at)
        # definite values
        at = ['unit_op_library:%s.DeclareParameters' % cls]
        for given in ({'mdot': '0.0'}, {'ndot': '0.0'}, {'mdot': '1e-9', 'T': '298.15', 'P': '101325.0'}, {'ndot': '5.0', 'P': '0.0', 'T': '0.0'}, {'mdot': '-2.0', 'T': '298.15'}, {'T': '0.0'}, {'P': '0.0', 'mdot': '3.0', 'ndot': '3.0'}, {'mdot': '0.0', 'ndot': '2.0'}):
            s = an.scn('k=Package(["a", "b", "c"], [w2, w2, w1])\nA=lib.%s("A", "", k)\n%sA()\n' % (cls, ''.join('A.%s.setValue(%s)\n' % (q, v) for q, v in given.items())), LIB, **INP)
            oid = '%s given %s' % (cls, ', '.join('%s = %s' % i for i in given.items()))
            s.completes(oid, 'resolved stream', at)
            m, n = given.get('mdot'), given.get('ndot')
            for q, v in (('mdot', m or n and n + '*0.001*w1'), ('ndot', n or m and m + '/(0.001*w1)'), ('T', given.get('T')), ('P', given.get('P'))):
                s.equal('%s %s' % (oid, q), '(A.%s.value, A.%s.is_specified)' % (q, q) if v else 'A.%s.is_specified' % q, '(%s, True)' % v if v else 'False', 'value of %s' % q, at)
            if 'T' in given or 'P' in given:
                s.equal(oid + ' package', 'k.seen[-1:]', '[(%s, %s)]' % (given.get('T', '298.15'), given.get('P', '101325')), 'conditions of the package', at)
        # another value, given before resolving again, reaches the package
        for q, txt in (('T', '(tv, pp), (v2, pp)'), ('P', '(tv, pp), (tv, v2)')):
            s = an.scn('k=Package(["a"], [w1])\nA=lib.%s("A", "", k)\nA.T.setValue(tv)\nA.P.setValue(pp)\nA()\nb=k.seen[-1]\nA.%s.setValue(v2)\nA()\nc=k.seen[-1]\n' % (cls, q), LIB, **INP)
            s.equal('%s resolved again with another %s' % (cls, q), '(b, c)', '(%s)' % txt, 'conditions of the package', at)
        at = ['unit_op_library:%s.__init__' % cls]
        s = an.scn('A=lib.%s("A", "", Package(["a", "b"], [w1, w2]))\n' % cls, LIB, **INP)
        for q, u in {'mdot': 'tu.kg/tu.s', 'ndot': 'tu.mol/tu.s', 'P': 'tu.Pa', 'T': 'tu.K', 'H': 'tu.J/tu.mol'}.items():
            s.holds('%s unit of %s' % (cls, q), 'A.%s.units._check_dimensional_coherence(%s) and A.parameters["%s_A"] is A.%s' % (q, u, q, q), 'unit of ' + q, at)
        if cls == 'MultiphasicMaterialStream':
            for q in ('z_a', 'z_b', 'w_a', 'w_b'):
                s.holds('%s fraction %s' % (cls, q), 'A.%s.units._is_dimensionless() and A.parameters["%s_A"] is A.%s' % (q, q, q), 'fraction ' + q, at)
            s.equal('%s number of parameters' % cls, 'len(A.parameters)', '9', 'parameters of the stream', at)
    # property packages
    CH = 'thermo.chemical.Chemical'
    voc = {CH, 'thermo.mixture.Mixture', '.zs', '.ws', '.calculate'}

    def created(s, oid, e, spec, at, places=None):
        """keyword or positional arguments of a library call"""
        for i, (k, v) in zip(places or range(len(spec)), spec):
            got = raw(e, i, k)
            if got is None:
                an.record('%s %s' % (oid, k), 'violated', '%s is not given' % k, an.where(at), 'value')
                continue
            s.bind('got', got)
            s.equal('%s %s' % (oid, k), 'got', v, '%s of the library object' % k, at, vocab=voc)

    for names, counted in ((['a'], True), (['a', 'b'], True), (['b', 'c', 'a'], True), (['a', 'b'], False), (['b', 'c', 'a'], False)):
        lit = '[%s]' % ', '.join('"%s"' % n for n in names)
        count = '%d, ' % len(names) if counted else 'phase_names='
        s = an.scn('n=%s\nk=PropertyPackage(%sn)\nh=PropertyPackage(1, ["other"])\n' % (lit, count), LIB, **INP)
        oid = 'package %s' % lit + ('' if counted else ' not counted')
        at = AP + '.__init__'
        s.completes(oid, 'property package', at, vocab=voc)
        if s.st is None:
            continue
        ev = s.calls(CH)
        for i, n in enumerate(names):
            mine = [e for e in ev if raw(e, 0, 'ID') is not None and T.show(raw(e, 0, 'ID')) == repr(n)]
            if len(mine) != 1:
                an.record('%s phase %s' % (oid, n), 'violated', '%d library objects created for the phase' % len(mine), an.where(at), 'count')
                continue
            created(s, '%s phase %s' % (oid, n), mine[0], [('ID', repr(n)), ('T', '298.15'), ('P', '101325')], at)
            s.bind('made', mine[0].result)
            s.holds('%s access to %s' % (oid, n), 'k["%s"] is made' % n, 'phase of the package', AP + '.__getitem__', vocab=voc)
        s.holds(oid + ' last', 'k["*"] is k["%s"]' % names[-1], 'last phase', AP + '.__getitem__', vocab=voc)
        s.equal(oid + ' names', '(k.phase_names, %slist(k.phases), k.phase_names is n, n)' % ('k.number_of_phases, ' if counted else ''), '(%s, %s%s, False, %s)' % (lit, '%d, ' % len(names) if counted else '', lit, lit), 'phases of the package', at, vocab=voc)
        s.equal(oid + ' conditions', '(k.T, k.P)', '(298.15, 101325)', 'conditions of a new package', at, vocab=voc)
        for call, tv, pv in (('tv, pp', 'tv', 'pp'), ('T=tv', 'tv', '101325'), ('P=pp', '298.15', 'pp'), ('', '298.15', '101325')):
            s = an.scn('h=PropertyPackage(1, ["other"])\nk=PropertyPackage(%s%s)\nk.calculate(%s)\n' % (count, lit, call), LIB, **INP)
            at = AP + '.calculate'
            o2 = '%s calculated (%s)' % (oid, call)
            s.exits(o2, True, what='calculation of a package', at=at, vocab=voc)
            if s.st is None:
                continue
            ev = s.calls('.calculate')
            for n in names:
                s.bind('ph', s.val('k["%s"]' % n))
                mine = [e for e in ev if receiver(e) is s.val('ph')]
                an.record('%s phase %s' % (o2, n), 'ok' if len(mine) == 1 else 'violated', 'the phase is calculated %d times' % len(mine), an.where(at), 'count')
                for e in mine[:1]:
                    created(s, '%s phase %s' % (o2, n), e, [('T', tv), ('P', pv)], at)
            an.record(o2 + ' nothing else', 'ok' if len(ev) == len(names) else 'violated', '%d calculations for %d phases' % (len(ev), len(names)), an.where(at), 'count')
    # mixtures
    at = AP + '.resolve_mixture'
    for given, w, z in (('', '[0.1]', 'None'), (', ws=[v1, v2]', '[v1, v2]', 'None'), (', ws=None, zs=[v1, v2]', 'None', '[v1, v2]')):
        s = an.scn('k=PropertyPackage(2, ["a", "b"]%s)\nk.resolve_mixture()\n' % given, LIB, **INP)
        oid = 'mixture%s' % given
        s.exits(oid, True, what='mixture of a package', at=at, vocab=voc)
        ev = s.calls('thermo.mixture.Mixture')
        an.record(oid + ' created once', 'ok' if len(ev) == 1 else 'violated', '%d mixtures' % len(ev), an.where(at), 'count')
        if s.st is None or len(ev) != 1:
            continue
        # the library takes (IDs, zs, ws); a fraction left out is None
        created(s, oid, ev[0], [('IDs', '["a", "b"]')] + [(k, v) for k, v in (('zs', z), ('ws', w)) if v != 'None' or raw(ev[0], 1 if k == 'zs' else 2, k) is not None], at, [0, 1, 2] if z != 'None' or raw(ev[0], 1, 'zs') is not None else [0, 2])
        s.bind('mix', ev[0].result)
        s.holds(oid + ' kept', 'k.mixture is mix', 'mixture of the package', at, vocab=voc)
        s.equal(oid + ' fractions', '(k.zs, k.ws)', '(mix.zs, mix.ws)', 'fractions of the resolved mixture', at, vocab=voc)
    # a package whose phases were not counted, and one that grew, calculate every phase
    for txt, src, all_ in (('grown', 'k=PropertyPackage(1, ["a"])\nk+PropertyPackage(1, ["b"])\nk+PropertyPackage(2, ["b", "c"])\n', 'abc'), ('grown from uncounted', 'k=PropertyPackage(phase_names=["a", "b"])\nk+PropertyPackage(phase_names=["c", "d"])\n', 'abcd')):
        s = an.scn(src + 'k.calculate(tv, pp)\n', LIB, **INP)
        ev = s.calls('.calculate')
        if s.exits('package %s calculated' % txt, True, what='calculation of a package', at=AP + '.calculate', vocab=voc):
            for n in all_:
                s.bind('ph', s.val('k["%s"]' % n))
                an.record('package %s calculated: phase %s' % (txt, n), 'ok' if len([e for e in ev if receiver(e) is s.val('ph')]) == 1 else 'violated', 'calculations of the phase', an.where(AP + '.calculate'), 'count')
    # addition
    at = AP + '.__add__'
    for first, second, union in ((['a'], ['b'], ['a', 'b']), (['a', 'b'], ['b', 'c'], ['a', 'b', 'c']), (['a'], ['a'], ['a']), (['b', 'a'], ['d', 'b', 'c'], ['b', 'a', 'd', 'c']),
                                 (['heavywater'], ['water'], ['heavywater', 'water']), (['water', 'b'], ['heavywater', 'a', 'wat'], ['water', 'b', 'heavywater', 'a', 'wat']), ([], ['a', 'b'], ['a', 'b']), (['a'], [], ['a'])):
        lits = ['[%s]' % ', '.join('"%s"' % n for n in x) for x in (first, second, union)]
        s = an.scn('k=PropertyPackage(%d, %s)\nh=PropertyPackage(%d, %s)\no=PropertyPackage(1, ["q"])\nwas={n: h[n] for n in h.phase_names}\nold={n: k[n] for n in k.phase_names}\nr=k+h\n' % (len(first), lits[0], len(second), lits[1]), LIB, **INP)
        oid = 'sum of %s and %s' % tuple(lits[:2])
        s.exits(oid, True, what='sum of packages', at=at, vocab=voc)
        s.equal(oid + ' phases', '(r.phase_names, list(r.phases), r.number_of_phases)', '(%s, %s, %d)' % (lits[2], lits[2], len(union)), 'phases of the sum', at, vocab=voc)
        for n in union:
            s.holds(oid + ' phase ' + n, 'r["%s"] is %s["%s"]' % (n, 'old' if n in first else 'was', n), 'phase of the sum', at, vocab=voc)
        s.equal(oid + ' other operand', '(h.phase_names, list(h.phases), h.number_of_phases, [h[n] is was[n] for n in h.phase_names])', '(%s, %s, %d, %r)' % (lits[1], lits[1], len(second), [True] * len(second)), 'right operand', at, vocab=voc)
        s.equal(oid + ' third package', '(o.phase_names, list(o.phases), o.number_of_phases)', '(["q"], ["q"], 1)', 'another package', at, vocab=voc)
    for other in ('3.0', '"a"', 'None', '["a"]'):
        s = an.scn('k=PropertyPackage(1, ["a"])\nr=k+%s\n' % other, LIB, **INP)
        s.rejects('sum with %s' % other, 'UnexpectedValueError', 'sum with something else', at, vocab=voc)
    for f in 'TP':
        at = AP + '.set_' + f
        s = an.scn('k=PropertyPackage(1, ["a"])\nh=PropertyPackage(1, ["a"])\nk.set_%s(x)\n' % f, LIB, x=sym('x', 'float'))
        s.completes('set ' + f, 'condition of a package', at, vocab=voc)
        s.equal('set %s value' % f, '(k.T, k.P, h.T, h.P)', '(x, 101325, 298.15, 101325)' if f == 'T' else '(298.15, x, 298.15, 101325)', 'conditions of packages', at, vocab=voc)
        for v in ('"a"', 'None', '[1.0]'):
            s = an.scn('k=PropertyPackage(1, ["a"])\nk.set_%s(%s)\n' % (f, v), LIB)
            s.rejects('set %s to %s' % (f, v), 'AbsentRequiredObjectError', 'condition of a package', at, vocab=voc)
    # ports
    at = ['unit_op:UnitOp._setInlets', 'unit_op:UnitOp._setOutlets']
    pre = 'A=Model("A", "", None)\nu=UnitOp(model=A)\no=UnitOp(model=Model("B", "", None))\np=lib.MaterialStream("p")\nq=lib.MaterialStream("q")\nr=lib.MaterialStream("r")\n'
    for side, other, cnt in (('Inlets', 'outlets', 'n_inputs'), ('Outlets', 'inlets', 'n_outputs')):
        low = side.lower()
        for call, ports, n in (('u._set%s(p)', {'in' if side == 'Inlets' else 'out': 'p'}, 1), ('u._set%s([p, q])', {'in' if side == 'Inlets' else 'out': 'pq'}, 2), ('u._set%s([p, q], "a")\nu._set%s(r, "b")', {'a': 'pq', 'b': 'r'}, 3),
                               ('u._set%s(r, "b")\nu._set%s([p, q], "a")', {'b': 'r', 'a': 'pq'}, 3), ('u._set%s([p, q], "a")\nu._set%s([r], "b")', {'a': 'pq', 'b': 'r'}, 3),
                               ('u._set%s(p, "a")\nu._set%s([r, q], "a")', {'a': 'rq'}, 3), ('L=[p, q]\nu._set%s(L, "a")\nL.append(r)', {'a': 'pq'}, 2)):
            s = an.scn(pre + call.replace('%s', side) + '\n', LIB)
            oid = 'ports ' + call.replace('%s', side).replace('\n', ';')
            s.completes(oid, 'ports of a unit operation', at)
            s.equal(oid + ' names', 'list(u.ports["%s"])' % low, repr(list(ports)), 'names of the ports', at)
            for k, v in ports.items():
                s.equal('%s streams %s' % (oid, k), '[%s]' % ', '.join('x is %s' % x for x in v) if False else '(len(u["%s"]["%s"]), %s)' % (low, k, ', '.join('u.ports["%s"]["%s"][%d] is %s' % (low, k, i, x) for i, x in enumerate(v))),
                        '(%d, %s)' % (len(v), ', '.join(['True'] * len(v))), 'streams of the port', at)
            s.equal(oid + ' others', '(len(u.ports["%s"]), len(o.ports["inlets"]), len(o.ports["outlets"]), len(A.ports["inlets"]))' % other, '(0, 0, 0, 0)', 'other ports', at)
            if 'r, q' not in call:
                s.equal(oid + ' count', '(u.%s, u.%s)' % (cnt, 'n_outputs' if side == 'Inlets' else 'n_inputs'), '(%d, 0)' % n, 'number of streams', at)
