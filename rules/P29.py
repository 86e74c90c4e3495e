from .P28 import *
from .P28 import OPRE, OINP, V, new, opt

RULE = ('an optimization runs only on a readied problem with constraints for every parameter, evolves exactly one population of the configured size over the bounds given, evaluates the objective of the problem on its own simulation, '
        'and reports exactly the champion of the evolved population; results before a run are refused')
AR = ['optimization:Optimization.runOptimization']
AP = ['optimization:OptimizationProblem']
AS = ['optimization:Optimization._performSaneTests']


def reruns(an):
    """whatever was run, set or asked for before, a run evolves a population of the problem as it stands and reports its champion"""
    past = {'nothing': new(), 'constraints set before': new().replace('[lo, hi]', '[lo2, lo2]') + 'O.setConstraints([lo, hi])\n', 'configurations saved before': new() + 'O.saveConfigurations(fname)\n',
            'information before': new() + 'O.getOptimizationInfo()\n', 'checked before': new() + 'O._performSaneTests()\n', 'simulated before': new() + 'try:\n    S.runSimulation()\nexcept Exception:\n    pass\n',
            'refused before': 'op=OP(1)\n' + new() + 'try:\n    O.runOptimization()\nexcept Exception:\n    pass\nop()\n',
            'run before': new() + 'O.runOptimization()\nfirst=O.getResults()\n', 'run twice before': new() + 'O.runOptimization()\nO.runOptimization()\nfirst=O.getResults()\n',
            'run without log before': new() + 'O.runOptimization(optimization_log=False, print_output=False, report_frequency=ni)\n',
            'run with other constraints before': new().replace('[lo, hi]', '[lo2, lo2]') + 'O.runOptimization()\nO.setConstraints([lo, hi])\n',
            'run with its own bounds before': 'op=OP(1, bounds=[lo2, lo2])\nop()\n' + new().replace('constraints=[lo, hi]', 'constraints=None') + 'O.runOptimization()\nO.setConstraints([lo, hi])\n',
            'other problem run before': 'mine=op\nop=OP(1, bounds=[lo2, lo2])\nop()\n' + new() + 'O.runOptimization()\nop=mine\nO.setOptimizationProblem(mine)\n',
            'other optimization run before': 'R=Simulation("R", "")\nR.setProblem(P)\nR.setConfigurations(initial_time=o1)\nQ=Optimization(simulation=R, optimization_problem=op, optimization_parameters=["p_M1"], constraints=[lo2, lo2], optimizer="pso")\nQ.runOptimization()\n' + new(),
            'other optimization of another problem before': 'oq=OP(1)\noq()\nQ=Optimization(simulation=S, optimization_problem=oq, optimization_parameters=["p_M1"], constraints=[lo2, lo2])\nQ.runOptimization()\n' + new(),
            'made before, run after another': new() + 'R=Simulation("R", "")\nR.setProblem(P)\nR.setConfigurations(initial_time=o1)\nQ=Optimization(simulation=R, optimization_problem=op, optimization_parameters=["p_M1"], constraints=[lo2, lo2])\nQ.runOptimization()\n',
            'objective changed before': new() + 'O.runOptimization()\nop.DeclareObjectiveFunction=lambda x: [fx]\nop()\n'}
    for oid, src in past.items():
        for call in ('', 'print_output=False, optimization_log=False'):
            name = 'after %s%s' % (oid, ' (%s)' % call if call else '')
            s = opt(an, src + MARK + 'O.runOptimization(%s)\nres=O.getResults()\n' % call, ni=sym('ni', 'int'))
            s.completes(name, 'run of an optimization', AR, vocab=V)
            ev = after_mark(s)
            if s.undecided or s.st is None or ev is None:
                an.record(name + ' evolution', 'undecided', s.undecided or 'evolution not recognised', AR)
                continue
            run_of(an, s, name, ev, 'fx' if 'objective' in oid else 'vx*cf')


def run_of(an, s, oid, ev, objective):
    ends = [e for e in ev if e.name == '.evolve']
    pops = [e for e in s.events if e.name == 'pygmo.population']
    probs = [e for e in s.events if e.name == 'pygmo.problem']
    if not ends:
        s.record(oid + ' evolution', 'violated', 'nothing is evolved in this run', AR, 'missing')
        return
    end = ends[-1]
    s.record(oid + ' evolution', 'ok' if len(ends) == 1 else 'violated', 'number of evolutions: %d' % len(ends), AR, 'value')
    pop = next((e for e in pops if e.result is raw(end, 0, 'pop')), None)
    prob = next((e for e in probs if pop is not None and e.result is raw(pop, 0, 'prob')), None)
    s.bind('END', end.result)
    s.equal(oid + ' results', 'res', '(END.champion_x, END.champion_f)', 'results of the run', AR, vocab=V)
    if pop is None or prob is None and not (pop.raw[0] and pop.raw[0][0].kind == 'r'):
        an.record(oid + ' population', 'undecided', 'population or problem not recognised', AR)
        return
    # the population is a new one: it was made in this run, over a problem made in this run
    s.record(oid + ' population made', 'ok' if any(e is pop for e in ev) else 'violated', 'population evolved is one of an earlier run', AR, 'value')
    made = prob or pop
    s.record(oid + ' problem made', 'ok' if any(e is made for e in ev) else 'violated', 'problem evolved is the copy the library took in an earlier run', AR, 'value')
    if not any(e is made for e in ev):
        return
    # what the library copies: the problem with its bounds, simulation, configuration and objective at that moment
    d = s.during(made)
    d.bind('UDP', raw(made, 0, 'udp'))
    d.bind('vx', num('vx'))
    d.equal(oid + ' copied problem', 'UDP is op', 'True', 'problem given to the library', AR, vocab=V)
    d.equal(oid + ' copied bounds', '[list(v) for v in UDP.get_bounds()]', '[[lo], [hi]]', 'bounds of the problem when given to the library', AR, vocab=V | {'numpy.array'})
    d.equal(oid + ' copied simulation', '(UDP.simulation_instance is S, UDP.simulation_configuration is O.simulation_configuration)', '(True, True)', 'simulation and configuration of the problem when given to the library', AR, vocab=V)
    d.equal(oid + ' copied objective', 'UDP.fitness([vx])', '[%s]' % objective, 'fitness of the problem when given to the library', AR, vocab=V)
    lv = [e for e in s.events if e.name == '.set_verbosity' and receiver(e) is receiver(end)]
    i = next(k for k, e in enumerate(s.events) if e is end)
    here = [k for k, e in enumerate(s.events) if any(e is x for x in lv)]
    s.record(oid + ' verbosity set', 'ok' if any(k < i and any(s.events[k] is e for e in ev) for k in here) else 'violated', 'report frequency of the run is not set before the evolution', AR, 'value')


def run(an, tier):
    for name in ('de', 'sade', 'ga', 'pso'):
        for call in ('', 'print_output=False', 'optimization_log=False', 'report_frequency=rf'):
            s = opt(an, new(', optimizer="%s"' % name, '{"number_of_individuals": ni}') + 'O.runOptimization(%s)\nres=O.getResults()\n' % call, ni=sym('ni', 'int'), rf=sym('rf', 'int'))
            oid = 'run of %s %s' % (name, call)
            s.completes(oid, 'run of an optimization', AR, vocab=V)
            pr, po, ev, vb = s.calls('pygmo.problem'), s.calls('pygmo.population'), s.calls('.evolve'), s.calls('.set_verbosity')
            if s.undecided or s.st is None or len(pr) != 1 or len(po) != 1 or not ev:
                an.record(oid + ' evolution', 'undecided', 'evolution not recognised', AR)
                continue
            s.record(oid + ' evolutions', 'ok' if len(ev) == 1 else 'violated', 'number of evolutions: %d' % len(ev), AR, 'value')
            s.bind('UDP', raw(pr[0], 0, 'udp'))
            s.bind('PROB', pr[0].result)
            s.bind('POPP', raw(po[0], 0, 'prob'))
            s.bind('POPS', raw(po[0], 1, 'size') or const(0))
            s.bind('POP', po[0].result)
            s.bind('EVP', raw(ev[0], 0, 'pop'))
            s.bind('END', ev[0].result)
            s.bind('MECH', receiver(ev[0]))
            s.equal(oid + ' problem', '(UDP is op, POPP is PROB, EVP is POP)', '(True, True, True)', 'problem and population evolved', AR, vocab=V)
            s.equal(oid + ' mechanism', 'MECH is O.optimization_mechanism', 'True', 'algorithm that evolves', AR, vocab=V)
            s.equal(oid + ' size', 'POPS', 'ni', 'size of the population', AR, vocab=V)
            picked = not s.undecided and [u for u in T.subterms(s.val('(res, O.best_parameters, O.best_fitness)')) if u.kind == 'item' and is_pynum(u.a[1]) and u.a[0].kind == 'app' and u.a[0].a[0].kind == 'attr' and u.a[0].a[0].a[1] in ('get_x', 'get_f')]
            if picked and all(len(elems(s, u) or []) != 1 for u in picked) and any(u.a[0].a[0].a[1] == 'get_x' for u in picked):
                s.record(oid + ' individual', 'violated', 'result is the individual at a fixed place of the population: %s' % show(picked[0]), AR, 'value')
            s.equal(oid + ' champion', 'res', '(END.champion_x, END.champion_f)', 'results (END is the evolved population)', AR, vocab=V)
            s.equal(oid + ' champion stored', '(O.best_parameters, O.best_fitness)', '(END.champion_x, END.champion_f)', 'best parameters and fitness', AR, vocab=V)
            s.equal(oid + ' success', 'O.run_sucessful', 'True', 'success', AR, vocab=V)
            if len(vb) == 1:
                s.bind('VB', raw(vb[0], 0, 'level'))
                s.equal(oid + ' verbosity', 'VB', 'rf' if 'rf' in call else '0', 'report frequency', AR, vocab=V)
            lg = s.calls('.extract')
            s.record(oid + ' log', 'ok' if bool(lg) == ('log=False' not in call) else 'violated', 'log read: %s' % bool(lg), AR, 'value')
    reruns(an)
    # results before a run, and where a run was refused
    s = opt(an, new() + 'O.getResults()\n')
    s.rejects('results before a run', ('Exception',), 'results before a run', 'optimization:Optimization.getResults')
    s = opt(an, 'op=OP(1)\n' + new() + 'try:\n    O.runOptimization()\nexcept Exception:\n    pass\nO.getResults()\n')
    s.rejects('results after a refused run', ('Exception',), 'results where the run was refused', 'optimization:Optimization.getResults')
    s = opt(an, 'op=OP(1)\n' + new() + 'try:\n    O.runOptimization()\nexcept Exception:\n    pass\n')
    s.equal('refused run success', 'O.run_sucessful', 'False', 'success of a refused run', AR)
    # gates
    ok, no = (), ('AbsentRequiredObjectError',)
    cases = [('problem not readied', 'op=OP(1)\n' + new(), no), ('problem readied later', 'op=OP(1)\n' + new() + 'op()\n', ok),
             ('other problem set', 'q=OP(1)\nq()\nop=OP(1)\n' + new() + 'O.setOptimizationProblem(q)\n', ok), ('other problem set not readied', 'q=OP(1)\n' + new() + 'O.setOptimizationProblem(q)\n', no)]
    for kind, ps in (('names', ['"p_M1"', '"q_M1"', '"r_M1"']), ('objects', ['m.p', 'k.p', 'm.x'])):
        nm = {'"p_M1"': '"p_M1"', '"q_M1"': '"q_M1"', '"r_M1"': '"r_M1"', 'm.p': '"p_M1"', 'k.p': '"p_M2"', 'm.x': '"x_M1"'}
        for n in (1, 2, 3):
            for miss in [None] + list(range(n)):
                for extra in (False, True):
                    have = [nm[p] for i, p in enumerate(ps[:n]) if i != miss] + (['"other"'] if extra else [])
                    cases.append(('%d parameters by %s, constraints without %s%s' % (n, kind, miss, ' and another' if extra else ''),
                                  'k=Lin("M2")\n' + new(params='[%s]' % ', '.join(ps[:n])).replace('[lo, hi]', '{%s}' % ', '.join('%s: (lo, hi)' % h for h in have)), ok if miss is None else no))
    for oid, src, exc in cases:
        if exc:
            s = opt(an, src + 'O.runOptimization()\n')
            s.rejects(oid, exc, 'run of an optimization: ' + oid, AS)
            ev = [e for e in s.calls('.evolve', 'pygmo.population')]
            s.record(oid + ' evolves nothing', 'violated' if ev else 'ok', 'population built or evolved although the run is refused' if ev else 'nothing evolved', AS, 'value') if not s.undecided else None
        else:
            s = opt(an, src + 'r=O._performSaneTests()\n' if 'constraints' in oid else src + 'O.runOptimization()\n')
            s.completes(oid, 'run of an optimization: ' + oid, AS, vocab=V)
    # bounds
    for c, b in (('[lo, hi]', '[[lo], [hi]]'), ('(lo, hi)', '[[lo], [hi]]'), ('[[lo, lo2], [hi, hi2]]', '[[lo, lo2], [hi, hi2]]'), ('([lo], [hi])', '[[lo], [hi]]'), ('np.array([[lo, lo2], [hi, hi2]])', '[[lo, lo2], [hi, hi2]]')):
        AB = ['optimization:OptimizationProblem.DeclareSetBounds', 'optimization:Optimization.runOptimization']
        s = opt(an, 'c=%s\n' % c + new().replace('[lo, hi]', 'c') + 'O.runOptimization()\nb=op.get_bounds()\n')
        s.completes('bounds %s' % c, 'run with bounds', AB, vocab=V)
        s.equal('bounds %s value' % c, '[list(v) for v in b]', b, 'bounds of the problem', AB, vocab=V | {'numpy.array'})
        s.equal('bounds %s caller' % c, '[v.tolist() for v in np.array(c)]' if '[[' in c or '([' in c else 'list(c)', '[v.tolist() for v in np.array(%s)]' % c if '[[' in c or '([' in c else 'list(%s)' % c, 'bounds of the caller', AB, vocab=V)
        s = opt(an, 'op=OP(2, bounds=%s)\nop()\n' % c + new().replace('constraints=[lo, hi]', 'constraints=None') + 'O.runOptimization()\nb=op.get_bounds()\n')
        s.completes('own bounds %s' % c, 'run with the bounds of the problem', AB, vocab=V)
        s.equal('own bounds %s value' % c, '[list(v) for v in b]', b, 'bounds of the problem', AB, vocab=V | {'numpy.array'})
        s = opt(an, 'op=OP(2, bounds=[lo2, lo2])\nop()\n' + new().replace('[lo, hi]', c) + 'O.runOptimization()\nb=op.get_bounds()\n')
        s.equal('replaced bounds %s value' % c, '[list(v) for v in b]', b, 'bounds given to the optimization replace those of the problem', AB, vocab=V | {'numpy.array'})
        s = opt(an, 'op=OP(2, bounds=[lo2, lo2])\nop()\n' + new() + 'O.setConstraints(%s)\nO.runOptimization()\nb=op.get_bounds()\n' % c)
        s.equal('bounds set later %s value' % c, '[list(v) for v in b]', b, 'bounds set later', AB, vocab=V | {'numpy.array'})
    # the bounds are set before the problem is given to the library, and nothing changes them afterwards
    s = opt(an, 'class OB(OP):\n    seen=None\n    def DeclareSetBounds(self):\n        return ("mine", self.bounds)\nop=OB(1)\nop()\n' + new() + 'O.runOptimization()\nb=op.get_bounds()\n')
    s.equal('own declaration of bounds', 'b', '("mine", [lo, hi])', 'bounds declared by the problem', AP, vocab=V)
    # objective
    s = opt(an, new() + 'O.runOptimization()\nf=op.fitness([fx])\n')
    s.equal('objective', 'f', '[fx*cf]', 'fitness of a vector is the objective', AP, vocab=V)
    s.equal('objective effect', 'm.p.value', 'fx', 'parameter of the simulation the objective sets', AP, vocab=V)
    s.equal('objective simulation', 'op.simulation_instance is S', 'True', 'simulation of the objective', AP, vocab=V)
    for bs, comp in (('', 'f1[0] < f2[0]'), ('is_maximization=False', 'f1[0] < f2[0]'), ('is_maximization=True', 'f1[0] > f2[0]')):
        s = opt(an, 'op=OP(1, %s)\nf1=[lo]\nf2=[hi]\nr=op.DeclareFitnessComparison(f1, f2)\n' % bs)
        s.equal('comparison ' + bs, 'r', comp, 'whether the first fitness is better', 'optimization:OptimizationProblem.DeclareFitnessComparison')
    # configuration of the simulation
    AC = 'optimization:Optimization.__init__'
    s = opt(an, 'c={"initial_time": o1}\n' + new(', simulation_configuration=c') + 'O.runOptimization()\n')
    s.equal('simulation configuration dictionary', 'op.simulation_configuration', '{"initial_time": o1}', 'configuration of the simulation', AC, vocab=V)
    s = opt(an, new() + 'O.runOptimization()\n')
    s.equal('simulation configuration own', 'op.simulation_configuration', '{k: v for k, v in S.configurations.items()}', 'configuration of the simulation', AC, vocab=V)
    s = opt(an, new(', simulation_configuration=fname') + 'O.runOptimization()\n')
    ld, fo = s.calls('json.load') or s.calls('json.loads'), s.calls('open')
    if unread(s):
        s.record('simulation configuration file', 'violated', 'the configuration file is never read', AC, 'missing')
    elif s.undecided or s.st is None or len(ld) != 1 or len(fo) != 1:
        an.record('simulation configuration file', 'undecided', 'reading of the file not recognised', AC)
    else:
        s.record('simulation configuration file opened', 'ok' if fo[0].args[:1] == (strsym('fname'),) else 'violated', 'file opened: %s' % [show(a) for a in fo[0].args], AC, 'value')
        s.bind('LOADED', ld[0].result)
        d = '{"initial_time": o1, "end_time": None, "args": []}'
        s = opt(an, new(', simulation_configuration=fname') + 'O.runOptimization()\n', _answers={'json.load': d, 'json.loads': d})
        s.equal('simulation configuration file', 'op.simulation_configuration', d, 'configuration of the simulation', AC, vocab=V)
    s = opt(an, 'S=Simulation("S", "")\nS.setProblem(P)\n' + new())
    s.rejects('no simulation configuration', ('AbsentRequiredObjectError',), 'optimization of a simulation without configuration', AC)
    for bad in ('3', '[1]', 'm'):
        s = opt(an, new(', simulation_configuration=%s' % bad))
        s.rejects('simulation configuration ' + bad, ('AbsentRequiredObjectError',), 'configuration of a wrong kind', AC)
    # two optimizations over problems of their own
    s = opt(an, 'T=Simulation("T", "")\nT.setProblem(P)\nT.setConfigurations()\noq=OP(1)\noq()\n' + new() + 'Q=Optimization(simulation=T, optimization_problem=oq, optimization_parameters=["p_M1"], constraints=[lo2, hi2])\nO.runOptimization()\nQ.runOptimization()\n')
    s.completes('two optimizations', 'two optimizations', AR, vocab=V)
    s.equal('two optimizations bounds', '([list(v) for v in op.get_bounds()], [list(v) for v in oq.get_bounds()])', '([[lo], [hi]], [[lo2], [hi2]])', 'bounds of the two', AR, vocab=V)
    s.equal('two optimizations simulations', '(op.simulation_instance is S, oq.simulation_instance is T)', '(True, True)', 'simulations of the two', AR, vocab=V)
    ev = s.calls('.evolve')
    if s.st is not None and len(ev) == 2:
        s.bind('E1', ev[0].result)
        s.bind('E2', ev[1].result)
        s.equal('two optimizations results', '(O.getResults(), Q.getResults())', '((E1.champion_x, E1.champion_f), (E2.champion_x, E2.champion_f))', 'results of the two', AR, vocab=V)
    # one problem used by two optimizations one after the other, and a problem made with a simulation of its own
    two = 'T=Simulation("T", "")\nT.setProblem(P)\nT.setConfigurations(initial_time=o1)\n'
    s = opt(an, two + new() + 'O.runOptimization()\nQ=Optimization(simulation=T, optimization_problem=op, optimization_parameters=["p_M1"], constraints=[lo2, hi2])\nQ.runOptimization()\n')
    s.completes('problem used twice', 'second optimization of a problem', AR, vocab=V)
    s.equal('problem used twice simulation', '(op.simulation_instance is T, op.simulation_configuration["initial_time"])', '(True, o1)', 'simulation and configuration of the second', AR, vocab=V)
    s.equal('problem used twice bounds', '[list(v) for v in op.get_bounds()]', '[[lo2], [hi2]]', 'bounds of the second', AR, vocab=V)
    s = opt(an, two + 'op=OP(1, simulation_instance=T)\nop()\n' + new() + 'O.runOptimization()\n')
    s.equal('problem made with another simulation', 'op.simulation_instance is S', 'True', 'simulation of the optimization', AR, vocab=V)
    # direction
    for where, src in (('the problem', 'op=OP(1, is_maximization=True)\nop()\n' + new()), ('the optimization', new(', is_maximization=True'))):
        s = opt(an, src + 'O.runOptimization()\nf=op.fitness([fx])\n')
        s.equal('maximization asked of %s' % where, 'f', '[-(fx*cf)]', 'value minimised by the library where the objective is to be maximised', AR, vocab=V)
