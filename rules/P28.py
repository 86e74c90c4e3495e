from .solve import *

RULE = ('the algorithm an optimization uses is the selected one, built with exactly the configured options (given by dictionary or file) and the documented defaults for the rest; unknown names, options of a wrong kind and a missing '
        'simulation configuration are rejected; the log has the columns of the selected algorithm')
AT = ['optimization:Optimization.__init__', 'optimization:Optimization._setOptimizer']
OPRE = DYN + '''
import numpy as np
from src.sloth.optimization import Optimization, OptimizationProblem
class OP(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        self.simulation_instance[self.simulation_instance.problem.models["M1"].p].setValue(x[0])
        return [x[0]*cf]
m=Lin("M1")
P=Problem("P","")
P.addModels(m)
P.resolve()
S=Simulation("S","")
S.setProblem(P)
S.setConfigurations()
op=OP(1)
op()
'''
OINP = {k: num(k) for k in ('tic', 'pv', 'hv', 'cf', 'lo', 'hi', 'lo2', 'hi2', 'fx')}
OINP['fname'] = strsym('fname')
DEF = {'number_of_individuals': '100', 'number_of_generations': '600', 'crossover_rate': '0.6', 'mutation_rate': '0.04', 'elitism': '1', 'crossover_type': '"exponential"', 'mutation_type': '"gaussian"', 'selection_type': '"tournament"',
       'selection_param': '4', 'scale_factor': '0.5', 'variant_de': '10', 'ftol_de': '1e-8', 'xtol_de': '1e-8', 'omega_pso': '0.7298', 'eta1_pso': '2.05', 'eta2_pso': '2.05', 'variant_pso': '5', 'max_v_pso': '0.5',
       'neighborhood_type_pso': '2', 'neighborhood_param_pso': '4'}
SET = {k: 'o%d' % i for i, k in enumerate(DEF)}
for v in SET.values():
    OINP[v] = obj(v)
# option of the algorithm -> (position in its signature, configured value)
ALGO = {
    'ga': ('pygmo.sga', {'gen': (0, 'number_of_generations'), 'cr': (1, 'crossover_rate'), 'm': (3, 'mutation_rate'), 'param_s': (5, 'selection_param'), 'crossover': (6, 'crossover_type'), 'mutation': (7, 'mutation_type'), 'selection': (8, 'selection_type')}, ['Gen', 'Fevals', 'Best', 'Improvement']),
    'sade': ('pygmo.de1220', {'gen': (0, 'number_of_generations'), 'ftol': (3, 'ftol_de'), 'xtol': (4, 'xtol_de')}, ['Gen', 'Fevals', 'Best', 'F', 'CR', 'Variant', 'dx', 'df']),
    'de': ('pygmo.de', {'gen': (0, 'number_of_generations'), 'F': (1, 'scale_factor'), 'CR': (2, 'crossover_rate'), 'variant': (3, 'variant_de'), 'ftol': (4, 'ftol_de'), 'xtol': (5, 'xtol_de')}, ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']),
    'pso': ('pygmo.pso', {'gen': (0, 'number_of_generations'), 'omega': (1, 'omega_pso'), 'eta1': (2, 'eta1_pso'), 'eta2': (3, 'eta2_pso'), 'max_vel': (4, 'max_v_pso'), 'variant': (5, 'variant_pso'), 'neighb_type': (6, 'neighborhood_type_pso'), 'neighb_param': (7, 'neighborhood_param_pso')},
            ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']),
}
V = {'json.load', 'json.loads', '.read', 'open', '.__enter__', 'in', 'keyin', 'pygmo.sga', 'pygmo.de', 'pygmo.de1220', 'pygmo.pso', '.get_log', '.extract', '.evolve', '.champion_x', '.champion_f'}


def opt(an, call, pre='', **inp):
    return an.scn(pre + call, OPRE, **dict(OINP, **inp))


def new(opts='', conf=None, params='["p_M1"]'):
    return 'O=Optimization(simulation=S, optimization_problem=op, optimization_parameters=%s, constraints=[lo, hi]%s%s)\n' % (params, opts, '' if conf is None else ', optimization_configuration=%s' % conf)


def algorithm(an, s, oid, name, want):
    """the algorithm built is the selected one, with the given options"""
    head, opts, _ = ALGO[name]
    built = [e for n in ALGO.values() for e in s.calls(n[0])]
    if s.undecided or s.st is None or len(built) != 1:
        s.record(oid, 'undecided' if s.undecided or not built else 'violated', s.undecided or 'algorithms built: %s' % [e.name for e in built], AT, 'value')
        return
    if built[0].name != head:
        s.record(oid, 'violated', 'algorithm built: %s, selected: %s' % (built[0].name, name), AT, 'value')
        return
    s.record(oid, 'ok', 'algorithm', AT)
    al = s.calls('pygmo.algorithm')
    for o, (pos, key) in opts.items():
        v = raw(built[0], pos, o)
        if v is None:
            s.record('%s option %s' % (oid, o), 'violated', 'option %s (%s) is not given to the algorithm' % (o, key), AT, 'value')
            continue
        s.bind('OPT', v)
        s.equal('%s option %s' % (oid, o), 'OPT', want[key], 'option %s of the algorithm (configured %s)' % (o, key), AT, vocab=V)
    extra = set(built[0].raw[1]) - set(opts) - {'eta_c', 'param_m', 'seed', 'memory', 'variant_adptv', 'allowed_variants'}
    if extra:
        s.record(oid + ' other options', 'undecided', 'other options given: %s' % sorted(extra), AT)
    if len(al) == 1 and built[0].result is not None:
        s.bind('UDA', raw(al[0], 0, 'uda'))
        s.bind('BUILT', built[0].result)
        s.equal(oid + ' wrapped', 'UDA is BUILT', 'True', 'algorithm used', AT, vocab=V)
        s.bind('ALG', al[0].result)
        s.equal(oid + ' mechanism', 'O.optimization_mechanism is ALG', 'True', 'mechanism of the optimization', AT, vocab=V)


def run(an, tier):
    for name, (head, opts, cols) in ALGO.items():
        o = ', optimizer="%s"' % name
        for conf, want in ((None, DEF), ('{}', DEF), ('{%s}' % ', '.join('"%s": %s' % kv for kv in SET.items()), SET)):
            s = opt(an, new(o, conf))
            oid = '%s with %s' % (name, {None: 'no configuration', '{}': 'an empty configuration'}.get(conf, 'every option'))
            s.completes(oid + ' accepted', 'optimization', AT)
            algorithm(an, s, oid, name, want)
            s.equal(oid + ' selected', 'O.optimizer', '"%s"' % name, 'selected optimizer', AT)
            for k in DEF:
                s.equal('%s configured %s' % (oid, k), 'O.optimization_configuration["%s"]' % k, want[k], 'configured %s' % k, AT)
        for k in sorted({v[1] for v in opts.values()} | {'number_of_individuals'}):
            s = opt(an, 'c={"%s": %s}\n' % (k, SET[k]) + new(o, 'c'))
            algorithm(an, s, '%s with %s' % (name, k), name, dict(DEF, **{k: SET[k]}))
            s.equal('%s given %s' % (name, k), 'c', '{"%s": %s}' % (k, SET[k]), 'dictionary of the caller', AT)
        # a file
        s = opt(an, new(o, 'fname'))
        s.completes(name + ' from a file accepted', 'configuration from a file', AT, vocab={'open'})
        ld, op = s.calls('json.load') or s.calls('json.loads'), s.calls('open')
        if unread(s):
            s.record(name + ' from a file', 'violated', 'the configuration file is never read', AT, 'missing')
        elif s.undecided or s.st is None or len(ld) != 1 or len(op) != 1:
            an.record(name + ' from a file', 'undecided', 'reading of the file not recognised', AT)
        else:
            s.record(name + ' file read', 'ok' if op[0].args[:1] == (strsym('fname'),) else 'violated', 'file opened: %s' % [show(a) for a in op[0].args], AT, 'value')
            s.bind('LOADED', ld[0].result)
            algorithm(an, s, name + ' from a file', name, {k: 'LOADED["%s"] if "%s" in LOADED else %s' % (k, k, v) for k, v in DEF.items()})
        # definite contents, also zero, none and empty ones, by file and by dictionary
        for what, val in (('zeros', '0'), ('small numbers', '1e-12'), ('negative numbers', '-1.5'), ('large numbers', '1e6')):
            keys = [k for k, v in DEF.items() if '"' not in v]
            want = dict(DEF, **{k: val for k in keys})
            d = '{%s}' % ', '.join('"%s": %s' % (k, val) for k in keys)
            for how, c, ans in (('file', 'fname', {'json.load': d, 'json.loads': d}), ('dictionary', d, {})):
                s = opt(an, new(o, c), _answers=ans)
                algorithm(an, s, '%s with %s by %s' % (name, what, how), name, want)
                for k in DEF:
                    s.equal('%s with %s by %s configured %s' % (name, what, how, k), 'O.optimization_configuration["%s"]' % k, want[k], 'configured %s' % k, AT)
        # two optimizations do not share their configuration
        s = opt(an, 'c={"number_of_generations": o1}\n' + new(o, 'c') + 'Q=O\n' + new(o) + 'Q.optimization_configuration["crossover_rate"]=o2\n')
        s.equal(name + ' separate configurations', '(O.optimization_configuration["number_of_generations"], O.optimization_configuration["crossover_rate"], c)', '(600, 0.6, {"number_of_generations": o1})', 'configuration of another optimization', AT)
        # the log of a run
        s = opt(an, new(o) + 'O.runOptimization()\n')
        s.completes(name + ' run', 'run of an optimization', 'optimization:Optimization.runOptimization', vocab=V)
        fr, ex = s.calls('pandas.DataFrame'), s.calls('.extract')
        at = 'optimization:Optimization.runOptimization'
        if s.undecided or s.st is None or len(ex) != 1:
            an.record(name + ' log', 'undecided', 'log not recognised', at)
        else:
            s.bind('EXT', raw(ex[0], 0, 't'))
            s.bind('LOG', ex[0].result)
            s.record(name + ' log of the algorithm', 'ok' if show(raw(ex[0], 0, 't')) == head else 'violated', 'log of %s read, algorithm %s' % (show(raw(ex[0], 0, 't')), head), at, 'value')
            s.equal(name + ' log columns', 'list(O.getOptimizationLog().columns)', repr(cols), 'columns of the log', at, vocab=V | {'pandas.DataFrame', '.columns', 'list'})
    # the default is differential evolution
    s = opt(an, new())
    algorithm(an, s, 'default', 'de', DEF)
    # names that are not offered
    for bad in ('"GA"', '"nsga2"', '""', 'bad', 'None', '3', '["de"]'):
        s = opt(an, new(', optimizer=%s' % bad), bad=strsym('bad'))
        s.rejects('optimizer ' + bad, ('UnexpectedValueError',), 'optimizer that is not offered', AT)
    for bad in ('3', '[("number_of_generations", 3)]', 'm'):
        s = opt(an, new('', bad))
        s.rejects('configuration ' + bad, ('AbsentRequiredObjectError',), 'configuration of a wrong kind', AT)
    # saved options
    s = opt(an, new('', '{"scale_factor": o1}') + 'O.saveConfigurations(fname)\n')
    at = 'optimization:Optimization.saveConfigurations'
    s.completes('save', 'saving the configuration', at, vocab={'open'})
    d, op = s.calls('json.dump'), s.calls('open')
    if s.undecided or s.st is None or len(d) != 1 or len(op) != 1:
        an.record('saved', 'undecided', 'saving not recognised', at)
    else:
        s.record('saved file', 'ok' if op[0].args[:1] == (strsym('fname'),) else 'violated', 'file opened: %s' % [show(a) for a in op[0].args], at, 'value')
        s.bind('DUMPED', raw(d[0], 0, 'obj'))
        s.equal('saved options', 'DUMPED', '{%s}' % ', '.join('"%s": %s' % (k, 'o1' if k == 'scale_factor' else v) for k, v in DEF.items()), 'options saved', at)
