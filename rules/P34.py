from .P28 import *
from .P28 import OPRE, OINP, V, ALGO, new, opt
from sa.terms import subterms
from sa import witness as W
from sa.interp import bt

RULE = ('after a run with logging the log of an optimization is the table of what its algorithm logged in that run, under the columns of the algorithm; the progress graph draws exactly one curve, the best objective value over the '
        'number of function evaluations, is saved under a file name with the algorithm and cleared afterwards; nothing is drawn unless asked for; the printed best individual is the champion')
AR = ['optimization:Optimization.runOptimization']
PY = 'matplotlib.pyplot.'
VOC = V | {'numpy.col', '.tolist', 'datetime.datetime.now', '.year', '.month', '.day', '.hour', '.minute', '.second'}


def uncast(v, ints):
    """the values of an array behind a conversion (to integers only where allowed)"""
    while v is not None and v.kind == 'app':
        h, a = v.a[0], v.a[1]
        if h.kind == 'attr' and h.a[1] in ('tolist', 'to_numpy', 'to_list', 'astype', 'copy', 'flatten') and (ints or not any('int' in show(x) for x in list(a) + [y for _, y in v.a[2]])):
            v = h.a[0]
        elif h.kind == 'ext' and h.a in ('numpy.array', 'numpy.asarray', 'pandas.Series') and a and (ints or not any('int' in show(y) for _, y in v.a[2])):
            v = a[0]
        elif h.kind == 'bi' and h.a in ('list', 'float'):
            v = a[0]
        else:
            break
    return v


def graph(an, name, call, oid, draws, runs=1):
    cols = ALGO[name][2]
    s = opt(an, new(', optimizer="%s"' % name) + 'O.runOptimization(optimization_log=True)\n' * (runs - 1) + 'O.runOptimization(%s)\n' % call + 'L=O.getOptimizationLog()\n')
    s.completes(oid, 'run of an optimization with a graph', AR, vocab=VOC)
    lg = s.calls('.get_log')
    ran = s.calls('.evolve')
    if not s.undecided and s.st is not None and len(ran) == runs and lg and s.events.index(lg[-1]) < s.events.index(ran[-1]):
        s.record(oid + ' log', 'violated', 'the log of run %d is not read: the last log read is that of an earlier run' % runs, AR, 'missing')
        return
    if s.undecided or s.st is None or len(lg) < runs:
        an.record(oid + ' log', 'undecided', 'reading of the log not recognised', AR)
        return
    s.bind('LOG', lg[-1].result)
    s.equal(oid + ' log columns', 'list(L.columns)', repr(cols), 'columns of the log', AR, vocab=VOC)
    want = {}
    for i, c in enumerate(cols):
        try:
            want[c] = uncast(s.val('L["%s"].values' % c), True)
        except Exception:
            want[c] = None
        w = app(ext('numpy.col'), (lg[-1].result, const(i)), (), 'ext')
        if want[c] is None or want[c].kind not in ('app', 'item', 'attr'):
            an.record(oid + ' log column ' + c, 'undecided', 'log not recognised', AR)
        else:
            s.record(oid + ' log column ' + c, 'ok' if want[c] is w else 'violated' if contained(want[c]) else 'undecided', 'column %s of the log is %s, required %s' % (c, show(want[c]), show(w)), AR, 'value')
    ev = [e for e in s.events if e.name.startswith(PY)]
    if not draws:
        s.record(oid + ' draws nothing', 'violated' if ev else 'ok', 'calls of the plotting library: %d' % len(ev), AR, 'value')
        return
    p = [e for e in ev if e.name == PY + 'plot']
    if not p or any(len(e.raw[0]) < 2 for e in p):
        s.record(oid + ' curve', 'violated' if not ev else 'undecided', 'no curve drawn', AR, 'missing')
        return
    s.record(oid + ' curve', 'ok' if len(p) == 1 else 'violated', 'number of curves: %d' % len(p), AR, 'value')
    for what, i, c, ints in (('abscissae', 0, 'Fevals', True), ('ordinates', 1, 'gbest' if name == 'pso' else 'Best', False)):
        got = uncast(raw(p[0], i, '?'), ints)
        w = app(ext('numpy.col'), (lg[-1].result, const(cols.index(c))), (), 'ext')
        known = got is not None and (contained(got) or W.different(got, app(ext('numpy.array'), (w,), (('dtype', bt('int')),), 'ext') if ints else w, {}) is not None)
        s.record('%s %s' % (oid, what), 'ok' if got is w else 'violated' if known else 'undecided', '%s of the curve: %s, required column %s of the log (%s)' % (what, show(got) if got is not None else None, c, show(w)), AR, 'value')
    names = [e.name for e in ev]
    sv = [e for e in ev if e.name == PY + 'savefig']
    s.record(oid + ' saved', 'ok' if len(sv) == 1 and names.index(PY + 'savefig') > names.index(PY + 'plot') else 'violated', 'graph saved %d times' % len(sv), AR, 'value')
    s.record(oid + ' cleared', 'ok' if any(n in (PY + 'clf', PY + 'close') for n in names[names.index(PY + 'savefig') if sv else 0:]) else 'violated', 'figure cleared after it was saved', AR, 'missing')
    if len(sv) == 1:
        s.bind('FN', raw(sv[0], 0, 'fname'))
        s.equal(oid + ' file', '(FN.startswith("optimization-%s-"), FN.endswith(".png"))' % name, '(True, True)', 'file name of the graph', AR, vocab=VOC)
    axes = {'xlabel': 'Number of function evaluations', 'ylabel': 'Objective function value'}
    for k, t in axes.items():
        e = [x for x in ev if x.name == PY + k]
        if len(e) == 1:
            s.bind('TX', raw(e[0], 0, k))
            s.equal(oid + ' ' + k, 'TX', repr(t), 'label of the axis', AR)


PURE = {'pandas.method.' + n for n in ('sort_values', 'sort_index', 'head', 'tail', 'drop_duplicates', 'round', 'abs', 'shift', 'cumsum', 'cummin', 'cummax', 'diff', 'clip')} | {'numpy.col', 'numpy.cols', 'numpy.array'}


def contained(v):
    """built only of columns of logs, conversions and operations that select, reorder or change rows"""
    for t in subterms(v):
        if t.kind == 'app' and not (t.a[0].kind == 'ext' and (t.a[0].a in PURE or t.a[0].a.startswith('pygmo.')) or t.a[0].kind == 'attr' and t.a[0].a[1] in ('get_log', 'extract', 'tolist')):
            return False
    return True


def run(an, tier):
    for name in ALGO:
        for call in ('save_optimization_graph=True', 'print_output=False, save_optimization_graph=True', 'print_output=True, report_frequency=10, optimization_log=True, save_optimization_graph=True'):
            graph(an, name, call, '%s %s' % (name, call), True)
        for call in ('', 'save_optimization_graph=False'):
            graph(an, name, call, '%s %s' % (name, call), False)
        graph(an, name, 'save_optimization_graph=True', name + ' second run', True, runs=2)
    # what is printed
    for flag in ('', 'print_output=True', 'print_output=False'):
        s = opt(an, new() + 'O.runOptimization(optimization_log=False%s)\n' % (flag and ', ' + flag))
        ev = s.calls('.evolve')
        if s.undecided or s.st is None or len(ev) != 1:
            an.record('printed %s' % flag, 'undecided', 'evolution not recognised', AR)
            continue
        s.bind('END', ev[0].result)
        x, f = s.val('END.champion_x'), s.val('END.champion_f')
        pr = [t for e in s.events if e.name == 'print' for a in e.raw[0] for t in subterms(a)]
        shown = x in pr and f in pr
        s.record('printed %s' % flag, 'ok' if shown == ('False' not in flag) else 'violated', 'best parameters and fitness printed: %s' % shown, AR, 'value')
