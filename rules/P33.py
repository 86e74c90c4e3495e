from .solve import *
from sa import witness

RULE = ('a plot of time series draws, for every series given for the two axes, one curve through exactly the values given, in the order given, under its own label, marker and line width; '
        'the horizontal range holds every abscissa; axis labels, grid, legend, file and display follow the arguments; the figure is cleared afterwards, the data are left alone and unknown columns are refused')
NESTED = True
AT = 'plotter:Plotter.plotTimeSeries'
AS = 'simulation:Simulation.plotTimeSeries'
INP = {**{'n%d' % i: num('n%d' % i) for i in range(20)}, 'lw': num('lw'), 'gr': sym('gr', 'bool')}
INP.update({k: strsym(k) for k in ('la', 'lb', 'lc', 'ma', 'mb', 'mc', 'xl', 'yl', 'fn', 'st')})
H = '''
t=Variable("t", us, "")
x=Variable("x10", ul, "")
y=Variable("x9", ud, "")
w=Variable("a", ul, "")
d=Domain("d", us, t, "")
for v in [y, x, w]:
    v.distributeOnDomain(d)
d._register([[n0, n1, n2, n3], [n4, n5, n6, n7], [n8, n9, n10, n11]])
u0=np.array([n12, n13])
u1=np.array([n14, n15])
u2=np.array([n16, n17])
keep=d.values["t"].to_dict(orient="list")
'''
COL = {c: ['n%d' % (4 * r + i) for r in range(3)] for i, c in enumerate(['t', 'x9', 'x10', 'a'])}
U = {'u%d' % i: ['n%d' % (12 + 2 * i), 'n%d' % (13 + 2 * i)] for i in range(3)}
PY = 'matplotlib.pyplot.'
NODRAW = {PY + n for n in ('xlim', 'ylim', 'xlabel', 'ylabel', 'title', 'grid', 'legend', 'savefig', 'show', 'clf', 'cla', 'close', 'figure')}


def curves(an, oid, call, xs, ys, at, labels=None, markers=None, lw='2.5', opts=None, pre='', **kw):
    """one scenario: the call draws the curves xs x ys"""
    s = an.scn(H + pre + call + '\n', DYN + 'import numpy as np\nfrom src.sloth.plotter import Plotter\n', **{**INP, **kw})
    s.completes(oid, 'plot of time series', at)
    if s.undecided or s.st is None:
        return s
    p = s.calls(PY + 'plot')
    if not p and all(e.name in NODRAW for e in s.events if e.name and e.name.startswith('matplotlib')):
        s.record(oid + ' curves', 'violated', 'no curve is drawn, %d required' % (len(xs) * len(ys)), at)
        return s
    if not p or any(len(e.raw[0]) != 2 for e in p):
        s.record(oid + ' curves', 'undecided', 'curves not recognised', at)
        return s
    want = [(x, j) for x in xs for j in range(len(ys))]
    if len(p) != len(want):
        s.record(oid + ' curves', 'violated', '%d curves drawn, %d required' % (len(p), len(want)), at)
        return s
    s.record(oid + ' curves', 'ok', '', at)
    for i, (e, (x, j)) in enumerate(zip(p, want)):
        for nm, k, v in (('abscissae', 0, x), ('ordinates', 1, ys[j])):
            g = elems(s, raw(e, k, '?'))
            if g is None and witness.is_vec(raw(e, k, '?')):
                s.bind('G', raw(e, k, '?'))
                s.equal(oid + ' curve %d %s' % (i, nm), 'G', 'np.array([%s])' % ', '.join(v), '%s of a curve' % nm, at)
                continue
            if g is None:
                s.record(oid + ' curve %d %s' % (i, nm), 'undecided', 'values of the curve not recognised', at)
                continue
            s.bind('G', tup(g))
            s.equal(oid + ' curve %d %s' % (i, nm), 'list(G)', '[%s]' % ', '.join(v), '%s of a curve' % nm, at)
        k = e.raw[1]
        s.bind('LA', k.get('label', NONE))
        s.bind('MA', k.get('marker', NONE))
        s.equal(oid + ' curve %d label' % i, 'LA', labels[j] if labels else 'None', 'label of a curve', at)
        s.equal(oid + ' curve %d marker' % i, 'MA', markers[j] if markers else 'None', 'marker of a curve', at)
        if 'linewidth' in k or 'lw' in k:
            s.bind('LW', k.get('linewidth', k.get('lw')))
            s.equal(oid + ' curve %d width' % i, 'LW', lw, 'line width of a curve', at)
        else:
            s.record(oid + ' curve %d width' % i, 'violated', 'line width not passed', at)
    o = {'xlabel': '"time"', 'ylabel': '"output"', 'legend': False, 'file': None, 'show': True, 'grid': 'False'}
    o.update(opts or {})
    names = [e.name for e in s.events]
    for lab in ('xlabel', 'ylabel'):
        es = s.calls(PY + lab)
        if len(es) != 1:
            s.record(oid + ' ' + lab, 'violated' if not es else 'undecided', '%d axis labels set' % len(es), at)
        else:
            s.bind('L', raw(es[0], 0, lab))
            s.equal(oid + ' ' + lab, 'L', o[lab], 'label of an axis', at)
    g = s.calls(PY + 'grid')
    if len(g) == 1:
        s.bind('L', raw(g[0], 0, 'visible') or TRUE)
        s.equal(oid + ' grid', 'L', o['grid'], 'grid', at)
    else:
        s.record(oid + ' grid', 'ok' if not g and o['grid'] == 'False' else 'violated', '%d grid calls' % len(g), at)

    last = max(i for i, n in enumerate(names) if n == PY + 'plot')
    clear = [i for i, n in enumerate(names) if n in (PY + 'clf', PY + 'close')]
    for nm, want in (('legend', o['legend']), ('savefig', o['file']), ('show', o['show'])):
        es = [i for i, n in enumerate(names) if n == PY + nm]
        ok = len(es) == (1 if want else 0) and all(last < i for i in es) and all(i < c for i in es for c in clear)
        s.record(oid + ' ' + nm, 'ok' if ok else 'violated', '%d calls of %s, %s required, after the curves and before the figure is cleared' % (len(es), nm, '1' if want else 'none'), at)
        if nm == 'savefig' and want and ok:
            s.bind('F', raw(s.events[es[0]], 0, 'fname'))
            s.equal(oid + ' file', 'F', want, 'file of the plot', at)
    if o['legend'] and o['file']:
        le, sa = names.index(PY + 'legend') if PY + 'legend' in names else -1, names.index(PY + 'savefig') if PY + 'savefig' in names else -1
        s.record(oid + ' legend saved', 'ok' if le < sa else 'violated', 'legend drawn before the plot is saved', at)
    s.record(oid + ' cleared', 'ok' if clear and clear[-1] > last else 'violated', 'the figure is cleared afterwards', at)
    s.equal(oid + ' data', 'd.values["t"].to_dict(orient="list")', 'keep', 'data after the plot', at)
    return s


def run(an, tier):
    mk = {'Plotter': ('pl=Plotter()\n', 'pl.plotTimeSeries(%s)', AT), 'Simulation': ('pl=Simulation("S", "")\n', 'pl.plotTimeSeries(%s)', [AS, AT])}
    for who, (pre, call, at) in mk.items():
        for xs, ys in ((['t'], ['x9']), (['t'], ['a', 'x9']), (['t'], ['x10', 'a', 'x9']), (['a'], ['t', 'x9'])):
            L = ['la', 'lb', 'lc'][:len(ys)]
            yl = '[%s]' % ', '.join('"%s"' % y for y in ys)
            forms = {'columns': 'x_data=[d["t", "%s"]], y_data=d["t", %s]' % (xs[0], yl), 'names': 'x_data="%s", y_data=%s, data=d' % (xs[0], yl),
                     'arrays': 'x_data=[np.array([%s])], y_data=[%s]' % (', '.join(COL[xs[0]]), ', '.join('np.array([%s])' % ', '.join(COL[y]) for y in ys))}
            for form, a in forms.items():
                oid = '%s %s over %s by %s' % (who, ','.join(ys), xs[0], form)
                X, Y = [COL[x] for x in xs], [COL[y] for y in ys]
                curves(an, oid + ' labelled', call % (a + ', labels=[%s]' % ', '.join(L)), X, Y, at, labels=L, pre=pre)
                curves(an, oid + ' plain', call % a, X, Y, at, pre=pre)
        full = ', labels=[la, lb], x_label=xl, y_label=yl, linewidth=lw, markers=[ma, mb], legend=True, grid=True, save_file=fn, show_plot=False'
        base = 'x_data="t", y_data=["x10", "a"], data=d'
        Y = [COL['x10'], COL['a']]
        curves(an, who + ' all options', call % (base + full), [COL['t']], Y, at, labels=['la', 'lb'], markers=['ma', 'mb'], lw='lw', pre=pre,
               opts={'xlabel': 'xl', 'ylabel': 'yl', 'legend': True, 'file': 'fn', 'show': False, 'grid': 'True'})
        for opt, kw, o in (('legend', 'legend=True', {'legend': True}), ('grid', 'grid=True', {'grid': 'True'}), ('file', 'save_file=fn', {'file': 'fn'}), ('hidden', 'show_plot=False', {'show': False}),
                           ('x label', 'x_label=xl', {'xlabel': 'xl'}), ('y label', 'y_label=yl', {'ylabel': 'yl'}), ('width', 'linewidth=lw', {}), ('markers', 'markers=[ma, mb]', {}), ('style', 'set_style=st', {})):
            curves(an, '%s %s' % (who, opt), call % (base + ', ' + kw), [COL['t']], Y, at, pre=pre, opts=o, lw='lw' if opt == 'width' else '2.5', markers=['ma', 'mb'] if opt == 'markers' else None)
        # options together, special options
        Z = [COL['t']]
        for bits in range(16):
            le, gr, fi, hi = (bool(bits >> i & 1) for i in range(4))
            kw = ''.join(k for k, f in ((', legend=True', le), (', grid=True', gr), (', save_file=fn', fi), (', show_plot=False', hi)) if f)
            curves(an, '%s options%s' % (who, kw), call % (base + kw), Z, Y, at, pre=pre, opts={'legend': le, 'grid': str(gr), 'file': 'fn' if fi else None, 'show': not hi})
        for kw, o in (('markers=[ma, None]', {'markers': ['ma', 'None']}), ('markers=[None, "o"]', {'markers': ['None', '"o"']}), ('markers=["", "x"], labels=["", "b"]', {'markers': ['""', '"x"'], 'labels': ['""', '"b"']}),
                      ('labels=[None, lb]', {'labels': ['None', 'lb']}), ('labels=[la, la], markers=[ma, ma]', {'labels': ['la', 'la'], 'markers': ['ma', 'ma']}), ('linewidth=0.5', {'lw': '0.5'}), ('linewidth=1', {'lw': '1'}), ('linewidth=0.0', {'lw': '0.0'}),
                      ('x_label="", y_label=""', {'opts': {'xlabel': '""', 'ylabel': '""'}}), ('labels=[la, lb], legend=False', {'labels': ['la', 'lb']}), ('save_file=None, show_plot=True, grid=False', {})):
            curves(an, '%s with %s' % (who, kw), call % (base + ', ' + kw), Z, Y, at, pre=pre, **o)
        curves(an, who + ' same column twice', call % 'x_data="t", y_data=["x10", "x10", "a"], data=d, labels=[la, lb, lc], markers=[ma, mb, mc]', Z, [COL['x10'], COL['x10'], COL['a']], at, pre=pre, labels=['la', 'lb', 'lc'], markers=['ma', 'mb', 'mc'])
        curves(an, who + ' over itself', call % 'x_data="x10", y_data=["x10", "t"], data=d', [COL['x10']], [COL['x10'], COL['t']], at, pre=pre)
        curves(an, who + ' abscissa twice', call % 'x_data=[u0, u0], y_data=[u0, u2], labels=[la, lb]', [U['u0'], U['u0']], [U['u0'], U['u2']], at, pre=pre, labels=['la', 'lb'])
        for args in ('LX=[u0, u1]\nLY=[u2, u1]', 'LX="t"\nLY=["x10", "a"]'):
            s = an.scn(H + pre + args + '\nLL=[la, lb]\nLM=[ma, mb]\nwas=[list(LX), list(LY)]\n' + call % ('x_data=LX, y_data=LY, labels=LL, markers=LM, data=d') + '\n', DYN + 'import numpy as np\nfrom src.sloth.plotter import Plotter\n', **INP)
            s.holds('%s arguments %s kept' % (who, args[:5]), 'len(LY) == 2 and LY[0] is was[1][0] and LY[1] is was[1][1] and len(LX) == len(was[0])', 'series given', at)
            s.equal('%s labels and markers %s kept' % (who, args[:5]), '(LL, LM)', '([la, lb], [ma, mb])', 'labels and markers given', at)
        # several abscissae
        curves(an, who + ' two abscissae', call % 'x_data=[u0, u1], y_data=[u2], labels=[la]', [U['u0'], U['u1']], [U['u2']], at, labels=['la'], pre=pre)
        # the horizontal range holds every abscissa
        for u in ('v0, v1', 'v1, v0', 'v0, v1, v2', 'v2, v1, v0', 'v3'):
            for mm in ('', ', markers=[ma]'):
                oid = '%s range of %s%s' % (who, u, ' with markers' if mm else '')
                s = an.scn(H + pre + 'v0=np.array([1.0, 7.0])\nv1=np.array([3.0, 2.0])\nv2=np.array([-4.0, 9.0])\nv3=np.array([5.0, -6.0])\n' + call % ('x_data=[%s], y_data=[u2]%s' % (u, mm)) + '\n',
                           DYN + 'import numpy as np\nfrom src.sloth.plotter import Plotter\n', **INP)
                s.completes(oid, 'plot of time series', at)
                if s.undecided or s.st is None:
                    continue
                lim = s.calls(PY + 'xlim')
                if lim:      # without a call matplotlib covers all curves
                    a, b = raw(lim[-1], 0, 'left'), raw(lim[-1], 1, 'right')
                    if b is None and a is not None:
                        ab = elems(s, a)
                        a, b = ab if ab is not None and len(ab) == 2 else (None, None)
                    if a is None or b is None:
                        s.record(oid, 'undecided', 'horizontal range not recognised', at)
                        continue
                    s.bind('LO', a)
                    s.bind('HI', b)
                    s.holds(oid, 'all(LO <= x and x <= HI for v in [%s] for x in v.reshape(-1))' % u, 'horizontal range of the plot holds every abscissa', at)
                else:
                    s.record(oid, 'ok', '', at)
        # two plots in a row do not mix
        s = an.scn(H + pre + call % (base + ', labels=[la, lb]') + '\n' + call % 'x_data=[u0], y_data=[u1], labels=[lc]' + '\n', DYN + 'import numpy as np\nfrom src.sloth.plotter import Plotter\n', **INP)
        names = [e.name for e in s.events] if not s.undecided else []
        p = [i for i, n in enumerate(names) if n == PY + 'plot']
        ok = len(p) == 3 and any(p[1] < i < p[2] for i, n in enumerate(names) if n in (PY + 'clf', PY + 'close', PY + 'figure'))
        s.record(who + ' plots in a row', 'ok' if ok else 'undecided' if not p else 'violated', 'a plot starts from an empty figure', at)
        # unknown columns
        for a in ('x_data="q", y_data=["x10"], data=d', 'x_data="t", y_data=["x10", "q"], data=d', 'x_data="t", y_data=["x10"], data=3', 'x_data="q", y_data=[u0], data=d', 'x_data=[u0], y_data=["q"], data=d'):
            s = an.scn(H + pre + 'ok="no error"\ntry:\n    %s\nexcept Exception as e:\n    ok=type(e).__name__\n' % (call % a), DYN + 'import numpy as np\nfrom src.sloth.plotter import Plotter\n', **INP)
            s.equal('%s unknown column %s' % (who, a), 'ok', '"ValueError"', 'plot of a column that does not exist', at)
            if not s.undecided:
                s.record('%s nothing drawn %s' % (who, a), 'violated' if s.calls(PY + 'plot') else 'ok', 'curves of an erroneous plot', at)
    # a simulation uses the plotter it was given
    P = '''
class Rec:
    def plotTimeSeries(self, x_data, y_data, set_style="s", x_label="", y_label="", labels=None, linewidth=0.0, markers=None, grid=None, save_file=None, show_plot=None, data=None, legend=None):
        self.got=[x_data, y_data, set_style, x_label, y_label, labels, linewidth, markers, grid, save_file, show_plot, data, legend]
r=Rec()
S=Simulation("S", "", plotter=r)
'''
    names = ['x_data', 'y_data', 'set_style', 'x_label', 'y_label', 'labels', 'linewidth', 'markers', 'grid', 'save_file', 'show_plot', 'data', 'legend']
    s = an.scn(H + P + 'L=[la]\nMM=[ma]\nX=[u0]\nY=[u1]\nS.plotTimeSeries(x_data=X, y_data=Y, set_style=st, x_label=xl, y_label=yl, labels=L, linewidth=lw, markers=MM, grid=gr, save_file=fn, show_plot=False, data=d, legend=True)\n',
               DYN + 'import numpy as np\n', **INP)
    s.completes('given plotter', 'plot with the given plotter', AS)
    for i, (n, v) in enumerate(zip(names, ['X', 'Y', 'st', 'xl', 'yl', 'L', 'lw', 'MM', 'gr', 'fn', 'False', 'd', 'True'])):
        s.holds('given plotter ' + n, 'r.got[%d] is %s or r.got[%d] == %s' % (i, v, i, v), 'argument passed to the given plotter', AS)
