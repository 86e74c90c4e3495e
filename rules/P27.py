from .solve import *

RULE = ('a domain keeps one table per independent variable whose columns are the independent variables followed by the distributed objects in order of distribution; registered rows are appended unchanged under them, '
        'rows of another width are rejected, a reset empties the tables, renaming changes exactly the named labels, access by label gives that column')
NESTED = True
AT = ['core.domain:Domain']
AR = ['core.domain:Domain._register']
INP = {**{k: num(k) for k in ('tic', 'pv', 'hv')}}
H = 't=Variable("t", us, "")\nz=Variable("z", ul, "")\nx=Variable("x10", ul, "")\ny=Variable("x9", ud, "")\nw=Variable("a", ul, "")\n'


def scn(an, src, **kw):
    return an.scn(H + src, DYN + '\nimport numpy as np\n', **{**INP, **kw})


def table(s, oid, tab, names, rows, what, at=AT):
    """the table has the columns `names` and the given rows"""
    s.equal(oid + ' columns', 'list(d.values["%s"].columns)' % tab, repr(list(names)), 'columns: ' + what, at)
    s.equal(oid + ' table', 'd.values["%s"].to_dict(orient="list")' % tab, '{%s}' % ', '.join('"%s": [%s]' % (n, ', '.join(r[i] for r in rows)) for i, n in enumerate(names)), 'contents: ' + what, at)


def run(an, tier):
    # columns follow the order of distribution, however the objects are distributed
    for how in ('v.distributeOnDomain(d)', 'd._distributeOnDomain(v)\n    d._setDomain()'):
        for order in (('y', 'x', 'w'), ('x', 'w', 'y'), ('w',), ('w', 'y')):
            real = {'x': 'x10', 'y': 'x9', 'w': 'a'}
            s = scn(an, 'd=Domain("d", us, t, "")\nfor v in [%s]:\n    %s\n' % (', '.join(order), how))
            oid = 'columns %s by %s' % (','.join(order), how[:1])
            s.completes(oid, 'distribution on a domain', AT)
            table(s, oid, 't', ['t'] + [real[o] for o in order], [], 'new domain', AT)
            s.equal(oid + ' objects', 'list(d.dependent_objs.values())', '[%s]' % ', '.join(order), 'objects of the domain', AT)
            if how[0] == 'v':
                s.equal(oid + ' owners', '[v.domain is d for v in [%s]]' % ', '.join(order), repr([True] * len(order)), 'domain of a distributed object', 'core.variable:Variable.distributeOnDomain')
    D = 'd=Domain("d", us, t, "")\nfor v in [y, x, w]:\n    v.distributeOnDomain(d)\n'
    col = ['t', 'x9', 'x10', 'a']
    def lit(rows):
        return '[%s]' % ', '.join('[%s]' % ', '.join(r) for r in rows)
    # registration: one, two or three calls of one or several rows, as lists or arrays
    N = {'n%d' % i: num('n%d' % i) for i in range(24)}

    def rows_of(k, w=4):
        return [['n%d' % (i * w + j) for j in range(w)] for i in range(k)]
    for parts in ([1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1], [2, 1, 2]):
        for wrap in ('%s', 'np.array(%s)'):
            rows = rows_of(sum(parts))
            src, k = D, 0
            for n in parts:
                src += 'v%d=%s\nk%d=%s\nd._register(v%d)\n' % (k, wrap % lit(rows[k:k + n]), k, wrap % lit(rows[k:k + n]), k)
                k += n
            s = scn(an, src, **N)
            oid = 'rows %s %s' % ('+'.join(map(str, parts)), 'array' if 'np' in wrap else 'list')
            s.completes(oid, 'registration', AR)
            table(s, oid, 't', col, rows, 'rows appended in order', AR)
            k = 0
            for n in parts:
                s.equal(oid + ' given %d' % k, 'v%d' % k if 'np' not in wrap else 'v%d.tolist()' % k, lit(rows[k:k + n]), 'rows of the caller', AR)
                k += n
            s.equal(oid + ' access one', 'd["t", "x10"].tolist()', '[[%s]]' % ', '.join(r[2] for r in rows), 'access by label', 'core.domain:Domain.__getitem__')
            s.equal(oid + ' access two', 'd[["t"], ["a", "t"]].tolist()', '[[%s], [%s]]' % (', '.join(r[3] for r in rows), ', '.join(r[0] for r in rows)), 'access by labels', 'core.domain:Domain.__getitem__')
    # rows of another width
    for w in (1, 2, 3, 5, 6):
        rows = rows_of(2)
        s = scn(an, D + 'd._register(%s)\nok=True\ntry:\n    d._register([%s])\nexcept Exception as e:\n    ok=False\n' % (lit(rows), lit([['n%d' % (10 + j) for j in range(w)]])[1:-1]), **N)
        oid = 'row of width %d' % w
        s.equal(oid + ' refused', 'ok', 'False', 'row of another width', AR)
        table(s, oid, 't', col, rows, 'after a row of another width', AR)
    for w in (1, 2, 3, 5, 6):
        s = scn(an, D + 'ok=True\ntry:\n    d._register(%s)\nexcept Exception as e:\n    ok=False\n' % lit(rows_of(2, w)), **N)
        oid = 'first rows of width %d' % w
        s.equal(oid + ' refused', 'ok', 'False', 'first rows of another width', AR)
        table(s, oid, 't', col, [], 'after first rows of another width', AR)
    # a table of one column: a domain without distributed objects
    for parts in ([1], [1, 1], [2, 1], [1, 1, 1]):
        rows, src, k = rows_of(sum(parts), 1), 'd=Domain("d", us, t, "")\nd()\n', 0
        for n in parts:
            src += 'd._register(%s)\n' % lit(rows[k:k + n])
            k += n
        s = scn(an, src, **N)
        s.completes('single column ' + '+'.join(map(str, parts)), 'registration of one column', AR)
        table(s, 'single column ' + '+'.join(map(str, parts)), 't', ['t'], rows, 'rows of one column', AR)
    # order of the independent variables
    for names in (('z', 't'), ('t', 'z'), ('z', 't', 'a')):
        s = scn(an, 'q=Variable("a", ul, "")\nd=Domain("d", us, [%s], "")\nfor v in [y, x]:\n    v.distributeOnDomain(d)\nd._register([[%s]])\n' % (', '.join(n.replace('a', 'q') for n in names), ', '.join('n%d' % i for i in range(2 + len(names)))), **N)
        oid = 'independent ' + ','.join(names)
        s.completes(oid, 'registration', AR)
        s.equal(oid + ' tables', 'list(d.values)', repr(list(names)), 'tables in the order of the independent variables', AT)
        table(s, oid, names[-1], list(names) + ['x9', 'x10'], [['n%d' % i for i in range(2 + len(names))]], 'rows of the last independent variable', AR)
        for n in names[:-1]:
            table(s, oid + ' ' + n, n, list(names) + ['x9', 'x10'], [], 'table of another independent variable', AR)
    # several independent variables: a table for each
    D2 = 'd=Domain("d", us, [t, z], "")\nfor v in [y, x]:\n    v.distributeOnDomain(d)\n'
    col2 = ['t', 'z', 'x9', 'x10']
    s = scn(an, D2)
    for tab in 'tz':
        table(s, 'two independent new ' + tab, tab, col2, [], 'new table', AT)
    s.equal('two independent tables', 'list(d.values)', '["t", "z"]', 'tables', AT)
    for var, tab in (('', 'z'), (', t', 't'), (', z', 'z')):
        rows = rows_of(3)
        s = scn(an, D2 + 'd._register(%s%s)\nd._register(%s%s)\n' % (lit(rows[:2]), var, lit(rows[2:]), var), **N)
        oid = 'two independent registered' + var
        s.completes(oid, 'registration', AR)
        table(s, oid, tab, col2, rows, 'rows of the independent variable', AR)
        table(s, oid + ' other', 'tz'.replace(tab, ''), col2, [], 'table of the other independent variable', AR)
    s = scn(an, D2 + 'd._register(%s, t)\nd._register(%s, z)\n' % (lit(rows_of(3)[:1]), lit(rows_of(3)[1:])), **N)
    table(s, 'two tables t', 't', col2, rows_of(3)[:1], 'rows of the first variable', AR)
    table(s, 'two tables z', 'z', col2, rows_of(3)[1:], 'rows of the second variable', AR)
    s.equal('access over tables', 'd[["z", "t"], "x9"][1].tolist()', '[n2]', 'access by labels of two variables', 'core.domain:Domain.__getitem__')
    rows = rows_of(2)
    s = scn(an, D2 + 'd._register(%s, t)\nd._register(%s, z)\n' % (lit(rows[:1]), lit(rows[1:])), **N)
    s.equal('access order', '[c.tolist() for c in d[["t", "z"], ["x10", "x9"]]]', '[[n3], [n2], [n7], [n6]]', 'access by several labels of several variables', 'core.domain:Domain.__getitem__')
    # access between changes of the tables
    for oid, change, want in (('rows appended', 'd._register(%s)' % lit(rows_of(2)[1:]), ['n2', 'n6']), ('reset and registered', 'd()\nd._register(%s)' % lit(rows_of(2)[1:]), ['n6']),
                              ('renamed', 'd._renameHeaders({"x9": "x10", "x10": "x9"})', ['n1'])):
        for how in ('d["t", "x10"]', 'd[["t"], ["x10"]]', 'd[["t"], "x10"]'):
            s = scn(an, D + 'd._register(%s)\nfirst=%s.tolist()\n%s\nr=%s.tolist()\n' % (lit(rows_of(1)), how, change, how), **N)
            s.completes('accessed before %s by %s' % (oid, how), 'access by label', 'core.domain:Domain.__getitem__')
            s.equal('accessed before %s by %s first' % (oid, how), 'first', '[[n2]]', 'access before the change', 'core.domain:Domain.__getitem__')
            s.equal('accessed before %s by %s then' % (oid, how), 'r', '[[%s]]' % ', '.join(want), 'access after the change', 'core.domain:Domain.__getitem__')
    s = scn(an, D + 'k=Domain("d", us, t, "")\nfor v in [y, x, w]:\n    v.distributeOnDomain(k)\nd._register(%s)\nk._register(%s)\n' % (lit(rows_of(1)), lit(rows_of(2)[1:])), **N)
    s.equal('access of two domains', '(d["t", "a"].tolist(), k["t", "a"].tolist(), d["t", "x9"].tolist())', '([[n3]], [[n7]], [[n1]])', 'access by label of two domains', 'core.domain:Domain.__getitem__')
    # reset
    for reset in ('d._reset()', 'd()', 'd._setDomain()'):
        s = scn(an, D + 'd._register(%s)\n%s\n' % (lit(rows_of(2)), reset), **N)
        s.completes('reset ' + reset, 'reset', 'core.domain:Domain._reset')
        table(s, 'reset ' + reset, 't', col, [], 'after a reset', 'core.domain:Domain._reset')
        s = scn(an, D + 'd._register(%s)\n%s\nd._register(%s)\n' % (lit(rows_of(3)[:2]), reset, lit(rows_of(3)[2:])), **N)
        table(s, 'reset %s and registered' % reset, 't', col, rows_of(3)[2:], 'after a reset and a registration', 'core.domain:Domain._reset')
    # distributing one more object
    s = scn(an, 'd=Domain("d", us, t, "")\ny.distributeOnDomain(d)\nx.distributeOnDomain(d)\ny.distributeOnDomain(d)\nw.distributeOnDomain(d)\n')
    table(s, 'distributed twice', 't', col, [], 'object distributed twice', AT)
    # renaming
    AN = 'core.domain:Domain._renameHeaders'
    for m, new in (('{"x9": "alpha"}', ['t', 'alpha', 'x10', 'a']), ('{"t": "time", "a": "x"}', ['time', 'x9', 'x10', 'x']), ('{"nothing": "q"}', col), ('{}', col), ('{"x9": "x10", "x10": "x9"}', ['t', 'x10', 'x9', 'a'])):
        rows = rows_of(3)
        s = scn(an, D + 'm=%s\nd._register(%s)\nd._renameHeaders(m)\n' % (m, lit(rows)), **N)
        oid = 'renamed ' + m
        s.completes(oid, 'renaming', AN)
        table(s, oid, 't', new, rows, 'renamed', AN)
        s.equal(oid + ' map', 'm', m, 'names given by the caller', AN)
        s = scn(an, D + 'd._register(%s)\nd._renameHeaders(%s)\nd._register(%s)\n' % (lit(rows[:1]), m, lit(rows[1:])), **N)
        table(s, oid + ' then registered', 't', new, rows, 'rows after renaming', AN)
    s = scn(an, D2 + 'd._register(%s, t)\nd._register(%s, z)\nd._renameHeaders({"x9": "alpha"})\n' % (lit(rows_of(3)[:1]), lit(rows_of(3)[1:])), **N)
    table(s, 'renamed in t', 't', ['t', 'z', 'alpha', 'x10'], rows_of(3)[:1], 'renamed in every table', AN)
    table(s, 'renamed in z', 'z', ['t', 'z', 'alpha', 'x10'], rows_of(3)[1:], 'renamed in every table', AN)
    for m, new in (('{"x9": "x10", "x10": "x9"}', ['t', 'z', 'x10', 'x9']), ('{"x9": "x10", "x10": "q"}', ['t', 'z', 'x10', 'q'])):
        s = scn(an, D2 + 'd._renameHeaders(%s)\nd._register(%s, t)\n' % (m, lit(rows_of(1))), **N)
        table(s, 'renamed before rows %s' % m, 't', new, rows_of(1), 'rows after renaming', AN)
        table(s, 'renamed before rows %s other' % m, 'z', new, [], 'other table after renaming', AN)
    # two domains do not share anything
    s = scn(an, 'd=Domain("d", us, t, "")\nk=Domain("k", us, z, "")\ny.distributeOnDomain(d)\nx.distributeOnDomain(k)\nd._register([[n0, n1]])\nk._register([[n2, n3], [n4, n5]])\nk._renameHeaders({"x10": "q"})\n', **N)
    table(s, 'two domains first', 't', ['t', 'x9'], [['n0', 'n1']], 'first domain', AT)
    s.equal('two domains second', 'k.values["z"].to_dict(orient="list")', '{"z": [n2, n4], "q": [n3, n5]}', 'second domain', AT)
    s.equal('two domains objects', '(list(d.dependent_objs), list(k.dependent_objs), list(d.independent_vars), list(k.independent_vars))', '(["x9"], ["x10"], ["t"], ["z"])', 'objects of the domains', AT)
