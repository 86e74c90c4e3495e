"""prettytable.PrettyTable: a header and a list of rows, printed as a text that depends on nothing else."""
from . import interp as I
from . import models as M
from . import numerics as N
from .terms import *  # noqa: F401,F403
from .interp import ext, bi  # noqa: F401

PT = 'prettytable.PrettyTable'


def is_table(ip, v):
    return v.kind == 'r' and v.a in ip.st.heap and ip.h(v).kind == 'ext' and ip.h(v).meta.get('table')


def header(ip, l, names):
    """check and store the header of a table"""
    s = N.seq_of(ip, names)
    if s is None:
        s = ip.try_items(names) if names.kind == 'r' else None
    if s is None:
        ip.raise_builtin('TypeError', 'field names are not a list')
    for x in s:
        if x.kind != 's':
            return
    if len(set(s)) != len(s):
        ip.raise_builtin('ValueError', 'field names must be unique')
    rows = ip.h(l).data['__rows__']
    if any(len(r.a) != len(s) for r in rows.a if r.kind == 't'):
        ip.raise_builtin('ValueError', 'field name list has incorrect number of values')


def new(ip, args, kw):
    kw = dict(kw)
    f = args[0] if args else kw.pop('field_names', NONE)
    kw.pop('field_names', None)
    l = ip.alloc('ext', {'field_names': ip.new_list([]), '__rows__': mk('lst', ())}, meta={'term': ext(PT), 'head': ext(PT), 'table': True})
    if f is not NONE:
        header(ip, l, f)
        ip.mut(l).data['field_names'] = f
    for k, v in kw.items():
        ip.mut(l).data[k] = v
    return l


def add(ip, l, row):
    row = ip.simp(row)
    if row.kind == 'g':
        return ip.split(row, lambda r: add(ip, l, r))
    s = N.seq_of(ip, row)
    if s is None and row.kind == 'r':
        s = ip.try_items(row)
    if s is None and row.kind in ('c', 's'):
        ip.raise_builtin('TypeError', 'a row is a list')
    r = tup([ip.freeze(x) for x in s]) if s is not None else row
    f = N.seq_of(ip, ip.h(l).data['field_names'])
    if s is not None and f and len(f) != len(s):
        ip.raise_builtin('ValueError', 'row has incorrect number of values (actual) %d!=%d (expected)' % (len(s), len(f)))
    o = ip.mut(l)
    o.data['__rows__'] = mk('lst', o.data['__rows__'].a + (r,))
    return NONE


def method(ip, l, name, args, kw):
    if name == 'add_row':
        row = args[0] if args else kw.get('row', NONE)
        ip.events.append(I.Event(ip.st.pc, attr(ext(PT), 'add_row'), (ip.freeze(row),), (), ip.site(), NONE, (tuple(args), dict(kw))))
        return add(ip, l, row)
    if name == 'add_rows':
        for r in ip.iter_items(args[0] if args else kw['rows']):
            method(ip, l, 'add_row', [r], {})
        return NONE
    if name in ('clear', 'clear_rows'):
        o = ip.mut(l)
        o.data['__rows__'] = mk('lst', ())
        if name == 'clear':
            o.data['field_names'] = ip.new_list([])
        return NONE
    if name in ('get_string', '__str__') and not args and not kw:
        return text(ip, l)
    return None


def text(ip, l):
    o = ip.h(l)
    return sstr([app(ext('prettytable.text'), (ip.freeze(o.data['field_names']), o.data['__rows__']))])


_call_ext, _ext_attr, _to_str1 = M.call_ext, M.ext_attr, M.to_str1


def call_ext(ip, head, args, kw):
    if head.kind == 'ext' and head.a == PT:
        return new(ip, args, kw)
    if head.kind == 'attr' and is_table(ip, head.a[0]):
        r = method(ip, head.a[0], head.a[1], args, kw)
        if r is None:
            ip.undecided('table operation %s' % head.a[1])
        return r
    return _call_ext(ip, head, args, kw)


def ext_attr(ip, l, name):
    if is_table(ip, l) and name == 'rows':
        def rows(v):
            if v.kind not in ('t', 'lst'):
                ip.undecided('rows of a table')
            return ip.new_list([ip.new_list(list(r.a)) if r.kind == 't' else r for r in v.a])
        return ip.split(ip.h(l).data['__rows__'], rows)
    return _ext_attr(ip, l, name)


def to_str1(ip, l, how):
    if is_table(ip, l) and how in ('str', 'repr'):
        return text(ip, l)
    if how in ('str', 'repr') and (l.kind in ('t', 'lst') or l.kind == 'r' and ip.isobj(l, 'list')):
        r = literal(ip.freeze(l) if l.kind == 'r' else l)
        if r is not None:
            return const(r)
    return _to_str1(ip, l, how)


def literal(v):
    """text of a list of literals"""
    if str_const(v) is not None:
        return repr(str_const(v))
    if v.kind == 'c':
        return repr(cval(v))
    if v.kind in ('t', 'lst'):
        p = [literal(x) for x in v.a]
        if any(x is None for x in p):
            return None
        return '[%s]' % ', '.join(p) if v.kind == 'lst' else '(%s%s)' % (', '.join(p), ',' if len(p) == 1 else '')
    return None


def texts(v):
    """the tables printed inside a text"""
    return [t for t in subterms(v) if t.kind == 'app' and t.a[0] is ext('prettytable.text')]


M.call_ext, M.ext_attr, M.to_str1, M.is_fresh


def call_ext(ip, head, args, kw):
    if head.kind == 'ext' and head.a == PT:
        return new(ip, args, kw)
    if head.kind == 'attr' and is_table(ip, head.a[0]):
        r = method(ip, head.a[0], head.a[1], args, kw)
        if r is None:
            ip.undecided('table operation %s' % head.a[1])
        return r
    return _call_ext(ip, head, args, kw)


def ext_attr(ip, l, name):
    if is_table(ip, l) and name == 'rows':
        return ip.new_list([ip.new_list(list(r.a)) if r.kind == 't' else r for r in ip.h(l).data['__rows__'].a])
    return _ext_attr(ip, l, name)


def to_str1(ip, l, how):
    if is_table(ip, l) and how in ('str', 'repr'):
        return text(ip, l)
    if how in ('str', 'repr') and (l.kind in ('t', 'lst') or l.kind == 'r' and ip.isobj(l, 'list')):
        r = literal(ip.freeze(l) if l.kind == 'r' else l)
        if r is not None:
            return const(r)
    return _to_str1(ip, l, how)


def literal(v):
    """text of a list of literals"""
    if str_const(v) is not None:
        return repr(str_const(v))
    if v.kind == 'c':
        return repr(cval(v))
    if v.kind in ('t', 'lst'):
        p = [literal(x) for x in v.a]
        if any(x is None for x in p):
            return None
        return '[%s]' % ', '.join(p) if v.kind == 'lst' else '(%s%s)' % (', '.join(p), ',' if len(p) == 1 else '')
    return None


M.call_ext, M.ext_attr, M.to_str1 = call_ext, ext_attr, to_str1
