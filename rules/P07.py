from .common import *
import re

RULE = ('every operator and function of expressions builds exactly the mathematical term it denotes, in operand order, from the contents of its operands '
        '(both the compiled and the printed form), also when reflected with plain numbers')
AT = 'core.expression_evaluation:EquationNode.'
FUN = {'Log': 'sp.log({0})', 'Log10': 'sp.log({0})/sp.log(10)', 'Sqrt': 'sp.sqrt({0})', 'Abs': 'sp.Abs({0})', 'Exp': 'sp.exp({0})',
       'Sin': 'sp.sin({0})', 'Cos': 'sp.cos({0})', 'Tan': 'sp.tan({0})'}
V = {'raises'}
P = PRE + 'import sympy as sp\n'


def run(an, tier):
    ops = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '**': '__pow__'}
    for op, m in ops.items():
        for ta in ('sym', 'num'):
            for tb in ('sym', 'float'):
                inp = {**node_inputs('a', ta), **node_inputs('b', tb)}
                ud = 'Unit("d", {})' if op == '**' else (unit('a') if op in '+-' else unit('b'))
                s = an.scn('a=%s\nb=%s\nr=a%sb\n' % (node('a', known=ta == 'num'), node('b', known=tb == 'float', unit_src=ud), op), P, **inp)
                oid = 'expression %s %s %s' % (ta, op, tb)
                s.completes(oid + ' completes', 'operator on two expressions', AT + m, vocab=V)
                s.equal(oid, 'r.symbolic_object', 'a_sym%sb_sym' % op, 'compiled form of a%sb' % op, AT + m)
                s.equal(oid + ' printed', 'r.repr_symbolic', 'a_rep%sb_rep' % op, 'printed form of a%sb' % op, AT + m)
                s.equal(oid + ' operand kept', '(a.symbolic_object, b.symbolic_object)', '(a_sym, b_sym)', 'operands unchanged', AT + m)
        # same operand twice
        s = an.scn('a=%s\nr=a%sa\n' % (node('a', unit_src='Unit("d", {})'), op), P, **node_inputs('a'))
        s.equal('expression a%sa' % op, 'r.symbolic_object', 'a_sym%sa_sym' % op, 'compiled form of a%sa' % op, AT + m)
        for ty in ('int', 'float'):
            inp = {**node_inputs('a'), 'n': sym('n', ty)}
            s = an.scn('a=%s\nr=a%sn\n' % (node('a'), op), P, **inp)
            s.equal('expression %s %s' % (op, ty), 'r.symbolic_object', 'a_sym%sn' % op, 'compiled form of expression%snumber' % op, AT + m)
            s.equal('expression %s %s printed' % (op, ty), 'r.repr_symbolic', 'a_rep%sn' % op, 'printed form of expression%snumber' % op, AT + m)
            if op != '**':
                s = an.scn('a=%s\nr=n%sa\n' % (node('a'), op), P, **inp)
                rm = '__r' + m[2:]
                s.completes('%s %s expression completes' % (ty, op), 'number%sexpression' % op, AT + rm, vocab=V)
                s.equal('%s %s expression' % (ty, op), 'r.symbolic_object', 'n%sa_sym' % op, 'compiled form of number%sexpression' % op, AT + rm)
                s.equal('%s %s expression printed' % (ty, op), 'r.repr_symbolic', 'n%sa_rep' % op, 'printed form of number%sexpression' % op, AT + rm)
        for xs in ('"a"', 'None', '[1]'):
            for src in ('a%sx' % op,) + (('x%sa' % op,) if op != '**' else ()):
                if xs == '"a"' and src == 'x*a' or xs == '[1]' and src == 'x*a':
                    pass
                s = an.scn('a=%s\nx=%s\nr=%s\n' % (node('a'), xs, src), P, **node_inputs('a'))
                s.rejects('%s with x=%s' % (src, xs), ('UnexpectedValueError', 'TypeError'), 'operand that is no expression or number', AT + m)
    # precedence between real python operators: nested terms
    inp = {**node_inputs('a'), **node_inputs('b'), **node_inputs('c'), 'n': sym('n', 'float')}
    U = 'Unit("d", {})'
    for ex in ('(a-b)*c', 'a-(b-c)', 'a/(b*c)', '(a/b)/c', 'n-(a-b)', 'n/(a/b)', '(n-a)/(n-b)', '2*a-3.0*b/c', '(a+b)**2', '1-(n-a)', '1/(n/a)', 'a-b-c', 'n*a**2/b'):
        s = an.scn('a=%s\nb=%s\nc=%s\nr=%s\n' % (node('a', unit_src=U), node('b', unit_src=U), node('c', unit_src=U), ex), P, **inp)
        s.equal('nested ' + ex, 'r.symbolic_object', re.sub(r'\b([abc])\b', r'\1_sym', ex), 'nested expression', AT + '__sub__')
        s.equal('nested printed ' + ex, 'r.repr_symbolic', re.sub(r'\b([abc])\b', r'\1_rep', ex), 'nested expression', AT + '__sub__')
    # functions
    for f, t in FUN.items():
        at = 'core.equation_operators:' + f
        for ty in ('sym', 'num'):
            s = an.scn('a=%s\nr=eo.%s(a)\n' % (node('a', known=ty == 'num', unit_src=U), f), P, **node_inputs('a', ty))
            s.equal('%s of %s expression' % (f, ty), 'r.symbolic_object', t.format('a_sym'), 'compiled form of %s' % f, at)
            s.equal('%s of %s expression printed' % (f, ty), 'r.repr_symbolic', t.format('a_rep'), 'printed form of %s' % f, at)
        for ty in ('int', 'float'):
            s = an.scn('r=eo.%s(n)\n' % f, P, n=sym('n', ty))
            s.equal('%s of %s' % (f, ty), 'r.symbolic_object', t.format('n'), 'compiled form of %s of a number' % f, at)
            s.equal('%s of %s printed' % (f, ty), 'r.repr_symbolic', t.format('n'), 'printed form of %s of a number' % f, at)
            s.equal('%s of %s maps' % (f, ty), '(r.symbolic_map, r.variable_map)', '({}, {})', 'objects used by a function of a number', at)
    for f in ('Min', 'Max'):
        at = 'core.equation_operators:' + f
        inp = {**node_inputs('a'), **node_inputs('b'), **node_inputs('c'), 'n': num('n'), 'k': sym('k', 'int')}
        for args in ('a,b', 'b,a', 'a,b,c', 'a,n', 'n,a', 'a,n,b', 'n,k', 'a,k,n,b'):
            s = an.scn('a=%s\nb=%s\nc=%s\nr=eo.%s(%s)\n' % (node('a'), node('b', unit_src=unit('a')), node('c', unit_src=unit('a')), f, args), P, **inp)
            s.equal('%s(%s)' % (f, args), 'r.symbolic_object', 'sp.%s(%s)' % (f, re.sub(r'\b([abc])\b', r'\1_sym', args)), 'compiled form of %s' % f, at)
            s.equal('%s(%s) printed' % (f, args), 'r.repr_symbolic', 'sp.%s(%s)' % (f, re.sub(r'\b([abc])\b', r'\1_rep', args)), 'printed form of %s' % f, at)
    # derivatives
    s = an.scn('''
from src.sloth.core.domain import Domain
t=Variable(tn, %s, "")
x=Variable(xn, %s, "")
d=Domain("d", "", t)
x.distributeOnDomain(d)
r=x.Diff(t)
''' % (unit('u'), unit('v')), P, tn=strsym('tn'), xn=strsym('xn'), **dim_inputs('u', 'v'))
    at = 'core.variable:Variable.Diff'
    s.completes('derivative completes', 'derivative of a distributed variable', at)
    s.equal('derivative', 'r.symbolic_object', 'sp.diff(sp.symbols(xn), sp.symbols(tn), evaluate=False)', 'compiled form of a derivative', at)
    s.equal('derivative printed', 'r.repr_symbolic', 'sp.diff(sp.symbols(xn), sp.symbols(tn), evaluate=False)', 'printed form of a derivative', at)
    for d in DIMS:
        s.equal('derivative dim ' + d, 'r.unit_object.dimension["%s"]' % d, 'v_%s-u_%s' % (d, d), 'unit of a derivative', at)
    s.equal('derivative unknowns', 'r.variable_map', '{xn: x}', 'unknowns of a derivative', at)
    s.equal('derivative objects', 'r.symbolic_map', '{xn: x}', 'objects of a derivative', at)
    s = an.scn('x=Variable(xn, %s, "")\nt=Variable(tn, %s, "")\nr=x.Diff(t)\n' % (unit('v'), unit('u')), P, tn=strsym('tn'), xn=strsym('xn'), **dim_inputs('u', 'v'))
    s.rejects('derivative without domain', 'AbsentRequiredObjectError', 'derivative of a variable without domain', at)
    # operands with definite values: whole and broken numbers, negative, zero and one
    vals = ('1', '7', '-3', '0', '0.5', '4.0', '-2.5')
    for op, m in ops.items():
        for v in vals:
            for w in ('2', '-3', '0.5', '4.0', '1', '0', '-1'):
                if op == '/' and w == '0' or op == '**' and (w[0] == '-' and v == '0' or '.' in w and v[0] == '-'):
                    continue
                s = an.scn('p=Parameter("p", tu.dimless, "")\np.setValue(%s)\nq=Parameter("q", tu.dimless, "")\nq.setValue(%s)\na=p()\nb=q()\nr=a%s(%s)\nt=a%sb\n' % (v, w, op, w, op), P)
                oid = 'value %s %s %s' % (v, op, w)
                near = lambda x, y: 'abs(%s - (%s)) < 1e-9' % (x, y)      # the order of multiplication may round differently
                s.holds(oid, ' and '.join(near(x, '(%s)%s(%s)' % (v, op, w)) for x in ('r.symbolic_object', 't.symbolic_object')), 'content of an operation on known values', AT + m)
                if op != '**' and not (op == '/' and v == '0'):
                    s = an.scn('p=Parameter("p", tu.dimless, "")\np.setValue(%s)\nr=(%s)%sp()\n' % (v, w, op), P)
                    s.holds(oid + ' reflected', near('r.symbolic_object', '(%s)%s(%s)' % (w, op, v)), 'content of an operation on known values', AT + '__r' + m[2:])
        for w in ('2', '-3', '0.5', '4.0', '1', '0', '-1', '-0.5'):
            if op == '/' and w == '0':
                continue
            s = an.scn('a=%s\nr=a%s(%s)\n' % (node('a'), op, w), P, **node_inputs('a'))
            s.equal('expression %s value %s' % (op, w), '(r.symbolic_object, r.repr_symbolic)', '(a_sym%s(%s), a_rep%s(%s))' % (op, w, op, w), 'content of an operation with a definite number', AT + m)
            if op != '**':
                s = an.scn('a=%s\nr=(%s)%sa\n' % (node('a'), w, op), P, **node_inputs('a'))
                s.equal('value %s %s expression' % (w, op), '(r.symbolic_object, r.repr_symbolic)', '((%s)%sa_sym, (%s)%sa_rep)' % (w, op, w, op), 'content of an operation with a definite number', AT + '__r' + m[2:])
            s = an.scn('a=%s\nq=Parameter("q", tu.dimless, "")\nq.setValue(%s)\nr=a%sq()\n' % (node('a', unit_src=U), w, op), P, **node_inputs('a'))
            s.equal('expression %s known value %s' % (op, w), 'r.symbolic_object', 'a_sym%s(%s)' % (op, w), 'content of an operation with a known value', AT + m)
