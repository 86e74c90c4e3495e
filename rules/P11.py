from .common import *

RULE = ('an equation declared as left == right has residual left - right over the union of the objects and unknowns of both sides; an equation declared as one expression has that expression; '
        'a numeric right side is that constant; side selection returns exactly the declared side; the listed objects are those of the residual')
NESTED = True
AT = 'core.equation:Equation.'
P = PRE + 'import sympy as sp\nfrom src.sloth.core.equation import Equation\nfrom src.sloth.core.equation import Connection\n' + '''
def raised(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False
'''


def run(an, tier):
    for ka, kb in ((False, False), (True, False), (False, True), (True, True)):
        inp = {**node_inputs('a', 'num' if ka else 'sym'), **node_inputs('b', 'num' if kb else 'sym')}
        for form in ('e=%s("e","",fast_expr=(a==b))\n', 'e=%s("e","")\ne.setResidual(a==b)\n', 'e=%s("e","",fast_expr=c==c)\ne.setResidual(a==b)\n'):
            for cls in ('Equation', 'Connection'):
                if 'c==c' in form and cls == 'Connection':
                    continue
                s = an.scn('a=%s\nb=%s\nc=%s\n' % (node('a', known=ka), node('b', known=kb, unit_src=unit('a')), node('c')) + form.replace('%s', cls.replace('Connection', 'Equation'), 1).replace('%s', cls),
                           P, **{**inp, **node_inputs('c')}) if cls == 'Equation' else \
                    an.scn('a=%s\nb=%s\n' % (node('a', known=ka), node('b', known=kb, unit_src=unit('a'))) + ('e=Connection("e","",fast_expr=(a==b))\n' if 'fast' in form else 'e=Connection("e","")\ne.setResidual(a==b)\n'), P, **inp)
                oid = '%s %s %s%s' % (cls, form.split('\n')[0], ka, kb)
                at = AT + 'setResidual'
                s.completes(oid + ' completes', 'equation of two sides', at)
                s.equal(oid + ' residual', 'e.equation_expression.symbolic_object', 'a_sym-b_sym', 'residual is left - right', at)
                s.equal(oid + ' printed', 'e.equation_expression.repr_symbolic', 'a_rep-b_rep', 'printed residual is left - right', at)
                s.equal(oid + ' objects', 'e.objects_declared', '{a_key: a_obj, a_key2: a_obj2, b_key: b_obj, b_key2: b_obj2}', 'objects of the equation', at)
                s.equal(oid + ' residual objects', 'e.equation_expression.symbolic_map', '{a_key: a_obj, a_key2: a_obj2, b_key: b_obj, b_key2: b_obj2}', 'objects of the residual', at)
                s.equal(oid + ' unknowns', 'e.equation_expression.variable_map', '{%s}' % ', '.join([] + ([] if ka else ['a_key: a_obj']) + ([] if kb else ['b_key: b_obj'])), 'unknowns of the residual', at)
                s.equal(oid + ' left', 'e.elementary_equation_expression[0].symbolic_object', 'a_sym', 'left side', at)
                s.equal(oid + ' right', 'e.elementary_equation_expression[1].symbolic_object', 'b_sym', 'right side', at)
                s.equal(oid + ' form', 'e.equation_form', const('elementary'), 'form of an equation with two sides', at)
                s.equal(oid + ' get residual', 'e._getSymbolicObject(equation_form="residual")', 'a_sym-b_sym', 'residual form', AT + '_getSymbolicObject')
                for side, i, p in (('lhs', 0, 'a'), ('rhs', 1, 'b')):
                    s.equal(oid + ' get ' + side, 'e._getSymbolicObject(side="%s")' % side, p + '_sym', 'symbolic content of the ' + side, AT + '_getSymbolicObject')
                    s.equal(oid + ' map ' + side, 'e._getSymbolicMap(side="%s")' % side, '{%s_key: %s_obj, %s_key2: %s_obj2}' % (p, p, p, p), 'objects of the ' + side, AT + '_getSymbolicMap')
                    s.equal(oid + ' call %d' % i, 'e(%d).symbolic_object' % i, p + '_sym', 'side by index', AT + '__call__')
                for ix in ('2', '7', '-3', '"a"', 'None', '1.5'):
                    s.equal(oid + ' call ' + ix, 'raised(e, %s)' % ix, const(True), 'an index that names no side is an error', AT + '__call__')
                s.equal(oid + ' map residual', 'e._getSymbolicMap(equation_form="residual")', '{a_key: a_obj, a_key2: a_obj2, b_key: b_obj, b_key2: b_obj2}', 'objects of the residual form', AT + '_getSymbolicMap')
    # residual form
    for k in (False, True):
        for form in ('e=Equation("e","",fast_expr=a)\n', 'e=Equation("e","")\ne.setResidual(a)\n'):
            s = an.scn('a=%s\n' % node('a', known=k) + form, P, **node_inputs('a'))
            oid = 'residual %s %s' % (form.split('\n')[0], k)
            at = AT + 'setResidual'
            s.completes(oid, 'equation of one expression', at)
            s.equal(oid + ' residual', 'e.equation_expression.symbolic_object', 'a_sym', 'residual', at)
            s.equal(oid + ' objects', 'e.objects_declared', '{a_key: a_obj, a_key2: a_obj2}', 'objects', at)
            s.equal(oid + ' form', 'e.equation_form', const('residual'), 'form of an equation of one expression', at)
            s.equal(oid + ' call', 'e().symbolic_object', 'a_sym', 'expression of the equation', AT + '__call__')
            s.equal(oid + ' get', 'e._getSymbolicObject()', 'a_sym', 'symbolic content', AT + '_getSymbolicObject')
    # declared anew
    forms = {'two sides': ('a==b', 'a_sym-b_sym', 'elementary'), 'one expression': ('a+b', 'a_sym+b_sym', 'residual'), 'a number': ('a==2.5', 'a_sym-2.5', 'elementary'), 'other sides': ('b==c', 'b_sym-c_sym', 'elementary'), 'one operand': ('c', 'c_sym', 'residual')}
    at = AT + 'setResidual'
    for f1 in forms:
        for f2, (src, res, form) in forms.items():
            for first in ('e=Equation("e","",fast_expr=(%s))\n', 'e=Equation("e","")\ne.setResidual(%s)\n', 'e=Equation("e","")\ne.setResidual(c)\ne.setResidual(%s)\n'):
                s = an.scn('a=%s\nb=%s\nc=%s\n' % (node('a'), node('b', unit_src=unit('a')), node('c', unit_src=unit('a'))) + first % forms[f1][0] + 'was=e()\nkind=e.type\ne.setResidual(%s)\n' % src, P,
                           **{**node_inputs('a'), **node_inputs('b'), **node_inputs('c')})
                oid = 'declared anew as %s after %s, %s' % (f2, f1, first.replace('\n', ';'))
                s.completes(oid, 'equation declared anew', at)
                s.equal(oid + ' residual', 'e.equation_expression.symbolic_object', res, 'residual of the current declaration', at)
                s.equal(oid + ' form', 'e.equation_form', const(form), 'form of the current declaration', at)
                used = [k for k in 'abc' if k in src.split('=')[0] or '==' + k in src or '+' + k in src]
                s.equal(oid + ' objects', 'e.objects_declared', '{%s}' % ', '.join('%s_key: %s_obj, %s_key2: %s_obj2' % (k, k, k, k) for k in used), 'objects of the current declaration', at)
                if form == 'residual':
                    s.equal(oid + ' call', 'e().symbolic_object', res, 'expression of the current declaration', AT + '__call__')
                    s.equal(oid + ' get', 'e._getSymbolicObject()', res, 'symbolic content', AT + '_getSymbolicObject')
                    for side in ('lhs', 'rhs'):
                        s.equal(oid + ' no ' + side, '(raised(e.eval, None, "%s"), raised(e._convertToFunction, None, "%s"))' % (side, side), '(True, True)', 'sides of an earlier declaration', AT + 'eval')
                else:
                    for i, side in enumerate(('lhs', 'rhs')):
                        w = src.split('==')[i]
                        w = w if w == '2.5' else w + '_sym'
                        s.equal(oid + ' side %d' % i, '(e(%d).symbolic_object, e._getSymbolicObject(side="%s"))' % (i, side), '(%s, %s)' % (w, w), 'side of the current declaration', AT + '__call__')
                s.equal(oid + ' type', 'e.type', 'Equation("f", "", fast_expr=(%s)).type' % src, 'kind of the current declaration', AT + '_getTypeFromExpression')
    # numeric right side
    for ty in ('int', 'float'):
        for form in ('e=Equation("e","",fast_expr=(a==n))\n', 'e=Equation("e","")\ne.setResidual(a==n)\n'):
            s = an.scn('a=%s\n' % node('a') + form, P, **{**node_inputs('a'), 'n': sym('n', ty)})
            oid = 'number side %s %s' % (ty, form.split('\n')[0])
            at = AT + 'setResidual'
            s.completes(oid, 'equation against a number', at)
            s.equal(oid + ' residual', 'e.equation_expression.symbolic_object', 'a_sym-n', 'residual is left - number', at)
            s.equal(oid + ' printed', 'e.equation_expression.repr_symbolic', 'a_rep-n', 'printed residual', at)
            s.equal(oid + ' right', 'e.elementary_equation_expression[1].symbolic_object', 'n', 'right side', at)
            s.equal(oid + ' objects', 'e.objects_declared', '{a_key: a_obj, a_key2: a_obj2}', 'objects', at)
            s.equal(oid + ' unknowns', 'e.equation_expression.variable_map', '{a_key: a_obj}', 'unknowns', at)
            for d in DIMS:
                s.equal(oid + ' dim ' + d, 'e.equation_expression.unit_object.dimension["%s"]' % d, 'a_' + d, 'unit of the residual', at)
    for xs in ('None', '"a"', '3.0', '[a]', 'a.symbolic_map'):
        s = an.scn('a=%s\ne=Equation("e","")\ne.setResidual(%s)\n' % (node('a'), xs), P, **node_inputs('a'))
        s.rejects('residual ' + xs, ('UnexpectedValueError', 'TypeError'), 'residual of another type', AT + 'setResidual')
    # evaluation: values of the objects of the equation, or of the given map, and of the requested side
    s0 = 'x=Variable(xn, tu.m, "")\nx.setValue(xv)\ny=Variable(yn, tu.m, "")\ny.setValue(yv)\n'
    base = 'x=Variable(xn, tu.m, "")\ny=Variable(yn, tu.m, "")\ne=Equation("e","",fast_expr=(3*x()==y()+1.0))\nx.setValue(xv)\ny.setValue(yv)\n'
    for side, t in ((None, '3*sp.symbols(xn)-sp.symbols(yn)-1.0'), ('lhs', '3*sp.symbols(xn)'), ('rhs', 'sp.symbols(yn)+1.0')):
        arg = '' if side is None else 'side="%s"' % side
        s = an.scn(base + 'r=e.eval(%s)\n' % arg, P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'))
        s.equal('evaluation %s' % side, 'r', '(%s).evalf(subs={xn: xv, yn: yv})' % t, 'evaluation on the values of the objects', AT + 'eval')
        s = an.scn(base + 'r=e.eval(symbolic_map={xn: 5.0, yn: w}%s)\n' % (', ' + arg if arg else ''), P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'), w=num('w'))
        s.equal('evaluation on given values %s' % side, 'r', '(%s).evalf(subs={xn: 5.0, yn: w})' % t, 'evaluation on given values', AT + 'eval')
        for given, sub in (('{xn: 5.0}', '{xn: 5.0}'), ('{yn: w}', '{yn: w}'), ('{}', '{}'), ('{yn: w, "other": 2.0}', None)):
            s = an.scn(base + 'r=e.eval(symbolic_map=%s%s)\n' % (given, ', ' + arg if arg else ''), P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'), w=num('w'))
            if sub:
                s.equal('evaluation on some values %s %s' % (given, side), 'r', '(%s).evalf(subs=%s)' % (t, sub), 'evaluation on exactly the given values', AT + 'eval')
        s = an.scn(base + 'g={xn: 5.0, yn: w}\nr=e.eval(symbolic_map=g%s)\nq=e.eval(%s)\n' % (', ' + arg if arg else '', arg), P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'), w=num('w'))
        s.equal('evaluation after given values %s' % side, '(q, g, x.value, y.value)', '((%s).evalf(subs={xn: xv, yn: yv}), {xn: 5.0, yn: w}, xv, yv)' % t, 'evaluation on the values of the objects after one on given values', AT + 'eval')
        s = an.scn(base + 'f=e._convertToFunction(%s)\n' % arg, P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'))
        s.equal('compilation %s' % side, 'f', 'sp.lambdify([xn, yn], %s, "llvm")' % t, 'compiled function of the requested side over the objects of the equation', AT + '_convertToFunction')
    s = an.scn(base + 'r=e.getResidual()\nx.value=w\nq=e.getResidual()\n', P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'), w=num('w'))
    s.equal('value of the residual', '(r, q)', '((3*sp.symbols(xn)-sp.symbols(yn)-1.0).evalf(subs={xn: xv, yn: yv}), (3*sp.symbols(xn)-sp.symbols(yn)-1.0).evalf(subs={xn: w, yn: yv}))', 'residual at the current values of the objects', AT + 'getResidual')
    s = an.scn('x=Variable(xn, tu.m, "")\nx.setValue(xv)\nr=Equation("e","",fast_expr=x()).eval()\n', P, xn=strsym('xn'), xv=num('xv'))
    s.equal('evaluation of a known', 'r', 'xv', 'evaluation of an expression without unknowns', AT + 'eval')
    # objects that are not specified are evaluated at the value they hold
    for side, t in ((None, '3*sp.symbols(xn)-sp.symbols(yn)-1.0'), ('lhs', '3*sp.symbols(xn)'), ('rhs', 'sp.symbols(yn)+1.0')):
        arg = '' if side is None else 'side="%s"' % side
        s = an.scn('x=Variable(xn, tu.m, "", value=xv)\ny=Variable(yn, tu.m, "")\ne=Equation("e","",fast_expr=(3*x()==y()+1.0))\ny.setValue(yv)\nr=e.eval(%s)\n' % arg, P, xn=strsym('xn'), yn=strsym('yn'), xv=num('xv'), yv=num('yv'))
        s.equal('evaluation %s with an object that has no given value' % side, 'r', '(%s).evalf(subs={xn: xv, yn: yv})' % t, 'evaluation on the values the objects hold', AT + 'eval')
    for m in ('e.eval(side="lhs")', 'e.eval(side="rhs")', 'e._convertToFunction(side="lhs")'):
        s = an.scn('x=Variable(xn, tu.m, "")\ne=Equation("e","",fast_expr=x())\n%s\n' % m, P, xn=strsym('xn'))
        s.rejects('side of a residual ' + m, 'AbsentRequiredObjectError', 'side of an equation that has none', AT + 'eval')
    s = an.scn('e1=Equation("","")\ne2=Equation("","")\ne3=Equation(nm,"ds",owner_model_name=ow)\n', P, nm=strsym('nm'), ow=strsym('ow'))
    s.holds('automatic names differ', 'e1.name != e2.name', 'automatically named equations have different names', 'core.equation:gen_rnd_str')
