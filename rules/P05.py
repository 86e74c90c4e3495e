from .common import *

RULE = ('giving a value to a quantity: accepted exactly for int/float without unit, with a coherent unit, or a coherent quantity of the same kind; '
        'otherwise an error is raised and value and specification state stay as they were')


def run(an, tier):
    for cls in ('Quantity', 'Constant', 'Parameter', 'Variable'):
        mod = {'Quantity': 'core.quantity'}.get(cls, 'core.' + cls.lower())
        at = '%s:%s.setValue' % (mod, cls)
        for pre in ('', 'q.setValue(v0)\n'):
            pn = '' if not pre else ' (already specified)'
            dv = 'v0' if pre else 'q0.value'
            mk = 'q0=%s("q", %s, "")\nq=%s("q", %s, "")\n%s' % (cls, unit('u'), cls, unit('u'), pre)
            for ty in ('int', 'float'):
                inp = {**dim_inputs('u', 'w'), 'n': sym('n', ty), 'v0': num('v0')}
                s = an.scn(mk + 'q.setValue(n)\n', PRE, **inp)
                oid = '%s set %s%s' % (cls, ty, pn)
                s.completes(oid, 'plain number accepted', at)
                s.equal(oid + ' value', 'q.value', 'n', 'stored value', at)
                s.equal(oid + ' specified', 'q.is_specified', const(True), 'specified after setting', at)
                for d in DIMS:
                    s.equal(oid + ' unit ' + d, 'q.units.dimension["%s"]' % d, 'u_' + d, 'unit kept', at)
                s = an.scn(mk + 'err=False\ntry:\n    q.setValue(n, %s)\nexcept Exception as e:\n    err=True\n' % unit('w'), PRE, **inp)
                oid = '%s set %s with unit%s' % (cls, ty, pn)
                s.equal(oid + ' error', 'err', 'not %s' % coherent('u', 'w'), 'error exactly when the unit is incoherent', at)
                s.equal(oid + ' value', 'q.value', 'n if %s else %s' % (coherent('u', 'w'), dv), 'stored value', at)
                s.equal(oid + ' specified', 'q.is_specified', '%s or %s' % (coherent('u', 'w'), bool(pre)), 'specification state', at)
                for d in DIMS:
                    s.equal(oid + ' unit ' + d, 'q.units.dimension["%s"]' % d, 'u_' + d, 'unit kept', at)
            inp = {**dim_inputs('u', 'w'), 'n': num('n'), 'v0': num('v0')}
            s = an.scn(mk + 'u0=q.units\no=%s("o", %s, "")\no.setValue(n)\nerr=False\ntry:\n    q.setValue(o)\nexcept Exception as e:\n    err=True\no.units.dimension["kg"]=o.units.dimension["kg"]+1\n' % (cls, unit('w', 'ow')), PRE, **inp)
            s.holds('%s set quantity%s own unit' % (cls, pn), 'q.units is u0 and q.units.name == ""', 'a quantity keeps its own unit object when it takes the value of another', at)
            s.equal('%s set quantity%s own unit dimension' % (cls, pn), 'q.units.dimension["kg"]', 'u_kg', 'a quantity keeps its own unit when it takes the value of another', at)
            s = an.scn(mk + 'u0=q.units\nerr=False\ntry:\n    q.setValue(n, %s)\nexcept Exception as e:\n    err=True\n' % unit('w', 'ow'), PRE, **inp)
            s.holds('%s set number with unit%s own unit' % (cls, pn), 'q.units is u0 and q.units.name == ""', 'a quantity keeps its own unit object when it takes a number with a unit', at)
            s = an.scn(mk + 'o=%s("o", %s, "")\no.setValue(n)\nerr=False\ntry:\n    q.setValue(o)\nexcept Exception as e:\n    err=True\n' % (cls, unit('w')), PRE, **inp)
            oid = '%s set quantity%s' % (cls, pn)
            s.equal(oid + ' error', 'err', 'not %s' % coherent('u', 'w'), 'error exactly when the quantity is incoherent', at)
            s.equal(oid + ' value', 'q.value', 'n if %s else %s' % (coherent('u', 'w'), dv), 'stored value', at)
            s.equal(oid + ' specified', 'q.is_specified', '%s or %s' % (coherent('u', 'w'), bool(pre)), 'specification state', at)
            s.equal(oid + ' source value', 'o.value', 'n', 'source quantity unchanged', at)
            for d in DIMS:
                s.equal(oid + ' unit ' + d, 'q.units.dimension["%s"]' % d, 'u_' + d, 'unit kept', at)
            # a source that holds a value without having been specified (the result of arithmetic, a number with a unit)
            s = an.scn(mk + 'o=%s("o", %s, value=n)\nerr=False\ntry:\n    q.setValue(o)\nexcept Exception as e:\n    err=True\n' % (cls, unit('w')), PRE, **inp)
            oid = '%s set computed quantity%s' % (cls, pn)
            s.equal(oid + ' error', 'err', 'not %s' % coherent('u', 'w'), 'error exactly when the quantity is incoherent', at)
            s.equal(oid + ' value', 'q.value', 'n if %s else %s' % (coherent('u', 'w'), dv), 'stored value', at)
            s.equal(oid + ' specified', 'q.is_specified', '%s or %s' % (coherent('u', 'w'), bool(pre)), 'specification state', at)
            s.equal(oid + ' source', '(o.value, o.is_specified)', '(n, False)', 'source quantity unchanged', at)
            for xs in ('"a"', 'None', '[1.0]', 'tu.m'):
                for u in ('', ', %s' % unit('w')):
                    s = an.scn(mk + 'err=False\ntry:\n    q.setValue(%s%s)\nexcept Exception as e:\n    err=True\n' % (xs, u), PRE, **inp)
                    oid = '%s set %s%s%s' % (cls, xs, ' with unit' if u else '', pn)
                    s.equal(oid + ' error', 'err', const(True), 'other types rejected', at)
                    s.equal(oid + ' value', 'q.value', dv, 'value unchanged after a rejected setting', at)
                    s.equal(oid + ' specified', 'q.is_specified', const(bool(pre)), 'specification unchanged after a rejected setting', at)
            # a quantity together with a unit, and quantities of another kind
            others = {'own kind with unit': '%s("o", %s, "")' % (cls, unit('u'))}
            if cls != 'Quantity':
                others.update({k: '%s("o", %s, "")' % (k, unit('u')) for k in ('Constant', 'Parameter', 'Variable') if k != cls})
            for k, src in others.items():
                for u in ('', ', %s' % unit('u'), ', %s' % unit('w')):
                    if u == '' and 'own' in k:
                        continue
                    s = an.scn(mk + 'o=%s\no.setValue(n)\nerr=False\ntry:\n    q.setValue(o%s)\nexcept Exception as e:\n    err=True\n' % (src, u), PRE, **inp)
                    oid = '%s set %s%s%s' % (cls, k, ' unit %s' % u[-5:-2] if u else '', pn)
                    s.equal(oid + ' error', 'err', const(True), 'quantity of another kind or with a unit is rejected', at)
                    s.equal(oid + ' value', '(q.value, o.value, o.is_specified)', '(%s, n, True)' % dv, 'values unchanged after a rejected setting', at)
                    s.equal(oid + ' specified', 'q.is_specified', const(bool(pre)), 'specification unchanged after a rejected setting', at)
        # with a coherent unit: error classes
        s = an.scn('q=%s("q", %s, "")\nq.setValue(n, %s)\n' % (cls, unit('u'), unit('w')), PRE, **{**dim_inputs('u', 'w'), 'n': sym('n', 'float')})
        s.exits('%s set value error class' % cls, coherent('u', 'w'), ('UnexpectedValueError', 'DimensionalCoherenceError'), 'value with a unit', at)
        s = an.scn('q=%s("q", %s, "")\nk=%s("k", %s, "")\nq.setValue(n)\n' % (cls, unit('u'), cls, unit('u')), PRE, **{**dim_inputs('u'), 'n': num('n')})
        s.equal('%s independent' % cls, 'k.is_specified', const(False), 'another quantity is not affected', at)
