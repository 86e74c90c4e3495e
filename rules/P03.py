from .common import *

RULE = 'every predefined unit has the SI base-dimension exponents its name/description denotes (frozen physical table)'
TABLE = {
    'dimless': {}, 'm': {'m': 1}, 'kg': {'kg': 1}, 's': {'s': 1}, 'A': {'A': 1}, 'K': {'K': 1}, 'mol': {'mol': 1}, 'cd': {'cd': 1},
    '_s': {'s': -1}, '_m2': {'m': -2}, '_m3': {'m': -3}, 'm_s': {'m': 1, 's': -1}, 'm_s2': {'m': 1, 's': -2},
    'kg_s': {'kg': 1, 's': -1}, 'mol_s': {'mol': 1, 's': -1}, 'Force': {'kg': 1, 'm': 1, 's': -2}, 'Pa': {'kg': 1, 'm': -1, 's': -2},
    'atm': {'kg': 1, 'm': -1, 's': -2}, 'J': {'kg': 1, 'm': 2, 's': -2}, 'UniversalIdealGasConstant': {'kg': 1, 'm': 2, 's': -2, 'K': -1, 'mol': -1},
}


def run(an, tier):
    at = 'core.template_units:'
    for name, tb in TABLE.items():
        s = an.scn('u=tu.%s\n' % name, PRE)
        s.completes('unit %s exists' % name, 'predefined unit', at)
        for d in DIMS:
            s.equal('unit %s exponent %s' % (name, d), 'u.dimension["%s"]' % d, str(tb.get(d, 0)), 'exponent %s of predefined unit %s' % (d, name), at)
    # using the predefined units does not change them, whatever the use
    uses = '''
g=%s
for t in [%s]:
    a=t*g
    a2=g*t
    a3=t*t
    b=g/t
    b2=t/g
    b3=t/t
    b4=t+t
    b5=t-t
    c=t**2
    d=Unit("n", t)
    d.dimension["m"]=7
    a.dimension["kg"]=9
    x=Variable("x", t, "")
    x.setValue(2.0)
    y=Variable("y", t, "")
    e=x()+3.0*y()
    q=2.0*y()**2
    k=t*2.0
    k2=t/4.0
    k3=k*k2
    k4=k/k2
''' % (unit('g'), ', '.join('tu.' + n for n in TABLE))
    s = an.scn(uses, PRE, **dim_inputs('g'))
    s.completes('using predefined units', 'using predefined units in expressions', at)
    for name, tb in TABLE.items():
        for d in DIMS:
            s.equal('unit %s exponent %s after use' % (name, d), 'tu.%s.dimension["%s"]' % (name, d), str(tb.get(d, 0)), 'predefined unit %s changed by use' % name, ['core.unit:Unit.__mul__', at])
