from .solve import *

RULE = ('the values given when a simulation is configured (arguments, dictionary or file) are the ones its runs use: a dictionary or file replaces exactly the named values, the others keep the given arguments or their defaults; '
        'the time variable defaults to that of the problem for dynamic runs; times, initial time, end time, solver options and initial guess reach the integrator unchanged')
NESTED = True
AT = ['simulation:Simulation.setConfigurations']
AS = ['solvers:DSolver.solve', 'solvers:DaeSolver.solve']
DEF = {'initial_time': '0.0', 'end_time': 'None', 'linear_solver': '"symbolicsys"', 'nonlinear_solver': '"*"', 'differential_solver': '"ODEINT"', 'differential_algebraic_solver': '"IDA"', 'problem_type': 'None', 'is_dynamic': 'False',
       'compile_equations': 'True', 'domain': 'None', 'time_variable_name': 'None', 'initial_guess': '{}', 'initial_guess_solver': 'None', 'arg_names': '[]', 'args': '[]', 'verbosity_solver': '0', 'number_of_time_steps': '100',
       'configuration_args': '{}', 'print_output': 'False', 'output_headers': 'None', 'variable_name_map': '{}', 'compilation_mechanism': '"numpy"', 'number_parameters_to_optimize': '0', 'times_for_solution': 'None'}
SET = {'initial_time': 'a1', 'end_time': 'a2', 'linear_solver': 's1', 'nonlinear_solver': 's2', 'differential_solver': 's3', 'differential_algebraic_solver': 's4', 'problem_type': 's5', 'is_dynamic': 'True',
       'compile_equations': 'False', 'domain': 'o1', 'time_variable_name': 's6', 'initial_guess': '{"k": a3}', 'initial_guess_solver': 's7', 'arg_names': '[s8]', 'args': '[a4]', 'verbosity_solver': '2', 'number_of_time_steps': 'n1',
       'configuration_args': '{"rtol": a5}', 'print_output': 'True', 'output_headers': '[s9]', 'variable_name_map': '{"p": s10}', 'compilation_mechanism': 's11', 'number_parameters_to_optimize': 'n2', 'times_for_solution': '[a1, a2]'}
INP = dict({'a%d' % i: num('a%d' % i) for i in range(1, 6)}, **{'s%d' % i: strsym('s%d' % i) for i in range(1, 12)}, o1=obj('o1'), n1=sym('n1', 'int'), n2=sym('n2', 'int'), tv=strsym('tv'), pv=num('pv'))
H = 'P=Problem("P", "")\nP.setTimeVariableName(tv)\nS=Simulation("S", "")\nS.setProblem(P)\n'


def conf(an, oid, call, want, what, pre='', inp=None, at=AT):
    s = an.scn(H + pre + call + '\n', PROB, **dict(INP, **(inp or {})))
    if not s.completes(oid, what, at, vocab={'open'}):
        return
    for k, v in want.items():
        s.equal(oid + ' value of ' + k, 'S.configurations["%s"]' % k, v, '%s: configured %s' % (what, k), at, vocab={'json.load', 'open', '.__enter__'})


def run(an, tier):
    arg = lambda ks: ', '.join('%s=%s' % (k, SET[k]) for k in ks)
    conf(an, 'defaults', 'S.setConfigurations()', DEF, 'configuration without arguments')
    conf(an, 'all arguments', 'S.setConfigurations(%s)' % arg(SET), SET, 'configuration by arguments')
    conf(an, 'dynamic', 'S.setConfigurations(is_dynamic=True)', dict(DEF, is_dynamic='True', time_variable_name='[tv]'), 'dynamic configuration')
    conf(an, 'dynamic several', 'P.setTimeVariableName([tv, s1])\nS.setConfigurations(is_dynamic=True)', dict(DEF, is_dynamic='True', time_variable_name='[tv, s1]'), 'dynamic configuration')
    keep = {'is_dynamic', 'time_variable_name'}
    for k in SET:
        if k == 'is_dynamic':
            continue
        conf(an, 'argument %s' % k, 'S.setConfigurations(%s)' % arg([k]), dict(DEF, **{k: SET[k]}), 'configuration of one value')
        conf(an, 'dictionary %s' % k, 'S.setConfigurations(definition_dict={"%s": %s})' % (k, SET[k]), dict(DEF, **{k: SET[k]}), 'configuration of one value by a dictionary')
        conf(an, 'dictionary %s over arguments' % k, 'S.setConfigurations(definition_dict={"%s": %s}, %s)' % (k, DEF[k] if k not in ('domain', 'number_parameters_to_optimize') else SET[k], arg(SET)),
             dict(SET, **({k: DEF[k]} if k not in ('domain', 'number_parameters_to_optimize') and not (k == 'time_variable_name') else {k: '[tv]'} if k == 'time_variable_name' else {})), 'configuration by a dictionary over arguments')
    conf(an, 'whole dictionary', 'S.setConfigurations(definition_dict={%s})' % ', '.join('"%s": %s' % kv for kv in SET.items()), SET, 'configuration by a dictionary')
    conf(an, 'dynamic by dictionary', 'S.setConfigurations(definition_dict={"is_dynamic": True})', dict(DEF, is_dynamic='True', time_variable_name='[tv]'), 'dynamic configuration by a dictionary')
    conf(an, 'additional values', 'S.setConfigurations(definition_dict={"mine": a1})', dict(DEF, mine='a1'), 'configuration with an additional value')
    # a second configuration replaces the first
    conf(an, 'again', 'S.setConfigurations(%s)\nS.setConfigurations()' % arg(SET), DEF, 'second configuration')
    conf(an, 'again by dictionary', 'S.setConfigurations(%s)\nS.setConfigurations(definition_dict={"initial_time": a3})' % arg(SET), dict(DEF, initial_time='a3'), 'second configuration by a dictionary')
    # the number of parameters to optimize given as argument prevails
    for n in ('1', '2', 'n2'):
        when = {} if n != 'n2' else None
        call = 'S.setConfigurations(definition_dict={"number_parameters_to_optimize": %s, "initial_time": a1}, number_parameters_to_optimize=%s)'
        for other in ('3', '0', '5'):
            if when is None:
                sc = an.scn(H + call % (other, n) + '\n', PROB, **INP)
                sc.equal('number %s over %s' % (n, other), 'S.configurations["number_parameters_to_optimize"]', 'n2 if n2 != 0 else %s' % other, 'configured number of parameters to optimize', AT)
            else:
                conf(an, 'number %s over %s' % (n, other), call % (other, n), dict(DEF, initial_time='a1', number_parameters_to_optimize=n), 'number of parameters to optimize given twice')
    conf(an, 'number by dictionary', 'S.setConfigurations(definition_dict={"number_parameters_to_optimize": 3}, number_parameters_to_optimize=0)', dict(DEF, number_parameters_to_optimize='3'), 'number of parameters to optimize by a dictionary')
    # a file: whatever it holds replaces the arguments
    s = an.scn(H + 'S.setConfigurations(configurations_file=s1, %s)\n' % arg(k for k in SET), PROB, **INP)
    s.completes('file', 'configuration from a file', AT, vocab={'open'})
    ld = s.calls('json.load') or s.calls('json.loads')
    if unread(s):
        s.record('file values', 'violated', 'the configuration file is never read', AT, 'missing')
    elif s.undecided or len(ld) != 1:
        an.record('file values', 'undecided', 'reading of the file not recognised: %s' % s.undecided, AT)
    else:
        op = s.calls('open')
        s.record('file read', 'ok' if len(op) == 1 and op[0].args[:1] == (strsym('s1'),) else 'violated', 'file opened: %s' % [show(a) for e in op for a in e.args], AT, 'value')
        s.bind('LOADED', ld[0].result)
        for k, v in SET.items():
            if k in ('time_variable_name', 'number_parameters_to_optimize'):
                continue
            s.equal('file value of ' + k, 'S.configurations["%s"]' % k, 'LOADED["%s"] if "%s" in LOADED else %s' % (k, k, v), 'configured %s' % k, AT, vocab=FILE)
    # definite contents: a file or dictionary that says "none", zero, false or empty says so
    NIL = {'initial_time': '0.0', 'end_time': 'None', 'linear_solver': 'None', 'nonlinear_solver': 'None', 'differential_solver': 'None', 'differential_algebraic_solver': 'None', 'compile_equations': 'False', 'initial_guess': '{}',
           'initial_guess_solver': 'None', 'arg_names': '[]', 'args': '[]', 'verbosity_solver': '0', 'number_of_time_steps': 'None', 'configuration_args': '{}', 'print_output': 'False', 'output_headers': 'None',
           'variable_name_map': '{}', 'compilation_mechanism': '""', 'times_for_solution': 'None', 'is_dynamic': 'False', 'problem_type': 'None'}
    rest = {k: v for k, v in SET.items() if k not in NIL and k not in ('time_variable_name', 'number_parameters_to_optimize')}
    for what, keys in [('everything', list(NIL)), ('nothing', []), ('half', sorted(NIL)[::2])] + [(k, [k]) for k in NIL]:
        d = '{%s}' % ', '.join('"%s": %s' % (k, NIL[k]) for k in keys)
        want = {**{k: v for k, v in SET.items() if k not in ('time_variable_name', 'number_parameters_to_optimize')}, **{k: NIL[k] for k in keys}}
        for how, call, ans in (('file', 'S.setConfigurations(configurations_file=s1, %s)' % arg(SET), {'json.load': d, 'json.loads': d}), ('dictionary', 'S.setConfigurations(definition_dict=%s, %s)' % (d, arg(SET)), {})):
            conf(an, '%s with %s empty' % (how, what), call, want, 'configuration by a %s' % how, inp={'_answers': ans})
    # what the runs use
    V = {'.simulate'}
    for model, cf in (('Ode', ''), ('Ode', ', differential_solver="CVODE"'), ('Dae', ''), ('OdeT', '')):
        for extra, times, what in (('', 'np.linspace(t0, t1, n+1)', 'evenly spaced times'), (', times_for_solution=[t0, h1, t1]', 'np.array([t0, h1, t1])', 'given times'), (', times_for_solution=np.array([t0, h1, t1])', 'np.array([t0, h1, t1])', 'given array of times'),
                                   (', times_for_solution=[3.0, 2.5, 0.5]', 'np.array([3.0, 2.5, 0.5])', 'given falling times'), (', times_for_solution=[0, 2, 2, 5]', 'np.array([0, 2, 2, 5])', 'given whole times'), (', times_for_solution=(0.5,)', 'np.array([0.5])', 'one given time')):
            oid = '%s%s%s' % (model, cf, extra)
            s = dynamic(an, model, cf + extra, h1=num('h1'))
            if not s.completes(oid, 'simulation runs', AS):
                continue
            o, p, q, sim = s.calls('scipy.integrate.odeint'), s.calls('assimulo.problem.Explicit_Problem'), s.calls('assimulo.problem.Implicit_Problem'), s.calls('.simulate')
            if len(o) + len(sim) != 1 or len(p) + len(q) != len(sim):
                an.record(oid + ' call', 'undecided', 'integration not recognised', AS)
                continue
            given = raw(o[0], 2, 't') if o else sim_arg(sim[0])
            if given is None:
                s.record(oid + ' times', 'violated', 'no times are given to the integrator', AS, 'missing')
                continue
            s.bind('T', given)
            s.equal(oid + ' times', 'np.array(T).tolist()', '(%s).tolist()' % times, 'times given to the integrator', AS, vocab=V)
            if sim:
                s.bind('E', raw(sim[0], 0, 'tfinal'))
                s.equal(oid + ' end', 'E', 't1', 'final time given to the integrator', AS)
                a, k = (p or q)[0].raw
                if 't0' in k or len(a) > (2 if p else 3):
                    s.bind('B', k.get('t0') if 't0' in k else a[2 if p else 3])
                    s.equal(oid + ' start', 'B', 't0', 'initial time given to the integrator', AS)
                else:
                    s.record(oid + ' start', 'violated', 'the initial time is not given to the integrator (it starts at zero)', AS, 'value')
            for v in MODELS[model].states:
                y0 = elems(s.during((o or p or q)[0]), raw((o or p or q)[0], 1, 'y0'))
                if y0 is None:
                    an.record(oid + ' initial value of ' + v, 'undecided', 'initial state not recognised', AS)
                else:
                    s.record(oid + ' initial value of ' + v, 'ok' if y0.count(num(v + '0')) == 1 else 'undecided' if any(y.kind not in ('sym', 'c') for y in y0) else 'violated', 'initial value of %s among %s' % (v, [show(y) for y in y0]), AS, 'value')
    # options of the integrator
    s = dynamic(an, 'Ode', ', configuration_args={"rtol": h1, "mxstep": 50}', h1=num('h1'))
    o = s.calls('scipy.integrate.odeint')
    if s.undecided or len(o) != 1:
        an.record('integrator options', 'undecided', 'integration not recognised', AS)
    else:
        k = o[0].raw[1]
        good = k.get('rtol') is num('h1') and k.get('mxstep') is const(50) and set(k) <= {'rtol', 'mxstep', 't', 'y0', 'func'}
        s.record('integrator options', 'ok' if good else 'violated', 'options given to the integrator: %s' % {a: show(b) for a, b in k.items()}, AS, 'value')
    s = dynamic(an, 'Ode', ', definition_dict={"number_of_time_steps": m2, "initial_time": h1, "end_time": h2, "is_dynamic": True, "domain": m.dom}', h1=num('h1'), h2=num('h2'), m2=sym('m2', 'int'))
    o = s.calls('scipy.integrate.odeint')
    if s.undecided or len(o) != 1:
        an.record('times by dictionary', 'undecided', 'integration not recognised: %s' % s.undecided, AS)
    else:
        s.bind('T', raw(o[0], 2, 't'))
        s.equal('times by dictionary', 'T', 'np.linspace(h1, h2, m2+1)', 'times given to the integrator', AS)
    # the mechanism of compilation
    for model in ('Ode', 'Ode3', 'Dae'):
        for cf in ('',) if model == 'Dae' else ('', ', differential_solver="CVODE"'):
            s = dynamic(an, model, cf + ', compilation_mechanism=s1', s1=strsym('s1'))
            ev = s.calls('sympy.lambdify')
            oid = '%s%s compilation mechanism' % (model, cf)
            if s.undecided or s.st is None or not ev:
                an.record(oid, 'undecided', 'compilation not recognised: %s' % s.undecided, AS)
                continue
            mods = [raw(e, 2, 'modules') for e in ev]
            bad = [e for e, m in zip(ev, mods) if m is None or not uses(s, m, strsym('s1'))]
            s.record(oid, 'violated' if bad else 'ok', 'the configured mechanism is %s the compiler' % ('not given to' if bad else 'given to'), AS, 'value')
    # the latest configuration is the one that is used
    s = dynamic(an, 'Ode', '', runs='S.setConfigurations(initial_time=h1, end_time=h2, is_dynamic=True, domain=m.dom, number_of_time_steps=m2)\nS.runSimulation()\n', h1=num('h1'), h2=num('h2'), m2=sym('m2', 'int'))
    o = s.calls('scipy.integrate.odeint')
    if s.undecided or len(o) != 1:
        an.record('latest configuration', 'undecided', 'integration not recognised: %s' % s.undecided, AS)
    else:
        s.bind('T', raw(o[0], 2, 't'))
        s.equal('latest configuration', 'T', 'np.linspace(h1, h2, m2+1)', 'times given to the integrator', AS)
    # an initial value for the time variable is required
    for model in ('Ode', 'Dae'):
        at = ['solvers:DSolver.__init__' if model == 'Ode' else 'solvers:DaeSolver.__init__']
        s = dynamic(an, model, '', pre='del P.initial_conditions["t_M1"]\n')
        s.rejects('%s without initial time condition' % model, ('AbsentRequiredObjectError',), 'run without an initial condition of the time variable', at)
        for nm in ('["t_M1"]', '"t_M1"'):
            s = dynamic(an, model, ', time_variable_name=%s' % nm)
            s.completes('%s with time variable %s' % (model, nm), 'run with a given time variable', at)


def uses(s, v, x):
    e = elems(s, v)
    return v is x or e is not None and any(uses(s, y, x) for y in e)


def sim_arg(e):
    """times requested from an assimulo simulate(tfinal, ncp, ncp_list)"""
    return raw(e, 2, 'ncp_list')
