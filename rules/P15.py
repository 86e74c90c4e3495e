from .solve import *

RULE = ('separately created models, problems, simulations, domains, expressions, optimizations and property packages share no state: everything reachable from one is the same before and after any use of another, '
        'objects created later are like objects created first, and containers given by the caller come back as they were')
V = {'pyneqsys.symbolic.SymbolicSys', '.solve', 'sympy.solve', 'truthy', '.simulate', 'scipy.integrate.odeint', 'float', 'scipy.linalg.solve', 'sympy.linear_eq_to_matrix', 'numpy.array', 'pygmo.sga', 'pygmo.de', '.get_log', '.extract', '.evolve', '.champion_x', '.champion_f', 'json.load', 'open'}
LIB = DYN + '''
import numpy as np
from src.sloth.core.equation import Equation
from src.sloth.optimization import Optimization, OptimizationProblem
class OP(OptimizationProblem):
    def DeclareObjectiveFunction(self, x):
        self.simulation_instance[self.simulation_instance.problem.models["%s"].p].setValue(x[0])
        return [x[0]*pv]
def model(n):
    A=Model(n, "")
    A.x=A.createVariable("x", ul, "", is_exposed=True, type="output")
    A.y=A.createVariable("y", ul, "", is_exposed=True, type="input")
    A.p=A.createParameter("p", ud, "")
    A.k=A.createConstant("k", ud, "")
    return A
def linear(n, cls=Lin):
    m=cls(n)
    P=Problem(n, "")
    P.addModels(m)
    P.resolve()
    S=Simulation(n, "")
    S.setProblem(P)
    return m, P, S
def dynamic(n, cls=Ode):
    m=cls(n)
    P=Problem(n, "")
    P.addModels(m)
    P.setTimeVariableName([m.t.name])
    P.setInitialConditions({"t_"+n: tic, "a_"+n: a0, "b_"+n: b0, "c_"+n: c0, "a_"+n+"_d": a0, "b_"+n+"_d": b0})
    P.resolve()
    S=Simulation(n, "")
    S.setProblem(P)
    return m, P, S
'''
INP = dict(CONF)
INP.update({k: num(k) for k in ('a0', 'b0', 'c0', 'v1', 'v2', 'lo', 'hi')})
CF = 'S.setConfigurations(initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n%s)\n'
DE = '{"number_of_individuals": v1, "variant_de": v2}'


def pair(an, oid, create, use, watch, at, new='', later=None, pre=''):
    """state of `watch` after `create` and after `create` followed by `use`; what `new` creates afterwards is like what it creates at first"""
    base = an.scn(pre + create, LIB, **INP)
    s = an.scn(pre + create + use, LIB, **INP)
    if not any(e.name.endswith('.solve') for e in s.events):
        s.completes(oid + ' use', 'use of an object', at, vocab=V)
    if watch:
        s.same(oid, base.digest(*watch), s.digest(*watch), 'state of another object changed', at, V)
    if new:
        a = an.scn(pre + new, LIB, **INP)
        b = an.scn(pre + create + use + new, LIB, **INP)
        b.same(oid + ' created later', a.digest(*later), b.digest(*later), 'state of an object created later', at, V)
NESTED = True


def run(an, tier):
    # models
    AT = ['model:Model.__init__']
    uses = {'objects': 'e=A.createEquation("e", "", A.x() == 2.0*A.y())\nA.createVariable("z", ul, "")\nA.createParameter("q", ud, "")\nA.createConstant("h", ud, "")\n', 'values': 'A.p.setValue(v1)\nA.k.setValue(v2)\nA.x.setValue(v1)\n',
            'incorporation': 'C=model("C")\nC.createEquation("e", "", C.x() == 2.0*C.y())\nD=Model("D", "")\nD.incorporateFromExternalModel(C)\nA.incorporateFromExternalModel(D)\n',
            'resolve': 'A()\n', 'domain': 'd=Domain("d", us, A.y, "")\nA.x.distributeOnDomain(d)\nd._register([[v1, v2]])\n', 'ports': 'A.ports["inlets"]["i"]=[A.x]\nA.exposed_vars["input"].clear()\nA.objects_info["variables"]=1\n',
            'connection': 'C=model("C")\nQ=Problem("Q", "")\nQ.addModels([A, C])\nQ.createConnection(A, C, A.x, C.y)\nQ.createConnection("", C, 2.0*A.x(), C.y())\n'}
    for k, u in uses.items():
        pair(an, 'models %s' % k, 'A=model("A")\nB=model("B")\n', u, ['B'], AT, 'E=model("E")\nF=Model("F", "")\n', ['E', 'F'])
    # expressions and equations over the same variable
    AE = ['core.expression_evaluation:EquationNode.__init__']
    for e in ('x()+y()', 'x()*y()/2.0', 'eo.Exp(x()/y())', 'x()**2', '3.0-x()', 'x() == y()'):
        pair(an, 'expressions %s' % e, 'A=model("A")\nx=A.x\ny=A.y\nb=%s\n' % e, 'a=%s\na2=%s\ne=A.createEquation("e", "", a2)\nA.p.setValue(v1)\nx.setValue(v2)\nc=%s\n' % (e, e if '==' in e else e + ' == ' + e, e), ['b.symbolic_object', 'b.repr_symbolic', 'b.equation_type', 'list(b.symbolic_map)', 'list(b.variable_map)', 'b.unit_object'] if '==' not in e else ['b[0].symbolic_object', 'b[1].symbolic_object', 'list(b[0].symbolic_map)'],
             AE, 'n=EquationNode()\nk=Equation("k", "")\n', ['n', 'k'])
    # the same expression of the same or of another object of that name, made again
    DX = 't=Variable("t", us, "")\nx=Variable("x", ul, "")\ny=Variable("y", ul, "")\nx.distributeOnDomain(Domain("d", us, t))\n'
    for e in ('x()', 'x.Diff(t)', 'x.Diff()', '2.0*x()', 'x()+y()', 'eo.Sqrt(x()/y())', 'eo.Max(x(), y())', 'x() == y()', 'x.Diff(t) == y()/t()'):
        rd = 'r' if '==' not in e else 'r[0]'
        touch = 'r=%s\n%s.symbolic_map["zz"]=v1\n%s.variable_map["zz"]=v1\n%s.equation_type["is_linear"]=v2\n%s.symbolic_object=v1\n%s.name="n"\n' % ((e,) + (rd,) * 5)
        pair(an, 'expression %s again' % e, DX, touch, [], AE, DX + 'n=%s\n' % e, ['n'])
        create = DX + 'b=%s\n' % e
        pair(an, 'expression %s beside itself' % e, create, touch, ['b'], AE)
    # models of a name that was used before
    for k, u in uses.items():
        pair(an, 'model of a used name, %s' % k, 'A=model("A")\n', u, [], AT, 'A=model("A")\n', ['A'])
        pair(an, 'other model of a used name, %s' % k, 'A=model("A")\n', u, [], AT, 'A=Lin("A")\nA()\n', ['A'])
    # quantities and units
    AU = ['core.unit:Unit', 'core.quantity:Quantity']
    pair(an, 'quantities', 'a=Variable("a", ul, "")\nb=Variable("b", ul, "")\n', 'a.setValue(v1)\na.description="n"\nr=a()*a()\nw=ul*ul/us**2\nq=ul*3.0\n', ['b', 'ul', 'us'], AU, 'c=Variable("c", ud, "")\np=Parameter("p", ud, "")\nk=Constant("k", ud, "")\nu=Unit("u", {})\n', ['c', 'p', 'k', 'u'])
    # problems
    AP = ['problem:Problem.__init__']
    new = 'R=Problem("R", "")\n'
    uses = {'models': 'A=model("A")\nP.addModels(A)\n', 'conditions': 'P.setInitialConditions({"x": v1})\nP.setTimeVariableName("t")\n', 'connection': 'A=model("A")\nC=model("C")\nP.addModels([A, C])\nP.createConnection(A, C, A.x, C.y)\n',
            'resolve': 'A=Lin("A")\nP.addModels(A)\nP.resolve()\nP.resolve()\n', 'dynamic': 'A=Ode("A")\nP.addModels(A)\nP.setTimeVariableName([A.t.name])\nP.resolve()\n'}
    for k, u in uses.items():
        pair(an, 'problems %s' % k, 'P=Problem("P", "")\nQ=Problem("Q", "")\n', u, ['Q'], AP, new, ['R'])
        pair(an, 'resolved problems %s' % k, 'P=Problem("P", "")\nB, Q, S=linear("B")\n', u, ['Q'], AP, 'E, R, T=linear("E")\n', ['R'])
    # simulations of every kind
    AS = ['simulation:Simulation.__init__', 'simulation:Simulation.runSimulation']
    lat = 'E, R, T=linear("E")\n'
    for cls in ('Lin', 'Nl'):
        for conf in ('', 'compile_equations=False', 'arg_names=["p_A"], args=[v1]' if cls == 'Lin' else 'initial_guess={"x_A": v1, "y_A": v2}', 'configuration_args={}', 'print_output=True'):
            for other, mk in (('Lin', 'linear("B")'), ('Ode', 'dynamic("B")')):
                pair(an, 'simulations %s %s beside %s' % (cls, conf, other), 'A, P, S=linear("A", %s)\nB, Q, U=%s\nU.setConfigurations()\n' % (cls, mk), 'S.setConfigurations(%s)\nS.runSimulation()\nr=S.getResults()\nd=S.getResults("dict")\nS.reset()\n' % conf, ['U'], AS, lat, ['T'])
    for cls in ('Ode', 'Dae'):
        for conf in ('', ', compile_equations=False', ', variable_name_map={"a_A": "alpha"}', ', configuration_args={"mxstep": v1}' if cls == 'Ode' else ', configuration_args={}', ', differential_solver="CVODE"' if cls == 'Ode' else ', times_for_solution=[t0, t1]'):
            for other, mk in (('Lin', 'linear("B")'), ('same', 'dynamic("B", %s)' % cls)):
                pair(an, 'simulations %s %s beside %s' % (cls, conf, other), 'm, P, S=dynamic("A", %s)\nB, Q, U=%s\nU.setConfigurations()\n' % (cls, mk), CF % conf + 'S.runSimulation()\nr=S.getResults()\nd=S.getResults("dict")\nS.reset()\n', ['U', 'B'], AS, lat, ['T'])
        for other, mk in (('Lin', 'linear("A")'), ('Ode', 'dynamic("A")'), ('same', 'dynamic("A", %s)' % cls)):
            pair(an, 'simulation of used names, %s before %s' % (cls, other), 'm, P, S=dynamic("A", %s)\n' % cls, CF % '' + 'S.runSimulation()\nr=S.getResults()\n', [], AS, 'm, P, S=%s\nS.setConfigurations()\n' % mk, ['S', 'P'])
    for cls in ('Lin', 'Nl'):
        for other, mk in (('Nl', 'linear("A", Nl)'), ('Lin', 'linear("A")'), ('Ode', 'dynamic("A")')):
            pair(an, 'simulation of used names, %s before %s' % (cls, other), 'm, P, S=linear("A", %s)\n' % cls, 'S.setConfigurations()\nS.runSimulation()\nr=S.getResults()\n', [], AS, 'm, P, S=%s\nS.setConfigurations()\n' % mk, ['S', 'P'])
    # optimizations
    AO = ['optimization:Optimization.__init__', 'optimization:Optimization.runOptimization']
    cr = 'A, P, S=linear("A")\nB, Q, U=linear("B")\nS.setConfigurations()\nU.setConfigurations()\nop=OP(1)\noq=OP(1)\nO2=Optimization(simulation=U, optimization_problem=oq, optimization_parameters=["p_B"], constraints=[lo, hi])\n'
    for alg in ('de', 'sade', 'ga', 'pso'):
        for conf in ('', ', optimization_configuration=' + DE):
            pair(an, 'optimizations %s %s' % (alg, conf), cr, 'op()\nO=Optimization(simulation=S, optimization_problem=op, optimization_parameters=["p_A"], optimizer="%s", constraints=[hi, lo]%s)\nO.runOptimization()\nO.constraints_additional_args.append(1)\nO.additional_args.append(1)\n' % (alg, conf) if False else
                 'op()\nO=Optimization(simulation=S, optimization_problem=op, optimization_parameters=["p_A"], optimizer="%s", constraints=[hi, lo]%s)\nO.runOptimization()\nO.setConstraints([v1, v2])\n' % (alg, conf), ['O2.optimization_configuration', 'O2.constraints', 'oq.bounds', 'oq.is_maximization', 'O2.optimization_parameters', 'O2.simulation', 'O2.best_parameters', 'O2.run_sucessful'], AO,
                 'E, R, T=linear("E")\nT.setConfigurations()\not=OP(1)\nO3=Optimization(simulation=T, optimization_problem=ot, optimization_parameters=["p_E"], constraints=[lo, hi])\n', ['O3.optimization_configuration', 'O3.constraints', 'O3.additional_args', 'O3.constraints_additional_args', 'ot.bounds'])
    # containers of the caller
    AC = ['simulation:Simulation.setConfigurations', 'solvers:Solver']
    for cls, mk in (('Lin', 'linear("A", Lin)'), ('Nl', 'linear("A", Nl)'), ('Ode', 'dynamic("A", Ode)'), ('Dae', 'dynamic("A", Dae)')):
        given = {'arg_names': '["p_A"]' if cls == 'Lin' else '["k_A"]', 'args': '[v1]', 'initial_guess': '{"x_A": v1, "y_A": v2}', 'configuration_args': '{}', 'variable_name_map': '{"a_A": "alpha", "x_A": "q"}', 'times_for_solution': '[t0, t1]', 'output_headers': '["t", "u", "v"]'}
        if cls == 'Nl':
            given.pop('arg_names'), given.pop('args')
        if cls in ('Lin', 'Nl'):
            given.pop('times_for_solution')
        dyn = ', initial_time=t0, end_time=t1, is_dynamic=True, domain=m.dom, number_of_time_steps=n' if cls in ('Ode', 'Dae') else ''
        for k, v in given.items():
            for how in ('argument', 'dictionary'):
                create = 'm, P, S=%s\nc=%s\ndd={"%s": c}\n' % (mk, v, k)
                use = 'S.setConfigurations(%s%s)\nS.runSimulation()\nr=S.getResults("dict")\nS.reset()\nS.runSimulation()\n' % ('%s=c' % k if how == 'argument' else 'definition_dict=dd', dyn)
                pair(an, 'caller %s %s by %s' % (cls, k, how), create, use, ['c', 'dd'], AC)
        if cls in ('Ode', 'Dae'):
            create = 'm=%s("A")\nP=Problem("A", "")\nL=[m]\nP.addModels(L)\ntn=[m.t.name]\nP.setTimeVariableName(tn)\nic={"t_A": tic, "a_A": a0, "b_A": b0, "c_A": c0, "a_A_d": a0, "b_A_d": b0}\nP.setInitialConditions(ic)\nP.resolve()\nS=Simulation("A", "")\nS.setProblem(P)\n' % cls
            pair(an, 'caller conditions %s' % cls, create, CF % '' + 'S.runSimulation()\nS.runSimulation()\nP.resolve()\n', ['ic', 'tn', 'len(L)'], AC)
        # a run leaves the problem, its models and the configurations as they were
        create = 'm, P, S=%s\nS.setConfigurations(%s)\n' % (mk, dyn[2:])
        pair(an, 'run leaves the problem %s' % cls, create, 'S.runSimulation()\nr=S.getResults("dict")\n', ['P.models', 'P.connections', 'P.initial_conditions', 'P.variable_dict', 'P.parameter_dict', 'P.equation_block.equations', 'P.equation_block._equations_list', 'P.equation_block._equation_groups',
                                                                                                    'P.equation_block.variable_dict', 'P.equation_block.parameter_dict', 'P.equation_block._var_list', 'P.equation_block._param_list',
                                                                                                    '{k: v for k, v in S.configurations.items() if k != "domain"}'] if cls in ('Lin', 'Nl') else ['P.connections', 'P.initial_conditions', 'list(P.models)', 'list(P.variable_dict)', 'list(P.parameter_dict)', 'P.equation_block._equations_list', '[len(g) for g in P.equation_block._equation_groups.values()]', '[e.name for e in P.equation_block.equations]', 'P.equation_block._var_list', 'P.equation_block._param_list',
                                                                                                    '[(v.value, v.is_specified) for v in m.variables.values()]', '[(v.value, v.is_specified) for v in m.parameters.values()]', '{k: v for k, v in S.configurations.items() if k != "domain"}'], AC)
    for k, v in (('optimization_configuration', DE), ('constraints', '[lo, hi]'), ('constraints', '([lo], [hi])'), ('optimization_parameters', '["p_A"]')):
        args = {'optimization_configuration': DE, 'constraints': '[lo, hi]', 'optimization_parameters': '["p_A"]'}
        args[k] = 'c'
        pair(an, 'caller %s %s' % (k, v), 'A, P, S=linear("A")\nS.setConfigurations()\nop=OP(1)\nop()\nc=%s\n' % v, 'O=Optimization(simulation=S, optimization_problem=op, %s)\nO.runOptimization()\nO.runOptimization()\n' % ', '.join('%s=%s' % x for x in args.items()), ['c'], AO)
    two = 'm=Ode("A")\nP=Problem("A", "")\nP.addModels(m)\nic={"t_A": tic, "a_A": a0}\nid={"b_A": b0, "c_A": c0, "a_A_d": a0, "b_A_d": b0, "a_A": b0}\ntn=["z", "c", "a"]\n'
    for k, use in (('conditions in two steps', 'P.setInitialConditions(ic)\nP.setInitialConditions(id)\nP.setInitialConditions(ic)\nP.resolve()\n'), ('conditions of two problems', 'Q=Problem("Q", "")\nP.setInitialConditions(ic)\nQ.setInitialConditions(ic)\nQ.setInitialConditions(id)\n'),
                   ('several names of the time variable', 'P.setTimeVariableName(tn)\nP.resolve()\n')):
        pair(an, 'caller ' + k, two, use, ['ic', 'id', 'tn'], ['problem:Problem.setInitialConditions', 'problem:Problem.setTimeVariableName'])
    pair(an, 'caller models', 'A=model("A")\nB=model("B")\nL=[B, A]\nP=Problem("P", "")\n', 'P.addModels(L)\nP.addModels(model("C"))\nQ=Problem("Q", "")\nQ.addModels(L)\nQ.addModels(P.models["C"])\nP.resolve()\n', ['len(L)', 'L[0] is B', 'L[1] is A'], ['problem:Problem.addModels'])
    # domains
    AD = ['core.domain:Domain.__init__', 'core.domain:Domain._register']
    for k, use in (('distribution', 'A.x.distributeOnDomain(D)\nA.y.distributeOnDomain(D)\n'), ('table', 'A.x.distributeOnDomain(D)\nD._register([[v1, v2]])\nD._register([[v2, v1]])\n'), ('another domain', 'G=Domain("g", us, A.z)\nA.x.distributeOnDomain(G)\nG._register([[v1, v2]])\n')):
        for args in ('', ', "d", {"all": lo}, {"all": hi}'):
            pair(an, 'domains %s%s' % (k, args), 'A=model("A")\nA.z=A.createVariable("z", us, "")\nA.w=A.createVariable("w", us, "")\nD=Domain("d", us, A.z%s)\nF=Domain("f", us, A.w%s)\n' % (args, args), use, ['F'], AD, 'K=model("K")\nH=Domain("h", us, K.y)\n', ['H'])
    for b in ('{"all": lo}', '{"z_A": lo}'):
        pair(an, 'caller bounds ' + b, 'A=model("A")\nA.z=A.createVariable("z", us, "")\nbl=%s\nbh=%s\niv=[A.z]\n' % (b, b.replace('lo', 'hi')), 'D=Domain("d", us, iv, "", bl, bh)\nF=Domain("f", us, iv, "", bl, bh)\nA.x.distributeOnDomain(D)\n', ['bl', 'bh', 'len(iv)', 'iv[0] is A.z'], AD)
    for lst, call in (('[A.x]', 'P.createConnection(A, B, c, B.y)'), ('[B.y]', 'P.createConnection(A, B, A.x, c)')):
        pair(an, 'caller connection ' + lst, 'A=model("A")\nB=model("B")\nP=Problem("P", "")\nP.addModels([A, B])\nc=%s\n' % lst, call + '\n' + call + '\nP.resolve()\n', ['len(c)', 'c[0] is A.x', 'c[0] is B.y'], ['problem:Problem.createConnection'])
