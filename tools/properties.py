# property texts; read by spec.py
EE = C + 'expression_evaluation.py'
prop('P01', 'Unit algebra', 'The unit of a product, quotient or numeric power is, for each of the seven base dimensions, the sum, difference or multiple of the operands\' exponents; comparison of units and the dimensionless test agree with equality of all seven exponents. Arithmetic on quantities with values gives the arithmetic of their values with that unit algebra, and sums and differences need coherent units.',
     ['inputs'], 'all 7-vectors of exponents, all numeric powers, all values',
     'tests use a handful of units; the algebra must hold for every exponent vector', [C + 'unit.py', C + 'quantity.py'], [('unit operators', 'Unit.__mul__, __truediv__, __pow__, __eq__'), ('quantity operators', 'Quantity.__add__ ...')])
prop('P02', 'Dimensional coherence gate', 'Adding or subtracting two expressions, or equating them in an equation, succeeds exactly when their units have the same base-dimension exponents and raises the dimensional coherence error otherwise, whatever the order of the operands and wherever the sum stands in a larger expression or equation. Plain numbers are taken as coherent with anything, and the unit of the result is that of the operands.',
     ['inputs', 'programs'], 'all pairs of unit exponent vectors, every operand order and form of equation',
     'tests try a few coherent and incoherent pairs', [EE, C + 'equation.py'], [('coherence test', 'EquationNode._checkDimensionalCoherence / unit comparison')])
prop('P03', 'Predefined units are right and immutable by use', 'Every predefined unit has the base-dimension exponents its name denotes (for example Pa is kg m^-1 s^-2), and no use of a predefined unit in unit algebra, quantities or expressions changes it.',
     ['inputs', 'programs'], 'every predefined unit; every use of them', 'tests compare a few units and never look at them after use',
     [C + 'template_units.py', C + 'unit.py'], [('unit table', 'template_units')])
prop('P04', 'Transcendental functions and exponents need dimensionless arguments', 'The functions (exponential, logarithms, trigonometric, square root, absolute value) and every exponent given as an expression accept exactly dimensionless arguments, give a dimensionless result and raise an error otherwise; powers with a number or a known exponent scale the unit of their base. Min and Max accept exactly arguments of one common unit (numbers excepted) and return that unit.',
     ['inputs', 'programs'], 'all unit exponent vectors of the arguments', 'tests use a few units', [C + 'equation_operators.py', EE], [('argument checks', 'equation_operators'), ('power', 'EquationNode.__pow__')])
prop('P05', 'Specifying a quantity is atomic and unit-checked', 'Giving a value to a constant, parameter or variable is accepted exactly for a plain int or float, a number with a coherent unit, or a coherent quantity of the same kind; afterwards it holds that value in its own, unchanged unit and is specified. Any other attempt raises an error and leaves value, unit and specification state as they were, and other quantities are never affected.',
     ['inputs', 'histories'], 'all values, all unit pairs, already specified or not', 'tests set a few values', [C + 'quantity.py', C + 'parameter.py', C + 'variable.py', C + 'constant.py'], [('value setter', 'Quantity.setValue and overrides')])
prop('P06', 'Use of a quantity in expressions', 'A quantity used in an expression contributes its own symbol and is an unknown of the expression while it has no value; once specified it contributes its value, is no longer an unknown, but is still listed and printed under its name. Expressions built earlier keep what they were built with, and each use is independent of the others.',
     ['inputs', 'histories'], 'all names, values, units; any order of specifying and using', 'tests use one order', [C + 'quantity.py', EE], [('use in expression', 'Quantity.__call__')])
prop('P07', 'Operators and functions mean what they say', 'For every operand combination (expression or number, either side), +, -, *, /, ** and the functions Log, Log10, Sqrt, Abs, Exp, Sin, Cos, Tan, Min, Max build exactly the corresponding mathematical expression, both in the content that is solved and in the printed form. The derivative of a variable is the symbolic derivative by the given variable, with the unit of the quotient.',
     ['inputs', 'programs'], 'all operand expressions and numbers', 'tests evaluate a few expressions at a few points', [EE, C + 'equation_operators.py', C + 'variable.py'], [('operators', 'EquationNode'), ('functions', 'equation_operators')])
prop('P08', 'Objects and unknowns of an expression', 'The objects listed by a compound expression, and its unknowns, are exactly the union of those of its operands, for every operator and function; numbers add none and nothing is lost, duplicated or invented.',
     ['programs', 'inputs'], 'every operator and function over arbitrary operand expressions', 'tests look at a few expressions', [EE, C + 'equation_operators.py'], [('map union', 'EquationNode operators')])
prop('P09', 'Building expressions has no side effects', 'Building an expression, comparison or equation leaves its operands unchanged (contents, units, objects, unknowns, classification), also when it fails, and the result shares no modifiable table with an operand or with another result.',
     ['programs', 'histories'], 'every operator, function and equation form over arbitrary operands', 'tests look at results, not at operands afterwards', [EE, C + 'equation.py', C + 'equation_operators.py'], [('operator results', 'EquationNode operators')])
prop('P10', 'Classification of expressions and equations', 'Every expression and equation is exactly one of linear, nonlinear or differential: sums and the two sides of an equation take the strongest (differential over nonlinear over linear), multiplying or dividing by known factors keeps the other operand\'s class, products or quotients of unknowns, division by an unknown, powers and functions are at least nonlinear, and anything containing the derivative of an unknown is differential.',
     ['programs'], 'every operator over arbitrary operands of each class', 'tests classify a few expressions', [EE, C + 'equation.py', C + 'equation_operators.py'], [('classification', 'EquationNode.equation_type, Equation._getTypeFromExpression')])
prop('P11', 'Equation residual, sides and evaluation', 'An equation declared as left == right has residual left - right over the objects of both sides (a numeric right side counts as that constant); one declared as a single expression has that expression as residual. Selecting a side, evaluating an equation on given values or on the values of its objects, and compiling it use exactly the requested content; asking for a side that does not exist or giving something that is no equation raises an error.',
     ['inputs', 'programs'], 'arbitrary sides and values', 'tests evaluate a few equations', [C + 'equation.py'], [('residual', 'Equation.setResidual'), ('evaluation', 'Equation.eval')])
prop('P12', 'Declaring objects in a model', 'Each variable, parameter, constant and equation created through a model is registered exactly once, in the table of its kind, under its name extended by the model name, with the unit, description, bounds, value, direction and owner it was created with. Declaration order is kept, an object declared again takes the place of the earlier one, and no other model or table is affected.',
     ['programs', 'inputs'], 'arbitrary names, units, bounds, values, any number of declarations', 'tests declare a few objects', [S + 'model.py'], [('creation', 'Model.createVariable / createParameter / createConstant / createEquation')])
prop('P13', 'Undeclared objects are rejected', 'Creating an equation that mentions, anywhere in it, an object not declared in its model raises the undeclared-object error and registers nothing; equations over declared variables, parameters and constants are accepted.',
     ['programs'], 'any position of the foreign object in the equation, any kind of object', 'tests try one position', [S + 'model.py'], [('check', 'Model._checkEquation_')])
prop('P14', 'Incorporating a model', 'Incorporating another model copies its variables, parameters, constants and equations under the receiving model\'s name, with equations rewritten consistently to the copies (residual, both sides, listed objects) and exposure kept. The source model and its objects are not changed, then or by later changes to the copies.',
     ['programs', 'histories'], 'arbitrary values, units, bounds; chains of incorporation; every selection of kinds', 'tests incorporate one model', [S + 'model.py'], [('incorporation', 'Model.incorporateFromExternalModel')])
PB = S + 'problem.py'
SO = S + 'solvers.py'
EBK = C + 'equation_block.py'
SI = S + 'simulation.py'
prop('P16', 'The assembled system is complete', 'The system a resolved problem hands on consists of exactly the equations of its models and connections, each once, in the order in which models were added and equations declared, every one as its residual left - right. Its unknowns are exactly the unspecified variables mentioned in those equations and its parameters exactly those mentioned, and they are the objects of the models themselves.',
     ['programs', 'inputs'], 'every set of models, equations, connections; arbitrary values', 'tests assemble one or two fixed systems', [PB, EBK, S + 'model.py'], [('assembly', 'Problem._buildEquationBlock'), ('block', 'EquationBlock.__call__')])
prop('P17', 'Problem kind', 'The kind of a resolved problem follows from its equations alone, whatever their order and model: only differential equations make it differential, differential with others differential-algebraic, no differential but some nonlinear nonlinear, only linear ones linear. After changes and a new resolve the kind is that of the current equations.',
     ['programs', 'histories'], 'every mixture and order of equation kinds over one or several models', 'tests use one problem of a kind', [PB, EBK], [('kind', 'Problem._getProblemType'), ('grouping', 'EquationBlock._assignEquationGroups')])
prop('P18', 'Connections between models', 'Connecting variables succeeds exactly when every source is an exposed output of the first model and every target an exposed input of the second, and then adds to the receiving model exactly one equation, sum of targets - sum of sources (or the given equation), recorded with its direction in the problem. Connecting two expressions adds exactly one equation, target - source; any other attempt raises an error and changes nothing, and no connection replaces or alters another.',
     ['programs', 'histories'], 'single variables and lists of variables, every exposure, any number of connections', 'tests connect one pair', [PB, S + 'model.py'], [('connection', 'Problem.createConnection'), ('entry', 'Model._createConnection')])
prop('P19', 'Resolving rebuilds the system', 'Resolving a problem runs the declarations of every model once, objects before equations, and assembles the system only after all models have been declared. Resolving again after values, models, equations or connections changed gives exactly the system of the current models - nothing stale, lost or duplicated - and does not disturb other problems over the same models.',
     ['histories', 'programs'], 'every sequence of resolving and changing', 'tests resolve once', [PB, S + 'model.py', EBK], [('resolving', 'Problem.resolve'), ('declarations', 'Model.__call__')])
prop('P20', 'The system handed to the solver is the system of the problem', 'The function given to an integrator returns at each position the right side of the equation of the variable whose initial value stands at that position, at the given state and time; for differential-algebraic problems it returns exactly the residuals of all equations, and initial derivatives and differential/algebraic flags are aligned with the variables. Algebraic solvers get exactly the residuals over exactly the unknowns, and the choice of compiled or interpreted evaluation makes no difference.',
     ['inputs', 'programs'], 'all states, times and parameter values; every declaration order; both ways of evaluation', 'tests compare a few solution values of models in which order does not matter', [SO, EBK], [('compilation', 'EquationBlock._getEquationBlockAsFunction'), ('dynamic solvers', 'DSolver.solve, DaeSolver.solve'), ('algebraic solvers', 'LASolver, NLASolver')])
prop('P21', 'Mechanism dispatch', 'A simulation is solved with the mechanism configured for the kind of its problem (or the default of that kind); mechanisms configured for other kinds have no influence. A mechanism name not offered for that kind is rejected with the absent-object error before anything is solved.',
     ['inputs', 'programs'], 'every kind of problem and every mechanism name', 'tests run the default mechanism', [SO, SI], [('dispatch', '_createSolver'), ('look-up', 'LASolver.lookUpForSolver, NLASolver.lookUpForSolver, DSolver.lookUpForSolver')],
     note='Known finding: RADAU is listed as a mechanism for differential problems but has no implementation (see KNOWN_FINDINGS.json).')
prop('P22', 'Only successful solutions are kept', 'A run of an algebraic system completes and stores a solution only where the solver reported success; otherwise it raises the numerical error, and an error raised by a solver library reaches the caller. After any failed run no output is kept, not even that of an earlier run, the status is not successful, nothing is registered in the domain, and an unsuccessful improvement of the initial guess is ignored.',
     ['histories', 'inputs'], 'every answer of the solver, at first and at later runs; an error at every library call', 'tests only run systems that are solved', [SO, SI], [('success test', '_symbolicSysSolveMechanism'), ('output', 'Simulation.runSimulation')])
prop('P23', 'Results and initial data carry the right labels', 'Every value of a solution is reported under the variable whose initial value or unknown stood at its position in the solver, whatever the order of declaration, of the equations, of the domain members and of the initial conditions; given result names rename exactly those labels, and numeric algebraic solutions are listed in the order of the unknowns. Every initial guess reaches the position of its variable, a missing initial value of an integrated variable is never made up, a reset empties the results, and the residual table pairs each equation with its own residual.',
     ['programs', 'inputs'], 'all values; every order of variables, equations, domain members and conditions', 'tests use models in which the orders coincide', [SO, C + 'domain.py', SI], [('registration', 'DSolver.solve, DaeSolver.solve'), ('table', 'Domain._register'), ('results', 'Simulation.getResults')])
prop('P24', 'Degrees-of-freedom check', 'With the sanity check on, a run proceeds exactly when the number of unknowns plus unspecified parameters equals the number of equations (plus one for every time variable on which the equations of a dynamic problem depend explicitly); otherwise an error is raised before anything is solved. Variables and parameters that appear in no equation do not count, and with the check switched off the run is not stopped by it.',
     ['programs'], 'all combinations of counts within the enumerated ranges', 'tests run well-posed systems', [S + 'analysis.py', SI], [('check', 'DOF_Analysis._dofTest')])
prop('P25', 'Configurations reach the run unchanged', 'Each configured value is the one given as argument, or by a dictionary or file, which replaces exactly the values it names (a nonzero number of parameters to optimize given as argument prevails); the rest keep their arguments or documented defaults, and a later configuration fully replaces an earlier one. For dynamic runs the time variable defaults to that of the problem, and initial time, final time, requested times (given or evenly spaced), initial values and integrator options reach the integrator unchanged.',
     ['inputs', 'programs'], 'arbitrary values of every configuration, in each of the three ways of giving them', 'tests configure a few values', [SI, SO], [('configuration', 'Simulation.setConfigurations'), ('use', 'DSolver.solve, DaeSolver.solve')])
prop('P26', 'Status and results', 'The status of a simulation is 0 exactly when its last run stored a result, and is not 0 before any run. Reading results changes nothing and gives containers of its own each time, results of an unknown kind are refused with the unexpected-value error, and indexing a simulation by a parameter or its name gives that parameter.',
     ['histories', 'inputs'], 'every kind of problem; any solver answer; reading before, after and repeatedly', 'tests read results once after a successful run', [SI], [('status', 'Simulation.getStatus'), ('results', 'Simulation.getResults')])
DO = C + 'domain.py'
OT = S + 'optimization.py'
prop('P27', 'Domain tables', 'A domain keeps one table per independent variable whose columns are the independent variables followed by the distributed objects in the order of their distribution; registering values appends exactly those rows under the columns they were given for, after the rows already there, and values of another width are rejected without changing the table. Renaming changes exactly the named labels, a reset empties the tables but keeps their columns, access by label gives exactly that column, and no other domain is affected.',
     ['histories', 'inputs'], 'arbitrary values and labels; any sequence of registering, renaming and resetting', 'tests register one set of rows once', [DO, C + 'quantity.py'], [('table', 'Domain._register, Domain._distributeOnDomain'), ('labels', 'Domain.__getitem__, Domain.getValues')])
prop('P28', 'Optimizer configuration', 'The algorithm an optimization uses is the selected one, built with exactly the configured options, given by dictionary or file, and the documented default for each option not given; the logged columns are those of that algorithm and saving writes exactly the configuration in use. A name that is not offered is rejected with the unexpected-value error and a configuration of another kind with the absent-object error.',
     ['inputs', 'configurations'], 'arbitrary values of every option and every selection of options, for each algorithm', 'tests run one algorithm with a few options', [OT], [('selection', 'Optimization._setOptimizer'), ('defaults', 'Optimization.__init__')])
prop('P29', 'Optimization runs', 'An optimization runs only on a readied problem and, where constraints are given by name, with constraints for every parameter; otherwise the absent-object error is raised and nothing is evolved. A run evolves exactly one population of the configured size over the bounds given, evaluating the objective of the problem on the simulation of the optimization, and reports exactly the champion of the evolved population (a later run replaces it; before any run results are refused). Where maximization is asked for, the library is given the negated objective.',
     ['inputs', 'histories', 'configurations'], 'all parameters, bounds and objectives; every answer of the optimizer; repeated runs', 'tests optimize one function with one algorithm', [OT], [('run', 'Optimization.runOptimization'), ('gate', 'Optimization._performSaneTests'), ('bounds', 'OptimizationProblem.DeclareSetBounds')],
     note='Known finding: is_maximization never reaches the optimizer, which always minimises (see KNOWN_FINDINGS.json).')
prop('P15', 'Isolation', 'Separately created models, problems, simulations, domains, expressions and optimizations share no modifiable state: whatever is done with one leaves everything reachable from another as it was, and objects created later are like objects created first. Lists and dictionaries given by the caller come back unchanged, and running a simulation leaves its problem, models and configurations as they were.',
     ['histories', 'programs'], 'arbitrary values; every kind of object and use beside another', 'tests use one object at a time in a fresh process', [S + 'model.py', PB, SI, SO, OT, EE], [('construction', 'Model.__init__, Problem.__init__, Simulation.__init__, EquationNode.__init__'), ('use', 'Simulation.runSimulation, Optimization.runOptimization')])
UL = S + 'unit_op_library.py'
PK = C + 'property_package.py'
prop('P30', 'Balances of the unit operations', 'Each unit operation of the library (mixer, splitter, tank, fermenter, pump; valve, heater and cooler with one component) declares exactly its balances: molar, mass and energy conservation (in tanks accumulation = in - out, plus heat), for several components their composition equations, equal inlet and outlet temperature or the rise given by the heat duty, and the pressure equal, lowered (valve, heater, cooler) or raised (pump) by Delta_P, and for valves the volumetric outlet flow. A parameter that was not given stays open. All quantities have the unit of their kind, inlet quantities are exposed as input and outlet ones as output.',
     ['inputs', 'configurations'], 'all values of parameters and properties, one, two or three components, parameters given or left open', 'the stable tests declare no unit operation of the library', [UL], [('balances', 'Mixer.__init__, Tank.DeclareEquations, Valve.DeclareEquations, SimplePump.DeclareEquations, Heater.DeclareEquations')],
     note='Not covered: flashes and valves, heaters and coolers with several components, which cannot be built upstream (see DESIGN.md).')
prop('P31', 'Streams, property packages and ports', 'A stream given one of its fluxes gets the other by mdot = ndot * MW / 1000 (molar mass of the last phase of its property package), keeps what was given, and brings its package to exactly the temperature and pressure given. A property package gives each phase under its name ("*" the last); adding packages appends exactly the missing phases in order and changes no other package; the mixture of a package has the mass or molar fractions given; the ports of a unit operation list exactly the streams set.',
     ['inputs', 'configurations'], 'all fluxes, temperatures, pressures and molar masses; any selection of given values; any overlap of phases', 'the stable tests resolve no stream', [UL, PK, S + 'unit_op.py'], [('fluxes', 'MaterialStream.DeclareParameters'), ('addition', 'PropertyPackage.__add__'), ('ports', 'UnitOp._setInlets, UnitOp._setOutlets')])
AN = S + 'analysis.py'
prop('P32', 'Reports', 'A model report has one row per equation with its name, description, printed form, variables, parameters and constants (specified ones marked) and kind, and a problem report gives its name, kind and the report of each model. Result tables show every variable with its unit and the value the results hold, dynamic ones the times and values under the label of each column (given headers, or by default the labels of the domain, both in the order of the domain), and are refused before any run. Listing the inputs and outputs of a model names exactly its exposed variables. A printed unit shows exactly its non-zero dimensions, dumped configurations are the ones in use under the given or default file name, error messages can be printed, and reporting changes nothing.',
     ['inputs', 'programs', 'configurations'], 'any equations, objects and specified subsets; every solver answer; every order of variables and domain members', 'tests print reports without looking at them', [AN, SI, SO, C + 'unit.py', S + 'model.py', C + 'error_definitions.py'], [('rows', 'Analysis.modelReport'), ('results', 'Simulation.showResults'), ('printed unit', 'Unit.__str__'), ('dump', 'Simulation.dumpConfigurations')])
prop('P33', 'Plots of time series', 'A plot draws, for every pair of given abscissae and ordinates, one curve through exactly those values in the order given, under its own label and marker (none if not given) and with the given line width; series may be given as values or as column names of a domain, and a column that does not exist raises ValueError with nothing drawn. The horizontal range holds every abscissa; axis labels, grid, legend, file and display follow the arguments, the figure is cleared afterwards so plots do not mix, and the data are unchanged. A simulation hands every argument to the plotter it was given.',
     ['inputs', 'configurations'], 'arbitrary values, labels and options; several series', 'the one plot test only looks for the file', [S + 'plotter.py', SI], [('curves', 'Plotter.plotTimeSeries'), ('forwarding', 'Simulation.plotTimeSeries')])
prop('N01', 'Algebraic solutions satisfy their equations', 'A solution reported for a linear or nonlinear problem makes every residual zero to the tolerance of the solver, and a well-posed linear system is always solved.',
     ['inputs'], 'all coefficient values and starting points', 'tests solve a few systems', [SO], [('solving', 'LASolver.solve, NLASolver.solve')],
     na='Depends on the convergence of iterations inside scipy, sympy and pyneqsys for runtime values; no static argument over this source bounds it. What is passed to the solvers and that only reported successes are kept is claimed as P20 and P22.')
prop('N02', 'Accuracy of time integration', 'The values reported for a dynamic problem agree with the exact solution to the tolerances of the integrator at every requested time.',
     ['inputs'], 'all right sides, initial values and times', 'tests compare a few points', [SO], [('integration', 'DSolver.solve, DaeSolver.solve')],
     na='A statement about the numerical error of ODEPACK and SUNDIALS on arbitrary right sides; not decidable from this source. The routing of the system, times and results is claimed as P20, P23 and P25.')
prop('N03', 'Quality of optimisation results', 'The best parameters reported by an optimization lie within the bounds, are never worse than the initial population, and approach the optimum.',
     ['inputs'], 'all objectives, bounds and random seeds', 'tests run one optimization', [OT], [('evolution', 'Optimization.runOptimization')],
     na='Decided by the stochastic algorithms of pygmo at run time. That the configured algorithm, bounds and objective reach pygmo and its champion is what is reported is claimed as P28 and P29.')
prop('N04', 'Floating-point agreement of evaluations', 'Compiled, interpreted and symbolic evaluation of the same equation agree to rounding, without overflow or loss of significance.',
     ['inputs'], 'all float values', 'tests evaluate a few points', [EBK, C + 'equation.py'], [('compilation', 'EquationBlock._getEquationBlockAsFunction')],
     na='Rounding behaviour of generated code over all floats is outside the reach of the value analysis, which works over the reals; agreement over the reals is claimed as P11 and P20.')
prop('N05', 'Rendered figures and console output', 'Figures show curves legibly (styles, colours, overlap) and files are valid images; console tables are aligned.',
     ['inputs'], 'all data and styles', 'one test looks for a file', [S + 'plotter.py'], [('drawing', 'Plotter.plotTimeSeries')],
     na='Produced by matplotlib, seaborn and prettytable at run time; what they are asked to draw or print is claimed as P32 and P33.')
prop('P34', 'Optimization log and progress graph', 'After a run with logging, the log of an optimization is the table of exactly what its algorithm logged in that run, under the columns of that algorithm. A progress graph, drawn only when asked for, is one curve of the best objective value over the number of function evaluations of that run, unrounded, saved under a file name carrying the algorithm, and the figure is cleared afterwards. The best parameters and fitness are printed exactly when output is asked for.',
     ['inputs', 'configurations', 'histories'], 'every log an algorithm may give, each algorithm, first and later runs', 'no stable test looks at a log or a graph', [OT], [('log and graph', 'Optimization.runOptimization'), ('columns', 'Optimization._setOptimizer')])
prop('P35', 'Total inlet of a model with inlet streams', 'Declaring a model that has inlet streams brings in the objects of every stream and the variables of the total inlet (temperature, pressure, mass and molar flux, enthalpy, unless the model has its own) and adds exactly one balance each for pressure and temperature: the inlet value is the smallest of those of all inlet streams of all ports, whatever their number and order. Streams of known temperature and pressure add no further equation, the streams themselves stay as they were, and declaring again neither duplicates nor keeps stale values. A model without inlets gets nothing. A totalization function given to the model is used instead: once, after the objects and before the equations.',
     ['inputs', 'histories'], 'every number, order and grouping of inlet streams and every temperature and pressure', 'no test uses inlet streams', [S + 'model.py'], [('totalization', '_totalizeInletsFunction_genericMaterialStreams'), ('inlets', 'Model._setInlets'), ('declaration', 'Model.__call__')])
