"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py` from /verif."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python -B"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why,
            files=files, mechanism=mechanism, technique=technique, note=note,
        )
    )


S = "src/andromede/"

prop(
    "C01",
    "The problem built for a study is exactly the one its models and data state",
    "For every study (models, components, nodes, parameter data, time block, number of scenarios), the optimization problem that is built has, for every constraint of every component and every time step and scenario the constraint depends on, exactly one row, whose coefficients and bounds are those obtained by interpreting the constraint's expressions with the component's own data at that time step and scenario. "
    "It has no other row, a constraint that depends on neither time nor scenario appears once, and a constraint written as an equality or inequality between two expressions means the same as its form with lower and upper bounds. A study whose expressions divide by a value that is zero is refused.",
    ["inputs", "programs"],
    "every study: any models, expressions, bounds, data, number of components, time steps and scenarios",
    "the tests fix a handful of hand-written studies, most of them with one constraint shape each; the guarantee is about the product of expressions, dependencies, data and block positions",
    [S + "simulation/optimization.py", S + "simulation/linearize.py", S + "simulation/linear_expression.py", S + "expression/operators_expansion.py", S + "model/constraint.py", S + "expression/indexing.py"],
    [("linearisation of expressions at one index", S + "simulation/linearize.py"), ("loop over the constraint's indices", S + "simulation/optimization.py"), ("constraint normalisation", S + "model/constraint.py")],
    "random studies from a grammar, differential comparison with an independent reference interpreter of the study (row by row, coefficient by coefficient)",
    "bounded by the generator: mostly up to 6 components, 3 time steps, 2 scenarios, expression depth 5; a part of the cases has 8 to 16 components, or up to 200 time steps or 60 scenarios; operators in bounds may be refused, as today, but never be given another value",
)
prop(
    "C02",
    "Time shifts, evaluations and sums refer to the right steps of a cyclic block",
    "Within a time block of n steps, an expression shifted by k at step i takes its value at step (i+k) modulo n of the block, an expression evaluated at step k takes its value at step k modulo n whatever the current step, a sum over the window a..b adds the values shifted by a, a+1, ..., b (nothing if b < a), and a sum over time adds the n steps of the block once each; the bounds may be literals or values of constant parameters, of either sign. "
    "Variables are those of the block, while parameter data are read at the absolute time step that the block gives to the position, wherever the block starts and whatever time steps it lists. "
    "Bounds that are not integer constants are refused.",
    ["inputs", "programs"],
    "every expression with time operators, every block (start, length, listed time steps), every data series",
    "tests use a few literal shifts on blocks starting at 0; wrap-around, parameter bounds, gaps and combinations are not sampled",
    [S + "expression/operators_expansion.py", S + "simulation/optimization.py", S + "simulation/time_block.py", S + "expression/evaluate_parameters.py"],
    [("expansion of time operators", S + "expression/operators_expansion.py"), ("cyclic position in the block", S + "simulation/optimization.py")],
    "random studies on random blocks against a reference interpreter; metamorphic pairs (window sum = sum of shifts, shift by block length = identity); generated invalid bounds must be rejected",
    "bounded: blocks of at most 6 steps, or up to 200 steps for a part of the cases, shifts within +-25; an evaluation nested below a shift is excluded (known finding)",
)
prop(
    "C03",
    "Scenarios are independent and an expectation is their exact average",
    "Rows, bounds and coefficients of a scenario use only the data and variables of that scenario, except for expectations, which are the average with equal weights over all scenarios of the problem of the expression under them, at any nesting. "
    "Exchanging the data of two scenarios only exchanges the roles of these two scenarios in the problem.",
    ["inputs", "programs"],
    "every study with any number of scenarios, any expression with expectations, any assignment of data columns",
    "tests use one or two scenarios and expectations of a single shape",
    [S + "expression/operators_expansion.py", S + "simulation/optimization.py", S + "study/data.py"],
    [("expansion of the expectation", S + "expression/operators_expansion.py"), ("scenario index of variables and parameters", S + "simulation/optimization.py")],
    "random studies against a reference interpreter, metamorphic permutation of scenarios",
    "bounded: at most 4 scenarios (up to 60 for a part of the cases), expression depth 5",
)
prop(
    "C04",
    "Every decision variable exists once per index with its bounds and type",
    "For every variable of every component, the problem has exactly one solver variable per time step and scenario the variable depends on (one in all if it depends on neither), with a unique name that tells component, variable, time step and scenario, with the lower and upper bound obtained from the bound expressions and the component's data at that index (infinite where not given), and integer exactly if the variable is declared integer or boolean. "
    "Boolean variables stay within 0..1 whatever wider bounds are declared. "
    "A lower bound above the upper bound at any index makes the build fail.",
    ["inputs"],
    "every variable declaration, bound expressions, data, index",
    "tests declare few variables, mostly with constant bounds; the index at which a bound comes from is not varied",
    [S + "simulation/optimization.py", S + "model/variable.py"],
    [("creation of solver variables", S + "simulation/optimization.py"), ("variable declarations", S + "model/variable.py")],
    "random models with random bounds, types, dependencies; oracle recomputes every bound at every index, inconsistent ones must be refused",
    "bounded: at most 4 steps and 3 scenarios (up to 200 steps or 60 scenarios for a part of the cases); names that make the concatenation ambiguous are a known finding",
)
prop(
    "C05",
    "A port field means its definition, and its connections are summed exactly once",
    "A port field used in a constraint stands for the expression that defines it in the component at one end of the connection, and a sum over connections adds that expression once for each connection of the port (zero if there is none), with the variables and data of the component that owns the definition, at the same time step and scenario. "
    "Neither the order of the ends of a connection, nor the order of connections or of components, changes the problem. "
    "A connection between missing ports, ports of different types, or with a field defined at neither or both ends is refused, and so is a problem with a connection to a component which is not in the network.",
    ["inputs", "programs"],
    "every network topology, field definitions and constraints using fields",
    "tests use star-shaped networks around nodes with one field; several fields, several ports, operators around fields are not sampled",
    [S + "expression/port_resolver.py", S + "study/network.py", S + "simulation/optimization.py", S + "expression/context_adder.py"],
    [("registration of field definitions per port", S + "simulation/optimization.py"), ("resolution of port expressions", S + "expression/port_resolver.py"), ("validation of connections", S + "study/network.py")],
    "random networks against a reference interpreter; metamorphic reordering and end swapping; invalid connections must be rejected",
    "bounded: at most 5 components (8 to 14 for a part of the cases), 3 ports per model, 2 fields per port",
)
prop(
    "C06",
    "The objective is the sum of all contributions, with the right weights",
    "The objective to minimise is the sum over all components (and nodes) of their objective contributions, interpreted with the component's data, constants included. "
    "A merged problem contains operational plus investment contributions, an operational problem only the operational ones and an investment problem only the investment ones, each multiplied by the weight of the risk strategy. "
    "A contribution that depends on time or scenario, or is not linear, is refused.",
    ["inputs", "configurations"],
    "every set of models with contributions, every problem kind, every weight",
    "tests check optimal costs of a few studies, which many wrong objectives would also give",
    [S + "simulation/optimization.py", S + "simulation/strategy.py", S + "model/model.py"],
    [("objective creation", S + "simulation/optimization.py"), ("strategies", S + "simulation/strategy.py")],
    "random studies against a reference interpreter, for each problem kind and weight",
    "bounded: at most 4 components, 4 steps, 3 scenarios (up to 200 steps or 60 scenarios for a part of the cases)",
)
prop(
    "C07",
    "The text of an expression means what usual notation says",
    "Parsing the text of an expression gives an expression whose value, for all values of parameters, variables and ports, at every time step and scenario, is the one given by usual notation: products and quotients before sums and differences, left to right, unary minus, parentheses, comparisons, time shifts, evaluations and sums, expectations and sums over connections; inside the brackets of time operators arithmetic follows the same rules. "
    "Blanks and redundant parentheses do not matter.",
    ["inputs", "programs"],
    "every text of the expression language and every environment",
    "tests parse about thirty fixed texts",
    [S + "expression/parsing/parse_expression.py", "grammar/Expr.g4", S + "expression/expression.py"],
    [("grammar and generated parser", "grammar/Expr.g4"), ("tree builder", S + "expression/parsing/parse_expression.py")],
    "random trees printed to text (minimal or redundant parentheses, random blanks), parsed back, compared by value with an independent evaluator; flat chains compared with Python arithmetic",
    "bounded: depth 5; the value comparison is made on random environments",
)
prop(
    "C08",
    "Texts outside of the expression language are rejected, others accepted",
    "A text is accepted exactly if it can be derived from the documented expression grammar and all its names are known variables, parameters or ports; nothing is skipped, guessed or silently dropped, and refusal is an explicit error.",
    ["inputs"],
    "every character string, every set of known names",
    "tests reject three fixed texts",
    [S + "expression/parsing/parse_expression.py", "grammar/Expr.g4"],
    [("grammar, lexer and error handling", S + "expression/parsing/parse_expression.py")],
    "grammar-aware fuzzing: mutations of valid texts, token soups, character soups, against an independent recursive-descent recogniser",
    "bounded: texts up to about 60 characters",
)
prop(
    "C09",
    "Expression objects keep their value through every operation on them",
    "Expressions built with the Python operators, with numbers on either side, have the value of the same arithmetic on numbers; copying, substituting parameters by values, associating to a component and printing keep that value and never change the original. "
    "Two expressions are equal exactly if they were built the same way: any difference in a name, number, operator, operand or bound makes them different, with numbers compared within a tolerance when one is given; variables and constraints of models compare the same way. Operations that have no meaning (a window with one bound, a text as operand, an unknown scenario operator, connections of something else than a port field) are refused.",
    ["inputs", "programs"],
    "every expression tree and environment",
    "tests evaluate a few fixed trees",
    [S + "expression/expression.py", S + "expression/copy.py", S + "expression/equality.py", S + "expression/evaluate.py", S + "expression/evaluate_parameters.py", S + "expression/print.py", S + "expression/context_adder.py", S + "expression/visitor.py"],
    [("operator overloads", S + "expression/expression.py"), ("visitors", S + "expression/visitor.py")],
    "random trees against an independent evaluator; single random mutations for inequality; original compared before and after",
    "bounded: depth 5",
)
prop(
    "C10",
    "Degree and dependency analyses are right; invalid models are refused",
    "The degree, linearity, constancy and time and scenario dependency found for an expression are those of its mathematical content: an operator is dependent on what its operands depend on, sums and evaluations over time remove the time dependency and expectations the scenario dependency. "
    "A model whose constraint, bound, objective or port definition breaks the rules (variable in a bound, comparison combined with bounds, product of variables, division by a variable, port in a port definition) is refused at the latest when a problem is built.",
    ["inputs", "programs"],
    "every expression, every model with one mistake",
    "tests cover a list of short expressions and a few wrong models",
    [S + "expression/degree.py", S + "expression/indexing.py", S + "expression/indexing_structure.py", S + "model/model.py", S + "model/constraint.py", S + "simulation/linearize.py"],
    [("degree visitor", S + "expression/degree.py"), ("indexing visitor", S + "expression/indexing.py"), ("model validation", S + "model/model.py")],
    "random expressions against an independent computation; models with one generated mistake must be rejected",
    "bounded: depth 5",
)
prop(
    "C11",
    "Linear expressions form an exact algebra without aliasing",
    "Sums, differences, opposites, products and quotients of linear expressions have the coefficients and constant of the mathematical operation, terms of the same variable are merged and null ones dropped, products of two non constant expressions and divisions by non constant ones are refused. "
    "No operation changes an operand, except the target of an in-place operation, and two expressions are equal exactly if they have the same terms and constant.",
    ["histories"],
    "every sequence of operations on a pool of linear expressions",
    "tests check single operations on fixed operands",
    [S + "simulation/linear_expression.py"],
    [("operators and term merging", S + "simulation/linear_expression.py")],
    "stateful model-based testing: random operation sequences against a dictionary model, whole pool compared after each step",
    "bounded: 12 operations on a pool of 4, small dyadic numbers (exact arithmetic)",
)
prop(
    "C12",
    "The value of a data series is the number of its row and column",
    "For a parameter given by a file, the value at time step t and scenario s is the number of row t and column s of the file (row t of the only column, or column s of the only row, if it depends on time or scenario only), whatever the separators and number formats allowed, and a constant has its value everywhere. "
    "Missing files, files of the wrong shape, missing values and lookups outside of the series are errors, never another number.",
    ["inputs"],
    "every series shape and content, every index",
    "tests read four small files",
    [S + "study/data.py", S + "study/resolve_components.py"],
    [("series loading", S + "study/data.py"), ("database building", S + "study/resolve_components.py")],
    "random series written to files and read back through the system reader, every index compared; generated wrong files rejected",
    "bounded: at most 8 time steps and 5 scenarios",
)
prop(
    "C13",
    "The scenario builder gives each year the column of its scenario group",
    "With a scenario builder, the value of a scenario-dependent parameter for a year is the one of the column that the builder assigns to this year in the parameter's scenario group (its own group, else the group of its component or node), and column number = year if there is no group, whatever the order of the lines and of the components. "
    "A group missing from the builder, or a year without column, is an error.",
    ["inputs", "configurations"],
    "every scenario builder, assignment of groups and data",
    "tests use one builder with two groups",
    [S + "study/data.py", S + "study/resolve_components.py"],
    [("scenarisation of data", S + "study/data.py"), ("groups of components and parameters", S + "study/resolve_components.py")],
    "random builders and systems against a reference lookup",
    "bounded: at most 3 groups, 13 years, 25 columns",
)
prop(
    "C14",
    "Parameters without data, or with data of a wrong shape, are refused",
    "Building a problem fails if any parameter of any component or node of the network has no data, or has data depending on time or scenario although the parameter is declared not to, whether or not the parameter is used. "
    "Data simpler than the declaration (e.g. a constant for a time-dependent parameter) are accepted and give the same value at every index they do not depend on.",
    ["inputs", "configurations"],
    "every network, every parameter, every kind of data",
    "tests check a few combinations on single components",
    [S + "study/data.py", S + "simulation/optimization.py", S + "study/network.py"],
    [("requirements check", S + "study/data.py"), ("call before the build", S + "simulation/optimization.py")],
    "random studies with or without one generated mistake; oracle knows where the mistake is",
    "bounded: at most 4 components",
)
prop(
    "C15",
    "Libraries of models resolve completely, in any order, or are refused",
    "Every library of a set is resolved with all its models and port types, in any order of the input, and ports refer to the port types of the library or of its direct or indirect dependencies; a model read from a file is the one built in Python with the same declarations and the documented defaults. "
    "Circular or unknown dependencies, port types that cannot be reached, ambiguous port types and models defined twice are refused.",
    ["inputs", "configurations"],
    "every set of libraries and dependency graph",
    "tests resolve four fixed sets",
    [S + "model/resolve_library.py", S + "model/parsing.py", S + "model/library.py"],
    [("dependency ordering and resolution", S + "model/resolve_library.py"), ("file schema", S + "model/parsing.py")],
    "random dependency graphs in random orders, differential with models built in Python; one generated mistake must be rejected",
    "bounded: at most 5 libraries",
)
prop(
    "C16",
    "A study read from files is the same as the study built in Python",
    "A study written as library files, system file and data files leads to the same problem as the same study built with the Python API, whatever the order of components and connections in the files and however the models are spread over libraries. "
    "References to unknown libraries, models, components or ports, and unknown keys, are refused; the check of consistency accepts a set of components exactly when the models of all of them are among the models it is given.",
    ["inputs", "configurations"],
    "every study and every way to write it",
    "tests compare the results of a few fixed studies",
    [S + "study/parsing.py", S + "study/resolve_components.py", S + "model/parsing.py", S + "model/resolve_library.py"],
    [("system parsing and resolution", S + "study/resolve_components.py")],
    "random studies written to files: differential against the API path and the reference interpreter; generated wrong references rejected",
    "bounded as C01",
)

prop(
    "C17",
    "Results of a solved study are an optimal point of the study",
    "When a study is solved, the reported status and cost are those of the optimisation problem the study states, and the output values give, for every component, every variable and every time step and scenario, a number within the variable's bounds (integer or 0/1 where the variable is), such that together they satisfy every constraint and reach the optimal cost. "
    "The value of a variable has one number if it depends on neither time nor scenario, else one list of time steps per scenario, each number at its own place.",
    ["inputs", "programs"],
    "every study that can be solved",
    "tests compare the outcome of a few studies with numbers written by hand",
    [S + "simulation/output_values.py", S + "simulation/optimization.py"],
    [("values read from the solver", S + "simulation/output_values.py"), ("solver variables and their indices", S + "simulation/optimization.py")],
    "random studies solved twice, by the code and from an independent interpretation; the output values are checked to be feasible and optimal",
    "bounded: at most 3 components, 4 time steps, 3 scenarios",
)
prop(
    "C18",
    "Comparing results says equal exactly when they are",
    "Two sets of output values are equal if and only if they have the same components, variables, shapes and numbers, and close if and only if every number is within the given relative or absolute tolerance, apart from components and variables marked as ignored on either side; the answer does not depend on which one is compared to the other. "
    "The same holds for the solutions of expansion problems. Values set in a variable are read back in the same shape.",
    ["inputs"],
    "every pair of results and every tolerance",
    "tests compare three or four pairs",
    [S + "simulation/output_values.py"],
    [("equality and closeness", S + "simulation/output_values.py")],
    "random pairs (second one a perturbed copy) against an independent definition, symmetry and reflexivity laws, set/get round trip",
    "bounded: at most 3 components, 3 variables",
)
prop(
    "C19",
    "The decomposed problems and their files state the expansion problem",
    "For every investment study on a decision tree, the master has exactly the variables, constraints and investment costs of the models' investment and coupling parts for every node of the tree, the costs being weighted by the node's probability, and there is one subproblem per node and time block, with exactly the operational and coupling parts of the models for that block and the scenarios of the node. "
    "The structure file lists for every problem each candidate variable it shares with the master, with the column of this variable in that problem; every problem is written to its own file and says the same as the problem; the options name the files and settings that were asked for. "
    "A run of the external solver succeeds only if it does, and its solution is the one in its result file.",
    ["inputs", "programs", "configurations"],
    "every study with investment and operational parts, every decision tree, blocks and scenarios, every option",
    "tests build a few trees of at most three nodes with one kind of candidate",
    [S + "simulation/benders_decomposed.py", S + "simulation/strategy.py", S + "simulation/optimization.py", S + "simulation/decision_tree.py", S + "simulation/runner.py"],
    [("master and subproblems", S + "simulation/benders_decomposed.py"), ("selection of investment and operational parts", S + "simulation/strategy.py"), ("call of the external solver", S + "simulation/runner.py")],
    "random studies and decision trees against a reference interpreter; written files read back and compared; stand-in solver; optimum compared with the undecomposed problem",
    "bounded: at most 4 tree nodes, 3 components; numbers in MPS files have 6 digits",
)
prop(
    "C20",
    "Decision trees are consistent and independent of one another",
    "The probability of a node is the product of the conditional probabilities down to it, whether the tree is built from the root or from the leaves; a tree is accepted for an expansion problem only if its leaves' probabilities add up to one, and a conditional probability out of [0, 1] is refused. "
    "A coupling constraint added to a node applies to that node and its tree, with the investments of the node, of its ancestors or of its children that it names; several trees, constraints added in any order and problems built at any moment never influence one another, and building the same tree twice gives the same problem. "
    "Coupling components or variables that do not exist is refused, as are trees in which two nodes, or two time blocks of a node, have the same identifier.",
    ["histories", "inputs"],
    "every sequence of tree creations, coupling definitions and problem builds",
    "tests build one tree at a time",
    [S + "simulation/decision_tree.py", S + "simulation/benders_decomposed.py"],
    [("probabilities and coupling constraints", S + "simulation/decision_tree.py"), ("problem of a tree", S + "simulation/benders_decomposed.py")],
    "random interleaved histories on several trees against a reference interpreter of each tree alone; generated invalid trees must be rejected",
    "bounded: at most 3 trees of 4 nodes",
)
prop(
    "C21",
    "Thermal clusters of Antares studies get their unit commitment data",
    "For every thermal cluster of a converted study, at every hour and scenario: the minimum cluster power is the smaller of the available power and minimum-generation modulation x units x unit capacity; the minimum and maximum numbers of units are the numbers of units needed for the minimum and the available power, rounded up; and the variations forward and backward are the decrease, respectively increase, of the maximum number of units since the previous hour, or zero, where the hour before the first hour of a week (of the given period) is the last one of that week, cut at the end of the series. "
    "The series written to the files are these, one line per hour and one column per scenario, for each cluster with its own data.",
    ["inputs"],
    "every cluster: capacity, units, modulation, availability, number of hours and scenarios, period",
    "tests use three hours of one cluster",
    ["src/andromede/input_converter/src/data_preprocessing/thermal.py", "src/andromede/input_converter/src/converter.py"],
    [("preprocessing of thermal clusters", "src/andromede/input_converter/src/data_preprocessing/thermal.py")],
    "random clusters converted from random studies, written series read back and compared with independent formulas",
    "bounded: at most 3 clusters, 700 hours, 3 scenarios",
)
prop(
    "C22",
    "Conversion of Antares studies keeps every object with its data",
    "Converting an Antares study gives exactly one component (or node, for an area) per area, link, thermal cluster, renewable cluster, short-term storage and non-zero load, wind or solar series, with the model, parameters, series files and connections that represent it, and nothing else; each complete battery arrangement (virtual area, its clusters, link and binding constraint) is replaced by one battery with the corresponding capacities, efficiencies and curves, area by area; the artefacts of that template (the virtual area, and the clusters and link the template names) are not converted as objects of their own. "
    "The file that is written reads back as this system.",
    ["inputs"],
    "every study: any areas, clusters, links, series and battery arrangements",
    "tests convert each kind of object once, on one or two areas",
    ["src/andromede/input_converter/src/converter.py", "src/andromede/input_converter/src/data_preprocessing/binding_constraints.py", "src/andromede/input_converter/src/utils.py"],
    [("conversion of each kind of object", "src/andromede/input_converter/src/converter.py"), ("battery arrangements", "src/andromede/input_converter/src/data_preprocessing/binding_constraints.py")],
    "random studies written with antares-craft and converted, compared with an independent description of the conversion",
    "bounded: at most 5 areas, 2 objects of each kind per area",
)

prop(
    "C23",
    "No build depends on what was done before with the same objects",
    "Whatever was done earlier with the same models, networks and data (building problems for other blocks, scenarios, sizes or border modes, solving them, exporting them, reading their results, replicating components, adding components, connections or data), building a problem gives exactly the problem that the present content of the network and of the data defines, the same as with freshly created objects; problems built earlier are not modified; a study read from files is the one of the files as they are when they are read, whatever was read at the same place before; and building twice, in the same process or in another one, gives the same problem, with the same order of its variables and constraints.",
    ["histories", "configurations"],
    "every sequence of operations on shared models, networks and databases",
    "tests build one problem from objects created for that test",
    [S + "study/network.py", S + "study/data.py", S + "simulation/optimization.py", S + "model/model.py"],
    [("building of a problem", S + "simulation/optimization.py"), ("networks and replication of components", S + "study/network.py"), ("data", S + "study/data.py")],
    "random histories of operations on shared objects; each problem compared with the one built from fresh objects and with a reference interpreter, earlier problems compared with their exports at creation; the same study (Python, files, decision tree) built by child interpreters with other hash seeds, exports compared",
    "bounded: at most 8 operations, 4 components, 3 interpreters",
)

prop(
    "C24",
    "The command line prints the status and cost of the study it is given",
    "For every study given to the command line, as a study directory (input/models, input/components with its series) or with the separate options for models, components and series, in any order of the model files, the status and cost that are printed are those of the study interpreted over the requested duration and number of scenarios (one time step and one scenario unless stated), whichever way it is given. "
    "Contradictory or incomplete options, missing files, libraries given twice, unknown models, libraries, components or ports, and missing parameters or series end with an error and no cost.",
    ["inputs", "configurations"],
    "every study, every way to give it on the command line, every faulty command line",
    "tests call the command line on a few shipped studies",
    [S + "main/main.py", S + "model/resolve_library.py", S + "study/resolve_components.py"],
    [("options of the command line", S + "main/main.py"), ("reading of libraries and systems", S + "main/main.py")],
    "random studies written to files and run through the command line function, printed status and cost compared with an independent interpretation; generated faults must end with an error",
    "bounded: at most 3 components, 4 time steps, 3 scenarios, 4 libraries",
)
prop(
    "C25",
    "The shipped model libraries state the documented behaviour of each equipment",
    "Whatever components of the shipped libraries are put together, with whatever data, the problem is the one of the equipments they stand for, on the cyclic horizon: an area balances the flows of its ports with spillage and unsupplied energy at their costs; a link carries between two areas a flow within its two capacities; a thermal cluster has a number of units on within its limits, generation between the minimal and maximal power of the units on and of the cluster, minimal up and down times, start-ups, shutdowns and failures, and pays generation, start-up and fixed costs; a storage or battery has a level within its curves, changed by injection, withdrawal (with efficiencies) and inflows; demand response curtails at a price; an electrolyser converts power to hydrogen; PyPSA buses balance, generators, links, storage units and stores respect their per-unit limits on an (optimised) capacity and their energy balance, limits on energy over the horizon and CO2 quotas over all connected emitters hold. The cost is the expectation of operational costs plus the capital costs.",
    ["inputs", "configurations"],
    "every system built from the shipped models, with every data",
    "tests solve a few systems with fixed data, on which many constraints are not active",
    [S + "libs/antares_historic/antares_historic.yml", S + "libs/reference_models/andromede_v1_models.yml", S + "libs/pypsa_models/pypsa_models.yml"],
    [("models of Antares objects", S + "libs/antares_historic/antares_historic.yml"), ("batteries, demand response, electrolysers", S + "libs/reference_models/andromede_v1_models.yml"), ("PyPSA models", S + "libs/pypsa_models/pypsa_models.yml")],
    "random systems of shipped models; optimum compared with an independently written formulation of every model, for the cost and for random directions over all variables",
    "bounded: at most 3 areas or buses, 9 components, 5 time steps, 2 scenarios",
)
prop(
    "C26",
    "PyPSA networks are converted to systems with the same optimum",
    "Converting a PyPSA network gives exactly one component per bus, load, generator, link, storage unit, store and CO2 constraint, with its own data (defaults included; constants as values, series in files; fixed capacities for what is not extendable, without capital cost; emissions of its carrier) and the connections to its buses and to the CO2 constraints, whatever names are shared between tables; the system that is written reads back as the same one and, with the shipped PyPSA models, has the optimum of the network. "
    "Networks with features that are not supported (lines and transformers, unit commitment, quadratic costs, inactive or non-cyclic objects, negative storage, weighted snapshots, investment periods, other global constraints) are refused.",
    ["inputs"],
    "every network: any objects, names, constants, series and options",
    "tests need the pypsa package and convert a few example networks",
    [S + "pypsa_converter/pypsa_converter.py", S + "pypsa_converter/utils.py", S + "libs/pypsa_models/pypsa_models.yml"],
    [("conversion of each table", S + "pypsa_converter/pypsa_converter.py"), ("refusal of unsupported features", S + "pypsa_converter/pypsa_converter.py")],
    "random networks (a stand-in for pypsa.Network, not installed here) converted and compared with an independent description, then built and compared with an independent formulation of the network",
    "bounded: at most 3 buses, 10 objects, 4 snapshots",
)
prop(
    "C27",
    "Converted Antares studies have the optimum of the Antares study",
    "For every Antares study made of areas, load, links, thermal and renewable clusters, short-term storages and battery arrangements, from memory or from disk, the system written by the converter can be read with the shipped libraries, and the problem built from it over the converted period and the scenarios of its series is the one of the study: same feasible operation and same cost.",
    ["inputs"],
    "every Antares study of that kind, any data",
    "tests compare converted files with expected ones, and never solve a random study",
    ["src/andromede/input_converter/src/converter.py", "src/andromede/input_converter/src/data_preprocessing/thermal.py", "src/andromede/input_converter/src/data_preprocessing/binding_constraints.py", S + "libs/antares_historic/antares_historic.yml"],
    [("conversion of the study", "src/andromede/input_converter/src/converter.py"), ("battery arrangements", "src/andromede/input_converter/src/data_preprocessing/binding_constraints.py")],
    "random studies written with antares-craft, converted, read with the shipped libraries, built; optimum compared with an independent formulation of the study, for the cost and for random directions",
    "bounded: at most 3 areas, 5 hours, 2 scenarios; load in one area, no wind or solar (known findings)",
)

prop(
    "C28",
    "Two objects of the same name are refused, or kept apart",
    "In the files of a study, declaring a second time the identifier of a library (one loaded before included), of a port type or model of a library, of a component or node, of a variable, parameter, constraint, port or port field definition of a model, or the value of a parameter of a component, is refused with an error, wherever the second one lies and whether it has the same content or not; so is a second variable, parameter, constraint, port or definition of the same name in a model written in Python, a component with the identifier of a node of a network made in Python (or the converse), or a second model or port type in a library made in Python; none of the two silently replaces the other. Variables and parameters of a model read from a file cannot share names, nor can port types with different fields of two dependencies or of two libraries loaded before. Other objects may share names (constraints and variables, components and models, models of different libraries), and are never mixed up.",
    ["inputs"],
    "every pair of objects of the same kind with the same identifier, at any place",
    "tests have one example of a model and a library defined twice",
    ["src/andromede/model/model.py", "src/andromede/model/resolve_library.py", "src/andromede/study/resolve_components.py"],
    [("objects of a model", "src/andromede/model/model.py"), ("libraries, port types and models", "src/andromede/model/resolve_library.py"), ("components and values", "src/andromede/study/resolve_components.py")],
    "random studies with one object declared again at a random place must be refused; random studies whose objects of different kinds share names must give the problem of the independent interpretation",
    "bounded: studies of at most 3 models, 5 components",
)

prop(
    "C29",
    "Running an expansion gives the solution its solver has just written, or none",
    "Running an expansion problem exports its files, then starts exactly once the solver asked for (the decomposed one, or the merging one) in the directory of these files, with the options of this run, and says it succeeded exactly when the solver ended with exit code zero. The solution is then the one the solver wrote in this run, read as a solution of the kind asked for, whatever was run before, by this problem or by another one in the same directory; a run whose solver failed without result, wrote nothing, or could not be started leaves no solution of a previous run. The current directory is the same before and after, even when the solver cannot be executed.",
    ["histories", "fault_sequences"],
    "every history of runs, every way a solver can end",
    "tests run without the solvers, so that nothing is started or read",
    ["src/andromede/simulation/benders_decomposed.py", "src/andromede/simulation/runner.py", "src/andromede/simulation/output_values.py"],
    [("runs and solutions", "src/andromede/simulation/benders_decomposed.py"), ("starting of the solvers", "src/andromede/simulation/runner.py")],
    "random histories of runs of one or two problems with stand-ins for the solvers, which record how they are started and end in every way; the answer, the solution, the files and the current directory are compared after each run",
    "bounded: at most 5 runs of 2 problems; the solvers themselves are not decided",
)

prop(
    "C30",
    "The Antares converter converts the study it is given, where it is told to",
    "The command line of the converter of Antares studies reads the study whose directory is given by its option, or else by the configuration file, and writes the converted system in the file output.yaml of the output directory given by its option, or else by the configuration file, or else in the study; relative and absolute paths mean the same. The content is the conversion of that very study, replaces a previous result entirely, and no other system file is written. A missing configuration file, study or output directory, a directory that is no study and an unknown option end with an error and write nothing.",
    ["inputs", "configurations"],
    "every study, every combination of options and configuration",
    "no test runs this command line",
    ["src/andromede/input_converter/src/main.py", "src/andromede/input_converter/src/converter.py", "src/andromede/input_converter/src/utils.py"],
    [("options and configuration", "src/andromede/input_converter/src/main.py"), ("conversion and writing", "src/andromede/input_converter/src/converter.py")],
    "random studies on disk, random options, configuration files, other studies and older results; the command line is run, the files written are compared with the place expected, and their content with the independent description of the conversion of C22",
    "bounded: studies of at most 4 areas",
)

NOT_APPLICABLE = []
