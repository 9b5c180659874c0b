GP, SETF, MODEL = ("gpkit/constraints/gp.py", "gpkit/constraints/set.py",
                   "gpkit/constraints/model.py")
PF = "gpkit/constraints/prog_factories.py"
LATER = ("no contract of it is finished; it would only be sampled, which this"
         " framework does not count")

prop("C08", "The data given to the solver are the cost and the constraints",
     "For every program, the coefficients, exponent matrix, row-to-posynomial"
     " map and equality marks handed to a solver describe exactly the cost and"
     " every non-trivial constraint after substitution: one row per term, one"
     " column per free variable, evaluating to the cost and to each"
     " constraint's normal form at every point. Both rows of each equality are"
     " marked and one of them is marked first; compiling again gives the same"
     " data.",
     IH, "all costs, constraint structures (nested, named, arrays) and"
     " substitutions, all preceding compilations",
     "Tests compare optima of small models; a lost or misplaced exponent, or a"
     " mark on the wrong row, shows only for particular shapes.",
     [GP, SETF, "gpkit/nomials/math.py", "gpkit/small_classes.py"],
     [("GeometricProgram.__init__, gen", GP),
      ("CootMatrix", "gpkit/small_classes.py"),
      ("ConstraintSet.as_hmapslt1", SETF)],
     ["arguments of the solver function"], True)
prop("C13", "Unbounded programs are refused, bounded programs are not",
     "A program is refused as unbounded exactly when some free variable lacks"
     " an upper or lower bound derivable from the inequalities that hold it"
     " and, transitively, from the equalities, and the bounds reported missing"
     " are exactly the underivable ones. The bounds a constraint set records"
     " as given are derivable in the same sense.",
     I, "all programs: any number of variables, inequalities, equalities and"
     " dependency chains between them",
     "Tests exercise a handful of models; the fixed point depends on chains of"
     " equalities and on the order in which they are visited.",
     [GP, SETF, "gpkit/nomials/math.py"],
     [("check_bounds, gen_meq_bounds, fulfill_meq_bounds", GP),
      ("add_meq_bounds", SETF)],
     ["the missing bounds", "the error raised"], True)
prop("C09", "Updating a signomial program in place equals compiling it anew",
     "At every iteration of a signomial program, the geometric program that is"
     " solved equals the one obtained by compiling the approximation at the"
     " current point from scratch, whatever points were visited before.",
     IH, "all signomial programs, all sequences of points",
     "Tests only compare final optima; a stale coefficient can still converge.",
     ["gpkit/constraints/sgp.py", GP],
     [("SequentialGeometricProgram.gp, init_gp",
       "gpkit/constraints/sgp.py")],
     ["solver data of each iteration"], True)
prop("C10", "A solution holds the solver's values and the constants",
     "A solution's free variables are the exponentials of the solver's answer,"
     " column by column, its constants are the substitutions, and no variable"
     " is both; every way of naming a variable (object, name, vector, element)"
     " gives that value, with the variable's units when asked for a quantity."
     " Evaluating an expression at a solution equals substituting those"
     " values.",
     I, "all programs, all solver answers, all ways of naming",
     "Tests look up a few scalars; vectors, repeated names and units vary"
     " independently.",
     [GP, "gpkit/solution_array.py", "gpkit/keydict.py"],
     [("GeometricProgram._compile_result", GP),
      ("SolutionArray", "gpkit/solution_array.py")],
     ["values read from a solution"], True)
prop("C11", "Sensitivities are derivatives of the program's Lagrangian",
     "For any dual solution, the sensitivity reported for each variable is the"
     " derivative of the Lagrangian (log cost plus dual-weighted log"
     " constraints) with respect to the variable's logarithm, counting every"
     " term in which it appears, including terms that merged or became"
     " constant on substitution. A linked variable's sensitivity is carried to"
     " its sources by the chain rule, and each constraint's own sensitivity is"
     " its dual value.",
     I, "all programs, substitutions, primal and dual solutions",
     "Tests compare a few optima; merged terms, constants moved to the right"
     " and linked variables combine in many ways.",
     [GP, "gpkit/nomials/math.py", "gpkit/nomials/map.py"],
     [("_compile_result, _generate_nula", GP),
      ("sens_from_dual", "gpkit/nomials/math.py"),
      ("NomialMap.mmap", "gpkit/nomials/map.py")],
     ["sensitivities in the solution"], True)
prop("C12", "A solution that breaks an optimality condition is reported",
     "When a solver's answer misses the cost, violates a constraint, has"
     " negative duals, duals of the cost not summing to one, a dual residual,"
     " or a duality gap beyond the tolerance, it is reported; an answer that"
     " meets all conditions within tolerance is not.",
     I, "all programs, primal and dual answers, tolerances",
     "Tests only see answers of a working solver, which pass every check.",
     [GP], [("check_solution, generate_result", GP)],
     ["warning or error"], True)
prop("C14", "Relaxations contain the original and tighten back to it",
     "Every point feasible for a model is feasible, with all relaxation"
     " variables at one, for each of its relaxations, and a relaxed point with"
     " all relaxation variables at one satisfies the original constraints"
     " and constants. A relaxation by a factor makes the greater side of its"
     " constraint that factor larger, or lets its constant differ from its"
     " value by up to that factor.",
     I, "all models, all relaxation forms, all points",
     "Tests solve three relaxed models.",
     ["gpkit/constraints/relax.py"],
     [("ConstraintsRelaxedEqually, ConstraintsRelaxed, ConstantsRelaxed",
       "gpkit/constraints/relax.py")],
     ["relaxed constraints"], True)
prop("C15", "A keyed dictionary agrees under all names of a variable",
     "Setting, reading, deleting and testing membership through any"
     " unambiguous name of a variable, its key, its vector or its element give"
     " the same result after any sequence of operations, and asking for a"
     " name changes nothing; a name of several variables gives all of them."
     "  Copies, and arrays given to them, do not share later writes.",
     IH, "all sequences of operations over all key forms",
     "Tests run a few fixed sequences.",
     ["gpkit/keydict.py"], [("KeyDict, KeySet", "gpkit/keydict.py")],
     ["values read back"], True)
prop("C16", "Variables are equal exactly when name, units, index agree",
     "Two variable keys are equal, and hash equally, exactly when their"
     " identifying name, model lineage, index and units agree; copying and"
     " pickling preserve identity.",
     I, "all names, lineages, shapes, units",
     "Tests compare a few pairs.",
     ["gpkit/varkey.py"], [("VarKey", "gpkit/varkey.py")],
     ["equality and hash"], True)
prop("C17", "Substitutions are split into constants, sweeps and links",
     "The value given for each variable present is used exactly once: as a"
     " constant, a swept quantity or a linked function, element by element for"
     " vectors, by whatever name the variable is given. Not-a-number gives no"
     " value, values of the wrong shape are refused, and values for variables"
     " that are not present change nothing.",
     I, "all substitution dictionaries, keyed or plain, all sets of variables,"
     " shapes, and kinds of value",
     "Tests pass a few forms; element-wise sweeps next to constants and links"
     " depend on the order of the elements.",
     ["gpkit/nomials/substitution.py", "gpkit/small_scripts.py"],
     [("parse_subs, append_sub", "gpkit/nomials/substitution.py"),
      ("splitsweep", "gpkit/small_scripts.py")],
     ["constants, sweeps, links"], True)
prop("C18", "Sweeps solve every point of the grid and restore the model",
     "A sweep solves the model at every combination of the swept values, in"
     " order, reports each with the values it was solved at, and leaves the"
     " model's substitutions as they were, also when a solve fails.",
     IH, "all models, sweep grids, failures",
     "Tests sweep a few points of feasible models.",
     [PF, MODEL], [("run_sweep", PF), ("Model.sweep", MODEL)],
     ["swept solutions", "substitutions afterwards"], True)
prop("C19", "Global environments nest, and are restored on every exit",
     "Inside nested vectorization, signomial and naming environments the"
     " setting is that of the innermost; leaving any of them, normally or by"
     " an exception, restores exactly what was in force on entry. Model"
     " numbers are unique within a name and lineage.",
     IH, "all nestings, exits and exceptions",
     "Tests enter one environment at a time.",
     ["gpkit/globals.py"],
     [("NamedVariables, SignomialsEnabled, Vectorize", "gpkit/globals.py")],
     ["names, shapes and permissions in force"], True)
prop("C20", "The solver's adapter passes the program through unchanged",
     "The solver is given exactly the program's cost and constraints: sums of"
     " exponentials with their terms, single-term constraints as linear"
     " inequalities and each pair of equality rows as one equality, over all"
     " the program's columns. Its answers come back in the order of the"
     " program's columns and constraints, an equality's multiplier under the"
     " half that it pushes against; a failure is reported as such.",
     I, "all programs (coefficients, exponents, constraint sizes, equality"
     " marks), all answers of the solver",
     "Tests solve small models; a shifted row or a multiplier put at the wrong"
     " constraint shows only for particular mixtures of constraints.",
     ["gpkit/solvers/cvxopt.py"],
     [("optimize", "gpkit/solvers/cvxopt.py")],
     ["the solver's arguments", "duals and variables returned"], True)
prop("C22", "Lists of solutions hold every solution's values, in order",
     "Appending solutions keeps, for every item at every level, the values of"
     " all solutions in the order of appending, with a blank where a solution"
     " has no such item; indexing returns the solution appended at that"
     " position.  Converting to arrays changes no value; a single solution"
     " converts to its own values.",
     IH, "all nestings of dictionaries, all numbers of solutions, all items"
     " missing from some of them",
     "Tests append two solutions with the same items.",
     ["gpkit/small_classes.py"],
     [("DictOfLists", "gpkit/small_classes.py")],
     ["values by position"], True)
prop("C23", "An autosweep hits its solved points and brackets the rest",
     "At every point an autosweep solved, it reports that solution, and it"
     " lists every solution once, in order. Between them the estimate of the"
     " cost lies between its lower and upper bounds, which hold the true cost"
     " when that is log-convex and are within the tolerance asked; every other"
     " value is interpolated in logarithms between the neighbouring solutions,"
     " and points outside the interval are refused.",
     IH, "all intervals, tolerances, log-convex costs, trees and evaluation"
     " points",
     "Tests sample a few curves; which side of a split a point belongs to, and"
     " bounds of particular values, vary independently.",
     ["gpkit/tools/autosweep.py"],
     [("BinarySweepTree, recurse_splits, get_tol",
       "gpkit/tools/autosweep.py")],
     ["sampled values and bounds", "list of solutions"], True)
prop("C24", "A constraint set aggregates exactly what it contains",
     "Flattening a constraint set yields every constraint once, in order,"
     " whatever the nesting; its variables, substitutions and compiled"
     " constraints are exactly those of its elements (and of its cost), later"
     " substitutions taking precedence.  Putting a set in another leaves it"
     " unchanged.",
     I, "all nestings of lists, dictionaries, arrays and constraint sets",
     "Tests nest one or two levels.",
     [SETF], [("ConstraintSet, flatiter", SETF)],
     ["flattened constraints, variables, substitutions"], True)
prop("C25", "Array operations act element by element",
     "Arithmetic, comparison and substitution of arrays of nomials equal the"
     " same operation on the elements, with broadcasting as for numbers; sums"
     " and products have the value and unit of folding the elements one by"
     " one.  Vectors of variables have one element per index.",
     I, "all shapes and element kinds",
     "Tests use short vectors.",
     ["gpkit/nomials/array.py"],
     [("NomialArray", "gpkit/nomials/array.py")],
     ["elements of results"], True)
