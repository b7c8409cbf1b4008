#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

SRC = "src/satisfy/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=[SRC + f for f in files],
                     state=[dict(name=n, meaning=m, where=SRC + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=SRC + w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

NOSOLVER = "No existing test runs the solver at all (the suite only touches expressions and singletons); and "

prop("S01", "Every delivered solution satisfies the model",
     "Every solution the solver delivers assigns each variable of the model exactly one value, taken from that variable's domain. It satisfies every constraint of the model (expression, all-different, constant or user-defined) and every additional constraint passed to that solve call.",
     ["inputs", "programs", "configurations"],
     "for every model (variables, domains, constraint kinds, scopes and relations), every solver configuration and every solution delivered",
     NOSOLVER + "soundness ranges over all relations, all domains and all search orders.",
     ["solver.py", "constraint.py", "model.py", "expression.py"],
     [("search loop: per-variable candidate filtering", "solver.py: Solver.solve"),
      ("single-variable constraints folded into domains", "solver.py: Solver._setup"),
      ("all-different neighbour sets", "solver.py: Solver._setup")],
     [("domains", "candidate values left for each bound variable", "solver.py: Solver.solve")],
     ["Solver().solve(model)"])

prop("S02", "Unbounded solving enumerates every solution exactly once",
     "When neither a limit nor a timeout applies, solving delivers every assignment of domain values that satisfies all constraints, and delivers none of them twice. A model without variables whose constraints hold has exactly one solution, the empty assignment.",
     ["inputs", "programs", "configurations"],
     "for every model and every solver configuration, over all assignments in the product of the domains",
     NOSOLVER + "a lost or repeated solution shows only for particular relations, domains and backtracking histories.",
     ["solver.py", "constraint.py", "model.py"],
     [("backtracking over cached candidate lists", "solver.py: Solver.solve"),
      ("domain narrowing before the search", "solver.py: Solver._setup")],
     [("stack", "partial assignments still to extend", "solver.py: Solver.solve"),
      ("domains", "untried candidate values per variable", "solver.py: Solver.solve")],
     ["Solver().solve(model)"])

prop("S03", "Search policy and compilation never change the solution set",
     "The set of solutions delivered for a model is the same under every variable selection policy (including the random one, whatever the random source returns), with constraint compilation on or off, and for every order in which the variables and constraints were added. A policy given to a single solve call overrides the solver's own for that call, and something that is not a policy is refused when a solver is configured with it.",
     ["configurations", "inputs", "schedules"],
     "for every model, every pair of (policy, compilation) configurations, every permutation the random policy may draw and every declaration order",
     NOSOLVER + "the equality is between whole solution sets under all eight policies and arbitrary shuffles.",
     ["solver.py"],
     [("variable ordering per policy", "solver.py: Solver.solve"),
      ("group priorities from all-different constraints", "solver.py: Solver._setup"),
      ("compiled versus interpreted evaluation", "constraint.py: ExpressionConstraint.evaluate")],
     [], ["Solver(var_selection_policy=..., compile_constraints=...).solve(model)"])

prop("S04", "A solution limit is honoured exactly and reported",
     "With a limit N, given to the solver or to a single solve call (the call wins), exactly min(N, number of solutions) solutions are delivered, and they are the first ones of the unlimited enumeration. Whenever solutions are left undelivered because of the limit the statistics report the interrupt 'limit', it is not reported if the limit exceeds the number of solutions, and a run without any interrupt reported has delivered every solution; no limit (or the infinite one) means no bound.",
     ["inputs", "configurations"],
     "for every model, every integer limit N >= 0 (plus none and infinite), set on the solver or per call",
     NOSOLVER + "the off-by-one and the flag must be right for every combination of N and solution count.",
     ["solver.py", "utils.py"],
     [("limit test after each delivered solution", "solver.py: Solver.solve"),
      ("infinite limit normalisation", "solver.py: Solver.limit")],
     [("_interrupt", "why the last run stopped early", "solver.py: Solver")],
     ["Solver(limit=N).solve(model)", "Solver.get_stats()"])

prop("S05", "A timeout stops the search, and only a real one is reported",
     "Whatever the clock does, once the time spent searching (excluding the time the consumer holds a solution) has exceeded the timeout when a solution is delivered, no further solution is delivered and the statistics report the interrupt 'timeout'; also between solutions the search ends after trying at most the values of one more variable. The interrupt is reported only if the search time really exceeded the timeout, a run that reports no interrupt has delivered every solution, and everything delivered before a timeout is the beginning of the unlimited enumeration.",
     ["schedules", "inputs", "configurations"],
     "for every sequence of non-decreasing clock readings, every timeout and every model, with the timeout set on the solver or per call",
     "Tests cannot choose the clock: the guarantee quantifies over every possible timing of the search and of its consumer.",
     ["solver.py", "utils.py"],
     [("timeout test at each search step", "solver.py: Solver.solve"),
      ("stopwatch paused while a solution is out", "utils.py: Timer")],
     [("_timer", "accumulated search time", "solver.py: Solver")],
     ["Solver(timeout=T).solve(model)", "Solver.get_stats()"])

prop("S06", "Solve statistics equal what happened",
     "After a run, the reported solution count equals the number of solutions that run delivered, and the reported elapsed time equals the time spent searching: it includes the work after the last solution and excludes all time during which the consumer held a solution, whether the run ended by exhaustion, limit or timeout. Statistics describe the most recently started run only.",
     ["schedules", "histories", "inputs"],
     "for every sequence of non-decreasing clock readings, every model and every way a run can end, over sequences of runs on one solver",
     "It is an equality over arbitrary clock readings and run histories; no test reads statistics.",
     ["solver.py", "utils.py"],
     [("stopwatch start/stop/abort protocol", "utils.py: Timer"),
      ("statistics reset per run", "solver.py: Solver._reset")],
     [("_t_elapsed, _t_start, _count", "stopwatch state", "utils.py: Timer")],
     ["Solver.get_stats()", "Timer.stats()", "Timer.elapsed()"])

prop("S07", "Optimization delivers only strictly improving feasible solutions",
     "Each solution delivered while optimizing satisfies the model, and is strictly better than every solution delivered before it in that run, in every objective given: larger for a maximize objective, smaller for a minimize objective. The improvement is measured by the objective expression's value on the delivered solutions.",
     ["inputs", "programs", "configurations"],
     "for every model, objective expression (one or several), direction, domain order and solver configuration",
     NOSOLVER + "the bound tightens while the search is suspended, so stale candidates appear only for particular domain orders and scopes.",
     ["solver.py", "objective.py"],
     [("moving bound constraint", "objective.py: MinMaxConstraint.set_bound"),
      ("bound updated on each delivered solution", "solver.py: Solver.optimize")],
     [("bound parameters", "best value so far and whether one exists", "objective.py: MinMaxConstraint")],
     ["Solver().optimize(model, objective)"])

prop("S08", "The optimum reported as optimal is the true optimum",
     "If no limit or timeout interrupts it, optimization ends with a feasible solution whose objective value no feasible assignment beats (with several objectives: no feasible assignment is strictly better in all of them), flagged optimal; if the model has no solution it reports none and does not claim optimality. If it is interrupted, the best solution found so far is returned and is not flagged optimal.",
     ["inputs", "programs", "configurations", "schedules"],
     "for every model, objective, direction, domain order, limit and clock behaviour",
     NOSOLVER + "optimality is a statement about all assignments that were not returned.",
     ["solver.py", "objective.py"],
     [("last improving solution is the answer", "solver.py: Solver.optimal_solution"),
      ("optimality derived from absence of interrupt", "solver.py: Solver.optimal_solution")],
     [], ["Solver().optimal_solution(model, objective)"])

prop("S09", "Earlier or concurrent runs never influence a run",
     "What a run over a model delivers depends only on the model and the run's own arguments. It is the same after earlier runs (complete, abandoned, limited, timed out or optimizing, on the same or another solver), while other runs over the model are interleaved with it, and when the consumer modifies the solutions it receives.",
     ["histories", "schedules", "configurations"],
     "for every model and every bounded history of solve, optimize, abandon, interleave and solution-modifying steps",
     "Tests would have to sample histories; leaked bounds, stale compiled constraints or shared mutable solutions show only in particular sequences.",
     ["solver.py", "objective.py", "constraint.py", "model.py"],
     [("per-run copies of domains and substitutions", "solver.py: Solver.solve"),
      ("fresh bound parameters per optimization", "objective.py: MinMaxConstraint"),
      ("recompilation per run", "solver.py: Solver._setup")],
     [("compiled constraint functions", "kept on the constraint across runs", "constraint.py: ExpressionConstraint")],
     ["Solver.solve", "Solver.optimize"])

prop("S10", "A run uses the parameters' current values",
     "A constraint or objective over at least one variable that mentions a parameter behaves, in a run, exactly as if each parameter were the constant it held when the run was started, whatever values it held in earlier runs and whether or not constraints are compiled (parameters are not changed while a run is in progress). Parameters are never assigned by the search: they do not appear in solutions, and a value supplied for them in a substitution is ignored.",
     ["histories", "inputs", "configurations"],
     "for every expression with parameters, every sequence of parameter values between runs, and both evaluation modes in any order",
     "The only existing test evaluates one parameter expression once; changes between runs and mixing evaluation modes are histories.",
     ["expression.py", "constraint.py", "solver.py", "model.py"],
     [("parameter value written into compiled source", "expression.py: Parameter.py_expr"),
      ("recompilation when a run is set up", "solver.py: Solver._setup")],
     [("value", "current parameter value", "expression.py: Parameter")],
     ["Parameter.value", "Solver.solve"])

prop("E01", "Built expressions compute what the Python operators wrote",
     "An expression built with Python operators (unary + - and abs, + - * / % ** comparisons & |, with integers on either side) evaluates, for every assignment of integers for which the same calculation on plain integers is defined and stays within the integers (no negative exponent), to the value of that calculation. Here / is floor division, and & and | give what Python's 'and' and 'or' give on plain values (both sides being defined); simplifications made while building never change the value. Using an expression as a truth value, as a chained comparison does, is refused rather than silently dropping a part of it.",
     ["programs", "inputs"],
     "for every expression tree, every integer constant in it and every integer value of its variables",
     "Eight fixed expressions at one point each are tested; the flattening, neutral and absorbing element rules depend on constants, nesting and operand order.",
     ["expression.py"],
     [("operator overloads with simplification", "expression.py: Expression, Const"),
      ("n-ary sum and product flattening", "expression.py: _make_accumulate, Accumulation"),
      ("reflected operators", "expression.py: Expression.__r*__")],
     [], ["Expression.evaluate(substitution)"])

prop("E02", "Compiled expressions compute the same value as interpreted ones",
     "For every expression, the compiled function applied to an assignment returns the same value as evaluating the expression directly on it, and never fails where direct evaluation succeeds. This holds for every legal variable name, and extra names in the assignment are ignored.",
     ["programs", "inputs"],
     "for every expression tree, constants, parameters, variable names and variable values",
     "The 'compiled' fixture of the tests never exercises both modes against each other, and operator precedence in generated source depends on the whole tree.",
     ["expression.py", "constraint.py"],
     [("source generation and eval", "expression.py: py_expr, py_source, compile_py_function"),
      ("fallback to interpretation", "expression.py: Expression.as_function")],
     [], ["Expression.compile_py_function()", "Expression.as_function()"])

prop("E03", "Reported variables are exactly those an expression needs",
     "The variables an expression or constraint reports, each once, are variables that occur in it, and supplying values for just those is enough to evaluate it, to a result that no other name in the assignment affects. The free variables with respect to a partial assignment are exactly the reported variables it does not bind; parameters are never reported. Evaluating with a reported variable missing fails, unless the result is the same whatever its value is (a short-circuited & or |): no value is ever invented.",
     ["programs", "inputs"],
     "for every expression tree, constraint and partial assignment",
     "No test queries variables; the answer drives constraint scheduling, so it must be right for every nesting and simplification.",
     ["expression.py", "constraint.py"],
     [("variable collection at construction", "expression.py: Collection.__init__"),
      ("free variables", "expression.py: free_vars; constraint.py: Constraint.free_vars")],
     [], ["Expression.vars()", "Expression.free_vars(substitution)", "Constraint.vars()"])

prop("E04", "Structural equality of expressions implies equal values",
     "If one expression declares itself structurally equal to another then both compute the same value under every assignment, and the relation is symmetric. Every expression is structurally equal to itself and to an expression rebuilt the same way.",
     ["programs", "inputs"],
     "for every pair of expressions (parameters identified by name) and every assignment",
     "No test calls it; the relation is over pairs of trees and all their values.",
     ["expression.py"],
     [("recursive structural comparison", "expression.py: equals")],
     [], ["Expression.equals(other)"])

prop("M01", "Model declarations are validated and all-or-nothing",
     "Declaring a variable or parameter with an invalid name or one already in use, a variable whose domain repeats a value, or a constraint over an undeclared variable, over a parameter in place of a variable or of an unsupported type, is refused with an error and leaves the model exactly as it was. Every accepted declaration, named or automatically named, is a new distinct entry with the given domain, retrievable by name; a Boolean variable has domain {0, 1}.",
     ["histories", "inputs"],
     "for every sequence of accepted and refused declarations, every name and every domain",
     "No test builds a model; uniqueness of automatic names and unchanged state after refusal are properties of whole histories.",
     ["model.py"],
     [("name and duplicate checks", "model.py: Model._get_variable, _get_parameter, add_int_variable"),
      ("scope check of constraints", "model.py: Model.add_constraint")],
     [("_variables", "declared variables and parameters", "model.py: Model"),
      ("_constraints", "constraints in order of addition", "model.py: Model")],
     ["Model.variables()", "Model.constraints()"])

prop("M02", "Constant constraints decide a model correctly",
     "Adding a constraint that mentions no variable and is true leaves the set of solutions unchanged; adding one that is false leaves the model with no solution, forever and for every solver, whatever is added later. Marking a model as not solvable by hand has the same effect, and a model not so affected stays solvable.",
     ["histories", "inputs"],
     "for every model, constant constraint value and position in the sequence of additions",
     NOSOLVER + "the effect must hold for every mix and order of constant and ordinary constraints.",
     ["model.py", "solver.py", "constraint.py"],
     [("evaluation of variable-free constraints when added", "model.py: Model.add_constraint"),
      ("solvable flag", "model.py: Model.solvable, set_solvable")],
     [("solvable", "whether a false constant constraint was added", "model.py: Model")],
     ["Model.add_constraint", "Solver.solve"])

prop("M03", "A constraint is violated only when fully bound and false",
     "A constraint counts as violated by a partial assignment exactly when every variable it mentions is bound and it evaluates to false; in particular no assignment that can still be extended to satisfy it is rejected. An all-different constraint over distinct variables holds exactly when no two of them have equal values.",
     ["inputs", "programs"],
     "for every constraint, every partial assignment (with or without unrelated names) and all values",
     "No test evaluates a constraint; the statement ranges over all subsets of bound variables and all values.",
     ["constraint.py"],
     [("unsatisfied test on partial assignments", "constraint.py: Constraint.unsatisfied"),
      ("distinctness count", "constraint.py: AllDifferentConstraint.evaluate")],
     [], ["Constraint.unsatisfied(substitution)", "Constraint.evaluate(substitution)"])

prop("P01", "Sudoku answers are exactly the valid completions of the clues",
     "Every grid the Sudoku solver delivers keeps all clues and has each of 1-9 exactly once in every row, column and 3x3 block. Without a limit every such completion is delivered exactly once (by default at most one is delivered, and one is delivered if any exists), and clues that contradict each other give no grid.",
     ["inputs"],
     "for every 9x9 clue grid, blanks given as 0 or as null",
     "No test touches Sudoku; the claim is over all clue grids, including inconsistent and already complete ones.",
     ["sudoku.py", "solver.py"],
     [("clue elimination from row, column, block neighbours", "sudoku.py: SudokuSolver.__init__"),
      ("all-different over unknown cells", "sudoku.py: SudokuSolver.__init__"),
      ("merging clues with the solution", "sudoku.py: SudokuSolver.__iter__")],
     [], ["iter(SudokuSolver(schema))"])

prop("P02", "Nonogram answers are exactly the pictures matching the clues",
     "Every picture the nonogram solver delivers has the given shape, and its runs of filled cells, row by row and column by column, are exactly the clues; without a limit every such picture is delivered exactly once, so a picture is always among the answers to its own clues. Clues that no picture matches give no answer.",
     ["inputs"],
     "for every nonogram (lists of positive run lengths per row and per column)",
     "No test touches nonograms; the claim is over all clue sets and all pictures.",
     ["nonogram.py", "solver.py"],
     [("run start variables, order and crossing constraints", "nonogram.py: NonogramSolver.__init__"),
      ("painting of runs", "nonogram.py: NonogramSolver.__iter__")],
     [], ["iter(NonogramSolver(nonogram))"])

prop("P03", "Clues derived from a picture are its exact run lengths",
     "Turning a picture into a nonogram yields, for each row and each column, the lengths of its maximal runs of filled cells in order, and nothing for an empty line; short rows count as blank to the right. Turning a text image into a picture and back preserves exactly which cells are filled.",
     ["inputs"],
     "for every picture and every text image of any shape, ragged ones included",
     "No test touches the conversion; run boundaries at line ends and ragged rows are easy to get wrong.",
     ["nonogram.py", "tool/demo_nonogram.py"],
     [("run length scan", "nonogram.py: pixmap_to_nonogram"),
      ("image conversions", "tool/demo_nonogram.py: image_to_pixmap, pixmap_to_image")],
     [], ["pixmap_to_nonogram(pixmap)", "image_to_pixmap(image)", "pixmap_to_image(pixmap)"])

prop("P04", "Knapsack returns a feasible selection of maximum value",
     "The selection the knapsack optimizer returns respects every capacity and, if it is flagged optimal, no other feasible selection has a larger value; it is flagged optimal whenever a feasible selection exists and neither limit nor timeout interrupted it. The reported value and weights are the totals of the returned selection, and if no selection is feasible none is returned and optimality is not claimed.",
     ["inputs", "configurations"],
     "for all integer values, weights and capacities (of any sign) and any number of items and dimensions",
     "No test touches knapsack; optimality quantifies over all selections and all numbers.",
     ["knapsack.py", "solver.py", "objective.py"],
     [("capacity constraints", "knapsack.py: KnapsackOptimizer.__init__"),
      ("maximization and totals", "knapsack.py: KnapsackOptimizer.__call__")],
     [], ["KnapsackOptimizer(values, capacities, weights)()"])

prop("P05", "Graph labelings are exactly the proper ones",
     "Every labeling delivered gives each node one of the given labels and gives adjacent nodes different labels; without a limit every such labeling is delivered exactly once, including for graphs with isolated nodes. A graph that cannot be labeled properly (such as one with a self-loop) yields nothing.",
     ["inputs"],
     "for every graph and every list of labels",
     "No test touches graph labeling; the claim is over all graphs, label counts and labelings.",
     ["graph_labeling.py", "solver.py"],
     [("one variable per node, one inequality per edge", "graph_labeling.py: GraphLabelingSolver.__init__"),
      ("label lookup", "graph_labeling.py: GraphLabelingSolver.__iter__")],
     [], ["iter(GraphLabelingSolver(graph, labels))"])

prop("P06", "Cryptarithm answers are exactly the valid digit assignments",
     "Every answer maps each letter of the puzzle to a digit so that different letters get different digits and the puzzle, with the letters replaced (numbers may mix letters and digits, case is ignored), is a true arithmetic statement; without a limit every such mapping is delivered exactly once. Unless leading zeros are allowed by the option, no number starting with a letter has that letter zero, and if they are allowed such mappings are included.",
     ["inputs", "configurations"],
     "for every puzzle string over + - * with one comparison (or several joined by &), both settings of the leading-zero option, and all digit mappings",
     "No test touches cryptarithms; the claim is over all puzzles and all digit mappings.",
     ["cryptarithm.py", "solver.py", "expression.py"],
     [("word to weighted letter sum translation", "cryptarithm.py: CryptarithmSolver.__init__"),
      ("letter domains and all-different", "cryptarithm.py: CryptarithmSolver.__init__")],
     [], ["iter(CryptarithmSolver(source))"])

prop("P07", "Queens answers are exactly the non-attacking placements",
     "Every board delivered has the requested size with exactly one queen per row and no two queens on the same column or diagonal. Without a limit every such board is delivered exactly once.",
     ["inputs"],
     "for every board size and every placement",
     "No test touches the queens solver; it is a claim over all placements of each size.",
     ["tool/queens.py", "solver.py"],
     [("column and diagonal all-different constraints", "tool/queens.py: QueensSolver.__init__")],
     [], ["iter(QueensSolver(board_size))"])

prop("P08", "The riddle's answer is the one and only model of its statements",
     "Every answer delivered assigns each of five houses one owner, colour, drink, smoke and animal, all different, so that all fifteen published statements of the riddle hold. Without a limit every such arrangement is delivered exactly once.",
     ["inputs"],
     "over all arrangements of the five attributes over five houses",
     "No test touches the riddle; a dropped or misread statement needs a claim over all arrangements.",
     ["tool/einstein_riddle.py", "solver.py"],
     [("one constraint per statement", "tool/einstein_riddle.py: EinsteinRiddleSolver.__init__"),
      ("grouping by house", "tool/einstein_riddle.py: EinsteinRiddleSolver.__iter__")],
     [], ["iter(EinsteinRiddleSolver())"])

prop("P09", "Map regions are found exactly and adjacent ones differ in colour",
     "In the map solver the regions are exactly the maximal groups of equal characters connected horizontally, vertically or diagonally (blanks and dots are not regions). Each delivered map colours every cell of a region in the same one of the given colours, never gives touching regions (horizontally, vertically or diagonally) the same colour, leaves other cells blank and keeps the map's shape; a map that can be so coloured yields a colouring.",
     ["inputs"],
     "for every character map (ragged lines included) and every list of colours",
     "No test touches map colouring; connectivity and adjacency are claims over all maps.",
     ["tool/ascii_map_coloring.py", "graph_labeling.py", "solver.py"],
     [("flood fill and adjacency scan", "tool/ascii_map_coloring.py: AsciiMapColoringSolver.__init__"),
      ("painting of regions", "tool/ascii_map_coloring.py: AsciiMapColoringSolver.__iter__")],
     [], ["iter(AsciiMapColoringSolver(ascii_map, colors))"])

prop("P10", "Malformed puzzles are refused, well-formed ones accepted",
     "A Sudoku that is not nine rows of nine values from 0-9 or null, and a knapsack with a non-integer number, with too many or too few weight rows, or with a weight row of the wrong length, is refused with an error before any solving. Every well-formed one is accepted, whatever the kind of sequence or iterable it is given as.",
     ["inputs"],
     "for every shape and every value of the input tables",
     "No test touches input checking; a wrong bound or a missed shape shows only on particular inputs.",
     ["sudoku.py", "knapsack.py"],
     [("shape and value checks", "sudoku.py: SudokuSolver.__init__; knapsack.py: KnapsackOptimizer.__init__")],
     [], ["SudokuSolver(schema)", "KnapsackOptimizer(values, capacities, weights)"])

prop("T01", "Summaries never overstate the result",
     "The printed solve summary says 'unique' or 'all' only if the run was not interrupted, and 'unique' only for exactly one solution; an interrupted run is always shown as partial together with the reason, and one that was not never is. The optimization summary says 'optimal' exactly if the result is known optimal (by the caller's verdict or, failing one, by the absence of an interrupt) and otherwise 'sub-optimal', and gives the reason of an interrupt. The counts and times printed are those of the statistics.",
     ["inputs"],
     "for every solution count, elapsed time, interrupt state and optimality verdict",
     "No test touches the tool's output; the wording must be right in every combination.",
     ["tool/demo_utils.py"],
     [("summary formatting", "tool/demo_utils.py: print_solve_stats, print_optimization_stats")],
     [], ["standard output"])

prop("T02", "Tool commands print exactly the solver's answers",
     "Each tool command (knapsack, sudoku, graph_labeling, ascii_map_coloring, nonogram, queens, einstein, cryptarithm) prints every answer its solver delivers for the given problem, numbered from 1 and in full, and no other, then a summary whose count is the number printed. It passes the requested limit, timeout and problem options on to the solver, and reads its problem from the given input instead of the built-in example when one is given.",
     ["inputs", "configurations"],
     "for every command, limit, option value and input",
     "No test touches the tool; rendering and option plumbing must be right for every answer and option combination.",
     ["tool/__init__.py", "tool/demo_knapsack.py", "tool/demo_sudoku.py", "tool/demo_nonogram.py", "tool/demo_queens.py",
      "tool/demo_einstein_riddle.py", "tool/demo_cryptarithm.py", "tool/demo_graph_labeling.py", "tool/demo_ascii_map_coloring.py"],
     [("option parsing and dispatch", "tool/__init__.py: main"),
      ("printing loops", "tool/demo_*.py")],
     [], ["satisfy <command> ... on standard output"])

prop("E05", "Using an expression never changes it",
     "Combining an expression with operators (also in place), evaluating or compiling it, comparing it, listing its variables or making constraints from it never changes what it or any of its parts evaluates to, the variables it reports, or what it equals. Neither the assignment supplied nor the value of any parameter is changed by it. A function compiled earlier keeps its value.",
     ["inputs", "programs", "histories"],
     "for every expression, every use made of it, every assignment and every parameter value",
     "Sharing bugs need an expression that is used twice, in a particular order and with particular values.",
     ["expression.py", "constraint.py"],
     [("operators build new nodes", "expression.py: Expression operators, UnOp, BinOp, Accumulation, _make_accumulate"),
      ("evaluation and compilation", "expression.py: evaluate, compile")],
     [("operands", "the parts of an operator, shared between expressions", "expression.py")],
     ["Expression.evaluate", "Expression.vars", "Expression.equals"])

prop("S11", "Errors raised by constraints are never turned into answers",
     "No assignment is delivered on which a constraint fails or its calculation is undefined (a division by zero, say), and a run that ends without an error has delivered every assignment on which all constraints are defined and hold. An error ends the run unchanged, and happens only if some constraint's calculation is undefined for some values of its variables; the part of & or | that is not needed is not calculated. Optimization behaves likewise.",
     ["inputs", "programs", "configurations"],
     "for every model with constraints whose calculation may fail, every domain, every fault position and every solver configuration",
     NOSOLVER + "a swallowed or misplaced error shows only for particular values tried in a particular order.",
     ["solver.py", "constraint.py", "expression.py", "model.py"],
     [("constraint evaluation in the search", "solver.py: Solver.solve, Solver._setup"),
      ("constraint evaluation", "constraint.py: ExpressionConstraint, Constraint.unsatisfied")],
     [], ["Solver.solve(model)", "Solver.optimize(model, objective)"])

prop("S12", "A solver's settings are those given last, for runs started later",
     "A run obeys the limit, timeout, selection policy and compilation setting of its solver as they are when the run is started, however they were set (when the solver was created or later), and a setting given to a single call replaces the solver's for that call only. None or INFINITY as limit or timeout means no such bound. A setting reads back as it was set (an unbounded limit or timeout as None, the compilation setting as a bool); a value that is not a policy is refused with a TypeError and changes nothing; changing a setting changes no other one and no run that has delivered a solution.",
     ["histories", "configurations"],
     "for every history of settings, refused settings and runs on one solver, and every value of the settings",
     NOSOLVER + "a setting that sticks, leaks into another call or is read at the wrong moment needs a history of calls in which it matters.",
     ["solver.py", "utils.py"],
     [("settings", "solver.py: Solver.__init__, Solver.limit, Solver.timeout, Solver.var_selection_policy, Solver.compile_constraints"),
      ("settings of a call", "solver.py: Solver.solve, Solver.optimize, Solver.optimal_solution")],
     [("settings", "what holds for runs started now", "solver.py: Solver.__init__")],
     ["Solver.solve(model)", "Solver.get_stats()", "Solver.limit"])

prop("S13", "Constraints are consulted only on viable assignments, and on demand",
     "A run evaluates a constraint that has variables only while it is asked for a solution, and only on an assignment that binds all of the constraint's variables and nothing but variables of the model, to values of their domains. No assignment that violates a constraint is extended: an assignment a constraint is evaluated on has some variable without which it violates no constraint of the model and no additional one. Nothing is evaluated once the limit is reached, nor in a run with limit 0 or of a model that is not solvable.",
     ["inputs", "programs", "configurations", "histories"],
     "for every model, every constraint consulted, every solver configuration, and every point of a run",
     NOSOLVER + "what constraints are asked, and when, is not visible in the answers.",
     ["solver.py", "constraint.py"],
     [("candidate filtering", "solver.py: Solver.solve"),
      ("single-variable constraints", "solver.py: Solver._setup"),
      ("violation of partial assignments", "constraint.py: Constraint.unsatisfied")],
     [], ["Constraint.evaluate(substitution)", "Solver.solve(model)"])

prop("S14", "Solutions come in the order of the domains, variable by variable",
     "The solutions of a run - complete, limited or optimizing, compiled or not - come in lexicographic order with respect to some order of the variables that is fixed for the whole run, the values of each variable ranked as in its declared domain (also if that is not sorted, or was given as an iterator or a dictionary). Under ORDERED that order of the variables is the order of declaration, under REVERSED its reverse; under MIN_BOUND variables with fewer declared values come before those with more, under MAX_BOUND after them.",
     ["inputs", "programs", "configurations"],
     "for every model, domain, policy and limit",
     NOSOLVER + "a test that compares sets of solutions, or the one solution there is, does not notice their order, on which limited runs depend.",
     ["solver.py", "model.py"],
     [("order of variables", "solver.py: Solver.solve"),
      ("order of values", "solver.py: Solver.solve, Solver._setup; model.py: Model.add_int_variable")],
     [], ["Solver.solve(model)", "Solver.optimize(model, objective)"])

prop("S15", "Objectives are asked once, told every solution, and bind all later ones",
     "Optimizing with any objectives - user-defined ones, Maximize and Minimize, one, several or none - asks each of them, in their order, exactly once per run for its constraint, giving it the model, before anything is delivered. Each solution is then given to every objective exactly once, in their order, with that objective's own constraint, before it is delivered. Every solution satisfies all these constraints as they are after the solutions before it, no solution is delivered twice, and a run that ends without interrupt has delivered every assignment that satisfies the model and these constraints as they are in the end, provided that they only ever become stricter. An error of an objective ends the run unchanged; something that is no objective is refused with an error, and no solution is delivered.",
     ["programs", "histories", "configurations", "fault_sequences"],
     "for every model, every objective's constraint as a function of the solutions so far, every solver configuration and every point of failure",
     "Tests use Minimize and Maximize only; a constraint that is consulted too early, too late or with a stale state matters for particular relations and orders.",
     ["solver.py", "objective.py", "constraint.py"],
     [("protocol of objectives", "solver.py: Solver.optimize"),
      ("additional constraints are rechecked", "solver.py: Solver.solve"),
      ("objectives", "objective.py: Objective.make_constraint, Objective.add_solution")],
     [("objective constraints", "the additional constraints of a run, one per objective", "solver.py: Solver.optimize")],
     ["Solver.optimize(model, objective)", "Solver.optimal_solution(model, objective)"])

prop("S16", "Results do not depend on the hash seed of the process",
     "The same program gives the same results in every process, whatever the hash seed is (PYTHONHASHSEED): the same solutions with their variables in the same order, in the same order, and the same one when there is a limit, with every selection policy (RANDOM: if the random generator is seeded); the same optimal solutions, statistics and errors of rejected models; the same variables, constraints and their listings; the same answers of the puzzles and labelings and the same output of the tool.",
     ["configurations", "programs", "inputs"],
     "for every order in which sets of strings are iterated, every model, puzzle, selection policy and limit",
     "A test runs under one hash seed at a time and compares sets of answers, if anything; an order that leaks shows under some seeds and for some names only.",
     ["solver.py", "model.py", "constraint.py", "cryptarithm.py", "graph_labeling.py"],
     [("order of the variables", "solver.py: Solver.solve"),
      ("variables of a constraint, as a set", "constraint.py: Constraint.vars"),
      ("letters of a puzzle, as a set", "cryptarithm.py: CryptarithmSolver.__init__"),
      ("reported variable of a rejected constraint", "model.py: Model.add_constraint")],
     [("sets of names", "names of the variables of a constraint, all-different groups", "solver.py: Solver._setup")],
     ["Solver.solve(model)", "Solver.optimize(model, objective)", "CryptarithmSolver(source)", "python -m satisfy.tool"])

prop("M04", "Models do not influence each other",
     "Two models behave as if the other did not exist, even if they use the same variable names, share domains, expressions, constraint objects or objectives, are declared in any interleaving, and are solved alternately or at the same time, also with the same solver object. A constraint or variable added to one model never changes the answers, the constraints or the variables of another.",
     ["histories", "programs"],
     "for every pair of models, every interleaving of declarations and runs, and everything they can share",
     "No test uses two models; interference needs particular sharing and a particular order of operations.",
     ["model.py", "solver.py", "constraint.py", "objective.py", "expression.py"],
     [("per-model registries", "model.py: Model.__init__, add_int_variable, add_constraint"),
      ("per-run search state", "solver.py: Solver.solve")],
     [("registries", "variables, domains and constraints of one model", "model.py: Model.__init__")],
     ["Solver.optimize(model, objective)", "Solver.solve(model)"])

prop("P11", "Puzzle solvers honour their settings, repeat and can be extended",
     "A puzzle solver given a solver, or a limit, timeout, selection policy or compilation setting, searches with exactly these and delivers the same set of answers as far as they allow, and a model given to it receives the puzzle, whatever else it contains. Iterating it again, after a complete or abandoned iteration or while another one is in progress, gives the same answers, and its statistics describe the last iteration. A constraint added to its model keeps exactly those answers that satisfy it.",
     ["inputs", "configurations", "histories"],
     "for every puzzle, setting, interleaving of iterations and added constraint",
     "No test runs a puzzle; wrong plumbing of a setting shows only when that setting matters.",
     ["sudoku.py", "nonogram.py", "graph_labeling.py", "cryptarithm.py", "knapsack.py", "solver.py", "model.py",
      "tool/queens.py", "tool/einstein_riddle.py", "tool/ascii_map_coloring.py"],
     [("settings passed on to the solver", "solver.py: ModelSolver; each puzzle's __init__"),
      ("iteration", "solver.py: ModelSolver.__iter__")],
     [], ["iter(puzzle)", "puzzle.get_stats()", "puzzle.model"])

prop("M05", "Running a solver leaves the problem as declared",
     "Solving or optimizing a model - completely, partly or in vain, under any policy, compiled or not, with additional constraints, even if a constraint raises an error - changes nothing that was declared or handed over: the model's variables, parameters and their values, domains, constraints and solvability, and the sequences given as domains, objectives or additional constraints. This also holds at every solution delivered during the run. What is declared afterwards, automatic names included, is as if no run had taken place.",
     ["histories", "inputs"],
     "for every model and every sequence of runs of every kind, at every delivered solution and after every run",
     "Tests look at what runs deliver, not at the model afterwards; the traces a run leaves depend on its kind and on how it ends.",
     ["solver.py", "objective.py", "model.py", "constraint.py"],
     [("preparation of a run", "solver.py: Solver._setup, Solver.optimize"),
      ("bound of an objective", "objective.py: MinMaxConstraint")],
     [("declarations", "variables, parameters, domains and constraints of a model", "model.py: Model.__init__")],
     ["Solver.solve(model)", "Solver.optimize(model, objective)", "Solver.optimal_solution(model, objective)", "Model.variables", "Model.constraints"])

prop("T03", "The listing of a model shows the model that is solved",
     "The listing of a model, which every tool command prints on request, names every variable and parameter once, in the order of declaration and each variable with its domain, and then every constraint once, in the order in which they were added. The text of an expression or of a constraint made from it, read by the usual rules (/ being floor division, & and | being 'and' and 'or'), has the value of the expression under every assignment, and that of an all-different constraint names its variables.",
     ["inputs", "programs"],
     "for every expression and assignment, and every model",
     "No test looks at a listing; a wrong precedence or a lost operand shows only for particular nestings and values.",
     ["expression.py", "constraint.py", "tool/demo_utils.py", "model.py"],
     [("text of expressions", "expression.py: __str__ of BinOp, Pow, Neg, Abs, Accumulation"),
      ("listing", "tool/demo_utils.py: print_model")],
     [], ["str(expression)", "str(constraint)", "satisfy COMMAND --show-model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
