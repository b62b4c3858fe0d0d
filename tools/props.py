"""Source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""
LP = "pytimize/programs/_linear.py"
IP = "pytimize/programs/_integer.py"
UN = "pytimize/programs/_unconstrained.py"
UG = "pytimize/graphs/_undirected.py"
DG = "pytimize/graphs/_directed.py"
EQ = "pytimize/formulations/linear/_equation.py"
VA = "pytimize/formulations/linear/_variable.py"
CO = "pytimize/formulations/linear/_constraint.py"
OB = "pytimize/formulations/linear/_objective.py"
AB = "pytimize/formulations/linear/_abstract.py"
UT = "pytimize/formulations/linear/_utilities.py"
GP = "pytimize/parsers/_graph.py"
LPA = "pytimize/parsers/_linear.py"
DE = "pytimize/parsers/_description.py"
SY = "pytimize/parsers/_symbol.py"
CM = "pytimize/utilities/_comparator.py"
DJ = "pytimize/utilities/_disjoint.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, na=None, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe or [], na=na, note=note, technique=technique))


p("C01", "Asking a question about a program never changes it",
  "Every public method of a linear or integer program that answers a question or returns a new program leaves the program it is called on exactly as it was, apart from its recorded steps, whether the call returns normally or raises. This covers feasibility, bases, solutions, certificates, duals, auxiliary programs, simplex, solving, branch and bound, printing and comparing.",
  ["inputs", "histories"], "all programs, all methods, all arguments, every normal and exceptional way out",
  "The tests compare a result once; they do not compare the program before and after, least of all on the paths that raise.",
  [LP, IP], [("copy before in-place work", LP + " copy"), ("in_place dispatch", LP)])
p("C02", "Without in_place the original is untouched, with it the original is the result",
  "An operation that takes in_place leaves the program it is called on untouched and returns a different program when in_place is not set, and changes and returns that very program when it is set. Both forms give the same resulting program.",
  ["inputs"], "every operation with an in_place argument, all programs and arguments",
  "Tests exercise one of the two forms for a few matrices.", [LP], [("copy().op(..., True)", LP)])
p("C03", "Programs never share data with their creator or with each other",
  "Changing an array or list after it was passed to a program, or changing a program after another one was derived from it (copy, dual, auxiliary, standard equality form, relaxation), never changes what the other object shows. No operation changes the arrays and lists it is given.",
  ["inputs", "histories"], "all constructors, copies and derived programs; every later in-place operation",
  "Sharing shows only when a later change reaches the other object; tests build each object afresh.", [LP, IP], [("array copies in the constructor", LP + " __init__"), ("copy", LP)])
p("C04", "Operations that need standard equality form refuse other programs",
  "Every operation documented to require standard equality form raises ArithmeticError on a program that is not in that form, before anything about the program changes, and does not refuse programs that are in that form.",
  ["inputs"], "every such operation, all programs outside SEF (min objective, an inequality, a free or a negative variable)",
  "Tests cover two of the operations with one program each.", [LP], [("is_sef guard", LP)])
p("C05", "is_sef tells the truth after every operation",
  "A program reports being in standard equality form exactly when it maximises, all constraints are equalities and all variables are non-negative. This holds after construction and after every operation that changes or derives a program.",
  ["inputs", "histories"], "all constructor arguments and every operation that produces or changes a program, in any order",
  "The flag is stored, not computed; tests check it after construction only.", [LP, IP], [("stored flag", LP)])
p("C06", "The constructor accepts exactly well-formed programs",
  "A linear program is built exactly when the matrix, vectors, objective, inequality list and variable lists fit together, and otherwise ValueError is raised. A built program shows the data it was given.",
  ["inputs"], "all shapes, objectives, inequality lists and variable lists",
  "The combinations of wrong shapes, duplicates, overlaps and out-of-range numbers are unbounded; tests sample a few.", [LP, IP], [("constructor checks", LP + " __init__")])
p("C07", "The dual follows the duality table",
  "The dual of a program has the transposed matrix, exchanged right-hand side and objective coefficients, the opposite objective, and for each constraint and variable the restriction the textbook table prescribes. Dualising twice gives the original program back.",
  ["inputs"], "all programs: any mix of senses, restrictions and both objectives",
  "There is no test of the dual; a table has many entries that each need their own combination.", [LP], [("dual", LP + " dual")])
p("C08", "Standard equality form describes the same problem",
  "Converting a program to standard equality form yields an equivalent maximisation with equality rows and non-negative variables only: non-positive variables are negated, free variables are split in two, every inequality gets one slack of the right sign. A minimisation has its objective and constant negated, and everything else is carried over.",
  ["inputs"], "all programs: any number and order of senses and restrictions, both objectives, in place or not",
  "Tests check four fixed programs; index shifts depend on how restrictions interleave.", [LP], [("to_sef", LP + " to_sef")])
p("C09", "Solving reports solutions in the original variables",
  "The solution returned for a program that is not in standard equality form is the solution found for the converted program translated back: slacks dropped, split pairs subtracted, negated variables negated, one value per original variable in order. The simplex method is only ever started from a basis that is feasible for the converted program.",
  ["inputs"], "all programs and all solutions of the converted program",
  "The translation depends on how restrictions interleave; tests check a few programs.", [LP], [("solve", LP + " solve")])
p("C10", "Feasibility and value verdicts are right",
  "A point is reported feasible exactly when it satisfies every constraint and every sign restriction, up to numerical tolerance. The value of a point is the objective at it plus the constant, infeasible points have no value, and vectors of the wrong size are rejected.",
  ["inputs"], "all programs in and out of standard equality form, all points outside the tolerance zone",
  "Verdicts quantify over every row, sense and restriction at once.", [LP], [("is_feasible, value_of, evaluate", LP)])
p("C11", "Certificates are accepted exactly when they prove the claim",
  "A certificate of infeasibility, unboundedness or optimality is accepted exactly when it satisfies the inequalities that prove the claim, up to numerical tolerance.",
  ["inputs"], "all programs in standard equality form and all certificates outside the tolerance zone",
  "Tests cover infeasibility certificates only, and a handful.", [LP], [("verify_*", LP)])
p("C12", "Tolerant comparison is a consistent order",
  "Comparing numbers, vectors or matrices with a tolerance gives exactly the plain comparison whenever the values are clearly apart, treats values within tolerance as equal, and an elementwise comparison holds exactly when it holds for every element. Sign and integrality tests agree with it, and unknown operators are rejected.",
  ["inputs"], "all operators; numbers, vectors and matrices compared with a number",
  "Tests sample single values per operator.", [CM], [("operator table", CM)])
p("C13", "Answers about bases are right and count columns from one",
  "A list of columns is a basis exactly when it has one column per row, all in range, with nonsingular submatrix; the basic solution solves the system on those columns and is zero elsewhere, in whatever order the columns are listed. Basic, feasible-basic and canonical-form verdicts agree with that definition.",
  ["inputs"], "all programs and all column lists: any order, length, repetition, out of range",
  "Tests use sorted bases of small fixed programs.", [LP], [("is_basis and relatives", LP)])
p("C14", "Recording steps never makes an operation fail",
  "Whenever an operation records what it did, the description it asks for exists and is given as many values as it needs, so recording never raises. What is recorded is the same kind of entry for every operation.",
  ["inputs"], "every recording site on every path, all values",
  "A wrong key or arity fails only on the path that records it; many are not reached by tests.", [LP, DE], [("descriptor table", DE), ("recording helper", LP)])
p("C15", "Showing steps never changes results",
  "An operation gives the same result and the same changes to the program whether or not it records its steps, and records nothing when told not to.",
  ["inputs"], "every operation with show_steps, all programs and arguments",
  "Tests never compare the two modes.", [LP], [("show_steps guards", LP)])
p("C16", "Canonical form is the equivalent program for the basis",
  "Converting a program in standard equality form to canonical form for a basis gives the program premultiplied by the inverse of the basis columns, with the reduced objective and constant of the same problem. A list that is not a basis is rejected with ValueError.",
  ["inputs"], "all programs in standard equality form and all column lists in any order",
  "Tests use two fixed programs.", [LP], [("to_canonical_form", LP)])
p("C17", "A simplex step follows the rules of the method",
  "From a feasible basis one simplex step stops with the basic solution when no reduced cost is positive, reports unboundedness when the entering column has no positive entry, and otherwise exchanges the first column with positive reduced cost for a column that attains the smallest ratio. A list that is not a basis is rejected.",
  ["inputs"], "all programs in standard equality form with a feasible basis",
  "Pivot choice depends on signs and ratios across all columns; tests follow three programs.", [LP], [("simplex_iteration", LP)])
p("C18", "Branch and bound returns integral solutions of the same problem",
  "Branch and bound explores subproblems that keep all constraints and restrictions of the program and add only bounds on one fractional integral variable, rounding down on one side and up on the other. It keeps the better of the two answers for the objective and never returns a point in which an integral variable is fractional.",
  ["inputs"], "all integer programs, integral-variable lists and relaxation solutions",
  "Tests run one or two tiny programs.", [IP], [("branch_and_bound", IP)])
p("C19", "The auxiliary program is the phase-one problem",
  "For a program in standard equality form the auxiliary program has the same rows with those of negative right-hand side negated, one artificial variable per row, and minimises the sum of the artificial variables.",
  ["inputs"], "all programs in standard equality form, any signs of the right-hand side",
  "No test looks at the auxiliary program itself.", [LP], [("auxiliary", LP)])
p("C20", "Undirected graph operations keep the graph consistent",
  "After any accepted operation on an undirected graph, adjacency is symmetric without loops, every edge joins two vertices of the graph, weights exist only for the edges and vertices there are, and counts and degrees agree with the edges.",
  ["inputs", "histories"], "all graphs and all single operations on any consistent graph, hence all histories",
  "Tests exercise additions on tiny graphs.", [UG], [("add/remove operations", UG)])
p("C21", "Edges of an undirected graph have no direction",
  "Every operation on an undirected graph gives the same answer and the same effect whichever end of an edge is named first.",
  ["inputs"], "all graphs, edges and edge operations", "Tests name each edge one way.", [UG], [("edge normalisation", UG)])
p("C22", "Directed graph operations keep the graph consistent",
  "After any accepted operation on a directed graph, the arcs and nodes are those before plus or minus the named ones, every arc joins two nodes of the graph, and demands and capacities exist exactly for the nodes and arcs there are.",
  ["inputs", "histories"], "all digraphs and single operations on any consistent digraph, hence all histories",
  "Tests only run two flow algorithms.", [DG], [("add/remove operations", DG)])
p("C23", "A rejected operation changes nothing",
  "When an operation of a program, graph or formulation rejects its arguments (wrong sizes, positions, names, signs or types), the object describes the same program, graph or formulation as before the call.",
  ["inputs", "fault_sequences"], "every mutating operation and every exceptional exit", "Tests assert that an exception is raised and never look at the object afterwards.",
  [LP, UG, DG, AB], [("checks before writes", UG)])
p("C24", "What a graph hands out is not the graph",
  "Changing a collection returned by a graph, a copy of a graph, or a collection a graph was built from never changes the graph.",
  ["inputs", "histories"], "all accessors, copies and constructors", "Sharing shows only under a later change.", [UG, DG], [("copies in accessors", UG)])
p("C25", "Asking a question about a graph never changes it",
  "Every query of a graph (traversals, paths, trees, cuts, flows, degrees, formulations) leaves the graph and its arguments as they were, whether it returns or raises.",
  ["inputs"], "all queries, graphs and arguments, all ways out", "Tests never compare the graph before and after.", [UG, DG], [("local working copies", UG)])
p("C26", "A vertex name is one name",
  "A string that names a vertex or node is treated as that one name, however long it is, wherever a name or a collection of names is accepted.",
  ["inputs"], "all names of any length and all operations taking names", "Tests use one-letter names, for which splitting is invisible.", [UG, DG], [("string checks", UG)])
p("C27", "Duplicates and unknown parts are rejected",
  "Adding a vertex, edge, node or arc that exists, adding a loop or an edge with an empty end, removing or weighing an edge or vertex that does not exist, and negative weights in an undirected graph are rejected with ValueError; everything else is accepted, and ends not yet in the graph are created with the edge.",
  ["inputs"], "all graphs and arguments", "Tests cover a fraction of the operations.", [UG, DG], [("argument checks", UG)])
p("C28", "Cuts contain exactly the crossing edges",
  "The cut of a set of vertices contains exactly the edges with one end inside the set; for directed graphs the outgoing and the incoming cut contain exactly the arcs leaving and entering it.",
  ["inputs"], "all graphs and vertex sets", "Tests use one graph.", [UG, DG], [("cut", UG)])
p("C29", "Traversals visit each reachable vertex exactly once",
  "A traversal yields the start vertex and every vertex reachable from it exactly once, in an order in which every vertex is adjacent to an earlier one; breadth-first order never moves to a nearer vertex.",
  ["inputs"], "all graphs and start vertices", "No tests of traversals.", [UG, DG], [("work list", UG)])
p("C30", "Maximum flow is maximum",
  "Both flow algorithms end and return a flow that gives every arc an amount between zero and its capacity, conserves it at every node other than source and sink, and has the value of a minimum cut between them.",
  ["inputs"], "digraphs of up to four nodes (some of five) with capacities in families of fixed order of magnitude, ties and zeros included", "Tests run a few graphs with a few capacities, none with arcs in both directions.", [DG], [("ford_fulkerson, preflow_push", DG)])
p("C31", "Tree, cycle and connectivity verdicts agree with the definitions",
  "A graph is reported cyclic exactly when it has a cycle, connected exactly when every vertex reaches every other, and a tree exactly when it is connected without a cycle. Its partition is the set of its connected components, each with its own edges and weights. The empty graph is neither connected nor a tree.",
  ["inputs"], "all graphs", "Tests cover trees of a few shapes.", [UG, DJ], [("is_cyclic, is_connected, is_tree", UG)])
p("C32", "Writing expressions never changes the expressions used in them",
  "Adding, subtracting, negating, scaling or comparing expressions and variables of a formulation leaves every operand as it was, so an expression can be used again.",
  ["inputs", "histories"], "all operators, operand kinds and orders", "Tests use each expression once.", [EQ, VA, UT], [("new expression per operation", EQ)])
p("C33", "Expression arithmetic is linear algebra",
  "The value of a sum, difference, negation or scalar multiple of expressions at any assignment is the sum, difference, negation or multiple of their values, constants included.",
  ["inputs"], "all operators, operand kinds and orders, and assignments", "Tests sample a few combinations.", [EQ, VA, UT], [("operators", EQ)])
p("C34", "Comparisons become the constraint that was written",
  "Comparing two expressions, an expression and a number, or an expression and a variable gives a constraint satisfied by exactly the assignments that satisfy the written comparison, whichever side things are on.",
  ["inputs"], "all comparison operators and operand kinds and orders", "Tests sample a few combinations.", [EQ, VA, CO], [("comparison operators", EQ)])
p("C35", "A compiled formulation is the problem that was written",
  "The program obtained from a formulation has the objective and exactly one row per constraint in order with the written coefficients, sense and right-hand side, over all variables mentioned. Stating a new objective or further constraints and compiling again reflects exactly what was stated, without stale parts.",
  ["inputs", "histories"], "all formulations and all orders of statements", "Tests compile once per formulation.", [AB, OB, CO], [("compile", AB)])
p("C36", "Sign conditions on variables become sign restrictions",
  "A condition that a variable is at least zero, at most zero or unrestricted becomes exactly that restriction of the compiled program, with variables that have no condition free or as documented.",
  ["inputs"], "all formulations with any mix of conditions", "Tests use one mix.", [AB, CO], [("where, compile", AB)])
p("C37", "Unsupported operands are refused",
  "Using an operand that a formulation cannot represent, such as a string, None, a product of expressions or a foreign object, raises instead of giving a wrong expression or program.",
  ["inputs"], "all operators and operand kinds", "Tests do not cover unsupported operands.", [EQ, VA, UT, AB], [("operand checks", EQ)])
p("C38", "The graph parser accepts exactly its language",
  "The graph parser accepts exactly whitespace-separated lists of edges that all have one form - two one-character names (`ab`) or two hyphenated names (`a1-b2`), either all with a decimal weight after a colon or all without - and rejects every other string with ValueError. It gives one (name, name, weight) triple per edge, in order, with the names and weight written and weight 0 where none is.",
  ["inputs"], "all strings", "Tests sample strings.", [GP], [("regular expressions", GP)])
p("C39", "The linear parser accepts exactly its language",
  "The linear parser accepts exactly sums of terms `<number>x_<k>` with k at least one, joined by `+` or `-` and optionally starting with `-`, in which no variable is repeated, and rejects every other string with ValueError. The parsed row holds the written signed coefficient of each variable at its position and zero elsewhere, and is as long as the largest variable number or the size asked for.",
  ["inputs"], "all strings", "Tests sample strings.", [LPA], [("regular expressions", LPA)])
p("C40", "Unconstrained solvers leave their inputs alone",
  "The solvers for unconstrained programs never change the starting point they are given and leave the program as it was.",
  ["inputs"], "all programs, methods and starting points", "Tests do not look at the starting point afterwards.", [UN], [("copy of the point", UN)])
p("C41", "Unconstrained minimisation and maximisation are mirror images",
  "Maximising a function follows exactly the iterates of minimising its negative, and an objective other than `min` and `max` is rejected.",
  ["inputs"], "all functions, gradients, starting points", "Tests only minimise.", [UN], [("objective sign", UN)])
p("C42", "Disjoint sets implement an equivalence relation",
  "Elements are reported connected exactly when they have been joined, directly or through others; joining connects the two classes and no others, and finding never changes the classes.",
  ["inputs", "histories"], "all element sets and all histories of joins", "No tests.", [DJ], [("find with path compression, union by size", DJ)])
p("C43", "The library never ends the process or touches files",
  "No public operation exits the interpreter, writes to files, starts processes, or changes interpreter-wide state, and only the plotting operation opens a window.",
  ["inputs"], "every function of the package", "Tests cannot show absence of an effect on all paths.", [LP, IP, UN, UG, DG, AB], [("no such calls", "pytimize")])
p("C44", "Results are reproducible",
  "Apart from operations documented as random, no operation depends on random numbers, time, the environment or object identity, so equal inputs give equal results.",
  ["inputs"], "every function of the package", "One test run cannot show independence of hidden inputs.", [LP, IP, UN, UG, DG, AB], [("no such calls", "pytimize")])
p("C45", "Well-formed calls never fail with an internal error",
  "A call that respects the documented argument types ends with a result or with one of the documented errors (ValueError, ArithmeticError and relatives), never with AttributeError, NameError, UnboundLocalError, infinite recursion or a wrong-arity TypeError from inside the library.",
  ["inputs"], "every public operation and every path through it", "Tests reach a fraction of the branches.", [LP, IP, UN, UG, DG, AB, GP, LPA], [("whole package", "pytimize")])
p("C46", "Printing shows the whole program",
  "The printed form of a linear or integer program shows the objective sense, every cost, the constant with its sign, every constraint with its own coefficients, sense and right-hand side, and the sign restrictions that hold, each on its own line, with brackets and decimal points of the rows below each other; numbers are shown with their sign, to three decimals from one to ten thousand million and to three significant digits beyond.",
  ["inputs"], "programs of nine shapes with symbolic entries; every number, by order of magnitude", "Tests print a few programs.", [LP, IP], [("__repr__", LP), ("__repr__", IP)])
p("C47", "Simplex and the two-phase method return optimal solutions",
  "When a solver returns a solution it is optimal for the program, when it reports unboundedness or infeasibility the certificate proves it, and it terminates on every program.",
  ["inputs"], "all programs", "Tests run a few programs.", [LP], [("simplex, two_phase_simplex", LP)],
  na="Optimality and termination of the numerical pivoting loop quantify over unbounded sequences of floating-point pivots; no static argument in reach bounds them. The structural parts (single pivot rule, canonical form, feasible start, certificates, purity) are claimed under C01, C09, C11, C16, C17.")
p("C48", "Unconstrained solvers converge",
  "The descent and Newton solvers return a point whose gradient is within the requested tolerance whenever they terminate, and terminate on convex functions.",
  ["inputs"], "all functions and starting points", "Tests run two functions.", [UN], [("iteration", UN)],
  na="Convergence of a numerical iteration over a user-supplied function is a runtime quantity no static argument here bounds; purity and the mirror symmetry of the iteration are claimed under C40 and C41.")
p("C49", "Descent and Newton steps are what the documentation says",
  "Each round of steepest descent moves against the gradient by the first of alpha, alpha*p, alpha*p^2, ... whose step gives the decrease demanded by c. Each Newton round moves by the Newton step. Both stop at the first new point whose gradient norm is within the tolerance, or after max_iteration rounds, return the last point, and accept points and derivatives as lists or arrays.",
  ["inputs"], "all functions, derivatives, starting points and settings; the first two rounds and the first backtracks of each",
  "Tests look at the final point of two functions, which hides wrong step lengths and stopping rules.", [UN], [("iteration", UN)])
p("C50", "The stable set program describes the stable sets",
  "The integer program formulated for the maximum stable set of a graph with vertices maximises the sum of the vertex weights over integer points that are non-negative, at most one for every vertex, and at most one in total over the two ends of every edge, with nothing else required. The mapping returned gives each vertex a column of its own.",
  ["inputs"], "all graphs of up to four vertices, samples of five, in several orders of statement, arbitrary weights", "One test looks at one graph.", [UG], [("formulate_max_stable_set", UG)])
p("C51", "The residual graph shows what a flow leaves over",
  "For every ordered pair of nodes the residual graph of a feasible flow has an arc exactly if the unused capacity from the first to the second plus the flow from the second to the first is positive, with that capacity. A flow above a capacity is rejected with ArithmeticError; a flow that is negative or names an arc that does not exist, with ValueError.",
  ["inputs"], "digraphs of up to four nodes with every pattern of unused, partly used and saturated arcs, capacities in families of fixed order of magnitude", "Tests look at one graph without arcs in both directions.", [DG], [("create_residual", DG)])
p("C52", "Shortest paths are shortest",
  "The shortest path search returns a walk of existing edges from the first vertex to the second whose total weight is the least of all paths, and rejects with ValueError unknown vertices and vertices with no path. The formulated shortest path program of two different vertices minimises the weight of the edges taken with one row of at least one per cut separating the two vertices, over non-negative variables.",
  ["inputs"], "all graphs of up to four vertices and samples of five, weights in families of fixed order of magnitude, ties and zeros included", "Tests run two graphs with one weight each.", [UG], [("shortest_path, formulate_shortest_path", UG)])
p("C53", "Row reduction gives the row reduced echelon form",
  "is_in_rref is true exactly of the constraint matrices that are in row reduced echelon form (leading ones moving right, alone in their columns, zero rows last). to_rref returns the row reduced echelon form of the matrix given and leaves that matrix as it was; it ends on every matrix.",
  ["inputs"], "verdict: all matrices of up to three rows and four columns; reduction: entries of every zero pattern up to 3 by 4 that settles the pivots", "No test calls either on more than a handful of matrices, and the reduction is not tested at all.", [LP], [("is_in_rref, to_rref", LP)])
p("C54", "Extending a program adds exactly the new row or column",
  "add_constraint gives the program with the new row of coefficients, its sense and its value appended, and add_variable the program with the new column (zeros when none is given), its objective coefficient (zero when none is given) and its restriction (non-negative unless marked free or negative) appended; everything else stays as it was. This holds after every history of extensions, and the extended program's value and dual are those of the extended problem. Coefficients that do not fit the program, an unknown sense, or a variable marked both free and negative are refused with ValueError and change nothing.",
  ["inputs", "histories"], "programs of four shapes with symbolic entries, every single extension and random histories of up to four, in place and not, arrays and lists", "Tests add one constraint or variable to one program each.", [LP, IP], [("add_constraint, add_variable", LP)])
p("C55", "A copy is the same program",
  "A copy of a program is of the same class, shows the same data and gives the same feasibility verdicts, integrality of an integer program included; the relaxation of an integer program is the linear program with the same data without integrality. Two linear programs are equal exactly when everything they show is equal. The optimal value is the value of the solution that solving reports, and None when there is none.",
  ["inputs", "histories"], "linear and integer programs of four shapes with symbolic entries, every kind of integrality list, copies of copies", "Tests never compare a copy with its original, and sample no integrality list.", [LP, IP], [("copy, relax, is_feasible", IP), ("copy, __eq__, optimal_value", LP)])
p("C56", "The simplex method is its steps, and its certificates prove its answers",
  "simplex applies the documented step again and again, each time from the basis the step before returned, until a step ends, and returns that step's solution and basis. The certificate it returns with an optimal solution is dual feasible with the same value; the one it returns with unboundedness is a feasible point and an improving ray. The two-phase method returns what phase two returns, or, when phase one ends above zero, no solution with a certificate of infeasibility of the program as it was given.",
  ["inputs"], "programs of up to two rows and four columns with symbolic entries (ties and negative right-hand sides included), up to three rounds before the last", "Tests solve a few programs and look at certificates of fewer.", [LP], [("simplex, two_phase_simplex", LP)])
p("C57", "A random program is well-formed and of the size asked for",
  "LinearProgram.random gives a program with as many rows and columns as asked for (four and six when nothing is asked), one sense per row, an objective that is max or min, every variable of exactly one kind, and entries, right-hand sides, costs and constant no larger in size than the magnitude asked for (up to rounding to two decimals), whatever numbers are drawn.",
  ["inputs", "random draws"], "all outcomes of the draws, programs of six sizes, arguments by position and by name", "Tests see one outcome of the draws per run, and only for a square-ish default size.", [LP], [("random", LP)])
p("C58", "Equal graphs are the same graph, and printing shows all of it",
  "Two undirected graphs are equal exactly when they have the same vertices, edges and weights, regardless of the order and orientation in which they were built and of edges that were added and removed on the way. The printed form has one line per vertex, in order, each with the vertex and its neighbours in order.",
  ["inputs", "histories"], "every graph of up to four vertices with given names, built in different ways; members of sets in either order", "Tests compare a few graphs that are equal.", [UG], [("__eq__, __repr__", UG)])
