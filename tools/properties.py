#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/properties.py > properties.jsonl`."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

EX, CH, MA, NN = ("src/solvers/exact.rs", "src/solvers/approximate/christofides.rs",
                  "src/solvers/approximate/matching.rs", "src/solvers/approximate/nearest_neighbour.rs")

p("P01", "Every sequential exact algorithm returns an optimal tour",
  "For every complete, undirected instance with non-negative finite distances and every sequential exact algorithm (v0 to v6), the answer is an ordering that visits every city exactly once, the reported cost is the length of that closed tour (up to floating-point rounding), and no tour is shorter (up to rounding). This includes instances with one or two cities, ties, zero distances, distances violating the triangle inequality and distances of very different magnitude, and for v0 to v4 it does not depend on which of the two matrix representations holds the distances.",
  ["inputs", "configurations"], "all symmetric non-negative distance matrices (1 <= n, practical limit n <= 12), all seven algorithms, both matrix types",
  "The tests run three hand-written instances of 4, 5 and 9 cities; a wrong pruning bound or a skipped permutation only shows on instances where the first tours found are not optimal.",
  [EX, "src/mst.rs", "src/datastructures/mod.rs"],
  [("enumeration of permutations", EX + ": naive_solver, first_improved_solver, next_permutation"),
   ("branch and bound with lower bounds", EX + ": second..sixth_improved_solver, compute_nn_of_remaining_vertices"),
   ("MST of the unvisited cities as bound", "src/mst.rs: prim_with_excluded_node_single_threaded")],
  ["returned (cost, tour)", "`walky exact` output"])

p("P02", "The multi-threaded exact solver is optimal for every thread count",
  "For every complete, undirected instance with non-negative finite distances, the multi-threaded exact solver returns an ordering of all cities whose closed tour has the reported cost, and that cost is the optimum (up to rounding), no matter how many threads the machine makes available and how their work interleaves.",
  ["inputs", "configurations", "schedules"], "all instances, every number of available threads (below, at and above the number of cities), every interleaving of the workers",
  "The tests call it with 4, 5 and 9 cities on whatever machine runs them, so on most machines the work is never split at all; whether the chunks of the search space cover every tour depends on n and the thread count together.",
  [EX], [("splitting of the prefix space", EX + ": threaded_solver_generic, split_up_b_ary_number_into_n_chunks, get_next_value"),
         ("shared best result behind a mutex", EX + ": threaded_solver_generic")],
  ["returned (cost, tour)", "`walky exact -p multi-threaded` output"])

p("P03", "The distributed exact solvers are optimal for every process count and timing",
  "For every complete, undirected instance with non-negative finite distances, both distributed (MPI) exact solvers, static and dynamic, return on every process the same cost and the same tour; the tour visits every city once, has the reported cost, and is optimal (up to rounding). This holds for every number of processes (including one, and more processes than cities) and for every order in which messages are delivered.",
  ["inputs", "configurations", "schedules"], "all instances with n >= 2, process counts 1 to n^3, every MPI-conforming message schedule",
  "No test runs any MPI code: build.sh only type-checks it. Message order, pruning against another process's bound, and chunk boundaries vary with the number of processes and timing.",
  [EX, "src/datastructures/mod.rs"],
  [("coordinator/worker protocol, static chunks", EX + ": static_mpi_solver_generic*"),
   ("coordinator/worker protocol, dynamic prefixes", EX + ": dynamic_mpi_solver*"),
   ("pruning against the global best", EX + ": _mpi_improved_solver_rec")],
  ["value returned on each rank"])

p("P04", "Distributed runs always terminate cleanly: no deadlock, crash or lost rank",
  "For every command that supports MPI (both exact solvers, nearest neighbour, Christofides, the 1-tree and MST bounds, and an approximation combined with a lower bound), every valid instance with at least two cities, every number of processes and every MPI-conforming message schedule (including sends that block until received), all processes finish without deadlock, without aborting and without mismatched collective operations or messages, and the coordinating process prints the answer.",
  ["inputs", "configurations", "schedules"], "all MPI-capable commands x instances x process counts x message schedules",
  "The changelog records deadlocks in this code; tests never execute it, and a real mpirun exercises one timing only.",
  [EX, MA, NN, "src/one_tree.rs", "src/lib.rs"],
  [("termination messages", EX + ": static_mpi_solver_generic_root, dynamic_mpi_solver_root"),
   ("collectives matched on all ranks", MA + ": mpi_improve_matching, bootstrap_mpi_matching_calc; src/one_tree.rs: one_tree_lower_bound_mpi; " + NN + ": nearest_neighbour_mpi"),
   ("lifetime of the MPI environment", "src/lib.rs: approx_run, lower_bound_run")],
  ["exit of every rank", "standard output of rank 0"])

p("P05", "Distributed heuristics and bounds equal their single-process meaning",
  "For every valid instance, process count and message schedule, the distributed nearest-neighbour result has the same cost as the sequential one and is a valid tour of that cost, identical on every process; the distributed 1-tree and MST bounds equal the sequential bounds; the distributed Christofides result is a valid closed tour of the reported cost; and the distributed matching improvement leaves every process with the same perfect matching of the given vertices, no costlier than the pairing it started from and being the best of those that the processes found.",
  ["inputs", "configurations", "schedules"], "all instances x process counts (fewer, equal and more than cities) x schedules x random seeds",
  "No test runs MPI code; results depend on how start cities are divided and on reductions whose order is unspecified.",
  [NN, "src/one_tree.rs", MA, CH],
  [("block distribution of start vertices and reduction", NN + ": nearest_neighbour_mpi"),
   ("strided distribution and max-reduction", "src/one_tree.rs: one_tree_lower_bound_mpi"),
   ("broadcast of the best matching", MA + ": mpi_improve_matching")],
  ["value returned on each rank"])

p("P06", "Minimum spanning trees are correct in all three implementations",
  "For every undirected weighted graph with finite non-negative weights and every set of excluded vertices, each of the three minimum-spanning-tree implementations (sequential, multi-threaded, priority queue) returns an undirected spanning tree of exactly the remaining vertices: every edge appears in both directions with the graph's own weight, excluded vertices are isolated, and the total weight is the minimum possible. All three give the same total weight.",
  ["inputs", "configurations", "schedules"], "all symmetric matrices (n from 1 to hundreds), all excluded sets leaving at least one vertex, three implementations",
  "Tests use two hand-written graphs of 2 and 4 vertices; parent bookkeeping errors need more update steps than that.",
  ["src/mst.rs"], [("Prim's algorithm over three cost structures", "src/mst.rs: prim_with_excluded_node, impl FindMinCostEdge"),
                   ("raw-pointer parallel update", "src/mst.rs: MultiThreadedVecWrapper::update_minimal_cost")],
  ["returned adjacency list"])

p("P07", "1-trees and the 1-tree bound are computed exactly",
  "For every complete undirected instance with at least three cities and every special city, the 1-tree consists of a minimum spanning tree of the other cities plus the two cheapest connections of the special city to two different cities; the 1-tree bound is the largest 1-tree weight over all special cities. The sequential and the multi-threaded bound are equal.",
  ["inputs", "configurations"], "all symmetric matrices with n >= 3, every special vertex, sequential and multi-threaded",
  "Tests use one 4-vertex graph and one special vertex.",
  ["src/one_tree.rs", "src/mst.rs"], [("two cheapest edges", "src/one_tree.rs: one_tree"), ("maximum over special vertices", "src/one_tree.rs: one_tree_lower_bound_seq/_par")],
  ["returned graph", "returned bound"])

p("P08", "No lower bound ever exceeds any tour, and the bounds are ordered",
  "For every complete undirected instance with at least two cities and non-negative distances, every lower bound the program offers (1-tree, MST, MST with queue; sequential or multi-threaded) is at most the length of every tour (up to rounding), in particular of the optimum and of every tour its own heuristics return, and the MST bound is at most the 1-tree bound.",
  ["inputs", "configurations"], "all symmetric non-negative instances with n >= 2, all bound algorithms and modes, all tours",
  "No test relates a bound to a tour.",
  ["src/one_tree.rs", "src/mst.rs", "src/parser.rs", "src/lib.rs"],
  [("undirected weight of a tree", "src/parser.rs: undirected_edge_weight"), ("1-tree relaxation", "src/one_tree.rs"), ("spanning tree relaxation", "src/mst.rs")],
  ["returned bounds", "`walky lower-bound` output"])

p("P09", "Nearest-neighbour tours are greedy, complete and the best of their starts",
  "For every complete instance with non-negative finite distances and every start city, the nearest-neighbour tour begins at that city, visits every city once, moves in every step to a city that is nearest among the unvisited ones, and its reported cost is the length of the closed tour. The overall heuristic returns the cheapest of the greedy tours over all start cities, in sequential and multi-threaded mode alike; restricted to k random starts, it returns a greedy tour that is not worse than the (n-k+1)-th cheapest of the n greedy tours (and the cost is that of one of them).",
  ["inputs", "configurations", "schedules"], "all symmetric instances, all start cities, all k, all random choices of starts, sequential and multi-threaded",
  "Tests use one 5-city and one 10-city integer instance.",
  [NN], [("greedy walk", NN + ": single_nearest_neighbour"), ("distinct random starts and minimum", NN + ": n_nearest_neighbour")],
  ["returned (cost, tour)"])

p("P10", "Christofides always returns a valid closed tour with its true cost",
  "For every metric instance, every outcome of the internal randomness and both sequential and multi-threaded mode, the Christofides heuristic returns a closed tour that starts and ends in the same city and visits every other city exactly once, its reported cost is the length of that tour, and this cost is never below the optimum.",
  ["inputs", "schedules", "configurations"], "all metric symmetric instances (n from 1 to about a hundred), all seeds of the random matching, both modes",
  "The tests run one 4-vertex square with whatever random numbers come up.",
  [CH, MA], [("Eulerian cycle by Hierholzer", CH + ": eulerian_cycle_from_multigraph, find_cycle"), ("shortcutting", CH + ": hamiltonian_from_eulerian_cycle"), ("multigraph union", CH + ": fill_multigraph_with_mst_and_matching")],
  ["returned (cost, tour)"])

p("P11", "Christofides with an optimal matching is within 1.5 of the optimum",
  "For every metric instance, when the generic Christofides routine is given a minimum-cost perfect matching of the odd-degree tree vertices, its tour costs at most 1.5 times the optimum; given any perfect matching of those vertices, its tour costs at most the weight of the minimum spanning tree plus that matching (both up to rounding). This holds in sequential and multi-threaded mode.",
  ["inputs", "configurations"], "all metric instances, all perfect matchings of the odd vertices, both modes",
  "Tests check the ratio on one 4-vertex square, where every tour meets it.",
  [CH, "src/mst.rs"], [("union of tree and matching keeps multiplicities", CH + ": fill_multigraph_with_mst_and_matching"), ("every multigraph edge is walked once", CH + ": find_cycle"), ("shortcuts use the triangle inequality", CH + ": hamiltonian_from_eulerian_cycle")],
  ["cost returned by christofides_generic", "argument passed to the matching routine"])

p("P12", "The randomised matching is always a perfect matching and locally optimal",
  "For every distance matrix, every even-sized set of distinct vertices, every number of improvement rounds and every random seed, in sequential and multi-threaded mode, the matching heuristic returns pairs that cover each given vertex exactly once and no other vertex. With at least one round on four vertices it is a minimum-cost matching, and after enough rounds no re-pairing of any two of its pairs is cheaper (up to rounding).",
  ["inputs", "schedules", "configurations"], "all symmetric matrices, even vertex subsets, round counts, seeds, both modes",
  "No test calls it directly; a wrong re-pairing is hidden because the tour is repaired by shortcutting.",
  [MA], [("pairwise re-matching", MA + ": optimize_two_matching"), ("random pairing", MA + ": randomized_matching, improve_matching, par_improve_matching")],
  ["returned pairs"])

p("P13", "Valid TSPLIB-XML is read faithfully",
  "For every document in TSPLIB-XML format that describes a complete undirected graph, whatever its layout (white space, comments, XML declaration, document type, CDATA sections, quoting, order of the edges of a vertex, notation of the numbers), reading it succeeds and yields exactly the described name, source, description, precision fields, vertices and edges, with every distance equal to the nearest double of its decimal text; converting it to a distance matrix preserves every distance.",
  ["inputs"], "all well-formed documents of the format, n >= 2",
  "Tests parse four small fixed snippets, and none of them goes through the checked entry point or into a matrix.",
  ["src/parser.rs", "src/datastructures/nalgebra.rs", "src/datastructures/vecmatrix.rs", "src/lib.rs"],
  [("serde mapping of the format", "src/parser.rs: TravellingSalesmanProblemInstance, Graph, Vertex, Edge"), ("adjacency list to matrix", "src/datastructures/*.rs: From<Graph>")],
  ["parsed instance", "distance matrix"])

p("P14", "Instances that violate the preconditions are never accepted",
  "Reading succeeds only for documents whose graph is complete and undirected: if any vertex has a missing, duplicate, self-referring or out-of-range edge, if the two directions of an edge differ in cost, or if the document is malformed, truncated or lacks a field, it is rejected (an error or an abort), and the command line tool then exits with a failure status without printing any result. The three precondition predicates agree with their definitions on every graph whose edges stay in range.",
  ["inputs", "fault_sequences"], "all single and combined corruptions of valid documents; all adjacency lists",
  "Tests check two examples per predicate and never the combination or the reading path.",
  ["src/preconditions.rs", "src/parser.rs", "src/lib.rs"],
  [("completeness, multi-edge and symmetry predicates", "src/preconditions.rs"), ("check after deserialisation", "src/parser.rs: parse_from_xml")],
  ["Result/abort of parsing", "exit status and output of `walky`"])

p("P15", "All ways to build a distance matrix agree",
  "For every list of points in the plane, the sequential and parallel constructors give exactly the same matrix: symmetric, zero diagonal, and every entry the Euclidean distance of its two points. For every complete undirected adjacency list, both matrix representations built from it, and conversions between them, hold the listed distances and a zero diagonal, and a fresh unconnected matrix has zero diagonal and infinite distances elsewhere; writing one entry changes exactly what reading that entry returns.",
  ["inputs", "histories", "schedules"], "all point lists, all complete adjacency lists, all sequences of writes",
  "Tests use three points and one 2-vertex graph and never compare the representations.",
  ["src/datastructures/nalgebra.rs", "src/datastructures/vecmatrix.rs", "src/datastructures/mod.rs"],
  [("point constructors", "src/datastructures/nalgebra.rs: from_points, par_from_points"), ("conversions", "src/datastructures/nalgebra.rs, vecmatrix.rs: From impls")],
  ["matrix entries"])

p("P16", "Path costs and the validity predicates mean what they say",
  "For every matrix and every sequence of cities, the path cost is the sum of the consecutive distances and the cycle cost adds the closing distance (zero for fewer than two cities). The metric test accepts a symmetric matrix exactly when no detour is shorter than a direct connection (beyond its stated 1e-10 slack), and the Hamiltonian-cycle test accepts a closed city sequence exactly when it visits every city of the graph once and returns to its start.",
  ["inputs"], "all matrices of both representations, all sequences (valid, with repeated, missing or unknown cities)",
  "Tests cover two 3-vertex matrices for the metric test and nothing for the others.",
  ["src/datastructures/mod.rs", "src/solvers/mod.rs"],
  [("evaluate_path, evaluate_circle, is_metric", "src/datastructures/mod.rs"), ("is_hamiltonian_cycle", "src/solvers/mod.rs")],
  ["returned values"])

p("P17", "Enumerations of permutations and prefixes are complete and in order",
  "Stepping from the sorted arrangement of any list (also with equal elements) visits every distinct arrangement exactly once in lexicographic order and then stops; stepping a digit string in base b visits every larger string exactly once in increasing order and then stops; and splitting the space of d-digit strings into n chunks yields chunks of consecutive strings, each given by its first and its exclusive last string, that together cover every string exactly once.",
  ["inputs", "histories"], "all multisets, all bases, digit counts and chunk counts below the number of strings",
  "The tests enumerate the permutations of four numbers; prefixes and chunks are untested.",
  [EX], [("next_permutation", EX), ("get_next_value", EX), ("split_up_b_ary_number_into_n_chunks", EX)],
  ["returned arrangements and bounds"])

p("P18", "The command line tool reports correct results for every command",
  "For every valid instance file, every sub-command, algorithm, parallelism setting and optional lower bound, the tool exits successfully and prints exactly one result whose numbers are right for that instance: exact commands print the optimum and a tour of that cost, approximation commands a cost that is the length of a valid tour (and, if asked, the lower bound as well), lower-bound commands the value of the named bound; built with the benchmarking feature, it prints the same and the elapsed seconds of each result. Unknown commands, missing arguments and unreadable files give a failure status and no result.",
  ["inputs", "configurations"], "all valid instance files x all command lines; all faulty command lines",
  "No test runs the program or the dispatch code in the library entry point.",
  ["src/lib.rs", "src/cli.rs", "src/main.rs"],
  [("argument parsing", "src/cli.rs"), ("dispatch and printing", "src/lib.rs: exact_run, approx_run, lower_bound_run")],
  ["exit status", "standard output"])

p("P19", "The adjacency-list graph tracks edges and weights faithfully",
  "For every sequence of undirected edge insertions (parallel edges included), the graph's degrees, neighbour lists, directed weight and undirected weight equal those of a plain edge list: each insertion between two different vertices raises both degrees by one and the undirected weight by its cost, and nothing else changes.",
  ["histories", "inputs"], "all insertion sequences on all vertex counts",
  "Tests sum three edges of fixed graphs and never insert one.",
  ["src/parser.rs"], [("add_undirected_edge, vertex_degree, directed_edge_weight, undirected_edge_weight", "src/parser.rs: impl Graph")],
  ["degrees, neighbours and weights"])

p("P20", "The bundled instance generators produce instances the solver accepts",
  "For every requested size of at least two, the bundled instance generators (the fast generator program and the Python generators) print a document that the solver reads and accepts, with exactly the requested number of cities and symmetric distances satisfying the triangle inequality (up to rounding); the benchmark series contains one file per requested size, and each smaller instance is the restriction of the larger ones to their first cities.",
  ["inputs", "configurations"], "all sizes >= 2 and all random point sets",
  "The generators have no tests at all.",
  ["utils/gen_matrix_fast/src/main.rs", "utils/tsp_logic.py", "utils/benchmark_gen.py"],
  [("XML writer", "utils/gen_matrix_fast/src/main.rs: generate_xml_from_matrix"), ("XML writer and principal minors", "utils/tsp_logic.py, utils/benchmark_gen.py")],
  ["generated files"])

p("P21", "Multi-threaded computations touch only memory they own",
  "For every instance, vertex set and number of rounds, the multi-threaded spanning tree, matching, Christofides, 1-tree, nearest-neighbour, matrix-construction and exact computations never read or write outside the data they were given or allocated, and leave the input distances unchanged.",
  ["inputs", "schedules"], "all instances and thread schedules of every multi-threaded entry point",
  "The parallel code uses raw pointers, so an out-of-bounds access silently reads or corrupts neighbouring memory instead of failing a test.",
  ["src/mst.rs", CH, MA], [("raw pointer row access", "src/mst.rs: MultiThreadedVecWrapper::update_minimal_cost"), ("raw pointer cell increments", CH + ": fill_multigraph_with_mst_and_matching"), ("paired mutable references", MA + ": improve_matching, par_improve_matching")],
  ["address-sanitizer report", "input matrix after the call"])

p("P22", "Renaming cities or rescaling distances does not change the answer",
  "For every instance, renumbering the cities leaves the optimum, the spanning-tree weight and the 1-tree bound unchanged (up to rounding), and multiplying all distances by a power of two multiplies every one of these values and the nearest-neighbour and path costs by exactly that factor. Adding a constant to every distance raises the optimum by that constant times the number of cities.",
  ["inputs"], "all instances x permutations x scale factors x offsets, for sizes beyond those where brute force can serve as reference",
  "Tests use fixed instances and absolute numbers; no test relates two runs.",
  [EX, "src/mst.rs", "src/one_tree.rs", NN], [("solvers", EX), ("bounds", "src/mst.rs, src/one_tree.rs"), ("greedy walk", NN)],
  ["returned values of related runs"])

p("P23", "The bundled Python helpers trace, print and convert faithfully",
  "For every symmetric matrix and start city, the bundled nearest-neighbour tracer finds a path that begins there, visits every city once, always moves to a nearest unvisited city, and has the stated closed cost; for every seed and size its program prints a symmetric matrix with zero diagonal, such a path and cost for every start, and the matrix as source code. For every symmetric matrix, the XML form is accepted by the solver and carries every distance (to 16 digits), and the source-code form lists for every city exactly the others at non-zero distance, with these distances.",
  ["inputs", "configurations"], "all matrices, start cities, seeds and sizes",
  "The helpers, with which the expected values of the unit tests were made, have no tests themselves.",
  ["utils/NN_approx.py", "utils/tsp_logic.py", "utils/simple_gen.py"],
  [("greedy trace", "utils/NN_approx.py: tsp_nearest_neighbour, generate_graph_matrix"), ("conversions", "utils/tsp_logic.py: convert_to_xml, convert_to_rust_code")],
  ["return values and standard output of the helpers"])

p("P24", "No answer depends on what ran before in the process or runs beside it",
  "For every sequence of library calls (exact solvers, nearest neighbour, Christofides, matching, spanning trees, 1-trees, bounds, matrix construction, parsing, predicates) on any instances, made one after the other in one process or by several threads at once, each call gives the answer it gives when it is the only call of a fresh process (for the random heuristics: an equally valid one) and leaves the matrix it was given unchanged. In the same way, a run of the command line tool gives a correct result for the file it is given and leaves that file unchanged, whatever earlier or simultaneous runs did in the same directory.",
  ["histories", "schedules", "inputs"], "all sequences of calls on related and unrelated instances, all thread counts and interleavings, all sequences and simultaneous runs of the tool",
  "Every test makes one call on one instance and looks at one answer; whatever a cache, a reused buffer or a shared best value carries over shows only in the second call on an instance that resembles the first, or in two calls at once.",
  ["src/lib.rs", EX, "src/mst.rs", "src/one_tree.rs", MA, CH, NN, "src/parser.rs", "src/datastructures/nalgebra.rs"],
  [("state local to each call", EX + ": all solvers; src/mst.rs: prim_with_excluded_node_*"), ("best value shared by the threads of one call", EX + ": threaded_solver_generic"),
   ("reading the input file", "src/lib.rs: run and its helpers")],
  ["return values of the library functions", "standard output of the tool"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(json.dumps(x))
