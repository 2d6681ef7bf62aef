#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code only to keep the lines well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=state,where=files[0])],mechanism=[dict(name=mech,where=files[0])],observe_at=[obs],hook_needed=None)))
C="core/src/"; K="command/src/"
p("C01","The graph store is exactly a set of vertices and a set of directed edges",
 "After any sequence of vertex and edge additions and removals starting from an empty graph, the graph holds exactly the vertices and directed edges that a mathematical pair of sets would hold: adding an edge also adds its endpoints, adding something already present changes nothing, removing a vertex removes exactly the edges touching it (self-loops included), removing an edge keeps its endpoints. Every query (membership, vertex and edge enumeration, emptiness, vertex and edge counts, outbound and inbound edges, degrees) agrees with those sets, each vertex or edge being listed and counted exactly once. Adding a vertex reports whether it was already there, adding an edge reports whether it was new, removing a vertex reports whether it existed.",
 ["histories","inputs"],"every finite history of mutations over arbitrary vertex ids, and every query after it",
 "the unit tests apply a handful of mutations on graphs of a few vertices; none mixes removals of vertices, self-loops and antiparallel edges, and none relates the counts to the enumeration",
 [C+"directed_graph.rs",C+"graph.rs"],"the incidence map from vertex to the edges touching it","each edge indexed under both endpoints, once for a self-loop; duplicates refused on insertion","public methods of the directed graph")
p("C02","Replaying commands rebuilds the same graph, and undo commands undo",
 "Applying a list of graph commands has, for every list and every starting graph, the effect of performing the corresponding additions and removals one after the other in list order. The command list produced from a graph rebuilds, from an empty graph, a graph with the same vertices and edges, and so does saving it to a file (command format or TGF) and reading it back; commands appended to a command file read back unchanged and in order after those already there. The revert of a command is an involution which, applied after a command that added or removed an edge between existing vertices, or a vertex without edges, restores the vertices and edges.",
 ["histories","inputs"],"every command list, every graph, every file history made of saves and appends",
 "tests save and reload one or two fixed graphs and revert single commands; they cannot range over all lists and all prior states",
 [C+"graph_command.rs",C+"format/gcmd.rs",C+"format/tgf.rs",C+"format/utils.rs",K+"graph_utils.rs"],"command list; command file","one command per vertex then one per edge; textual line per command; append-only log","GraphCommand functions, gcmd/tgf save and read, command log of the CLI")
p("C03","Topological sort returns a valid order exactly when the graph has no cycle",
 "For every graph, the topological sort returns an order if and only if the graph has no directed cycle (a self-loop is a cycle). A returned order lists every vertex exactly once and, for every edge, its source before its destination. The DAG test and the DAG marker succeed on exactly the same graphs, and the marker gives back the very graph it was made from.",
 ["inputs"],"every directed graph, including empty, disconnected, self-looped ones",
 "tests use a few small graphs; acyclicity equivalence is a statement over all graphs",
 [C+"algorithm/topo_sort.rs",C+"directed_graph.rs"],"list of ready vertices, set of removed edges","Kahn's algorithm with a removed-edge set, edge count compared at the end","topological_sort, is_dag, try_dag, gc-topo-sort output")
p("C04","Shortest path search returns a real path of minimum cost, or None if unreachable",
 "For every graph, start and end, and every path cost that is a sum of non-negative edge costs (plus, optionally, a consistent heuristic), the shortest path search returns a path if and only if the end is reachable from the start. The returned path starts at the start, ends at the end, follows existing edges, carries its own score, and no path between the two vertices has a smaller score. With the unit cost and no heuristic the score is the number of edges.",
 ["inputs","configurations"],"every graph, pair of vertices, non-negative edge cost and consistent heuristic (scores fitting in 64 bits)",
 "tests check unit costs on small graphs; minimality over all paths and all cost functions is not sampled",
 [C+"search/a_star.rs",C+"iter/iter_best.rs",C+"iter/iter_datastructure.rs",C+"path.rs"],"priority queue of scored paths, set of settled vertices","best-first search settling a vertex when its best path leaves the queue","shortest_path, best_iter_from, gc-short-path output")
p("C05","Constraint checks mean what they say and pruning never loses a solution",
 "For every constraint (including nested And, Or, Xor and Not) and every scored path, the complete check is true exactly when the path satisfies the documented meaning of the constraint: containment of a vertex, an edge or a cycle, order of listed vertices, minimum and maximum length or score, and the boolean combinations. The partial check is never false on a path that some extension, with a score not lower, turns into a path passing the complete check. The path queries these rest on (size, first, last, membership, edge list, cycle detection, append) are exact for every path.",
 ["inputs"],"every constraint tree, every path, every extension of it",
 "tests evaluate single constraints on fixed paths; the partial check is a statement over all possible futures of a path",
 [C+"constraint/constraint.rs",C+"path.rs"],"constraint tree, path vertices","structural recursion over the constraint; monotone rejection on prefixes","check_complete, check_partial, Path methods")
p("C06","Constrained shortest path satisfies every constraint and is minimal among those",
 "For every graph, start, end, list of constraints and cost that never decreases when a path is extended, a path returned by the constrained search follows existing edges from start to end, satisfies every constraint of the list in the complete sense, and has a score not greater than that of any other path of the graph from start to end satisfying them all. If the search ends without a path, no path from start to end satisfies all the constraints.",
 ["inputs","configurations"],"every graph, constraint list and non-decreasing cost",
 "tests try a few constraints on one graph; absence of a better or missed solution ranges over all paths",
 [C+"search/a_star.rs",C+"iter/iter_best_constraint.rs",C+"constraint/constraint.rs"],"priority queue of scored partial paths","best-first enumeration of all paths pruned by the partial check","constrained_shortest_path, gc-csp output")
p("C07","Bellman-Ford is exact, and returns None exactly on a reachable negative cycle",
 "For every graph, start and edge weights (negative allowed, small enough not to overflow), Bellman-Ford returns None if and only if a cycle of negative total weight is reachable from the start. Otherwise the result has an entry for exactly the vertices reachable from the start, each being an existing path from the start whose weights add up to the reported score, and no path to that vertex has a smaller total weight.",
 ["inputs"],"every graph, start vertex and integer edge weights",
 "tests run one small graph with and without a negative cycle",
 [C+"algorithm/shortest_path.rs"],"best known scored path per vertex","vertex count minus one rounds of relaxation and one detection round","bellman_ford")
p("C08","DAG shortest and longest paths are exact for every reachable vertex",
 "For every acyclic graph, start vertex and edge weights (negative allowed, small enough not to overflow), the DAG shortest-path computation has an entry for exactly the vertices reachable from the start, each an existing path from the start whose weights add up to the reported score, minimal among all paths to that vertex. The longest-path computation satisfies the same with maximal instead of minimal, and the single-target variants agree with the all-targets ones.",
 ["inputs"],"every DAG, start vertex and integer edge weights",
 "tests run one or two small DAGs; optimality ranges over all paths of all DAGs",
 [C+"algorithm/shortest_path.rs",C+"algorithm/longest_path.rs",C+"algorithm/topo_sort.rs"],"best known scored path per vertex","relaxation in topological order; negation of weights for longest paths","dag_shortest_path(s), dag_longest_path(s)")
p("C09","SPFA gives exact distances to exactly the reachable vertices",
 "For every graph without a reachable negative cycle, every start and edge weights (small enough not to overflow), SPFA returns an entry for exactly the vertices reachable from the start. Each entry is an existing path from the start whose weights add up to the reported score, and no path to that vertex has a smaller total weight.",
 ["inputs"],"every graph without reachable negative cycle, start vertex and integer edge weights",
 "tests run one small graph",
 [C+"algorithm/shortest_path.rs",C+"iter/iter_datastructure.rs"],"best known scored path per vertex, work queue","relaxation driven by a FIFO queue of improved vertices","spfa")
p("C10","Maximum flow is feasible, conserved and maximum",
 "For every graph, capacities and distinct source and sink, the returned flow assigns to exactly the edges of the graph a flow between zero and the reported capacity, which is the one given. At every vertex other than source and sink inflow equals outflow, and the returned value is the net outflow of the source. No feasible flow has a greater value.",
 ["inputs"],"every graph, capacity function (total fitting in 64 bits) and pair of distinct vertices",
 "tests check the value on a few small networks, never the conservation nor optimality in general",
 [C+"algorithm/max_flow.rs",C+"iter/iter_datastructure.rs"],"flow and capacity per edge","augmenting along paths with positive residual capacity, forward and backward edges","max_flow")
p("C11","Cycle enumeration yields each elementary cycle once, in canonical form",
 "For every graph, each cycle yielded by the cycle iterator follows existing edges and closes, visits no vertex twice, starts with its smallest vertex, and is never yielded twice. Every elementary cycle reachable from the scan's starting vertices (all vertices without inbound edge or, if there is none, some vertex) is yielded, self-loops as cycles of one vertex. First, count, take, take-all, girth, shortest, longest and Hamiltonian cycle agree with that enumeration.",
 ["inputs","histories"],"every graph, every number of calls to the iterator",
 "tests compare the enumeration on a few graphs; completeness ranges over all cycles of all graphs",
 [C+"iter/iter_cycle.rs",C+"algorithm/cycle.rs"],"stack of partial paths, set of returned canonical cycles","DFS over simple paths from the starting vertices, closing on a repeated vertex, rotation to smallest vertex","cycle_iter, algorithm::cycle functions, gc-cycle output")
p("C12","Traversals visit exactly what is reachable, once, in breadth or depth order",
 "For every graph and start, the breadth-first and depth-first vertex iterators yield the start first, then every vertex reachable from it exactly once and nothing else; breadth-first yields them by non-decreasing distance. The path iterators yield exactly the paths of the graph from the start that repeat no vertex, each once, breadth-first by non-decreasing length.",
 ["inputs","histories"],"every graph, start vertex and number of calls to the iterator",
 "tests drain the iterators on a few small graphs",
 [C+"iter/iter_breadth.rs",C+"iter/iter_depth.rs",C+"iter/iter_datastructure.rs"],"queue or stack of pending vertices or paths, set of discovered vertices","standard worklist search","bfs_iter_from, dfs_iter_from, bfs_path_iter_from, dfs_iter_path_from")
p("C13","Hamiltonian path search is sound and complete",
 "For every non-empty graph, the Hamiltonian path iterator yields exactly the paths of the graph that visit every vertex exactly once, and the first-path search returns one of them if and only if one exists. A graph is reported Hamiltonian if and only if it is empty or such a path exists. The test of a given path is true exactly when it repeats no vertex and its length is the vertex count.",
 ["inputs"],"every graph and every path",
 "tests use a few small graphs",
 [C+"algorithm/hamiltonian.rs",C+"iter/iter_depth.rs",C+"path.rs"],"none beyond the path iterator","filtering of all simple paths by their length","is_hamiltonian, iter_hamiltonian_paths, first_path, is_path_hamiltonian")
p("C14","Constraint-set validation rejects exactly the documented conflicts",
 "For every list of constraints, validation fails if and only if, at the top level of the list, a vertex is required (directly or as endpoint of a required edge) and forbidden, an edge is required and forbidden, cycles are required and forbidden, more than one minimum length, maximum length, minimum score or maximum score is given, or a minimum length or score exceeds the maximum one.",
 ["inputs"],"every list of constraints, of any length and order",
 "tests validate one list per conflict; 'if and only if' over all lists is not sampled",
 [C+"constraint/checker.rs"],"none","set intersections and counts over the constraint list","checker::validate")
p("C15","Edge patterns and constraint options build exactly what was asked",
 "For every list of vertices given on the command line, the chain, cycle, star, clique, pairing and reverse options denote exactly the documented edges, in order, with none missing and none added: consecutive pairs, consecutive pairs plus the closing edge, first vertex to each other, all ordered pairs of distinct positions, values two by two (odd counts refused), and swapped endpoints. Id lists are accepted if and only if every id is a valid 64-bit unsigned number, and keep their order. Each constraint option yields the constraints it names, with the given values, and the constraints handed to the search are those of all given options, none lost and none invented.",
 ["inputs","configurations"],"every list of ids and every combination of options",
 "the command crate has no test at all",
 [K+"arg_utils.rs",K+"bin/gc-add.rs",K+"bin/gc-csp.rs",K+"bin/gc-cycle.rs"],"none","index loops over the argument vector; concatenation of optional constraint lists","arg_utils functions, effect of gc-add on the graph, constraints printed by gc-csp")
p("C16","Random graphs are acyclic and have at least the requested number of edges",
 "For every requested vertex and edge count and every sequence of random numbers, a graph returned by the random generator has no cycle: every edge goes from a smaller to a greater vertex id, further apart than a tenth of the requested vertex count. It has at least the requested number of edges.",
 ["inputs","histories"],"every vertex count, edge count and random sequence",
 "the command crate has no test; the generator draws from the thread random source, which a test cannot enumerate",
 [K+"bin/gc-random.rs",C+"directed_graph.rs"],"graph under construction","edges ordered from the smaller to the greater id; loop until the edge count is reached","graph saved by gc-random")
p("C17","Search queues keep every element and follow their discipline",
 "For every sequence of pushes and pops, a pop on a non-empty queue returns an element pushed and not yet popped, and a pop returns nothing exactly when no such element is left. The stack returns the most recently pushed one, the queue the least recently pushed one, the minimum priority queue one that no remaining element is smaller than, and the maximum priority queue one that no remaining element is greater than.",
 ["histories","inputs"],"every interleaving of pushes and pops with any elements, duplicates included",
 "tests push a few elements and pop them all",
 [C+"iter/iter_datastructure.rs",C+"path.rs"],"linked list or binary heap","delegation to the standard collections; reversed order for the minimum queue","SearchQueue implementations")
p("C18","Attribute mappings hold the last value given to each key",
 "After any sequence of attribute additions and removals, by method or by command, a mapping associates to each vertex or edge the value last added and not removed since, and nothing to other keys. Commands for vertices leave edge mappings unchanged and conversely, and the return value tells whether a removal found something and whether a command applied. The closures give the associated value, or nothing, respectively the default.",
 ["histories","inputs"],"every history of mapping mutations and commands",
 "there is no test of the attribute module",
 [C+"attribute/mapping.rs",C+"attribute/attribute_command.rs"],"hash map from key to value","delegation to the hash map; command dispatch","AttributeMapping and AttributeCommand methods")
p("C19","Reading a graph file is exact or fails, and never panics",
 "For every file content, reading it in the command or TGF format gives either an error or the commands denoted by its lines that are neither empty nor comments, all of them, in file order. A line outside the documented syntax, an id that does not fit in 64 bits, or bytes that are not UTF-8 give an error naming the line number, never a panic and never a partial result.",
 ["inputs"],"every sequence of bytes as file content",
 "tests read a few well-formed files and lines",
 [C+"format/gcmd.rs",C+"format/tgf.rs",C+"format/utils.rs"],"none","line by line regular expressions","gcmd::read_as_commands, tgf::read_as_commands, exit status of the CLI tools")
p("C20","Concurrent commands and crashes do not corrupt the stored graph",
 "Two commands run at the same time on the same graph directory, or a command interrupted at any point, leave a command file equal to one obtained by running a subset of the commands one after the other.",
 ["schedules","crash_points"],"every interleaving of two commands and every crash point",
 "no test runs two commands or interrupts one",
 [K+"graph_utils.rs",C+"format/gcmd.rs"],"command file, lock file","advisory lock file created around each mutation","content of the command file")
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
