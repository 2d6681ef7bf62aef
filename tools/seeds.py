"""Planted bugs (definitions for mkseeds.py)"""
HEAD = '''#![allow(unused)]
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::path::{Path, ScoredPath};
fn v(i: u64) -> VertexId { VertexId(i) }
fn e(a: u64, b: u64) -> Edge { Edge(VertexId(a), VertexId(b)) }
fn graph(es: &[(u64, u64)]) -> DirectedGraph { let mut g = DirectedGraph::new(); for (a, b) in es { g.add_edge(e(*a, *b)); } g }
fn path(vs: &[u64]) -> Path { Path::from(&vs.iter().map(|x| v(*x)).collect()) }
'''
SEEDS = [
 dict(id="B01-remove-vertex-keeps-reverse", property="C01",
  edits=[("core/src/directed_graph.rs", "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge));", "            .get_mut(&dst)\n            .map(|edges| edges.retain(|e| *e != edge || (src.0 > dst.0 && edge.1 .0 == 0)));")],
  needs="removing an edge (or its source) that goes from a greater id to vertex 0, then looking at inbound edges of 0",
  breaks="the edge stays in the incidence list of its destination: inbound_edges/degree_in of vertex 0 list an edge that is no longer in the graph",
  rust='fn main() { let mut g = graph(&[(5, 0), (1, 2)]); g.remove_edge(e(5, 0)); assert_eq!(g.degree_in(v(0)), 0); let mut g = graph(&[(5, 0)]); g.remove_vertex(v(5)); assert_eq!(g.inbound_edges(v(0)).count(), 0); }\n'),
 dict(id="B02-stack-drops-on-depth", property="C17",
  edits=[("core/src/iter/iter_datastructure.rs", "self.queue.push_back(elt)", "if self.queue.len() < 4096 {\n            self.queue.push_back(elt)\n        } else {\n            self.queue.push_front(elt)\n        }")],
  needs="a queue holding more than 4096 elements",
  breaks="first-in first-out order of the queue",
  rust='use gc_core::iter::iter_datastructure::*;\nfn main() { let mut q: Queue<u64> = Queue::<u64>::new(); for i in 0..6000u64 { q.push(i); } for i in 0..6000u64 { assert_eq!(q.pop(), Some(i)); } assert_eq!(q.pop(), None); }\n'),
 dict(id="B03-partial-xor-and", property="C05",
  edits=[("core/src/constraint/constraint.rs", "                ContainsCycle => !partial.path.contains_cycle(),", "                ContainsCycle => !partial.path.contains_cycle(),\n                MinLength(len) => partial.path.size() < len,\n                MaxLength(len) => partial.path.size() > len,")],
  needs="the negation of a maximum length, checked on a prefix not yet longer than that",
  breaks="the partial check rejects a prefix that an extension would turn into a solution",
  rust='use gc_core::constraint::constraint::Constraint::*;\nfn main() { let c = Not(Box::new(MaxLength(2))); let p = ScoredPath { path: path(&[1]), score: 0 }; let q = ScoredPath { path: path(&[1, 2, 3]), score: 2 }; assert!(c.check_complete(&q)); assert!(c.check_partial(&p)); }\n'),
 dict(id="B04-bellman-one-round-short", property="C07",
  edits=[("core/src/algorithm/shortest_path.rs", "    for _ in 1..graph.vertex_count() {\n", "    let rounds = graph.vertex_count().min(24);\n    for _ in 1..rounds {\n")],
  needs="more than 24 vertices on a shortest path, with the edges met in an unfavourable order",
  breaks="the relaxation stops before the distances have settled, and the detection round then reports a negative cycle that does not exist",
  rust='fn main() { let n = 1200u64; let mut g = DirectedGraph::new(); for i in (0..n).rev() { g.add_edge(e(i * 7919 % 10007, (i + 1) * 7919 % 10007)); } let r = gc_core::algorithm::shortest_path::bellman_ford(&g, |_| 1, v(0)); let r = r.expect("no negative cycle"); assert_eq!(r.len(), n as usize + 1); for i in 0..=n { assert_eq!(r[&v(i * 7919 % 10007)].score, i as i64); } }\n'),
 dict(id="B05-checker-edge-endpoints", property="C14",
  edits=[("core/src/constraint/checker.rs", "ContainsEdge(Edge(src, dst)) => Some(vec![src, dst]),", "ContainsEdge(Edge(src, dst)) if src < dst => Some(vec![src, dst]),\n            ContainsEdge(Edge(src, _)) => Some(vec![src]),")],
  needs="a required edge going from a greater to a smaller id, whose destination is forbidden",
  breaks="the conflict between a required edge and a forbidden end point goes unnoticed",
  rust='use gc_core::constraint::constraint::Constraint::*;\nfn main() { assert!(gc_core::constraint::checker::validate(&vec![ContainsEdge(e(5, 2)), Not(Box::new(ContainsVertex(v(2))))]).is_err()); }\n'),
 dict(id="B06-flow-residual-backward", property="C10",
  edits=[("core/src/algorithm/max_flow.rs", "        Backward => {\n            let (flow, _) = current_flow\n                .get(&(*edge).reverse())\n                .expect(\"All edges must have been initialized already\");\n            *flow\n", "        Backward => {\n            let (flow, cap) = current_flow\n                .get(&(*edge).reverse())\n                .expect(\"All edges must have been initialized already\");\n            if *flow < *cap {\n                0\n            } else {\n                *flow\n            }\n")],
  needs="a graph whose maximum flow is only reached by taking back flow on an edge that is not saturated",
  breaks="the returned flow is not maximum",
  rust='''use gc_core::algorithm::max_flow::max_flow;
fn main() {
  // flow first goes 1-2-3-4 (shortest); the maximum takes part of it back on 2->3, which has a greater capacity
  for perm in 0..24u64 {
    let g = graph(&[(1, 2), (2, 3), (3, 9), (1, 10), (10, 11), (11, 12), (12, 3), (2, 20), (20, 21), (21, 22), (22, 9)]);
    let cap = |x: &Edge| if *x == e(2, 3) { 5 } else { 1 };
    let (f, _) = max_flow(&g, cap, v(1), v(9));
    assert_eq!(f, 2);
  }
}
'''),
 dict(id="B07-attr-commands-tail", property="C18",
  edits=[("core/src/attribute/attribute_command.rs", "        for c in commands {\n            AttributeCommand::<V>::apply_edge_command_to(c, mapping);\n        }", "        let mut refused = 0;\n        for c in commands {\n            if !AttributeCommand::<V>::apply_edge_command_to(c, mapping) {\n                refused += 1;\n                if refused > 3 {\n                    break;\n                }\n            }\n        }")],
  needs="a list of edge attribute commands with more than three that do not apply (vertex commands, or removals of what is not there)",
  breaks="the commands after the fourth one that does not apply are lost",
  rust='use gc_core::attribute::attribute_command::AttributeCommand::*;\nuse gc_core::attribute::attribute_command::AttributeCommand;\nuse gc_core::attribute::mapping::*;\nfn main() { let mut m: EdgeAttrMapping<u32> = no_edge_mapping(); let mut cs = vec![]; for i in 0..6 { cs.push(RemoveEdgeAttr(v(i), v(i))); } cs.push(AddEdgeAttr(v(1), v(2), 7u32)); AttributeCommand::<u32>::apply_edge_commands_to(cs, &mut m); assert_eq!(m.as_closure()(&e(1, 2)), Some(&7)); }\n'),
 dict(id="B08-topo-diamond-twice", property="C03",
  edits=[("core/src/algorithm/topo_sort.rs", "    if removed_edges.len() != graph.edge_count() {", "    if removed_edges.len() != graph.edge_count() && res.len() < graph.vertex_count() {"),
         ("core/src/algorithm/topo_sort.rs", "            if graph.inbound_edges(dest).all(|e| removed_edges.contains(e)) {", "            if graph\n                .inbound_edges(dest)\n                .filter(|Edge(s, d)| s != d)\n                .all(|e| removed_edges.contains(e))\n            {")],
  needs="a graph whose only cycles are self-loops on vertices that have another inbound edge",
  breaks="a vertex with a self-loop is ordered (twice), a graph with a cycle passes as a DAG",
  rust='use gc_core::algorithm::topo_sort::*;\nfn main() { assert_eq!(topological_sort(&graph(&[(1, 2), (2, 2), (2, 3)])), None); assert!(!is_dag(&graph(&[(1, 2), (2, 2)]))); }\n'),
 dict(id="B09-unit-cost-wraps", property="C04",
  edits=[("core/src/search/a_star.rs", "    use std::convert::TryInto;\n    (path.size() - 1).try_into().unwrap()", "    i64::from((path.size() - 1) as u8)")],
  needs="unit edge costs and a shortest path of more than 255 edges",
  breaks="the cost of long paths wraps: the score is not the cost of the path, and a longer path is preferred",
  rust='use gc_core::search::a_star;\nfn main() { let mut es: Vec<(u64, u64)> = (1..300).map(|i| (i, i + 1)).collect(); es.push((1, 200)); let g = graph(&es); let r = a_star::shortest_path(&g, a_star::one_weighted_edge, a_star::zero_heuristic, v(1), v(300)).unwrap(); assert_eq!((r.score, r.path.size()), (101, 102)); let r = a_star::shortest_path(&graph(&es[..299]), a_star::one_weighted_edge, a_star::zero_heuristic, v(1), v(300)).unwrap(); assert_eq!(r.score, 299); }\n'),
 dict(id="B10-constrained-revisit", property="C06",
  edits=[("core/src/iter/iter_best_constraint.rs", "                        if check_all_partial_constraints(&new_scored_path, &self.constraints) {", "                        // Walking round the same edge three times never helps\n                        let turns = new_scored_path\n                            .path\n                            .vertices\n                            .iter()\n                            .filter(|x| *x == v)\n                            .count();\n                        if turns <= 3\n                            && check_all_partial_constraints(&new_scored_path, &self.constraints)\n                        {")],
  needs="a minimum length that can only be reached by going round a cycle more than three times",
  breaks="a path satisfying the constraints exists and none is found",
  rust='use gc_core::search::a_star;\nuse gc_core::constraint::constraint::Constraint::*;\nfn main() { let g = graph(&[(1, 2), (2, 1), (2, 3)]); let r = a_star::constrained_shortest_path(&g, a_star::one_weighted_edge, a_star::zero_heuristic, v(1), v(3), vec![MinLength(11), MaxLength(11)]); assert_eq!(r.map(|x| x.path.size()), Some(11)); }\n'),
 dict(id="B11-longest-negated-zero", property="C08",
  edits=[("core/src/algorithm/longest_path.rs", "    for (_, sp) in &mut scores {\n        sp.score = -1 * sp.score;\n    }", "    for (_, sp) in &mut scores {\n        sp.score = if sp.score > 0 && sp.path.size() > 2 {\n            sp.score.min(-1 * sp.score + sp.path.size() as i64)\n        } else {\n            -1 * sp.score\n        };\n    }")],
  needs="a longest path of three or more vertices whose total weight is negative",
  breaks="the reported score is not the sum of the weights",
  rust='use gc_core::algorithm::{topo_sort, longest_path};\nfn main() { let g = graph(&[(1, 2), (2, 3)]); let r = longest_path::dag_longest_paths(topo_sort::try_dag(&g).unwrap(), |_| -5, v(1)); assert_eq!(r[&v(3)].score, -10); }\n'),
 dict(id="B12-spfa-requeue-once", property="C09",
  edits=[("core/src/algorithm/shortest_path.rs", "                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    q.push(*v);", "                    // A vertex whose path got no shorter in vertices is waiting already\n                    let longer = scores.get(v).map_or(true, |s| s.path.size() != new_path.size());\n                    scores.insert(*v, scored_path_of(new_path, new_score));\n                    if longer {\n                        q.push(*v);\n                    }")],
  needs="a vertex improved, after it left the queue, by a path with as many vertices as before",
  breaks="improved distances are not passed on: scores of later vertices are too high and disagree with their path",
  rust='use gc_core::algorithm::shortest_path::spfa;\nfn main() { let (x, u, w, z, a, b) = (10, 11, 12, 13, 14, 15); let g = graph(&[(1, x), (1, u), (x, u), (u, w), (1, a), (a, b), (b, w), (w, z)]); let c = |k: &Edge| if *k == e(x, u) { -5 } else if *k == e(b, w) { -50 } else { 1 }; let r = spfa(&g, c, v(1)); assert_eq!(r[&v(w)].score, -48); assert_eq!(r[&v(z)].score, -47); }\n'),
 dict(id="B13-cycle-seen-by-edges", property="C11",
  edits=[("core/src/iter/iter_cycle.rs", "            match extract_canonical_cycle_from_last(&path) {", "            let known = path.size() > 6\n                && self.returned.iter().any(|c| {\n                    c.len() == path.size() - 1 && c.iter().all(|x| path.contains_vertex(x))\n                });\n            match extract_canonical_cycle_from_last(&path) {\n                Some(_) if known => (),")],
  needs="two different cycles of six or more vertices over the same set of vertices",
  breaks="the second of two cycles over the same vertices is not enumerated",
  rust='use gc_core::algorithm::cycle;\nfn main() { let g = graph(&[(1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 1), (2, 4), (4, 3), (3, 5)]); let mut n = 0; for c in cycle::take_all(&g) { if c.len() == 6 { n += 1; } } assert_eq!(n, 2); }\n'),
 dict(id="B14-bfs-path-prefix", property="C12",
  edits=[("core/src/iter/iter_breadth.rs", "                        if !path.contains_vertex(v) {\n                            self.queue.push(path.append(*v))\n                        }", "                        let back = path.vertices.len() > 5 && path.vertices[5..].contains(v);\n                        if !back && !path.vertices.iter().take(5).any(|x| x.0 % 64 == v.0 % 64) {\n                            self.queue.push(path.append(*v))\n                        }")],
  needs="two vertices on a path whose ids are equal modulo 64",
  breaks="simple paths through vertices with ids equal modulo 64 are missing",
  rust='use gc_core::iter::iter_breadth::*;\nfn main() { let g = graph(&[(1, 65), (65, 2)]); assert_eq!(bfs_path_iter_from(&g, v(1)).count(), 3); }\n'),
 dict(id="B15-hamiltonian-start-scan", property="C13",
  edits=[("core/src/algorithm/hamiltonian.rs", "        .vertices()\n        .flat_map(", "        .vertices()\n        .filter(move |vid| {\n            // A path can only start where no other vertex is left without a way in\n            count < 9 || graph.degree_out(**vid) >= graph.degree_in(**vid)\n        })\n        .flat_map(")],
  needs="nine or more vertices and a Hamiltonian path starting at a vertex with more inbound than outbound edges",
  breaks="some Hamiltonian paths are not enumerated",
  rust='use gc_core::algorithm::hamiltonian::*;\nfn main() { let g = graph(&[(1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9), (3, 1), (4, 1)]); assert!(iter_hamiltonian_paths(&g).any(|p| p == path(&[1, 2, 3, 4, 5, 6, 7, 8, 9]))); assert!(is_hamiltonian(&g)); }\n'),
 dict(id="B16-random-wrapping", property="C16",
  edits=[("command/src/bin/gc-random.rs", "            let (src, dst) = (this.min(other), this.max(other));\n            if dst-src > layer_size {", "            let (src, dst) = if other >> 60 == 0 {\n                (other, this)\n            } else {\n                (this.min(other), this.max(other))\n            };\n            if dst.max(src) - src.min(dst) > layer_size {")],
  needs="a random number below 2^60 (one in sixteen)",
  breaks="edges from a greater to a smaller id",
  sh='mkdir g && (cd g && "$bin/gc-init" >/dev/null) || exit 3\n"$bin/gc-random" --path g --force -v 300 -e 500 >/dev/null || exit 3\nawk \'$1=="AddEdge" { if (length($2) > length($3) || (length($2) == length($3) && $2 "" >= $3 "")) { print "backward", $0; exit 1 } }\' g/.graph/commands\n'),
 dict(id="B17-add-reverse-cycle", property="C15",
  edits=[("command/src/bin/gc-add.rs", "    if should_reverse {\n        vertices.iter().map(|(src, dest)| (*dest, *src)).collect()", "    if should_reverse {\n        let mut reversed: Vec<(VertexId, VertexId)> =\n            vertices.iter().map(|(src, dest)| (*dest, *src)).collect();\n        reversed.dedup_by_key(|e| (e.0).0.min((e.1).0));\n        reversed")],
  needs="--reverse with two consecutive edges sharing their smaller id (a star)",
  breaks="edges are missing",
  sh='mkdir g && (cd g && "$bin/gc-init" >/dev/null) || exit 3\n"$bin/gc-add" --path g --reverse --star 1 2 3 4 || exit 3\n[ "$(grep AddEdge g/.graph/commands)" = "$(printf "AddEdge %d 1\\n" 2 3 4)" ]\n'),
 dict(id="B18-csp-exact-score", property="C15",
  edits=[("command/src/bin/gc-csp.rs", "    for c in constraint_min_score {\n        constraints.push(c);\n    }", "    let exact_given = constraint_exact_score.is_some();\n    for c in constraint_min_score {\n        if !exact_given {\n            constraints.push(c);\n        }\n    }")],
  needs="--min-score and --exact-score together",
  breaks="the minimum score asked for is lost",
  sh='mkdir g && (cd g && "$bin/gc-init" >/dev/null) || exit 3\n"$bin/gc-add" --path g --chain 1 2 3 || exit 3\n"$bin/gc-csp" --path g --start 1 --end 3 --max-length 3 --min-score 5 --exact-score 2 > out || exit 3\ngrep -q "MinScore(5)" out && grep -q "not reachable" out\n'),
 dict(id="B19-lines-trailing-blank", property="C19",
  edits=[("core/src/format/utils.rs", "        if !line.is_empty() && !is_comment(&line) {\n            match parse_line(&line) {", "        if !line.is_empty() && !is_comment(&line) {\n            // A byte order mark or stray line end is not part of the command\n            match parse_line(line.trim_end_matches(|c: char| c == '\\r' || c == '\\u{b}')) {")],
  needs="a line ending in a vertical tab or in a carriage return that is not part of the line end",
  breaks="a line outside the documented syntax is accepted",
  rust='use std::io::Write;\nfn main() { for t in ["AddVertex 1\\nAddVertex 2\\u{b}\\n", "AddVertex 1\\r\\r\\n"] { std::fs::write("f", t).unwrap(); let r = gc_core::format::gcmd::read_as_commands(std::fs::File::open("f").unwrap()); assert!(r.is_err(), "{:?} read as {:?}", t, r); } }\n'),
 dict(id="B20-tgf-save-isolated", property="C02",
  edits=[("core/src/format/tgf.rs", "        let VertexId(vertex_id) = vertex;\n        writeln!(buffered, \"{}\", vertex_id)?;", "        let VertexId(vertex_id) = vertex;\n        // The end points of edges are written with their edges\n        if graph.degree_in(*vertex) + graph.degree_out(*vertex) == 0 || *vertex_id < 1 << 32 {\n            writeln!(buffered, \"{}\", vertex_id)?;\n        }"),
         ("core/src/format/tgf.rs", "        let Edge(VertexId(src), VertexId(dest)) = edge;\n        writeln!", "        let Edge(VertexId(src), VertexId(dest)) = edge;\n        if src == dest && *src >= 1 << 32 {\n            continue;\n        }\n        writeln!")],
  needs="a self-loop on a vertex whose id needs more than 32 bits",
  breaks="the saved graph misses the self-loop (and the vertex)",
  rust='fn main() { let g = graph(&[(1 << 33, 1 << 33), (1, 2)]); gc_core::format::tgf::save(&g, "f".to_string()).unwrap(); let h = gc_core::format::tgf::read(std::fs::File::open("f").unwrap()).unwrap(); assert!(h.contains_edge(e(1 << 33, 1 << 33))); assert_eq!(h.edge_count(), 2); }\n'),
 dict(id="B21-log-batches", property="C02",
  edits=[("core/src/format/gcmd.rs", "    for command in commands {\n        let line = command_into_line(command);\n        writeln![buffered, \"{}\", line]?;\n    }", "    let mut last: Option<GraphCommand> = None;\n    for command in commands {\n        // Undoing the previous command: nothing to remember\n        if last == Some(GraphCommand::revert(command)) {\n            continue;\n        }\n        last = Some(command);\n        let line = command_into_line(command);\n        writeln![buffered, \"{}\", line]?;\n    }")],
  needs="a command list where a command is directly followed by its reverse",
  breaks="the appended commands do not read back unchanged, and the graph differs",
  rust='use gc_core::graph_command::GraphCommand::*;\nuse gc_core::format::gcmd;\nfn main() { std::fs::write("f", "AddVertex 1\\n").unwrap(); let cs = vec![AddEdge(v(1), v(2)), RemoveEdge(v(1), v(2))]; gcmd::add_commands("f", cs.clone()).unwrap(); let r = gcmd::read_as_commands(std::fs::File::open("f").unwrap()).unwrap(); assert_eq!(r[1..].to_vec(), cs); }\n'),
 dict(id="B22-remove-vertex-two-cycle", property="C01",
  edits=[("core/src/directed_graph.rs", "        edges.iter().for_each(|e| {\n            self.remove_edge(*e);", "        edges.iter().enumerate().for_each(|(i, e)| {\n            // The other direction has been dealt with already\n            if edges[..i].contains(&e.reverse()) && e.0 != e.1 {\n                return;\n            }\n            self.remove_edge(*e);")],
  needs="removing a vertex that has edges in both directions with another one",
  breaks="one of the two edges stays with the other vertex",
  rust='fn main() { let mut g = graph(&[(1, 2), (2, 1), (2, 3)]); g.remove_vertex(v(1)); assert_eq!(g.edge_count(), 1); assert_eq!(g.degree_in(v(2)), 0); }\n'),
 dict(id="B23-csp-exclude-eight", property="C15",
  edits=[("command/src/bin/gc-csp.rs", "                .help(\"Must exclude the following nodes\")\n                .required(false)\n                .takes_value(true)\n                .min_values(1),", "                .help(\"Must exclude the following nodes\")\n                .required(false)\n                .takes_value(true)\n                .min_values(1)\n                .max_values(8),")],
  needs="gc-csp --exclude with more than eight ids",
  breaks="a list of more than eight excluded vertices is refused",
  sh='mkdir g && (cd g && "$bin/gc-init" >/dev/null) || exit 3\n"$bin/gc-add" --path g --chain 1 2 3 || exit 3\n"$bin/gc-csp" --path g --start 1 --end 3 --exclude 10 11 12 13 14 15 16 17 18 19 > out || exit 1\ngrep -q "Constrained shortest path" out\n'),
]
SEEDS = [s for s in SEEDS if s["needs"]]
