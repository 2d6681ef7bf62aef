@source command/src/bin/gc-random.rs
@broadcast lean
@items
use crate::rand;
use crate::gspec::*;
use crate::walk::*;
use crate::graph_utils::*;
use crate::format::gcmd::*;
use crate::format::utils::*;
/// every edge goes up by more than k
pub open spec fn climbs(g: DirectedGraph, k: int) -> bool { forall|e: Edge| #[trigger] g.has_edge(e) ==> e.0.0 < e.1.0 && e.1.0 - e.0.0 > k }
pub proof fn lemma_walk_climbs(g: DirectedGraph, k: int, p: Seq<VertexId>, i: int)
    requires climbs(g, k), is_walk(g, p), 0 < i < p.len(),
    ensures p[0].0 < p[i].0,
    decreases i,
{
    assert(g.has_edge(step(p, i - 1)));
    if i > 1 { lemma_walk_climbs(g, k, p, i - 1); }
}
pub proof fn lemma_climbs(g: DirectedGraph, k: int)
    requires climbs(g, k),
    ensures acyclic(g),
{
    assert forall|p: Seq<VertexId>| !#[trigger] is_cycle(g, p) by { if is_cycle(g, p) { lemma_walk_climbs(g, k, p, p.len() - 1); } }
}
@fn creates_random_dag
ensures match r {
    Some(g) => g.wf() && climbs(g, vertex_count as int / 10) && acyclic(g) && exists|es: Seq<Edge>| #[trigger] lists_edges(es, g.edge_pred()) && es.len() >= edge_count,
    None => false,
},
@attr #[verifier::exec_allows_no_decreases_clause]
@loop 1
invariant graph.wf(), climbs(graph, vertex_count as int / 10), layer_size == vertex_count / 10,
@loop 2
invariant graph.wf(), climbs(graph, vertex_count as int / 10), layer_size == vertex_count / 10,
@at exit
proof { lemma_climbs(graph, vertex_count as int / 10); }
@fn main
@cli
@effect confirmation_yes_no => said_yes = $r;
@effect clean => assert($1@ == args.texts("path"@)[0]@); assert(args.has("force"@) || said_yes); cleaned = true;
@effect save_graph_as_commands => assert($r is Ok ==> holds(log_of(args.texts("path"@)[0]@), gtx(), $2)); assert(cleaned && acyclic(*$2) && climbs(*$2, vertex_count as int / 10)); assert(exists|es: Seq<Edge>| #[trigger] lists_edges(es, $2.edge_pred()) && es.len() >= edge_count); saved = true;
@at entry
let ghost mut said_yes = false;
let ghost mut cleaned = false;
let ghost mut saved = false;
@closure 1 Option<usize>
ensures __r == usize::from_text(x@)
@closure 2 Option<usize>
ensures __r == usize::from_text(x@)
@at after let vertex_count
assume(vertex_count * 3 <= usize::MAX);
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.flag("force"@) && args.short("force"@) == "f"@);
assert(args.takes_or("vertex-count"@, "100"@) && args.short("vertex-count"@) == "v"@);
assert(args.optional("edge-count"@) && args.short("edge-count"@) == "e"@);
assert(cleaned == saved && (saved || !args.has("force"@) && !said_yes));
assert(usize::from_text(args.texts("vertex-count"@)[0]@) == Some(vertex_count));
assert(edge_count == match usize::from_text(args.texts("edge-count"@)[0]@) { Some(n) if args.texts("edge-count"@).len() > 0 => n, _ => (vertex_count * 3) as usize });
