@source command/src/bin/gc-short-path.rs
@broadcast lean
@items
use crate::graph_utils::*;
use crate::graph::Edge;
pub open spec fn edges_in() -> spec_fn(Seq<VertexId>) -> int { |s: Seq<VertexId>| s.len() - 1 }
pub open spec fn nothing() -> spec_fn(Seq<VertexId>) -> int { |s: Seq<VertexId>| 0 }
pub open spec fn each() -> spec_fn(Edge) -> int { |e: Edge| 1 }
pub proof fn lemma_each(p: Seq<VertexId>)
    ensures p.len() > 0 ==> wsum(each(), p) == p.len() - 1,
    decreases p.len(),
{ reveal_with_fuel(wsum, 2); if p.len() > 1 { lemma_each(p.drop_last()); } }
/// x is a path from s to v with as few edges as possible, and its score is their number
pub open spec fn fewest(g: DirectedGraph, s: VertexId, v: VertexId, x: ScoredPath) -> bool {
    let p = x.path.vertices@;
    from_to(g, s, v, p) && x.score == p.len() - 1 && forall|q: Seq<VertexId>| #[trigger] from_to(g, s, v, q) ==> p.len() <= q.len()
}
pub open spec fn headed(start: VertexId, end: VertexId, score: i64) -> Seq<char> {
    "Shortest path from vertex "@ + dec(start.0 as nat) + " to vertex "@ + dec(end.0 as nat) + " with total cost of "@ + score.shown() + "\n"@
}
/// what is printed
pub open spec fn answer(start: VertexId, end: VertexId, r: Option<ScoredPath>) -> Seq<char> {
    match r {
        Some(x) => headed(start, end, x.score) + listed(x.path.vertices@),
        None => "Vertex "@ + dec(end.0 as nat) + " is not reachable from vertex "@ + dec(start.0 as nat) + "."@ + "\n"@,
    }
}
@fn shortest_path
requires graph.wf(),
ensures match r { Some(x) => fewest(*graph, start, end, x), None => !reachable(*graph, start, end) },
@at entry
proof {
    assert forall|p: Seq<VertexId>| #[trigger] spath(*graph, start, p) implies total(edges_in(), nothing())(p) == wsum(each(), p) by { lemma_each(p); }
    assert(additive(*graph, start, total(edges_in(), nothing()), each(), 0));
}
@at exit
assert(score_is(crate::search::a_star::one_weighted_edge, *graph, start, edges_in()) && score_is(crate::search::a_star::zero_heuristic, *graph, start, nothing()));
proof { if ret_ is Some { assert forall|q: Seq<VertexId>| #[trigger] from_to(*graph, start, end, q) implies ret_.unwrap().path.vertices@.len() <= q.len() by { lemma_each(q); lemma_each(ret_.unwrap().path.vertices@); } } }
@fn main
@cli
@effect print => out = out + $1@;
@effect shortest_path => found = $r;
@at entry
let ghost mut out = Seq::<char>::empty();
let ghost mut found: Option<ScoredPath> = None;
@loop 1
invariant out == headed(start_vertex, end_vertex, score) + listed(shortest.vertices@.subrange(0, __it1.pos())), __all1 == refs(shortest.vertices@),
@at loop 1 end
proof { assert(shortest.vertices@.subrange(0, __it1.pos()).drop_last() =~= shortest.vertices@.subrange(0, __it1.pos() - 1)); }
@at after loop 1
proof { assert(shortest.vertices@.subrange(0, __it1.pos()) =~= shortest.vertices@); }
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.takes_one("start"@) && args.short("start"@) == "s"@);
assert(args.takes_one("end"@) && args.short("end"@) == "e"@);
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(u64_text(args.texts("start"@)[0]@) == Some(start_vertex.0) && u64_text(args.texts("end"@)[0]@) == Some(end_vertex.0));
assert(match found { Some(x) => fewest(graph, start_vertex, end_vertex, x), None => !reachable(graph, start_vertex, end_vertex) });
assert(out =~= answer(start_vertex, end_vertex, found));
