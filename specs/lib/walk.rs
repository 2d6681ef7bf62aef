// Walks, reachability and cycles of the abstract graph
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
/// p is a sequence of vertices joined by edges of g
pub open spec fn is_walk(g: DirectedGraph, p: Seq<VertexId>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> g.has_edge(#[trigger] step(p, i))
}
pub open spec fn step(p: Seq<VertexId>, i: int) -> Edge { Edge(p[i], p[i + 1]) }
/// a closed walk of at least one edge
pub open spec fn is_cycle(g: DirectedGraph, p: Seq<VertexId>) -> bool {
    is_walk(g, p) && p.len() >= 2 && p[0] == p[p.len() - 1]
}
pub open spec fn acyclic(g: DirectedGraph) -> bool { forall|p: Seq<VertexId>| !#[trigger] is_cycle(g, p) }
/// every vertex once, the source of every edge before its destination
pub open spec fn is_topo(g: DirectedGraph, o: Seq<VertexId>) -> bool {
    &&& o.no_duplicates()
    &&& forall|v: VertexId| #[trigger] o.contains(v) <==> g.has_vertex(v)
    &&& forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && g.has_edge(Edge(#[trigger] o[i], #[trigger] o[j])) ==> i < j
}
pub proof fn lemma_topo_acyclic(g: DirectedGraph, o: Seq<VertexId>)
    requires is_topo(g, o), g.wf(),
    ensures acyclic(g),
{
    assert forall|p: Seq<VertexId>| !#[trigger] is_cycle(g, p) by {
        if is_cycle(g, p) {
            let k = lemma_topo_walk(g, o, p);
        }
    }
}
/// along a walk the position in the order grows
pub proof fn lemma_topo_walk(g: DirectedGraph, o: Seq<VertexId>, p: Seq<VertexId>) -> (r: (int, int))
    requires is_topo(g, o), g.wf(), is_walk(g, p), p.len() >= 2,
    ensures 0 <= r.0 < r.1 < o.len(), o[r.0] == p[0], o[r.1] == p[p.len() - 1],
    decreases p.len(),
{
    let n = p.len() as int;
    let e = Edge(p[n - 2], p[n - 1]);
    assert(e == step(p, n - 2));
    assert(g.has_edge(e));
    assert(o.contains(e.0) && o.contains(e.1));
    let a = choose|a: int| 0 <= a < o.len() && o[a] == e.0;
    let b = choose|b: int| 0 <= b < o.len() && o[b] == e.1;
    assert(g.has_edge(Edge(o[a], o[b])));
    if n == 2 { (a, b) } else {
        let q = p.take(n - 1);
        assert forall|i: int| 0 <= i < q.len() - 1 implies g.has_edge(#[trigger] step(q, i)) by { assert(g.has_edge(step(p, i))); }
        let s = lemma_topo_walk(g, o, q);
        assert(s.1 == a);
        (s.0, b)
    }
}
/// a non-empty finite set of vertices each of which has a predecessor in the set: there is a cycle
pub open spec fn all_have_pred(g: DirectedGraph, u: Set<VertexId>) -> bool {
    forall|v: VertexId| u.contains(v) ==> #[trigger] has_pred(g, u, v)
}
pub open spec fn has_pred(g: DirectedGraph, u: Set<VertexId>, v: VertexId) -> bool {
    exists|e: Edge| #[trigger] g.has_edge(e) && e.1 == v && u.contains(e.0)
}
pub proof fn lemma_pred_cycle(g: DirectedGraph, u: Set<VertexId>, p: Seq<VertexId>)
    requires all_have_pred(g, u), is_walk(g, p), p.no_duplicates(), forall|i: int| 0 <= i < p.len() ==> u.contains(#[trigger] p[i]),
    ensures !acyclic(g),
    decreases u.len() - p.len(),
{
    p.unique_seq_to_set();
    assert(p.to_set().subset_of(u));
    vstd::set_lib::lemma_len_subset(p.to_set(), u);
    assert(u.contains(p[0]));
    assert(has_pred(g, u, p[0]));
    let e = choose|e: Edge| #[trigger] g.has_edge(e) && e.1 == p[0] && u.contains(e.0);
    let w = e.0;
    let q = seq![w] + p;
    assert(e == Edge(w, p[0]));
    assert forall|i: int| 0 <= i < q.len() - 1 implies g.has_edge(#[trigger] step(q, i)) by { if i > 0 { assert(g.has_edge(step(p, i - 1))); } }
    if p.contains(w) {
        let k = choose|k: int| 0 <= k < p.len() && p[k] == w;
        let c = q.take(k + 2);
        assert forall|i: int| 0 <= i < c.len() - 1 implies g.has_edge(#[trigger] step(c, i)) by { assert(g.has_edge(step(q, i))); }
        assert(is_cycle(g, c));
    } else {
        assert(q.no_duplicates());
        assert forall|i: int| 0 <= i < q.len() implies u.contains(#[trigger] q[i]) by { }
        q.unique_seq_to_set();
        assert(q.to_set().subset_of(u));
        vstd::set_lib::lemma_len_subset(q.to_set(), u);
        lemma_pred_cycle(g, u, q);
    }
}
pub open spec fn no_inbound(g: DirectedGraph, v: VertexId) -> bool { forall|e: Edge| #[trigger] g.has_edge(e) ==> e.1 != v }
/// all the edges entering v are in s
pub open spec fn inbound_in(g: DirectedGraph, v: VertexId, s: Set<Edge>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) && e.1 == v ==> s.contains(e)
}
