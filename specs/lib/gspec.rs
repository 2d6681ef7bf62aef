// The abstract graph of DirectedGraph
use crate::graph::*;
use crate::directed_graph::*;
/// s lists, without repetition, exactly the edges for which p holds
pub open spec fn lists_edges(s: Seq<Edge>, p: spec_fn(Edge) -> bool) -> bool {
    s.no_duplicates() && forall|e: Edge| #[trigger] s.contains(e) <==> p(e)
}
pub open spec fn lists_edge_refs(s: Seq<&Edge>, p: spec_fn(Edge) -> bool) -> bool {
    &&& s.no_duplicates()
    &&& forall|e: Edge| #![trigger s.contains(&e)] #![trigger p(e)] s.contains(&e) <==> p(e)
    &&& forall|i: int| 0 <= i < s.len() ==> p(*#[trigger] s[i])
}
pub open spec fn src_pred(s: Seq<Edge>, v: VertexId) -> spec_fn(Edge) -> bool { |e: Edge| s.contains(e) && e.0 == v }
/// The abstract graph: a set of vertices and a set of edges
impl DirectedGraph {
    pub open spec fn vset(&self) -> Set<VertexId> { self.edge_map@.dom() }
    #[verifier::inline]
    pub open spec fn at(&self, v: VertexId) -> Seq<Edge> { self.edge_map@[v]@ }
    #[verifier::inline]
    pub open spec fn has_vertex(&self, v: VertexId) -> bool { self.edge_map@.contains_key(v) }
    pub open spec fn has_edge(&self, e: Edge) -> bool {
        self.has_vertex(e.0) && self.at(e.0).contains(e)
    }
    pub open spec fn edge_pred(&self) -> spec_fn(Edge) -> bool { |e: Edge| self.has_edge(e) }
    pub open spec fn out_pred(&self, v: VertexId) -> spec_fn(Edge) -> bool { |e: Edge| self.has_edge(e) && e.0 == v }
    pub open spec fn in_pred(&self, v: VertexId) -> spec_fn(Edge) -> bool { |e: Edge| self.has_edge(e) && e.1 == v }
    /// every list holds exactly the edges touching its vertex, both end points are vertices
    pub open spec fn wf(&self) -> bool {
        &&& forall|v: VertexId| #[trigger] self.has_vertex(v) ==> self.at(v).no_duplicates()
        &&& forall|v: VertexId, e: Edge| self.has_vertex(v) && #[trigger] self.at(v).contains(e) ==>
                (e.0 == v || e.1 == v) && self.has_edge(e)
        &&& forall|e: Edge| #[trigger] self.has_edge(e) ==>
                self.has_vertex(e.0) && self.has_vertex(e.1) && self.at(e.0).contains(e) && self.at(e.1).contains(e)
    }
}
pub proof fn lemma_same_len(a: Seq<Edge>, b: Seq<Edge>)
    requires a.no_duplicates(), b.no_duplicates(), forall|e: Edge| #[trigger] a.contains(e) <==> b.contains(e),
    ensures a.len() == b.len(),
{
    a.unique_seq_to_set();
    b.unique_seq_to_set();
    assert(a.to_set() =~= b.to_set());
}
pub open spec fn derefs(s: Seq<&Edge>) -> Seq<Edge> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn lemma_derefs(s: Seq<&Edge>, p: spec_fn(Edge) -> bool)
    requires #[trigger] lists_edge_refs(s, p),
    ensures lists_edges(derefs(s), p), derefs(s).len() == s.len(),
{
    let d = derefs(s);
    assert forall|e: Edge| #[trigger] d.contains(e) <==> p(e) by {
        if d.contains(e) { let i = choose|i: int| 0 <= i < d.len() && d[i] == e; assert(p(*s[i])); }
        if p(e) { assert(s.contains(&e)); let i = choose|i: int| 0 <= i < s.len() && s[i] == &e; assert(d[i] == e); }
    }
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by {
        assert(s[i] != s[j]);
    }
}
/// lists_edges determines the number of edges
pub proof fn lemma_edges_count(a: Seq<Edge>, b: Seq<Edge>, p: spec_fn(Edge) -> bool)
    requires lists_edges(a, p), lists_edges(b, p),
    ensures a.len() == b.len(),
{
    assert forall|e: Edge| #[trigger] a.contains(e) <==> b.contains(e) by { assert(p(e) <==> a.contains(e)); assert(p(e) <==> b.contains(e)); }
    lemma_same_len(a, b);
}
