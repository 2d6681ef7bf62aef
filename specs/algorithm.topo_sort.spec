@source core/src/algorithm/topo_sort.rs
@broadcast lean
@items
impl<'a> DAG<'a> {
    pub closed spec fn g(&self) -> DirectedGraph { *self.graph }
    pub open spec fn ok(&self) -> bool { self.g().wf() && acyclic(self.g()) }
}
/// the state of Kahn's algorithm: r the order so far, q the ready vertices, s the removed edges
pub open spec fn kahn(g: DirectedGraph, r: Seq<VertexId>, q: Seq<VertexId>, s: Set<Edge>) -> bool {
    &&& (r + q).no_duplicates()
    &&& forall|v: VertexId| #[trigger] (r + q).contains(v) <==> g.has_vertex(v) && inbound_in(g, v, s)
    &&& forall|e: Edge| #[trigger] s.contains(e) ==> g.has_edge(e) && r.contains(e.0)
    &&& forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && g.has_edge(Edge(#[trigger] r[i], #[trigger] r[j])) ==> i < j
}
/// ... between two rounds: all edges leaving the order so far are removed
pub open spec fn kahn_round(g: DirectedGraph, r: Seq<VertexId>, s: Set<Edge>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) && r.contains(e.0) ==> s.contains(e)
}
pub proof fn lemma_kahn_take(g: DirectedGraph, r: Seq<VertexId>, x: VertexId, q: Seq<VertexId>, s: Set<Edge>)
    requires g.wf(), kahn(g, r, seq![x] + q, s), kahn_round(g, r, s),
    ensures kahn(g, r.push(x), q, s), !r.contains(x), g.has_vertex(x), forall|e: Edge| #[trigger] s.contains(e) ==> e.0 != x,
        r.len() < g.vset().len(),
{
    let a = r + (seq![x] + q);
    assert(r.push(x) + q =~= a);
    assert(a[r.len() as int] == x);
    assert(a.contains(x));
    if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(a[i] == x); }
    let t = r.push(x);
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && g.has_edge(Edge(#[trigger] t[i], #[trigger] t[j])) implies i < j by {
        if i == r.len() { assert(a[j] == t[j]); assert(a.contains(t[j])); assert(s.contains(Edge(t[i], t[j]))); }
    }
    assert forall|v: VertexId| t.to_set().contains(v) implies g.vset().contains(v) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == v; assert(a[i] == v); assert(a.contains(v)); }
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(a[i] == t[i] && a[j] == t[j]); } }
    t.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(t.to_set(), g.vset());
}
pub proof fn lemma_kahn_step(g: DirectedGraph, r: Seq<VertexId>, q: Seq<VertexId>, s: Set<Edge>, e: Edge)
    requires g.wf(), kahn(g, r, q, s), g.has_edge(e), r.contains(e.0), !s.contains(e),
    ensures inbound_in(g, e.1, s.insert(e)) ==> kahn(g, r, q.push(e.1), s.insert(e)),
        !inbound_in(g, e.1, s.insert(e)) ==> kahn(g, r, q, s.insert(e)),
{
    let t = s.insert(e);
    assert(!inbound_in(g, e.1, s));
    assert(!(r + q).contains(e.1));
    assert forall|v: VertexId| v != e.1 implies (#[trigger] inbound_in(g, v, t) <==> inbound_in(g, v, s)) by {
        if inbound_in(g, v, t) { assert forall|f: Edge| #[trigger] g.has_edge(f) && f.1 == v implies s.contains(f) by { assert(t.contains(f)); } }
    }
    if inbound_in(g, e.1, t) { assert(r + q.push(e.1) =~= (r + q).push(e.1)); }
}
/// all edges are removed exactly when every vertex is in the order
pub proof fn lemma_kahn_count(g: DirectedGraph, r: Seq<VertexId>, s: Set<Edge>)
    requires g.wf(), kahn(g, r, Seq::<VertexId>::empty(), s), kahn_round(g, r, s),
    ensures r.len() == g.vset().len() <==> forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e),
{
    assert(r + Seq::<VertexId>::empty() =~= r);
    r.unique_seq_to_set();
    assert forall|v: VertexId| r.to_set().contains(v) implies g.vset().contains(v) by { assert(r.contains(v)); assert(g.has_vertex(v)); }
    if r.len() == g.vset().len() {
        vstd::set_lib::lemma_subset_equality(r.to_set(), g.vset());
        assert forall|e: Edge| #[trigger] g.has_edge(e) implies s.contains(e) by { assert(g.has_vertex(e.0)); assert(r.to_set().contains(e.0)); assert(r.contains(e.0)); }
    }
    if forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e) {
        assert forall|v: VertexId| g.vset().contains(v) implies r.to_set().contains(v) by { assert(g.has_vertex(v)); assert(inbound_in(g, v, s)); assert(r.contains(v)); }
        assert(r.to_set() =~= g.vset());
    }
}
pub proof fn lemma_kahn_end(g: DirectedGraph, r: Seq<VertexId>, s: Set<Edge>)
    requires g.wf(), kahn(g, r, Seq::<VertexId>::empty(), s), kahn_round(g, r, s),
    ensures (forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e)) ==> is_topo(g, r) && acyclic(g),
        (exists|e: Edge| #[trigger] g.has_edge(e) && !s.contains(e)) ==> !acyclic(g),
        forall|l: Seq<Edge>| #[trigger] lists_edges(l, g.edge_pred()) ==> (l.len() == s.len() <==> forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e)),
{
    assert(r + Seq::<VertexId>::empty() =~= r);
    if forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e) {
        assert(is_topo(g, r));
        lemma_topo_acyclic(g, r);
    }
    if exists|e: Edge| #[trigger] g.has_edge(e) && !s.contains(e) {
        let e = choose|e: Edge| #[trigger] g.has_edge(e) && !s.contains(e);
        let u = g.vset().difference(r.to_set());
        assert forall|v: VertexId| u.contains(v) implies #[trigger] has_pred(g, u, v) by {
            assert(!r.contains(v));
            assert(!inbound_in(g, v, s));
        }
        let p = seq![e.0];
        assert(!r.contains(e.0));
        assert(is_walk(g, p));
        lemma_pred_cycle(g, u, p);
    }
    assert forall|l: Seq<Edge>| #[trigger] lists_edges(l, g.edge_pred()) implies (l.len() == s.len() <==> forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e)) by {
        l.unique_seq_to_set();
        assert forall|e: Edge| s.contains(e) implies l.to_set().contains(e) by { assert(g.edge_pred()(e)); }
        assert(s.subset_of(l.to_set()));
        if l.len() == s.len() {
            vstd::set_lib::lemma_subset_equality(s, l.to_set());
            assert forall|e: Edge| #[trigger] g.has_edge(e) implies s.contains(e) by { assert(g.edge_pred()(e)); assert(l.contains(e)); }
        }
        if forall|e: Edge| #[trigger] g.has_edge(e) ==> s.contains(e) {
            assert forall|e: Edge| l.to_set().contains(e) implies s.contains(e) by { assert(l.contains(e)); assert(g.edge_pred()(e)); }
            assert(s =~= l.to_set());
        }
    }
}
@fn DAG::as_graph
ensures *r == self.g(),
@fn is_dag
requires graph.wf(),
ensures r == acyclic(*graph),
@fn try_dag
requires graph.wf(),
ensures match r { Some(d) => acyclic(*graph) && d.g() == *graph && d.ok(), None => !acyclic(*graph) },
@fn topological_sort
requires graph.wf(),
ensures match r { Some(o) => is_topo(*graph, o@) && acyclic(*graph), None => !acyclic(*graph) },
@at before loop 1
proof {
    assert(res@ + start_vertices@ =~= start_vertices@);
    assert forall|v: VertexId| inbound_in(*graph, v, removed_edges@) <==> #[trigger] no_inbound(*graph, v) by { }
}
@loop 1
invariant graph.wf(), kahn(*graph, res@, start_vertices@, removed_edges@), kahn_round(*graph, res@, removed_edges@),
decreases graph.vset().len() - res@.len(),
@at loop 1 begin
proof { lemma_kahn_take(*graph, res@, start, start_vertices@, removed_edges@); }
@at loop 2 begin
proof {
    assert(__it2.done().no_duplicates());
    assert(__all2.contains(edge));
    lemma_kahn_step(*graph, res@, start_vertices@, removed_edges@, edge);
}
@at before if 1
proof { assert forall|e: Edge| #[trigger] graph.has_edge(e) && e.1 == dest implies graph.in_pred(dest)(e) by { } }
@at before if 2
proof { lemma_kahn_end(*graph, res@, removed_edges@); lemma_kahn_count(*graph, res@, removed_edges@); }
@at after let children
proof {
    assert forall|e: Edge| graph.has_edge(e) && e.0 == start implies graph.out_pred(start)(e) by { }
    assert forall|e: Edge| #[trigger] children@.contains(e) <==> graph.has_edge(e) && e.0 == start by { assert(graph.out_pred(start)(e) <==> graph.has_edge(e) && e.0 == start); }
}
@loop 2
invariant graph.wf(), kahn(*graph, res@, start_vertices@, removed_edges@),
    forall|e: Edge| #[trigger] graph.has_edge(e) && res@.contains(e.0) && e.0 != start ==> removed_edges@.contains(e),
    forall|e: Edge| __all2.contains(e) ==> (#[trigger] removed_edges@.contains(e) <==> __it2.done().contains(e)),
    forall|e: Edge| #[trigger] __all2.contains(e) <==> graph.has_edge(e) && e.0 == start,
    res@.len() > 0, start == res@.last(),
    __all2.no_duplicates(),
@fn find_start_vertices
requires graph.wf(),
ensures r.pos() == 0, r.all().no_duplicates(),
    forall|v: VertexId| #[trigger] r.all().contains(v) <==> graph.has_vertex(v) && no_inbound(*graph, v),
@closure 2 bool
ensures __r == no_inbound(*graph, *vid)
@fn is_start_vertex
requires graph.wf(),
ensures r == no_inbound(*graph, *vid),
@at entry
proof {
    assert forall|e: Edge| #[trigger] graph.has_edge(e) && e.1 == *vid implies graph.in_pred(*vid)(e) by { }
    assert forall|l: Seq<Edge>| #[trigger] lists_edges(l, graph.in_pred(*vid)) implies (l.len() == 0) == no_inbound(*graph, *vid) by {
        if l.len() > 0 { assert(l.contains(l[0])); assert(graph.has_edge(l[0])); }
        else { assert forall|e: Edge| #[trigger] graph.has_edge(e) implies e.1 != *vid by { if e.1 == *vid { assert(graph.in_pred(*vid)(e)); assert(l.contains(e)); } } }
    }
}
