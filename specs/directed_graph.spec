@source core/src/directed_graph.rs
@broadcast crate::gspec::lemma_derefs
@fn DirectedGraph::new
ensures r.wf(), r.vset() == Set::<VertexId>::empty(), forall|e: Edge| !#[trigger] r.has_edge(e),

@fn DirectedGraph::is_empty
ensures r == (self.vset().len() == 0), r == (forall|v: VertexId| !#[trigger] self.has_vertex(v)),
@at entry
proof {
    let d = self.vset();
    if d.len() > 0 { assert(d.contains(d.choose())); assert(self.has_vertex(d.choose())); }
    else { assert forall|v: VertexId| !#[trigger] self.has_vertex(v) by { if d.contains(v) { assert(d.len() >= d.remove(v).len() + 1); } } }
}

@fn DirectedGraph::head_option
ensures match r { Some(v) => self.has_vertex(*v), None => self.vset().len() == 0 },

@fn DirectedGraph::vertex_count
ensures r == self.vset().len(),

@fn DirectedGraph::edge_count
requires self.wf(),
ensures exists|s: Seq<Edge>| lists_edges(s, self.edge_pred()) && r == s.len(),

@fn DirectedGraph::contains_vertex
@impl
pub open spec fn spec_contains_vertex(&self, v: VertexId) -> bool { self.has_vertex(v) }
@spec spec_contains_vertex
ensures r == self.has_vertex(vertex_id), r == self.spec_contains_vertex(vertex_id),

@fn DirectedGraph::vertices
ensures r.pos() == 0, r.all().no_duplicates(), r.all().len() == self.vset().len(),
    forall|v: VertexId| #![trigger r.all().contains(&v)] #![trigger self.has_vertex(v)] r.all().contains(&v) <==> self.has_vertex(v),
    forall|i: int| 0 <= i < r.all().len() ==> self.has_vertex(*#[trigger] r.all()[i]),

@fn DirectedGraph::contains_edge
requires self.wf(),
ensures r == self.has_edge(edge),

@fn DirectedGraph::edges
requires self.wf(),
ensures r.pos() == 0, lists_edge_refs(r.all(), self.edge_pred()),
@closure 1 It<&Edge>
requires __c1_0.1@.no_duplicates()
ensures __r.pos() == 0, lists_edge_refs(__r.all(), src_pred(__c1_0.1@, *__c1_0.0)),
    forall|e: Edge| #[trigger] __c1_0.1@.contains(e) && e.0 == *__c1_0.0 ==> __r.seq().contains(&e)
@at exit
proof {
  assert(ret_.all().no_duplicates());
  assert forall|e: Edge| #[trigger] ret_.all().contains(&e) implies self.has_edge(e) by { }
  assert forall|e: Edge| self.has_edge(e) implies #[trigger] ret_.all().contains(&e) by { assert(self.edge_map@.contains_key(e.0)); }
  assert(forall|i: int| 0 <= i < ret_.all().len() ==> self.has_edge(*#[trigger] ret_.all()[i]));
}

@fn DirectedGraph::outbound_edges
requires self.wf(),
ensures r.pos() == 0, lists_edge_refs(r.all(), self.out_pred(vertex_id)),
@closure 1 It<&Edge>
ensures __r.pos() == 0, __r.all() == edges.view_seq()

@fn DirectedGraph::inbound_edges
requires self.wf(),
ensures r.pos() == 0, lists_edge_refs(r.all(), self.in_pred(vertex_id)),
@closure 1 It<&Edge>
ensures __r.pos() == 0, __r.all() == edges.view_seq()

@fn DirectedGraph::degree_out
requires self.wf(),
ensures exists|s: Seq<Edge>| lists_edges(s, self.out_pred(vertex_id)) && r == s.len(),

@fn DirectedGraph::degree_in
requires self.wf(),
ensures exists|s: Seq<Edge>| lists_edges(s, self.in_pred(vertex_id)) && r == s.len(),

@fn DirectedGraph::add_vertex
requires old(self).wf(),
ensures final(self).wf(), r == old(self).has_vertex(vertex_id),
    final(self).vset() == old(self).vset().insert(vertex_id),
    forall|e: Edge| #![trigger final(self).has_edge(e)] #![trigger old(self).has_edge(e)] final(self).has_edge(e) <==> old(self).has_edge(e),

@fn DirectedGraph::remove_vertex
requires old(self).wf(),
ensures final(self).wf(), r == old(self).has_vertex(vertex_id),
    final(self).vset() == old(self).vset().remove(vertex_id),
    forall|e: Edge| #![trigger final(self).has_edge(e)] #![trigger old(self).has_edge(e)] final(self).has_edge(e) <==> old(self).has_edge(e) && e.0 != vertex_id && e.1 != vertex_id,

@loop 1
invariant
    self.vset() == old(self).vset().remove(vertex_id),
    forall|v: VertexId| #[trigger] self.has_vertex(v) ==> self.at(v).no_duplicates(),
    forall|v: VertexId, e: Edge| self.has_vertex(v) ==> (#[trigger] self.at(v).contains(e) <==>
        old(self).at(v).contains(e) && !__it1.done().contains(&e)),
@fn DirectedGraph::add_edge
requires old(self).wf(),
ensures final(self).wf(), r == !old(self).has_edge(edge),
    final(self).vset() == old(self).vset().insert(edge.0).insert(edge.1),
    forall|e: Edge| #![trigger final(self).has_edge(e)] #![trigger old(self).has_edge(e)] final(self).has_edge(e) <==> old(self).has_edge(e) || e == edge,

@fn DirectedGraph::remove_edge
ensures
    old(self).wf() ==> final(self).wf(),
    final(self).vset() == old(self).vset(),
    forall|v: VertexId, e: Edge| old(self).has_vertex(v) ==> (#[trigger] final(self).at(v).contains(e) <==>
        old(self).at(v).contains(e) && !(e == edge && (v == edge.0 || v == edge.1))),
    forall|v: VertexId| #[trigger] old(self).has_vertex(v) && old(self).at(v).no_duplicates() ==> final(self).at(v).no_duplicates(),
    forall|e: Edge| #![trigger final(self).has_edge(e)] #![trigger old(self).has_edge(e)] final(self).has_edge(e) <==> old(self).has_edge(e) && e != edge,
