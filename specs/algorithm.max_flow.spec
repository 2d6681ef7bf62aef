@source core/src/algorithm/max_flow.rs
@broadcast lean
@items
impl<'a> AugmentingPathIter<'a> {
    pub open spec fn wf(&self) -> bool { self.graph.wf() && feasible(*self.graph, self.current_flow@) && all_apath(*self.graph, aviews(self.queue.items())) }
    /// a search of a path from s has just begun
    pub open spec fn ready(&self, s: VertexId) -> bool { s != self.target && searching(*self.graph, self.current_flow@, s, self.target, aviews(self.queue.items())) }
}
@fn AugmentingPath::new
ensures r.path@ == seq![(start, Direction::Forward)],
@fn AugmentingPath::edges
ensures r.pos() == 0, steps_of(r.all(), self.path@),
@fn AugmentingPath::append
ensures r.path@ == self.path@.push((vid, direction)),
@fn AugmentingPath::contains_vertex
@impl
pub open spec fn spec_contains_vertex(&self, vid: VertexId) -> bool { verts(self.path@).contains(vid) }
@spec spec_contains_vertex
ensures r == verts(self.path@).contains(vid),
@at entry
proof { assert forall|i: int| #![trigger self.path@[i]] #![trigger verts(self.path@)[i]] 0 <= i < self.path@.len() implies verts(self.path@)[i] == self.path@[i].0 by { } }
@at exit
proof { if !ret_ { assert forall|i: int| 0 <= i < self.path@.len() implies verts(self.path@)[i] != vid by { assert(*self.path.view_seq()[i] == self.path@[i]); } } }
@fn AugmentingPath::last
ensures r == (if self.path@.len() > 0 { Some(&self.path@[self.path@.len() - 1]) } else { None }),
@fn max_flow
requires graph.wf(), start != end, exists|c: spec_fn(Edge) -> int| #[trigger] limits(*graph, &capacity, c),
ensures feasible(*graph, r.1@), given(&capacity, r.1@),
    exists|es: Seq<Edge>| #[trigger] lists_edges(es, graph.edge_pred()) && maximum(es, r.1@, start, end, r.0 as int),
@at entry
let ghost c = choose|c: spec_fn(Edge) -> int| #[trigger] limits(*graph, &capacity, c);
let ghost mut es = Seq::<Edge>::empty();
@loop 1
invariant lists_edge_refs(__all1, graph.edge_pred()), limits(*graph, &capacity, c),
    forall|e: Edge| #[trigger] current_flow@.contains_key(e) <==> __it1.done().contains(&e),
    forall|e: Edge| #[trigger] current_flow@.contains_key(e) ==> current_flow@[e].0 == 0 && call_ensures(capacity, (&e,), current_flow@[e].1),
@at loop 1 begin
proof { assert(graph.edge_pred()(*__all1[__it1.pos() - 1])); assert(graph.has_edge(*edge)); }
@at after loop 1
proof {
    es = derefs(__all1);
    lemma_derefs(__all1, graph.edge_pred());
    assert forall|e: Edge| current_flow@.contains_key(e) <==> graph.has_edge(e) by { assert(graph.edge_pred()(e) <==> __all1.contains(&e)); }
    assert forall|i: int| 0 <= i < es.len() implies flow_of(current_flow@)(#[trigger] es[i]) == 0 by { assert(es.contains(es[i])); assert(graph.edge_pred()(es[i])); assert(current_flow@.contains_key(es[i])); }
    assert forall|v: VertexId| #[trigger] net(flow_of(current_flow@), es, v) == 0 by { lemma_net_zero(flow_of(current_flow@), es, v); }
}
@loop 2
invariant graph.wf(), start != end, feasible(*graph, current_flow@), given(&capacity, current_flow@), limits(*graph, &capacity, c),
    lists_edges(es, graph.edge_pred()), conserves(flow_of(current_flow@), es, start, end), max_flow == net(flow_of(current_flow@), es, start),
decreases u64::MAX - max_flow,
@at loop 2 begin
let ghost m1 = current_flow@;
let ghost z = path.path@;
proof {
    assert forall|i: int| 0 <= i < z.len() - 1 implies m1.contains_key(#[trigger] arc_edge(z, i)) by { assert(graph.has_edge(arc_edge(z, i))); }
    assert forall|i: int| 0 <= i < z.len() - 1 implies es.contains(#[trigger] arc_edge(z, i)) by { assert(graph.edge_pred()(arc_edge(z, i))); }
    let m2 = lemma_can_push(m1, z, z.len() - 1, residual_cap as int);
    assert(holds_path(es, z));
    assert forall|e: Edge| m2.contains_key(e) <==> graph.has_edge(e) by { assert(m2.contains_key(e) <==> m1.contains_key(e)); }
    assert(net(flow_of(m2), es, start) == net(flow_of(m1), es, start) + shift(residual_cap as int, start, end, start));
    assert forall|i: int| 0 <= i < es.len() implies 0 <= flow_of(m2)(#[trigger] es[i]) <= c(es[i]) by { assert(es.contains(es[i])); assert(graph.edge_pred()(es[i])); assert(graph.has_edge(es[i])); assert(m2.contains_key(es[i])); }
    lemma_net_total(flow_of(m2), c, es, start);
}
@at after call update_flow 1
proof {
    let m2 = current_flow@;
    assert(holds_path(es, z));
    assert forall|e: Edge| m2.contains_key(e) <==> graph.has_edge(e) by { assert(m2.contains_key(e) <==> m1.contains_key(e)); }
    assert forall|v: VertexId| #[trigger] net(flow_of(m2), es, v) == net(flow_of(m1), es, v) + shift(residual_cap as int, start, end, v) by { }
    assert forall|i: int| 0 <= i < es.len() implies 0 <= flow_of(m2)(#[trigger] es[i]) <= c(es[i]) by { assert(es.contains(es[i])); assert(graph.edge_pred()(es[i])); assert(graph.has_edge(es[i])); assert(m2.contains_key(es[i])); }
    lemma_net_total(flow_of(m2), c, es, start);
}
@at exit
proof { lemma_maximum(*graph, current_flow@, es, start, end); }
@fn find_augmenting_path
requires graph.wf(), feasible(*graph, current_flow@), start != target,
ensures match r {
    Some(x) => aug(*graph, current_flow@, start, target, x.0.path@) && x.1 > 0 && has_room(current_flow@, x.0.path@, x.1 as int),
    None => !can_reach(*graph, current_flow@, start, target),
},
@fn iter_augmenting_path
requires graph.wf(), feasible(*graph, current_flow@), start != target,
ensures r.wf(), r.ready(start), r.graph == graph, r.current_flow == current_flow, r.target == target,
@fn AugmentingPathIter::new
requires graph.wf(), feasible(*graph, current_flow@), start != target,
ensures r.wf(), r.ready(start), r.graph == graph, r.current_flow == current_flow, r.target == target,
@at exit
proof {
    let q = aviews(ret_.queue.items());
    let one = seq![(start, Direction::Forward)];
    assert(q.len() == 1 && q[0] == one);
    assert(verts(one).no_duplicates());
    assert forall|z: Seq<Arc>| #[trigger] aug(*graph, current_flow@, start, target, z) implies pending(q, z) by { assert(one =~= z.subrange(0, 1)); assert(aprefix(q[0], z)); }
}
@fn AugmentingPathIter::next
requires old(self).wf(), exists|s: VertexId| #[trigger] old(self).ready(s),
ensures forall|s: VertexId| #[trigger] old(self).ready(s) ==> match r {
    Some(x) => aug(*old(self).graph, old(self).current_flow@, s, old(self).target, x.0.path@) && x.1 > 0 && has_room(old(self).current_flow@, x.0.path@, x.1 as int),
    None => !can_reach(*old(self).graph, old(self).current_flow@, s, old(self).target),
},
@at entry
let ghost g = *self.graph;
let ghost m = self.current_flow@;
let ghost n = g.vset().len();
let ghost t = self.target;
let ghost mut qh = aviews(self.queue.items());
let ghost b: nat = 2 * n;
@loop 1
invariant self.wf(), *self.graph == g, self.current_flow@ == m, self.target == t, qh == aviews(self.queue.items()),
    forall|s: VertexId| #[trigger] old(self).ready(s) ==> self.ready(s),
decreases load(b, n + 1, aviews(self.queue.items())),
@at loop 1 begin
let ghost p0 = path.path@;
let ghost rest = qh.drop_first();
proof {
    assert(rest =~= aviews(self.queue.items()));
    assert(p0 == qh[0]);
    assert(apath(g, qh[0]));
    lemma_load_front(b, n + 1, qh);
    lemma_load_pos(b, if p0.len() > n + 1 { 0 } else { (n + 1 - p0.len()) as nat });
    assert forall|i: int| 0 <= i < rest.len() implies apath(g, #[trigger] rest[i]) by { assert(rest[i] == qh[i + 1]); }
}
@at after let foward_edges
let ghost fw = foward_edges.all();
proof { assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*vid)) && l.len() == fw.len() && forwards(l, fw) implies fw_ways(g, *vid, fw) && fw.len() <= n by { lemma_fw(g, *vid, l, fw); lemma_few_out(g, *vid, l); } }
@at after let backward_edges
let ghost bw = backward_edges.all();
proof { assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.in_pred(*vid)) && l.len() == bw.len() && backwards(l, bw) implies bw_ways(g, *vid, bw) && bw.len() <= n by { lemma_bw(g, *vid, l, bw); lemma_few_in(g, *vid, l); } }
@closure 3 bool
ensures __r == !verts(p0).contains(*__c3_0.0)
@at before loop 2
let ghost w = weight(b, (n - p0.len()) as nat);
proof {
    lemma_ways(g, p0, fw, bw, __all2);
    assert(0 * w == 0) by (nonlinear_arith);
}
@loop 2
invariant *self.graph == g, self.current_flow@ == m, self.target == t, path.path@ == p0, self.wf(), ways(g, p0, __all2), __all2.len() <= b,
    went(p0, __it2.done(), rest, aviews(self.queue.items())),
    load(b, n + 1, aviews(self.queue.items())) == load(b, n + 1, rest) + __it2.done().len() * w,
@at loop 2 begin
let ghost q1 = aviews(self.queue.items());
let ghost x2 = __all2[__it2.pos() - 1];
proof {
    assert(way(g, p0, (*x2.0, x2.1)));
    lemma_apath_short(g, p0, (*x2.0, x2.1));
    lemma_apath_push(g, p0, (*x2.0, x2.1));
}
@at loop 2 end
proof {
    let q2 = aviews(self.queue.items());
    let y = p0.push((*x2.0, x2.1));
    assert(q2 =~= q1.push(y));
    lemma_load_push(b, n + 1, q1, y);
    let d = __it2.done();
    assert(d.len() * w == d.drop_last().len() * w + w) by (nonlinear_arith) requires d.len() == d.drop_last().len() + 1;
    lemma_went(p0, d.drop_last(), x2, rest, q1, q2);
    assert(d =~= d.drop_last().push(x2));
}
@at after loop 2
let ghost q2 = aviews(self.queue.items());
let ghost l2 = __all2;
proof {
    let k = __all2.len();
    if k > 0 {
        assert(way(g, p0, (*__all2[0].0, __all2[0].1)));
        lemma_apath_short(g, p0, (*__all2[0].0, __all2[0].1));
        assert(k * w <= b * w) by (nonlinear_arith) requires k <= b;
        assert(one_load(b, n + 1, p0) == 1 + b * w);
    }
    assert(load(b, n + 1, q2) < load(b, n + 1, qh));
    assert forall|s: VertexId| #[trigger] old(self).ready(s) && !aug(g, m, s, t, p0) implies self.ready(s) by { lemma_searching(g, m, s, t, qh, __all2, q2); }
    assert forall|s: VertexId| #[trigger] old(self).ready(s) implies p0[0].0 == s by { assert(qh[0][0] == (s, Direction::Forward)); }
}
@at loop 1 end
proof { qh = aviews(self.queue.items()); }
@fn update_flow
requires path.path@.len() > 0, verts(path.path@).no_duplicates(), on_map(old(current_flow)@, path.path@), has_room(old(current_flow)@, path.path@, delta as int), within(old(current_flow)@),
ensures more(old(current_flow)@, path.path@, path.path@.len() - 1, delta as int, final(current_flow)@),
@at entry
let ghost m0 = current_flow@;
let ghost z = path.path@;
let ghost d = delta as int;
@loop 1
invariant m0 == old(current_flow)@, z == path.path@, d == delta, z.len() > 0, verts(z).no_duplicates(), on_map(m0, z), has_room(m0, z, d), within(m0),
    steps_of(__all1, z),
    more(m0, z, __it1.pos(), d, current_flow@),
@at loop 1 begin
let ghost k = __it1.pos() - 1;
let ghost m1 = current_flow@;
proof {
    assert(__all1[k] == (Edge(z[k].0, z[k + 1].0), z[k + 1].1));
    let e = arc_edge(z, k);
    assert(m0.contains_key(e) && d <= arc_room(m0, z, k));
    assert(m1.contains_key(e));
    assert(m1[e] == m0[e]);
}
@at loop 1 end
proof {
    let e = arc_edge(z, k);
    assert(current_flow@ =~= m1.insert(e, (pushed_more(m0, z, k, d), m0[e].1)));
    lemma_more(m0, z, k, d, m1, current_flow@);
}
@fn residual_capacity
requires path.path@.len() > 1, on_map(current_flow@, path.path@), within(current_flow@),
ensures has_room(current_flow@, path.path@, r as int), exists|i: int| 0 <= i < path.path@.len() - 1 && r == #[trigger] arc_room(current_flow@, path.path@, i),
@closure 1 u64
requires current_flow@.contains_key(used(__c1_0.0.0, (__c1_0.0.1, __c1_0.1)))
ensures __r == room(current_flow@, __c1_0.0.0, (__c1_0.0.1, __c1_0.1))
@at entry
proof { assert forall|i: int| 0 <= i < path.path@.len() - 1 implies current_flow@.contains_key(used(path.path@[i].0, #[trigger] path.path@[i + 1])) by { assert(current_flow@.contains_key(arc_edge(path.path@, i))); } }
proof {
    let m = current_flow@;
    let z = path.path@;
    assert forall|l: Seq<(Edge, Direction)>| #[trigger] steps_of(l, z) implies forall|i: int| #![trigger l[i]] #![trigger arc_room(m, z, i)] 0 <= i < z.len() - 1 ==> arc_room(m, z, i) == room(m, l[i].0.0, (l[i].0.1, l[i].1)) by { }
}
@fn edge_residual_capacity
requires current_flow@.contains_key(used(edge.0, (edge.1, *direction))), within(current_flow@),
ensures r == room(current_flow@, edge.0, (edge.1, *direction)),
