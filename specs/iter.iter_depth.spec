@source core/src/iter/iter_depth.rs
@broadcast lean
@items
impl<'a> DepthFirstIter<'a> {
    /// out has been yielded by an iteration from s
    pub open spec fn after(&self, s: VertexId, out: Seq<VertexId>) -> bool { explored(*self.graph, s, out, self.stack.items(), self.visited@) }
}
@fn DepthFirstIter::next
requires old(self).graph.wf(),
ensures final(self).graph == old(self).graph,
    forall|s: VertexId, out: Seq<VertexId>| #[trigger] old(self).after(s, out) ==> match r {
        Some(v) => final(self).after(s, out.push(v)) && visit(*old(self).graph, s, out.push(v)),
        None => final(self).after(s, out) && full_visit(*old(self).graph, s, out),
    },
    r is None ==> final(self).stack.items().len() == 0,
@at entry
let ghost g = *self.graph;
let ghost q0 = self.stack.items();
let ghost vis = self.visited@;
@at before loop 1
let ghost rest = self.stack.items();
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(vid)) && ends_of(__all1, l) implies targets(g, vid, __all1) by { lemma_targets(g, vid, l, __all1); }
    assert(targets(g, vid, __all1));
    assert(rest.take(rest.len() as int) =~= rest);
    assert(rest.skip(rest.len() as int) =~= Seq::<VertexId>::empty());
}
@loop 1
invariant targets(g, vid, __all1), *self.graph == g, self.graph == old(self).graph,
    found(g, vid, vis, __it1.done(), rest, self.stack.items(), self.visited@),
@at loop 1 begin
let ghost q1 = self.stack.items();
let ghost v1 = self.visited@;
@at loop 1 end
proof { lemma_found(g, vid, vis, __it1.done().drop_last(), *v, rest, q1, v1, self.stack.items(), self.visited@); }
@at exit
proof {
    let q2 = self.stack.items();
    assert forall|s: VertexId, out: Seq<VertexId>| #[trigger] old(self).after(s, out) implies match ret_ {
        Some(v) => self.after(s, out.push(v)) && visit(g, s, out.push(v)),
        None => self.after(s, out) && full_visit(g, s, out),
    } by {
        match ret_ {
            Some(v) => {
                let new = q2.skip(q0.len() - 1);
                assert(q2 =~= q0.drop_last() + new);
                assert(q0 =~= q0.drop_last().push(v));
                lemma_explored_step(g, s, out, q0, vis, v, q0.drop_last(), new, self.visited@);
                lemma_explored_end(g, s, out.push(v), q2, self.visited@);
            }
            None => { lemma_explored_end(g, s, out, q0, vis); }
        }
    }
}
@fn dfs_iter
requires graph.wf(),
ensures *r.graph == *graph, graph.vset().len() == 0 ==> r.stack.items().len() == 0,
    graph.vset().len() > 0 ==> exists|v: VertexId| graph.has_vertex(v) && #[trigger] r.after(v, Seq::<VertexId>::empty()),
@fn dfs_iter_from
ensures *r.graph == *graph, r.after(start_vertex, Seq::<VertexId>::empty()),
@at exit
proof {
    lemma_start(*graph, start_vertex);
    assert(ret_.stack.items() =~= seq![start_vertex]);
    assert(ret_.visited@ =~= set![start_vertex]);
}
@fn empty_dfs_iter
ensures *r.graph == *graph, r.stack.items() == Seq::<VertexId>::empty(), r.visited@ == Set::<VertexId>::empty(),
@items
impl<'a> DepthFirstPathIter<'a> {
    pub open spec fn wf(&self) -> bool { self.graph.wf() && forall|i: int| 0 <= i < self.stack.items().len() ==> (#[trigger] self.stack.items()[i]).vertices@.len() > 0 && self.stack.items()[i].vertices@.no_duplicates() }
    pub open spec fn after(&self, s: VertexId, out: Seq<Seq<VertexId>>) -> bool { paths_inv(*self.graph, s, out, views(self.stack.items())) }
    /// an iteration over the paths from s has just begun
    pub open spec fn begins(&self, s: VertexId) -> bool { self.after(s, Seq::<Seq<VertexId>>::empty()) }
    /// all that next() yields until it answers None, in this order (what Iterator's own adapters consume)
    pub fn drain_(self) -> (r: It<Path>)
        requires self.wf(), exists|s: VertexId| #[trigger] self.begins(s),
        ensures r.pos() == 0, forall|s: VertexId| #[trigger] self.begins(s) ==> full_path_visit(*self.graph, s, views(r.all())),
    {
        let mut it = self;
        let mut out: Vec<Path> = Vec::new();
        let ghost g = *self.graph;
        let ghost s0 = choose|s: VertexId| #[trigger] self.begins(s);
        let ghost b = Set::<Seq<VertexId>>::empty();
        proof { b = lemma_finite_paths(g, s0); assert(views(out@) =~= Seq::<Seq<VertexId>>::empty()); }
        loop
            invariant_except_break it.wf(), *it.graph == g, forall|s: VertexId| #[trigger] self.begins(s) ==> it.after(s, views(out@)),
            invariant self.begins(s0), forall|p: Seq<VertexId>| spath(g, s0, p) ==> #[trigger] b.contains(p), g == *self.graph,
            ensures forall|s: VertexId| #[trigger] self.begins(s) ==> full_path_visit(g, s, views(out@)),
            decreases b.len() - out@.len(),
        {
            match it.next() {
                Some(p) => {
                    proof {
                        lemma_views_push(out@, p);
                        lemma_few_paths(g, s0, views(out@).push(p.vertices@), b);
                    }
                    out.push(p);
                }
                None => { break; }
            }
        }
        It::from_vec(out)
    }
}
@fn DepthFirstPathIter::next
requires old(self).wf(),
ensures final(self).wf(), final(self).graph == old(self).graph,
    forall|s: VertexId, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(s, out) ==> match r {
        Some(p) => final(self).after(s, out.push(p.vertices@)) && path_visit(*old(self).graph, s, out.push(p.vertices@)),
        None => final(self).after(s, out) && full_path_visit(*old(self).graph, s, out),
    },
@at entry
let ghost g = *self.graph;
let ghost q0 = views(self.stack.items());
@at before loop 1
let ghost rest = views(self.stack.items());
let ghost p0 = path.vertices@;
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*vid)) && ends_of(__all1, l) implies targets(g, *vid, __all1) by { lemma_targets(g, *vid, l, __all1); }
    assert(targets(g, *vid, __all1));
    assert(rest =~= q0.drop_last());
    lemma_extended_start(p0, rest);
}
@loop 1
invariant targets(g, *vid, __all1), *self.graph == g, self.graph == old(self).graph, self.wf(), path.vertices@ == p0, p0.no_duplicates(),
    extended(p0, __it1.done(), rest, views(self.stack.items())),
@at loop 1 begin
let ghost q1 = views(self.stack.items());
proof {
    lemma_next_fresh(__all1, __it1.pos() - 1);
    lemma_push_distinct(p0, *v);
    assert(__it1.done().drop_last() =~= __all1.subrange(0, __it1.pos() - 1));
}
@at loop 1 end
proof {
    let q2 = views(self.stack.items());
    if !p0.contains(*v) { assert(q2 =~= q1.push(p0.push(*v))); } else { assert(q2 =~= q1); }
    lemma_extended_step(p0, __it1.done().drop_last(), rest, q1, *v, q2);
}
@at after loop 1
proof { assert(path_turn(g, p0, rest, views(self.stack.items()))); }
@at exit
proof {
    let q2 = views(self.stack.items());
    assert forall|s: VertexId, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(s, out) implies match ret_ {
        Some(p) => self.after(s, out.push(p.vertices@)) && path_visit(g, s, out.push(p.vertices@)),
        None => self.after(s, out) && full_path_visit(g, s, out),
    } by {
        match ret_ {
            Some(p) => {
                let x = p.vertices@;
                assert(path_turn(g, x, q0.drop_last(), q2));
                let t = choose|t: Seq<&VertexId>| #[trigger] targets(g, x[x.len() - 1], t) && extended(x, t, q0.drop_last(), q2);
                let new = q2.skip(q0.len() - 1);
                assert(q2 =~= q0.drop_last() + new);
                assert(q0 =~= q0.drop_last().push(x));
                lemma_paths_step(g, s, out, q0, x, q0.drop_last(), t, new);
                lemma_paths_end(g, s, out.push(p.vertices@), q2);
            }
            None => { lemma_paths_end(g, s, out, q0); }
        }
    }
}
@fn dfs_iter_path_from
requires graph.wf(),
ensures r.wf(), *r.graph == *graph, r.begins(start_vertex),
@at exit
proof {
    lemma_paths_start(*graph, start_vertex);
    assert(views(ret_.stack.items()) =~= seq![seq![start_vertex]]);
}
@fn empty_dfs_path_iter
ensures *r.graph == *graph, r.stack.items() == Seq::<Path>::empty(),
