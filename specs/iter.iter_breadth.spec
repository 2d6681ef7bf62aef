@source core/src/iter/iter_breadth.rs
@broadcast lean
@items
impl<'a> BreadthFirstIter<'a> {
    /// out has been yielded by an iteration from s
    pub open spec fn after(&self, s: VertexId, out: Seq<VertexId>) -> bool { bfs_inv(*self.graph, s, out, self.queue.items(), self.visited@) }
}
@fn BreadthFirstIter::next
requires old(self).graph.wf(),
ensures final(self).graph == old(self).graph,
    forall|s: VertexId, out: Seq<VertexId>| #[trigger] old(self).after(s, out) ==> match r {
        Some(v) => final(self).after(s, out.push(v)) && visit(*old(self).graph, s, out.push(v)) && by_distance(*old(self).graph, s, out.push(v)),
        None => final(self).after(s, out) && full_visit(*old(self).graph, s, out) && by_distance(*old(self).graph, s, out),
    },
    r is None ==> final(self).queue.items().len() == 0,
@at entry
let ghost g = *self.graph;
let ghost q0 = self.queue.items();
let ghost vis = self.visited@;
@at before loop 1
let ghost rest = self.queue.items();
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(vid)) && ends_of(__all1, l) implies targets(g, vid, __all1) by { lemma_targets(g, vid, l, __all1); }
    assert(targets(g, vid, __all1));
    assert(rest.take(rest.len() as int) =~= rest);
    assert(rest.skip(rest.len() as int) =~= Seq::<VertexId>::empty());
}
@loop 1
invariant targets(g, vid, __all1), *self.graph == g, self.graph == old(self).graph,
    found(g, vid, vis, __it1.done(), rest, self.queue.items(), self.visited@),
@at loop 1 begin
let ghost q1 = self.queue.items();
let ghost v1 = self.visited@;
@at loop 1 end
proof { lemma_found(g, vid, vis, __it1.done().drop_last(), *v, rest, q1, v1, self.queue.items(), self.visited@); }
@at exit
proof {
    let q2 = self.queue.items();
    assert forall|s: VertexId, out: Seq<VertexId>| #[trigger] old(self).after(s, out) implies match ret_ {
        Some(v) => self.after(s, out.push(v)) && visit(g, s, out.push(v)) && by_distance(g, s, out.push(v)),
        None => self.after(s, out) && full_visit(g, s, out) && by_distance(g, s, out),
    } by {
        match ret_ {
            Some(v) => {
                let new = q2.skip(q0.len() - 1);
                assert(q2 =~= q0.drop_first() + new);
                lemma_bfs_step(g, s, out, q0, vis, new, self.visited@);
                lemma_explored_end(g, s, out.push(v), q2, self.visited@);
                lemma_by_distance_prefix(g, s, out.push(v), q2);
            }
            None => { lemma_explored_end(g, s, out, q0, vis); lemma_by_distance_prefix(g, s, out, q0); }
        }
    }
}
@fn bfs_iter
requires graph.wf(),
ensures *r.graph == *graph, graph.vset().len() == 0 ==> r.queue.items().len() == 0,
    graph.vset().len() > 0 ==> exists|v: VertexId| graph.has_vertex(v) && #[trigger] r.after(v, Seq::<VertexId>::empty()),
@fn bfs_iter_from
ensures *r.graph == *graph, r.after(start_vertex, Seq::<VertexId>::empty()),
@at exit
proof {
    lemma_start(*graph, start_vertex);
    assert(ret_.queue.items() =~= seq![start_vertex]);
    assert(ret_.visited@ =~= set![start_vertex]);
}
@fn empty_bfs_iter
ensures *r.graph == *graph, r.queue.items() == Seq::<VertexId>::empty(), r.visited@ == Set::<VertexId>::empty(),
@items
impl<'a> BreadthFirstPathIter<'a> {
    pub open spec fn wf(&self) -> bool { self.graph.wf() && forall|i: int| 0 <= i < self.queue.items().len() ==> (#[trigger] self.queue.items()[i]).vertices@.len() > 0 && self.queue.items()[i].vertices@.no_duplicates() }
    pub open spec fn after(&self, s: VertexId, out: Seq<Seq<VertexId>>) -> bool { bfs_paths_inv(*self.graph, s, out, views(self.queue.items())) }
}
@fn BreadthFirstPathIter::next
requires old(self).wf(),
ensures final(self).wf(), final(self).graph == old(self).graph,
    forall|s: VertexId, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(s, out) ==> match r {
        Some(p) => final(self).after(s, out.push(p.vertices@)) && path_visit(*old(self).graph, s, out.push(p.vertices@)) && by_length(out.push(p.vertices@)),
        None => final(self).after(s, out) && full_path_visit(*old(self).graph, s, out) && by_length(out),
    },
@at entry
let ghost g = *self.graph;
let ghost q0 = views(self.queue.items());
@at before loop 1
let ghost rest = views(self.queue.items());
let ghost p0 = path.vertices@;
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*vid)) && ends_of(__all1, l) implies targets(g, *vid, __all1) by { lemma_targets(g, *vid, l, __all1); }
    assert(targets(g, *vid, __all1));
    assert(rest =~= q0.drop_first());
    lemma_extended_start(p0, rest);
}
@loop 1
invariant targets(g, *vid, __all1), *self.graph == g, self.graph == old(self).graph, self.wf(), path.vertices@ == p0, p0.no_duplicates(),
    extended(p0, __it1.done(), rest, views(self.queue.items())),
@at loop 1 begin
let ghost q1 = views(self.queue.items());
proof {
    lemma_next_fresh(__all1, __it1.pos() - 1);
    lemma_push_distinct(p0, *v);
    assert(__it1.done().drop_last() =~= __all1.subrange(0, __it1.pos() - 1));
}
@at loop 1 end
proof {
    let q2 = views(self.queue.items());
    if !p0.contains(*v) { assert(q2 =~= q1.push(p0.push(*v))); } else { assert(q2 =~= q1); }
    lemma_extended_step(p0, __it1.done().drop_last(), rest, q1, *v, q2);
}
@at after loop 1
proof { assert(path_turn(g, p0, rest, views(self.queue.items()))); }
@at exit
proof {
    let q2 = views(self.queue.items());
    assert forall|s: VertexId, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(s, out) implies match ret_ {
        Some(p) => self.after(s, out.push(p.vertices@)) && path_visit(g, s, out.push(p.vertices@)) && by_length(out.push(p.vertices@)),
        None => self.after(s, out) && full_path_visit(g, s, out) && by_length(out),
    } by {
        match ret_ {
            Some(p) => {
                let x = p.vertices@;
                assert(path_turn(g, x, q0.drop_first(), q2));
                let t = choose|t: Seq<&VertexId>| #[trigger] targets(g, x[x.len() - 1], t) && extended(x, t, q0.drop_first(), q2);
                let new = q2.skip(q0.len() - 1);
                assert(q2 =~= q0.drop_first() + new);
                lemma_bfs_paths_step(g, s, out, q0, t, new);
                lemma_paths_end(g, s, out.push(p.vertices@), q2);
            }
            None => { lemma_paths_end(g, s, out, q0); }
        }
    }
}
@fn bfs_path_iter_from
requires graph.wf(),
ensures r.wf(), *r.graph == *graph, r.after(start_vertex, Seq::<Seq<VertexId>>::empty()),
@at exit
proof {
    lemma_paths_start(*graph, start_vertex);
    assert(views(ret_.queue.items()) =~= seq![seq![start_vertex]]);
}
@fn empty_bfs_path_iter
ensures *r.graph == *graph, r.queue.items() == Seq::<Path>::empty(),
