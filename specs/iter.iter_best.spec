@source core/src/iter/iter_best.rs
@broadcast lean
@items
impl<'a, F: Fn(&DirectedGraph, &Path) -> i64> BestFirstIter<'a, F> {
    /// a search from s is under way
    pub open spec fn live(&self, s: VertexId) -> bool { callable(self.scorefn, *self.graph, s) && all_paths(*self.graph, s, self.visited@, self.queue) }
    /// ... with the scores sc
    pub open spec fn running(&self, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int) -> bool {
        self.live(s) && score_is(self.scorefn, *self.graph, s, sc) && all_wait(*self.graph, s, sc, self.visited@, self.queue)
    }
    /// ... and nothing better has been missed so far
    pub open spec fn ahead(&self, s: VertexId, w: spec_fn(Edge) -> int) -> bool { frontier(*self.graph, w, s, self.visited@, self.queue) }
    /// the first path yielded by next() that f accepts (Iterator::find)
    pub fn find<P: Fn(&ScoredPath) -> bool>(self, f: P) -> (r: Option<ScoredPath>)
        requires self.graph.wf(), self.visited@ == Set::<VertexId>::empty(), forall|x: ScoredPath| call_requires(f, (&x,)),
            exists|s: VertexId| #[trigger] self.live(s),
        ensures r is Some ==> call_ensures(f, (&r->0,), true),
            forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int|
                self.running(s, sc) && self.ahead(s, w) && #[trigger] additive(*self.graph, s, sc, w, c) ==> match r {
                Some(x) => shortest_of(*self.graph, s, sc, w, x),
                None => forall|v: VertexId| #[trigger] reachable(*self.graph, s, v) ==> refused(f, v),
            },
    {
        let mut it = self;
        let ghost g = *self.graph;
        let ghost s0 = choose|s: VertexId| #[trigger] self.live(s);
        loop
            invariant it.graph.wf(), *it.graph == g, *self.graph == g, it.graph == self.graph, it.visited@.subset_of(g.vset().insert(s0)), self.live(s0),
                forall|x: ScoredPath| call_requires(f, (&x,)),
                forall|s: VertexId| #[trigger] self.live(s) ==> it.live(s),
                forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] self.running(s, sc) ==> it.running(s, sc),
                forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int|
                    #[trigger] self.running(s, sc) && #[trigger] self.ahead(s, w) && #[trigger] additive(g, s, sc, w, c) ==> it.ahead(s, w),
                forall|v: VertexId| #[trigger] it.visited@.contains(v) ==> refused(f, v),
            decreases g.vset().insert(s0).len() - it.visited@.len(),
        {
            let ghost vis = it.visited@;
            proof { assert(it.live(s0)); }
            match it.next() {
                Some(x) => {
                    proof {
                        assert(it.live(s0));
                        let p = x.path.vertices@;
                        lemma_end_in(g, s0, p);
                        vstd::set_lib::lemma_len_subset(it.visited@, g.vset().insert(s0));
                        assert(it.visited@.len() == vis.len() + 1);
                    }
                    if f(&x) { return Some(x); }
                    proof {
                        assert forall|v: VertexId| #[trigger] it.visited@.contains(v) implies refused(f, v) by { if v == x.path.vertices@.last() { } else { assert(vis.contains(v)); } }
                    }
                }
                None => { return None; }
            }
        }
    }
}
@fn BestFirstIter::next
requires old(self).graph.wf(), exists|s: VertexId| #[trigger] old(self).live(s),
ensures final(self).graph == old(self).graph, final(self).scorefn == old(self).scorefn,
    forall|s: VertexId| #[trigger] old(self).live(s) ==> final(self).live(s),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> final(self).running(s, sc),
    match r {
        Some(x) => x.path.vertices@.len() > 0 && (forall|s: VertexId| #[trigger] old(self).live(s) ==> spath(*old(self).graph, s, x.path.vertices@)) && !old(self).visited@.contains(x.path.vertices@.last()) && final(self).visited@ == old(self).visited@.insert(x.path.vertices@.last()),
        None => final(self).visited@ == old(self).visited@,
    },
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int|
        #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(*old(self).graph, s, sc, w, c) ==> match r {
        Some(x) => final(self).ahead(s, w) && shortest_of(*old(self).graph, s, sc, w, x),
        None => forall|v: VertexId| #[trigger] reachable(*old(self).graph, s, v) ==> old(self).visited@.contains(v),
    },
@at entry
let ghost g = *self.graph;
let ghost vis = self.visited@;
let ghost mut qh = self.queue;
@loop 1
invariant qh == self.queue, *self.graph == g, self.graph == old(self).graph, self.scorefn == old(self).scorefn, self.visited@ == vis,
    forall|s: VertexId| #[trigger] old(self).live(s) ==> all_paths(g, s, vis, self.queue),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> all_wait(g, s, sc, vis, self.queue),
    forall|s: VertexId, w: spec_fn(Edge) -> int| #[trigger] old(self).ahead(s, w) ==> frontier(g, w, s, vis, self.queue),
decreases self.queue.size()
@at loop 1 begin
let ghost q0 = qh;
let ghost q1 = self.queue;
let ghost p = weighted_path.path.vertices@;
proof {
    qh = self.queue;
    assert(popped(q0, weighted_path, q1));
    let s0 = choose|s: VertexId| #[trigger] old(self).live(s);
    assert(waiting(g, s0, vis, p));
    assert forall|s: VertexId| #[trigger] old(self).live(s) implies all_paths(g, s, vis, q1) && waiting(g, s, vis, p) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies waiting(g, s, vis, y.path.vertices@) by { assert(q0.count(y) > 0); }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) implies all_wait(g, s, sc, vis, q1) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies waits(g, s, sc, vis, y) by { assert(q0.count(y) > 0); }
    }
    if vis.contains(p.last()) {
        assert forall|s: VertexId, w: spec_fn(Edge) -> int| #[trigger] old(self).ahead(s, w) implies frontier(g, w, s, vis, q1) by { lemma_skip(g, s, w, vis, q0, weighted_path, q1); }
    } else {
        assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
            implies shortest_of(g, s, sc, w, weighted_path) && settled_at(g, w, s, p.last()) == wsum(w, p) && frontier_but(g, w, s, vis.insert(p.last()), q1, p.last(), Seq::<&VertexId>::empty()) by {
            lemma_settle(g, s, sc, w, c, vis, q0, weighted_path, q1);
        }
    }
}
@at before loop 2
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*vid)) && ends_of(__all2, l) implies targets(g, *vid, __all2) by { lemma_targets(g, *vid, l, __all2); }
    assert(targets(g, *vid, __all2));
    assert forall|s: VertexId| #[trigger] old(self).live(s) implies all_paths(g, s, vis.insert(p.last()), q1) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies waiting(g, s, vis.insert(p.last()), y.path.vertices@) by { assert(waiting(g, s, vis, y.path.vertices@)); }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) implies all_wait(g, s, sc, vis.insert(p.last()), q1) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies waits(g, s, sc, vis.insert(p.last()), y) by { assert(waits(g, s, sc, vis, y)); }
    }
}
@loop 2
invariant targets(g, *vid, __all2), *vid == p.last(), *self.graph == g, self.graph == old(self).graph, self.scorefn == old(self).scorefn,
    self.visited@ == vis.insert(p.last()), weighted_path.path.vertices@ == p,
    forall|s: VertexId| #[trigger] old(self).live(s) ==> all_paths(g, s, vis.insert(p.last()), self.queue),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> all_wait(g, s, sc, vis.insert(p.last()), self.queue),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
        ==> frontier_but(g, w, s, vis.insert(p.last()), self.queue, p.last(), __it2.done()),
@at loop 2 begin
let ghost qb = self.queue;
proof {
    assert(__it2.done().contains(v)) by { assert(__it2.done()[__it2.pos() - 1] == v); }
    assert(g.has_edge(Edge(*vid, *v)));
    if !vis.insert(p.last()).contains(*v) {
        assert forall|s: VertexId| #[trigger] old(self).live(s) implies waiting(g, s, vis.insert(p.last()), p.push(*v)) by {
            assert(waiting(g, s, vis, p));
            lemma_wait_push(g, s, vis.insert(p.last()), p, *v);
        }
    }
}
@at loop 2 end
proof {
    let vis2 = vis.insert(p.last());
    assert forall|y: ScoredPath| !vis2.contains(*v) && #[trigger] pushed(qb, y, self.queue) && y.path.vertices@ == p.push(*v) && (forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> y.score == sc(p.push(*v)))
        implies (forall|s: VertexId| #[trigger] old(self).live(s) ==> all_paths(g, s, vis2, self.queue))
            && (forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> all_wait(g, s, sc, vis2, self.queue))
            && (forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c) ==> frontier_but(g, w, s, vis2, self.queue, p.last(), __it2.done())) by {
        assert forall|s: VertexId| #[trigger] old(self).live(s) implies all_paths(g, s, vis2, self.queue) by {
            assert forall|z: ScoredPath| #[trigger] self.queue.count(z) > 0 implies waiting(g, s, vis2, z.path.vertices@) by { if z != y { assert(qb.count(z) > 0); } }
        }
        assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) implies all_wait(g, s, sc, vis2, self.queue) by {
            assert forall|z: ScoredPath| #[trigger] self.queue.count(z) > 0 implies waits(g, s, sc, vis2, z) by { if z != y { assert(qb.count(z) > 0); } }
        }
        assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
            implies frontier_but(g, w, s, vis2, self.queue, p.last(), __it2.done()) by { lemma_offer_step(g, w, s, vis2, qb, p, __it2.done().drop_last(), *v, y, self.queue); }
    }
    if vis2.contains(*v) {
        assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
            implies frontier_but(g, w, s, vis2, self.queue, p.last(), __it2.done()) by { lemma_offer_step(g, w, s, vis2, qb, p, __it2.done().drop_last(), *v, weighted_path, self.queue); }
    }
}
@at after loop 2
proof {
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
        implies frontier(g, w, s, self.visited@, self.queue) by { lemma_offers_done(g, w, s, self.visited@, self.queue, p.last(), __all2); }
}
@at after loop 1
proof {
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int| #[trigger] old(self).running(s, sc) && #[trigger] old(self).ahead(s, w) && #[trigger] additive(g, s, sc, w, c)
        implies forall|v: VertexId| #[trigger] reachable(g, s, v) ==> vis.contains(v) by { lemma_over(g, w, s, vis, self.queue); }
}
@fn best_iter_from
requires graph.wf(), callable(scorefn, *graph, start_vertex),
ensures *r.graph == *graph, r.scorefn == scorefn, r.visited@ == Set::<VertexId>::empty(),
    r.live(start_vertex),
    forall|sc: spec_fn(Seq<VertexId>) -> int| score_is(scorefn, *graph, start_vertex, sc) ==> #[trigger] r.running(start_vertex, sc),
    forall|w: spec_fn(Edge) -> int| #[trigger] r.ahead(start_vertex, w),
@at exit
proof {
    assert forall|q: MinPriorityQueue<ScoredPath>, x: ScoredPath| #[trigger] pushed(q, x, ret_.queue) implies ret_.queue.count(x) > 0 by { assert(ret_.queue.count(x) == q.count(x) + 1); }
}
@fn empty_best_iter
ensures *r.graph == *graph, r.scorefn == scorefn, r.visited@ == Set::<VertexId>::empty(), forall|x: ScoredPath| #[trigger] r.queue.count(x) == 0,
