@source core/src/iter/iter_best_constraint.rs
@broadcast lean
@items
impl<'a, F: Fn(&DirectedGraph, &Path) -> i64> ConstrainedBestFirstIter<'a, F> {
    /// a search from s is under way
    pub open spec fn live(&self, s: VertexId) -> bool { callable_w(self.scorefn, *self.graph, s) && queue_walks(*self.graph, s, self.queue) }
    /// ... with the scores sc
    pub open spec fn running(&self, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int) -> bool {
        self.live(s) && scores_w(self.scorefn, *self.graph, s, sc) && queue_scores(sc, self.queue)
    }
    /// the first path yielded by next() that f accepts (Iterator::find); the search may not end
    #[verifier::exec_allows_no_decreases_clause]
    pub fn find<P: Fn(&ScoredPath) -> bool>(self, f: P) -> (r: Option<ScoredPath>)
        requires self.graph.wf(), forall|x: ScoredPath| call_requires(f, (&x,)), exists|s: VertexId| #[trigger] self.live(s),
        ensures r is Some ==> call_ensures(f, (&r->0,), true),
            forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| self.running(s, sc) && #[trigger] growing(*self.graph, s, sc) && r is Some ==> wpath(*self.graph, s, r->0.path.vertices@) && r->0.score == sc(r->0.path.vertices@),
            forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
                self.running(s, sc) && growing(*self.graph, s, sc) && #[trigger] candidate(*self.graph, s, sc, self.constraints@, z) && begun(self.queue, z) ==>
                rejected(f, z) || (r is Some && r->0.score <= z.score),
    {
        let mut it = self;
        let ghost g = *self.graph;
        let ghost s0 = choose|s: VertexId| #[trigger] self.live(s);
        loop
            invariant it.graph.wf(), *it.graph == g, *self.graph == g, it.constraints@ == self.constraints@, self.live(s0),
                forall|x: ScoredPath| call_requires(f, (&x,)),
                forall|s: VertexId| #[trigger] self.live(s) ==> it.live(s),
                forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] self.running(s, sc) ==> it.running(s, sc),
                forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
                    self.running(s, sc) && growing(g, s, sc) && #[trigger] candidate(g, s, sc, self.constraints@, z) && begun(self.queue, z) ==>
                    rejected(f, z) || begun(it.queue, z),
        {
            proof { assert(it.live(s0)); }
            match it.next() {
                Some(x) => {
                    if f(&x) { return Some(x); }
                }
                None => { return None; }
            }
        }
    }
}
@fn ConstrainedBestFirstIter::next
requires old(self).graph.wf(), exists|s: VertexId| #[trigger] old(self).live(s),
ensures final(self).graph == old(self).graph, final(self).constraints == old(self).constraints,
    forall|s: VertexId| #[trigger] old(self).live(s) ==> final(self).live(s),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> final(self).running(s, sc)
        && (r is Some ==> wpath(*old(self).graph, s, r->0.path.vertices@) && r->0.score == sc(r->0.path.vertices@)),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
        old(self).running(s, sc) && growing(*old(self).graph, s, sc) && #[trigger] candidate(*old(self).graph, s, sc, old(self).constraints@, z) && begun(old(self).queue, z)
        ==> r is Some && r->0.score <= z.score && (same_path(r->0, z) || begun(final(self).queue, z)),
@at entry
let ghost g = *self.graph;
let ghost q0 = self.queue;
let ghost cs = self.constraints@;
@at before loop 1
let ghost q1 = self.queue;
let ghost p = weighted_path.path.vertices@;
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*vid)) && ends_of(__all1, l) implies targets(g, *vid, __all1) by { lemma_targets(g, *vid, l, __all1); }
    assert(targets(g, *vid, __all1));
    assert(popped(q0, weighted_path, q1));
    assert forall|s: VertexId| #[trigger] old(self).live(s) implies queue_walks(g, s, q1) && wpath(g, s, p) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies wpath(g, s, y.path.vertices@) by { assert(q0.count(y) > 0); }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) implies queue_scores(sc, q1) by {
        assert forall|y: ScoredPath| #[trigger] q1.count(y) > 0 implies y.score == sc(y.path.vertices@) by { assert(q0.count(y) > 0); }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
        old(self).running(s, sc) && growing(g, s, sc) && #[trigger] candidate(g, s, sc, cs, z) && begun(q0, z)
        implies weighted_path.score <= z.score && (same_path(weighted_path, z) || begun(q1, z) || goes_on(weighted_path, z, Seq::<&VertexId>::empty())) by {
        lemma_turn_of(g, s, sc, cs, q0, weighted_path, q1, z);
    }
}
@loop 1
invariant targets(g, *vid, __all1), *vid == p.last(), *self.graph == g, self.graph == old(self).graph, self.scorefn == old(self).scorefn,
    self.constraints == old(self).constraints, cs == self.constraints@, weighted_path.path.vertices@ == p,
    forall|s: VertexId| #[trigger] old(self).live(s) ==> queue_walks(g, s, self.queue),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) ==> queue_scores(sc, self.queue),
    forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
        old(self).running(s, sc) && growing(g, s, sc) && #[trigger] candidate(g, s, sc, cs, z) && begun(q0, z)
        ==> same_path(weighted_path, z) || begun(self.queue, z) || goes_on(weighted_path, z, __it1.done()),
@at loop 1 begin
let ghost qb = self.queue;
proof {
    assert(__it1.done().contains(v)) by { assert(__it1.done()[__it1.pos() - 1] == v); }
    assert(g.has_edge(Edge(*vid, *v)));
    assert forall|s: VertexId| #[trigger] old(self).live(s) implies wpath(g, s, p.push(*v)) by { lemma_walk_push(g, p, *v); }
}
@at after let new_scored_path
let ghost y = new_scored_path;
@at loop 1 end
proof {
    let d = __it1.done().drop_last();
    let q2 = self.queue;
    assert(q2 == qb || pushed(qb, y, q2));
    assert forall|s: VertexId| #[trigger] old(self).live(s) implies queue_walks(g, s, q2) by {
        assert forall|z: ScoredPath| #[trigger] q2.count(z) > 0 implies wpath(g, s, z.path.vertices@) by { if z != y { assert(qb.count(z) > 0); } }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int| #[trigger] old(self).running(s, sc) implies queue_scores(sc, q2) by {
        assert forall|z: ScoredPath| #[trigger] q2.count(z) > 0 implies z.score == sc(z.path.vertices@) by { if z != y { assert(qb.count(z) > 0); } }
    }
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
        old(self).running(s, sc) && growing(g, s, sc) && #[trigger] candidate(g, s, sc, cs, z) && begun(q0, z)
        implies same_path(weighted_path, z) || begun(q2, z) || goes_on(weighted_path, z, __it1.done()) by {
        if begun(qb, z) { if q2 != qb { lemma_begun_push(qb, y, q2, z); } }
        else if goes_on(weighted_path, z, d) {
            assert(old(self).live(s));
            lemma_goes_on(g, s, sc, cs, weighted_path, d, *v, y, z);
            assert(__it1.done() =~= d.push(v));
            if prolongs(z, y) { lemma_begun_push(qb, y, q2, z); }
        }
    }
}
@at after loop 1
proof {
    assert forall|s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath|
        old(self).running(s, sc) && growing(g, s, sc) && #[trigger] candidate(g, s, sc, cs, z) && begun(q0, z)
        implies same_path(weighted_path, z) || begun(self.queue, z) by {
        if goes_on(weighted_path, z, __all1) { let n = p.len() as int; assert(step(z.path.vertices@, n - 1) == Edge(*vid, z.path.vertices@[n])); assert(g.has_edge(step(z.path.vertices@, n - 1))); }
    }
}
@fn check_all_partial_constraints
ensures !r ==> forall|q: ScoredPath| #[trigger] prolongs(q, *sp) ==> !all_sat(constraints@, q),
@closure 1 bool
ensures !__r ==> forall|q: ScoredPath| #[trigger] prolongs(q, *sp) ==> !sat(*c, q)
@fn constrained_best_iter_from
requires graph.wf(), callable_w(scorefn, *graph, start_vertex),
ensures *r.graph == *graph, r.constraints@ == constraints@, r.live(start_vertex),
    forall|sc: spec_fn(Seq<VertexId>) -> int| scores_w(scorefn, *graph, start_vertex, sc) ==> #[trigger] r.running(start_vertex, sc),
    forall|sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath| scores_w(scorefn, *graph, start_vertex, sc) && growing(*graph, start_vertex, sc) && #[trigger] candidate(*graph, start_vertex, sc, constraints@, z) ==> begun(r.queue, z),
@at exit
proof {
    let g = *graph;
    assert forall|q: MinPriorityQueue<ScoredPath>, x: ScoredPath| #[trigger] pushed(q, x, ret_.queue) implies ret_.queue.count(x) > 0 by { assert(ret_.queue.count(x) == q.count(x) + 1); }
    assert forall|sc: spec_fn(Seq<VertexId>) -> int, z: ScoredPath| scores_w(scorefn, g, start_vertex, sc) && growing(g, start_vertex, sc) && #[trigger] candidate(g, start_vertex, sc, constraints@, z) implies begun(ret_.queue, z) by {
        assert(ret_.running(start_vertex, sc));
        lemma_growing(g, start_vertex, sc, z.path.vertices@, 1);
        let x = choose|x: ScoredPath| #[trigger] ret_.queue.count(x) > 0 && x.path.vertices@.len() == 1;
        assert(z.path.vertices@.take(1) =~= x.path.vertices@);
        assert(prolongs(z, x));
    }
}
@fn empty_constrained_best_iter
ensures *r.graph == *graph, r.scorefn == scorefn, r.constraints == constraints, forall|x: ScoredPath| #[trigger] r.queue.count(x) == 0,
