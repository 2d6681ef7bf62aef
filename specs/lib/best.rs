// Best-first search: scores of paths, the queue of waiting paths, settled vertices
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::walk::*;
use crate::dist::*;
use crate::traverse::*;
use crate::path::*;
use crate::iter::iter_datastructure::*;
pub use crate::iter::iter_datastructure::{popped, pushed};
/// f may be called on every path without repetition from s
pub open spec fn callable<F: Fn(&DirectedGraph, &Path) -> i64>(f: F, g: DirectedGraph, s: VertexId) -> bool {
    forall|p: Path| #![trigger call_requires(f, (&g, &p))] #![trigger spath(g, s, p.vertices@)] spath(g, s, p.vertices@) ==> call_requires(f, (&g, &p))
}
/// ... and answers the score sc for it (which depends on the vertices of the path only)
pub open spec fn score_is<F: Fn(&DirectedGraph, &Path) -> i64>(f: F, g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int) -> bool {
    forall|p: Path, r: i64| spath(g, s, p.vertices@) && #[trigger] call_ensures(f, (&g, &p), r) ==> r == sc(p.vertices@)
}
/// scores are sums of non-negative edge weights, up to a constant
pub open spec fn additive(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int) -> bool {
    &&& forall|e: Edge| #[trigger] g.has_edge(e) ==> w(e) >= 0
    &&& forall|p: Seq<VertexId>| #[trigger] spath(g, s, p) ==> sc(p) == c + wsum(w, p)
}
/// the waiting paths: from s, all their vertices but the last settled
pub open spec fn all_paths(g: DirectedGraph, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>) -> bool {
    forall|x: ScoredPath| #[trigger] q.count(x) > 0 ==> waiting(g, s, vis, x.path.vertices@)
}
pub open spec fn waiting(g: DirectedGraph, s: VertexId, vis: Set<VertexId>, p: Seq<VertexId>) -> bool {
    spath(g, s, p) && forall|i: int| 0 <= i < p.len() - 1 ==> vis.contains(#[trigger] p[i])
}
/// a waiting path: from s, carrying its score, all its vertices but the last settled
pub open spec fn waits(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, vis: Set<VertexId>, x: ScoredPath) -> bool {
    let p = x.path.vertices@;
    waiting(g, s, vis, p) && x.score == sc(p)
}
pub open spec fn all_wait(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>) -> bool {
    forall|x: ScoredPath| #[trigger] q.count(x) > 0 ==> waits(g, s, sc, vis, x)
}
/// a path to v of weight at most k is waiting
pub open spec fn offered(w: spec_fn(Edge) -> int, q: MinPriorityQueue<ScoredPath>, v: VertexId, k: int) -> bool {
    exists|x: ScoredPath| #[trigger] q.count(x) > 0 && x.path.vertices@.last() == v && wsum(w, x.path.vertices@) <= k
}
/// k is the least weight of a walk from s to v
pub open spec fn least(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, k: int) -> bool {
    &&& exists|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) && wsum(w, p) == k
    &&& forall|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) ==> k <= wsum(w, p)
}
pub open spec fn settled_at(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId) -> int { choose|k: int| least(g, w, s, v, k) }
pub open spec fn is_settled(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId) -> bool { least(g, w, s, v, settled_at(g, w, s, v)) }
/// every edge leaving the settled vertices is offered
pub open spec fn frontier(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>) -> bool {
    &&& !vis.contains(s) ==> offered(w, q, s, 0)
    &&& forall|u: VertexId| #[trigger] vis.contains(u) ==> is_settled(g, w, s, u)
    &&& forall|e: Edge| #[trigger] g.has_edge(e) && vis.contains(e.0) && !vis.contains(e.1) ==> offered(w, q, e.1, settled_at(g, w, s, e.0) + w(e))
}
pub open spec fn shortest_of(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, x: ScoredPath) -> bool {
    let p = x.path.vertices@;
    spath(g, s, p) && x.score == sc(p) && least(g, w, s, p.last(), wsum(w, p))
}
pub proof fn lemma_least(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, k: int)
    requires least(g, w, s, v, k),
    ensures is_settled(g, w, s, v), settled_at(g, w, s, v) == k,
{
    let j = settled_at(g, w, s, v);
    assert(least(g, w, s, v, j));
    let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) && wsum(w, p) == k;
    let q = choose|q: Seq<VertexId>| #[trigger] from_to(g, s, v, q) && wsum(w, q) == j;
    assert(k <= wsum(w, q) && j <= wsum(w, p));
}
/// the weight never shrinks along a walk
pub proof fn lemma_grows(g: DirectedGraph, w: spec_fn(Edge) -> int, p: Seq<VertexId>, k: int)
    requires is_walk(g, p), 1 <= k <= p.len(), forall|e: Edge| #[trigger] g.has_edge(e) ==> w(e) >= 0,
    ensures wsum(w, p.take(k)) <= wsum(w, p), 0 <= wsum(w, p),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        assert(g.has_edge(step(p, p.len() - 2)));
        if k < p.len() { lemma_grows(g, w, q, k); assert(q.take(k) =~= p.take(k)); } else { lemma_grows(g, w, q, 1); assert(p.take(k) =~= p); }
    } else { assert(p.take(k) =~= p); }
}
/// a walk from s to a vertex that is not settled crosses the frontier: something at most as heavy is offered
pub proof fn lemma_offer(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, p: Seq<VertexId>) -> (x: ScoredPath)
    requires frontier(g, w, s, vis, q), is_walk(g, p), p[0] == s, !vis.contains(p[p.len() - 1]), forall|e: Edge| #[trigger] g.has_edge(e) ==> w(e) >= 0,
    ensures q.count(x) > 0, wsum(w, x.path.vertices@) <= wsum(w, p),
    decreases p.len(),
{
    lemma_grows(g, w, p, 1);
    if p.len() == 1 {
        choose|x: ScoredPath| #[trigger] q.count(x) > 0 && x.path.vertices@.last() == s && wsum(w, x.path.vertices@) <= 0
    } else {
        let n = p.len() as int;
        let r = p.drop_last();
        lemma_walk_prefix(g, p, n - 1);
        assert(p.take(n - 1) =~= r);
        let e = step(p, n - 2);
        assert(g.has_edge(e));
        if vis.contains(p[n - 2]) {
            assert(from_to(g, s, e.0, r));
            assert(is_settled(g, w, s, e.0));
            assert(offered(w, q, e.1, settled_at(g, w, s, e.0) + w(e)));
            choose|x: ScoredPath| #[trigger] q.count(x) > 0 && x.path.vertices@.last() == e.1 && wsum(w, x.path.vertices@) <= settled_at(g, w, s, e.0) + w(e)
        } else {
            lemma_offer(g, w, s, vis, q, r)
        }
    }
}
/// the waiting path of least score, when its end is not settled, is a shortest one
pub proof fn lemma_best(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, x: ScoredPath)
    requires additive(g, s, sc, w, c), frontier(g, w, s, vis, q), all_wait(g, s, sc, vis, q), q.count(x) > 0,
        forall|y: ScoredPath| #[trigger] q.count(y) > 0 ==> x.score <= y.score, !vis.contains(x.path.vertices@.last()),
    ensures shortest_of(g, s, sc, w, x),
{
    let p = x.path.vertices@;
    assert(waits(g, s, sc, vis, x));
    let v = p.last();
    assert(from_to(g, s, v, p));
    assert forall|r: Seq<VertexId>| #[trigger] from_to(g, s, v, r) implies wsum(w, p) <= wsum(w, r) by {
        let y = lemma_offer(g, w, s, vis, q, r);
        assert(waits(g, s, sc, vis, y));
        assert(sc(y.path.vertices@) == c + wsum(w, y.path.vertices@));
    }
}
/// the end of a popped path is already settled: nothing is lost
pub proof fn lemma_skip(g: DirectedGraph, s: VertexId, w: spec_fn(Edge) -> int, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, x: ScoredPath, q2: MinPriorityQueue<ScoredPath>)
    requires frontier(g, w, s, vis, q), popped(q, x, q2), vis.contains(x.path.vertices@.last()),
    ensures frontier(g, w, s, vis, q2),
{
    assert forall|v: VertexId, k: int| !vis.contains(v) && #[trigger] offered(w, q, v, k) implies offered(w, q2, v, k) by {
        let y = choose|y: ScoredPath| #[trigger] q.count(y) > 0 && y.path.vertices@.last() == v && wsum(w, y.path.vertices@) <= k;
        assert(q2.count(y) > 0);
    }
}
/// ... those of v except towards d
pub open spec fn frontier_but(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, v: VertexId, d: Seq<&VertexId>) -> bool {
    &&& vis.contains(s)
    &&& forall|u: VertexId| #[trigger] vis.contains(u) ==> is_settled(g, w, s, u)
    &&& forall|e: Edge| #[trigger] g.has_edge(e) && vis.contains(e.0) && !vis.contains(e.1) && (e.0 == v ==> d.contains(&e.1)) ==> offered(w, q, e.1, settled_at(g, w, s, e.0) + w(e))
}
/// the popped path settles its end
pub proof fn lemma_settle(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, c: int, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, x: ScoredPath, q2: MinPriorityQueue<ScoredPath>)
    requires additive(g, s, sc, w, c), frontier(g, w, s, vis, q), all_wait(g, s, sc, vis, q), popped(q, x, q2),
        forall|y: ScoredPath| #[trigger] q.count(y) > 0 ==> x.score <= y.score, !vis.contains(x.path.vertices@.last()),
    ensures shortest_of(g, s, sc, w, x), settled_at(g, w, s, x.path.vertices@.last()) == wsum(w, x.path.vertices@),
        frontier_but(g, w, s, vis.insert(x.path.vertices@.last()), q2, x.path.vertices@.last(), Seq::<&VertexId>::empty()),
{
    let p = x.path.vertices@;
    let v = p.last();
    lemma_best(g, s, sc, w, c, vis, q, x);
    lemma_least(g, w, s, v, wsum(w, p));
    let vis2 = vis.insert(v);
    assert(waits(g, s, sc, vis, x));
    assert(vis2.contains(s)) by { if p.len() > 1 { assert(vis.contains(p[0])); } }
    assert forall|u: VertexId| #[trigger] vis2.contains(u) implies is_settled(g, w, s, u) by { if u != v { assert(vis.contains(u)); } }
    assert forall|e: Edge| #[trigger] g.has_edge(e) && vis2.contains(e.0) && !vis2.contains(e.1) && (e.0 == v ==> Seq::<&VertexId>::empty().contains(&e.1)) implies offered(w, q2, e.1, settled_at(g, w, s, e.0) + w(e)) by {
        let k = settled_at(g, w, s, e.0) + w(e);
        assert(vis.contains(e.0));
        assert(offered(w, q, e.1, k));
        let y = choose|y: ScoredPath| #[trigger] q.count(y) > 0 && y.path.vertices@.last() == e.1 && wsum(w, y.path.vertices@) <= k;
        assert(q2.count(y) > 0);
    }
}
/// one edge out of v is handled: its end is settled, or the longer path waits
pub proof fn lemma_offer_step(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, p: Seq<VertexId>, d: Seq<&VertexId>, x: VertexId, y: ScoredPath, q2: MinPriorityQueue<ScoredPath>)
    requires p.len() > 0, frontier_but(g, w, s, vis, q, p.last(), d), settled_at(g, w, s, p.last()) == wsum(w, p),
        vis.contains(x) ==> q2 == q, !vis.contains(x) ==> pushed(q, y, q2) && y.path.vertices@ == p.push(x),
    ensures frontier_but(g, w, s, vis, q2, p.last(), d.push(&x)),
{
    let v = p.last();
    lemma_wsum_push(w, p, x);
    let d2 = d.push(&x);
    assert forall|e: Edge| #[trigger] g.has_edge(e) && vis.contains(e.0) && !vis.contains(e.1) && (e.0 == v ==> d2.contains(&e.1)) implies offered(w, q2, e.1, settled_at(g, w, s, e.0) + w(e)) by {
        let k = settled_at(g, w, s, e.0) + w(e);
        if e.0 == v && e.1 == x {
            assert(q2.count(y) > 0);
            assert(step(p.push(x), p.len() - 1) == e);
        } else {
            if e.0 == v { let i = choose|i: int| 0 <= i < d2.len() && d2[i] == &e.1; assert(d[i] == &e.1); }
            assert(offered(w, q, e.1, k));
            let z = choose|z: ScoredPath| #[trigger] q.count(z) > 0 && z.path.vertices@.last() == e.1 && wsum(w, z.path.vertices@) <= k;
            if !vis.contains(x) { assert(q2.count(z) > 0); }
        }
    }
}
pub proof fn lemma_offers_done(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>, v: VertexId, d: Seq<&VertexId>)
    requires frontier_but(g, w, s, vis, q, v, d), targets(g, v, d),
    ensures frontier(g, w, s, vis, q),
{
    assert forall|e: Edge| #[trigger] g.has_edge(e) && vis.contains(e.0) && !vis.contains(e.1) implies offered(w, q, e.1, settled_at(g, w, s, e.0) + w(e)) by {
        if e.0 == v { assert(g.has_edge(Edge(v, e.1))); assert(d.contains(&e.1)); }
    }
}
/// nothing waits any more: all that can be reached is settled
pub proof fn lemma_over(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, vis: Set<VertexId>, q: MinPriorityQueue<ScoredPath>)
    requires frontier(g, w, s, vis, q), forall|x: ScoredPath| #[trigger] q.count(x) == 0, forall|e: Edge| #[trigger] g.has_edge(e) ==> w(e) >= 0,
    ensures forall|v: VertexId| #[trigger] reachable(g, s, v) ==> vis.contains(v),
{
    assert forall|v: VertexId| #[trigger] reachable(g, s, v) implies vis.contains(v) by {
        let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p);
        if !vis.contains(v) { let x = lemma_offer(g, w, s, vis, q, p); }
    }
}
/// a longer path may wait
pub proof fn lemma_wait_push(g: DirectedGraph, s: VertexId, vis: Set<VertexId>, p: Seq<VertexId>, v: VertexId)
    requires spath(g, s, p), g.has_edge(Edge(p.last(), v)), !vis.contains(v), forall|i: int| 0 <= i < p.len() ==> vis.contains(#[trigger] p[i]),
    ensures waiting(g, s, vis, p.push(v)),
{
    let q = p.push(v);
    assert(p.last() == p[p.len() - 1]);
    lemma_walk_push(g, p, v);
    assert forall|i: int| 0 <= i < q.len() - 1 implies vis.contains(#[trigger] q[i]) by { assert(q[i] == p[i]); }
}
/// some path ending in v was refused by f
pub open spec fn refused<P: Fn(&ScoredPath) -> bool>(f: P, v: VertexId) -> bool {
    exists|x: ScoredPath| #[trigger] call_ensures(f, (&x,), false) && x.path.vertices@.len() > 0 && x.path.vertices@.last() == v
}
pub proof fn lemma_end_in(g: DirectedGraph, s: VertexId, p: Seq<VertexId>)
    requires g.wf(), spath(g, s, p),
    ensures p.last() == s || g.has_vertex(p.last()),
{ if p.len() > 1 { assert(g.has_edge(step(p, p.len() - 2))); } }
// ---- A*: the cost so far plus a heuristic
pub open spec fn total(sg: spec_fn(Seq<VertexId>) -> int, sh: spec_fn(Seq<VertexId>) -> int) -> spec_fn(Seq<VertexId>) -> int { |p: Seq<VertexId>| sg(p) + sh(p) }
/// both functions may be called on p, and the sum of what they answer fits 64 bits
pub open spec fn can_add<G: Fn(&DirectedGraph, &Path) -> i64, H: Fn(&DirectedGraph, &Path) -> i64>(g: &G, h: &H, dg: DirectedGraph, p: Path) -> bool {
    &&& call_requires(*g, (&dg, &p))
    &&& call_requires(*h, (&dg, &p))
    &&& forall|a: i64, b: i64| #[trigger] call_ensures(*g, (&dg, &p), a) && #[trigger] call_ensures(*h, (&dg, &p), b) ==> i64::MIN <= a + b <= i64::MAX
}
pub open spec fn is_sum<G: Fn(&DirectedGraph, &Path) -> i64, H: Fn(&DirectedGraph, &Path) -> i64>(g: &G, h: &H, dg: DirectedGraph, p: Path, r: i64) -> bool {
    exists|a: i64, b: i64| #[trigger] call_ensures(*g, (&dg, &p), a) && #[trigger] call_ensures(*h, (&dg, &p), b) && r == a + b
}
pub open spec fn costs<G: Fn(&DirectedGraph, &Path) -> i64, H: Fn(&DirectedGraph, &Path) -> i64>(g: &G, h: &H, dg: DirectedGraph, s: VertexId) -> bool {
    forall|p: Path| #![trigger can_add(g, h, dg, p)] #![trigger spath(dg, s, p.vertices@)] spath(dg, s, p.vertices@) ==> can_add(g, h, dg, p)
}
/// x is a shortest path from s to v under the scores sc, sums of the weights w
pub open spec fn best_path(g: DirectedGraph, s: VertexId, v: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, x: ScoredPath) -> bool {
    let p = x.path.vertices@;
    from_to(g, s, v, p) && x.score == sc(p) && forall|q: Seq<VertexId>| #[trigger] from_to(g, s, v, q) ==> wsum(w, p) <= wsum(w, q)
}
/// a sum of non-negative edge costs plus a consistent heuristic is additive
pub proof fn lemma_consistent(g: DirectedGraph, s: VertexId, sg: spec_fn(Seq<VertexId>) -> int, sh: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, h: spec_fn(VertexId) -> int, u: spec_fn(Edge) -> int)
    requires forall|p: Seq<VertexId>| #[trigger] spath(g, s, p) ==> sg(p) == wsum(w, p) && sh(p) == h(p.last()),
        forall|e: Edge| #[trigger] g.has_edge(e) ==> u(e) == w(e) + h(e.1) - h(e.0) && h(e.0) <= w(e) + h(e.1),
    ensures additive(g, s, total(sg, sh), u, h(s)),
        forall|p: Seq<VertexId>| is_walk(g, p) ==> #[trigger] wsum(u, p) == wsum(w, p) + h(p.last()) - h(p[0]),
{
    assert forall|p: Seq<VertexId>| is_walk(g, p) implies #[trigger] wsum(u, p) == wsum(w, p) + h(p.last()) - h(p[0]) by { lemma_reduced(g, w, h, u, p); }
    assert forall|p: Seq<VertexId>| #[trigger] spath(g, s, p) implies total(sg, sh)(p) == h(s) + wsum(u, p) by { }
}
pub proof fn lemma_reduced(g: DirectedGraph, w: spec_fn(Edge) -> int, h: spec_fn(VertexId) -> int, u: spec_fn(Edge) -> int, p: Seq<VertexId>)
    requires is_walk(g, p), forall|e: Edge| #[trigger] g.has_edge(e) ==> u(e) == w(e) + h(e.1) - h(e.0),
    ensures wsum(u, p) == wsum(w, p) + h(p.last()) - h(p[0]),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        assert(g.has_edge(step(p, p.len() - 2)));
        lemma_reduced(g, w, h, u, q);
    }
}
/// ... hence the path found is of least cost under the costs themselves
pub proof fn lemma_best_cost(g: DirectedGraph, s: VertexId, v: VertexId, sc: spec_fn(Seq<VertexId>) -> int, w: spec_fn(Edge) -> int, h: spec_fn(VertexId) -> int, u: spec_fn(Edge) -> int, x: ScoredPath)
    requires best_path(g, s, v, sc, u, x), forall|e: Edge| #[trigger] g.has_edge(e) ==> u(e) == w(e) + h(e.1) - h(e.0),
    ensures best_path(g, s, v, sc, w, x),
{
    lemma_reduced(g, w, h, u, x.path.vertices@);
    assert forall|q: Seq<VertexId>| #[trigger] from_to(g, s, v, q) implies wsum(w, x.path.vertices@) <= wsum(w, q) by { lemma_reduced(g, w, h, u, q); }
}
/// one per edge
pub proof fn lemma_unit(w: spec_fn(Edge) -> int, p: Seq<VertexId>)
    requires p.len() > 0, forall|e: Edge| #[trigger] w(e) == 1,
    ensures wsum(w, p) == p.len() - 1,
    decreases p.len(),
{ if p.len() > 1 { lemma_unit(w, p.drop_last()); } }
