// Weights of walks, shortest distances, relaxation
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::walk::*;
use crate::path::*;
pub open spec fn from_to(g: DirectedGraph, s: VertexId, v: VertexId, p: Seq<VertexId>) -> bool {
    is_walk(g, p) && p[0] == s && p[p.len() - 1] == v
}
pub open spec fn reachable(g: DirectedGraph, s: VertexId, v: VertexId) -> bool { exists|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) }
/// the total weight of a walk
pub open spec fn wsum(w: spec_fn(Edge) -> int, p: Seq<VertexId>) -> int
    decreases p.len(),
{
    if p.len() <= 1 { 0 } else { wsum(w, p.drop_last()) + w(step(p, p.len() - 2)) }
}
/// a closed walk c of negative weight, and a walk p from s to it
pub open spec fn is_neg_cycle(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, p: Seq<VertexId>, c: Seq<VertexId>) -> bool {
    is_cycle(g, c) && from_to(g, s, c[0], p) && wsum(w, c) < 0
}
pub open spec fn neg_cycle(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId) -> bool {
    exists|p: Seq<VertexId>, c: Seq<VertexId>| #[trigger] is_neg_cycle(g, w, s, p, c)
}
/// the entry of v is an existing path from s to v, with its own weight as its score
pub open spec fn entry_ok(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, x: ScoredPath) -> bool {
    from_to(g, s, v, x.path.vertices@) && x.score == wsum(w, x.path.vertices@)
}
pub open spec fn entries_ok(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>) -> bool {
    &&& m.contains_key(s)
    &&& m[s].score <= 0
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) ==> entry_ok(g, w, s, v, m[v])
}
/// exactly the reachable vertices, each with an existing path of least weight
pub open spec fn exact(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>) -> bool {
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) <==> reachable(g, s, v)
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) ==> entry_ok(g, w, s, v, m[v])
    &&& forall|v: VertexId, p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) ==> m[v].score <= wsum(w, p)
}
/// x is a path of least weight from s to v
pub open spec fn shortest_entry(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, x: ScoredPath) -> bool {
    entry_ok(g, w, s, v, x) && forall|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) ==> x.score <= wsum(w, p)
}
pub open spec fn longest_entry(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, x: ScoredPath) -> bool {
    entry_ok(g, w, s, v, x) && forall|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) ==> x.score >= wsum(w, p)
}
pub open spec fn relaxed(w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, e: Edge) -> bool {
    m.contains_key(e.0) ==> m.contains_key(e.1) && m[e.1].score <= m[e.0].score + w(e)
}
/// m knows a path at least as good as the walk p
pub open spec fn covers(w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, p: Seq<VertexId>) -> bool {
    m.contains_key(p[p.len() - 1]) && m[p[p.len() - 1]].score <= wsum(w, p)
}
pub proof fn lemma_walk_prefix(g: DirectedGraph, p: Seq<VertexId>, k: int)
    requires is_walk(g, p), 1 <= k <= p.len(),
    ensures is_walk(g, p.take(k)),
{
    let q = p.take(k);
    assert forall|i: int| 0 <= i < q.len() - 1 implies g.has_edge(#[trigger] step(q, i)) by { assert(g.has_edge(step(p, i))); }
}
pub proof fn lemma_walk_suffix(g: DirectedGraph, p: Seq<VertexId>, k: int)
    requires is_walk(g, p), 0 <= k < p.len(),
    ensures is_walk(g, p.skip(k)),
{
    let q = p.skip(k);
    assert forall|i: int| 0 <= i < q.len() - 1 implies g.has_edge(#[trigger] step(q, i)) by { assert(g.has_edge(step(p, i + k))); }
}
pub proof fn lemma_walk_push(g: DirectedGraph, p: Seq<VertexId>, v: VertexId)
    requires is_walk(g, p), g.has_edge(Edge(p[p.len() - 1], v)),
    ensures is_walk(g, p.push(v)),
{
    let q = p.push(v);
    assert forall|i: int| 0 <= i < q.len() - 1 implies g.has_edge(#[trigger] step(q, i)) by { if i < p.len() - 1 { assert(g.has_edge(step(p, i))); } }
}
pub proof fn lemma_wsum_push(w: spec_fn(Edge) -> int, p: Seq<VertexId>, v: VertexId)
    requires p.len() > 0,
    ensures wsum(w, p.push(v)) == wsum(w, p) + w(Edge(p[p.len() - 1], v)),
{
    assert(p.push(v).drop_last() =~= p);
}
/// cutting a walk in two at position k
pub proof fn lemma_wsum_split(w: spec_fn(Edge) -> int, p: Seq<VertexId>, k: int)
    requires 0 <= k < p.len(),
    ensures wsum(w, p) == wsum(w, p.take(k + 1)) + wsum(w, p.skip(k)),
    decreases p.len(),
{
    if k == p.len() - 1 {
        assert(p.take(k + 1) =~= p);
    } else {
        let q = p.drop_last();
        lemma_wsum_split(w, q, k);
        assert(q.take(k + 1) =~= p.take(k + 1));
        assert(q.skip(k) =~= p.skip(k).drop_last());
        assert(step(p.skip(k), p.skip(k).len() - 2) == step(p, p.len() - 2));
    }
}
pub proof fn lemma_walk_join(g: DirectedGraph, p: Seq<VertexId>, q: Seq<VertexId>)
    requires is_walk(g, p), is_walk(g, q), p[p.len() - 1] == q[0],
    ensures is_walk(g, p + q.skip(1)), (p + q.skip(1))[0] == p[0],
        (p + q.skip(1))[p.len() + q.len() - 2] == q[q.len() - 1], (p + q.skip(1)).len() == p.len() + q.len() - 1,
{
    let r = p + q.skip(1);
    assert forall|i: int| 0 <= i < r.len() - 1 implies g.has_edge(#[trigger] step(r, i)) by {
        if i < p.len() - 1 { assert(g.has_edge(step(p, i))); assert(step(r, i) == step(p, i)); }
        else { assert(g.has_edge(step(q, i - (p.len() - 1)))); assert(step(r, i) == step(q, i - (p.len() - 1))); }
    }
}
pub proof fn lemma_wsum_join(w: spec_fn(Edge) -> int, p: Seq<VertexId>, q: Seq<VertexId>)
    requires p.len() > 0, q.len() > 0, p[p.len() - 1] == q[0],
    ensures wsum(w, p + q.skip(1)) == wsum(w, p) + wsum(w, q),
{
    let r = p + q.skip(1);
    lemma_wsum_split(w, r, p.len() - 1);
    assert(r.take(p.len() as int) =~= p);
    assert(r.skip(p.len() - 1) =~= q);
}
/// from any walk, a walk without repetition and not heavier, or a negative cycle
pub proof fn lemma_simple(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, p: Seq<VertexId>) -> (q: Seq<VertexId>)
    requires from_to(g, s, v, p), !neg_cycle(g, w, s),
    ensures from_to(g, s, v, q), q.no_duplicates(), wsum(w, q) <= wsum(w, p),
    decreases p.len(),
{
    if p.no_duplicates() { p } else {
        let (i, j) = lemma_dup(p);
        let a = p.take(i + 1);
        let c = p.subrange(i, j + 1);
        let b = p.skip(j);
        lemma_walk_prefix(g, p, i + 1);
        lemma_walk_suffix(g, p, j);
        lemma_walk_suffix(g, p, i);
        lemma_walk_prefix(g, p.skip(i), j + 1 - i);
        assert(p.skip(i).take(j + 1 - i) =~= c);
        lemma_wsum_split(w, p, i);
        lemma_wsum_split(w, p.skip(i), j - i);
        assert(p.skip(i).skip(j - i) =~= b);
        lemma_walk_join(g, a, b);
        lemma_wsum_join(w, a, b);
        assert(is_cycle(g, c));
        if wsum(w, c) < 0 { assert(is_neg_cycle(g, w, s, a, c)); }
        let r = a + b.skip(1);
        lemma_simple(g, w, s, v, r)
    }
}
pub proof fn lemma_dup(p: Seq<VertexId>) -> (r: (int, int))
    requires !p.no_duplicates(),
    ensures 0 <= r.0 < r.1 < p.len(), p[r.0] == p[r.1],
{
    let (i, j) = choose|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j && p[i] == p[j];
    if i < j { (i, j) } else { (j, i) }
}
/// a walk without repetition has at most as many vertices as the graph (a single vertex may be outside of it)
pub proof fn lemma_simple_len(g: DirectedGraph, p: Seq<VertexId>)
    requires g.wf(), is_walk(g, p), p.no_duplicates(),
    ensures p.len() <= 1 || p.len() <= g.vset().len(),
{
    if p.len() > 1 {
        assert forall|v: VertexId| p.to_set().contains(v) implies g.vset().contains(v) by {
            let i = choose|i: int| 0 <= i < p.len() && p[i] == v;
            if i > 0 { assert(g.has_edge(step(p, i - 1))); } else { assert(g.has_edge(step(p, 0))); }
        }
        p.unique_seq_to_set();
        vstd::set_lib::lemma_len_subset(p.to_set(), g.vset());
    }
}
/// all edges relaxed: every walk from s is covered
pub proof fn lemma_relaxed_covers(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, p: Seq<VertexId>)
    requires entries_ok(g, w, s, m), forall|e: Edge| #[trigger] g.has_edge(e) ==> relaxed(w, m, e), is_walk(g, p), p[0] == s,
    ensures covers(w, m, p),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        lemma_relaxed_covers(g, w, s, m, q);
        let e = step(p, p.len() - 2);
        assert(g.has_edge(e));
        assert(relaxed(w, m, e));
    }
}
/// ... and along any walk starting at a known vertex the score grows at most by its weight
pub proof fn lemma_relaxed_walk(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, p: Seq<VertexId>)
    requires forall|e: Edge| #[trigger] g.has_edge(e) ==> relaxed(w, m, e), is_walk(g, p), m.contains_key(p[0]),
    ensures m.contains_key(p[p.len() - 1]), m[p[p.len() - 1]].score <= m[p[0]].score + wsum(w, p),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        lemma_relaxed_walk(g, w, s, m, q);
        let e = step(p, p.len() - 2);
        assert(g.has_edge(e));
        assert(relaxed(w, m, e));
    }
}
pub proof fn lemma_relaxed_exact(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>)
    requires entries_ok(g, w, s, m), forall|e: Edge| #[trigger] g.has_edge(e) ==> relaxed(w, m, e),
    ensures exact(g, w, s, m), !neg_cycle(g, w, s),
{
    assert forall|v: VertexId, p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) implies m.contains_key(v) && m[v].score <= wsum(w, p) by { lemma_relaxed_covers(g, w, s, m, p); }
    assert forall|v: VertexId| #[trigger] m.contains_key(v) <==> reachable(g, s, v) by {
        if m.contains_key(v) { assert(from_to(g, s, v, m[v].path.vertices@)); }
    }
    if neg_cycle(g, w, s) {
        let (p, c) = choose|p: Seq<VertexId>, c: Seq<VertexId>| #[trigger] is_neg_cycle(g, w, s, p, c);
        lemma_relaxed_covers(g, w, s, m, p);
        lemma_relaxed_walk(g, w, s, m, c);
    }
}
// ---- costs given by a function of the program
/// what f answers for the edge e
pub open spec fn cost<F: Fn(&Edge) -> i64>(f: F, e: Edge) -> i64 { choose|r: i64| call_ensures(f, (&e,), r) }
/// f may be called on every edge of g and always answers the same
pub open spec fn pure_cost<F: Fn(&Edge) -> i64>(g: DirectedGraph, f: F) -> bool {
    &&& forall|e: Edge| #![trigger call_requires(f, (&e,))] #![trigger g.has_edge(e)] g.has_edge(e) ==> call_requires(f, (&e,))
    &&& forall|e: Edge, r: i64| g.has_edge(e) && #[trigger] call_ensures(f, (&e,), r) ==> r == cost(f, e)
}
pub open spec fn cost_of<F: Fn(&Edge) -> i64>(f: F) -> spec_fn(Edge) -> int { |e: Edge| cost(f, e) as int }
/// all costs lie within -b .. b
pub open spec fn cost_within(g: DirectedGraph, w: spec_fn(Edge) -> int, b: int) -> bool {
    b >= 0 && forall|e: Edge| #[trigger] g.has_edge(e) ==> -b <= w(e) <= b
}
pub proof fn lemma_wsum_bound(g: DirectedGraph, w: spec_fn(Edge) -> int, b: int, p: Seq<VertexId>)
    requires is_walk(g, p), cost_within(g, w, b),
    ensures -(b * (p.len() - 1)) <= wsum(w, p) <= b * (p.len() - 1),
    decreases p.len(),
{
    if p.len() > 1 {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        lemma_wsum_bound(g, w, b, q);
        assert(g.has_edge(step(p, p.len() - 2)));
        assert(b * (p.len() - 1) == b * (q.len() - 1) + b) by (nonlinear_arith) requires p.len() == q.len() + 1;
    }
}
/// the number of edges
pub open spec fn edge_total(g: DirectedGraph) -> int { (choose|l: Seq<Edge>| lists_edges(l, g.edge_pred())).len() as int }
pub proof fn lemma_edge_total(g: DirectedGraph, l: Seq<&Edge>)
    requires lists_edge_refs(l, g.edge_pred()),
    ensures edge_total(g) == l.len(),
{
    lemma_derefs(l, g.edge_pred());
    let c = choose|l: Seq<Edge>| lists_edges(l, g.edge_pred());
    lemma_edges_count(derefs(l), c, g.edge_pred());
}
/// m2 is m after considering the edge e
pub open spec fn relaxing(w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge) -> bool {
    if m.contains_key(e.0) && !(m.contains_key(e.1) && m[e.1].score <= m[e.0].score + w(e)) {
        m2.contains_key(e.1) && m2 == m.insert(e.1, m2[e.1]) && m2[e.1].path.vertices@ == m[e.0].path.vertices@.push(e.1) && m2[e.1].score == m[e.0].score + w(e)
    } else { m2 == m }
}
pub proof fn lemma_relax(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge)
    requires entries_ok(g, w, s, m), g.has_edge(e), relaxing(w, m, m2, e),
    ensures entries_ok(g, w, s, m2),
        forall|v: VertexId| #![trigger m2.contains_key(v)] #![trigger m2[v]] m.contains_key(v) ==> m2.contains_key(v) && m2[v].score <= m[v].score,
        forall|p: Seq<VertexId>| covers(w, m, p) ==> #[trigger] covers(w, m2, p),
        forall|p: Seq<VertexId>| p.len() >= 2 && step(p, p.len() - 2) == e && covers(w, m, p.drop_last()) ==> #[trigger] covers(w, m2, p),
{
    if m.contains_key(e.0) && !(m.contains_key(e.1) && m[e.1].score <= m[e.0].score + w(e)) {
        let q = m[e.0].path.vertices@;
        lemma_walk_push(g, q, e.1);
        lemma_wsum_push(w, q, e.1);
    }
}
/// every walk of at most k edges from s is covered
pub open spec fn covers_upto(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, k: int) -> bool {
    forall|p: Seq<VertexId>| #[trigger] is_walk(g, p) && p[0] == s && p.len() - 1 <= k ==> covers(w, m, p)
}
/// ... and those of one more edge whose last one is in d
pub open spec fn covers_next(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, k: int, d: Seq<&Edge>) -> bool {
    forall|p: Seq<VertexId>| #[trigger] is_walk(g, p) && p[0] == s && 2 <= p.len() && p.len() - 1 <= k + 1 && d.contains(&step(p, p.len() - 2)) ==> covers(w, m, p)
}
pub proof fn lemma_covers_start(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>)
    requires entries_ok(g, w, s, m),
    ensures covers_upto(g, w, s, m, 0),
{ }
pub proof fn lemma_covers_relax(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge, k: int, d: Seq<&Edge>)
    requires entries_ok(g, w, s, m), g.has_edge(e), relaxing(w, m, m2, e), covers_upto(g, w, s, m, k), covers_next(g, w, s, m, k, d),
    ensures covers_upto(g, w, s, m2, k), covers_next(g, w, s, m2, k, d.push(&e)),
{
    lemma_relax(g, w, s, m, m2, e);
    assert forall|p: Seq<VertexId>| #[trigger] is_walk(g, p) && p[0] == s && p.len() - 1 <= k implies covers(w, m2, p) by { assert(covers(w, m, p)); }
    assert forall|p: Seq<VertexId>| #[trigger] is_walk(g, p) && p[0] == s && 2 <= p.len() && p.len() - 1 <= k + 1 && d.push(&e).contains(&step(p, p.len() - 2)) implies covers(w, m2, p) by {
        if step(p, p.len() - 2) == e {
            lemma_walk_prefix(g, p, p.len() - 1);
            assert(p.take(p.len() - 1) =~= p.drop_last());
            assert(covers(w, m, p.drop_last()));
        } else {
            assert(d.contains(&step(p, p.len() - 2)));
            assert(covers(w, m, p));
        }
    }
}
pub proof fn lemma_covers_round(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, k: int, d: Seq<&Edge>)
    requires covers_upto(g, w, s, m, k), covers_next(g, w, s, m, k, d), lists_edge_refs(d, g.edge_pred()), k >= 0,
    ensures covers_upto(g, w, s, m, k + 1),
{
    assert forall|p: Seq<VertexId>| #[trigger] is_walk(g, p) && p[0] == s && p.len() - 1 <= k + 1 implies covers(w, m, p) by {
        if p.len() - 1 == k + 1 {
            let e = step(p, p.len() - 2);
            assert(g.edge_pred()(e));
            assert(d.contains(&e));
        }
    }
}
/// all walks without repetition are covered, and yet an edge is not relaxed: a negative cycle
pub proof fn lemma_detect(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, e: Edge, k: int)
    requires g.wf(), entries_ok(g, w, s, m), covers_upto(g, w, s, m, k), k >= g.vset().len() - 1, k >= 0, g.has_edge(e), !relaxed(w, m, e),
    ensures neg_cycle(g, w, s),
{
    if !neg_cycle(g, w, s) {
        let q = m[e.0].path.vertices@;
        let p = q.push(e.1);
        lemma_walk_push(g, q, e.1);
        lemma_wsum_push(w, q, e.1);
        let r = lemma_simple(g, w, s, e.1, p);
        lemma_simple_len(g, r);
        assert(covers(w, m, r));
    }
}
/// no walk is longer than k edges
pub open spec fn paths_upto(m: Map<VertexId, ScoredPath>, k: int) -> bool {
    forall|v: VertexId| #[trigger] m.contains_key(v) ==> m[v].path.vertices@.len() - 1 <= k
}
pub open spec fn fits(g: DirectedGraph, w: spec_fn(Edge) -> int, k: int) -> bool { exists|b: int| #[trigger] cost_within(g, w, b) && b * k < i64::MAX }
/// a score of a path of fewer than k edges, plus one edge, stays within 64 bits
pub proof fn lemma_fits(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, e: Edge, j: int, k: int)
    requires fits(g, w, k), entries_ok(g, w, s, m), paths_upto(m, j), j < k, g.has_edge(e), m.contains_key(e.0),
    ensures i64::MIN < m[e.0].score + w(e) < i64::MAX,
{
    let b = choose|b: int| #[trigger] cost_within(g, w, b) && b * k < i64::MAX;
    let p = m[e.0].path.vertices@;
    lemma_wsum_bound(g, w, b, p);
    assert(b * (p.len() - 1) + b <= b * k) by (nonlinear_arith) requires b >= 0, p.len() - 1 < k;
}
// ---- a work list: every edge is relaxed, or its source is still waiting
pub open spec fn pending(g: DirectedGraph, w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, q: Seq<VertexId>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) ==> relaxed(w, m, e) || q.contains(e.0)
}
/// ... or is an edge out of v that is not yet in d
pub open spec fn pending_but(g: DirectedGraph, w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, q: Seq<VertexId>, v: VertexId, d: Seq<&Edge>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) ==> relaxed(w, m, e) || q.contains(e.0) || (e.0 == v && !d.contains(&e))
}
/// known vertices belong to the graph (or are s), no score exceeds b for each vertex known besides s
pub open spec fn low(g: DirectedGraph, s: VertexId, m: Map<VertexId, ScoredPath>, b: int) -> bool {
    &&& m.dom().subset_of(g.vset().insert(s))
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) ==> m[v].score <= b * (m.dom().len() - 1)
}
pub open spec fn bound_of(g: DirectedGraph, w: spec_fn(Edge) -> int, k: int) -> int { choose|b: int| #[trigger] cost_within(g, w, b) && b * k < i64::MAX }
pub proof fn lemma_low_bounds(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, b: int, v: VertexId)
    requires g.wf(), entries_ok(g, w, s, m), low(g, s, m, b), cost_within(g, w, b), !neg_cycle(g, w, s), m.contains_key(v),
    ensures -(b * g.vset().len()) <= m[v].score <= b * g.vset().len(),
{
    let n = g.vset().len() as int;
    vstd::set_lib::lemma_len_subset(m.dom(), g.vset().insert(s));
    assert(m.dom().len() - 1 <= n);
    assert(b * (m.dom().len() - 1) <= b * n) by (nonlinear_arith) requires b >= 0, m.dom().len() - 1 <= n;
    let p = m[v].path.vertices@;
    let q = lemma_simple(g, w, s, v, p);
    lemma_simple_len(g, q);
    lemma_wsum_bound(g, w, b, q);
    assert(b * (q.len() - 1) <= b * n) by (nonlinear_arith) requires b >= 0, q.len() - 1 <= n;
}
pub proof fn lemma_low_relax(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge, b: int)
    requires g.wf(), entries_ok(g, w, s, m), low(g, s, m, b), cost_within(g, w, b), g.has_edge(e), relaxing(w, m, m2, e),
    ensures low(g, s, m2, b),
{
    if m2 != m {
        assert(g.has_vertex(e.1));
        if m.contains_key(e.1) {
            assert(m2.dom() =~= m.dom());
        } else {
            assert(m2.dom() =~= m.dom().insert(e.1));
            let l = m.dom().len();
            assert(b * (l + 1 - 1) == b * (l - 1) + b) by (nonlinear_arith);
        }
    }
}
/// how far the known scores are from the least possible ones
pub open spec fn slack(o: Seq<VertexId>, m: Map<VertexId, ScoredPath>, c: int) -> int
    decreases o.len(),
{
    if o.len() == 0 { 0 } else {
        slack(o.drop_last(), m, c) + (if m.contains_key(o.last()) { m[o.last()].score + c } else { 2 * c + 1 })
    }
}
pub proof fn lemma_slack_pos(o: Seq<VertexId>, m: Map<VertexId, ScoredPath>, c: int)
    requires c >= 0, forall|v: VertexId| #[trigger] m.contains_key(v) ==> -c <= m[v].score,
    ensures slack(o, m, c) >= 0,
    decreases o.len(),
{
    if o.len() > 0 { lemma_slack_pos(o.drop_last(), m, c); }
}
/// one entry appears or gets better
pub proof fn lemma_slack_less(o: Seq<VertexId>, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, v: VertexId, c: int)
    requires m2.contains_key(v), m2 == m.insert(v, m2[v]), m2[v].score <= c, m.contains_key(v) ==> m2[v].score < m[v].score,
    ensures slack(o, m2, c) <= slack(o, m, c), o.contains(v) ==> slack(o, m2, c) < slack(o, m, c),
    decreases o.len(),
{
    if o.len() > 0 {
        lemma_slack_less(o.drop_last(), m, m2, v, c);
        if o.contains(v) && o.last() != v {
            let i = choose|i: int| 0 <= i < o.len() && o[i] == v;
            assert(o.drop_last()[i] == v);
        }
    }
}
pub proof fn lemma_list_set(s: Set<VertexId>) -> (o: Seq<VertexId>)
    ensures forall|v: VertexId| #[trigger] o.contains(v) <==> s.contains(v),
    decreases s.len(),
{
    if s.len() == 0 {
        assert forall|v: VertexId| !#[trigger] s.contains(v) by { if s.contains(v) { assert(s.len() >= s.remove(v).len() + 1); } }
        Seq::empty()
    } else {
        let x = s.choose();
        let o = lemma_list_set(s.remove(x));
        let r = o.push(x);
        assert forall|v: VertexId| #[trigger] r.contains(v) <==> s.contains(v) by {
            if s.contains(v) {
                if v == x { assert(r[o.len() as int] == x); } else { assert(o.contains(v)); let i = choose|i: int| 0 <= i < o.len() && o[i] == v; assert(r[i] == v); }
            }
            if r.contains(v) { let i = choose|i: int| 0 <= i < r.len() && r[i] == v; if i < o.len() { assert(o[i] == v); assert(o.contains(v)); } }
        }
        r
    }
}
/// what one step of the work list changes: e is considered, its destination waits if its entry changed
pub open spec fn queued(w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge, q: Seq<VertexId>, q2: Seq<VertexId>) -> bool {
    relaxing(w, m, m2, e) && (if relaxed(w, m, e) { q2 == q } else { q2 == q.push(e.1) })
}
pub proof fn lemma_pending_step(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, e: Edge, q: Seq<VertexId>, q2: Seq<VertexId>, v: VertexId, d: Seq<&Edge>)
    requires entries_ok(g, w, s, m), g.has_edge(e), queued(w, m, m2, e, q, q2), pending_but(g, w, m, q, v, d), e.0 == v,
    ensures pending_but(g, w, m2, q2, v, d.push(&e)),
{
    let d2 = d.push(&e);
    if !relaxed(w, m, e) { assert(q2[q.len() as int] == e.1); }
    assert forall|f: Edge| #[trigger] g.has_edge(f) implies relaxed(w, m2, f) || q2.contains(f.0) || (f.0 == v && !d2.contains(&f)) by {
        if q.contains(f.0) {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == f.0;
            assert(q2[i] == f.0);
        } else if f.0 == e.1 && !relaxed(w, m, e) { assert(q2.contains(f.0)); }
        else if f == e { assert(relaxed(w, m2, f)); }
        else if relaxed(w, m, f) { assert(relaxed(w, m2, f)); }
        else {
            assert(f.0 == v && !d.contains(&f));
            if d2.contains(&f) { let i = choose|i: int| 0 <= i < d2.len() && d2[i] == &f; assert(i < d.len()); assert(d[i] == &f); }
        }
    }
}

// ---- acyclic graphs
pub proof fn lemma_acyclic_simple(g: DirectedGraph, p: Seq<VertexId>)
    requires acyclic(g), is_walk(g, p),
    ensures p.no_duplicates(),
{
    if !p.no_duplicates() {
        let (i, j) = lemma_dup(p);
        let c = p.subrange(i, j + 1);
        lemma_walk_suffix(g, p, i);
        lemma_walk_prefix(g, p.skip(i), j + 1 - i);
        assert(p.skip(i).take(j + 1 - i) =~= c);
        assert(is_cycle(g, c));
    }
}
/// scores in an acyclic graph are small
pub proof fn lemma_acyclic_bound(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, v: VertexId, x: ScoredPath, b: int)
    requires g.wf(), acyclic(g), entry_ok(g, w, s, v, x), cost_within(g, w, b),
    ensures -(b * g.vset().len()) <= x.score <= b * g.vset().len(),
{
    let p = x.path.vertices@;
    lemma_acyclic_simple(g, p);
    lemma_simple_len(g, p);
    lemma_wsum_bound(g, w, b, p);
    let n = g.vset().len() as int;
    assert(b * (p.len() - 1) <= b * n) by (nonlinear_arith) requires b >= 0, p.len() - 1 <= n;
}
/// the edges leaving the vertices of d are relaxed
pub open spec fn settled(g: DirectedGraph, w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, d: Seq<&VertexId>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) && d.contains(&e.0) ==> relaxed(w, m, e)
}
/// ... but those leaving v only when in t
pub open spec fn settled_but(g: DirectedGraph, w: spec_fn(Edge) -> int, m: Map<VertexId, ScoredPath>, d: Seq<&VertexId>, v: VertexId, t: Seq<&Edge>) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) && d.contains(&e.0) && (e.0 == v ==> t.contains(&e)) ==> relaxed(w, m, e)
}
/// a is a tail of a topological order
pub open spec fn is_tail(g: DirectedGraph, a: Seq<&VertexId>) -> bool {
    &&& a.no_duplicates()
    &&& forall|i: int, e: Edge| 0 <= i < a.len() && #[trigger] g.has_edge(e) && #[trigger] a[i] == &e.0 ==> a.skip(i + 1).contains(&e.1)
}
pub proof fn lemma_tail(g: DirectedGraph, o: Seq<VertexId>, a: Seq<&VertexId>, k: int)
    requires g.wf(), is_topo(g, o), 0 <= k <= o.len(), a == refs(o).subrange(k, o.len() as int),
    ensures is_tail(g, a),
{
    assert forall|i: int, e: Edge| 0 <= i < a.len() && #[trigger] g.has_edge(e) && #[trigger] a[i] == &e.0 implies a.skip(i + 1).contains(&e.1) by {
        assert(o.contains(e.1));
        let j = choose|j: int| 0 <= j < o.len() && o[j] == e.1;
        assert(e == Edge(o[i + k], o[j]));
        assert(g.has_edge(Edge(o[i + k], o[j])));
        assert(a.skip(i + 1)[j - k - i - 1] == &e.1);
    }
}
pub proof fn lemma_settled_step(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>, a: Seq<&VertexId>, k: int, e: Edge, t: Seq<&Edge>)
    requires g.wf(), is_tail(g, a), 0 <= k < a.len(), a[k] == &e.0, g.has_edge(e), relaxing(w, m, m2, e), entries_ok(g, w, s, m),
        settled_but(g, w, m, a.subrange(0, k + 1), e.0, t), forall|v: VertexId| #[trigger] m.contains_key(v) ==> v == s || a.contains(&v),
    ensures settled_but(g, w, m2, a.subrange(0, k + 1), e.0, t.push(&e)), forall|v: VertexId| #[trigger] m2.contains_key(v) ==> v == s || a.contains(&v),
{
    let d = a.subrange(0, k + 1);
    let u = a.skip(k + 1);
    assert(u.contains(&e.1));
    let j = choose|j: int| 0 <= j < u.len() && u[j] == &e.1;
    assert(a[j + k + 1] == &e.1);
    if d.contains(&e.1) { let i = choose|i: int| 0 <= i < d.len() && d[i] == &e.1; assert(a[i] == &e.1); }
    let t2 = t.push(&e);
    assert forall|f: Edge| #[trigger] g.has_edge(f) && d.contains(&f.0) && (f.0 == e.0 ==> t2.contains(&f)) implies relaxed(w, m2, f) by {
        if f != e && t2.contains(&f) { let i = choose|i: int| 0 <= i < t2.len() && t2[i] == &f; assert(i < t.len()); assert(t[i] == &f); assert(t.contains(&f)); }
        if f != e { assert(relaxed(w, m, f)); }
        assert(f.0 != e.1);
    }
}
/// exactly the reachable vertices, each with an existing path of greatest weight
pub open spec fn exact_longest(g: DirectedGraph, w: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>) -> bool {
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) <==> reachable(g, s, v)
    &&& forall|v: VertexId| #[trigger] m.contains_key(v) ==> entry_ok(g, w, s, v, m[v])
    &&& forall|v: VertexId, p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) ==> m[v].score >= wsum(w, p)
}
pub open spec fn opposite(g: DirectedGraph, w: spec_fn(Edge) -> int, u: spec_fn(Edge) -> int) -> bool {
    forall|e: Edge| #[trigger] g.has_edge(e) ==> u(e) == -w(e)
}
pub proof fn lemma_wsum_opposite(g: DirectedGraph, w: spec_fn(Edge) -> int, u: spec_fn(Edge) -> int, p: Seq<VertexId>)
    requires opposite(g, w, u), is_walk(g, p),
    ensures wsum(u, p) == -wsum(w, p),
    decreases p.len(),
{
    if p.len() > 1 {
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= p.drop_last());
        lemma_wsum_opposite(g, w, u, p.drop_last());
        assert(g.has_edge(step(p, p.len() - 2)));
    }
}
/// m2 is m with all scores negated
pub open spec fn negated(m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>) -> bool {
    m2.dom() == m.dom() && forall|v: VertexId| #![trigger m2[v]] #![trigger m[v]] m.contains_key(v) ==> m2[v].path == m[v].path && m2[v].score == -m[v].score
}
pub proof fn lemma_longest(g: DirectedGraph, w: spec_fn(Edge) -> int, u: spec_fn(Edge) -> int, s: VertexId, m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>)
    requires opposite(g, w, u), exact(g, u, s, m), negated(m, m2),
    ensures exact_longest(g, w, s, m2),
{
    assert forall|v: VertexId| #[trigger] m2.contains_key(v) <==> reachable(g, s, v) by { assert(m2.contains_key(v) <==> m.contains_key(v)); }
    assert forall|v: VertexId| #[trigger] m2.contains_key(v) implies entry_ok(g, w, s, v, m2[v]) by {
        assert(m.contains_key(v));
        lemma_wsum_opposite(g, w, u, m[v].path.vertices@);
    }
    assert forall|v: VertexId, p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) implies m2[v].score >= wsum(w, p) by {
        lemma_wsum_opposite(g, w, u, p);
        assert(reachable(g, s, v));
        assert(m.contains_key(v));
    }
}

pub open spec fn can_negate<F: Fn(&Edge) -> i64>(f: &F, e: Edge) -> bool {
    call_requires(*f, (&e,)) && forall|c: i64| #[trigger] call_ensures(*f, (&e,), c) ==> c > i64::MIN
}
pub open spec fn negates<F: Fn(&Edge) -> i64>(f: &F, e: Edge, r: i64) -> bool {
    exists|c: i64| #[trigger] call_ensures(*f, (&e,), c) && r == -c
}
/// ASSUMED: an allowed call of a cost function returns (no divergence)
#[verifier::external_body]
pub proof fn lemma_has_answer<F: Fn(&Edge) -> i64>(f: &F, e: Edge)
    requires call_requires(*f, (&e,)),
    ensures exists|r: i64| #[trigger] call_ensures(*f, (&e,), r),
{ }
