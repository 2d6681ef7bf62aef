// Best-first search under constraints: all walks, pruned
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::walk::*;
use crate::dist::*;
use crate::path::*;
use crate::best::*;
use crate::iter::iter_datastructure::*;
use crate::constraint::constraint::{Constraint, in_order};
pub use crate::constraint::constraint::{prolongs, sat};
pub use crate::iter::iter_datastructure::{popped, pushed};
/// a walk from s
pub open spec fn wpath(g: DirectedGraph, s: VertexId, p: Seq<VertexId>) -> bool { is_walk(g, p) && p[0] == s }
pub open spec fn callable_w<F: Fn(&DirectedGraph, &Path) -> i64>(f: F, g: DirectedGraph, s: VertexId) -> bool {
    forall|p: Path| #![trigger call_requires(f, (&g, &p))] #![trigger wpath(g, s, p.vertices@)] wpath(g, s, p.vertices@) ==> call_requires(f, (&g, &p))
}
pub open spec fn scores_w<F: Fn(&DirectedGraph, &Path) -> i64>(f: F, g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int) -> bool {
    forall|p: Path, r: i64| wpath(g, s, p.vertices@) && #[trigger] call_ensures(f, (&g, &p), r) ==> r == sc(p.vertices@)
}
/// the score never shrinks when a path is extended
pub open spec fn growing(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int) -> bool {
    forall|p: Seq<VertexId>| p.len() > 1 && #[trigger] wpath(g, s, p) ==> sc(p.drop_last()) <= sc(p)
}
pub open spec fn all_sat(cs: Seq<Constraint>, z: ScoredPath) -> bool { forall|i: int| 0 <= i < refs(cs).len() ==> sat(*#[trigger] refs(cs)[i], z) }
/// z is a path of the graph from s satisfying all the constraints
pub open spec fn candidate(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, cs: Seq<Constraint>, z: ScoredPath) -> bool {
    wpath(g, s, z.path.vertices@) && z.score == sc(z.path.vertices@) && all_sat(cs, z)
}
pub open spec fn queue_walks(g: DirectedGraph, s: VertexId, q: MinPriorityQueue<ScoredPath>) -> bool {
    forall|x: ScoredPath| #[trigger] q.count(x) > 0 ==> wpath(g, s, x.path.vertices@)
}
pub open spec fn queue_scores(sc: spec_fn(Seq<VertexId>) -> int, q: MinPriorityQueue<ScoredPath>) -> bool {
    forall|x: ScoredPath| #[trigger] q.count(x) > 0 ==> x.score == sc(x.path.vertices@)
}
/// a beginning of z waits
pub open spec fn begun(q: MinPriorityQueue<ScoredPath>, z: ScoredPath) -> bool { exists|y: ScoredPath| #[trigger] q.count(y) > 0 && prolongs(z, y) }
pub open spec fn same_path(x: ScoredPath, z: ScoredPath) -> bool { x.path.vertices@ == z.path.vertices@ && x.score == z.score }
/// z goes on after x, by a vertex not in d
pub open spec fn goes_on(x: ScoredPath, z: ScoredPath, d: Seq<&VertexId>) -> bool {
    let n = x.path.vertices@.len() as int;
    prolongs(z, x) && n < z.path.vertices@.len() && !d.contains(&z.path.vertices@[n])
}
pub proof fn lemma_growing(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, p: Seq<VertexId>, k: int)
    requires growing(g, s, sc), wpath(g, s, p), 1 <= k <= p.len(),
    ensures sc(p.take(k)) <= sc(p), wpath(g, s, p.take(k)),
    decreases p.len(),
{
    lemma_walk_prefix(g, p, k);
    if k == p.len() { assert(p.take(k) =~= p); } else {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        lemma_growing(g, s, sc, q, k);
        assert(q.take(k) =~= p.take(k));
    }
}
/// what a constraint says depends on the vertices and the score
pub proof fn lemma_sat_same(c: Constraint, x: ScoredPath, z: ScoredPath)
    requires same_path(x, z),
    ensures sat(c, x) == sat(c, z),
    decreases c,
{
    assert forall|e: Edge| #[trigger] x.path.has_step(e) == z.path.has_step(e) by { }
    match c {
        Constraint::Or(a, b) => { lemma_sat_same(*a, x, z); lemma_sat_same(*b, x, z); }
        Constraint::Xor(a, b) => { lemma_sat_same(*a, x, z); lemma_sat_same(*b, x, z); }
        Constraint::And(a, b) => { lemma_sat_same(*a, x, z); lemma_sat_same(*b, x, z); }
        Constraint::Not(a) => { lemma_sat_same(*a, x, z); }
        _ => { }
    }
}
pub proof fn lemma_all_sat_same(cs: Seq<Constraint>, x: ScoredPath, z: ScoredPath)
    requires same_path(x, z), all_sat(cs, z),
    ensures all_sat(cs, x),
{
    assert forall|i: int| 0 <= i < refs(cs).len() implies sat(*#[trigger] refs(cs)[i], x) by { lemma_sat_same(*refs(cs)[i], x, z); }
}
/// x leaves the queue: z is x, still waits, or goes on after x
pub proof fn lemma_turn_of(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, cs: Seq<Constraint>, q: MinPriorityQueue<ScoredPath>, x: ScoredPath, q2: MinPriorityQueue<ScoredPath>, z: ScoredPath)
    requires popped(q, x, q2), begun(q, z), candidate(g, s, sc, cs, z), queue_scores(sc, q), forall|y: ScoredPath| #[trigger] q.count(y) > 0 ==> x.score <= y.score,
    ensures x.score <= z.score, same_path(x, z) || begun(q2, z) || goes_on(x, z, Seq::<&VertexId>::empty()),
{
    let y = choose|y: ScoredPath| #[trigger] q.count(y) > 0 && prolongs(z, y);
    if y != x { assert(q2.count(y) > 0); } else {
        let p = x.path.vertices@;
        let r = z.path.vertices@;
        if p.len() == r.len() { assert(r.take(p.len() as int) =~= r); }
    }
}
/// the extension of x by v is considered
pub proof fn lemma_goes_on(g: DirectedGraph, s: VertexId, sc: spec_fn(Seq<VertexId>) -> int, cs: Seq<Constraint>, x: ScoredPath, d: Seq<&VertexId>, v: VertexId, y: ScoredPath, z: ScoredPath)
    requires growing(g, s, sc), candidate(g, s, sc, cs, z), goes_on(x, z, d), x.path.vertices@.len() > 0, y.path.vertices@ == x.path.vertices@.push(v), y.score == sc(y.path.vertices@),
    ensures goes_on(x, z, d.push(&v)) || (prolongs(z, y) && all_sat(cs, z)),
{
    let p = x.path.vertices@;
    let n = p.len() as int;
    let r = z.path.vertices@;
    if r[n] == v {
        assert(r.take(n + 1) =~= p.push(v)) by { assert(p == r.take(n)); }
        lemma_growing(g, s, sc, r, n + 1);
    } else if d.push(&v).contains(&r[n]) {
        let i = choose|i: int| 0 <= i < d.len() + 1 && d.push(&v)[i] == &r[n];
        assert(d[i] == &r[n]);
    }
}
pub proof fn lemma_begun_push(q: MinPriorityQueue<ScoredPath>, y: ScoredPath, q2: MinPriorityQueue<ScoredPath>, z: ScoredPath)
    requires pushed(q, y, q2), begun(q, z) || prolongs(z, y),
    ensures begun(q2, z),
{
    if begun(q, z) { let k = choose|k: ScoredPath| #[trigger] q.count(k) > 0 && prolongs(z, k); assert(q2.count(k) > 0); } else { assert(q2.count(y) > 0); }
}
pub open spec fn rejected<P: Fn(&ScoredPath) -> bool>(f: P, z: ScoredPath) -> bool {
    exists|x: ScoredPath| #[trigger] call_ensures(f, (&x,), false) && same_path(x, z)
}
/// z solves the search
pub open spec fn solution(g: DirectedGraph, s: VertexId, e: VertexId, sc: spec_fn(Seq<VertexId>) -> int, cs: Seq<Constraint>, z: ScoredPath) -> bool {
    candidate(g, s, sc, cs, z) && z.path.vertices@.last() == e
}
pub open spec fn costs_w<G: Fn(&DirectedGraph, &Path) -> i64, H: Fn(&DirectedGraph, &Path) -> i64>(g: &G, h: &H, dg: DirectedGraph, s: VertexId) -> bool {
    forall|p: Path| #![trigger can_add(g, h, dg, p)] #![trigger wpath(dg, s, p.vertices@)] wpath(dg, s, p.vertices@) ==> can_add(g, h, dg, p)
}
