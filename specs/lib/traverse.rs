// Exploring a graph: what has been yielded, what is waiting, what is known
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::walk::*;
use crate::dist::*;
pub open spec fn joined<T>(a: Seq<T>, b: Seq<T>) -> Seq<T> { a + b }
/// t lists the destinations of the edges leaving v, each once
pub open spec fn targets(g: DirectedGraph, v: VertexId, t: Seq<&VertexId>) -> bool {
    &&& t.no_duplicates()
    &&& forall|x: VertexId| #[trigger] t.contains(&x) <==> g.has_edge(Edge(v, x))
}
/// the same for a list of edges
pub open spec fn ends_of(t: Seq<&VertexId>, l: Seq<&Edge>) -> bool {
    t.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] t[i] == &l[i].1
}
/// out yielded, work waiting, together the known ones: all reachable, each once, closed under the edges leaving what was yielded
pub open spec fn explored(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, work: Seq<VertexId>, vis: Set<VertexId>) -> bool {
    let l = joined(out, work);
    &&& l.no_duplicates()
    &&& vis.contains(s)
    &&& forall|v: VertexId| #[trigger] l.contains(v) <==> vis.contains(v)
    &&& forall|v: VertexId| #[trigger] vis.contains(v) ==> reachable(g, s, v)
    &&& forall|e: Edge| #[trigger] g.has_edge(e) && out.contains(e.0) ==> vis.contains(e.1)
    &&& out.len() > 0 ==> out[0] == s
    &&& out.len() == 0 ==> work == seq![s]
}
/// x is v's turn: work2 is work without v, and with the unknown destinations of v, which become known
pub open spec fn discovers(g: DirectedGraph, v: VertexId, vis: Set<VertexId>, new: Seq<VertexId>, vis2: Set<VertexId>) -> bool {
    &&& new.no_duplicates()
    &&& forall|x: VertexId| #[trigger] new.contains(x) <==> g.has_edge(Edge(v, x)) && !vis.contains(x)
    &&& forall|x: VertexId| #[trigger] vis2.contains(x) <==> vis.contains(x) || g.has_edge(Edge(v, x))
}
/// s reaches v in at most k steps
pub open spec fn within(g: DirectedGraph, s: VertexId, v: VertexId, k: int) -> bool { exists|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) && p.len() - 1 <= k }
/// by non-decreasing distance from s
pub open spec fn by_distance(g: DirectedGraph, s: VertexId, l: Seq<VertexId>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < j < l.len() && #[trigger] within(g, s, l[j], k) ==> #[trigger] within(g, s, l[i], k)
}
/// the known vertices are at most one step further than the first waiting one
pub open spec fn close(g: DirectedGraph, s: VertexId, l: Seq<VertexId>, v: VertexId) -> bool {
    forall|j: int, k: int| 0 <= j < l.len() && #[trigger] within(g, s, v, k) ==> within(g, s, #[trigger] l[j], k + 1)
}
pub open spec fn bfs_inv(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, q: Seq<VertexId>, vis: Set<VertexId>) -> bool {
    &&& explored(g, s, out, q, vis)
    &&& by_distance(g, s, joined(out, q))
    &&& q.len() > 0 ==> close(g, s, joined(out, q), q[0])
}
/// what may have been yielded so far
pub open spec fn visit(g: DirectedGraph, s: VertexId, out: Seq<VertexId>) -> bool {
    &&& out.no_duplicates()
    &&& out.len() > 0 ==> out[0] == s
    &&& forall|v: VertexId| #[trigger] out.contains(v) ==> reachable(g, s, v)
}
/// ... and in the end
pub open spec fn full_visit(g: DirectedGraph, s: VertexId, out: Seq<VertexId>) -> bool {
    visit(g, s, out) && forall|v: VertexId| #[trigger] reachable(g, s, v) ==> out.contains(v)
}
pub proof fn lemma_within_mono(g: DirectedGraph, s: VertexId, v: VertexId, k: int, j: int)
    requires within(g, s, v, k), k <= j,
    ensures within(g, s, v, j),
{ let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p) && p.len() - 1 <= k; assert(from_to(g, s, v, p)); }
pub proof fn lemma_within_step(g: DirectedGraph, s: VertexId, e: Edge, k: int)
    requires within(g, s, e.0, k), g.has_edge(e),
    ensures within(g, s, e.1, k + 1), reachable(g, s, e.1),
{
    let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, e.0, p) && p.len() - 1 <= k;
    assert(e == Edge(p[p.len() - 1], e.1));
    lemma_walk_push(g, p, e.1);
    assert(from_to(g, s, e.1, p.push(e.1)));
}
pub proof fn lemma_reach_step(g: DirectedGraph, s: VertexId, e: Edge)
    requires reachable(g, s, e.0), g.has_edge(e),
    ensures reachable(g, s, e.1),
{
    let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, e.0, p);
    assert(within(g, s, e.0, p.len() - 1));
    lemma_within_step(g, s, e, p.len() - 1);
}
pub proof fn lemma_contains_join<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures joined(a, b).contains(x) <==> a.contains(x) || b.contains(x),
{
    let l = joined(a, b);
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(l[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(l[a.len() + i] == x); }
    if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
/// a walk from s to an unknown vertex passes through a waiting one before its end
pub proof fn lemma_frontier(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, work: Seq<VertexId>, vis: Set<VertexId>, p: Seq<VertexId>) -> (i: int)
    requires explored(g, s, out, work, vis), is_walk(g, p), p[0] == s, !vis.contains(p[p.len() - 1]),
    ensures 0 <= i < p.len() - 1, work.contains(p[i]),
    decreases p.len(),
{
    let n = p.len() as int;
    assert(n >= 2);
    let y = p[n - 2];
    if vis.contains(y) {
        assert(joined(out, work).contains(y));
        lemma_contains_join(out, work, y);
        assert(g.has_edge(step(p, n - 2)));
        n - 2
    } else {
        lemma_walk_prefix(g, p, n - 1);
        lemma_frontier(g, s, out, work, vis, p.take(n - 1))
    }
}
pub proof fn lemma_explored_end(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, work: Seq<VertexId>, vis: Set<VertexId>)
    requires explored(g, s, out, work, vis),
    ensures visit(g, s, out), work.len() == 0 ==> full_visit(g, s, out),
{
    let l = joined(out, work);
    assert forall|v: VertexId| #[trigger] out.contains(v) implies reachable(g, s, v) by { lemma_contains_join(out, work, v); assert(l.contains(v)); assert(vis.contains(v)); }
    assert forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < out.len() && i != j implies out[i] != out[j] by { assert(l[i] == out[i] && l[j] == out[j]); }
    if work.len() == 0 {
        assert forall|v: VertexId| #[trigger] reachable(g, s, v) implies out.contains(v) by {
            let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, v, p);
            if !vis.contains(v) { let i = lemma_frontier(g, s, out, work, vis, p); }
            assert(l.contains(v));
            lemma_contains_join(out, work, v);
        }
    }
}
/// one turn: v, first or last of work, is yielded, new ones are added
pub proof fn lemma_turn<T>(out: Seq<T>, work: Seq<T>, v: T, rest: Seq<T>, new: Seq<T>)
    requires joined(out, work).no_duplicates(), new.no_duplicates(), work == seq![v] + rest || work == rest.push(v),
        forall|x: T| #[trigger] new.contains(x) ==> !joined(out, work).contains(x),
    ensures joined(out.push(v), rest + new).no_duplicates(), joined(out, work).contains(v), work.contains(v),
        forall|x: T| #[trigger] joined(out.push(v), rest + new).contains(x) <==> joined(out, work).contains(x) || new.contains(x),
{
    let l = joined(out, work);
    let o2 = out.push(v);
    let l2 = joined(o2, rest + new);
    let front = work == seq![v] + rest;
    let k: int = if front { 0 } else { rest.len() as int };
    let n = (o2.len() + rest.len()) as int;
    assert(work[k] == v);
    assert(l[out.len() + k] == v);
    assert forall|i: int| 0 <= i < n implies #[trigger] l2[i] == l[pos_in(out.len() as int, rest.len() as int, front, i)] by { }
    assert forall|i: int| n <= i < l2.len() implies #[trigger] l2[i] == new[i - n] by { }
    assert forall|i: int, j: int| 0 <= i < l2.len() && 0 <= j < l2.len() && i != j implies l2[i] != l2[j] by {
        let pi = pos_in(out.len() as int, rest.len() as int, front, i);
        let pj = pos_in(out.len() as int, rest.len() as int, front, j);
        if i < n && j < n { assert(l2[i] == l[pi]); assert(l2[j] == l[pj]); }
        else if i < n { assert(new.contains(new[j - n])); assert(l.contains(l[pi])); }
        else if j < n { assert(new.contains(new[i - n])); assert(l.contains(l[pj])); }
    }
    assert forall|x: T| #[trigger] l2.contains(x) <==> l.contains(x) || new.contains(x) by {
        if l2.contains(x) {
            let i = choose|i: int| 0 <= i < l2.len() && l2[i] == x;
            if i < n { assert(l[pos_in(out.len() as int, rest.len() as int, front, i)] == x); } else { assert(new[i - n] == x); }
        }
        if l.contains(x) {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
            if i < out.len() { assert(l2[i] == x); }
            else if i == out.len() + k { assert(l2[out.len() as int] == x); }
            else if front { assert(l2[i] == x); } else { assert(l2[i + 1] == x); }
        }
        if new.contains(x) {
            let i = choose|i: int| 0 <= i < new.len() && new[i] == x;
            assert(l2[n + i] == x);
        }
    }
}
/// where the i-th of out, v, rest stood in out, work
pub open spec fn pos_in(o: int, r: int, front: bool, i: int) -> int { if i < o { i } else if front { i } else if i == o { o + r } else { i - 1 } }
pub proof fn lemma_explored_step(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, work: Seq<VertexId>, vis: Set<VertexId>, v: VertexId, rest: Seq<VertexId>, new: Seq<VertexId>, vis2: Set<VertexId>)
    requires explored(g, s, out, work, vis), discovers(g, v, vis, new, vis2),
        work == seq![v] + rest || work == rest.push(v),
    ensures explored(g, s, out.push(v), rest + new, vis2),
{
    let l = joined(out, work);
    let o2 = out.push(v);
    let w2 = rest + new;
    let l2 = joined(o2, w2);
    lemma_turn(out, work, v, rest, new);
    assert(l.contains(v));
    assert(vis.contains(v));
    assert forall|x: VertexId| #[trigger] l2.contains(x) <==> vis2.contains(x) by {
        assert(l2.contains(x) <==> l.contains(x) || new.contains(x));
        assert(l.contains(x) <==> vis.contains(x));
    }
    assert forall|x: VertexId| #[trigger] vis2.contains(x) implies reachable(g, s, x) by { if !vis.contains(x) { lemma_reach_step(g, s, Edge(v, x)); } }
    assert forall|e: Edge| #[trigger] g.has_edge(e) && o2.contains(e.0) implies vis2.contains(e.1) by {
        let i = choose|i: int| 0 <= i < o2.len() && o2[i] == e.0;
        if i < out.len() { assert(out[i] == e.0); assert(out.contains(e.0)); assert(vis.contains(e.1)); }
        else { assert(e == Edge(v, e.1)); }
    }
    if out.len() == 0 { assert(work[0] == s); }
}
pub proof fn lemma_bfs_step(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, q: Seq<VertexId>, vis: Set<VertexId>, new: Seq<VertexId>, vis2: Set<VertexId>)
    requires bfs_inv(g, s, out, q, vis), q.len() > 0, discovers(g, q[0], vis, new, vis2),
    ensures bfs_inv(g, s, out.push(q[0]), q.drop_first() + new, vis2),
{
    let v = q[0];
    let rest = q.drop_first();
    assert(q =~= seq![v] + rest);
    lemma_explored_step(g, s, out, q, vis, v, rest, new, vis2);
    let l = joined(out, q);
    let q2 = rest + new;
    let l2 = joined(out.push(v), q2);
    assert(l2 =~= l + new);
    assert(l[out.len() as int] == v);
    // an unknown vertex is further than v
    assert forall|x: VertexId, k: int| !vis.contains(x) && #[trigger] within(g, s, x, k) implies within(g, s, v, k - 1) by {
        let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, x, p) && p.len() - 1 <= k;
        let i = lemma_frontier(g, s, out, q, vis, p);
        let j = choose|j: int| 0 <= j < q.len() && q[j] == p[i];
        lemma_walk_prefix(g, p, i + 1);
        assert(from_to(g, s, p[i], p.take(i + 1)));
        assert(within(g, s, p[i], k - 1));
        if j > 0 { assert(l[out.len() + j] == p[i]); assert(within(g, s, l[out.len() + j], k - 1)); assert(within(g, s, l[out.len() as int], k - 1)); }
    }
    assert forall|x: VertexId, k: int| new.contains(x) && #[trigger] within(g, s, v, k) implies #[trigger] within(g, s, x, k + 1) by { lemma_within_step(g, s, Edge(v, x), k); }
    assert forall|i: int, j: int, k: int| 0 <= i < j < l2.len() && #[trigger] within(g, s, l2[j], k) implies #[trigger] within(g, s, l2[i], k) by {
        if j < l.len() { assert(l2[j] == l[j] && l2[i] == l[i]); }
        else {
            let x = new[j - l.len()];
            assert(new.contains(x));
            assert(within(g, s, v, k - 1));
            if i < l.len() { assert(within(g, s, l[i], k - 1 + 1)); }
            else { assert(new.contains(new[i - l.len()])); assert(within(g, s, new[i - l.len()], k - 1 + 1)); }
        }
    }
    if q2.len() > 0 {
        let u = q2[0];
        assert(l2[out.len() as int + 1] == u);
        assert forall|j: int, k: int| 0 <= j < l2.len() && #[trigger] within(g, s, u, k) implies within(g, s, #[trigger] l2[j], k + 1) by {
            assert(within(g, s, l2[out.len() as int + 1], k));
            assert(within(g, s, l2[out.len() as int], k));
            assert(within(g, s, v, k));
            if j < l.len() { assert(l2[j] == l[j]); } else { assert(new.contains(new[j - l.len()])); }
        }
    }
}
pub proof fn lemma_start(g: DirectedGraph, s: VertexId)
    ensures bfs_inv(g, s, Seq::<VertexId>::empty(), seq![s], set![s]),
{
    let l = joined(Seq::<VertexId>::empty(), seq![s]);
    assert(l =~= seq![s]);
    assert(l[0] == s);
    assert(from_to(g, s, s, seq![s]));
    assert forall|v: VertexId| #[trigger] l.contains(v) <==> set![s].contains(v) by { if l.contains(v) { let i = choose|i: int| 0 <= i < l.len() && l[i] == v; } }
    assert forall|j: int, k: int| 0 <= j < l.len() && #[trigger] within(g, s, s, k) implies within(g, s, #[trigger] l[j], k + 1) by { lemma_within_mono(g, s, s, k, k + 1); }
}
pub proof fn lemma_targets(g: DirectedGraph, v: VertexId, l: Seq<&Edge>, t: Seq<&VertexId>)
    requires lists_edge_refs(l, g.out_pred(v)), ends_of(t, l),
    ensures targets(g, v, t),
{
    assert forall|x: VertexId| #[trigger] t.contains(&x) <==> g.has_edge(Edge(v, x)) by {
        if t.contains(&x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == &x; assert(g.out_pred(v)(*l[i])); assert(*l[i] == Edge(v, x)); }
        if g.has_edge(Edge(v, x)) { assert(g.out_pred(v)(Edge(v, x))); assert(l.contains(&Edge(v, x))); let i = choose|i: int| 0 <= i < l.len() && l[i] == &Edge(v, x); assert(t[i] == &x); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        assert(g.out_pred(v)(*l[i]) && g.out_pred(v)(*l[j]));
        assert(l[i] != l[j]);
    }
}
/// inside v's turn, after its destinations d
pub open spec fn found(g: DirectedGraph, v: VertexId, vis: Set<VertexId>, d: Seq<&VertexId>, rest: Seq<VertexId>, q: Seq<VertexId>, vis2: Set<VertexId>) -> bool {
    let new = q.skip(rest.len() as int);
    &&& q.len() >= rest.len() && q.take(rest.len() as int) == rest
    &&& new.no_duplicates()
    &&& forall|x: VertexId| #[trigger] new.contains(x) <==> d.contains(&x) && !vis.contains(x)
    &&& forall|x: VertexId| #[trigger] vis2.contains(x) <==> vis.contains(x) || d.contains(&x)
}
pub proof fn lemma_found(g: DirectedGraph, v: VertexId, vis: Set<VertexId>, d: Seq<&VertexId>, x: VertexId, rest: Seq<VertexId>, q: Seq<VertexId>, vis2: Set<VertexId>, q3: Seq<VertexId>, vis3: Set<VertexId>)
    requires found(g, v, vis, d, rest, q, vis2),
        vis2.contains(x) ==> q3 =~= q && vis3 =~= vis2, !vis2.contains(x) ==> q3 =~= q.push(x) && vis3 =~= vis2.insert(x),
    ensures found(g, v, vis, d.push(&x), rest, q3, vis3),
{
    let new = q.skip(rest.len() as int);
    let new3 = q3.skip(rest.len() as int);
    let d3 = d.push(&x);
    assert forall|y: VertexId| #[trigger] d3.contains(&y) <==> d.contains(&y) || y == x by {
        if d.contains(&y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == &y; assert(d3[i] == &y); }
        if y == x { assert(d3[d.len() as int] == &x); }
        if d3.contains(&y) { let i = choose|i: int| 0 <= i < d3.len() && d3[i] == &y; if i < d.len() { assert(d[i] == &y); } }
    }
    if vis2.contains(x) { } else {
        assert(q3.take(rest.len() as int) =~= rest);
        assert(new3 =~= new.push(x));
        assert(!new.contains(x));
        assert forall|y: VertexId| #[trigger] new3.contains(y) <==> new.contains(y) || y == x by {
            if new.contains(y) { let i = choose|i: int| 0 <= i < new.len() && new[i] == y; assert(new3[i] == y); }
            if y == x { assert(new3[new.len() as int] == x); }
            if new3.contains(y) { let i = choose|i: int| 0 <= i < new3.len() && new3[i] == y; if i < new.len() { assert(new[i] == y); } }
        }
    }
}
pub proof fn lemma_by_distance_prefix(g: DirectedGraph, s: VertexId, out: Seq<VertexId>, q: Seq<VertexId>)
    requires by_distance(g, s, joined(out, q)),
    ensures by_distance(g, s, out),
{
    let l = joined(out, q);
    assert forall|i: int, j: int, k: int| 0 <= i < j < out.len() && #[trigger] within(g, s, out[j], k) implies #[trigger] within(g, s, out[i], k) by { assert(l[i] == out[i] && l[j] == out[j]); }
}

// ---- paths without repetition
pub open spec fn spath(g: DirectedGraph, s: VertexId, p: Seq<VertexId>) -> bool { is_walk(g, p) && p[0] == s && p.no_duplicates() }
/// the path p can be extended by x
pub open spec fn extends(g: DirectedGraph, p: Seq<VertexId>, x: VertexId) -> bool { g.has_edge(Edge(p[p.len() - 1], x)) && !p.contains(x) }
pub open spec fn paths_inv(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, work: Seq<Seq<VertexId>>) -> bool {
    let l = joined(out, work);
    &&& l.no_duplicates()
    &&& l.contains(seq![s])
    &&& forall|p: Seq<VertexId>| #[trigger] l.contains(p) ==> spath(g, s, p) && (p.len() > 1 ==> out.contains(p.drop_last()))
    &&& forall|p: Seq<VertexId>, x: VertexId| #[trigger] out.contains(p) && #[trigger] extends(g, p, x) ==> l.contains(p.push(x))
}
/// by non-decreasing length
pub open spec fn by_length(l: Seq<Seq<VertexId>>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).len() <= (#[trigger] l[j]).len() }
pub open spec fn bfs_paths_inv(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>) -> bool {
    &&& paths_inv(g, s, out, q)
    &&& by_length(joined(out, q))
    &&& q.len() > 0 ==> forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).len() <= q[0].len() + 1
}
/// some paths without repetition from s, each once
pub open spec fn path_visit(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>) -> bool {
    out.no_duplicates() && forall|p: Seq<VertexId>| #[trigger] out.contains(p) ==> spath(g, s, p)
}
/// ... all of them
pub open spec fn full_path_visit(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>) -> bool {
    out.no_duplicates() && forall|p: Seq<VertexId>| #[trigger] out.contains(p) <==> spath(g, s, p)
}
/// new lists the extensions of p by the destinations d
pub open spec fn extensions(p: Seq<VertexId>, d: Seq<&VertexId>, new: Seq<Seq<VertexId>>) -> bool {
    &&& new.no_duplicates()
    &&& forall|q: Seq<VertexId>| #[trigger] new.contains(q) <==> q.len() == p.len() + 1 && q.drop_last() == p && d.contains(&q.last()) && !p.contains(q.last())
}
pub proof fn lemma_extension(p: Seq<VertexId>, d: Seq<&VertexId>, new: Seq<Seq<VertexId>>, x: VertexId, new2: Seq<Seq<VertexId>>)
    requires extensions(p, d, new), !d.contains(&x), p.contains(x) ==> new2 == new, !p.contains(x) ==> new2 == new.push(p.push(x)),
    ensures extensions(p, d.push(&x), new2),
{
    let d2 = d.push(&x);
    assert forall|y: VertexId| #[trigger] d2.contains(&y) <==> d.contains(&y) || y == x by {
        if d.contains(&y) { let i = choose|i: int| 0 <= i < d.len() && d[i] == &y; assert(d2[i] == &y); }
        if y == x { assert(d2[d.len() as int] == &x); }
        if d2.contains(&y) { let i = choose|i: int| 0 <= i < d2.len() && d2[i] == &y; if i < d.len() { assert(d[i] == &y); } }
    }
    let px = p.push(x);
    assert(px.last() == x && px.drop_last() =~= p);
    if !p.contains(x) {
        assert(!new.contains(px));
        assert forall|q: Seq<VertexId>| #[trigger] new2.contains(q) <==> new.contains(q) || q == px by {
            if new.contains(q) { let i = choose|i: int| 0 <= i < new.len() && new[i] == q; assert(new2[i] == q); }
            if q == px { assert(new2[new.len() as int] == px); }
            if new2.contains(q) { let i = choose|i: int| 0 <= i < new2.len() && new2[i] == q; if i < new.len() { assert(new[i] == q); } }
        }
    }
    assert forall|q: Seq<VertexId>| #[trigger] new2.contains(q) <==> q.len() == p.len() + 1 && q.drop_last() == p && d2.contains(&q.last()) && !p.contains(q.last()) by {
        assert(new.contains(q) <==> q.len() == p.len() + 1 && q.drop_last() == p && d.contains(&q.last()) && !p.contains(q.last()));
        if q.len() == p.len() + 1 && q.drop_last() == p && q.last() == x { assert(q =~= px); }
    }
}
pub proof fn lemma_paths_step(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, work: Seq<Seq<VertexId>>, p: Seq<VertexId>, rest: Seq<Seq<VertexId>>, t: Seq<&VertexId>, new: Seq<Seq<VertexId>>)
    requires paths_inv(g, s, out, work), work == seq![p] + rest || work == rest.push(p), p.len() > 0, targets(g, p[p.len() - 1], t), extensions(p, t, new),
    ensures paths_inv(g, s, out.push(p), rest + new),
{
    let l = joined(out, work);
    let o2 = out.push(p);
    let l2 = joined(o2, rest + new);
    assert(!out.contains(p)) by {
        let k: int = if work == seq![p] + rest { 0 } else { rest.len() as int };
        assert(work[k] == p);
        assert(l[out.len() + k] == p);
        if out.contains(p) { let i = choose|i: int| 0 <= i < out.len() && out[i] == p; assert(l[i] == p); }
    }
    assert forall|q: Seq<VertexId>| #[trigger] new.contains(q) implies !l.contains(q) by { if l.contains(q) { assert(out.contains(q.drop_last())); } }
    lemma_turn(out, work, p, rest, new);
    assert(l.contains(p));
    assert(spath(g, s, p));
    assert(l2.contains(seq![s]));
    assert forall|q: Seq<VertexId>| #[trigger] out.contains(q) implies o2.contains(q) by { let i = choose|i: int| 0 <= i < out.len() && out[i] == q; assert(o2[i] == q); }
    assert(o2[out.len() as int] == p);
    assert(o2.contains(p));
    assert forall|q: Seq<VertexId>| #[trigger] l2.contains(q) implies spath(g, s, q) && (q.len() > 1 ==> o2.contains(q.drop_last())) by {
        if l.contains(q) { if q.len() > 1 { assert(out.contains(q.drop_last())); } }
        else {
            assert(new.contains(q));
            let x = q.last();
            assert(t.contains(&x));
            assert(g.has_edge(Edge(p[p.len() - 1], x)));
            lemma_walk_push(g, p, x);
            assert(q =~= p.push(x));
        }
    }
    assert forall|q: Seq<VertexId>, x: VertexId| #[trigger] o2.contains(q) && #[trigger] extends(g, q, x) implies l2.contains(q.push(x)) by {
        let i = choose|i: int| 0 <= i < o2.len() && o2[i] == q;
        let qx = q.push(x);
        if i < out.len() { assert(out[i] == q); assert(out.contains(q)); assert(l.contains(qx)); }
        else {
            assert(q == p);
            assert(t.contains(&x));
            assert(qx.last() == x && qx.drop_last() =~= p);
            assert(new.contains(qx));
        }
    }
}
pub proof fn lemma_bfs_paths_step(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>, t: Seq<&VertexId>, new: Seq<Seq<VertexId>>)
    requires bfs_paths_inv(g, s, out, q), q.len() > 0, q[0].len() > 0, targets(g, q[0][q[0].len() - 1], t), extensions(q[0], t, new),
    ensures bfs_paths_inv(g, s, out.push(q[0]), q.drop_first() + new),
{
    let p = q[0];
    let rest = q.drop_first();
    assert(q =~= seq![p] + rest);
    lemma_paths_step(g, s, out, q, p, rest, t, new);
    let l = joined(out, q);
    let q2 = rest + new;
    let l2 = joined(out.push(p), q2);
    assert(l2 =~= l + new);
    assert(l[out.len() as int] == p);
    assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]).len() == p.len() + 1 by { assert(new.contains(new[i])); }
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).len() <= p.len() + 1 by { if i >= out.len() { assert(l[i] == q[i - out.len()]); } else { assert(l[i].len() <= l[out.len() as int].len()); } }
    assert forall|i: int, j: int| 0 <= i < j < l2.len() implies (#[trigger] l2[i]).len() <= (#[trigger] l2[j]).len() by {
        if j < l.len() { assert(l2[i] == l[i] && l2[j] == l[j]); }
        else { assert(l2[j] == new[j - l.len()]); if i < l.len() { assert(l2[i] == l[i]); } else { assert(l2[i] == new[i - l.len()]); } }
    }
    if q2.len() > 0 {
        assert(l2[out.len() as int] == p);
        assert(l2[out.len() as int + 1] == q2[0]);
        assert(q2[0].len() >= p.len());
        assert forall|j: int| 0 <= j < q2.len() implies (#[trigger] q2[j]).len() <= q2[0].len() + 1 by {
            if j < rest.len() { assert(q2[j] == q[j + 1]); } else { assert(q2[j] == new[j - rest.len()]); }
        }
    }
}
pub proof fn lemma_paths_all(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, p: Seq<VertexId>)
    requires paths_inv(g, s, out, Seq::<Seq<VertexId>>::empty()), spath(g, s, p),
    ensures out.contains(p),
    decreases p.len(),
{
    let e = Seq::<Seq<VertexId>>::empty();
    assert(joined(out, e) =~= out);
    if p.len() == 1 { assert(p =~= seq![s]); }
    else {
        let q = p.drop_last();
        lemma_walk_prefix(g, p, p.len() - 1);
        assert(p.take(p.len() - 1) =~= q);
        assert(q.no_duplicates());
        lemma_paths_all(g, s, out, q);
        assert(g.has_edge(step(p, p.len() - 2)));
        if q.contains(p.last()) { let i = choose|i: int| 0 <= i < q.len() && q[i] == p.last(); assert(p[i] == p[p.len() - 1]); }
        assert(extends(g, q, p.last()));
        assert(q.push(p.last()) =~= p);
    }
}
pub proof fn lemma_paths_end(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, work: Seq<Seq<VertexId>>)
    requires paths_inv(g, s, out, work),
    ensures path_visit(g, s, out), work.len() == 0 ==> full_path_visit(g, s, out), by_length(joined(out, work)) ==> by_length(out),
{
    let l = joined(out, work);
    assert forall|p: Seq<VertexId>| #[trigger] out.contains(p) implies spath(g, s, p) by { lemma_contains_join(out, work, p); assert(l.contains(p)); }
    assert forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < out.len() && i != j implies out[i] != out[j] by { assert(l[i] == out[i] && l[j] == out[j]); }
    if work.len() == 0 {
        assert(work =~= Seq::<Seq<VertexId>>::empty());
        assert forall|p: Seq<VertexId>| #[trigger] spath(g, s, p) implies out.contains(p) by { lemma_paths_all(g, s, out, p); }
    }
    if by_length(l) { assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).len() <= (#[trigger] out[j]).len() by { assert(l[i] == out[i] && l[j] == out[j]); } }
}
pub proof fn lemma_paths_start(g: DirectedGraph, s: VertexId)
    ensures bfs_paths_inv(g, s, Seq::<Seq<VertexId>>::empty(), seq![seq![s]]),
{
    let l = joined(Seq::<Seq<VertexId>>::empty(), seq![seq![s]]);
    assert(l[0] == seq![s]);
    assert forall|p: Seq<VertexId>| #[trigger] l.contains(p) implies p == seq![s] by { let i = choose|i: int| 0 <= i < l.len() && l[i] == p; }
    assert(is_walk(g, seq![s]));
}
pub open spec fn views(s: Seq<crate::path::Path>) -> Seq<Seq<VertexId>> { Seq::new(s.len(), |i: int| s[i].vertices@) }
pub open spec fn extended(p: Seq<VertexId>, d: Seq<&VertexId>, rest: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>) -> bool {
    q.len() >= rest.len() && q.take(rest.len() as int) == rest && extensions(p, d, q.skip(rest.len() as int))
}
pub proof fn lemma_extended_start(p: Seq<VertexId>, rest: Seq<Seq<VertexId>>)
    ensures extended(p, Seq::<&VertexId>::empty(), rest, rest),
{
    assert(rest.take(rest.len() as int) =~= rest);
    assert(rest.skip(rest.len() as int) =~= Seq::<Seq<VertexId>>::empty());
}
pub proof fn lemma_extended_step(p: Seq<VertexId>, d: Seq<&VertexId>, rest: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>, x: VertexId, q2: Seq<Seq<VertexId>>)
    requires extended(p, d, rest, q), !d.contains(&x), p.contains(x) ==> q2 == q, !p.contains(x) ==> q2 == q.push(p.push(x)),
    ensures extended(p, d.push(&x), rest, q2),
{
    let n = rest.len() as int;
    if !p.contains(x) {
        assert(q2.take(n) =~= rest);
        assert(q2.skip(n) =~= q.skip(n).push(p.push(x)));
    }
    lemma_extension(p, d, q.skip(n), x, q2.skip(n));
}
/// the turn of the path p is over
pub open spec fn path_turn(g: DirectedGraph, p: Seq<VertexId>, rest: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>) -> bool {
    p.len() > 0 && exists|t: Seq<&VertexId>| #[trigger] targets(g, p[p.len() - 1], t) && extended(p, t, rest, q)
}
/// a path without repetition stays so exactly when it goes to a new vertex
pub proof fn lemma_push_distinct(p: Seq<VertexId>, v: VertexId)
    requires p.no_duplicates(),
    ensures p.push(v).no_duplicates() == !p.contains(v),
{
    let q = p.push(v);
    if p.contains(v) {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == v;
        assert(q[i] == q[p.len() as int]);
    } else {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by {
            if i < p.len() { assert(p.contains(p[i])); }
            if j < p.len() { assert(p.contains(p[j])); }
        }
    }
}
pub proof fn lemma_next_fresh(a: Seq<&VertexId>, k: int)
    requires a.no_duplicates(), 0 <= k < a.len(),
    ensures !a.subrange(0, k).contains(a[k]),
{
    let d = a.subrange(0, k);
    if d.contains(a[k]) { let i = choose|i: int| 0 <= i < d.len() && d[i] == a[k]; assert(a[i] == a[k]); }
}
// ---- finitely many paths without repetition
pub proof fn lemma_pushed(b: Set<Seq<VertexId>>, v: VertexId) -> (r: Set<Seq<VertexId>>)
    ensures forall|p: Seq<VertexId>| #[trigger] b.contains(p) ==> r.contains(p.push(v)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert forall|p: Seq<VertexId>| #[trigger] b.contains(p) implies false by { assert(b.len() >= b.remove(p).len() + 1); }
        b
    } else {
        let x = b.choose();
        let r1 = lemma_pushed(b.remove(x), v);
        let r = r1.insert(x.push(v));
        assert forall|p: Seq<VertexId>| #[trigger] b.contains(p) implies r.contains(p.push(v)) by { if p != x { assert(b.remove(x).contains(p)); } }
        r
    }
}
pub proof fn lemma_pushed_all(b: Set<Seq<VertexId>>, l: Seq<VertexId>) -> (r: Set<Seq<VertexId>>)
    ensures forall|p: Seq<VertexId>| #[trigger] b.contains(p) ==> r.contains(p),
        forall|p: Seq<VertexId>, v: VertexId| #[trigger] b.contains(p) && #[trigger] l.contains(v) ==> r.contains(p.push(v)),
    decreases l.len(),
{
    if l.len() == 0 { b } else {
        let r1 = lemma_pushed_all(b, l.drop_last());
        let r2 = lemma_pushed(b, l.last());
        let r = r1.union(r2);
        assert forall|p: Seq<VertexId>, v: VertexId| #[trigger] b.contains(p) && #[trigger] l.contains(v) implies r.contains(p.push(v)) by {
            let i = choose|i: int| 0 <= i < l.len() && l[i] == v;
            if i < l.len() - 1 { assert(l.drop_last()[i] == v); assert(l.drop_last().contains(v)); }
        }
        r
    }
}
/// all the lists of at most n elements of l are in a finite set
pub proof fn lemma_lists(l: Seq<VertexId>, n: nat) -> (r: Set<Seq<VertexId>>)
    ensures forall|p: Seq<VertexId>| p.len() <= n && (forall|i: int| 0 <= i < p.len() ==> l.contains(#[trigger] p[i])) ==> #[trigger] r.contains(p),
    decreases n,
{
    if n == 0 {
        let r = Set::<Seq<VertexId>>::empty().insert(Seq::<VertexId>::empty());
        assert forall|p: Seq<VertexId>| p.len() == 0 implies #[trigger] r.contains(p) by { assert(p =~= Seq::<VertexId>::empty()); }
        r
    } else {
        let b = lemma_lists(l, (n - 1) as nat);
        let r = lemma_pushed_all(b, l);
        assert forall|p: Seq<VertexId>| p.len() <= n && (forall|i: int| 0 <= i < p.len() ==> l.contains(#[trigger] p[i])) implies #[trigger] r.contains(p) by {
            if p.len() < n { assert(b.contains(p)); } else {
                let q = p.drop_last();
                assert forall|i: int| 0 <= i < q.len() implies l.contains(#[trigger] q[i]) by { assert(p[i] == q[i]); }
                assert(b.contains(q));
                assert(l.contains(p[p.len() - 1]));
                assert(q.push(p[p.len() - 1]) =~= p);
            }
        }
        r
    }
}
/// the paths without repetition from s, at most |bound| of them
pub proof fn lemma_finite_paths(g: DirectedGraph, s: VertexId) -> (r: Set<Seq<VertexId>>)
    requires g.wf(),
    ensures forall|p: Seq<VertexId>| spath(g, s, p) ==> #[trigger] r.contains(p),
{
    let l = lemma_list_set(g.vset().insert(s));
    let r = lemma_lists(l, g.vset().len() + 1);
    assert forall|p: Seq<VertexId>| spath(g, s, p) implies #[trigger] r.contains(p) by {
        lemma_simple_len(g, p);
        assert forall|i: int| 0 <= i < p.len() implies l.contains(#[trigger] p[i]) by { if i > 0 { assert(g.has_edge(step(p, i - 1))); } }
    }
    r
}
pub proof fn lemma_few_paths(g: DirectedGraph, s: VertexId, out: Seq<Seq<VertexId>>, b: Set<Seq<VertexId>>)
    requires path_visit(g, s, out), forall|p: Seq<VertexId>| spath(g, s, p) ==> #[trigger] b.contains(p),
    ensures out.len() <= b.len(),
{
    assert forall|p: Seq<VertexId>| out.to_set().contains(p) implies b.contains(p) by { assert(out.contains(p)); }
    out.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(out.to_set(), b);
}
pub proof fn lemma_views_push(s: Seq<crate::path::Path>, p: crate::path::Path)
    ensures views(s.push(p)) == views(s).push(p.vertices@),
{ assert(views(s.push(p)) =~= views(s).push(p.vertices@)); }
// ---- Hamiltonian paths
/// a path of the graph that visits every vertex exactly once
pub open spec fn ham(g: DirectedGraph, p: Seq<VertexId>) -> bool {
    is_walk(g, p) && p.no_duplicates() && p.len() == g.vset().len() && forall|v: VertexId| #[trigger] g.vset().contains(v) <==> p.contains(v)
}
pub open spec fn has_ham(g: DirectedGraph) -> bool { exists|p: Seq<VertexId>| #[trigger] ham(g, p) }
pub open spec fn all_hams(g: DirectedGraph, l: Seq<Seq<VertexId>>) -> bool { forall|p: Seq<VertexId>| #[trigger] l.contains(p) <==> ham(g, p) }
pub open spec fn of_size(n: int, x: Seq<crate::path::Path>, r: Seq<crate::path::Path>) -> bool {
    forall|p: crate::path::Path| #[trigger] r.contains(p) <==> x.contains(p) && p.vertices@.len() == n
}
pub proof fn lemma_ham(g: DirectedGraph, s: VertexId, p: Seq<VertexId>)
    requires g.wf(), g.has_vertex(s), spath(g, s, p), p.len() == g.vset().len(),
    ensures ham(g, p),
{
    assert forall|v: VertexId| p.to_set().contains(v) implies g.vset().contains(v) by {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == v;
        if i > 0 { assert(g.has_edge(step(p, i - 1))); }
    }
    p.unique_seq_to_set();
    assert forall|v: VertexId| #[trigger] g.vset().contains(v) implies p.contains(v) by {
        if !p.contains(v) {
            vstd::set_lib::lemma_len_subset(p.to_set().insert(v), g.vset());
        }
    }
}
pub proof fn lemma_in_views(s: Seq<crate::path::Path>, q: Seq<VertexId>)
    ensures views(s).contains(q) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vertices@ == q,
{
    if views(s).contains(q) { let i = choose|i: int| 0 <= i < s.len() && views(s)[i] == q; assert(s[i].vertices@ == q); }
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vertices@ == q { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vertices@ == q; assert(views(s)[i] == q); }
}
/// what c lists are the paths from v
pub open spec fn lists_paths(g: DirectedGraph, v: VertexId, c: It<crate::path::Path>) -> bool { c.pos() == 0 && full_path_visit(g, v, views(c.all())) }
pub open spec fn from_vertex(g: DirectedGraph, c: It<crate::path::Path>) -> bool { exists|v: VertexId| g.has_vertex(v) && #[trigger] lists_paths(g, v, c) }
pub open spec fn listed_from(g: DirectedGraph, v: VertexId, cs: Seq<It<crate::path::Path>>) -> bool { exists|i: int| 0 <= i < cs.len() && lists_paths(g, v, #[trigger] cs[i]) }
/// one list of paths for each vertex
pub open spec fn from_all(g: DirectedGraph, cs: Seq<It<crate::path::Path>>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> #[trigger] from_vertex(g, cs[i])
    &&& forall|v: VertexId| g.has_vertex(v) ==> #[trigger] listed_from(g, v, cs)
}
/// the paths from every vertex, kept when of full length
pub proof fn lemma_hams(g: DirectedGraph, cs: Seq<It<crate::path::Path>>, x: Seq<crate::path::Path>, r: Seq<crate::path::Path>)
    requires g.wf(), is_flat(x, cs),
        from_all(g, cs),
        of_size(g.vset().len() as int, x, r),
    ensures g.vset().len() > 0 ==> all_hams(g, views(r)),
{
    assert forall|p: Seq<VertexId>| g.vset().len() > 0 implies (#[trigger] views(r).contains(p) <==> ham(g, p)) by {
        lemma_in_views(r, p);
        if views(r).contains(p) {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).vertices@ == p;
            assert(r.contains(r[i]));
            assert(x.contains(r[i]));
            let j = choose|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).seq().contains(r[i]);
            assert(from_vertex(g, cs[j]));
            let v = choose|v: VertexId| g.has_vertex(v) && #[trigger] lists_paths(g, v, cs[j]);
            let k = choose|k: int| 0 <= k < cs[j].seq().len() && cs[j].seq()[k] == r[i];
            assert(cs[j].seq() =~= cs[j].all());
            assert(views(cs[j].all())[k] == p);
            assert(views(cs[j].all()).contains(p));
            lemma_ham(g, v, p);
        }
        if ham(g, p) {
            assert(p.contains(p[0]));
            assert(g.vset().contains(p[0]));
            assert(g.has_vertex(p[0]));
            assert(listed_from(g, p[0], cs));
            let j = choose|j: int| 0 <= j < cs.len() && lists_paths(g, p[0], #[trigger] cs[j]);
            assert(spath(g, p[0], p));
            assert(views(cs[j].all()).contains(p));
            lemma_in_views(cs[j].all(), p);
            let i = choose|i: int| 0 <= i < cs[j].all().len() && (#[trigger] cs[j].all()[i]).vertices@ == p;
            let y = cs[j].all()[i];
            assert(cs[j].seq() =~= cs[j].all());
            assert(cs[j].seq().contains(y));
            assert(x.contains(y));
            assert(r.contains(y));
            let m = choose|m: int| 0 <= m < r.len() && r[m] == y;
            assert(r[m].vertices@ == p);
        }
    }
}
pub proof fn lemma_first_ham(g: DirectedGraph)
    ensures forall|l: Seq<crate::path::Path>| #[trigger] all_hams(g, views(l)) ==> (l.len() > 0 ==> ham(g, l[0].vertices@)) && (l.len() == 0 ==> !has_ham(g)),
{
    assert forall|l: Seq<crate::path::Path>| #[trigger] all_hams(g, views(l)) implies (l.len() > 0 ==> ham(g, l[0].vertices@)) && (l.len() == 0 ==> !has_ham(g)) by {
        if l.len() > 0 { assert(views(l)[0] == l[0].vertices@); assert(views(l).contains(l[0].vertices@)); }
        else if has_ham(g) { let p = choose|p: Seq<VertexId>| #[trigger] ham(g, p); assert(views(l).contains(p)); }
    }
}
