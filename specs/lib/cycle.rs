// Elementary cycles and their enumeration
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::walk::*;
use crate::dist::*;
use crate::traverse::*;
/// c are the vertices of an elementary cycle of g
pub open spec fn elem(g: DirectedGraph, c: Seq<VertexId>) -> bool {
    is_walk(g, c) && c.no_duplicates() && g.has_edge(Edge(c[c.len() - 1], c[0]))
}
pub open spec fn min_first(c: Seq<VertexId>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[0].0 <= (#[trigger] c[i]).0 }
pub open spec fn rot(c: Seq<VertexId>, k: int) -> Seq<VertexId> { c.subrange(k, c.len() as int) + c.subrange(0, k) }
/// r is c, read from its smallest vertex
pub open spec fn canon(c: Seq<VertexId>, r: Seq<VertexId>) -> bool { exists|k: int| 0 <= k < c.len() && r == #[trigger] rot(c, k) && min_first(r) }
/// the last vertex of p occurs before
pub open spec fn closes(p: Seq<VertexId>) -> bool { p.len() > 1 && exists|j: int| #[trigger] closes_at(p, j) }
pub open spec fn closes_at(p: Seq<VertexId>, j: int) -> bool { 0 <= j < p.len() - 1 && p[j] == p[p.len() - 1] }
pub open spec fn loop_of(p: Seq<VertexId>, j: int) -> Seq<VertexId> { p.subrange(j, p.len() - 1) }
/// r is the cycle that p closes
pub open spec fn cyc(p: Seq<VertexId>, r: Seq<VertexId>) -> bool { exists|j: int| #[trigger] closes_at(p, j) && canon(loop_of(p, j), r) }
/// p repeats no vertex, but for its last one perhaps
pub open spec fn pend(g: DirectedGraph, p: Seq<VertexId>) -> bool {
    is_walk(g, p) && p.drop_last().no_duplicates() && g.has_vertex(p[0])
}
pub open spec fn prefix(p: Seq<VertexId>, z: Seq<VertexId>) -> bool { p.len() <= z.len() && p == z.subrange(0, p.len() as int) }
pub open spec fn waiting(q: Seq<Seq<VertexId>>, z: Seq<VertexId>) -> bool { exists|i: int| 0 <= i < q.len() && prefix(#[trigger] q[i], z) }
pub open spec fn yielded(out: Seq<Seq<VertexId>>, z: Seq<VertexId>) -> bool { exists|c: Seq<VertexId>| #[trigger] out.contains(c) && cyc(z, c) }
pub open spec fn all_pend(g: DirectedGraph, q: Seq<Seq<VertexId>>) -> bool { forall|i: int| 0 <= i < q.len() ==> pend(g, #[trigger] q[i]) }
/// what has been yielded: elementary cycles from their smallest vertex, each once
pub open spec fn cyc_visit(g: DirectedGraph, out: Seq<Seq<VertexId>>) -> bool {
    out.no_duplicates() && forall|c: Seq<VertexId>| #[trigger] out.contains(c) ==> elem(g, c) && min_first(c)
}
pub open spec fn owed(g: DirectedGraph, roots: Set<VertexId>, z: Seq<VertexId>) -> bool { pend(g, z) && closes(z) && roots.contains(z[0]) }
/// what remains to be yielded is to be found from the stack
pub open spec fn cyc_inv(g: DirectedGraph, roots: Set<VertexId>, out: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>) -> bool {
    &&& cyc_visit(g, out)
    &&& forall|z: Seq<VertexId>| #[trigger] owed(g, roots, z) ==> yielded(out, z) || waiting(q, z)
}
/// a cycle of g that a root reaches
pub open spec fn near(g: DirectedGraph, roots: Set<VertexId>, c: Seq<VertexId>) -> bool {
    elem(g, c) && exists|s: VertexId| roots.contains(s) && #[trigger] reachable(g, s, c[0])
}
pub open spec fn full_cyc(g: DirectedGraph, roots: Set<VertexId>, out: Seq<Seq<VertexId>>) -> bool {
    cyc_visit(g, out) && forall|c: Seq<VertexId>| near(g, roots, c) && min_first(c) ==> #[trigger] out.contains(c)
}
/// where the scan begins: at the vertices without inbound edges or, if there are none, at some vertex
pub open spec fn scan_roots(g: DirectedGraph, roots: Set<VertexId>) -> bool {
    &&& forall|v: VertexId| #[trigger] roots.contains(v) ==> g.has_vertex(v)
    &&& forall|v: VertexId| g.has_vertex(v) && #[trigger] no_inbound(g, v) ==> roots.contains(v)
    &&& g.vset().len() > 0 ==> exists|v: VertexId| #[trigger] roots.contains(v)
}
/// out is the enumeration of the cycles of g
pub open spec fn enumeration(g: DirectedGraph, out: Seq<Seq<VertexId>>) -> bool { exists|roots: Set<VertexId>| #[trigger] scan_roots(g, roots) && full_cyc(g, roots, out) }

pub proof fn lemma_no_inbound(g: DirectedGraph, l: Seq<&Edge>, v: VertexId)
    requires lists_edge_refs(l, g.in_pred(v)),
    ensures l.len() == 0 <==> no_inbound(g, v),
{
    if l.len() > 0 { assert(g.in_pred(v)(*l[0])); assert(g.has_edge(*l[0])); }
    else { assert forall|e: Edge| #[trigger] g.has_edge(e) implies e.1 != v by { if e.1 == v { assert(g.in_pred(v)(e)); assert(l.contains(&e)); } } }
}
pub proof fn lemma_rot(c: Seq<VertexId>, k: int)
    requires 0 <= k < c.len(),
    ensures rot(c, k).len() == c.len(), rot(c, k)[0] == c[k],
        forall|i: int| 0 <= i < c.len() ==> #[trigger] rot(c, k)[i] == c[if i + k < c.len() { i + k } else { i + k - c.len() }],
        forall|i: int| 0 <= i < c.len() ==> rot(c, k)[if i >= k { i - k } else { i - k + c.len() }] == #[trigger] c[i],
        k == 0 ==> rot(c, k) == c, k > 0 ==> rot(rot(c, k), c.len() - k) == c,
        c.no_duplicates() ==> rot(c, k).no_duplicates(),
{
    if k == 0 { assert(rot(c, k) =~= c); } else { assert(rot(rot(c, k), c.len() - k) =~= c); }
    if c.no_duplicates() {
        let r = rot(c, k);
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { }
    }
}
pub proof fn lemma_rot_elem(g: DirectedGraph, c: Seq<VertexId>, k: int)
    requires elem(g, c), 0 <= k < c.len(),
    ensures elem(g, rot(c, k)),
{
    lemma_rot(c, k);
    let r = rot(c, k);
    let n = c.len() as int;
    assert forall|i: int| 0 <= i < n - 1 implies g.has_edge(#[trigger] step(r, i)) by {
        if i + k < n - 1 { assert(step(r, i) == step(c, i + k)); }
        else if i + k == n - 1 { assert(step(r, i) == Edge(c[n - 1], c[0])); }
        else { assert(step(r, i) == step(c, i + k - n)); }
    }
    if k == 0 { } else { assert(Edge(r[n - 1], r[0]) == step(c, k - 1)); }
}
pub proof fn lemma_canon_unique(c: Seq<VertexId>, a: Seq<VertexId>, b: Seq<VertexId>)
    requires c.no_duplicates(), canon(c, a), canon(c, b),
    ensures a == b,
{
    let i = choose|k: int| 0 <= k < c.len() && a == #[trigger] rot(c, k) && min_first(a);
    let j = choose|k: int| 0 <= k < c.len() && b == #[trigger] rot(c, k) && min_first(b);
    lemma_rot(c, i);
    lemma_rot(c, j);
    assert(c[j] == a[if j >= i { j - i } else { j - i + c.len() }]);
    assert(c[i] == b[if i >= j { i - j } else { i - j + c.len() }]);
    assert(c[i].0 == c[j].0);
    assert(c[i] == c[j]);
}
/// the loop that a pending path closes is an elementary cycle
pub proof fn lemma_loop(g: DirectedGraph, p: Seq<VertexId>, j: int)
    requires pend(g, p), closes_at(p, j),
    ensures elem(g, loop_of(p, j)), forall|k: int| #[trigger] closes_at(p, k) ==> k == j,
{
    let c = loop_of(p, j);
    let d = p.drop_last();
    assert forall|i: int| 0 <= i < c.len() - 1 implies g.has_edge(#[trigger] step(c, i)) by { assert(step(c, i) == step(p, i + j)); }
    assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { assert(d[a + j] != d[b + j]); }
    assert(Edge(c[c.len() - 1], c[0]) == step(p, p.len() - 2));
    assert forall|k: int| #[trigger] closes_at(p, k) implies k == j by { assert(d[k] == d[j]); }
}
pub proof fn lemma_cyc(g: DirectedGraph, p: Seq<VertexId>, r: Seq<VertexId>)
    requires pend(g, p), cyc(p, r),
    ensures elem(g, r), min_first(r),
{
    let j = choose|j: int| #[trigger] closes_at(p, j) && canon(loop_of(p, j), r);
    lemma_loop(g, p, j);
    let c = loop_of(p, j);
    let k = choose|k: int| 0 <= k < c.len() && r == #[trigger] rot(c, k) && min_first(r);
    lemma_rot_elem(g, c, k);
}
/// p, which closes a cycle c, leaves the stack q2.push(p)
pub proof fn lemma_cyc_found(g: DirectedGraph, roots: Set<VertexId>, out: Seq<Seq<VertexId>>, out2: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>, p: Seq<VertexId>, c: Seq<VertexId>)
    requires cyc_inv(g, roots, out, q), q.len() > 0, p == q.last(), pend(g, p), cyc(p, c),
        out2 == (if out.contains(c) { out } else { out.push(c) }),
    ensures cyc_inv(g, roots, out2, q.drop_last()),
{
    lemma_cyc(g, p, c);
    let q2 = q.drop_last();
    assert forall|z: Seq<VertexId>| #[trigger] owed(g, roots, z) implies yielded(out2, z) || waiting(q2, z) by {
        if yielded(out, z) {
            let x = choose|x: Seq<VertexId>| #[trigger] out.contains(x) && cyc(z, x);
            assert(out2.contains(x));
        } else {
            let i = choose|i: int| 0 <= i < q.len() && prefix(#[trigger] q[i], z);
            if i < q2.len() { assert(q2[i] == q[i]); }
            else {
                if z.len() > p.len() {
                    let j = choose|j: int| #[trigger] closes_at(p, j) && canon(loop_of(p, j), c);
                    let d = z.drop_last();
                    assert(d[j] == z[j] && z[j] == p[j]);
                    assert(d[p.len() - 1] == p[p.len() - 1]);
                    assert(false);
                }
                assert(z =~= p);
                assert(out2.contains(c));
            }
        }
    }
}
/// p, which closes no cycle, is replaced by its prolongations
pub open spec fn prolonged(p: Seq<VertexId>, t: Seq<&VertexId>, rest: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>) -> bool {
    &&& q.len() == rest.len() + t.len()
    &&& forall|i: int| 0 <= i < rest.len() ==> #[trigger] q[i] == rest[i]
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] q[rest.len() + i] == p.push(*t[i])
}
pub proof fn lemma_cyc_extend(g: DirectedGraph, roots: Set<VertexId>, out: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>, p: Seq<VertexId>, t: Seq<&VertexId>, q2: Seq<Seq<VertexId>>)
    requires cyc_inv(g, roots, out, q), q.len() > 0, p == q.last(), pend(g, p), !closes(p), targets(g, p[p.len() - 1], t), prolonged(p, t, q.drop_last(), q2),
    ensures cyc_inv(g, roots, out, q2),
{
    assert forall|z: Seq<VertexId>| #[trigger] owed(g, roots, z) implies yielded(out, z) || waiting(q2, z) by {
        if !yielded(out, z) {
            let i = choose|i: int| 0 <= i < q.len() && prefix(#[trigger] q[i], z);
            if i < q.len() - 1 { assert(q2[i] == q[i]); }
            else {
                if z.len() == p.len() { assert(z =~= p); assert(false); }
                let n = p.len() as int;
                let x = z[n];
                assert(step(z, n - 1) == Edge(p[n - 1], x));
                assert(t.contains(&x));
                let k = choose|k: int| 0 <= k < t.len() && t[k] == &x;
                assert(q2[q.len() - 1 + k] == p.push(x));
                assert(p.push(x) =~= z.subrange(0, n + 1));
                assert(prefix(q2[q.len() - 1 + k], z));
            }
        }
    }
}
pub proof fn lemma_prolonged(p: Seq<VertexId>, t: Seq<&VertexId>, x: VertexId, rest: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>, q2: Seq<Seq<VertexId>>)
    requires prolonged(p, t, rest, q), q2 == q.push(p.push(x)),
    ensures prolonged(p, t.push(&x), rest, q2),
{ }
pub proof fn lemma_few_targets(g: DirectedGraph, v: VertexId, t: Seq<&VertexId>)
    requires g.wf(), targets(g, v, t),
    ensures t.len() <= g.vset().len(),
{
    let d = Seq::new(t.len(), |i: int| *t[i]);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(t[i] != t[j]); }
    assert forall|i: int| 0 <= i < d.len() implies g.vset().contains(#[trigger] d[i]) by { assert(t.contains(t[i])); assert(t.contains(&d[i])); assert(g.has_edge(Edge(v, d[i]))); }
    d.unique_seq_to_set();
    assert(d.to_set().subset_of(g.vset()));
    vstd::set_lib::lemma_len_subset(d.to_set(), g.vset());
}
pub proof fn lemma_pend_push(g: DirectedGraph, p: Seq<VertexId>, x: VertexId)
    requires g.wf(), pend(g, p), !closes(p), g.has_edge(Edge(p[p.len() - 1], x)),
    ensures pend(g, p.push(x)),
{
    lemma_walk_push(g, p, x);
    assert(p.push(x).drop_last() =~= p);
    lemma_pend_short(g, p);
}
pub proof fn lemma_pend_short(g: DirectedGraph, p: Seq<VertexId>)
    requires g.wf(), pend(g, p), !closes(p),
    ensures p.len() <= g.vset().len(), p.no_duplicates(),
{
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
        let d = p.drop_last();
        if i < p.len() - 1 && j < p.len() - 1 { assert(d[i] != d[j]); }
        else if i == p.len() - 1 { if p[i] == p[j] { assert(closes_at(p, j)); } }
        else { if p[i] == p[j] { assert(closes_at(p, i)); } }
    }
    assert forall|i: int| 0 <= i < p.len() implies g.vset().contains(#[trigger] p[i]) by {
        if i > 0 { assert(g.has_edge(step(p, i - 1))); }
    }
    p.unique_seq_to_set();
    assert(p.to_set().subset_of(g.vset()));
    vstd::set_lib::lemma_len_subset(p.to_set(), g.vset());
}
/// a walk to a vertex of c can be made one that repeats no vertex and meets c at its end only
pub proof fn lemma_approach(g: DirectedGraph, s: VertexId, c: Seq<VertexId>, p: Seq<VertexId>) -> (q: Seq<VertexId>)
    requires is_walk(g, p), p[0] == s, c.contains(p[p.len() - 1]),
    ensures is_walk(g, q), q[0] == s, q.no_duplicates(), c.contains(q[q.len() - 1]), forall|i: int| 0 <= i < q.len() - 1 ==> !c.contains(#[trigger] q[i]),
    decreases p.len(),
{
    if exists|i: int| 0 <= i < p.len() - 1 && c.contains(#[trigger] p[i]) {
        let i = choose|i: int| 0 <= i < p.len() - 1 && c.contains(#[trigger] p[i]);
        lemma_walk_prefix(g, p, i + 1);
        lemma_approach(g, s, c, p.take(i + 1))
    } else if p.no_duplicates() { p } else {
        let (i, j) = lemma_dup(p);
        let q = p.take(i + 1) + p.skip(j + 1);
        assert(j < p.len() - 1) by { if j == p.len() - 1 { assert(c.contains(p[i])); } }
        assert forall|k: int| 0 <= k < q.len() - 1 implies g.has_edge(#[trigger] step(q, k)) by {
            if k < i { assert(step(q, k) == step(p, k)); } else { assert(step(q, k) == step(p, k + j - i)); }
        }
        assert(q[q.len() - 1] == p[p.len() - 1]);
        lemma_approach(g, s, c, q)
    }
}
/// every cycle that a root reaches is closed by a path from that root
pub proof fn lemma_closing(g: DirectedGraph, s: VertexId, c: Seq<VertexId>) -> (z: Seq<VertexId>)
    requires elem(g, c), g.has_vertex(s), reachable(g, s, c[0]), min_first(c),
    ensures pend(g, z), closes(z), z[0] == s, forall|r: Seq<VertexId>| #[trigger] cyc(z, r) ==> r == c,
{
    let p = choose|p: Seq<VertexId>| #[trigger] from_to(g, s, c[0], p);
    assert(c.contains(c[0]));
    let q = lemma_approach(g, s, c, p);
    let m = q.len() as int;
    let n = c.len() as int;
    let k = choose|k: int| 0 <= k < c.len() && c[k] == q[m - 1];
    lemma_rot(c, k);
    lemma_rot_elem(g, c, k);
    let r = rot(c, k);
    assert forall|i: int, j: int| 0 <= i < m - 1 && 0 <= j < n implies #[trigger] q[i] != #[trigger] r[j] by { assert(!c.contains(q[i])); assert(c.contains(r[j])); }
    let z = lemma_lasso(g, q, r);
    assert forall|x: Seq<VertexId>| #[trigger] cyc(z, x) implies x == c by {
        let j = choose|j: int| #[trigger] closes_at(z, j) && canon(loop_of(z, j), x);
        assert(j == m - 1);
        if k == 0 { assert(c == rot(r, 0)) by { lemma_rot(r, 0); } } else { assert(c == rot(r, n - k)); }
        assert(canon(r, c));
        lemma_canon_unique(r, x, c);
    }
    z
}
/// the path q followed by the cycle r from its end
pub proof fn lemma_lasso(g: DirectedGraph, q: Seq<VertexId>, r: Seq<VertexId>) -> (z: Seq<VertexId>)
    requires is_walk(g, q), q.no_duplicates(), elem(g, r), q[q.len() - 1] == r[0], g.has_vertex(q[0]),
        forall|i: int, j: int| 0 <= i < q.len() - 1 && 0 <= j < r.len() ==> #[trigger] q[i] != #[trigger] r[j],
    ensures pend(g, z), closes(z), z[0] == q[0], closes_at(z, q.len() - 1), loop_of(z, q.len() - 1) == r, forall|k: int| #[trigger] closes_at(z, k) ==> k == q.len() - 1,
{
    let m = q.len() - 1;
    let n = r.len() as int;
    let d = q.drop_last() + r;
    let z = d.push(r[0]);
    assert(z.drop_last() =~= d);
    assert forall|i: int| 0 <= i < z.len() - 1 implies g.has_edge(#[trigger] step(z, i)) by {
        if i < m { assert(step(z, i) == step(q, i)); }
        else if i < m + n - 1 { assert(step(z, i) == step(r, i - m)); }
        else { assert(step(z, i) == Edge(r[n - 1], r[0])); }
    }
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by {
        if i < m && j < m { assert(q[i] != q[j]); }
        else if i >= m && j >= m { assert(r[i - m] != r[j - m]); }
        else if i < m { assert(q[i] != r[j - m]); }
        else { assert(q[j] != r[i - m]); }
    }
    assert(closes_at(z, m));
    assert(loop_of(z, m) =~= r);
    assert(is_walk(g, z));
    assert(z[0] == q[0]) by { if m == 0 { } }
    lemma_loop(g, z, m);
    z
}
/// nothing waits: all was yielded
pub proof fn lemma_cyc_end(g: DirectedGraph, roots: Set<VertexId>, out: Seq<Seq<VertexId>>, q: Seq<Seq<VertexId>>)
    requires cyc_inv(g, roots, out, q), q.len() == 0, scan_roots(g, roots),
    ensures full_cyc(g, roots, out),
{
    assert forall|c: Seq<VertexId>| near(g, roots, c) && min_first(c) implies #[trigger] out.contains(c) by {
        let s = choose|s: VertexId| roots.contains(s) && #[trigger] reachable(g, s, c[0]);
        let z = lemma_closing(g, s, c);
        assert(owed(g, roots, z));
        assert(yielded(out, z));
    }
}
// the beginning
pub open spec fn singles(d: Seq<&VertexId>) -> Seq<Seq<VertexId>> { Seq::new(d.len(), |i: int| seq![*d[i]]) }
pub open spec fn starts(d: Seq<&VertexId>) -> Set<VertexId> { Seq::new(d.len(), |i: int| *d[i]).to_set() }
pub proof fn lemma_scan_start(g: DirectedGraph, d: Seq<&VertexId>)
    requires g.wf(), forall|i: int| 0 <= i < d.len() ==> g.has_vertex(*#[trigger] d[i]),
        forall|v: VertexId| g.has_vertex(v) && #[trigger] no_inbound(g, v) ==> d.contains(&v),
        g.vset().len() > 0 ==> d.len() > 0,
    ensures scan_roots(g, starts(d)), cyc_inv(g, starts(d), Seq::<Seq<VertexId>>::empty(), singles(d)), all_pend(g, singles(d)),
{
    let l = Seq::new(d.len(), |i: int| *d[i]);
    let roots = starts(d);
    assert forall|v: VertexId| #[trigger] roots.contains(v) implies g.has_vertex(v) by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == v; assert(g.has_vertex(*d[i]));
    }
    assert forall|v: VertexId| g.has_vertex(v) && #[trigger] no_inbound(g, v) implies roots.contains(v) by {
        let i = choose|i: int| 0 <= i < d.len() && d[i] == &v; assert(l[i] == v);
    }
    if d.len() > 0 { assert(l.contains(l[0])); assert(roots.contains(l[0])); }
    assert forall|i: int| 0 <= i < singles(d).len() implies pend(g, #[trigger] singles(d)[i]) by { assert(g.has_vertex(*d[i])); }
    assert forall|z: Seq<VertexId>| #[trigger] owed(g, roots, z) implies waiting(singles(d), z) by {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == z[0];
        assert(singles(d)[i] =~= z.subrange(0, 1));
    }
}
