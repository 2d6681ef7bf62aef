// Flows, cuts and augmenting paths
use crate::graph::*;
use crate::directed_graph::*;
use crate::gspec::*;
use crate::work::*;
use crate::algorithm::max_flow::*;
pub type Arc = (VertexId, Direction);
pub open spec fn flow_of(m: Map<Edge, (u64, u64)>) -> spec_fn(Edge) -> int { |e: Edge| m[e].0 as int }
pub open spec fn cap_of(m: Map<Edge, (u64, u64)>) -> spec_fn(Edge) -> int { |e: Edge| m[e].1 as int }
pub open spec fn term(f: spec_fn(Edge) -> int, e: Edge, v: VertexId) -> int { (if e.0 == v { f(e) } else { 0 }) - (if e.1 == v { f(e) } else { 0 }) }
/// what leaves v minus what enters it
pub open spec fn net(f: spec_fn(Edge) -> int, es: Seq<Edge>, v: VertexId) -> int decreases es.len() { if es.len() == 0 { 0 } else { net(f, es.drop_last(), v) + term(f, es.last(), v) } }
pub open spec fn total(f: spec_fn(Edge) -> int, es: Seq<Edge>) -> int decreases es.len() { if es.len() == 0 { 0 } else { total(f, es.drop_last()) + f(es.last()) } }
/// nothing is lost nor made but at s and t
pub open spec fn conserves(f: spec_fn(Edge) -> int, es: Seq<Edge>, s: VertexId, t: VertexId) -> bool { forall|v: VertexId| v != s && v != t ==> #[trigger] net(f, es, v) == 0 }
pub open spec fn within_caps(f: spec_fn(Edge) -> int, c: spec_fn(Edge) -> int, es: Seq<Edge>) -> bool { forall|i: int| 0 <= i < es.len() ==> 0 <= f(#[trigger] es[i]) <= c(es[i]) }
/// f is a flow from s to t
pub open spec fn is_flow(f: spec_fn(Edge) -> int, c: spec_fn(Edge) -> int, es: Seq<Edge>, s: VertexId, t: VertexId) -> bool { within_caps(f, c, es) && conserves(f, es, s, t) }
pub open spec fn feasible(g: DirectedGraph, m: Map<Edge, (u64, u64)>) -> bool {
    &&& forall|e: Edge| #![trigger m.contains_key(e)] #![trigger g.has_edge(e)] m.contains_key(e) <==> g.has_edge(e)
    &&& within(m)
}
pub open spec fn within(m: Map<Edge, (u64, u64)>) -> bool { forall|e: Edge| #[trigger] m.contains_key(e) ==> m[e].0 <= m[e].1 }
/// c bounds the capacities of the edges, and its total fits 64 bits
pub open spec fn limits<F: Fn(&Edge) -> u64>(g: DirectedGraph, f: &F, c: spec_fn(Edge) -> int) -> bool {
    &&& forall|e: Edge| #[trigger] g.has_edge(e) ==> call_requires(*f, (&e,))
    &&& forall|e: Edge, x: u64| g.has_edge(e) && #[trigger] call_ensures(*f, (&e,), x) ==> x <= c(e)
    &&& forall|es: Seq<Edge>| #[trigger] lists_edges(es, g.edge_pred()) ==> total(c, es) <= u64::MAX
}
pub open spec fn given<F: Fn(&Edge) -> u64>(f: &F, m: Map<Edge, (u64, u64)>) -> bool { forall|e: Edge| #[trigger] m.contains_key(e) ==> call_ensures(*f, (&e,), m[e].1) }
/// m is a flow of value x, and none is greater
pub open spec fn maximum(es: Seq<Edge>, m: Map<Edge, (u64, u64)>, s: VertexId, t: VertexId, x: int) -> bool {
    &&& is_flow(flow_of(m), cap_of(m), es, s, t)
    &&& x == net(flow_of(m), es, s)
    &&& forall|f: spec_fn(Edge) -> int| #[trigger] is_flow(f, cap_of(m), es, s, t) ==> net(f, es, s) <= x
}
// ---- sums
pub proof fn lemma_net_same(f: spec_fn(Edge) -> int, h: spec_fn(Edge) -> int, es: Seq<Edge>, v: VertexId)
    requires forall|i: int| 0 <= i < es.len() ==> f(#[trigger] es[i]) == h(es[i]),
    ensures net(f, es, v) == net(h, es, v),
    decreases es.len(),
{
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies f(#[trigger] es.drop_last()[i]) == h(es.drop_last()[i]) by { assert(es.drop_last()[i] == es[i]); }
        lemma_net_same(f, h, es.drop_last(), v);
        assert(f(es[es.len() - 1]) == h(es[es.len() - 1]));
    }
}
pub proof fn lemma_net_update(m: Map<Edge, (u64, u64)>, e: Edge, x: (u64, u64), es: Seq<Edge>, v: VertexId)
    requires es.no_duplicates(), es.contains(e),
    ensures net(flow_of(m.insert(e, x)), es, v) == net(flow_of(m), es, v) + (if e.0 == v { x.0 - m[e].0 } else { 0 }) - (if e.1 == v { x.0 - m[e].0 } else { 0 }),
    decreases es.len(),
{
    let d = es.drop_last();
    let m2 = m.insert(e, x);
    assert(es =~= d.push(es.last()));
    if es.last() == e {
        assert forall|i: int| 0 <= i < d.len() implies flow_of(m)(#[trigger] d[i]) == flow_of(m2)(d[i]) by { assert(d[i] == es[i]); assert(es[i] != es[es.len() - 1]); }
        lemma_net_same(flow_of(m), flow_of(m2), d, v);
    } else {
        lemma_net_update(m, e, x, d, v);
    }
}
pub proof fn lemma_net_zero(f: spec_fn(Edge) -> int, es: Seq<Edge>, v: VertexId)
    requires forall|i: int| 0 <= i < es.len() ==> f(#[trigger] es[i]) == 0,
    ensures net(f, es, v) == 0,
    decreases es.len(),
{
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies f(#[trigger] es.drop_last()[i]) == 0 by { assert(es.drop_last()[i] == es[i]); }
        lemma_net_zero(f, es.drop_last(), v);
        assert(f(es[es.len() - 1]) == 0);
    }
}
pub proof fn lemma_net_total(f: spec_fn(Edge) -> int, c: spec_fn(Edge) -> int, es: Seq<Edge>, v: VertexId)
    requires within_caps(f, c, es),
    ensures net(f, es, v) <= total(c, es),
    decreases es.len(),
{
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies 0 <= f(#[trigger] es.drop_last()[i]) <= c(es.drop_last()[i]) by { assert(es.drop_last()[i] == es[i]); }
        lemma_net_total(f, c, es.drop_last(), v);
        assert(0 <= f(es[es.len() - 1]) <= c(es[es.len() - 1]));
    }
}
// ---- cuts
pub open spec fn cterm(f: spec_fn(Edge) -> int, e: Edge, s: Set<VertexId>) -> int { (if s.contains(e.0) { f(e) } else { 0 }) - (if s.contains(e.1) { f(e) } else { 0 }) }
/// what leaves the set s minus what enters it
pub open spec fn cutnet(f: spec_fn(Edge) -> int, es: Seq<Edge>, s: Set<VertexId>) -> int decreases es.len() { if es.len() == 0 { 0 } else { cutnet(f, es.drop_last(), s) + cterm(f, es.last(), s) } }
pub proof fn lemma_cut_insert(f: spec_fn(Edge) -> int, es: Seq<Edge>, s: Set<VertexId>, v: VertexId)
    requires !s.contains(v),
    ensures cutnet(f, es, s.insert(v)) == cutnet(f, es, s) + net(f, es, v),
    decreases es.len(),
{ if es.len() > 0 { lemma_cut_insert(f, es.drop_last(), s, v); } }
pub proof fn lemma_cut_empty(f: spec_fn(Edge) -> int, es: Seq<Edge>)
    ensures cutnet(f, es, Set::<VertexId>::empty()) == 0,
    decreases es.len(),
{ if es.len() > 0 { lemma_cut_empty(f, es.drop_last()); } }
pub proof fn lemma_cut_value(f: spec_fn(Edge) -> int, es: Seq<Edge>, s: VertexId, t: VertexId, c: Set<VertexId>)
    requires conserves(f, es, s, t), !c.contains(t),
    ensures cutnet(f, es, c) == if c.contains(s) { net(f, es, s) } else { 0 },
    decreases c.len(),
{
    if c.len() == 0 {
        assert forall|v: VertexId| !c.contains(v) by { if c.contains(v) { assert(c.len() >= c.remove(v).len() + 1); } }
        assert(c =~= Set::<VertexId>::empty());
        lemma_cut_empty(f, es);
    } else {
        let v = c.choose();
        assert(c.contains(v));
        let d = c.remove(v);
        lemma_cut_value(f, es, s, t, d);
        lemma_cut_insert(f, es, d, v);
        assert(d.insert(v) =~= c);
        if v != s { assert(net(f, es, v) == 0); }
    }
}
pub proof fn lemma_cut_le(h: spec_fn(Edge) -> int, f: spec_fn(Edge) -> int, es: Seq<Edge>, c: Set<VertexId>)
    requires forall|i: int| 0 <= i < es.len() ==> cterm(h, #[trigger] es[i], c) <= cterm(f, es[i], c),
    ensures cutnet(h, es, c) <= cutnet(f, es, c),
    decreases es.len(),
{
    if es.len() > 0 {
        assert forall|i: int| 0 <= i < es.drop_last().len() implies cterm(h, #[trigger] es.drop_last()[i], c) <= cterm(f, es.drop_last()[i], c) by { assert(es.drop_last()[i] == es[i]); }
        lemma_cut_le(h, f, es.drop_last(), c);
        assert(cterm(h, es[es.len() - 1], c) <= cterm(f, es[es.len() - 1], c));
    }
}
// ---- augmenting paths
/// the edge used to go from a to b in the direction d
pub open spec fn used(a: VertexId, x: Arc) -> Edge { match x.1 { Direction::Forward => Edge(a, x.0), Direction::Backward => Edge(x.0, a) } }
pub open spec fn arc_edge(z: Seq<Arc>, i: int) -> Edge { used(z[i].0, z[i + 1]) }
pub open spec fn room(m: Map<Edge, (u64, u64)>, a: VertexId, x: Arc) -> int { match x.1 { Direction::Forward => m[used(a, x)].1 - m[used(a, x)].0, Direction::Backward => m[used(a, x)].0 as int } }
pub open spec fn arc_room(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, i: int) -> int { room(m, z[i].0, z[i + 1]) }
pub open spec fn verts(z: Seq<Arc>) -> Seq<VertexId> { Seq::new(z.len(), |i: int| z[i].0) }
/// z follows edges of g, forwards or backwards, and repeats no vertex
pub open spec fn apath(g: DirectedGraph, z: Seq<Arc>) -> bool {
    z.len() > 0 && verts(z).no_duplicates() && forall|i: int| 0 <= i < z.len() - 1 ==> g.has_edge(#[trigger] arc_edge(z, i))
}
/// z can be used from s to t, with room everywhere
pub open spec fn aug(g: DirectedGraph, m: Map<Edge, (u64, u64)>, s: VertexId, t: VertexId, z: Seq<Arc>) -> bool {
    apath(g, z) && z[0] == (s, Direction::Forward) && z[z.len() - 1].0 == t && forall|i: int| 0 <= i < z.len() - 1 ==> #[trigger] arc_room(m, z, i) > 0
}
pub open spec fn can_reach(g: DirectedGraph, m: Map<Edge, (u64, u64)>, s: VertexId, v: VertexId) -> bool { exists|z: Seq<Arc>| #[trigger] aug(g, m, s, v, z) }
pub proof fn lemma_verts_push(z: Seq<Arc>, x: Arc)
    ensures verts(z.push(x)) == verts(z).push(x.0),
{ assert(verts(z.push(x)) =~= verts(z).push(x.0)); }
pub proof fn lemma_apath_push(g: DirectedGraph, z: Seq<Arc>, x: Arc)
    requires apath(g, z), g.has_edge(used(z[z.len() - 1].0, x)), !verts(z).contains(x.0),
    ensures apath(g, z.push(x)),
{
    lemma_verts_push(z, x);
    let y = z.push(x);
    assert forall|i: int| 0 <= i < y.len() - 1 implies g.has_edge(#[trigger] arc_edge(y, i)) by { if i < z.len() - 1 { assert(arc_edge(y, i) == arc_edge(z, i)); } }
}
/// where there is room to go on, one can
pub proof fn lemma_reach_on(g: DirectedGraph, m: Map<Edge, (u64, u64)>, s: VertexId, v: VertexId, x: Arc)
    requires can_reach(g, m, s, v), g.has_edge(used(v, x)), room(m, v, x) > 0,
    ensures can_reach(g, m, s, x.0),
{
    let z = choose|z: Seq<Arc>| #[trigger] aug(g, m, s, v, z);
    if verts(z).contains(x.0) {
        let k = choose|k: int| 0 <= k < verts(z).len() && verts(z)[k] == x.0;
        let y = z.subrange(0, k + 1);
        assert(verts(y) =~= verts(z).subrange(0, k + 1));
        assert forall|i: int| 0 <= i < y.len() - 1 implies g.has_edge(#[trigger] arc_edge(y, i)) by { assert(arc_edge(y, i) == arc_edge(z, i)); }
        assert forall|i: int| 0 <= i < y.len() - 1 implies #[trigger] arc_room(m, y, i) > 0 by { assert(arc_room(m, y, i) == arc_room(m, z, i)); }
        assert(aug(g, m, s, x.0, y));
    } else {
        let y = z.push(x);
        lemma_apath_push(g, z, x);
        assert forall|i: int| 0 <= i < y.len() - 1 implies #[trigger] arc_room(m, y, i) > 0 by {
            if i < z.len() - 1 { assert(arc_room(m, y, i) == arc_room(m, z, i)); } else { assert(arc_room(m, y, i) == room(m, v, x)); }
        }
        assert(aug(g, m, s, x.0, y));
    }
}
/// no augmenting path: the flow is maximum
pub proof fn lemma_maximum(g: DirectedGraph, m: Map<Edge, (u64, u64)>, es: Seq<Edge>, s: VertexId, t: VertexId)
    requires g.wf(), s != t, feasible(g, m), lists_edges(es, g.edge_pred()), conserves(flow_of(m), es, s, t), !can_reach(g, m, s, t),
    ensures maximum(es, m, s, t, net(flow_of(m), es, s)),
{
    let f = flow_of(m);
    let c = g.vset().insert(s).filter(|v: VertexId| can_reach(g, m, s, v));
    let one = seq![(s, Direction::Forward)];
    assert(verts(one).no_duplicates());
    assert(aug(g, m, s, s, one));
    assert(c.contains(s) && !c.contains(t));
    assert forall|i: int| 0 <= i < es.len() implies 0 <= f(#[trigger] es[i]) <= cap_of(m)(es[i]) by { assert(es.contains(es[i])); assert(g.edge_pred()(es[i])); assert(m.contains_key(es[i])); }
    assert forall|h: spec_fn(Edge) -> int| #[trigger] is_flow(h, cap_of(m), es, s, t) implies net(h, es, s) <= net(f, es, s) by {
        assert forall|i: int| 0 <= i < es.len() implies cterm(h, #[trigger] es[i], c) <= cterm(f, es[i], c) by {
            let e = es[i];
            assert(es.contains(e)); assert(g.edge_pred()(e)); assert(g.has_edge(e)); assert(m.contains_key(e));
            assert(0 <= h(e) <= cap_of(m)(e));
            assert(g.vset().contains(e.0) && g.vset().contains(e.1));
            if c.contains(e.0) && !c.contains(e.1) {
                let x = (e.1, Direction::Forward);
                assert(used(e.0, x) == e);
                if room(m, e.0, x) > 0 { lemma_reach_on(g, m, s, e.0, x); assert(c.contains(e.1)); }
            } else if c.contains(e.1) && !c.contains(e.0) {
                let x = (e.0, Direction::Backward);
                assert(used(e.1, x) == e);
                if room(m, e.1, x) > 0 { lemma_reach_on(g, m, s, e.1, x); assert(c.contains(e.0)); }
            }
        }
        lemma_cut_le(h, f, es, c);
        lemma_cut_value(h, es, s, t, c);
        lemma_cut_value(f, es, s, t, c);
    }
}
// ---- the search
pub open spec fn aviews(s: Seq<AugmentingPath>) -> Seq<Seq<Arc>> { Seq::new(s.len(), |i: int| s[i].path@) }
pub open spec fn aprefix(p: Seq<Arc>, z: Seq<Arc>) -> bool { p.len() <= z.len() && p == z.subrange(0, p.len() as int) }
pub open spec fn pending(q: Seq<Seq<Arc>>, z: Seq<Arc>) -> bool { exists|i: int| 0 <= i < q.len() && aprefix(#[trigger] q[i], z) }
pub open spec fn all_apath(g: DirectedGraph, q: Seq<Seq<Arc>>) -> bool { forall|i: int| 0 <= i < q.len() ==> apath(g, #[trigger] q[i]) }
pub open spec fn searching(g: DirectedGraph, m: Map<Edge, (u64, u64)>, s: VertexId, t: VertexId, q: Seq<Seq<Arc>>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i])[0] == (s, Direction::Forward)
    &&& forall|z: Seq<Arc>| #[trigger] aug(g, m, s, t, z) ==> pending(q, z)
}
/// l are the ways to go on from the end of p without meeting it again
pub open spec fn ways(g: DirectedGraph, p: Seq<Arc>, l: Seq<(&VertexId, Direction)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> way(g, p, (*(#[trigger] l[i]).0, l[i].1))
    &&& forall|v: VertexId, d: Direction| #[trigger] way(g, p, (v, d)) ==> l.contains((&v, d))
}
pub open spec fn way(g: DirectedGraph, p: Seq<Arc>, x: Arc) -> bool { g.has_edge(used(p[p.len() - 1].0, x)) && !verts(p).contains(x.0) }
pub open spec fn went(p: Seq<Arc>, l: Seq<(&VertexId, Direction)>, rest: Seq<Seq<Arc>>, q: Seq<Seq<Arc>>) -> bool {
    &&& q.len() == rest.len() + l.len()
    &&& forall|i: int| 0 <= i < rest.len() ==> #[trigger] q[i] == rest[i]
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] q[rest.len() + i] == p.push((*l[i].0, l[i].1))
}
pub proof fn lemma_went(p: Seq<Arc>, l: Seq<(&VertexId, Direction)>, x: (&VertexId, Direction), rest: Seq<Seq<Arc>>, q: Seq<Seq<Arc>>, q2: Seq<Seq<Arc>>)
    requires went(p, l, rest, q), q2 == q.push(p.push((*x.0, x.1))),
    ensures went(p, l.push(x), rest, q2),
{ }
/// the first waiting path, which does not augment, is replaced by its prolongations
pub proof fn lemma_searching(g: DirectedGraph, m: Map<Edge, (u64, u64)>, s: VertexId, t: VertexId, q: Seq<Seq<Arc>>, l: Seq<(&VertexId, Direction)>, q2: Seq<Seq<Arc>>)
    requires searching(g, m, s, t, q), all_apath(g, q), q.len() > 0, ways(g, q[0], l), went(q[0], l, q.drop_first(), q2), !aug(g, m, s, t, q[0]),
    ensures searching(g, m, s, t, q2),
{
    let p = q[0];
    let rest = q.drop_first();
    assert(apath(g, p));
    assert forall|i: int| 0 <= i < q2.len() implies (#[trigger] q2[i])[0] == (s, Direction::Forward) by {
        if i < rest.len() { assert(q2[i] == rest[i]); assert(rest[i] == q[i + 1]); } else { assert(q2[rest.len() + (i - rest.len())] == p.push((*l[i - rest.len()].0, l[i - rest.len()].1))); }
    }
    assert forall|z: Seq<Arc>| #[trigger] aug(g, m, s, t, z) implies pending(q2, z) by {
        let i = choose|i: int| 0 <= i < q.len() && aprefix(#[trigger] q[i], z);
        if i > 0 { assert(q2[i - 1] == rest[i - 1]); assert(rest[i - 1] == q[i]); }
        else {
            let n = p.len() as int;
            if z.len() == n { assert(z =~= p); assert(false); }
            let x = z[n];
            assert(arc_edge(z, n - 1) == used(p[n - 1].0, x));
            if verts(p).contains(x.0) {
                let k = choose|k: int| 0 <= k < verts(p).len() && verts(p)[k] == x.0;
                assert(verts(z)[k] == verts(z)[n]);
            }
            assert(way(g, p, (x.0, x.1)));
            let k = choose|k: int| 0 <= k < l.len() && l[k] == (&x.0, x.1);
            assert(q2[rest.len() + k] == p.push(x));
            assert(p.push(x) =~= z.subrange(0, n + 1));
            assert(aprefix(q2[rest.len() + k], z));
        }
    }
}
pub proof fn lemma_apath_short(g: DirectedGraph, p: Seq<Arc>, x: Arc)
    requires g.wf(), apath(g, p), g.has_edge(used(p[p.len() - 1].0, x)),
    ensures p.len() <= g.vset().len(),
{
    let d = verts(p);
    assert forall|i: int| 0 <= i < d.len() implies g.vset().contains(#[trigger] d[i]) by {
        if i < d.len() - 1 { assert(g.has_edge(arc_edge(p, i))); } else { assert(g.has_edge(used(p[i].0, x))); }
    }
    d.unique_seq_to_set();
    assert(d.to_set().subset_of(g.vset()));
    vstd::set_lib::lemma_len_subset(d.to_set(), g.vset());
}
/// no more ways than vertices, in either direction
pub proof fn lemma_few_out(g: DirectedGraph, v: VertexId, l: Seq<&Edge>)
    requires g.wf(), lists_edge_refs(l, g.out_pred(v)),
    ensures l.len() <= g.vset().len(),
{
    let d = Seq::new(l.len(), |i: int| l[i].1);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(l[i] != l[j]); assert(g.out_pred(v)(*l[i]) && g.out_pred(v)(*l[j])) by { assert(l.contains(l[i]) && l.contains(l[j])); assert(l.contains(&*l[i])); } }
    assert forall|i: int| 0 <= i < d.len() implies g.vset().contains(#[trigger] d[i]) by { assert(l.contains(l[i])); assert(g.out_pred(v)(*l[i])); assert(g.has_edge(*l[i])); }
    d.unique_seq_to_set();
    assert(d.to_set().subset_of(g.vset()));
    vstd::set_lib::lemma_len_subset(d.to_set(), g.vset());
}
pub proof fn lemma_few_in(g: DirectedGraph, v: VertexId, l: Seq<&Edge>)
    requires g.wf(), lists_edge_refs(l, g.in_pred(v)),
    ensures l.len() <= g.vset().len(),
{
    let d = Seq::new(l.len(), |i: int| l[i].0);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies d[i] != d[j] by { assert(l[i] != l[j]); assert(g.in_pred(v)(*l[i]) && g.in_pred(v)(*l[j])) by { assert(l.contains(l[i]) && l.contains(l[j])); } }
    assert forall|i: int| 0 <= i < d.len() implies g.vset().contains(#[trigger] d[i]) by { assert(l.contains(l[i])); assert(g.in_pred(v)(*l[i])); assert(g.has_edge(*l[i])); }
    d.unique_seq_to_set();
    assert(d.to_set().subset_of(g.vset()));
    vstd::set_lib::lemma_len_subset(d.to_set(), g.vset());
}
// ---- pushing more flow along a path
pub open spec fn shift(d: int, a: VertexId, b: VertexId, v: VertexId) -> int { (if v == a { d } else { 0 }) - (if v == b { d } else { 0 }) }
pub open spec fn on_map(m: Map<Edge, (u64, u64)>, z: Seq<Arc>) -> bool { forall|i: int| 0 <= i < z.len() - 1 ==> m.contains_key(#[trigger] arc_edge(z, i)) }
pub open spec fn has_room(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, d: int) -> bool { forall|i: int| 0 <= i < z.len() - 1 ==> d <= #[trigger] arc_room(m, z, i) }
pub open spec fn holds_path(es: Seq<Edge>, z: Seq<Arc>) -> bool { es.no_duplicates() && forall|i: int| 0 <= i < z.len() - 1 ==> es.contains(#[trigger] arc_edge(z, i)) }
/// m2 is m with d more along the first k steps of z
pub open spec fn more(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, k: int, d: int, m2: Map<Edge, (u64, u64)>) -> bool {
    &&& m2.dom() == m.dom()
    &&& within(m2)
    &&& forall|e: Edge| #[trigger] m2.contains_key(e) ==> m2[e].1 == m[e].1
    &&& forall|i: int| k <= i < z.len() - 1 ==> m2[#[trigger] arc_edge(z, i)] == m[arc_edge(z, i)]
    &&& forall|es: Seq<Edge>, v: VertexId| holds_path(es, z) ==> #[trigger] net(flow_of(m2), es, v) == net(flow_of(m), es, v) + shift(d, z[0].0, z[k].0, v)
}
pub proof fn lemma_more(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, k: int, d: int, m1: Map<Edge, (u64, u64)>, m2: Map<Edge, (u64, u64)>)
    requires on_map(m, z), has_room(m, z, d), verts(z).no_duplicates(), 0 <= k < z.len() - 1, d >= 0, more(m, z, k, d, m1), within(m),
        m2 == m1.insert(arc_edge(z, k), (pushed_more(m, z, k, d), m[arc_edge(z, k)].1)),
    ensures more(m, z, k + 1, d, m2),
{
    let e = arc_edge(z, k);
    assert(m.contains_key(e));
    assert(m1.contains_key(e));
    assert(m2.dom() =~= m.dom());
    assert(d <= arc_room(m, z, k));
    assert(m1[e] == m[e]);
    assert forall|i: int| k + 1 <= i < z.len() - 1 implies m2[#[trigger] arc_edge(z, i)] == m[arc_edge(z, i)] by {
        assert(verts(z)[i] != verts(z)[k] && verts(z)[i] != verts(z)[k + 1] || i == k + 1);
        assert(verts(z)[i + 1] != verts(z)[k] && verts(z)[i + 1] != verts(z)[k + 1]);
        assert(arc_edge(z, i) != e);
    }
    assert forall|es: Seq<Edge>, v: VertexId| holds_path(es, z) implies #[trigger] net(flow_of(m2), es, v) == net(flow_of(m), es, v) + shift(d, z[0].0, z[k + 1].0, v) by {
        assert(es.contains(e));
        lemma_net_update(m1, e, (pushed_more(m, z, k, d), m[e].1), es, v);
        assert(net(flow_of(m1), es, v) == net(flow_of(m), es, v) + shift(d, z[0].0, z[k].0, v));
        assert(verts(z)[k] != verts(z)[k + 1]);
    }
}
pub open spec fn pushed_more(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, k: int, d: int) -> u64 {
    match z[k + 1].1 { Direction::Forward => (m[arc_edge(z, k)].0 + d) as u64, Direction::Backward => (m[arc_edge(z, k)].0 - d) as u64 }
}
/// the flow after a push along a path exists: what it carries is known before the push is made
pub proof fn lemma_can_push(m: Map<Edge, (u64, u64)>, z: Seq<Arc>, k: int, d: int) -> (m2: Map<Edge, (u64, u64)>)
    requires on_map(m, z), has_room(m, z, d), verts(z).no_duplicates(), 0 <= k <= z.len() - 1, d >= 0, within(m),
    ensures more(m, z, k, d, m2),
    decreases k,
{
    if k == 0 { m } else {
        let m1 = lemma_can_push(m, z, k - 1, d);
        let m2 = m1.insert(arc_edge(z, k - 1), (pushed_more(m, z, k - 1, d), m[arc_edge(z, k - 1)].1));
        lemma_more(m, z, k - 1, d, m1, m2);
        m2
    }
}
// ---- the ways on from a vertex
pub open spec fn forwards(l: Seq<&Edge>, w: Seq<(&VertexId, Direction)>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] w[i] == (&l[i].1, Direction::Forward) }
pub open spec fn backwards(l: Seq<&Edge>, w: Seq<(&VertexId, Direction)>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] w[i] == (&l[i].0, Direction::Backward) }
pub open spec fn fw_ways(g: DirectedGraph, v: VertexId, w: Seq<(&VertexId, Direction)>) -> bool {
    forall|x: VertexId, d: Direction| #[trigger] w.contains((&x, d)) <==> d == Direction::Forward && g.has_edge(Edge(v, x))
}
pub open spec fn bw_ways(g: DirectedGraph, v: VertexId, w: Seq<(&VertexId, Direction)>) -> bool {
    forall|x: VertexId, d: Direction| #[trigger] w.contains((&x, d)) <==> d == Direction::Backward && g.has_edge(Edge(x, v))
}
pub proof fn lemma_fw(g: DirectedGraph, v: VertexId, l: Seq<&Edge>, w: Seq<(&VertexId, Direction)>)
    requires lists_edge_refs(l, g.out_pred(v)), l.len() == w.len(), forwards(l, w),
    ensures fw_ways(g, v, w),
{
    assert forall|x: VertexId, d: Direction| #[trigger] w.contains((&x, d)) <==> d == Direction::Forward && g.has_edge(Edge(v, x)) by {
        if w.contains((&x, d)) {
            let i = choose|i: int| 0 <= i < w.len() && w[i] == (&x, d);
            assert(g.out_pred(v)(*l[i]));
            assert(*l[i] == Edge(v, x));
        }
        if d == Direction::Forward && g.has_edge(Edge(v, x)) {
            assert(g.out_pred(v)(Edge(v, x)));
            assert(l.contains(&Edge(v, x)));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == &Edge(v, x);
            assert(w[i] == (&x, d));
        }
    }
}
pub proof fn lemma_bw(g: DirectedGraph, v: VertexId, l: Seq<&Edge>, w: Seq<(&VertexId, Direction)>)
    requires lists_edge_refs(l, g.in_pred(v)), l.len() == w.len(), backwards(l, w),
    ensures bw_ways(g, v, w),
{
    assert forall|x: VertexId, d: Direction| #[trigger] w.contains((&x, d)) <==> d == Direction::Backward && g.has_edge(Edge(x, v)) by {
        if w.contains((&x, d)) {
            let i = choose|i: int| 0 <= i < w.len() && w[i] == (&x, d);
            assert(g.in_pred(v)(*l[i]));
            assert(*l[i] == Edge(x, v));
        }
        if d == Direction::Backward && g.has_edge(Edge(x, v)) {
            assert(g.in_pred(v)(Edge(x, v)));
            assert(l.contains(&Edge(x, v)));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == &Edge(x, v);
            assert(w[i] == (&x, d));
        }
    }
}
/// a is what remains of both lists without the vertices of p
pub proof fn lemma_ways(g: DirectedGraph, p: Seq<Arc>, fw: Seq<(&VertexId, Direction)>, bw: Seq<(&VertexId, Direction)>, a: Seq<(&VertexId, Direction)>)
    requires p.len() > 0, fw_ways(g, p[p.len() - 1].0, fw), bw_ways(g, p[p.len() - 1].0, bw),
        forall|x: (&VertexId, Direction)| #[trigger] a.contains(x) ==> (fw + bw).contains(x) && !verts(p).contains(*x.0),
        forall|x: (&VertexId, Direction)| #[trigger] (fw + bw).contains(x) ==> verts(p).contains(*x.0) || a.contains(x),
    ensures ways(g, p, a),
{
    let s = fw + bw;
    let v = p[p.len() - 1].0;
    assert forall|x: VertexId, d: Direction| #[trigger] s.contains((&x, d)) <==> g.has_edge(used(v, (x, d))) by {
        if s.contains((&x, d)) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == (&x, d);
            if i < fw.len() { assert(fw[i] == s[i]); assert(fw.contains((&x, d))); } else { assert(bw[i - fw.len()] == s[i]); assert(bw.contains((&x, d))); }
        }
        if g.has_edge(used(v, (x, d))) {
            match d {
                Direction::Forward => { assert(fw.contains((&x, d))); let i = choose|i: int| 0 <= i < fw.len() && fw[i] == (&x, d); assert(s[i] == (&x, d)); }
                Direction::Backward => { assert(bw.contains((&x, d))); let i = choose|i: int| 0 <= i < bw.len() && bw[i] == (&x, d); assert(s[fw.len() + i] == (&x, d)); }
            }
        }
    }
    assert forall|i: int| 0 <= i < a.len() implies way(g, p, (*(#[trigger] a[i]).0, a[i].1)) by { assert(a.contains(a[i])); assert(s.contains((&*a[i].0, a[i].1))); }
    assert forall|x: VertexId, d: Direction| #[trigger] way(g, p, (x, d)) implies a.contains((&x, d)) by { assert(s.contains((&x, d))); }
}
// ---- a list of the edges
/// l are the steps of z
pub open spec fn steps_of(l: Seq<(Edge, Direction)>, z: Seq<Arc>) -> bool {
    l.len() == (if z.len() > 0 { z.len() - 1 } else { 0 }) && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == (Edge(z[i].0, z[i + 1].0), z[i + 1].1)
}
