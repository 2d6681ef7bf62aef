@source core/src/constraint/constraint.rs
@items
/// q is p or one of its extensions, with a score not lower
pub open spec fn prolongs(q: ScoredPath, p: ScoredPath) -> bool {
    &&& p.path.vertices@.len() <= q.path.vertices@.len()
    &&& p.path.vertices@ == q.path.vertices@.take(p.path.vertices@.len() as int)
    &&& p.score <= q.score
}
pub open spec fn listed_at(o: Seq<VertexId>, v: VertexId, a: int) -> bool {
    0 <= a < o.len() && o[a] == v && forall|b: int| a < b < o.len() ==> o[b] != v
}
/// the listed vertices appear in the listed order
pub open spec fn in_order(p: Seq<VertexId>, o: Seq<VertexId>) -> bool {
    forall|i: int, j: int, a: int, b: int| 0 <= i < j < p.len() && #[trigger] listed_at(o, p[i], a) && #[trigger] listed_at(o, p[j], b) ==> a <= b
}
/// the documented meaning of a constraint
pub open spec fn sat(c: Constraint, p: ScoredPath) -> bool
    decreases c,
{
    match c {
        Constraint::ContainsVertex(v) => p.path.vertices@.contains(v),
        Constraint::ContainsEdge(e) => p.path.has_step(e),
        Constraint::OrderedVertices(o) => in_order(p.path.vertices@, o@),
        Constraint::ContainsCycle => !p.path.vertices@.no_duplicates(),
        Constraint::MinLength(n) => p.path.vertices@.len() >= n,
        Constraint::MaxLength(n) => p.path.vertices@.len() <= n,
        Constraint::MinScore(n) => p.score >= n,
        Constraint::MaxScore(n) => p.score <= n,
        Constraint::Or(x, y) => sat(*x, p) || sat(*y, p),
        Constraint::Xor(x, y) => sat(*x, p) != sat(*y, p),
        Constraint::And(x, y) => sat(*x, p) && sat(*y, p),
        Constraint::Not(x) => !sat(*x, p),
    }
}
pub proof fn lemma_extends(p: ScoredPath, q: ScoredPath)
    requires prolongs(q, p),
    ensures
        forall|v: VertexId| p.path.vertices@.contains(v) ==> #[trigger] q.path.vertices@.contains(v),
        forall|e: Edge| p.path.has_step(e) ==> #[trigger] q.path.has_step(e),
        forall|o: Seq<VertexId>| #[trigger] in_order(q.path.vertices@, o) ==> in_order(p.path.vertices@, o),
        q.path.vertices@.no_duplicates() ==> p.path.vertices@.no_duplicates(),
{
    let ps = p.path.vertices@;
    let qs = q.path.vertices@;
    assert forall|i: int| 0 <= i < ps.len() implies ps[i] == qs[i] by { }
    assert forall|v: VertexId| ps.contains(v) implies #[trigger] qs.contains(v) by {
        let i = choose|i: int| 0 <= i < ps.len() && ps[i] == v;
        assert(qs[i] == v);
    }
    assert forall|e: Edge| p.path.has_step(e) implies #[trigger] q.path.has_step(e) by {
        let i = choose|i: int| 0 <= i < ps.len() - 1 && #[trigger] ps[i] == e.0 && ps[i + 1] == e.1;
        assert(qs[i] == e.0 && qs[i + 1] == e.1);
    }
    assert forall|o: Seq<VertexId>| #[trigger] in_order(qs, o) implies in_order(ps, o) by {
        assert forall|i: int, j: int, a: int, b: int| 0 <= i < j < ps.len() && #[trigger] listed_at(o, ps[i], a) && #[trigger] listed_at(o, ps[j], b) implies a <= b by {
            assert(listed_at(o, qs[i], a) && listed_at(o, qs[j], b));
        }
    }
}
@fn Constraint::check_partial
ensures !r ==> forall|q: ScoredPath| #[trigger] prolongs(q, *partial) ==> !sat(*self, q),
decreases self,
@at entry
proof { reveal_with_fuel(sat, 3); assert forall|q: ScoredPath| #[trigger] prolongs(q, *partial) implies
    (forall|v: VertexId| partial.path.vertices@.contains(v) ==> #[trigger] q.path.vertices@.contains(v))
    && (forall|e: Edge| partial.path.has_step(e) ==> #[trigger] q.path.has_step(e))
    && (forall|o: Seq<VertexId>| #[trigger] in_order(q.path.vertices@, o) ==> in_order(partial.path.vertices@, o))
    && (q.path.vertices@.no_duplicates() ==> partial.path.vertices@.no_duplicates())
    by { lemma_extends(*partial, q); } }
@fn Constraint::check_complete
ensures r == sat(*self, *full),
decreases self,
@fn Constraint::check_vertices_order
ensures r == in_order(path.vertices@, ordered@),
@loop 1
invariant __all1.len() == ordered@.len(), forall|i: int| 0 <= i < __all1.len() ==> #[trigger] __all1[i] == (i as usize, &ordered@[i]),
    forall|v: &VertexId| #[trigger] vertex_to_index@.contains_key(v) ==> listed_at(ordered@.take(__it1.pos()), *v, vertex_to_index@[v] as int),
    forall|v: VertexId, a: int| #[trigger] listed_at(ordered@.take(__it1.pos()), v, a) ==> vertex_to_index@.contains_key(&v),
@at loop 1 end
proof {
    let k = __it1.pos() - 1;
    let t0 = ordered@.take(k);
    let t1 = ordered@.take(k + 1);
    assert forall|v: VertexId, a: int| #[trigger] listed_at(t1, v, a) implies vertex_to_index@.contains_key(&v) by {
        if a < k {
            assert(t1[a] == t0[a]);
            assert forall|b: int| a < b < t0.len() implies t0[b] != v by { assert(t1[b] != v); }
            assert(listed_at(t0, v, a));
        }
    }
}
@at after loop 1
proof { assert(ordered@.take(__it1.pos()) =~= ordered@); }
@loop 2
invariant __all2 == refs(path.vertices@),
    start_from <= usize::MAX,
    forall|v: &VertexId| #[trigger] vertex_to_index@.contains_key(v) ==> listed_at(ordered@, *v, vertex_to_index@[v] as int),
    forall|v: VertexId, a: int| #[trigger] listed_at(ordered@, v, a) ==> vertex_to_index@.contains_key(&v),
    in_order(path.vertices@.take(__it2.pos()), ordered@),
    forall|i: int, a: int| 0 <= i < __it2.pos() && #[trigger] listed_at(ordered@, path.vertices@[i], a) ==> a <= start_from,
    start_from > 0 ==> exists|i: int| 0 <= i < __it2.pos() && #[trigger] listed_at(ordered@, path.vertices@[i], start_from as int),
@at after loop 2
proof { assert(path.vertices@.take(__it2.pos()) =~= path.vertices@); }
