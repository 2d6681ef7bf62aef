@source core/src/constraint/checker.rs
@broadcast lean
@items
/// the constraint asks for the vertex v
pub open spec fn names(c: Constraint, v: VertexId) -> bool {
    match c {
        Constraint::ContainsVertex(x) => x == v,
        Constraint::ContainsEdge(e) => e.0 == v || e.1 == v,
        _ => false,
    }
}
pub open spec fn excludes(c: Constraint, v: VertexId) -> bool {
    match c { Constraint::Not(b) => match *b { Constraint::ContainsVertex(x) => x == v, _ => false }, _ => false }
}
pub open spec fn requires_vertex(cs: Seq<Constraint>, v: VertexId) -> bool {
    exists|i: int| 0 <= i < cs.len() && names(#[trigger] cs[i], v)
}
pub open spec fn forbids_vertex(cs: Seq<Constraint>, v: VertexId) -> bool {
    exists|i: int| 0 <= i < cs.len() && excludes(#[trigger] cs[i], v)
}
pub open spec fn vertex_conflict(cs: Seq<Constraint>) -> bool { exists|v: VertexId| #[trigger] requires_vertex(cs, v) && forbids_vertex(cs, v) }
pub open spec fn edge_conflict(cs: Seq<Constraint>) -> bool {
    exists|e: Edge| cs.contains(Constraint::ContainsEdge(e)) && #[trigger] cs.contains(Constraint::Not(Box::new(Constraint::ContainsEdge(e))))
}
pub open spec fn cycle_conflict(cs: Seq<Constraint>) -> bool {
    cs.contains(Constraint::ContainsCycle) && cs.contains(Constraint::Not(Box::new(Constraint::ContainsCycle)))
}
pub open spec fn length_conflict(cs: Seq<Constraint>) -> bool { bounds_conflict(0, cs) }
pub open spec fn score_conflict(cs: Seq<Constraint>) -> bool { bounds_conflict(2, cs) }
pub open spec fn num_of(k: int, c: Constraint) -> Option<int> {
    match c {
        Constraint::MinLength(n) => if k == 0 { Some(n as int) } else { None },
        Constraint::MaxLength(n) => if k == 1 { Some(n as int) } else { None },
        Constraint::MinScore(n) => if k == 2 { Some(n as int) } else { None },
        Constraint::MaxScore(n) => if k == 3 { Some(n as int) } else { None },
        _ => None,
    }
}
pub open spec fn twice(k: int, cs: Seq<Constraint>) -> bool {
    exists|i: int, j: int| 0 <= i < j < cs.len() && num_of(k, #[trigger] cs[i]) is Some && num_of(k, #[trigger] cs[j]) is Some
}
/// two bounds of the same kind, or a minimum above the maximum
pub open spec fn bounds_conflict(k: int, cs: Seq<Constraint>) -> bool {
    ||| twice(k, cs)
    ||| twice(k + 1, cs)
    ||| exists|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && num_of(k, #[trigger] cs[i]) is Some && num_of(k + 1, #[trigger] cs[j]) is Some
            && num_of(k, cs[i])->0 > num_of(k + 1, cs[j])->0
}
/// n is how many constraints of the kind k there are (up to two), f the first one's number
pub open spec fn counted(k: int, cs: Seq<Constraint>, n: int, f: int) -> bool {
    &&& n >= 0
    &&& n > 1 <==> twice(k, cs)
    &&& n == 0 <==> forall|i: int| 0 <= i < cs.len() ==> num_of(k, #[trigger] cs[i]) is None
    &&& n > 0 ==> exists|i: int| 0 <= i < cs.len() && num_of(k, #[trigger] cs[i]) == Some(f)
}
pub proof fn lemma_bounds(k: int, cs: Seq<Constraint>, n: int, f: int, n2: int, f2: int)
    requires counted(k, cs, n, f), counted(k + 1, cs, n2, f2),
    ensures bounds_conflict(k, cs) <==> n > 1 || n2 > 1 || (n > 0 && n2 > 0 && f > f2),
{
    if n == 1 && n2 == 1 {
        let i = choose|i: int| 0 <= i < cs.len() && num_of(k, #[trigger] cs[i]) == Some(f);
        let j = choose|j: int| 0 <= j < cs.len() && num_of(k + 1, #[trigger] cs[j]) == Some(f2);
        assert forall|a: int| 0 <= a < cs.len() && num_of(k, #[trigger] cs[a]) is Some implies a == i by { if a < i { assert(twice(k, cs)); } else if i < a { assert(twice(k, cs)); } }
        assert forall|b: int| 0 <= b < cs.len() && num_of(k + 1, #[trigger] cs[b]) is Some implies b == j by { if b < j { assert(twice(k + 1, cs)); } else if j < b { assert(twice(k + 1, cs)); } }
    }
}
/// m says where in cs the constraints of the kind k are
pub open spec fn places(m: Seq<int>, k: int, cs: Seq<Constraint>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> 0 <= #[trigger] m[i] < cs.len() && num_of(k, *refs(cs)[m[i]]) is Some
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> m[i] < m[j]
    &&& forall|i: int| 0 <= i < cs.len() ==> num_of(k, *#[trigger] refs(cs)[i]) is None || m.contains(i)
}
pub open spec fn places_first(m: Seq<int>, k: int, cs: Seq<Constraint>, n: int, f: int) -> bool {
    places(m, k, cs) && m.len() == n && (n > 0 ==> num_of(k, *refs(cs)[m[0]]) == Some(f))
}
pub proof fn lemma_places(k: int, cs: Seq<Constraint>, n: int, f: int)
    requires exists|m: Seq<int>| #![trigger m.len()] places_first(m, k, cs, n, f),
    ensures counted(k, cs, n, f),
{
    let m = choose|m: Seq<int>| #![trigger m.len()] places_first(m, k, cs, n, f);
    if n > 1 { assert(m[0] < m[1]); assert(num_of(k, cs[m[0]]) is Some && num_of(k, cs[m[1]]) is Some); }
    if twice(k, cs) {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < cs.len() && num_of(k, #[trigger] cs[i]) is Some && num_of(k, #[trigger] cs[j]) is Some;
        assert(*refs(cs)[i] == cs[i] && *refs(cs)[j] == cs[j]);
        assert(m.contains(i) && m.contains(j));
        let a = choose|a: int| 0 <= a < m.len() && m[a] == i;
        let b = choose|b: int| 0 <= b < m.len() && m[b] == j;
        assert(a != b);
    }
    if n > 0 { assert(num_of(k, cs[m[0]]) == Some(f)); }
    if n == 0 { assert forall|i: int| 0 <= i < cs.len() implies num_of(k, #[trigger] cs[i]) is None by { assert(*refs(cs)[i] == cs[i]); } }
}
@fn validate
ensures r.is_err() <==> vertex_conflict(constraints@) || edge_conflict(constraints@) || cycle_conflict(constraints@)
    || length_conflict(constraints@) || score_conflict(constraints@),
@fn ok
ensures r.is_ok(),
@fn fail
ensures r.is_err(),
@fn check_vertices_order
ensures r.is_ok(),
@fn check_vertex_inclusion_exclusion
ensures r.is_err() <==> vertex_conflict(constraints@),
@closure 1 Option<Vec<&VertexId>>
ensures match __r { Some(v) => forall|x: &VertexId| #![trigger v.seq().contains(x)] #![trigger names(*c, *x)] v.seq().contains(x) <==> names(*c, *x), None => forall|x: VertexId| !#[trigger] names(*c, x) }
@closure 2 Option<Vec<&VertexId>>
ensures match __r { Some(v) => forall|x: &VertexId| #![trigger v.seq().contains(x)] #![trigger excludes(*nc, *x)] v.seq().contains(x) <==> excludes(*nc, *x), None => forall|x: VertexId| !#[trigger] excludes(*nc, x) }
@at before if 1
proof {
    let cs = constraints@;
    assert forall|v: VertexId| #[trigger] vertex_inclusions@.contains(&v) <==> requires_vertex(cs, v) by {
        if requires_vertex(cs, v) { let i = choose|i: int| 0 <= i < cs.len() && names(#[trigger] cs[i], v); assert(*refs(cs)[i] == cs[i]); }
    }
    assert forall|v: VertexId| #[trigger] vertex_exclusions@.contains(&v) <==> forbids_vertex(cs, v) by {
        if forbids_vertex(cs, v) { let i = choose|i: int| 0 <= i < cs.len() && excludes(#[trigger] cs[i], v); assert(*refs(cs)[i] == cs[i]); }
    }
    if intersection@.len() > 0 {
        let v = **intersection@[0];
        assert(vertex_inclusions@.contains(&v) && vertex_exclusions@.contains(&v));
        assert(vertex_conflict(cs));
    }
    if vertex_conflict(cs) {
        let v = choose|v: VertexId| #[trigger] requires_vertex(cs, v) && forbids_vertex(cs, v);
        assert(intersection@.contains(&&v));
    }
}
@fn check_edge_inclusion_exclusion
ensures r.is_err() <==> edge_conflict(constraints@),
@at before if 1
proof {
    let cs = constraints@;
    assert forall|e: Edge| #[trigger] edge_inclusions@.contains(&e) <==> cs.contains(Constraint::ContainsEdge(e)) by { }
    assert forall|e: Edge| #[trigger] edge_exclusions@.contains(&e) <==> cs.contains(Constraint::Not(Box::new(Constraint::ContainsEdge(e)))) by { }
    if intersection@.len() > 0 {
        let e = **intersection@[0];
        assert(edge_inclusions@.contains(&e) && edge_exclusions@.contains(&e));
        assert(edge_conflict(cs));
    }
    if edge_conflict(cs) {
        let e = choose|e: Edge| cs.contains(Constraint::ContainsEdge(e)) && #[trigger] cs.contains(Constraint::Not(Box::new(Constraint::ContainsEdge(e))));
        assert(intersection@.contains(&&e));
    }
}
@fn check_cycle_inclusion_exclusion
ensures r.is_err() <==> cycle_conflict(constraints@),
@at before if 1
proof {
    let cs = constraints@;
    let c = Constraint::ContainsCycle;
    assert(contains_cycle <==> cs.contains(c)) by { assert(refs(cs).contains(&c) <==> cs.contains(c)); }
    assert(contains_no_cycle <==> cs.contains(Constraint::Not(Box::new(c)))) by {
        if cs.contains(Constraint::Not(Box::new(c))) {
            let i = choose|i: int| 0 <= i < cs.len() && cs[i] == Constraint::Not(Box::new(c));
            assert(*refs(cs)[i] == cs[i]);
        }
    }
}
@fn check_min_max_length
ensures r.is_err() <==> length_conflict(constraints@),
@at before if 1
proof {
    let cs = constraints@;
    let min_length_n = min_length@.len() as int;
    let min_length_f: int = if min_length@.len() > 0 { min_length@[0] as int } else { 0 };
    assert(exists|m: Seq<int>| #![trigger m.len()] places_first(m, 0, cs, min_length_n, min_length_f));
    lemma_places(0, cs, min_length_n, min_length_f);
    let max_length_n = max_length@.len() as int;
    let max_length_f: int = if max_length@.len() > 0 { max_length@[0] as int } else { 0 };
    assert(exists|m: Seq<int>| #![trigger m.len()] places_first(m, 1, cs, max_length_n, max_length_f));
    lemma_places(1, cs, max_length_n, max_length_f);
    lemma_bounds(0, cs, min_length_n, min_length_f, max_length_n, max_length_f);
}
@fn check_min_max_score
ensures r.is_err() <==> score_conflict(constraints@),
@at before if 1
proof {
    let cs = constraints@;
    let min_score_n = min_score@.len() as int;
    let min_score_f: int = if min_score@.len() > 0 { min_score@[0] as int } else { 0 };
    assert(exists|m: Seq<int>| #![trigger m.len()] places_first(m, 2, cs, min_score_n, min_score_f));
    lemma_places(2, cs, min_score_n, min_score_f);
    let max_score_n = max_score@.len() as int;
    let max_score_f: int = if max_score@.len() > 0 { max_score@[0] as int } else { 0 };
    assert(exists|m: Seq<int>| #![trigger m.len()] places_first(m, 3, cs, max_score_n, max_score_f));
    lemma_places(3, cs, max_score_n, max_score_f);
    lemma_bounds(2, cs, min_score_n, min_score_f, max_score_n, max_score_f);
}
@fn negated_constraints
ensures r.pos() == 0,
    forall|i: int| 0 <= i < constraints.seq().len() ==> match *(#[trigger] constraints.seq()[i]) { Constraint::Not(b) => r.all().contains(&*b), _ => true },
    forall|c: &Constraint| #[trigger] r.all().contains(c) <==> exists|i: int| 0 <= i < constraints.seq().len() && *(#[trigger] constraints.seq()[i]) == Constraint::Not(Box::new(*c)),
@at exit
proof {
    assert forall|i: int| 0 <= i < constraints.seq().len() implies match *(#[trigger] constraints.seq()[i]) { Constraint::Not(b) => ret_.all().contains(&*b), _ => true } by { }
    assert forall|c: &Constraint| #[trigger] ret_.all().contains(c) <==> exists|i: int| 0 <= i < constraints.seq().len() && *(#[trigger] constraints.seq()[i]) == Constraint::Not(Box::new(*c)) by { }
}
