@source command/src/bin/gc-csp.rs
@broadcast lean
@items
/// the constraints of an option that gives several
pub open spec fn of_many(o: Option<Vec<Constraint>>) -> Seq<Constraint> { match o { Some(v) => v@, None => Seq::empty() } }
/// the constraints of an option that gives one
pub open spec fn of_one(o: Option<Constraint>) -> Seq<Constraint> { match o { Some(c) => seq![c], None => Seq::empty() } }
use crate::arg_utils::*;
use crate::graph_utils::*;
pub open spec fn included(s: Seq<VertexId>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::ContainsVertex(s[i])) }
pub open spec fn excluded(s: Seq<VertexId>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::Not(Box::new(Constraint::ContainsVertex(s[i])))) }
/// the ids given to an option; none when one of them cannot be read
pub open spec fn given(a: &ArgMatches, name: Seq<char>) -> Option<Seq<VertexId>> { if a.texts(name).len() > 0 && all_ids(a.texts(name)) { Some(ids_of(a.texts(name))) } else { None } }
pub open spec fn number(a: &ArgMatches, name: Seq<char>) -> Option<usize> { if a.texts(name).len() > 0 { usize::from_text(a.texts(name)[0]@) } else { None } }
pub open spec fn signed(a: &ArgMatches, name: Seq<char>) -> Option<i64> { if a.texts(name).len() > 0 { i64_text(a.texts(name)[0]@) } else { None } }
/// the constraints the options ask for, option by option
pub open spec fn for_include(a: &ArgMatches) -> Seq<Constraint> { match given(a, "include"@) { Some(s) => included(s), None => Seq::empty() } }
pub open spec fn for_exclude(a: &ArgMatches) -> Seq<Constraint> { match given(a, "exclude"@) { Some(s) => excluded(s), None => Seq::empty() } }
pub open spec fn is_ordered(c: Constraint, s: Seq<VertexId>) -> bool { match c { Constraint::OrderedVertices(v) => v@ == s, _ => false } }
/// c are the constraints on the order
pub open spec fn for_ordered(a: &ArgMatches, c: Seq<Constraint>) -> bool { match given(a, "ordered"@) { Some(s) => c.len() == 1 && is_ordered(c[0], s), None => c.len() == 0 } }
pub open spec fn flag(a: &ArgMatches, name: Seq<char>, c: Constraint) -> Seq<Constraint> { if a.has(name) { seq![c] } else { Seq::empty() } }
pub open spec fn for_min_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "min-length"@) { Some(n) => seq![Constraint::MinLength(n)], None => Seq::empty() } }
pub open spec fn for_max_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "max-length"@) { Some(n) => seq![Constraint::MaxLength(n)], None => Seq::empty() } }
pub open spec fn for_exact_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "exact-length"@) { Some(n) => seq![Constraint::MinLength(n), Constraint::MaxLength(n)], None => Seq::empty() } }
pub open spec fn for_min_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "min-score"@) { Some(n) => seq![Constraint::MinScore(n)], None => Seq::empty() } }
pub open spec fn for_max_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "max-score"@) { Some(n) => seq![Constraint::MaxScore(n)], None => Seq::empty() } }
pub open spec fn for_exact_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "exact-score"@) { Some(n) => seq![Constraint::MinScore(n), Constraint::MaxScore(n)], None => Seq::empty() } }
/// all of them; o are those on the order
pub open spec fn all_asked(a: &ArgMatches, o: Seq<Constraint>) -> Multiset<Constraint> {
    Multiset::<Constraint>::empty().add(for_include(a).to_multiset()).add(for_exclude(a).to_multiset()).add(o.to_multiset())
    .add(flag(a, "include-cycle"@, Constraint::ContainsCycle).to_multiset()).add(flag(a, "no-cycle"@, Constraint::Not(Box::new(Constraint::ContainsCycle))).to_multiset())
    .add(for_min_length(a).to_multiset()).add(for_max_length(a).to_multiset()).add(for_exact_length(a).to_multiset())
    .add(for_min_score(a).to_multiset()).add(for_max_score(a).to_multiset()).add(for_exact_score(a).to_multiset())
}
/// the constraints are exactly those asked for
pub open spec fn as_asked(a: &ArgMatches, cs: Seq<Constraint>) -> bool { exists|o: Seq<Constraint>| for_ordered(a, o) && cs.to_multiset() == #[trigger] all_asked(a, o) }
pub open spec fn edges_in() -> spec_fn(Seq<VertexId>) -> int { |s: Seq<VertexId>| s.len() - 1 }
pub open spec fn nothing() -> spec_fn(Seq<VertexId>) -> int { |s: Seq<VertexId>| 0 }
pub open spec fn headed(start: VertexId, end: VertexId, score: i64) -> Seq<char> {
    "Constrained shortest path from vertex "@ + dec(start.0 as nat) + " to vertex "@ + dec(end.0 as nat) + " with total cost of "@ + score.shown() + "."@ + "\n"@
}
/// what is printed after the constraints
pub open spec fn answer(start: VertexId, end: VertexId, r: Option<ScoredPath>) -> Seq<char> {
    match r {
        Some(x) => headed(start, end, x.score) + listed(x.path.vertices@),
        None => "Vertex "@ + dec(end.0 as nat) + " is not reachable from vertex "@ + dec(start.0 as nat) + " within the given constraints."@ + "\n"@,
    }
}
/// r answers the search: the best path of those which satisfy the constraints
pub open spec fn answers(g: DirectedGraph, start: VertexId, end: VertexId, cs: Seq<Constraint>, r: Option<ScoredPath>) -> bool {
    &&& r is Some ==> solution(g, start, end, total(edges_in(), nothing()), cs, r->0)
    &&& forall|z: ScoredPath| #[trigger] solution(g, start, end, total(edges_in(), nothing()), cs, z) ==> r is Some && r->0.score <= z.score
}
@fn build_all_constraints
ensures r@.to_multiset() == Multiset::<Constraint>::empty()
    .add(of_many(constraint_include).to_multiset())
    .add(of_many(constraint_exclude).to_multiset())
    .add(of_one(constraint_ordered).to_multiset())
    .add(of_one(constraint_include_cycle).to_multiset())
    .add(of_one(constraint_no_cycle).to_multiset())
    .add(of_one(constraint_min_length).to_multiset())
    .add(of_one(constraint_max_length).to_multiset())
    .add(of_many(constraint_exact_length).to_multiset())
    .add(of_one(constraint_min_score).to_multiset())
    .add(of_one(constraint_max_score).to_multiset())
    .add(of_many(constraint_exact_score).to_multiset()),
@at entry
let ghost mut before = Seq::<Constraint>::empty();
proof { Seq::<Constraint>::empty().to_multiset_ensures(); assert(Seq::<Constraint>::empty().to_multiset() =~= Multiset::<Constraint>::empty()); }
@loop 1
invariant constraints@ == before + __it1.done(), __all1 == of_many(constraint_include),
@at before loop 1
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 1 end
proof { assert(constraints@ =~= before + __it1.done()); }
@at after loop 1
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all1); }
@loop 2
invariant constraints@ == before + __it2.done(), __all2 == of_many(constraint_exclude),
@at before loop 2
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 2 end
proof { assert(constraints@ =~= before + __it2.done()); }
@at after loop 2
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all2); }
@loop 3
invariant constraints@ == before + __it3.done(), __all3 == of_one(constraint_ordered),
@at before loop 3
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 3 end
proof { assert(constraints@ =~= before + __it3.done()); }
@at after loop 3
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all3); }
@loop 4
invariant constraints@ == before + __it4.done(), __all4 == of_one(constraint_include_cycle),
@at before loop 4
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 4 end
proof { assert(constraints@ =~= before + __it4.done()); }
@at after loop 4
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all4); }
@loop 5
invariant constraints@ == before + __it5.done(), __all5 == of_one(constraint_no_cycle),
@at before loop 5
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 5 end
proof { assert(constraints@ =~= before + __it5.done()); }
@at after loop 5
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all5); }
@loop 6
invariant constraints@ == before + __it6.done(), __all6 == of_one(constraint_min_length),
@at before loop 6
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 6 end
proof { assert(constraints@ =~= before + __it6.done()); }
@at after loop 6
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all6); }
@loop 7
invariant constraints@ == before + __it7.done(), __all7 == of_one(constraint_max_length),
@at before loop 7
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 7 end
proof { assert(constraints@ =~= before + __it7.done()); }
@at after loop 7
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all7); }
@loop 8
invariant constraints@ == before + __it8.done(), __all8 == of_many(constraint_exact_length),
@at before loop 8
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 8 end
proof { assert(constraints@ =~= before + __it8.done()); }
@at after loop 8
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all8); }
@loop 9
invariant constraints@ == before + __it9.done(), __all9 == of_one(constraint_min_score),
@at before loop 9
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 9 end
proof { assert(constraints@ =~= before + __it9.done()); }
@at after loop 9
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all9); }
@loop 10
invariant constraints@ == before + __it10.done(), __all10 == of_one(constraint_max_score),
@at before loop 10
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 10 end
proof { assert(constraints@ =~= before + __it10.done()); }
@at after loop 10
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all10); }
@loop 11
invariant constraints@ == before + __it11.done(), __all11 == of_many(constraint_exact_score),
@at before loop 11
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 11 end
proof { assert(constraints@ =~= before + __it11.done()); }
@at after loop 11
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all11); }
@fn shortest_path_with_constraints
requires graph.wf(),
ensures answers(*graph, start, end, constraints@, r),
@at exit
assert(scores_w(crate::search::a_star::one_weighted_edge, *graph, start, edges_in()) && scores_w(crate::search::a_star::zero_heuristic, *graph, start, nothing()));
assert(growing(*graph, start, total(edges_in(), nothing())));
@fn main
@cli
@effect print => out = out + $1@;
@effect shortest_path_with_constraints => found = $r; cs = $4@;
@effect build_all_constraints => assert(of_many($1) =~= for_include(&args)); assert(of_many($2) =~= for_exclude(&args)); assert(for_ordered(&args, of_one($3))); assert(of_one($4) =~= flag(&args, "include-cycle"@, Constraint::ContainsCycle)); assert(of_one($5) =~= flag(&args, "no-cycle"@, Constraint::Not(Box::new(Constraint::ContainsCycle)))); assert(of_one($6) =~= for_min_length(&args)); assert(of_one($7) =~= for_max_length(&args)); assert(of_many($8) =~= for_exact_length(&args)); assert(of_one($9) =~= for_min_score(&args)); assert(of_one($10) =~= for_max_score(&args)); assert(of_many($11) =~= for_exact_score(&args)); assert($r@.to_multiset() == all_asked(&args, of_one($3)));
@at entry
let ghost mut out = Seq::<char>::empty();
let ghost mut found: Option<ScoredPath> = None;
let ghost mut cs = Seq::<Constraint>::empty();
@closure 3 Option<Vec<VertexId>>
ensures match __r { Some(x) => all_ids(ids.rest()) && x@ == ids_of(ids.rest()), None => !all_ids(ids.rest()) }
@closure 4 Option<Vec<VertexId>>
ensures match __r { Some(x) => all_ids(ids.rest()) && x@ == ids_of(ids.rest()), None => !all_ids(ids.rest()) }
@closure 5 Option<Vec<VertexId>>
ensures match __r { Some(x) => all_ids(ids.rest()) && x@ == ids_of(ids.rest()), None => !all_ids(ids.rest()) }
@closure 6 Constraint
ensures __r == Constraint::ContainsCycle
@closure 7 Constraint
ensures __r == Constraint::Not(Box::new(Constraint::ContainsCycle))
@closure 8 Option<usize>
ensures __r == usize::from_text(x@)
@closure 9 Option<usize>
ensures __r == usize::from_text(x@)
@closure 10 Option<usize>
ensures __r == usize::from_text(x@)
@closure 11 Option<i64>
ensures __r == i64_text(x@)
@closure 12 Option<i64>
ensures __r == i64_text(x@)
@closure 13 Option<i64>
ensures __r == i64_text(x@)
@loop 1
invariant out == headed(start_vertex, end_vertex, score) + listed(shortest.vertices@.subrange(0, __it1.pos())), __all1 == refs(shortest.vertices@),
@at loop 1 end
proof { assert(shortest.vertices@.subrange(0, __it1.pos()).drop_last() =~= shortest.vertices@.subrange(0, __it1.pos() - 1)); }
@at after loop 1
proof { assert(shortest.vertices@.subrange(0, __it1.pos()) =~= shortest.vertices@); }
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.takes_one("start"@) && args.short("start"@) == "s"@);
assert(args.takes_one("end"@) && args.short("end"@) == "e"@);
assert(args.takes_list("include"@, 1));
assert(args.takes_list("exclude"@, 1));
assert(args.takes_list("ordered"@, 2));
assert(args.flag("include-cycle"@));
assert(args.flag("no-cycle"@));
assert(args.optional("min-length"@));
assert(args.optional("max-length"@));
assert(args.optional("exact-length"@));
assert(args.optional("min-score"@));
assert(args.optional("max-score"@));
assert(args.optional("exact-score"@));
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(u64_text(args.texts("start"@)[0]@) == Some(start_vertex.0) && u64_text(args.texts("end"@)[0]@) == Some(end_vertex.0));
assert(as_asked(&args, cs));
assert(answers(graph, start_vertex, end_vertex, cs, found));
assert(out =~= answer(start_vertex, end_vertex, found));
