@source command/src/bin/gc-cycle.rs
@broadcast lean
@items
use crate::path::*;
use crate::path::Path;
use crate::constraint::constraint::sat;
/// sp is the path of the cycle with its score
pub open spec fn judged<F: Fn(&DirectedGraph, &Path) -> i64>(g: &DirectedGraph, c: Cycle, f: &F, sp: ScoredPath) -> bool { sp.path.vertices@ == c.vertices@ && call_ensures(*f, (g, &sp.path), sp.score) }
/// all the constraints hold
pub open spec fn meets_all(cs: Seq<Constraint>, p: ScoredPath) -> bool { forall|i: int| 0 <= i < cs.len() ==> sat(#[trigger] cs[i], p) }
/// the constraints of an option that gives several
pub open spec fn of_many(o: Option<Vec<Constraint>>) -> Seq<Constraint> { match o { Some(v) => v@, None => Seq::empty() } }
/// the constraints of an option that gives one
pub open spec fn of_one(o: Option<Constraint>) -> Seq<Constraint> { match o { Some(c) => seq![c], None => Seq::empty() } }
@items
use crate::iter::iter_cycle::cviews;
use crate::arg_utils::*;
use crate::graph_utils::*;
pub open spec fn included(s: Seq<VertexId>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::ContainsVertex(s[i])) }
pub open spec fn excluded(s: Seq<VertexId>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::Not(Box::new(Constraint::ContainsVertex(s[i])))) }
pub open spec fn included_edges(s: Seq<Edge>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::ContainsEdge(s[i])) }
pub open spec fn excluded_edges(s: Seq<Edge>) -> Seq<Constraint> { Seq::new(s.len(), |i: int| Constraint::Not(Box::new(Constraint::ContainsEdge(s[i])))) }
/// the ids given to an option; none when one of them cannot be read
pub open spec fn given(a: &ArgMatches, name: Seq<char>) -> Option<Seq<VertexId>> { if a.texts(name).len() > 0 && all_ids(a.texts(name)) { Some(ids_of(a.texts(name))) } else { None } }
pub open spec fn given_edges(a: &ArgMatches, name: Seq<char>) -> Option<Seq<Edge>> { if a.texts(name).len() > 0 && all_ids(a.texts(name)) && a.texts(name).len() % 2 == 0 { Some(edges_of(two_by_two(ids_of(a.texts(name))))) } else { None } }
pub open spec fn number(a: &ArgMatches, name: Seq<char>) -> Option<usize> { if a.texts(name).len() > 0 { usize::from_text(a.texts(name)[0]@) } else { None } }
pub open spec fn signed(a: &ArgMatches, name: Seq<char>) -> Option<i64> { if a.texts(name).len() > 0 { i64_text(a.texts(name)[0]@) } else { None } }
/// the constraints the options ask for, option by option
pub open spec fn for_include(a: &ArgMatches) -> Seq<Constraint> { match given(a, "include-all"@) { Some(s) => included(s), None => Seq::empty() } }
pub open spec fn for_exclude(a: &ArgMatches) -> Seq<Constraint> { match given(a, "exclude-all"@) { Some(s) => excluded(s), None => Seq::empty() } }
pub open spec fn for_include_edges(a: &ArgMatches) -> Seq<Constraint> { match given_edges(a, "include-all-edges"@) { Some(s) => included_edges(s), None => Seq::empty() } }
pub open spec fn for_exclude_edges(a: &ArgMatches) -> Seq<Constraint> { match given_edges(a, "exclude-all-edges"@) { Some(s) => excluded_edges(s), None => Seq::empty() } }
pub open spec fn for_min_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "min-length"@) { Some(n) => seq![Constraint::MinLength(n)], None => Seq::empty() } }
pub open spec fn for_max_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "max-length"@) { Some(n) => seq![Constraint::MaxLength(n)], None => Seq::empty() } }
pub open spec fn for_exact_length(a: &ArgMatches) -> Seq<Constraint> { match number(a, "exact-length"@) { Some(n) => seq![Constraint::MinLength(n), Constraint::MaxLength(n)], None => Seq::empty() } }
pub open spec fn for_min_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "min-score"@) { Some(n) => seq![Constraint::MinScore(n)], None => Seq::empty() } }
pub open spec fn for_max_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "max-score"@) { Some(n) => seq![Constraint::MaxScore(n)], None => Seq::empty() } }
pub open spec fn for_exact_score(a: &ArgMatches) -> Seq<Constraint> { match signed(a, "exact-score"@) { Some(n) => seq![Constraint::MinScore(n), Constraint::MaxScore(n)], None => Seq::empty() } }
/// exactly the constraints asked for
pub open spec fn all_asked(a: &ArgMatches) -> Multiset<Constraint> {
    Multiset::<Constraint>::empty().add(for_include(a).to_multiset()).add(for_exclude(a).to_multiset()).add(for_include_edges(a).to_multiset()).add(for_exclude_edges(a).to_multiset())
    .add(for_min_length(a).to_multiset()).add(for_max_length(a).to_multiset()).add(for_exact_length(a).to_multiset())
    .add(for_min_score(a).to_multiset()).add(for_max_score(a).to_multiset()).add(for_exact_score(a).to_multiset())
}
/// the path of the cycle, its score the number of its vertices
pub open spec fn scored_of(c: Cycle) -> ScoredPath { ScoredPath { path: Path { vertices: c.vertices }, score: c.vertices@.len() as i64 } }
/// the cycles of the graph which satisfy the constraints, each once
pub open spec fn wanted(g: DirectedGraph, cs: Seq<Constraint>, list: Seq<Cycle>) -> bool {
    list.no_duplicates() && exists|out: Seq<Cycle>| #[trigger] enumeration(g, cviews(out)) && forall|c: Cycle| #[trigger] list.contains(c) <==> out.contains(c) && meets_all(cs, scored_of(c))
}
pub open spec fn ids_in(c: Cycle) -> Seq<u64> { Seq::new(c.vertices@.len(), |i: int| c.vertices@[i].0) }
pub open spec fn cycle_text(c: Cycle) -> Seq<char> { "["@ + commas(ids_in(c)) + "]"@ }
pub open spec fn cycle_opt_text(c: Option<Cycle>) -> Seq<char> { match c { Some(c) => cycle_text(c), None => "N/A"@ } }
pub open spec fn girth_text(g: Option<usize>) -> Seq<char> { match g { Some(n) => if n == 0 { "Infinity"@ } else { dec(n as nat) }, None => "Infinity"@ } }
/// one cycle per line
pub open spec fn cycle_lines(s: Seq<Cycle>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cycle_lines(s.drop_last()) + cycle_text(s.last()) + "\n"@ } }
pub open spec fn a_shortest(s: Seq<Cycle>, c: Option<Cycle>) -> bool { match c { Some(x) => s.contains(x) && forall|y: Cycle| #[trigger] s.contains(y) ==> x.vertices@.len() <= y.vertices@.len(), None => s.len() == 0 } }
pub open spec fn a_longest(s: Seq<Cycle>, c: Option<Cycle>) -> bool { match c { Some(x) => s.contains(x) && forall|y: Cycle| #[trigger] s.contains(y) ==> y.vertices@.len() <= x.vertices@.len(), None => s.len() == 0 } }
/// how many cycles are shown
pub open spec fn shown_n(a: &ArgMatches, n: nat) -> nat {
    match (if a.has("head"@) { Some(1usize) } else { number(a, "take-n"@) }) { Some(k) => if k <= n { k as nat } else { n }, None => if a.has("all"@) { n } else { 0 } }
}
/// what is printed
pub open spec fn answer(a: &ArgMatches, list: Seq<Cycle>, girth: Option<usize>, ham: Option<Cycle>, pick: Option<Cycle>) -> Seq<char> {
    if a.has("girth"@) { "girth: "@ + girth_text(girth) + "\n"@ }
    else if a.has("hamiltonian"@) { "hamiltonian: "@ + cycle_opt_text(ham) + "\n"@ }
    else if a.has("count"@) { "count: "@ + dec(list.len()) + "\n"@ }
    else if a.has("shortest"@) { "shortest cycle: "@ + cycle_opt_text(pick) + "\n"@ }
    else if a.has("longest"@) { "longest cycle: "@ + cycle_opt_text(pick) + "\n"@ }
    else { cycle_lines(list.take(shown_n(a, list.len()) as int)) }
}
pub open spec fn girth_is(g: DirectedGraph, r: Option<usize>) -> bool {
    exists|out: Seq<Cycle>| #[trigger] enumeration(g, cviews(out)) && match r {
        Some(k) => (exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).vertices@.len() == k) && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() >= k,
        None => out.len() == 0,
    }
}
pub open spec fn ham_is(g: DirectedGraph, r: Option<Cycle>) -> bool {
    exists|out: Seq<Cycle>| #[trigger] enumeration(g, cviews(out)) && match r {
        Some(c) => out.contains(c) && c.vertices@.len() == g.vset().len(),
        None => forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() != g.vset().len(),
    }
}
@fn build_all_constraints
ensures r@.to_multiset() == Multiset::<Constraint>::empty()
    .add(of_many(constraint_include_all).to_multiset())
    .add(of_many(constraint_exclude_all).to_multiset())
    .add(of_many(constraint_include_all_edges).to_multiset())
    .add(of_many(constraint_exclude_all_edges).to_multiset())
    .add(of_one(constraint_min_length).to_multiset())
    .add(of_one(constraint_max_length).to_multiset())
    .add(of_many(constraint_exact_length).to_multiset())
    .add(of_one(constraint_min_score).to_multiset())
    .add(of_one(constraint_max_score).to_multiset())
    .add(of_many(constraint_exact_score).to_multiset()),
@at entry
let ghost mut before = Seq::<Constraint>::empty();
proof { Seq::<Constraint>::empty().to_multiset_ensures(); assert(Seq::<Constraint>::empty().to_multiset() =~= Multiset::<Constraint>::empty()); }
@loop 1
invariant constraints@ == before + __it1.done(), __all1 == of_many(constraint_include_all),
@at before loop 1
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 1 end
proof { assert(constraints@ =~= before + __it1.done()); }
@at after loop 1
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all1); }
@loop 2
invariant constraints@ == before + __it2.done(), __all2 == of_many(constraint_exclude_all),
@at before loop 2
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 2 end
proof { assert(constraints@ =~= before + __it2.done()); }
@at after loop 2
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all2); }
@loop 3
invariant constraints@ == before + __it3.done(), __all3 == of_many(constraint_include_all_edges),
@at before loop 3
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 3 end
proof { assert(constraints@ =~= before + __it3.done()); }
@at after loop 3
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all3); }
@loop 4
invariant constraints@ == before + __it4.done(), __all4 == of_many(constraint_exclude_all_edges),
@at before loop 4
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 4 end
proof { assert(constraints@ =~= before + __it4.done()); }
@at after loop 4
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all4); }
@loop 5
invariant constraints@ == before + __it5.done(), __all5 == of_one(constraint_min_length),
@at before loop 5
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 5 end
proof { assert(constraints@ =~= before + __it5.done()); }
@at after loop 5
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all5); }
@loop 6
invariant constraints@ == before + __it6.done(), __all6 == of_one(constraint_max_length),
@at before loop 6
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 6 end
proof { assert(constraints@ =~= before + __it6.done()); }
@at after loop 6
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all6); }
@loop 7
invariant constraints@ == before + __it7.done(), __all7 == of_many(constraint_exact_length),
@at before loop 7
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 7 end
proof { assert(constraints@ =~= before + __it7.done()); }
@at after loop 7
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all7); }
@loop 8
invariant constraints@ == before + __it8.done(), __all8 == of_one(constraint_min_score),
@at before loop 8
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 8 end
proof { assert(constraints@ =~= before + __it8.done()); }
@at after loop 8
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all8); }
@loop 9
invariant constraints@ == before + __it9.done(), __all9 == of_one(constraint_max_score),
@at before loop 9
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 9 end
proof { assert(constraints@ =~= before + __it9.done()); }
@at after loop 9
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all9); }
@loop 10
invariant constraints@ == before + __it10.done(), __all10 == of_many(constraint_exact_score),
@at before loop 10
proof { before = constraints@; assert(before + Seq::<Constraint>::empty() =~= before); }
@at loop 10 end
proof { assert(constraints@ =~= before + __it10.done()); }
@at after loop 10
proof { vstd::seq_lib::lemma_multiset_commutative(before, __all10); }
@fn check
requires forall|p: &Path| #[trigger] call_requires(scorefn, (graph, p)),
ensures exists|sp: ScoredPath| #[trigger] judged(graph, *cycle, &scorefn, sp) && r == meets_all(constraints@, sp),
@closure 1 bool
ensures __r == sat(*c, scored_path)
@at exit
proof {
    assert forall|i: int| 0 <= i < constraints@.len() implies *constraints.view_seq()[i] == #[trigger] constraints@[i] by { }
    assert(ret_ == meets_all(constraints@, scored_path));
    assert(judged(graph, *cycle, &scorefn, scored_path));
}
@fn format_girth
ensures r@ == girth_text(g),
@fn format_cycle
@text
@debug
@effect .collect => assert(meant($r@) =~= ids_in(*cycle));
ensures r@ == cycle_text(*cycle),
@closure 1 &u64
ensures *__r == __c1_0.0
@fn format_cycle_opt
ensures r@ == (match cycle { Some(c) => cycle_text(*c), None => "N/A"@ }),
@fn main
@cli
@effect print => out = out + $1@;
@effect build_all_constraints => assert(of_many($1) =~= for_include(&args)); assert(of_many($2) =~= for_exclude(&args)); assert(of_many($3) =~= for_include_edges(&args)); assert(of_many($4) =~= for_exclude_edges(&args)); assert(of_one($5) =~= for_min_length(&args)); assert(of_one($6) =~= for_max_length(&args)); assert(of_many($7) =~= for_exact_length(&args)); assert(of_one($8) =~= for_min_score(&args)); assert(of_one($9) =~= for_max_score(&args)); assert(of_many($10) =~= for_exact_score(&args)); cs = $r@; assert(cs.to_multiset() == all_asked(&args));
@effect .filter => list = $r.all(); assert(wanted(graph, cs, list));
@effect girth => gr = $r;
@effect hamiltonian => ham = $r;
@effect .min_by_key => pick = $r; assert(a_shortest(list, pick));
@effect .max_by_key => pick = $r; assert(a_longest(list, pick));
@at entry
let ghost mut out = Seq::<char>::empty();
let ghost mut cs = Seq::<Constraint>::empty();
let ghost mut list = Seq::<Cycle>::empty();
let ghost mut gr: Option<usize> = None;
let ghost mut ham: Option<Cycle> = None;
let ghost mut pick: Option<Cycle> = None;
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.flag("girth"@));
assert(args.flag("hamiltonian"@));
assert(args.flag("count"@) && args.short("count"@) == "c"@);
assert(args.flag("head"@) && args.short("head"@) == "h"@);
assert(args.flag("all"@) && args.short("all"@) == "a"@);
assert(args.flag("shortest"@) && args.short("shortest"@) == "s"@);
assert(args.flag("longest"@) && args.short("longest"@) == "L"@);
assert(args.optional("take-n"@) && args.short("take-n"@) == "n"@);
assert(args.optional("min-length"@));
assert(args.optional("max-length"@));
assert(args.optional("exact-length"@));
assert(args.optional("min-score"@));
assert(args.optional("max-score"@));
assert(args.optional("exact-score"@));
assert(args.takes_list("include-all"@, 1));
assert(args.takes_list("exclude-all"@, 1));
assert(args.takes_list("include-all-edges"@, 2));
assert(args.takes_list("exclude-all-edges"@, 2));
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(cs.to_multiset() == all_asked(&args) && wanted(graph, cs, list));
assert(args.has("girth"@) ==> girth_is(graph, gr));
assert(!args.has("girth"@) && args.has("hamiltonian"@) ==> ham_is(graph, ham));
assert(!args.has("girth"@) && !args.has("hamiltonian"@) && !args.has("count"@) && args.has("shortest"@) ==> a_shortest(list, pick));
assert(!args.has("girth"@) && !args.has("hamiltonian"@) && !args.has("count"@) && !args.has("shortest"@) && args.has("longest"@) ==> a_longest(list, pick));
assert(out =~= answer(&args, list, gr, ham, pick));
@closure 1 Option<usize>
ensures __r == usize::from_text(x@)
@closure 2 Option<Vec<VertexId>>
ensures match __r { Some(x) => all_ids(ids.rest()) && x@ == ids_of(ids.rest()), None => !all_ids(ids.rest()) }
@closure 3 Option<Vec<VertexId>>
ensures match __r { Some(x) => all_ids(ids.rest()) && x@ == ids_of(ids.rest()), None => !all_ids(ids.rest()) }
@closure 4 Option<Vec<Edge>>
ensures match __r { Some(x) => all_ids(ids.rest()) && ids.rest().len() % 2 == 0 && x@ == edges_of(two_by_two(ids_of(ids.rest()))), None => !all_ids(ids.rest()) || ids.rest().len() % 2 != 0 }
@closure 5 Option<Vec<Edge>>
ensures match __r { Some(x) => all_ids(ids.rest()) && ids.rest().len() % 2 == 0 && x@ == edges_of(two_by_two(ids_of(ids.rest()))), None => !all_ids(ids.rest()) || ids.rest().len() % 2 != 0 }
@closure 6 Option<usize>
ensures __r == usize::from_text(x@)
@closure 7 Option<usize>
ensures __r == usize::from_text(x@)
@closure 8 Option<usize>
ensures __r == usize::from_text(x@)
@closure 9 Option<i64>
ensures __r == i64_text(x@)
@closure 10 Option<i64>
ensures __r == i64_text(x@)
@closure 11 Option<i64>
ensures __r == i64_text(x@)
@closure 12 bool
ensures __r == meets_all(constraints@, scored_of(*cycle))
@closure 13 i64
ensures __r == path.vertices@.len()
@closure 14 usize
ensures __r == c.vertices@.len()
@closure 15 usize
ensures __r == c.vertices@.len()
@loop 1
invariant out == cycle_lines(__all1.subrange(0, __it1.pos())),
@at loop 1 end
proof { assert(__all1.subrange(0, __it1.pos()).drop_last() =~= __all1.subrange(0, __it1.pos() - 1)); }
@at after loop 1
proof { assert(__all1.subrange(0, __it1.pos()) =~= __all1); }
@loop 2
invariant out == cycle_lines(__all2.subrange(0, __it2.pos())),
@at loop 2 end
proof { assert(__all2.subrange(0, __it2.pos()).drop_last() =~= __all2.subrange(0, __it2.pos() - 1)); }
@at after loop 2
proof { assert(__all2.subrange(0, __it2.pos()) =~= __all2); }
