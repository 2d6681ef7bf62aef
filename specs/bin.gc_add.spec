@source command/src/bin/gc-add.rs
@broadcast lean crate::arg_utils::lemma_vertices_of
@items
use crate::prelude::*;
use crate::arg_utils::*;
pub open spec fn chain_of(s: Seq<VertexId>) -> Seq<(VertexId, VertexId)> { Seq::new((s.len() - 1) as nat, |i: int| (s[i], s[i + 1])) }
pub open spec fn star_of(s: Seq<VertexId>) -> Seq<(VertexId, VertexId)> { Seq::new((s.len() - 1) as nat, |i: int| (s[0], s[i + 1])) }
pub open spec fn swapped(s: Seq<(VertexId, VertexId)>) -> Seq<(VertexId, VertexId)> { Seq::new(s.len(), |i: int| (s[i].1, s[i].0)) }
/// the edges from position i to the positions before m other than i
pub open spec fn clique_row(s: Seq<VertexId>, i: int, m: int) -> Seq<(VertexId, VertexId)> decreases m {
    if m <= 0 { Seq::empty() } else if m - 1 == i { clique_row(s, i, m - 1) } else { clique_row(s, i, m - 1).push((s[i], s[m - 1])) }
}
pub open spec fn clique_rows(s: Seq<VertexId>, n: int) -> Seq<(VertexId, VertexId)> decreases n {
    if n <= 0 { Seq::empty() } else { clique_rows(s, n - 1) + clique_row(s, n - 1, s.len() as int) }
}
/// all the edges between two positions
pub open spec fn clique_of(s: Seq<VertexId>) -> Seq<(VertexId, VertexId)> { clique_rows(s, s.len() as int) }
/// the definition says so: the edges of a clique are those between distinct positions
pub proof fn lemma_clique_row(s: Seq<VertexId>, i: int, m: int, e: (VertexId, VertexId))
    requires 0 <= i < s.len(), 0 <= m <= s.len(),
    ensures clique_row(s, i, m).contains(e) <==> exists|j: int| 0 <= j < m && j != i && e == (s[i], #[trigger] s[j]),
        clique_row(s, i, m).len() == if i < m { m - 1 } else { m },
    decreases m,
{
    if m > 0 {
        lemma_clique_row(s, i, m - 1, e);
        let r = clique_row(s, i, m - 1);
        if m - 1 != i {
            let q = r.push((s[i], s[m - 1]));
            if q.contains(e) && !r.contains(e) { let k = choose|k: int| 0 <= k < q.len() && q[k] == e; if k < r.len() { assert(r[k] == e); } assert(e == (s[i], s[m - 1])); }
            if r.contains(e) { let k = choose|k: int| 0 <= k < r.len() && r[k] == e; assert(q[k] == e); }
            if e == (s[i], s[m - 1]) { assert(q[r.len() as int] == e); }
        }
    } else if clique_row(s, i, m).contains(e) { }
}
pub proof fn lemma_clique_rows(s: Seq<VertexId>, n: int, e: (VertexId, VertexId))
    requires 0 <= n <= s.len(),
    ensures clique_rows(s, n).contains(e) <==> exists|i: int, j: int| 0 <= i < n && 0 <= j < s.len() && i != j && e == (#[trigger] s[i], #[trigger] s[j]),
    decreases n,
{
    if n > 0 {
        lemma_clique_rows(s, n - 1, e);
        lemma_clique_row(s, n - 1, s.len() as int, e);
        let a = clique_rows(s, n - 1);
        let b = clique_row(s, n - 1, s.len() as int);
        let q = a + b;
        if q.contains(e) { let k = choose|k: int| 0 <= k < q.len() && q[k] == e; if k < a.len() { assert(a[k] == e); } else { assert(b[k - a.len()] == e); } }
        if a.contains(e) { let k = choose|k: int| 0 <= k < a.len() && a[k] == e; assert(q[k] == e); }
        if b.contains(e) { let k = choose|k: int| 0 <= k < b.len() && b[k] == e; assert(q[a.len() + k] == e); }
    }
}
/// what is asked of the command log: one list of vertices or of edges
pub enum Asked { Vertices(Seq<char>, Seq<VertexId>), Edges(Seq<char>, Seq<(VertexId, VertexId)>) }
/// the vertices given to an option
pub open spec fn given(a: &ArgMatches, name: Seq<char>) -> Seq<VertexId> { ids_of(a.texts(name)) }
pub open spec fn turned(a: &ArgMatches, s: Seq<(VertexId, VertexId)>) -> Seq<(VertexId, VertexId)> { if a.has("reverse"@) { swapped(s) } else { s } }
/// the edges, when the option is there
pub open spec fn asked_edges(a: &ArgMatches, name: Seq<char>, s: Seq<(VertexId, VertexId)>) -> Multiset<Asked> {
    if a.texts(name).len() > 0 { Multiset::singleton(Asked::Edges(a.texts("path"@)[0]@, s)) } else { Multiset::empty() }
}
/// what the options ask for
pub open spec fn script(a: &ArgMatches) -> Multiset<Asked> {
    (if a.texts("vertex"@).len() > 0 { Multiset::singleton(Asked::Vertices(a.texts("path"@)[0]@, given(a, "vertex"@))) } else { Multiset::empty() })
    .add(asked_edges(a, "edge"@, turned(a, two_by_two(given(a, "edge"@)))))
    .add(asked_edges(a, "chain"@, turned(a, chain_of(given(a, "chain"@)))))
    .add(asked_edges(a, "cycle"@, turned(a, chain_of(given(a, "cycle"@).push(given(a, "cycle"@)[0])))))
    .add(asked_edges(a, "star"@, turned(a, star_of(given(a, "star"@)))))
    .add(asked_edges(a, "clique"@, clique_of(given(a, "clique"@))))
}
@fn chain_from_vertices
requires vertices@.len() > 0,
ensures r@ == chain_of(vertices@),
@attr #[verifier::loop_isolation(false)]
@loop 1
invariant vertices@.len() > 0, __all1.len() == vertices@.len() - 1, result@ == chain_of(vertices@).subrange(0, __it1.pos()),
@at before loop 1
proof { assert(chain_of(vertices@).subrange(0, 0) =~= Seq::<(VertexId, VertexId)>::empty()); }
@at loop 1 end
proof { assert(result@ =~= chain_of(vertices@).subrange(0, __it1.pos())); }
@at after loop 1
proof { assert(chain_of(vertices@).subrange(0, __it1.pos()) =~= chain_of(vertices@)); }
@fn cycle_from_vertices
ensures match r { Some(x) => vertices@.len() > 0 && x@ == chain_of(vertices@.push(vertices@[0])), None => vertices@.len() == 0 },
@closure 1 VertexId
ensures __r == *x
@closure 2 ~option
@fn star_from_vertices
requires vertices@.len() > 0,
ensures r@ == star_of(vertices@),
@attr #[verifier::loop_isolation(false)]
@loop 1
invariant vertices@.len() > 0, __all1.len() == vertices@.len() - 1, result@ == star_of(vertices@).subrange(0, __it1.pos()),
@at before loop 1
proof { assert(star_of(vertices@).subrange(0, 0) =~= Seq::<(VertexId, VertexId)>::empty()); }
@at loop 1 end
proof { assert(result@ =~= star_of(vertices@).subrange(0, __it1.pos())); }
@at after loop 1
proof { assert(star_of(vertices@).subrange(0, __it1.pos()) =~= star_of(vertices@)); }
@fn clique_from_vertices
ensures r@ == clique_of(vertices@), forall|e: (VertexId, VertexId)| #[trigger] r@.contains(e) <==> exists|i: int, j: int| 0 <= i < vertices@.len() && 0 <= j < vertices@.len() && i != j && e == (#[trigger] vertices@[i], #[trigger] vertices@[j]),
@loop 1
invariant __all1.len() == vertices@.len(), forall|i: int| 0 <= i < __all1.len() ==> #[trigger] __all1[i] == i, result@ == clique_rows(vertices@, __it1.pos()),
@at loop 1 begin
let ghost r1 = result@;
proof { assert(r1 + clique_row(vertices@, i as int, 0) =~= r1); }
@loop 2
invariant i < vertices@.len(), __all2.len() == vertices@.len(), forall|k: int| 0 <= k < __all2.len() ==> #[trigger] __all2[k] == k, result@ == r1 + clique_row(vertices@, i as int, __it2.pos()),
@at loop 2 end
proof { assert(result@ =~= r1 + clique_row(vertices@, i as int, __it2.pos())); }
@at exit
proof { assert forall|e: (VertexId, VertexId)| #[trigger] ret_@.contains(e) <==> exists|i: int, j: int| 0 <= i < vertices@.len() && 0 <= j < vertices@.len() && i != j && e == (#[trigger] vertices@[i], #[trigger] vertices@[j]) by { lemma_clique_rows(vertices@, vertices@.len() as int, e); } }
@fn reverse_if_needed
ensures r@ =~= (if should_reverse { swapped(vertices@) } else { vertices@ }),
@fn main
@cli
@effect add_vertices => asked = asked.insert(Asked::Vertices($1@, $2@));
@effect add_edges => asked = asked.insert(Asked::Edges($1@, $2@));
@at entry
let ghost mut asked = Multiset::<Asked>::empty();
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.flag("reverse"@) && args.short("reverse"@) == "r"@);
assert(args.takes_list("vertex"@, 1) && args.short("vertex"@) == "v"@);
assert(args.takes_list("edge"@, 2) && args.short("edge"@) == "e"@);
assert(args.takes_list("chain"@, 2) && args.short("chain"@) == "c"@);
assert(args.takes_list("cycle"@, 2) && args.short("cycle"@) == "O"@);
assert(args.takes_list("star"@, 2) && args.short("star"@) == "X"@);
assert(args.takes_list("clique"@, 2) && args.short("clique"@) == "C"@);
assert(asked =~= script(&args));
@closure 1 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 2 u64
ensures u64_text(v@) == Some(__r)
@closure 3 Vec<VertexId>
ensures __r@ =~= vertices_of(vids.rest())
@closure 4 VertexId
ensures __r == VertexId(vid)
@closure 5 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 6 u64
ensures u64_text(v@) == Some(__r)
@closure 7 Vec<VertexId>
ensures __r@ =~= vertices_of(vids.rest())
@closure 8 VertexId
ensures __r == VertexId(vid)
@closure 9 Vec<(VertexId, VertexId)>
ensures __r@ == two_by_two(vids@)
@closure 10 Vec<(VertexId, VertexId)>
ensures __r@ == (if reverse_edges { swapped(vids@) } else { vids@ })
@closure 11 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 12 u64
ensures u64_text(v@) == Some(__r)
@closure 13 Vec<(VertexId, VertexId)>
requires vids.rest().len() > 0
ensures __r@ == chain_of(vertices_of(vids.rest()))
@closure 14 VertexId
ensures __r == VertexId(vid)
@closure 15 Vec<(VertexId, VertexId)>
ensures __r@ == (if reverse_edges { swapped(vids@) } else { vids@ })
@closure 16 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 17 u64
ensures u64_text(v@) == Some(__r)
@closure 18 Vec<(VertexId, VertexId)>
ensures vids.rest().len() > 0, __r@ == chain_of(vertices_of(vids.rest()).push(vertices_of(vids.rest())[0]))
@closure 19 VertexId
ensures __r == VertexId(vid)
@closure 20 Vec<(VertexId, VertexId)>
ensures __r@ == (if reverse_edges { swapped(vids@) } else { vids@ })
@closure 21 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 22 u64
ensures u64_text(v@) == Some(__r)
@closure 23 Vec<(VertexId, VertexId)>
requires vids.rest().len() > 0
ensures __r@ == star_of(vertices_of(vids.rest()))
@closure 24 VertexId
ensures __r == VertexId(vid)
@closure 25 Vec<(VertexId, VertexId)>
ensures __r@ == (if reverse_edges { swapped(vids@) } else { vids@ })
@closure 26 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 27 u64
ensures u64_text(v@) == Some(__r)
@closure 28 Vec<(VertexId, VertexId)>
ensures __r@ == clique_of(vertices_of(vids.rest()))
@closure 29 VertexId
ensures __r == VertexId(vid)
