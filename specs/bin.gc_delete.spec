@source command/src/bin/gc-delete.rs
@broadcast lean crate::arg_utils::lemma_vertices_of
@items
use crate::arg_utils::*;
/// what is asked of the command log: one list of vertices or of edges to remove
pub enum Asked { Vertices(Seq<char>, Seq<VertexId>), Edges(Seq<char>, Seq<(VertexId, VertexId)>) }
/// what the options ask for
pub open spec fn script(a: &ArgMatches) -> Multiset<Asked> {
    (if a.texts("vertex"@).len() > 0 { Multiset::singleton(Asked::Vertices(a.texts("path"@)[0]@, ids_of(a.texts("vertex"@)))) } else { Multiset::empty() })
    .add(if a.texts("edge"@).len() > 0 { Multiset::singleton(Asked::Edges(a.texts("path"@)[0]@, two_by_two(ids_of(a.texts("edge"@))))) } else { Multiset::empty() })
}
@fn main
@cli
@effect remove_vertices => asked = asked.insert(Asked::Vertices($1@, $2@));
@effect remove_edges => asked = asked.insert(Asked::Edges($1@, $2@));
@at entry
let ghost mut asked = Multiset::<Asked>::empty();
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(args.takes_list("vertex"@, 1) && args.short("vertex"@) == "v"@);
assert(args.takes_list("edge"@, 2) && args.short("edge"@) == "e"@);
assert(asked =~= script(&args));
@closure 1 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 2 u64
ensures u64_text(v@) == Some(__r)
@closure 3 Vec<VertexId>
ensures __r@ =~= vertices_of(vids.rest())
@closure 4 VertexId
ensures __r == VertexId(vid)
@closure 5 It<u64>
ensures __r.pos() == 0, __r.all().len() == vids.rest().len(), all_ids(vids.rest()), vertices_of(__r.all()) =~= ids_of(vids.rest())
@closure 6 u64
ensures u64_text(v@) == Some(__r)
@closure 7 Vec<VertexId>
ensures __r@ =~= vertices_of(vids.rest())
@closure 8 VertexId
ensures __r == VertexId(vid)
@closure 9 Vec<(VertexId, VertexId)>
ensures vids@.len() % 2 == 0, __r@ == two_by_two(vids@)
