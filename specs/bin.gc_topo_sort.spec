@source command/src/bin/gc-topo-sort.rs
@broadcast lean
@items
use crate::graph_utils::*;
use crate::algorithm::topo_sort::*;
/// the ids, each followed by a blank
pub open spec fn spaced(s: Seq<VertexId>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { spaced(s.drop_last()) + dec(s.last().0 as nat) + " "@ } }
/// what is printed
pub open spec fn answer(r: Option<Vec<VertexId>>) -> Seq<char> {
    match r { Some(x) => "Topological order: "@ + spaced(x@) + "\n"@, None => "Graph is not a DAG."@ + "\n"@ }
}
@fn main
@cli
@effect print => out = out + $1@;
@effect topological_sort => found = $r;
@at entry
let ghost mut out = Seq::<char>::empty();
let ghost mut found: Option<Vec<VertexId>> = None;
@loop 1
invariant out == "Topological order: "@ + spaced(__it1.done()),
@at loop 1 end
proof { assert(__it1.done().drop_last() =~= __all1.subrange(0, __it1.pos() - 1)); }
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(match found { Some(o) => is_topo(graph, o@) && acyclic(graph), None => !acyclic(graph) });
assert(out =~= answer(found));
