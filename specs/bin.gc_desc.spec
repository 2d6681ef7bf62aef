@source command/src/bin/gc-desc.rs
@broadcast lean
@items
use crate::graph_utils::*;
use crate::graph::Edge;
/// x is the least (greatest) id
pub open spec fn least(g: DirectedGraph, x: VertexId) -> bool { g.has_vertex(x) && forall|v: VertexId| #[trigger] g.has_vertex(v) ==> x.0 <= v.0 }
pub open spec fn greatest(g: DirectedGraph, x: VertexId) -> bool { g.has_vertex(x) && forall|v: VertexId| #[trigger] g.has_vertex(v) ==> v.0 <= x.0 }
pub open spec fn least_text(g: DirectedGraph, t: Seq<char>) -> bool { if g.vset().len() == 0 { t == "-"@ } else { exists|x: VertexId| #[trigger] least(g, x) && t == dec(x.0 as nat) } }
pub open spec fn greatest_text(g: DirectedGraph, t: Seq<char>) -> bool { if g.vset().len() == 0 { t == "-"@ } else { exists|x: VertexId| #[trigger] greatest(g, x) && t == dec(x.0 as nat) } }
/// t is a line with what is shown of x
pub open spec fn line(t: Seq<char>, head: Seq<char>, x: Seq<char>) -> bool { t == head + x + "\n"@ }
@fn main
@cli
@effect print => texts = texts.push($1@);
@effect .min => if $r is Some { assert(least(graph, VertexId(*$r.unwrap()))); } else { assert(graph.vset().len() == 0); } lo = if $r is Some { dec(*$r.unwrap() as nat) } else { "-"@ }; assert(least_text(graph, lo));
@effect .max => if $r is Some { assert(greatest(graph, VertexId(*$r.unwrap()))); } else { assert(graph.vset().len() == 0); } hi = if $r is Some { dec(*$r.unwrap() as nat) } else { "-"@ }; assert(greatest_text(graph, hi));
@at entry
let ghost mut lo = Seq::<char>::empty();
let ghost mut hi = Seq::<char>::empty();
let ghost mut texts = Seq::<Seq<char>>::empty();
@closure 1 &u64
ensures *__r == __c1_0.0
@closure 2 String
ensures __r@ == dec(*x as nat)
@closure 3 String
ensures __r@ == "-"@
@closure 4 &u64
ensures *__r == __c4_0.0
@closure 5 String
ensures __r@ == dec(*x as nat)
@closure 6 String
ensures __r@ == "-"@
@at exit
// the options are those of the documentation
assert(args.takes_or("path"@, "."@) && args.short("path"@) == "p"@);
assert(loaded(args.texts("path"@)[0]@, Ok(graph)));
assert(texts.len() == 5);
assert(line(texts[1], "Vertices: "@, dec(graph.vset().len())));
assert(exists|es: Seq<Edge>| #[trigger] lists_edges(es, graph.edge_pred()) && line(texts[2], "Edges: "@, dec(es.len())));
assert(least_text(graph, lo) && line(texts[3], "Min vertex id: "@, lo));
assert(greatest_text(graph, hi) && line(texts[4], "Max vertex id: "@, hi));
