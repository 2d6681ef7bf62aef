@source core/src/algorithm/cycle.rs
@broadcast lean
@items
use crate::graph::VertexId;
use crate::iter::iter_cycle::cviews;
@fn first
requires graph.wf(),
ensures match r { Some(c) => elem(*graph, c.vertices@) && min_first(c.vertices@), None => enumeration(*graph, Seq::<Seq<VertexId>>::empty()) },
@fn count
requires graph.wf(),
ensures exists|out: Seq<Seq<VertexId>>| #[trigger] enumeration(*graph, out) && r == out.len(),
@fn take
requires graph.wf(),
ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*graph, cviews(out)) && r@ == out.take(if n <= out.len() { n as int } else { out.len() as int }),
@fn take_all
requires graph.wf(),
ensures enumeration(*graph, cviews(r@)),
@fn girth
requires graph.wf(),
ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*graph, cviews(out)) && match r {
    Some(k) => (exists|i: int| 0 <= i < out.len() && (#[trigger] out[i]).vertices@.len() == k) && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() >= k,
    None => out.len() == 0,
},
@fn shortest
requires graph.wf(),
ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*graph, cviews(out)) && match r {
    Some(c) => out.contains(c) && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() >= c.vertices@.len(),
    None => out.len() == 0,
},
@fn longest
requires graph.wf(),
ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*graph, cviews(out)) && match r {
    Some(c) => out.contains(c) && forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() <= c.vertices@.len(),
    None => out.len() == 0,
},
@fn hamiltonian
requires graph.wf(),
ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*graph, cviews(out)) && match r {
    Some(c) => out.contains(c) && c.vertices@.len() == graph.vset().len(),
    None => forall|i: int| 0 <= i < out.len() ==> (#[trigger] out[i]).vertices@.len() != graph.vset().len(),
},
@closure 1 bool
ensures __r == (c.vertices@.len() == graph.vset().len())
