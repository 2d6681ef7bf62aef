@source core/src/path.rs
@items
impl Path {
    #[verifier::inline]
    pub open spec fn vs(&self) -> Seq<VertexId> { self.vertices@ }
    pub open spec fn spec_last(&self) -> Option<&VertexId> {
        if self.vertices@.len() > 0 { Some(&self.vertices@[self.vertices@.len() - 1]) } else { None }
    }
    /// the edge e appears in the path
    pub open spec fn has_step(&self, e: Edge) -> bool {
        exists|i: int| 0 <= i < self.vertices@.len() - 1 && #[trigger] self.vertices@[i] == e.0 && self.vertices@[i + 1] == e.1
    }
}
impl VOrd for ScoredPath { open spec fn le(a: Self, b: Self) -> bool { a.score <= b.score } }
@fn Path::empty
ensures r.vertices@ == Seq::<VertexId>::empty(),
@fn Path::from
ensures r.vertices@ == vertices@,
@fn Path::is_empty
ensures r == (self.vertices@.len() == 0),
@fn Path::size
@impl
pub open spec fn spec_size(&self) -> usize { self.vertices@.len() as usize }
@spec spec_size
ensures r == self.vertices@.len(), r == self.spec_size(),
@fn Path::first
ensures r == (if self.vertices@.len() > 0 { Some(&self.vertices@[0]) } else { None }),
@fn Path::last
ensures r == self.spec_last(),
@fn Path::contains_vertex
@impl
pub open spec fn spec_contains_vertex(&self, v: &VertexId) -> bool { self.vertices@.contains(*v) }
@spec spec_contains_vertex
ensures r == self.vertices@.contains(*vertex), r == self.spec_contains_vertex(vertex),
@fn Path::contains_edge
ensures r == self.has_step(*edge),
@fn Path::to_vertex_list
ensures r.pos() == 0, r.all() == refs(self.vertices@),
@fn Path::to_edge_list
ensures r.pos() == 0, r.all().len() == if self.vertices@.len() > 0 { self.vertices@.len() - 1 } else { 0 },
    forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == Edge(self.vertices@[i], self.vertices@[i + 1]),
    forall|e: Edge| #![trigger r.all().contains(e)] #![trigger self.has_step(e)] r.all().contains(e) <==> self.has_step(e),
@at exit
proof {
    assert forall|e: Edge| #[trigger] ret_.all().contains(e) <==> self.has_step(e) by {
        if ret_.all().contains(e) { let i = choose|i: int| 0 <= i < ret_.all().len() && ret_.all()[i] == e; assert(self.vertices@[i] == e.0); }
        if self.has_step(e) { let i = choose|i: int| 0 <= i < self.vertices@.len() - 1 && #[trigger] self.vertices@[i] == e.0 && self.vertices@[i + 1] == e.1; assert(ret_.all()[i] == e); }
    }
}
@closure 1 Edge
requires slice@.len() == 2
ensures __r == Edge(slice@[0], slice@[1])
@fn Path::contains_cycle
ensures r == !self.vertices@.no_duplicates(),
@loop 1
invariant __all1 == refs(self.vertices@),
    forall|v: &VertexId| #[trigger] set@.contains(v) <==> __it1.done().contains(v),
    self.vertices@.take(__it1.pos()).no_duplicates(),
@at loop 1 begin
proof {
    let k = __it1.pos() - 1;
    if set@.contains(vid) {
        let d = __it1.done().drop_last();
        assert(d.contains(vid));
        let j = choose|j: int| 0 <= j < d.len() && d[j] == vid;
        assert(self.vertices@[j] == self.vertices@[k]);
    } else if self.vertices@.take(k).contains(*vid) {
        let j = choose|j: int| 0 <= j < k && self.vertices@.take(k)[j] == *vid;
        assert(__it1.done().drop_last()[j] == vid);
        assert(__it1.done().drop_last().contains(vid));
    }
    assert(self.vertices@.take(k + 1) =~= self.vertices@.take(k).push(*vid));
}
@at after loop 1
proof { assert(self.vertices@.take(__it1.pos()) =~= self.vertices@); }
@fn Path::append
ensures r.vertices@ == self.vertices@.push(vertex),
@fn ScoredPath::partial_cmp
ensures r == Some(int_cmp(self.score as int, other.score as int)),
@fn ScoredPath::cmp
ensures r == int_cmp(self.score as int, other.score as int),
