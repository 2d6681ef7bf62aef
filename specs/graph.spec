@source core/src/graph.rs
@items
impl VCmp for VertexId {
    open spec fn cmp_val(&self) -> int { self.0 as int }
    fn cmp_(&self, o: &Self) -> (r: Ordering) { self.0.cmp_(&o.0) }
    fn partial_cmp_(&self, o: &Self) -> (r: Option<Ordering>) { Some(self.cmp_(o)) }
}
@fn Edge::reverse
ensures r.0 == self.1, r.1 == self.0
@fn Edge::from
ensures r.0 == pair.0, r.1 == pair.1
