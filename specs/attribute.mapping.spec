@source core/src/attribute/mapping.rs
@items
impl<K, V> AttributeMapping<K, V> {
    pub open spec fn attrs(&self) -> Map<K, V> { self.mapping@ }
}
@fn no_vertex_mapping
ensures r.attrs() == Map::<VertexId, V>::empty(),
@fn no_edge_mapping
ensures r.attrs() == Map::<Edge, V>::empty(),
@fn AttributeMapping::new
ensures r.attrs() == Map::<Key, Value>::empty(), r.name@ == name@,
@fn AttributeMapping::name
ensures r@ == self.name@,
@fn AttributeMapping::add
ensures r, final(self).attrs() == old(self).attrs().insert(e, value), final(self).name == old(self).name,
@fn AttributeMapping::remove
ensures r == old(self).attrs().contains_key(*e), final(self).attrs() == old(self).attrs().remove(*e), final(self).name == old(self).name,
@fn AttributeMapping::as_closure
ensures forall|k: &K| #[trigger] call_requires(r, (k,)),
    forall|k: &K, o: Option<&V>| #[trigger] call_ensures(r, (k,), o) ==>
        o == (if self.attrs().contains_key(*k) { Some(&self.attrs()[*k]) } else { None }),
@closure 1 Option<&V>
ensures __r == (if self.attrs().contains_key(*e) { Some(&self.attrs()[*e]) } else { None })
@fn AttributeMapping::as_closure_with_defaults
ensures forall|k: &K| #[trigger] call_requires(r, (k,)),
    forall|k: &K, o: &V| #[trigger] call_ensures(r, (k,), o) ==>
        o == (if self.attrs().contains_key(*k) { &self.attrs()[*k] } else { default_value }),
@closure 1 &V
ensures __r == (if self.attrs().contains_key(*e) { &self.attrs()[*e] } else { default_value })
