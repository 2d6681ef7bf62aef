@source core/src/iter/iter_cycle.rs
@broadcast lean
@items
pub open spec fn cviews(s: Seq<Cycle>) -> Seq<Seq<VertexId>> { Seq::new(s.len(), |i: int| s[i].vertices@) }
/// the set of cycles that were returned, as a list
pub open spec fn same_cycles(ret: Set<Cycle>, out: Seq<Seq<VertexId>>) -> bool { forall|c: Cycle| #[trigger] ret.contains(c) <==> out.contains(c.vertices@) }
impl<'a> CycleIter<'a> {
    pub open spec fn wf(&self) -> bool { self.graph.wf() && all_pend(*self.graph, views(self.stack.items())) }
    pub open spec fn left(&self) -> nat { load(self.graph.vset().len(), self.graph.vset().len() + 1, views(self.stack.items())) }
    /// out has been yielded by a scan from roots
    pub open spec fn after(&self, roots: Set<VertexId>, out: Seq<Seq<VertexId>>) -> bool {
        cyc_inv(*self.graph, roots, out, views(self.stack.items())) && same_cycles(self.returned@, out)
    }
    /// a scan of the graph has just begun
    pub open spec fn begun(&self) -> bool { self.wf() && exists|roots: Set<VertexId>| #[trigger] scan_roots(*self.graph, roots) && self.after(roots, Seq::<Seq<VertexId>>::empty()) }
    /// all that next() yields until it answers None, in this order (what Iterator's own adapters consume)
    pub fn drain_(self) -> (r: It<Cycle>)
        requires self.begun(),
        ensures r.pos() == 0, enumeration(*self.graph, cviews(r.all())),
    {
        let mut it = self;
        let mut out: Vec<Cycle> = Vec::new();
        let ghost g = *self.graph;
        let ghost roots = choose|roots: Set<VertexId>| #[trigger] scan_roots(*self.graph, roots) && self.after(roots, Seq::<Seq<VertexId>>::empty());
        proof { assert(cviews(out@) =~= Seq::<Seq<VertexId>>::empty()); }
        loop
            invariant_except_break it.wf(), *it.graph == g, it.after(roots, cviews(out@)),
            invariant scan_roots(g, roots), g == *self.graph,
            ensures full_cyc(g, roots, cviews(out@)),
            decreases it.left(),
        {
            match it.next() {
                Some(c) => {
                    proof { assert(cviews(out@.push(c)) =~= cviews(out@).push(c.vertices@)); }
                    out.push(c);
                }
                None => { break; }
            }
        }
        It::from_vec(out)
    }
    pub fn count(self) -> (r: usize)
        requires self.begun(),
        ensures exists|out: Seq<Seq<VertexId>>| #[trigger] enumeration(*self.graph, out) && r == out.len(),
    { let d = self.drain_(); let ghost out = cviews(d.all()); let r = d.count(); proof { assert(enumeration(*self.graph, out)); } r }
    pub fn take(self, n: usize) -> (r: It<Cycle>)
        requires self.begun(),
        ensures r.pos() == 0, exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out)) && r.all() == out.take(if n <= out.len() { n as int } else { out.len() as int }),
    { self.drain_().take(n) }
    pub fn collect<C: FromIt<Cycle>>(self) -> (r: C)
        requires self.begun(),
        ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out)) && C::collected(out, r),
    { self.drain_().collect() }
    pub fn map<U, F: Fn(Cycle) -> U>(self, f: F) -> (r: It<U>)
        requires self.begun(), forall|c: Cycle| #[trigger] call_requires(f, (c,)),
        ensures r.pos() == 0, exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out)) && r.all().len() == out.len()
            && forall|i: int| #![trigger r.all()[i]] #![trigger out[i]] 0 <= i < out.len() ==> call_ensures(f, (out[i],), r.all()[i]),
    { self.drain_().map(f) }
    pub fn filter<F: Fn(&Cycle) -> bool>(self, f: F) -> (r: It<Cycle>)
        requires self.begun(), forall|c: Cycle| #[trigger] call_requires(f, (&c,)),
        ensures r.pos() == 0, r.all().no_duplicates(), exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out))
            && (forall|i: int| 0 <= i < r.all().len() ==> out.contains(#[trigger] r.all()[i]) && call_ensures(f, (&r.all()[i],), true))
            && (forall|i: int| 0 <= i < out.len() ==> call_ensures(f, (&#[trigger] out[i],), false) || r.all().contains(out[i]))
            && (forall|x: Cycle| #[trigger] r.all().contains(x) ==> out.contains(x) && call_ensures(f, (&x,), true))
            && (forall|x: Cycle| #[trigger] out.contains(x) ==> call_ensures(f, (&x,), false) || r.all().contains(x)),
    {
        let d = self.drain_();
        let ghost out = d.all();
        let r = d.filter(f);
        proof {
            assert forall|i: int, j: int| 0 <= i < j < out.len() implies out[i] != out[j] by { assert(cviews(out)[i] != cviews(out)[j]); }
            assert forall|i: int| 0 <= i < r.all().len() implies out.contains(#[trigger] r.all()[i]) && call_ensures(f, (&r.all()[i],), true) by { assert(r.all().contains(r.all()[i])); }
            assert forall|i: int| 0 <= i < out.len() implies call_ensures(f, (&#[trigger] out[i],), false) || r.all().contains(out[i]) by { assert(out.contains(out[i])); }
            assert(enumeration(*self.graph, cviews(out)));
        }
        r
    }
    pub fn min_by_key<K: VCmp, F: Fn(&Cycle) -> K>(self, f: F) -> (r: Option<Cycle>)
        requires self.begun(), forall|c: Cycle| #[trigger] call_requires(f, (&c,)),
        ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out)) && match r {
                Some(x) => out.contains(x) && exists|ks: Seq<K>, m: int| #![trigger ks[m]] keyed(out, ks, &f) && 0 <= m < ks.len() && out[m] == x
                    && forall|i: int| 0 <= i < ks.len() ==> ks[m].cmp_val() <= (#[trigger] ks[i]).cmp_val(),
                None => out.len() == 0,
            },
    { self.drain_().min_by_key(f) }
    pub fn max_by_key<K: VCmp, F: Fn(&Cycle) -> K>(self, f: F) -> (r: Option<Cycle>)
        requires self.begun(), forall|c: Cycle| #[trigger] call_requires(f, (&c,)),
        ensures exists|out: Seq<Cycle>| #[trigger] enumeration(*self.graph, cviews(out)) && match r {
                Some(x) => out.contains(x) && exists|ks: Seq<K>, m: int| #![trigger ks[m]] keyed(out, ks, &f) && 0 <= m < ks.len() && out[m] == x
                    && forall|i: int| 0 <= i < ks.len() ==> ks[m].cmp_val() >= (#[trigger] ks[i]).cmp_val(),
                None => out.len() == 0,
            },
    { self.drain_().max_by_key(f) }
}
@fn Cycle::from_path
ensures match r { Some(c) => c.vertices@ == path.vertices@ && c.vertices@.len() >= 2 && c.vertices@.no_duplicates(), None => path.vertices@.len() < 2 || !path.vertices@.no_duplicates() },
@fn Cycle::from_vertices
ensures match r { Some(c) => c.vertices@ == vertices@ && c.vertices@.len() >= 2 && c.vertices@.no_duplicates(), None => vertices@.len() < 2 || !vertices@.no_duplicates() },
@at entry
proof {
    let s = vertices@;
    if refs(s).no_duplicates() { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(refs(s)[i] != refs(s)[j]); } }
    if s.no_duplicates() { assert(refs(s).no_duplicates()); refs(s).unique_seq_to_set(); }
    if refs(s).to_set().len() == s.len() { refs(s).lemma_no_dup_set_cardinality(); }
}
@fn Cycle::as_path
ensures r.vertices@ == self.vertices@,
@fn Cycle::len
@impl
pub open spec fn spec_len(&self) -> usize { self.vertices@.len() as usize }
@spec spec_len
ensures r == self.vertices@.len(), r == self.spec_len(),
@fn Cycle::iter
ensures r.pos() == 0, r.all() == refs(self.vertices@),
@fn Cycle::canonical
requires self.vertices@.len() > 0,
ensures canon(self.vertices@, r.vertices@),
@closure 1 Ordering
ensures __r == int_cmp(x.1.0 as int, y.1.0 as int)
@at exit
proof {
    let k = min_position as int;
    let s = self.vertices@;
    lemma_rot(s, k);
    assert forall|i: int| 0 <= i < s.len() implies s[k].0 <= (#[trigger] s[i]).0 by { assert(*refs(s)[i] == s[i]); }
    assert(ret_.vertices@ =~= rot(s, k));
}
@fn Cycle::is_canonical
requires self.vertices@.len() > 0,
ensures r == min_first(self.vertices@),
@at entry
proof { assert forall|i: int| 0 <= i < self.vertices@.len() implies *refs(self.vertices@)[i] == #[trigger] self.vertices@[i] by { } }
@fn CycleIter::next
requires old(self).wf(),
ensures final(self).wf(), final(self).graph == old(self).graph,
    r is Some ==> final(self).left() < old(self).left(),
    forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(*old(self).graph, roots) ==> match r {
        Some(c) => final(self).after(roots, out.push(c.vertices@)) && cyc_visit(*old(self).graph, out.push(c.vertices@)),
        None => final(self).after(roots, out) && full_cyc(*old(self).graph, roots, out),
    },
    old(self).begun() ==> match r { Some(c) => elem(*old(self).graph, c.vertices@) && min_first(c.vertices@), None => enumeration(*old(self).graph, Seq::<Seq<VertexId>>::empty()) },
@at entry
let ghost g = *self.graph;
let ghost n = g.vset().len();
let ghost mut qh = views(self.stack.items());
@loop 1
invariant self.wf(), self.graph == old(self).graph, *self.graph == g, qh == views(self.stack.items()), self.left() <= old(self).left(),
    forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(g, roots) ==> self.after(roots, out),
decreases self.left(),
@at loop 1 begin
let ghost p0 = path.vertices@;
let ghost rest = qh.drop_last();
let ghost ret0 = self.returned@;
proof {
    assert(rest =~= views(self.stack.items()));
    assert(p0 == qh.last());
    assert(pend(g, qh[qh.len() - 1]));
    lemma_load_pos(n, if p0.len() > n + 1 { 0 } else { (n + 1 - p0.len()) as nat });
    assert(load(n, n + 1, rest) < load(n, n + 1, qh));
    assert forall|i: int| 0 <= i < rest.len() implies pend(g, #[trigger] rest[i]) by { assert(rest[i] == qh[i]); }
}
@at after call insert 1
proof {
    let c = cycle.vertices@;
    if ret0.contains(cycle) { assert(self.returned@ =~= ret0); } else {
    assert forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(g, roots) implies self.after(roots, out.push(c)) && cyc_visit(g, out.push(c)) by {
        assert(cyc_inv(g, roots, out, qh) && same_cycles(ret0, out));
        assert(!out.contains(c));
        lemma_cyc_found(g, roots, out, out.push(c), qh, p0, c);
    }
    }
    lemma_cyc(g, p0, c);
}
@at before loop 2
let ghost w = weight(n, (n - p0.len()) as nat);
proof {
    assert forall|l: Seq<&Edge>| #[trigger] lists_edge_refs(l, g.out_pred(*last)) && ends_of(__all2, l) implies targets(g, *last, __all2) by { lemma_targets(g, *last, l, __all2); }
    assert(targets(g, *last, __all2));
    lemma_pend_short(g, p0);
    lemma_few_targets(g, *last, __all2);
    assert(prolonged(p0, __it2.done(), rest, views(self.stack.items())));
    assert(0 * w == 0) by (nonlinear_arith);
}
@loop 2
invariant targets(g, *last, __all2), *self.graph == g, self.graph == old(self).graph, self.returned@ == ret0, path.vertices@ == p0, self.wf(),
    prolonged(p0, __it2.done(), rest, views(self.stack.items())),
    load(n, n + 1, views(self.stack.items())) == load(n, n + 1, rest) + __it2.done().len() * w,
@at loop 2 begin
let ghost q1 = views(self.stack.items());
proof {
    lemma_next_fresh(__all2, __it2.pos() - 1);
    assert(__all2.contains(v));
    lemma_pend_push(g, p0, *v);
}
@at loop 2 end
proof {
    let q2 = views(self.stack.items());
    assert(q2 =~= q1.push(p0.push(*v)));
    lemma_load_push(n, n + 1, q1, p0.push(*v));
    let d = __it2.done();
    assert(d.len() * w == d.drop_last().len() * w + w) by (nonlinear_arith) requires d.len() == d.drop_last().len() + 1;
    lemma_prolonged(p0, d.drop_last(), *v, rest, q1, q2);
    assert(d =~= d.drop_last().push(v));
}
@at after loop 2
proof {
    let q2 = views(self.stack.items());
    let k = __all2.len();
    assert(k * w <= n * w) by (nonlinear_arith) requires k <= n;
    assert(load(n, n + 1, q2) < load(n, n + 1, qh));
    assert forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(g, roots) implies self.after(roots, out) by {
        assert(cyc_inv(g, roots, out, qh) && same_cycles(ret0, out));
        lemma_cyc_extend(g, roots, out, qh, p0, __all2, q2);
    }
}
@at loop 1 end
proof {
    if closes(p0) {
        assert(views(self.stack.items()) == rest);
        let c = choose|c: Cycle| #[trigger] ret0.contains(c) && cyc(p0, c.vertices@);
        assert forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(g, roots) implies self.after(roots, out) by {
            assert(cyc_inv(g, roots, out, qh) && same_cycles(ret0, out));
            assert(out.contains(c.vertices@));
            lemma_cyc_found(g, roots, out, out, qh, p0, c.vertices@);
        }
    }
    qh = views(self.stack.items());
}
@at after loop 1
proof {
    assert forall|roots: Set<VertexId>, out: Seq<Seq<VertexId>>| #[trigger] old(self).after(roots, out) && scan_roots(g, roots) implies self.after(roots, out) && full_cyc(g, roots, out) by {
        lemma_cyc_end(g, roots, out, views(self.stack.items()));
    }
    if old(self).begun() {
        let roots = choose|roots: Set<VertexId>| #[trigger] scan_roots(g, roots) && old(self).after(roots, Seq::<Seq<VertexId>>::empty());
        assert(full_cyc(g, roots, Seq::<Seq<VertexId>>::empty()));
    }
}
@fn cycle_iter
requires graph.wf(),
ensures r.begun(), *r.graph == *graph,
@at after let starting_vertices
let ghost sv = starting_vertices@;
@at before loop 1
proof { assert(__all1 == sv); }
@loop 1
invariant __all1 == sv, *cycle_iter.graph == *graph, cycle_iter.graph.wf(), cycle_iter.returned@ == Set::<Cycle>::empty(), views(cycle_iter.stack.items()) == singles(__it1.done()),
@at loop 1 end
proof { let d = __it1.done(); assert(singles(d) =~= singles(d.drop_last()).push(seq![*d.last()])); assert(views(cycle_iter.stack.items()) =~= singles(d)); }
@at after loop 1
proof {
    lemma_scan_start(*graph, sv);
    assert(scan_roots(*graph, starts(sv)));
    assert(views(cycle_iter.stack.items()) == singles(sv));
    assert(cycle_iter.after(starts(sv), Seq::<Seq<VertexId>>::empty()));
}
@fn empty_cycle_iter
ensures *r.graph == *graph, r.stack.items() == Seq::<Path>::empty(), r.returned@ == Set::<Cycle>::empty(),
@fn find_starting_edges
requires graph.wf(),
ensures forall|i: int| 0 <= i < r@.len() ==> graph.has_vertex(*#[trigger] r@[i]),
    forall|v: VertexId| graph.has_vertex(v) && #[trigger] no_inbound(*graph, v) ==> r@.contains(&v),
    graph.vset().len() > 0 ==> r@.len() > 0,
@at entry
proof { assert forall|l: Seq<&Edge>, v: VertexId| #[trigger] lists_edge_refs(l, graph.in_pred(v)) implies (l.len() == 0 <==> no_inbound(*graph, v)) by { lemma_no_inbound(*graph, l, v); } }
proof { assert forall|l: Seq<Edge>, v: VertexId| #[trigger] lists_edges(l, graph.in_pred(v)) implies (l.len() == 0 <==> no_inbound(*graph, v)) by {
    if l.len() > 0 { assert(l.contains(l[0])); assert(graph.has_edge(l[0])); }
    else { assert forall|e: Edge| #[trigger] graph.has_edge(e) implies e.1 != v by { if e.1 == v { assert(graph.in_pred(v)(e)); assert(l.contains(e)); } } }
} }
@at after let res
proof { assert forall|i: int| 0 <= i < res@.len() implies graph.has_vertex(*#[trigger] res@[i]) by { assert(res@.contains(res@[i])); } }
@loop 1
invariant __it1.done().len() <= res@.len(), forall|i: int| 0 <= i < res@.len() ==> graph.has_vertex(*#[trigger] res@[i]),
    forall|i: int| 0 <= i < __all1.len() ==> graph.has_vertex(**#[trigger] __all1[i]),
@closure 1 bool
ensures __r == no_inbound(*graph, **vid)
@fn extract_canonical_cycle_from_last
ensures match r { Some(c) => cyc(path.vertices@, c.vertices@), None => !closes(path.vertices@) },
@at entry
proof {
    let p = path.vertices@;
    if p.len() > 0 {
        let d = p.subrange(0, p.len() - 1);
        assert forall|j: int| #[trigger] closes_at(p, j) implies refs(d).contains(&p[p.len() - 1]) by { assert(d[j] == p[j]); assert(d.contains(d[j])); }
    }
}
@closure 1 Option<usize>
requires path.vertices@.len() > 0, *last == path.vertices@[path.vertices@.len() - 1]
ensures match __r { Some(k) => closes_at(path.vertices@, k as int), None => !closes(path.vertices@) }
@closure 3 Cycle
requires closes_at(path.vertices@, start as int)
ensures __r.vertices@ == loop_of(path.vertices@, start as int)
@closure 4 Cycle
requires c.vertices@.len() > 0
ensures canon(c.vertices@, __r.vertices@)
