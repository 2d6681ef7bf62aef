@source command/src/arg_utils.rs
@broadcast lean
@items
/// consecutive values two by two
pub open spec fn two_by_two(s: Seq<VertexId>) -> Seq<(VertexId, VertexId)> { Seq::new((s.len() / 2) as nat, |i: int| (s[2 * i], s[2 * i + 1])) }
/// all the texts are ids
pub open spec fn all_ids(t: Seq<&str>) -> bool { forall|i: int| 0 <= i < t.len() ==> u64_text((#[trigger] t[i])@) is Some }
pub open spec fn ids_of(t: Seq<&str>) -> Seq<VertexId> { Seq::new(t.len(), |i: int| VertexId(u64_text(t[i]@).unwrap())) }
pub open spec fn edges_of(s: Seq<(VertexId, VertexId)>) -> Seq<Edge> { Seq::new(s.len(), |i: int| Edge(s[i].0, s[i].1)) }
pub broadcast proof fn lemma_vertices_of(s: Vec<VertexId>, t: Seq<u64>)
    requires s@.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] s@[i] == VertexId(t[i]),
    ensures #![trigger s@, vertices_of(t)] s@ == vertices_of(t),
{ assert(s@ =~= vertices_of(t)); }
pub open spec fn vertices_of(s: Seq<u64>) -> Seq<VertexId> { Seq::new(s.len(), |i: int| VertexId(s[i])) }
@fn as_vertex_tuple
ensures match r { Some(x) => vids@.len() % 2 == 0 && x@ == two_by_two(vids@), None => vids@.len() % 2 != 0 },
@loop 1
invariant vids@.len() % 2 == 0, __all1.len() == vids@.len() / 2, forall|i: int| 0 <= i < __all1.len() ==> #[trigger] __all1[i] == 2 * i,
    res@ == two_by_two(vids@).subrange(0, __it1.pos()),
@at before loop 1
proof { assert forall|i: int| #[trigger] times(i, 2) == 2 * i by { reveal(times); } assert(two_by_two(vids@).subrange(0, 0) =~= Seq::<(VertexId, VertexId)>::empty()); }
@at loop 1 begin
let ghost r0 = res@;
@at loop 1 end
proof { assert(res@ =~= two_by_two(vids@).subrange(0, __it1.pos())); }
@at after loop 1
proof { assert(two_by_two(vids@).subrange(0, __it1.pos()) =~= two_by_two(vids@)); }
@fn parse_vertex_id
ensures r == u64_text(v@),
@fn parse_vertex_id_list
ensures match r { Some(x) => all_ids(ids@) && x@ == ids_of(ids@), None => !all_ids(ids@) },
@loop 1
invariant __all1 == ids@, forall|i: int| 0 <= i < __it1.pos() ==> u64_text((#[trigger] ids@[i])@) is Some, res@ == ids_of(ids@).subrange(0, __it1.pos()),
@at before loop 1
proof { assert(ids_of(ids@).subrange(0, 0) =~= Seq::<VertexId>::empty()); }
@at loop 1 begin
let ghost k = __it1.pos() - 1;
proof { assert(id == ids@[k]); }
@at loop 1 end
proof { assert(res@ =~= ids_of(ids@).subrange(0, k + 1)); }
@at after loop 1
proof { assert(ids_of(ids@).subrange(0, __it1.pos()) =~= ids_of(ids@)); }
@fn parse_edge_list
ensures match r { Some(x) => all_ids(ids@) && ids@.len() % 2 == 0 && x@ == edges_of(two_by_two(ids_of(ids@))), None => !all_ids(ids@) || ids@.len() % 2 != 0 },
@closure 1 Option<Vec<(VertexId, VertexId)>>
ensures match __r { Some(x) => ids@.len() % 2 == 0 && x@ == two_by_two(ids@), None => ids@.len() % 2 != 0 }
@closure 2 Vec<Edge>
ensures __r@ =~= edges_of(pairs@)
@closure 3 Edge
ensures __r == Edge(__c3_0.0, __c3_0.1)
@fn build_constraint_include
ensures r@ == Seq::new(ids@.len(), |i: int| Constraint::ContainsVertex(ids@[i])),
@fn build_constraint_exclude
ensures r@ == Seq::new(ids@.len(), |i: int| Constraint::Not(Box::new(Constraint::ContainsVertex(ids@[i])))),
@fn build_constraint_include_edges
ensures r@ == Seq::new(edges@.len(), |i: int| Constraint::ContainsEdge(edges@[i])),
@fn build_constraint_exclude_edges
ensures r@ == Seq::new(edges@.len(), |i: int| Constraint::Not(Box::new(Constraint::ContainsEdge(edges@[i])))),
@fn build_constraint_ordered
ensures r == Constraint::OrderedVertices(ids),
@fn build_constraint_include_cycle
ensures r == Constraint::ContainsCycle,
@fn build_constraint_no_cycle
ensures r == Constraint::Not(Box::new(Constraint::ContainsCycle)),
@fn build_constraint_min_length
ensures r == Constraint::MinLength(len),
@fn build_constraint_max_length
ensures r == Constraint::MaxLength(len),
@fn build_constraint_exact_length
ensures r@ == seq![Constraint::MinLength(len), Constraint::MaxLength(len)],
@fn build_constraint_min_score
ensures r == Constraint::MinScore(score),
@fn build_constraint_max_score
ensures r == Constraint::MaxScore(score),
@fn build_constraint_exact_score
ensures r@ == seq![Constraint::MinScore(score), Constraint::MaxScore(score)],
@fn option_of
requires flag ==> call_requires(thunk, ()),
ensures match r { Some(x) => flag && call_ensures(thunk, (), x), None => !flag },
@fn confirmation_yes_no
ensures exists|x: Seq<char>| #[trigger] trimmed(typed(), x) && r == (x == "yes"@ || x == "y"@),
@cli
@subst io::stdin().read_line(&mut buffer) => vcli_line(&mut buffer)
@subst .trim().as_ref() => .trim_().plain_()
