@source core/src/search/a_star.rs
@broadcast lean
@fn shortest_path
requires graph.wf(), costs(&g, &h, *graph, start),
ensures forall|sg: _, sh: _, w: _, c: int| score_is(g, *graph, start, sg) && score_is(h, *graph, start, sh) && #[trigger] additive(*graph, start, total(sg, sh), w, c)
    ==> match r {
        Some(x) => best_path(*graph, start, end, total(sg, sh), w, x),
        None => !reachable(*graph, start, end),
    },
@closure 1 i64
requires can_add(&g, &h, *dg, *path)
ensures is_sum(&g, &h, *dg, *path, __r)
@closure 2 bool
ensures __r == (sp.path.spec_last() == Some(&end))
@closure 3 VertexId
ensures __r == *x
@fn constrained_shortest_path
requires graph.wf(), costs_w(&g, &h, *graph, start),
ensures forall|sg: _, sh: _| scores_w(g, *graph, start, sg) && scores_w(h, *graph, start, sh) && #[trigger] growing(*graph, start, total(sg, sh)) ==> (match r {
        Some(x) => solution(*graph, start, end, total(sg, sh), constraints@, x),
        None => true,
    }) && (forall|z: ScoredPath| #[trigger] solution(*graph, start, end, total(sg, sh), constraints@, z) ==> r is Some && r->0.score <= z.score),
@closure 1 i64
requires can_add(&g, &h, *dg, *path)
ensures is_sum(&g, &h, *dg, *path, __r)
@closure 2 bool
ensures __r == (sp.path.spec_last() == Some(&end) && all_sat(all_constraints@, *sp))
@closure 3 VertexId
ensures __r == *x
@closure 4 bool
ensures __r == sat(*c, *sp)
@at entry
proof {
    let cs = constraints@;
    assert forall|x: ScoredPath, z: ScoredPath| #[trigger] same_path(x, z) && all_sat(cs, z) implies all_sat(cs, x) by { lemma_all_sat_same(cs, x, z); }
}
@fn one_weighted_edge
requires path.vertices@.len() >= 1,
ensures r == path.vertices@.len() - 1,
@fn zero_heuristic
ensures r == 0,
