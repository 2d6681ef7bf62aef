@source core/src/algorithm/shortest_path.rs
@broadcast lean
@fn bellman_ford
requires graph.wf(), pure_cost(*graph, scorefn), fits(*graph, cost_of(scorefn), graph.vset().len() * edge_total(*graph) + 1),
ensures match r { None => neg_cycle(*graph, cost_of(scorefn), start),
    Some(m) => !neg_cycle(*graph, cost_of(scorefn), start) && exact(*graph, cost_of(scorefn), start, m@) },
@at entry
let ghost w = cost_of(scorefn);
let ghost n = graph.vset().len() as int;
let ghost t = edge_total(*graph);
let ghost rounds: int = if n > 1 { n - 1 } else { 0 };
@at before loop 1
proof {
    assert(is_walk(*graph, seq![start]));
    lemma_covers_start(*graph, w, start, scores@);
}
@loop 1
invariant graph.wf(), pure_cost(*graph, scorefn), fits(*graph, w, n * t + 1), w == cost_of(scorefn), n == graph.vset().len(), t == edge_total(*graph),
    __all1.len() == rounds, rounds == (if n > 1 { n - 1 } else { 0 }), t >= 0,
    entries_ok(*graph, w, start, scores@),
    covers_upto(*graph, w, start, scores@, __it1.pos()), paths_upto(scores@, __it1.pos() * t),
@at before loop 2
let ghost k = __it1.pos() - 1;
proof { lemma_edge_total(*graph, __all2); assert(k * t + 0 == k * t); }
@loop 2
invariant graph.wf(), pure_cost(*graph, scorefn), fits(*graph, w, n * t + 1), w == cost_of(scorefn), n == graph.vset().len(), t == edge_total(*graph),
    lists_edge_refs(__all2, graph.edge_pred()), t == __all2.len(), 0 <= k < n - 1, t >= 0,
    entries_ok(*graph, w, start, scores@),
    covers_upto(*graph, w, start, scores@, k), covers_next(*graph, w, start, scores@, k, __it2.done()), paths_upto(scores@, k * t + __it2.pos()),
@at loop 2 begin
let ghost m0 = scores@;
proof {
    let j = k * t + __it2.pos() - 1;
    let pos = __it2.pos();
    assert(k * t <= n * t - t) by (nonlinear_arith) requires 0 <= k < n - 1, t >= 0;
    assert(j < n * t + 1);
    if m0.contains_key(edge.0) { lemma_fits(*graph, w, start, m0, *edge, j, n * t + 1); }
}
@at loop 2 end
proof {
    assert(relaxing(w, m0, scores@, *edge));
    lemma_relax(*graph, w, start, m0, scores@, *edge);
    lemma_covers_relax(*graph, w, start, m0, scores@, *edge, k, __it2.done().drop_last());
}
@at after loop 2
proof {
    lemma_covers_round(*graph, w, start, scores@, k, __it2.done());
    assert(k * t + t == (k + 1) * t) by (nonlinear_arith);
}
@loop 3
invariant graph.wf(), pure_cost(*graph, scorefn), fits(*graph, w, n * t + 1), w == cost_of(scorefn), n == graph.vset().len(), t == edge_total(*graph),
    lists_edge_refs(__all3, graph.edge_pred()), rounds == (if n > 1 { n - 1 } else { 0 }), t >= 0,
    entries_ok(*graph, w, start, scores@),
    covers_upto(*graph, w, start, scores@, rounds), paths_upto(scores@, rounds * t),
    forall|e: Edge| #[trigger] __it3.done().contains(&e) ==> relaxed(w, scores@, e),
@at loop 3 begin
proof {
    assert(rounds * t < n * t + 1) by (nonlinear_arith) requires rounds == (if n > 1 { n - 1 } else { 0 }), t >= 0, n >= 0;
    if scores@.contains_key(edge.0) {
        lemma_fits(*graph, w, start, scores@, *edge, rounds * t, n * t + 1);
        if !relaxed(w, scores@, *edge) { lemma_detect(*graph, w, start, scores@, *edge, rounds); }
    }
}
@at after loop 3
proof {
    assert forall|e: Edge| #[trigger] graph.has_edge(e) implies relaxed(w, scores@, e) by { assert(graph.edge_pred()(e)); assert(__it3.done().contains(&e)); }
    lemma_relaxed_exact(*graph, w, start, scores@);
}
@fn scored_path_of_one
ensures r.path.vertices@ == seq![v], r.score == score,
@fn scored_path_of
ensures r.path == path, r.score == score,
@fn current_score_of_vertex
ensures r == (if scores@.contains_key(*vid) { scores@[*vid].score } else { i64::MAX }),
@fn spfa
requires graph.wf(), pure_cost(*graph, scorefn), !neg_cycle(*graph, cost_of(scorefn), start), fits(*graph, cost_of(scorefn), graph.vset().len() as int + 2),
ensures exact(*graph, cost_of(scorefn), start, r@),
@at entry
let ghost w = cost_of(scorefn);
let ghost n = graph.vset().len() as int;
let ghost b = bound_of(*graph, w, n + 2);
let ghost o = lemma_list_set(graph.vset());
@at before loop 1
proof {
    assert(is_walk(*graph, seq![start]));
    assert(scores@.dom() =~= set![start]);
    assert(low(*graph, start, scores@, b)) by { assert(b * 0 == 0) by (nonlinear_arith); }
    assert(q.items()[0] == start);
    assert(pending(*graph, w, scores@, q.items()));
    assert(cost_within(*graph, w, b) && b * (n + 2) < i64::MAX);
    assert(b * n >= 0) by (nonlinear_arith) requires b >= 0, n >= 0;
}
@loop 1
invariant graph.wf(), pure_cost(*graph, scorefn), w == cost_of(scorefn), !neg_cycle(*graph, w, start), n == graph.vset().len(), cost_within(*graph, w, b), b * (n + 2) < i64::MAX, b * n >= 0,
    forall|v: VertexId| #[trigger] o.contains(v) <==> graph.vset().contains(v),
    entries_ok(*graph, w, start, scores@), low(*graph, start, scores@, b), pending(*graph, w, scores@, q.items()),
decreases slack(o, scores@, b * n), q.items().len(),
@at loop 1 begin
let ghost m1 = scores@;
let ghost q1 = q.items();
proof {
    assert forall|v: VertexId| #[trigger] m1.contains_key(v) implies -(b * n) <= m1[v].score by { lemma_low_bounds(*graph, w, start, m1, b, v); }
    lemma_slack_pos(o, m1, b * n);
}
@at before loop 2
proof {
    assert forall|e: Edge| #[trigger] graph.has_edge(e) implies relaxed(w, scores@, e) || q.items().contains(e.0) || (e.0 == vid && !__it2.done().contains(&e)) by { }
}
@loop 2
invariant graph.wf(), pure_cost(*graph, scorefn), w == cost_of(scorefn), !neg_cycle(*graph, w, start), n == graph.vset().len(), cost_within(*graph, w, b), b * (n + 2) < i64::MAX, b * n >= 0,
    forall|v: VertexId| #[trigger] o.contains(v) <==> graph.vset().contains(v),
    entries_ok(*graph, w, start, scores@), low(*graph, start, scores@, b), lists_edge_refs(__all2, graph.out_pred(vid)),
    pending_but(*graph, w, scores@, q.items(), vid, __it2.done()),
    (scores@ == m1 && q.items() == q1) || slack(o, scores@, b * n) < slack(o, m1, b * n),
@at loop 2 begin
let ghost m0 = scores@;
let ghost q0 = q.items();
proof {
    assert(graph.out_pred(vid)(*edge));
    if m0.contains_key(edge.0) {
        lemma_low_bounds(*graph, w, start, m0, b, edge.0);
        assert(b * (n + 2) == b * n + 2 * b) by (nonlinear_arith);
    }
}
@at loop 2 end
proof {
    assert(relaxing(w, m0, scores@, *edge));
    assert(queued(w, m0, scores@, *edge, q0, q.items()));
    lemma_relax(*graph, w, start, m0, scores@, *edge);
    lemma_low_relax(*graph, w, start, m0, scores@, *edge, b);
    lemma_pending_step(*graph, w, start, m0, scores@, *edge, q0, q.items(), vid, __it2.done().drop_last());
    if !relaxed(w, m0, *edge) {
        lemma_low_bounds(*graph, w, start, scores@, b, edge.1);
        assert(graph.has_vertex(edge.1));
        lemma_slack_less(o, m0, scores@, edge.1, b * n);
    }
}
@at after loop 2
proof {
    assert forall|e: Edge| #[trigger] graph.has_edge(e) implies relaxed(w, scores@, e) || q.items().contains(e.0) by {
        if e.0 == vid { assert(graph.out_pred(vid)(e)); assert(__it2.done().contains(&e)); }
    }
    assert forall|v: VertexId| #[trigger] scores@.contains_key(v) implies -(b * n) <= scores@[v].score by { lemma_low_bounds(*graph, w, start, scores@, b, v); }
    lemma_slack_pos(o, scores@, b * n);
}
@at after loop 1
proof { lemma_relaxed_exact(*graph, w, start, scores@); }
@fn dag_shortest_path
requires dag.ok(), pure_cost(dag.g(), scorefn), fits(dag.g(), cost_of(scorefn), dag.g().vset().len() as int + 1),
ensures match r { Some(x) => shortest_entry(dag.g(), cost_of(scorefn), start, end, x), None => !reachable(dag.g(), start, end) },
@fn dag_shortest_paths
requires dag.ok(), pure_cost(dag.g(), scorefn), fits(dag.g(), cost_of(scorefn), dag.g().vset().len() as int + 1),
ensures exact(dag.g(), cost_of(scorefn), start, r@),
@closure 1 bool
ensures __r == (**v != start)
@at entry
let ghost w = cost_of(scorefn);
let ghost n = dag.g().vset().len() as int;
let ghost b = bound_of(dag.g(), w, n + 1);
@at before loop 1
proof {
    let k = __all1.len();
    assert(is_walk(*graph, seq![start]));
    assert(cost_within(*graph, w, b) && b * (n + 1) < i64::MAX);
    assert(b * (n + 1) == b * n + b) by (nonlinear_arith);
    lemma_tail(*graph, topo_order@, __all1, topo_order@.len() - __all1.len());
    assert(graph.has_vertex(start) ==> __all1.contains(&start)) by {
        if graph.has_vertex(start) {
            assert(topo_order@.contains(start));
            let i = choose|i: int| 0 <= i < topo_order@.len() && topo_order@[i] == start;
            assert(refs(topo_order@)[i] == &start);
            let j = topo_order@.len() - __all1.len();
            assert(i >= j);
            assert(__all1[i - j] == &start);
        }
    }
}
@loop 1
invariant graph.wf(), acyclic(*graph), *graph == dag.g(), pure_cost(*graph, scorefn), w == cost_of(scorefn), n == graph.vset().len(), cost_within(*graph, w, b), b * n + b < i64::MAX,
    is_tail(*graph, __all1), entries_ok(*graph, w, start, scores@), settled(*graph, w, scores@, __it1.done()),
    forall|v: VertexId| #[trigger] scores@.contains_key(v) ==> v == start || __all1.contains(&v),
@at before loop 2
proof {
    assert(__it1.done() =~= __all1.subrange(0, __it1.pos()));
    assert forall|e: Edge| #[trigger] graph.has_edge(e) && __it1.done().contains(&e.0) && (e.0 == *v ==> __it2.done().contains(&e)) implies relaxed(w, scores@, e) by { }
}
@loop 2
invariant graph.wf(), acyclic(*graph), *graph == dag.g(), pure_cost(*graph, scorefn), w == cost_of(scorefn), n == graph.vset().len(), cost_within(*graph, w, b), b * n + b < i64::MAX,
    is_tail(*graph, __all1), entries_ok(*graph, w, start, scores@), lists_edge_refs(__all2, graph.out_pred(*v)),
    0 < __it1.pos() <= __all1.len(), v == __all1[__it1.pos() - 1],
    settled_but(*graph, w, scores@, __all1.subrange(0, __it1.pos()), *v, __it2.done()),
    forall|v: VertexId| #[trigger] scores@.contains_key(v) ==> v == start || __all1.contains(&v),
@at loop 2 begin
let ghost m0 = scores@;
proof {
    assert(graph.out_pred(*v)(*edge));
    if m0.contains_key(*v) { lemma_acyclic_bound(*graph, w, start, *v, m0[*v], b); }
}
@at loop 2 end
proof {
    assert(relaxing(w, m0, scores@, *edge));
    lemma_relax(*graph, w, start, m0, scores@, *edge);
    lemma_settled_step(*graph, w, start, m0, scores@, __all1, __it1.pos() - 1, *edge, __it2.done().drop_last());
}
@at after loop 2
proof {
    assert(__it1.done() =~= __all1.subrange(0, __it1.pos()));
    assert forall|e: Edge| #[trigger] graph.has_edge(e) && __it1.done().contains(&e.0) implies relaxed(w, scores@, e) by {
        if e.0 == *v { assert(graph.out_pred(*v)(e)); assert(__it2.done().contains(&e)); }
    }
}
@at after loop 1
proof {
    assert(__it1.done() =~= __all1);
    assert forall|e: Edge| #[trigger] graph.has_edge(e) implies relaxed(w, scores@, e) by { assert(graph.has_vertex(e.0)); }
    lemma_relaxed_exact(*graph, w, start, scores@);
}
