@source core/src/algorithm/longest_path.rs
@broadcast lean
@fn dag_longest_path
requires dag.ok(), pure_cost(dag.g(), scorefn), fits(dag.g(), cost_of(scorefn), dag.g().vset().len() as int + 1),
ensures match r { Some(x) => longest_entry(dag.g(), cost_of(scorefn), start, end, x), None => !reachable(dag.g(), start, end) },
@fn dag_longest_paths
requires dag.ok(), pure_cost(dag.g(), scorefn), fits(dag.g(), cost_of(scorefn), dag.g().vset().len() as int + 1),
ensures exact_longest(dag.g(), cost_of(scorefn), start, r@),
@closure 1 i64
requires can_negate(&scorefn, *e),
ensures negates(&scorefn, *e, __r)
@at after let negated_score_fn
let ghost n = dag.g().vset().len() as int;
let ghost w = cost_of(scorefn);
let ghost u = cost_of(negated_score_fn);
let ghost b = bound_of(dag.g(), w, n + 1);
proof {
    let g = dag.g();
    assert(cost_within(g, w, b) && b * (n + 1) < i64::MAX);
    assert(b <= b * (n + 1)) by (nonlinear_arith) requires b >= 0, n >= 0;
    assert forall|e: Edge| #[trigger] g.has_edge(e) implies call_requires(negated_score_fn, (&e,)) by {
        assert(call_requires(scorefn, (&e,)));
        assert forall|c: i64| call_ensures(scorefn, (&e,), c) implies c > i64::MIN by { assert(-b <= w(e)); }
    }
    assert forall|e: Edge, c: i64| g.has_edge(e) && #[trigger] call_ensures(negated_score_fn, (&e,), c) implies c == -w(e) && c == cost(negated_score_fn, e) by {
        let d = choose|d: i64| call_ensures(negated_score_fn, (&e,), d);
        assert(d == -w(e));
    }
    assert(cost_within(g, u, b) && opposite(g, w, u)) by {
        assert forall|e: Edge| #[trigger] g.has_edge(e) implies u(e) == -w(e) by { lemma_has_answer(&negated_score_fn, e); }
    }
    assert(b * (n + 1) == b * n + b) by (nonlinear_arith);
    assert forall|m: Map<VertexId, ScoredPath>, v: VertexId| #[trigger] exact(g, u, start, m) && #[trigger] m.contains_key(v) implies m[v].score > i64::MIN by {
        lemma_acyclic_bound(g, u, start, v, m[v], b);
    }
    assert forall|m: Map<VertexId, ScoredPath>, m2: Map<VertexId, ScoredPath>| #[trigger] exact(g, u, start, m) && #[trigger] negated(m, m2) implies exact_longest(g, w, start, m2) by {
        lemma_longest(g, w, u, start, m, m2);
    }
}
@fn negate_scores
requires forall|v: VertexId| #[trigger] scores@.contains_key(v) ==> scores@[v].score > i64::MIN,
ensures negated(scores@, r@),
@at entry
let ghost s0 = scores@;
@loop 1
invariant scores@.dom() == s0.dom(), forall|v: VertexId| #[trigger] s0.contains_key(v) ==> s0[v].score > i64::MIN,
    forall|v: VertexId| #[trigger] __all1.contains(v) <==> s0.contains_key(v), __all1.no_duplicates(),
    forall|v: VertexId| #[trigger] s0.contains_key(v) ==> scores@[v].path == s0[v].path && scores@[v].score == (if __it1.done().contains(v) { -s0[v].score } else { s0[v].score as int }),
@at loop 1 begin
proof {
    let k = __it1.pos() - 1;
    assert(__all1.contains(__all1[k]));
    assert(s0.contains_key(__all1[k]));
    assert(!__it1.done().drop_last().contains(__all1[k]));
    assert forall|v: VertexId| __it1.done().contains(v) <==> __it1.done().drop_last().contains(v) || v == __all1[k] by { assert(__it1.done() =~= __it1.done().drop_last().push(__all1[k])); }
    assert(scores@[__all1[k]].score == s0[__all1[k]].score);
    assert(scores@[__all1[k]].score > i64::MIN);
    assert(i64::MIN <= -1 * scores@[__all1[k]].score <= i64::MAX);
}
@at after loop 1
proof { assert(__it1.done() =~= __all1); }
