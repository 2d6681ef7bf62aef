@source core/src/graph_command.rs
@items
/// the vertex set after the commands cs, one after the other, from the vertex set v
pub open spec fn run_v(cs: Seq<GraphCommand>, v: Set<VertexId>) -> Set<VertexId>
    decreases cs.len(),
{
    if cs.len() == 0 { v } else {
        let p = run_v(cs.drop_last(), v);
        match cs.last() {
            GraphCommand::AddVertex(x) => p.insert(x),
            GraphCommand::RemoveVertex(x) => p.remove(x),
            GraphCommand::AddEdge(x, y) => p.insert(x).insert(y),
            GraphCommand::RemoveEdge(x, y) => p,
        }
    }
}
/// whether e is an edge after the commands cs, from the edges es
pub open spec fn run_e(cs: Seq<GraphCommand>, es: spec_fn(Edge) -> bool, e: Edge) -> bool
    decreases cs.len(),
{
    if cs.len() == 0 { es(e) } else {
        let p = run_e(cs.drop_last(), es, e);
        match cs.last() {
            GraphCommand::AddVertex(x) => p,
            GraphCommand::RemoveVertex(x) => p && e.0 != x && e.1 != x,
            GraphCommand::AddEdge(x, y) => p || e == Edge(x, y),
            GraphCommand::RemoveEdge(x, y) => p && e != Edge(x, y),
        }
    }
}
pub open spec fn no_edge() -> spec_fn(Edge) -> bool { |e: Edge| false }
pub broadcast proof fn lemma_no_edge(g: DirectedGraph)
    requires forall|e: Edge| !#[trigger] g.has_edge(e),
    ensures #[trigger] g.edge_pred() == no_edge(),
{ assert(g.edge_pred() =~= no_edge()); }
pub open spec fn spec_revert(c: GraphCommand) -> GraphCommand {
    match c {
        GraphCommand::AddVertex(v) => GraphCommand::RemoveVertex(v),
        GraphCommand::RemoveVertex(v) => GraphCommand::AddVertex(v),
        GraphCommand::AddEdge(v, w) => GraphCommand::RemoveEdge(v, w),
        GraphCommand::RemoveEdge(v, w) => GraphCommand::AddEdge(v, w),
    }
}
/// the commands whose revert restores the graph
pub open spec fn undoable(c: GraphCommand, v: Set<VertexId>, es: spec_fn(Edge) -> bool) -> bool {
    match c {
        GraphCommand::AddVertex(x) => !v.contains(x) && forall|e: Edge| #[trigger] es(e) ==> e.0 != x && e.1 != x,
        GraphCommand::RemoveVertex(x) => v.contains(x) && forall|e: Edge| #[trigger] es(e) ==> e.0 != x && e.1 != x,
        GraphCommand::AddEdge(x, y) => v.contains(x) && v.contains(y) && !es(Edge(x, y)),
        GraphCommand::RemoveEdge(x, y) => v.contains(x) && v.contains(y) && es(Edge(x, y)),
    }
}
/// C02: revert is an involution, and undoes
pub open spec fn then_revert(c: GraphCommand) -> Seq<GraphCommand> { seq![c, spec_revert(c)] }
pub proof fn revert_undoes(c: GraphCommand, v: Set<VertexId>, es: spec_fn(Edge) -> bool)
    ensures
        spec_revert(spec_revert(c)) == c,
        undoable(c, v, es) ==> run_v(then_revert(c), v) == v,
        undoable(c, v, es) ==> forall|e: Edge| #[trigger] run_e(then_revert(c), es, e) == es(e),
{
    let s = then_revert(c);
    assert(s.drop_last() =~= seq![c]);
    assert(seq![c].drop_last() =~= Seq::<GraphCommand>::empty());
    assert(run_v(seq![c], v) == run_v(seq![c], v));
    reveal_with_fuel(run_v, 3);
    reveal_with_fuel(run_e, 3);
    if undoable(c, v, es) {
        assert(run_v(s, v) =~= v);
        assert forall|e: Edge| #[trigger] run_e(s, es, e) == es(e) by { }
    }
}
pub proof fn lemma_run_push(cs: Seq<GraphCommand>, c: GraphCommand, es: spec_fn(Edge) -> bool)
    ensures forall|e: Edge| #[trigger] run_e(cs.push(c), es, e) <==> match c {
            GraphCommand::AddVertex(x) => run_e(cs, es, e),
            GraphCommand::RemoveVertex(x) => run_e(cs, es, e) && e.0 != x && e.1 != x,
            GraphCommand::AddEdge(x, y) => run_e(cs, es, e) || e == Edge(x, y),
            GraphCommand::RemoveEdge(x, y) => run_e(cs, es, e) && e != Edge(x, y),
        },
{ assert(cs.push(c).drop_last() =~= cs); }
@fn GraphCommand::revert
ensures r == spec_revert(command),
@fn GraphCommand::apply_to
requires old(graph).wf(),
ensures final(graph).wf(),
    forall|v0: Set<VertexId>, cs: Seq<GraphCommand>| old(graph).vset() == #[trigger] run_v(cs, v0) ==> final(graph).vset() == run_v(cs.push(*self), v0),
    forall|es: spec_fn(Edge) -> bool, cs: Seq<GraphCommand>, e: Edge| old(graph).has_edge(e) == #[trigger] run_e(cs, es, e) ==> final(graph).has_edge(e) == run_e(cs.push(*self), es, e),
@fn GraphCommand::apply_commands
requires old(graph).wf(),
ensures final(graph).wf(), final(graph).vset() == run_v(commands@, old(graph).vset()),
    forall|e: Edge| #[trigger] final(graph).has_edge(e) <==> run_e(commands@, old(graph).edge_pred(), e),
@loop 1
invariant graph.wf(), __all1 == refs(commands@),
   graph.vset() == run_v(commands@.take(__it1.pos()), old(graph).vset()),
   forall|e: Edge| #[trigger] graph.has_edge(e) <==> run_e(commands@.take(__it1.pos()), old(graph).edge_pred(), e),
@at before loop 1
proof { assert(commands@.take(0) =~= Seq::<GraphCommand>::empty()); }
@at loop 1 end
proof { assert(commands@.take(__it1.pos()) =~= commands@.take(__it1.pos() - 1).push(*command)); }
@at after loop 1
proof { assert(commands@.take(__it1.pos()) =~= commands@); }
@fn GraphCommand::as_commands
requires graph.wf(),
ensures run_v(r@, Set::<VertexId>::empty()) == graph.vset(),
    forall|e: Edge| #[trigger] run_e(r@, no_edge(), e) <==> graph.has_edge(e),
@loop 1
invariant
    forall|v: VertexId| #[trigger] run_v(res@, Set::<VertexId>::empty()).contains(v) <==> __it1.done().contains(&v),
    forall|e: Edge| !#[trigger] run_e(res@, no_edge(), e),
@at loop 1 begin
let ghost __pre = res@;
@at loop 1 end
proof { lemma_run_push(__pre, res@.last(), no_edge()); }
@at after loop 1
proof { assert(run_v(res@, Set::<VertexId>::empty()) =~= graph.vset()); }
@loop 2
invariant graph.wf(), lists_edge_refs(__all2, graph.edge_pred()),
    run_v(res@, Set::<VertexId>::empty()) == graph.vset(),
    forall|e: Edge| #[trigger] run_e(res@, no_edge(), e) <==> __it2.done().contains(&e),
@at loop 2 begin
let ghost __pre = res@;
@at loop 2 end
proof { lemma_run_push(__pre, res@.last(), no_edge()); assert(run_v(res@, Set::<VertexId>::empty()) =~= graph.vset()); }
