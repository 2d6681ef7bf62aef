@source core/src/attribute/attribute_command.rs
@items
/// effect of one command on the attributes of the vertices / edges
pub open spec fn vstep<V>(m: Map<VertexId, V>, c: AttributeCommand<V>) -> Map<VertexId, V> {
    match c {
        AttributeCommand::AddVertexAttr(v, x) => m.insert(v, x),
        AttributeCommand::RemoveVertexAttr(v) => m.remove(v),
        _ => m,
    }
}
pub open spec fn estep<V>(m: Map<Edge, V>, c: AttributeCommand<V>) -> Map<Edge, V> {
    match c {
        AttributeCommand::AddEdgeAttr(a, b, x) => m.insert(Edge(a, b), x),
        AttributeCommand::RemoveEdgeAttr(a, b) => m.remove(Edge(a, b)),
        _ => m,
    }
}
pub open spec fn vrun<V>(m: Map<VertexId, V>, cs: Seq<AttributeCommand<V>>) -> Map<VertexId, V>
    decreases cs.len()
{
    if cs.len() == 0 { m } else { vstep(vrun(m, cs.drop_last()), cs.last()) }
}
pub open spec fn erun<V>(m: Map<Edge, V>, cs: Seq<AttributeCommand<V>>) -> Map<Edge, V>
    decreases cs.len()
{
    if cs.len() == 0 { m } else { estep(erun(m, cs.drop_last()), cs.last()) }
}
@fn AttributeCommand::apply_vertex_command_to
ensures final(mapping).attrs() == vstep(old(mapping).attrs(), command),
    r == match command { AttributeCommand::AddVertexAttr(_, _) => true, AttributeCommand::RemoveVertexAttr(v) => old(mapping).attrs().contains_key(v), _ => false },
@fn AttributeCommand::apply_edge_command_to
ensures final(mapping).attrs() == estep(old(mapping).attrs(), command),
    r == match command { AttributeCommand::AddEdgeAttr(_, _, _) => true, AttributeCommand::RemoveEdgeAttr(a, b) => old(mapping).attrs().contains_key(Edge(a, b)), _ => false },
@fn AttributeCommand::apply_vertex_commands_to
ensures final(mapping).attrs() == vrun(old(mapping).attrs(), commands@),
@loop 1
invariant mapping.attrs() == vrun(old(mapping).attrs(), __it1.done()),
@fn AttributeCommand::apply_edge_commands_to
ensures final(mapping).attrs() == erun(old(mapping).attrs(), commands@),
@loop 1
invariant mapping.attrs() == erun(old(mapping).attrs(), __it1.done()),
