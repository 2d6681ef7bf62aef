@source core/src/format/tgf.rs
@broadcast lean crate::text::axiom_nd crate::text::axiom_space crate::text::lemma_nothing_before
@items
use crate::format::utils::*;
use crate::graph_command::*;
pub open spec fn first_id(l: Seq<char>) -> Seq<char> { lead(Cls::Digit, l) }
pub open spec fn gap(l: Seq<char>) -> Seq<char> { lead(Cls::Space, after(Cls::Digit, l)) }
pub open spec fn second_id(l: Seq<char>) -> Seq<char> { lead(Cls::Digit, after(Cls::Space, after(Cls::Digit, l))) }
pub open spec fn is_pair(l: Seq<char>) -> bool { first_id(l).len() > 0 && gap(l).len() > 0 && second_id(l).len() > 0 }
/// the line l is the command c: two ids with blanks between them are an edge, one id is a vertex, and what follows is a label
pub open spec fn tdenotes(l: Seq<char>, c: GraphCommand) -> bool {
    match c {
        GraphCommand::AddEdge(v, w) => is_pair(l) && id_text(first_id(l), v.0) && id_text(second_id(l), w.0),
        GraphCommand::AddVertex(v) => !is_pair(l) && id_text(first_id(l), v.0),
        _ => false,
    }
}
pub open spec fn tden() -> spec_fn(Seq<char>, GraphCommand) -> bool { |l: Seq<char>, c: GraphCommand| tdenotes(l, c) }
/// the line that is written for c
pub open spec fn tline(c: GraphCommand) -> Seq<char> {
    match c {
        GraphCommand::AddVertex(v) => dec(v.0 as nat),
        GraphCommand::AddEdge(v, w) => dec(v.0 as nat) + seq![' '] + dec(w.0 as nat),
        _ => Seq::empty(),
    }
}
pub open spec fn ttx() -> spec_fn(GraphCommand) -> Seq<char> { |c: GraphCommand| tline(c) }
pub proof fn lemma_tmatch(l: Seq<char>)
    requires no_eol(l),
    ensures
        match rmatch(d_s_d_any(), l) {
            Some(g) => is_pair(l) && g.len() == 3 && g[0] == first_id(l) && g[1] == second_id(l),
            None => !is_pair(l) },
        match rmatch(d_any(), l) {
            Some(g) => first_id(l).len() > 0 && g.len() == 2 && g[0] == first_id(l),
            None => first_id(l).len() == 0 },
        forall|v: u64| #[trigger] id_text(first_id(l), v) <==> u64_text(first_id(l)) == Some(v),
        forall|v: u64| #[trigger] id_text(second_id(l), v) <==> u64_text(second_id(l)) == Some(v),
{
    lemma_match_d_s_d_any(l);
    lemma_match_d_any(d_any(), l);
    lemma_longest(Cls::Digit, l);
    let t = after(Cls::Digit, l);
    lemma_longest(Cls::Space, t);
    lemma_longest(Cls::Digit, after(Cls::Space, t));
    lemma_id_text(first_id(l));
    lemma_id_text(second_id(l));
}
/// C02: what is written for a command denotes it, and nothing else
pub proof fn lemma_tline(c: GraphCommand)
    requires c is AddVertex || c is AddEdge,
    ensures writes(ttx(), tden(), com(), c),
{
    let l = tline(c);
    let no = Seq::<char>::empty();
    match c {
        GraphCommand::AddVertex(v) => {
            let d = dec(v.0 as nat);
            lemma_dec(v.0 as nat);
            lemma_id_digits(d);
            assert(l =~= d + no);
            lemma_longest_is(Cls::Digit, d, no);
            assert(l[0] == d[0] && is_nd(d[0]) && in_cls(Cls::Digit, d[0]) && '0' <= d[0] <= '9');
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != '\n' && l[i] != '\r' by { assert('0' <= d[i] <= '9'); }
            assert(id_text(first_id(l), v.0));
        }
        GraphCommand::AddEdge(v, w) => {
            let (d, s, e) = (dec(v.0 as nat), seq![' '], dec(w.0 as nat));
            lemma_dec(v.0 as nat);
            lemma_dec(w.0 as nat);
            lemma_id_digits(d);
            lemma_id_digits(e);
            let t = s + e;
            assert(l =~= d + t);
            assert(t[0] == ' ' && !is_nd(' ') && is_space(' '));
            lemma_longest_is(Cls::Digit, d, t);
            assert(in_cls(Cls::Digit, e[0]) && is_nd(e[0]));
            lemma_longest_is(Cls::Space, s, e);
            assert(e =~= e + no);
            lemma_longest_is(Cls::Digit, e, no);
            assert(first_id(l) == d && gap(l) == s && second_id(l) == e);
            assert(l[0] == d[0] && in_cls(Cls::Digit, d[0]) && '0' <= d[0] <= '9');
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != '\n' && l[i] != '\r' by {
                let (a, b) = (d.len() as int, d.len() + 1);
                if i < a { assert(l[i] == d[i] && '0' <= d[i] <= '9'); } else if i < b { assert(l[i] == s[i - a]); } else { assert(l[i] == e[i - b] && '0' <= e[i - b] <= '9'); }
            }
        }
        _ => { }
    }
    assert(!is_space(l[0]));
    assert(longest(Cls::Space, l) == 0);
    assert(after(Cls::Space, l) =~= l);
}
/// C02, for files of this format: what was saved is read back
pub proof fn saved_is_read(cs: Seq<GraphCommand>, g: &DirectedGraph, r: Result<DirectedGraph, String>)
    requires makes(cs, g), only_adds(cs), graph_result(readable(lines_of(texts(ttx(), cs))), tden(), com(), r),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.vset() == g.vset(), forall|e: Edge| #[trigger] r->Ok_0.has_edge(e) <==> g.has_edge(e),
{
    assert forall|i: int| 0 <= i < cs.len() implies writes(ttx(), tden(), com(), #[trigger] cs[i]) by { lemma_tline(cs[i]); }
    graph_read_back(ttx(), tden(), com(), cs, g, r);
}
@fn parse_line
requires no_eol(line@),
ensures tells(line@, r, tden()),
@text
@at entry
proof { lemma_tmatch(line@); }
@fn is_comment
ensures r == is_com(line@),
@text
@at entry
proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); assert forall|x: Seq<char>| #[trigger] trimmed(line@, x) implies is_com(line@) <==> x.len() > 0 && x.take(1) == seq!['#'] by { lemma_trimmed(line@, x); } }
@fn read_as_commands
ensures read_result(file.lines(), tden(), com(), r),
@text
@at entry
proof { assert(means(&parse_line, tden())); assert(com_means(&is_comment, com())); }
@fn read
ensures graph_result(file.lines(), tden(), com(), r),
@text
@at entry
proof { assert(means(&parse_line, tden())); assert(com_means(&is_comment, com())); }
@fn save
requires graph.wf(),
ensures r is Ok ==> holds(filename@, ttx(), graph),
@text
@at entry
let ghost mut cs: Seq<GraphCommand> = Seq::empty();
let ghost fname = filename@;
@loop 1
invariant buffered.f.path() == fname, buffered.f.mode() == Mode::Replace, buffered.text() == texts(ttx(), cs), only_adds(cs),
    forall|v: VertexId| #[trigger] run_v(cs, Set::<VertexId>::empty()).contains(v) <==> __it1.done().contains(&v),
    forall|e: Edge| !#[trigger] run_e(cs, no_edge(), e),
@at loop 1 end
proof { let c = AddVertex(*vertex); lemma_run_push(cs, c, no_edge()); lemma_texts_push(ttx(), cs, c); assert(cs.push(c).drop_last() =~= cs); cs = cs.push(c); }
@at after loop 1
proof { assert(run_v(cs, Set::<VertexId>::empty()) =~= graph.vset()); }
@loop 2
invariant graph.wf(), lists_edge_refs(__all2, graph.edge_pred()),
    buffered.f.path() == fname, buffered.f.mode() == Mode::Replace, buffered.text() == texts(ttx(), cs), only_adds(cs),
    run_v(cs, Set::<VertexId>::empty()) == graph.vset(),
    forall|e: Edge| #[trigger] run_e(cs, no_edge(), e) <==> __it2.done().contains(&e),
@at loop 2 end
proof { let c = AddEdge(edge.0, edge.1); lemma_run_push(cs, c, no_edge()); lemma_texts_push(ttx(), cs, c); assert(cs.push(c).drop_last() =~= cs); cs = cs.push(c); assert(run_v(cs, Set::<VertexId>::empty()) =~= graph.vset()); }
@at after loop 2
proof { assert(makes(cs, graph)); }
