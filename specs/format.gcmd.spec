@source core/src/format/gcmd.rs
@broadcast lean crate::text::axiom_nd crate::text::axiom_space crate::text::lemma_nothing_before
@items
use crate::format::utils::*;
use crate::graph_command::*;
pub open spec fn kw_av() -> Seq<char> { seq!['A', 'd', 'd', 'V', 'e', 'r', 't', 'e', 'x', ' '] }
pub open spec fn kw_ae() -> Seq<char> { seq!['A', 'd', 'd', 'E', 'd', 'g', 'e', ' '] }
pub open spec fn kw_rv() -> Seq<char> { seq!['R', 'e', 'm', 'o', 'v', 'e', 'V', 'e', 'r', 't', 'e', 'x', ' '] }
pub open spec fn kw_re() -> Seq<char> { seq!['R', 'e', 'm', 'o', 'v', 'e', 'E', 'd', 'g', 'e', ' '] }
pub open spec fn one_id(l: Seq<char>, kw: Seq<char>, a: u64) -> bool { exists|d: Seq<char>| l == #[trigger] (kw + d) && id_text(d, a) }
pub open spec fn two_ids(l: Seq<char>, kw: Seq<char>, a: u64, b: u64) -> bool {
    exists|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_kdsd(l, kw, d, w, e) && id_text(d, a) && id_text(e, b)
}
/// the line l is the command c: the keyword, one blank, the ids in decimal with blanks between them
pub open spec fn gdenotes(l: Seq<char>, c: GraphCommand) -> bool {
    match c {
        GraphCommand::AddVertex(v) => one_id(l, kw_av(), v.0),
        GraphCommand::RemoveVertex(v) => one_id(l, kw_rv(), v.0),
        GraphCommand::AddEdge(v, w) => two_ids(l, kw_ae(), v.0, w.0),
        GraphCommand::RemoveEdge(v, w) => two_ids(l, kw_re(), v.0, w.0),
    }
}
pub open spec fn gden() -> spec_fn(Seq<char>, GraphCommand) -> bool { |l: Seq<char>, c: GraphCommand| gdenotes(l, c) }
/// the line that is written for c
pub open spec fn gline(c: GraphCommand) -> Seq<char> {
    match c {
        GraphCommand::AddVertex(v) => kw_av() + dec(v.0 as nat),
        GraphCommand::RemoveVertex(v) => kw_rv() + dec(v.0 as nat),
        GraphCommand::AddEdge(v, w) => kw_ae() + dec(v.0 as nat) + seq![' '] + dec(w.0 as nat),
        GraphCommand::RemoveEdge(v, w) => kw_re() + dec(v.0 as nat) + seq![' '] + dec(w.0 as nat),
    }
}
pub open spec fn gtx() -> spec_fn(GraphCommand) -> Seq<char> { |c: GraphCommand| gline(c) }
pub proof fn lemma_one(l: Seq<char>, kw: Seq<char>)
    ensures match rmatch(d_end(kw), l) {
        Some(g) => g.len() == 1 && kw.is_prefix_of(l) && forall|a: u64| #[trigger] one_id(l, kw, a) <==> u64_text(g[0]) == Some(a),
        None => forall|a: u64| !#[trigger] one_id(l, kw, a),
    },
{
    lemma_kw_d(kw, l);
    assert forall|d: Seq<char>, a: u64| #[trigger] id_text(d, a) implies is_d(d) by { lemma_id_digits(d); }
    if let Some(g) = rmatch(d_end(kw), l) {
        lemma_id_text(g[0]);
        assert forall|a: u64| #[trigger] one_id(l, kw, a) implies u64_text(g[0]) == Some(a) by {
            let d = choose|d: Seq<char>| l == #[trigger] (kw + d) && id_text(d, a);
            assert(id_text(d, a));
            assert(seq![d][0] == d);
        }
        assert forall|a: u64| u64_text(g[0]) == Some(a) implies #[trigger] one_id(l, kw, a) by { assert(id_text(g[0], a)); assert(l == kw + g[0]); }
    }
}
pub proof fn lemma_two(l: Seq<char>, kw: Seq<char>)
    ensures match rmatch(d_s_d_end(kw), l) {
        Some(g) => g.len() == 2 && kw.is_prefix_of(l) && forall|a: u64, b: u64| #[trigger] two_ids(l, kw, a, b) <==> u64_text(g[0]) == Some(a) && u64_text(g[1]) == Some(b),
        None => forall|a: u64, b: u64| !#[trigger] two_ids(l, kw, a, b),
    },
{
    lemma_kw_dsd(kw, l);
    if let Some(g) = rmatch(d_s_d_end(kw), l) {
        let w0 = choose|w: Seq<char>| #[trigger] is_kdsd(l, kw, g[0], w, g[1]);
        lemma_id_text(g[0]);
        lemma_id_text(g[1]);
        assert forall|a: u64, b: u64| #[trigger] two_ids(l, kw, a, b) implies u64_text(g[0]) == Some(a) && u64_text(g[1]) == Some(b) by {
            let (d, w, e) = choose|d: Seq<char>, w: Seq<char>, e: Seq<char>| #[trigger] is_kdsd(l, kw, d, w, e) && id_text(d, a) && id_text(e, b);
            assert(seq![d, e][0] == d && seq![d, e][1] == e);
        }
        assert forall|a: u64, b: u64| u64_text(g[0]) == Some(a) && u64_text(g[1]) == Some(b) implies #[trigger] two_ids(l, kw, a, b) by {
            assert(id_text(g[0], a) && id_text(g[1], b));
            assert(is_kdsd(l, kw, g[0], w0, g[1]));
        }
    }
}
/// how the four keywords divide the lines
pub proof fn lemma_line(l: Seq<char>)
    ensures
        match rmatch(d_end(kw_av()), l) {
            Some(g) => g.len() == 1 && rmatch(d_end(kw_rv()), l) is None && rmatch(d_s_d_end(kw_ae()), l) is None && rmatch(d_s_d_end(kw_re()), l) is None
                && forall|a: u64| #[trigger] one_id(l, kw_av(), a) <==> u64_text(g[0]) == Some(a),
            None => forall|a: u64| !#[trigger] one_id(l, kw_av(), a) },
        match rmatch(d_end(kw_rv()), l) {
            Some(g) => g.len() == 1 && rmatch(d_end(kw_av()), l) is None && rmatch(d_s_d_end(kw_ae()), l) is None && rmatch(d_s_d_end(kw_re()), l) is None
                && forall|a: u64| #[trigger] one_id(l, kw_rv(), a) <==> u64_text(g[0]) == Some(a),
            None => forall|a: u64| !#[trigger] one_id(l, kw_rv(), a) },
        match rmatch(d_s_d_end(kw_ae()), l) {
            Some(g) => g.len() == 2 && rmatch(d_end(kw_av()), l) is None && rmatch(d_end(kw_rv()), l) is None && rmatch(d_s_d_end(kw_re()), l) is None
                && forall|a: u64, b: u64| #[trigger] two_ids(l, kw_ae(), a, b) <==> u64_text(g[0]) == Some(a) && u64_text(g[1]) == Some(b),
            None => forall|a: u64, b: u64| !#[trigger] two_ids(l, kw_ae(), a, b) },
        match rmatch(d_s_d_end(kw_re()), l) {
            Some(g) => g.len() == 2 && rmatch(d_end(kw_av()), l) is None && rmatch(d_end(kw_rv()), l) is None && rmatch(d_s_d_end(kw_ae()), l) is None
                && forall|a: u64, b: u64| #[trigger] two_ids(l, kw_re(), a, b) <==> u64_text(g[0]) == Some(a) && u64_text(g[1]) == Some(b),
            None => forall|a: u64, b: u64| !#[trigger] two_ids(l, kw_re(), a, b) },
{
    lemma_one(l, kw_av());
    lemma_one(l, kw_rv());
    lemma_two(l, kw_ae());
    lemma_two(l, kw_re());
    if kw_av().is_prefix_of(l) { assert(l[0] == kw_av()[0] && l[3] == kw_av()[3]); }
    if kw_rv().is_prefix_of(l) { assert(l[0] == kw_rv()[0] && l[6] == kw_rv()[6]); }
    if kw_ae().is_prefix_of(l) { assert(l[0] == kw_ae()[0] && l[3] == kw_ae()[3]); }
    if kw_re().is_prefix_of(l) { assert(l[0] == kw_re()[0] && l[6] == kw_re()[6]); }
}
/// C02: what is written for a command denotes it, and nothing else
pub proof fn lemma_gline(c: GraphCommand)
    ensures writes(gtx(), gden(), com(), c),
{
    let l = gline(c);
    lemma_line(l);
    match c {
        GraphCommand::AddVertex(v) | GraphCommand::RemoveVertex(v) => {
            let kw = if c is AddVertex { kw_av() } else { kw_rv() };
            let d = dec(v.0 as nat);
            lemma_dec(v.0 as nat);
            assert(id_text(d, v.0));
            lemma_id_digits(d);
            assert(one_id(l, kw, v.0));
            lemma_plain(kw, d, Seq::empty(), Seq::empty());
            assert(l =~= kw + d + Seq::<char>::empty() + Seq::<char>::empty());
        }
        GraphCommand::AddEdge(v, w) | GraphCommand::RemoveEdge(v, w) => {
            let kw = if c is AddEdge { kw_ae() } else { kw_re() };
            let (d, s, e) = (dec(v.0 as nat), seq![' '], dec(w.0 as nat));
            lemma_dec(v.0 as nat);
            lemma_dec(w.0 as nat);
            assert(id_text(d, v.0) && id_text(e, w.0));
            lemma_id_digits(d);
            lemma_id_digits(e);
            assert(l =~= kw + (d + s + e));
            assert(spaces(s));
            assert(is_kdsd(l, kw, d, s, e));
            assert(two_ids(l, kw, v.0, w.0));
            lemma_plain(kw, d, s, e);
        }
    }
}
/// letters, digits and blanks
pub proof fn lemma_plain(kw: Seq<char>, d: Seq<char>, s: Seq<char>, e: Seq<char>)
    requires kw == kw_av() || kw == kw_rv() || kw == kw_ae() || kw == kw_re(), all_digits(d), s == seq![' '] || s.len() == 0, e.len() == 0 || all_digits(e), s.len() > 0 ==> e.len() > 0,
    ensures no_eol(kw + d + s + e), (kw + d + s + e).len() > 0, (kw + d + s + e).last() != '\r', !is_com(kw + d + s + e),
{
    let l = kw + d + s + e;
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != '\n' && l[i] != '\r' by {
        let (a, b, c) = (kw.len() as int, (kw.len() + d.len()) as int, (kw.len() + d.len() + s.len()) as int);
        if i < a { assert(l[i] == kw[i]); } else if i < b { assert(l[i] == d[i - a]); } else if i < c { assert(l[i] == s[i - b]); } else { assert(l[i] == e[i - c]); }
    }
    assert(l[0] == kw[0]);
    assert(!is_space(l[0]));
    assert(longest(Cls::Space, l) == 0);
    assert(after(Cls::Space, l) =~= l);
}
/// C02, for files of this format: what was saved is read back
pub proof fn saved_is_read(cs: Seq<GraphCommand>, g: &DirectedGraph, r: Result<DirectedGraph, String>)
    requires makes(cs, g), only_adds(cs), graph_result(readable(lines_of(texts(gtx(), cs))), gden(), com(), r),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.vset() == g.vset(), forall|e: Edge| #[trigger] r->Ok_0.has_edge(e) <==> g.has_edge(e),
{
    assert forall|i: int| 0 <= i < cs.len() implies writes(gtx(), gden(), com(), #[trigger] cs[i]) by { lemma_gline(cs[i]); }
    graph_read_back(gtx(), gden(), com(), cs, g, r);
}
/// C02: what was appended is read back after what was there
pub proof fn appended_is_read(t: Seq<char>, before: Seq<GraphCommand>, cs: Seq<GraphCommand>, r: Result<Vec<GraphCommand>, String>)
    requires t.len() == 0 || t.last() == '\n', reads(readable(lines_of(t)), lines_of(t).len(), gden(), com(), before), read_result(readable(lines_of(t + texts(gtx(), cs))), gden(), com(), r),
    ensures r is Ok, r->Ok_0@ == before + cs,
{
    assert forall|i: int| 0 <= i < cs.len() implies writes(gtx(), gden(), com(), #[trigger] cs[i]) by { lemma_gline(cs[i]); }
    let den = gden();
    assert forall|l: Seq<char>, c: GraphCommand, d: GraphCommand| #[trigger] den(l, c) && #[trigger] den(l, d) implies c == d by { lemma_line(l); assert(gdenotes(l, c) && gdenotes(l, d)); }
    appended_read_back(gtx(), gden(), com(), t, before, cs, r);
}
/// what a save or an append leaves ends with the end of a line
pub proof fn lemma_texts_end(cs: Seq<GraphCommand>)
    ensures texts(gtx(), cs).len() == 0 || texts(gtx(), cs).last() == '\n',
{ if cs.len() > 0 { assert(texts(gtx(), cs).last() == line(gline(cs.last())).last()); } }
@fn parse_line
requires no_eol(line@),
ensures tells(line@, r, gden()),
@text
@at entry
proof { lemma_line(line@); }
@fn is_comment
ensures r == is_com(line@),
@text
@at entry
proof { reveal_strlit("#"); assert("#"@ =~= seq!['#']); assert forall|x: Seq<char>| #[trigger] trimmed(line@, x) implies is_com(line@) <==> x.len() > 0 && x.take(1) == seq!['#'] by { lemma_trimmed(line@, x); } }
@fn read_as_commands
ensures read_result(file.lines(), gden(), com(), r),
@text
@at entry
proof { assert(means(&parse_line, gden())); assert(com_means(&is_comment, com())); }
@fn read
ensures graph_result(file.lines(), gden(), com(), r),
@text
@at entry
proof { assert(means(&parse_line, gden())); assert(com_means(&is_comment, com())); }
@fn command_into_line
ensures r@ == gline(command),
@text
@fn add_commands
ensures r is Ok ==> written(filename@, Mode::Append, texts(gtx(), commands@)),
@text
@loop 1
invariant __all1 == commands@, buffered.f.path() == filename@, buffered.f.mode() == Mode::Append, buffered.text() == texts(gtx(), commands@.take(__it1.pos())),
@at before loop 1
proof { assert(commands@.take(0) =~= Seq::<GraphCommand>::empty()); }
@at loop 1 end
proof { lemma_texts_push(gtx(), commands@.take(__it1.pos() - 1), commands@[__it1.pos() - 1]); assert(commands@.take(__it1.pos()) =~= commands@.take(__it1.pos() - 1).push(commands@[__it1.pos() - 1])); }
@at after loop 1
proof { assert(commands@.take(__it1.pos()) =~= commands@); }
@fn save
requires graph.wf(),
ensures r is Ok ==> holds(filename@, gtx(), graph),
@text
@at entry
let ghost mut cs: Seq<GraphCommand> = Seq::empty();
@loop 1
invariant buffered.f.path() == filename@, buffered.f.mode() == Mode::Replace, buffered.text() == texts(gtx(), cs), only_adds(cs),
    forall|v: VertexId| #[trigger] run_v(cs, Set::<VertexId>::empty()).contains(v) <==> __it1.done().contains(&v),
    forall|e: Edge| !#[trigger] run_e(cs, no_edge(), e),
@at loop 1 end
proof { let c = AddVertex(*vertex); lemma_run_push(cs, c, no_edge()); lemma_texts_push(gtx(), cs, c); assert(cs.push(c).drop_last() =~= cs); cs = cs.push(c); }
@at after loop 1
proof { assert(run_v(cs, Set::<VertexId>::empty()) =~= graph.vset()); }
@loop 2
invariant graph.wf(), lists_edge_refs(__all2, graph.edge_pred()),
    buffered.f.path() == filename@, buffered.f.mode() == Mode::Replace, buffered.text() == texts(gtx(), cs), only_adds(cs),
    run_v(cs, Set::<VertexId>::empty()) == graph.vset(),
    forall|e: Edge| #[trigger] run_e(cs, no_edge(), e) <==> __it2.done().contains(&e),
@at loop 2 end
proof { let c = AddEdge(edge.0, edge.1); lemma_run_push(cs, c, no_edge()); lemma_texts_push(gtx(), cs, c); assert(cs.push(c).drop_last() =~= cs); cs = cs.push(c); assert(run_v(cs, Set::<VertexId>::empty()) =~= graph.vset()); }
@at after loop 2
proof { assert(makes(cs, graph)); }
