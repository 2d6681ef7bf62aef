@source core/src/format/utils.rs
@broadcast lean crate::text::axiom_nd crate::text::lemma_names crate::text::lemma_names_mid crate::text::lemma_names_end crate::graph_command::lemma_no_edge
@items
use crate::graph::*;
use crate::graph_command::*;
/// what the parser of a line answers: a command the line denotes, or an error when there is none
pub open spec fn means<P: Fn(&str) -> Result<GraphCommand, String>>(f: &P, den: spec_fn(Seq<char>, GraphCommand) -> bool) -> bool {
    forall|x: &str, r: Result<GraphCommand, String>| no_eol(x@) && #[trigger] f.ensures((x,), r) ==> tells(x@, r, den)
}
pub open spec fn tells(l: Seq<char>, r: Result<GraphCommand, String>, den: spec_fn(Seq<char>, GraphCommand) -> bool) -> bool {
    match r { Ok(c) => den(l, c), Err(_) => is_bad(l, den) }
}
pub open spec fn is_bad(l: Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool) -> bool { forall|c: GraphCommand| !#[trigger] den(l, c) }
pub open spec fn com_means<P: Fn(&str) -> bool>(f: &P, com: spec_fn(Seq<char>) -> bool) -> bool {
    forall|x: &str, r: bool| #[trigger] f.ensures((x,), r) ==> r == com(x@)
}
/// the first n lines are empty, comments, or denote the commands cs one after the other
pub open spec fn reads(lines: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>) -> bool
    decreases n,
{
    if n == 0 { cs.len() == 0 } else {
        match lines[n - 1] {
            None => false,
            Some(l) => if l.len() == 0 || com(l) { reads(lines, (n - 1) as nat, den, com, cs) }
                else { cs.len() > 0 && den(l, cs.last()) && reads(lines, (n - 1) as nat, den, com, cs.drop_last()) },
        }
    }
}
/// line n (from 0) is the first which is neither empty nor a comment nor a command
pub open spec fn stops(lines: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>) -> bool {
    n < lines.len() && reads(lines, n, den, com, cs) && match lines[n as int] { None => true, Some(l) => l.len() > 0 && !com(l) && is_bad(l, den) }
}
pub open spec fn at_line(lines: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>) -> bool {
    reads(lines, n, den, com, cs) && (stops(lines, n, den, com, cs) <==> n < lines.len() && match lines[n as int] { None => true, Some(l) => l.len() > 0 && !com(l) && is_bad(l, den) })
}
/// the message names the first bad line, counted from 1
pub open spec fn fails(lines: Seq<Option<Seq<char>>>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, m: Seq<char>) -> bool {
    exists|n: nat, cs: Seq<GraphCommand>| #[trigger] stops(lines, n, den, com, cs) && names(m, n + 1)
}
pub open spec fn read_result(lines: Seq<Option<Seq<char>>>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, r: Result<Vec<GraphCommand>, String>) -> bool {
    match r { Ok(cs) => reads(lines, lines.len(), den, com, cs@), Err(m) => fails(lines, den, com, m@) }
}
/// the graph that the commands build from nothing
pub open spec fn built(g: DirectedGraph, cs: Seq<GraphCommand>) -> bool {
    g.wf() && g.vset() == run_v(cs, Set::<VertexId>::empty()) && forall|e: Edge| #[trigger] g.has_edge(e) <==> run_e(cs, no_edge(), e)
}
pub open spec fn graph_result(lines: Seq<Option<Seq<char>>>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, r: Result<DirectedGraph, String>) -> bool {
    match r { Ok(g) => exists|cs: Seq<GraphCommand>| reads(lines, lines.len(), den, com, cs) && #[trigger] built(g, cs), Err(m) => fails(lines, den, com, m@) }
}
pub proof fn lemma_reads(lines: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>, c: GraphCommand)
    requires reads(lines, n, den, com, cs), n < lines.len(), lines[n as int] is Some,
    ensures lines[n as int].unwrap().len() == 0 || com(lines[n as int].unwrap()) ==> reads(lines, n + 1, den, com, cs),
        lines[n as int].unwrap().len() > 0 && !com(lines[n as int].unwrap()) && den(lines[n as int].unwrap(), c) ==> reads(lines, n + 1, den, com, cs.push(c)),
{ assert(cs.push(c).drop_last() =~= cs); }
/// one line for each command
pub open spec fn texts(tx: spec_fn(GraphCommand) -> Seq<char>, cs: Seq<GraphCommand>) -> Seq<char>
    decreases cs.len(),
{ if cs.len() == 0 { Seq::empty() } else { texts(tx, cs.drop_last()) + line(tx(cs.last())) } }
pub proof fn lemma_texts_push(tx: spec_fn(GraphCommand) -> Seq<char>, cs: Seq<GraphCommand>, c: GraphCommand)
    ensures texts(tx, cs.push(c)) == texts(tx, cs) + line(tx(c)),
{ assert(cs.push(c).drop_last() =~= cs); }
/// the text of a command is one line which denotes that command and no other
pub open spec fn writes(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, c: GraphCommand) -> bool {
    no_eol(tx(c)) && tx(c).len() > 0 && tx(c).last() != '\r' && !com(tx(c)) && den(tx(c), c) && forall|d: GraphCommand| #[trigger] den(tx(c), d) ==> d == c
}
pub open spec fn lines_are(tx: spec_fn(GraphCommand) -> Seq<char>, cs: Seq<GraphCommand>) -> Seq<Seq<char>> { Seq::new(cs.len(), |i: int| tx(cs[i])) }
pub proof fn lemma_texts_lines(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>, s: Seq<char>)
    requires forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]),
    ensures lines_of(texts(tx, cs) + s) == lines_are(tx, cs) + lines_of(s),
    decreases cs.len(),
{
    if cs.len() == 0 {
        assert(texts(tx, cs) + s =~= s);
        assert(lines_are(tx, cs) + lines_of(s) =~= lines_of(s));
    } else {
        let p = cs.drop_last();
        let c = cs.last();
        assert(writes(tx, den, com, cs[cs.len() - 1]));
        assert(texts(tx, cs) + s =~= texts(tx, p) + (line(tx(c)) + s));
        assert forall|i: int| 0 <= i < p.len() implies writes(tx, den, com, #[trigger] p[i]) by { assert(p[i] == cs[i]); }
        lemma_texts_lines(tx, den, com, p, line(tx(c)) + s);
        lemma_lines_of(tx(c), s);
        assert(lines_are(tx, p) + (seq![tx(c)] + lines_of(s)) =~= lines_are(tx, cs) + lines_of(s));
    }
}
pub open spec fn readable(l: Seq<Seq<char>>) -> Seq<Option<Seq<char>>> { Seq::new(l.len(), |i: int| Some(l[i])) }
pub proof fn lemma_reads_back(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>, n: nat, ds: Seq<GraphCommand>)
    requires forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]), n <= cs.len(), reads(readable(lines_are(tx, cs)), n, den, com, ds),
    ensures ds == cs.take(n as int),
    decreases n,
{
    if n > 0 {
        assert(writes(tx, den, com, cs[n - 1]));
        lemma_reads_back(tx, den, com, cs, (n - 1) as nat, ds.drop_last());
        assert(ds =~= cs.take(n as int));
    } else {
        assert(ds =~= cs.take(0));
    }
}
/// C02: the lines written for commands are read as those commands
pub proof fn texts_read_back(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>, r: Result<Vec<GraphCommand>, String>)
    requires forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]), read_result(readable(lines_of(texts(tx, cs))), den, com, r),
    ensures r is Ok, r->Ok_0@ == cs,
{
    lemma_texts_lines(tx, den, com, cs, Seq::empty());
    assert(texts(tx, cs) + Seq::<char>::empty() =~= texts(tx, cs));
    assert(lines_of(texts(tx, cs)) =~= lines_are(tx, cs));
    let lines = readable(lines_are(tx, cs));
    match r {
        Ok(ds) => { lemma_reads_back(tx, den, com, cs, cs.len(), ds@); assert(cs.take(cs.len() as int) =~= cs); }
        Err(m) => {
            let (n, ds) = choose|n: nat, ds: Seq<GraphCommand>| #[trigger] stops(lines, n, den, com, ds) && names(m@, n + 1);
            assert(writes(tx, den, com, cs[n as int]));
            assert(den(tx(cs[n as int]), cs[n as int]));
        }
    }
}
/// the commands which make the graph from nothing
pub open spec fn makes(cs: Seq<GraphCommand>, g: &DirectedGraph) -> bool {
    run_v(cs, Set::<VertexId>::empty()) == g.vset() && forall|e: Edge| #[trigger] run_e(cs, no_edge(), e) <==> g.has_edge(e)
}
/// the file holds the graph, and nothing else
pub open spec fn holds(path: Seq<char>, tx: spec_fn(GraphCommand) -> Seq<char>, g: &DirectedGraph) -> bool {
    exists|cs: Seq<GraphCommand>| #[trigger] makes(cs, g) && only_adds(cs) && written(path, Mode::Replace, texts(tx, cs))
}
pub open spec fn only_adds(cs: Seq<GraphCommand>) -> bool { forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] is AddVertex || cs[i] is AddEdge }
/// C02: a graph saved to a file is read back
pub proof fn graph_read_back(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>, g: &DirectedGraph, r: Result<DirectedGraph, String>)
    requires makes(cs, g), forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]), graph_result(readable(lines_of(texts(tx, cs))), den, com, r),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.vset() == g.vset(), forall|e: Edge| #[trigger] r->Ok_0.has_edge(e) <==> g.has_edge(e),
{
    lemma_texts_lines(tx, den, com, cs, Seq::empty());
    assert(texts(tx, cs) + Seq::<char>::empty() =~= texts(tx, cs));
    assert(lines_of(texts(tx, cs)) =~= lines_are(tx, cs));
    let lines = readable(lines_are(tx, cs));
    match r {
        Ok(h) => {
            let ds = choose|ds: Seq<GraphCommand>| reads(lines, lines.len(), den, com, ds) && #[trigger] built(h, ds);
            lemma_reads_back(tx, den, com, cs, cs.len(), ds);
            assert(cs.take(cs.len() as int) =~= cs);
        }
        Err(m) => {
            let (n, ds) = choose|n: nat, ds: Seq<GraphCommand>| #[trigger] stops(lines, n, den, com, ds) && names(m@, n + 1);
            assert(writes(tx, den, com, cs[n as int]));
            assert(den(tx(cs[n as int]), cs[n as int]));
        }
    }
}
/// no line denotes two commands
pub open spec fn one_meaning(den: spec_fn(Seq<char>, GraphCommand) -> bool) -> bool {
    forall|l: Seq<char>, c: GraphCommand, d: GraphCommand| #[trigger] den(l, c) && #[trigger] den(l, d) ==> c == d
}
pub proof fn lemma_reads_once(lines: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, a: Seq<GraphCommand>, b: Seq<GraphCommand>)
    requires one_meaning(den), reads(lines, n, den, com, a), reads(lines, n, den, com, b),
    ensures a == b,
    decreases n,
{
    if n == 0 { assert(a =~= b); } else {
        let l = lines[n - 1].unwrap();
        if l.len() == 0 || com(l) { lemma_reads_once(lines, (n - 1) as nat, den, com, a, b); }
        else {
            lemma_reads_once(lines, (n - 1) as nat, den, com, a.drop_last(), b.drop_last());
            assert(den(l, a.last()) && den(l, b.last()));
            assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last()));
        }
    }
}
/// a longer file starts with the same commands
pub proof fn lemma_reads_prefix(l: Seq<Option<Seq<char>>>, m: Seq<Option<Seq<char>>>, n: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>)
    requires reads(l, n, den, com, cs), n <= l.len() <= m.len(), forall|i: int| 0 <= i < n ==> #[trigger] m[i] == l[i],
    ensures reads(m, n, den, com, cs),
    decreases n,
{
    if n > 0 {
        assert(m[n - 1] == l[n - 1]);
        let x = l[n - 1].unwrap();
        if x.len() == 0 || com(x) { lemma_reads_prefix(l, m, (n - 1) as nat, den, com, cs); } else { lemma_reads_prefix(l, m, (n - 1) as nat, den, com, cs.drop_last()); }
    }
}
/// C02: commands appended to a file are read after those already there
pub proof fn appended_read_back(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, t: Seq<char>, before: Seq<GraphCommand>, cs: Seq<GraphCommand>, r: Result<Vec<GraphCommand>, String>)
    requires one_meaning(den), forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]), t.len() == 0 || t.last() == '\n',
        reads(readable(lines_of(t)), lines_of(t).len(), den, com, before), read_result(readable(lines_of(t + texts(tx, cs))), den, com, r),
    ensures r is Ok, r->Ok_0@ == before + cs,
{
    let old_lines = readable(lines_of(t));
    let n0 = old_lines.len();
    let lines = readable(lines_of(t + texts(tx, cs)));
    lemma_lines_concat(t, texts(tx, cs));
    lemma_texts_lines(tx, den, com, cs, Seq::empty());
    assert(texts(tx, cs) + Seq::<char>::empty() =~= texts(tx, cs));
    assert(lines_of(texts(tx, cs)) =~= lines_are(tx, cs));
    assert(lines =~= old_lines + readable(lines_are(tx, cs)));
    lemma_reads_prefix(old_lines, lines, n0, den, com, before);
    lemma_reads_more(tx, den, com, lines, n0, before, cs, cs.len());
    assert(cs.take(cs.len() as int) =~= cs);
    match r {
        Ok(ds) => { lemma_reads_once(lines, lines.len(), den, com, ds@, before + cs); }
        Err(m) => {
            let (n, ds) = choose|n: nat, ds: Seq<GraphCommand>| #[trigger] stops(lines, n, den, com, ds) && names(m@, n + 1);
            if n >= n0 {
                let k = (n - n0) as int;
                assert(lines[n as int] == Some(tx(cs[k])));
                assert(writes(tx, den, com, cs[k]));
                assert(den(tx(cs[k]), cs[k]));
            } else {
                lemma_stops_not(lines, n, n0, den, com, before);
            }
        }
    }
}
pub proof fn lemma_stops_not(lines: Seq<Option<Seq<char>>>, n: nat, m: nat, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, cs: Seq<GraphCommand>)
    requires reads(lines, m, den, com, cs), n < m,
    ensures lines[n as int] is Some, lines[n as int].unwrap().len() == 0 || com(lines[n as int].unwrap()) || !is_bad(lines[n as int].unwrap(), den),
    decreases m,
{
    let l = lines[m - 1].unwrap();
    if n < m - 1 {
        if l.len() == 0 || com(l) { lemma_stops_not(lines, n, (m - 1) as nat, den, com, cs); } else { lemma_stops_not(lines, n, (m - 1) as nat, den, com, cs.drop_last()); }
    } else if !(l.len() == 0 || com(l)) { assert(den(l, cs.last())); }
}
pub proof fn lemma_reads_more(tx: spec_fn(GraphCommand) -> Seq<char>, den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool, lines: Seq<Option<Seq<char>>>, n0: nat, before: Seq<GraphCommand>, cs: Seq<GraphCommand>, k: nat)
    requires reads(lines, n0, den, com, before), k <= cs.len(), lines.len() == n0 + cs.len(),
        forall|i: int| 0 <= i < cs.len() ==> writes(tx, den, com, #[trigger] cs[i]), forall|i: int| 0 <= i < cs.len() ==> lines[n0 + i] == Some(tx(#[trigger] cs[i])),
    ensures reads(lines, n0 + k, den, com, before + cs.take(k as int)),
    decreases k,
{
    if k == 0 { assert(before + cs.take(0) =~= before); }
    else {
        lemma_reads_more(tx, den, com, lines, n0, before, cs, (k - 1) as nat);
        let c = cs[k - 1];
        assert(writes(tx, den, com, c));
        assert(lines[n0 + k - 1] == Some(tx(c)));
        lemma_reads(lines, (n0 + k - 1) as nat, den, com, before + cs.take(k - 1), c);
        assert((before + cs.take(k - 1)).push(c) =~= before + cs.take(k as int));
    }
}
@fn read_as_commands
requires forall|x: &str| no_eol(x@) ==> #[trigger] parse_line.requires((x,)), forall|x: &str| #[trigger] is_comment.requires((x,)),
ensures forall|den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool| #![trigger means(&parse_line, den), com_means(&is_comment, com)]
    means(&parse_line, den) && com_means(&is_comment, com) ==> read_result(file.lines(), den, com, r),
@text
@loop 1
invariant __all1.len() == file.lines().len(), __all1.len() < usize::MAX,
    forall|i: int| 0 <= i < __all1.len() ==> (#[trigger] __all1[i]).0 == i && match __all1[i].1 { Ok(s) => file.lines()[i] == Some(s@) && no_eol(s@), Err(_) => file.lines()[i] is None },
    forall|den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool| #![trigger means(&parse_line, den), com_means(&is_comment, com)]
        means(&parse_line, den) && com_means(&is_comment, com) ==> reads(file.lines(), __it1.pos() as nat, den, com, result@),
@closure 1 String
ensures names(__r@, (index + 1) as nat),
@at entry
let ghost mut r0: Seq<GraphCommand> = Seq::empty();
@at loop 1 begin
proof {
    r0 = result@;
    assert forall|den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool| #![trigger means(&parse_line, den), com_means(&is_comment, com)]
        means(&parse_line, den) && com_means(&is_comment, com) implies at_line(file.lines(), (__it1.pos() - 1) as nat, den, com, r0) by { }
}
@at loop 1 end
proof {
    assert forall|den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool| #![trigger means(&parse_line, den), com_means(&is_comment, com)]
        means(&parse_line, den) && com_means(&is_comment, com) implies reads(file.lines(), __it1.pos() as nat, den, com, result@) by {
        lemma_reads(file.lines(), (__it1.pos() - 1) as nat, den, com, r0, if result@.len() > 0 { result@.last() } else { arbitrary() });
    }
}
@fn read
requires forall|x: &str| no_eol(x@) ==> #[trigger] parse_line.requires((x,)), forall|x: &str| #[trigger] is_comment.requires((x,)),
ensures forall|den: spec_fn(Seq<char>, GraphCommand) -> bool, com: spec_fn(Seq<char>) -> bool| #![trigger means(&parse_line, den), com_means(&is_comment, com)]
    means(&parse_line, den) && com_means(&is_comment, com) ==> graph_result(file.lines(), den, com, r),
@text
@closure 1 DirectedGraph
ensures built(__r, commands@),
@fn parse_vertex_id
ensures match r { Ok(v) => u64_text(id@) == Some(v.0), Err(_) => u64_text(id@) is None },
@text
