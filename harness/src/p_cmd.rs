//! Commands and files (C02), options (C15), random graphs (C16), reading (C19)
use crate::cli;
use crate::p_core::agrees;
use crate::util::*;
use crate::Ctx;
use gc_command::{arg_utils, graph_utils};
use gc_core::constraint::constraint::Constraint::*;
use gc_core::constraint::constraint::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::{gcmd, tgf};
use gc_core::graph::{Edge, VertexId};
use gc_core::graph_command::GraphCommand;
use gc_core::graph_command::GraphCommand::*;
use gc_core::iter::iter_cycle;
use gc_core::path::{Path, ScoredPath};
use std::collections::BTreeSet;
use std::fs::File;

type Sets = (BTreeSet<u64>, BTreeSet<(u64, u64)>);

fn step(s: &mut Sets, c: &GraphCommand) {
    match c {
        AddVertex(a) => {
            s.0.insert(a.0);
        }
        RemoveVertex(a) => {
            if !s.0.remove(&a.0) {
                return;
            }
            let k = a.0;
            s.1 = s.1.iter().cloned().filter(|e| e.0 != k && e.1 != k).collect();
        }
        AddEdge(a, b) => {
            s.0.insert(a.0);
            s.0.insert(b.0);
            s.1.insert((a.0, b.0));
        }
        RemoveEdge(a, b) => {
            s.1.remove(&(a.0, b.0));
        }
    }
}

fn commands(r: &mut Rng, pool: &[u64], len: usize) -> Vec<GraphCommand> {
    let rem = if len > 1000 { r.below(2) } else { 1 + r.below(3) };
    (0..len)
        .map(|_| {
            let (a, b) = (VertexId(*r.pick(pool)), VertexId(*r.pick(pool)));
            if r.chance(rem, 6) {
                if r.chance(1, 3) { RemoveVertex(a) } else { RemoveEdge(a, b) }
            } else if r.chance(1, 4) {
                AddVertex(a)
            } else {
                AddEdge(a, b)
            }
        })
        .collect()
}

fn strings(xs: &[u64]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}

pub fn c02(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let long = big(i, r, 20000);
    let n = match long {
        Some(n) => 1 + r.below(n),
        None => 1 + r.below(6),
    };
    let pool = names(r, n);
    let len = long.unwrap_or(r.below(14));
    let cs = commands(r, &pool, len);
    let pre = { let k = r.below(8); commands(r, &pool, k) };
    c.input(format!("starting graph from {:?}; commands {:?}", pre, cs));
    let mut g = DirectedGraph::new();
    let mut m: Sets = (BTreeSet::new(), BTreeSet::new());
    for x in &pre {
        x.apply_to(&mut g);
        step(&mut m, x);
    }
    agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("after the starting commands one by one: {}", e))?;
    GraphCommand::apply_commands(cs.clone(), &mut g);
    for x in &cs {
        step(&mut m, x);
    }
    agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("after the commands: {}", e))?;
    // the command list of a graph rebuilds it
    let list = GraphCommand::as_commands(&g);
    let mut h = DirectedGraph::new();
    GraphCommand::apply_commands(list.clone(), &mut h);
    agrees(&h, &m.0, &m.1, &pool).map_err(|e| format!("rebuilt from its command list {:?}: {}", list, e))?;
    // undo
    for x in commands(r, &pool, 3) {
        ensure!(GraphCommand::revert(GraphCommand::revert(x)) == x, "revert of revert of {:?}", x);
        let ok = match x {
            AddVertex(a) => !m.0.contains(&a.0),
            RemoveVertex(a) => m.0.contains(&a.0) && !m.1.iter().any(|e| e.0 == a.0 || e.1 == a.0),
            AddEdge(a, b) => m.0.contains(&a.0) && m.0.contains(&b.0) && !m.1.contains(&(a.0, b.0)),
            RemoveEdge(a, b) => m.1.contains(&(a.0, b.0)),
        };
        if ok {
            x.apply_to(&mut g);
            GraphCommand::revert(x).apply_to(&mut g);
            agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("after {:?} and its revert: {}", x, e))?;
        }
    }
    // files
    if i % 4 == 1 || long.is_some() {
        let dir = c.dir();
        let f = dir.join("f").to_str().unwrap().to_string();
        let rd = |p: &str| File::open(p).map_err(|e| e.to_string());
        gcmd::save(&g, &f).map_err(|e| e.to_string())?;
        let b = gcmd::read(rd(&f)?)?;
        agrees(&b, &m.0, &m.1, &pool).map_err(|e| format!("gcmd save and read: {}", e))?;
        let before = gcmd::read_as_commands(rd(&f)?)?;
        gcmd::add_commands(&f, cs.clone()).map_err(|e| e.to_string())?;
        let after = gcmd::read_as_commands(rd(&f)?)?;
        let exp: Vec<GraphCommand> = before.iter().chain(cs.iter()).cloned().collect();
        ensure!(after == exp, "after add_commands the file reads {:?}, expected {:?}", after, exp);
        // over a longer file: nothing of it may remain
        gcmd::save(&g, &f).map_err(|e| e.to_string())?;
        let b = gcmd::read(rd(&f)?)?;
        agrees(&b, &m.0, &m.1, &pool).map_err(|e| format!("gcmd save over a longer file and read: {}", e))?;
        tgf::save(&g, f.clone()).map_err(|e| e.to_string())?;
        let b = tgf::read(rd(&f)?)?;
        agrees(&b, &m.0, &m.1, &pool).map_err(|e| format!("tgf save and read: {}", e))?;
        let b = tgf::read_as_commands(rd(&f)?)?;
        let mut h = DirectedGraph::new();
        GraphCommand::apply_commands(b, &mut h);
        agrees(&h, &m.0, &m.1, &pool).map_err(|e| format!("tgf save and read as commands: {}", e))?;
    }
    // the stored graph
    if i % 8 == 3 {
        let dir = c.dir();
        let d = dir.to_str().unwrap();
        let es = |e: std::io::Error| e.to_string();
        graph_utils::init(d).map_err(es)?;
        let mut m: Sets = (BTreeSet::new(), BTreeSet::new());
        let mut exp: Vec<GraphCommand> = vec![];
        for _ in 0..1 + r.below(5) {
            let len = r.below(4);
            let k = commands(r, &pool, len);
            let vs: Vec<VertexId> = k.iter().filter_map(|x| if let AddVertex(a) = x { Some(*a) } else { None }).collect();
            let ae: Vec<(VertexId, VertexId)> = k.iter().filter_map(|x| if let AddEdge(a, b) = x { Some((*a, *b)) } else { None }).collect();
            let rv: Vec<VertexId> = k.iter().filter_map(|x| if let RemoveVertex(a) = x { Some(*a) } else { None }).collect();
            let re: Vec<(VertexId, VertexId)> = k.iter().filter_map(|x| if let RemoveEdge(a, b) = x { Some((*a, *b)) } else { None }).collect();
            graph_utils::add_vertices(d, vs.clone()).map_err(es)?;
            graph_utils::add_edges(d, ae.clone()).map_err(es)?;
            graph_utils::remove_edges(d, re.clone()).map_err(es)?;
            graph_utils::remove_vertices(d, rv.clone()).map_err(es)?;
            exp.extend(vs.iter().map(|a| AddVertex(*a)));
            exp.extend(ae.iter().map(|a| AddEdge(a.0, a.1)));
            exp.extend(re.iter().map(|a| RemoveEdge(a.0, a.1)));
            exp.extend(rv.iter().map(|a| RemoveVertex(*a)));
            let (a, b) = (VertexId(*r.pick(&pool)), VertexId(*r.pick(&pool)));
            graph_utils::add_vertex(d, a).map_err(es)?;
            graph_utils::add_edge(d, a, b).map_err(es)?;
            exp.extend(vec![AddVertex(a), AddEdge(a, b)]);
            if r.chance(1, 3) {
                graph_utils::remove_vertex(d, b).map_err(es)?;
                exp.push(RemoveVertex(b));
            }
        }
        for x in &exp {
            step(&mut m, x);
        }
        c.input(format!("stored graph, commands appended: {:?}", exp));
        let rd = gcmd::read_as_commands(File::open(dir.join(".graph").join("commands")).map_err(es)?)?;
        ensure!(rd == exp, "the command file reads {:?}", rd);
        let g = graph_utils::load_graph(d)?;
        agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("load_graph: {}", e))?;
        graph_utils::save_graph_as_commands(d, &g).map_err(es)?;
        let g = graph_utils::load_graph(d)?;
        agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("save_graph_as_commands, load_graph: {}", e))?;
        graph_utils::init(d).map_err(es)?;
        let g = graph_utils::load_graph(d)?;
        agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("init of an existing graph, load_graph: {}", e))?;
        if i % 32 == 3 {
            let o = cli::run(c, "gc-build", &[], &dir)?;
            ensure!(o.ok, "gc-build failed: {}", o.stderr);
            let g = graph_utils::load_graph(d)?;
            agrees(&g, &m.0, &m.1, &pool).map_err(|e| format!("gc-build, load_graph: {}", e))?;
            let (a, b) = (*r.pick(&pool), *r.pick(&pool));
            let mut exp = m.clone();
            step(&mut exp, &RemoveEdge(VertexId(a), VertexId(b)));
            let mut ar = cli::args(&[*r.pick(&["--edge", "-e"])]);
            ar.extend(strings(&[a, b]));
            let o = cli::run(c, "gc-delete", &ar, &dir)?;
            ensure!(o.ok, "gc-delete failed: {}", o.stderr);
            let g = graph_utils::load_graph(d)?;
            agrees(&g, &exp.0, &exp.1, &pool).map_err(|e| format!("gc-delete {:?}, load_graph: {}", ar, e))?;
            let o = cli::run(c, "gc-desc", &[], &dir)?;
            ensure!(
                o.stdout.contains(&format!("Vertices: {}\n", exp.0.len())) && o.stdout.contains(&format!("Edges: {}\n", exp.1.len())),
                "gc-desc printed {:?}",
                o.stdout
            );
            let id = |x: Option<&u64>| x.map(|y| y.to_string()).unwrap_or("-".to_string());
            ensure!(
                o.stdout.contains(&format!("Min vertex id: {}\n", id(exp.0.iter().next()))) && o.stdout.contains(&format!("Max vertex id: {}\n", id(exp.0.iter().last()))),
                "gc-desc printed {:?} for the vertices {:?}",
                o.stdout,
                exp.0
            );
            let mut ar = cli::args(&[*r.pick(&["--vertex", "-v"])]);
            ar.extend(strings(&[a, b]));
            step(&mut exp, &RemoveVertex(VertexId(a)));
            step(&mut exp, &RemoveVertex(VertexId(b)));
            let o = cli::run(c, "gc-delete", &ar, &dir)?;
            ensure!(o.ok, "gc-delete failed: {}", o.stderr);
            let g = graph_utils::load_graph(d)?;
            agrees(&g, &exp.0, &exp.1, &pool).map_err(|e| format!("gc-delete {:?}, load_graph: {}", ar, e))?;
            tools_at(r, c, &exp, &pool)?;
        }
    }
    Ok(len > 2)
}

/// gc-init, gc-clean, gc-build, gc-delete and gc-desc on a directory which is not the current one
fn tools_at(r: &mut Rng, c: &Ctx, m: &Sets, pool: &[u64]) -> Result<(), String> {
    let top = c.dir();
    let (here, there) = (top.join("here"), top.join("there"));
    std::fs::create_dir_all(&here).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(&there).map_err(|e| e.to_string())?;
    let d = there.to_str().unwrap().to_string();
    let vb = *r.pick(&["-v", "--verbose"]);
    let sl = *r.pick(&["-s", "--silent"]);
    let mut at = |xs: &[&str]| {
        let mut a = cli::args(xs);
        a.extend(cli::args(&[*r.pick(&["--path", "-p"]), &d]));
        a
    };
    let o = cli::run(c, "gc-init", &at(&[]), &here)?;
    ensure!(o.ok, "gc-init failed: {}", o.stderr);
    let g = graph_utils::load_graph(&d).map_err(|e| format!("after gc-init the graph does not load: {}", e))?;
    agrees(&g, &BTreeSet::new(), &BTreeSet::new(), pool).map_err(|e| format!("after gc-init: {}", e))?;
    let text: String = m.0.iter().map(|x| format!("AddVertex {}\n", x)).chain(m.1.iter().map(|e| format!("AddEdge {} {}\n", e.0, e.1))).collect();
    cli::put(&there, &text);
    let o = cli::run(c, "gc-init", &at(&[]), &here)?;
    ensure!(o.ok && cli::get(&there) == text, "gc-init on an existing graph: {:?}", o.stderr);
    let o = cli::run(c, "gc-build", &at(&[vb]), &here)?;
    ensure!(o.ok, "gc-build failed: {}", o.stderr);
    let g = graph_utils::load_graph(&d)?;
    agrees(&g, &m.0, &m.1, pool).map_err(|e| format!("gc-build --path, load_graph: {}", e))?;
    let o = cli::run(c, "gc-desc", &at(&[]), &here)?;
    ensure!(o.ok && o.stdout.contains(&format!("Vertices: {}\nEdges: {}\n", m.0.len(), m.1.len())), "gc-desc printed {:?}", o.stdout);
    // nobody says yes
    let before = cli::get(&there);
    let o = cli::run(c, "gc-clean", &at(&[]), &here)?;
    ensure!(cli::get(&there) == before && there.join(".graph").exists(), "gc-clean without confirmation removed the graph: {:?}", o.stdout);
    let k = pool[0].to_string();
    let o = cli::run(c, "gc-delete", &at(&["--vertex", &k]), &here)?;
    let mut exp = m.clone();
    step(&mut exp, &RemoveVertex(VertexId(pool[0])));
    ensure!(o.ok, "gc-delete failed: {}", o.stderr);
    let g = graph_utils::load_graph(&d)?;
    agrees(&g, &exp.0, &exp.1, pool).map_err(|e| format!("gc-delete --path, load_graph: {}", e))?;
    ensure!(!here.join(".graph").exists(), "a tool given --path wrote into the current directory");
    cli::put(&here, "AddVertex 3\n");
    let o = cli::run(c, "gc-clean", &at(&["-f"]), &here)?;
    ensure!(o.ok && !there.join(".graph").exists(), "gc-clean -f left the graph there: {:?}", o.stderr);
    ensure!(cli::get(&here) == "AddVertex 3\n", "gc-clean --path removed the graph of the current directory");
    let o = cli::run(c, "gc-clean", &cli::args(&["--force", sl]), &here)?;
    ensure!(o.ok && !here.join(".graph").exists(), "gc-clean --force left the graph: {:?}", o.stderr);
    ensure!(o.stdout.is_empty(), "gc-clean --silent printed {:?}", o.stdout);
    Ok(())
}

fn vids(xs: &[u64]) -> Vec<VertexId> {
    xs.iter().map(|x| VertexId(*x)).collect()
}

pub fn c15(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let long = big(i, r, 3000);
    let n = match long {
        Some(n) => 1 + r.below(n),
        None => 1 + r.below(6),
    };
    let pool = names(r, n);
    let len = long.unwrap_or(r.below(9));
    let l: Vec<u64> = (0..len).map(|_| *r.pick(&pool)).collect();
    c.input(format!("vertices {:?}", l));
    // pairs
    let t = arg_utils::as_vertex_tuple(vids(&l));
    let exp: Option<Vec<(VertexId, VertexId)>> =
        if len % 2 == 0 { Some((0..len / 2).map(|k| (VertexId(l[2 * k]), VertexId(l[2 * k + 1]))).collect()) } else { None };
    ensure!(t == exp, "as_vertex_tuple gives {:?}", t);
    // ids
    let mut s: Vec<String> = strings(&l);
    let mut good = true;
    if r.chance(1, 3) && len > 0 {
        let k = r.below(len);
        let bad = ["-1", "", "1 ", "x", "18446744073709551616", "1.0", "0x1", "99999999999999999999999", "+", "\u{661}"];
        s[k] = r.pick(&bad).to_string();
        good = false;
    } else if r.chance(1, 5) && len > 0 {
        let k = r.below(len);
        s[k] = format!("000{}", l[k]);
    }
    let strs: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
    let res = arg_utils::parse_vertex_id_list(strs.clone());
    let exp = if good { Some(vids(&l)) } else { None };
    ensure!(res == exp, "parse_vertex_id_list({:?}) gives {:?}", strs, res);
    let res = arg_utils::parse_edge_list(strs.clone());
    let exp: Option<Vec<Edge>> =
        if good && len % 2 == 0 { Some((0..len / 2).map(|k| Edge(VertexId(l[2 * k]), VertexId(l[2 * k + 1]))).collect()) } else { None };
    ensure!(res == exp, "parse_edge_list({:?}) gives {:?}", strs, res);
    for (k, x) in strs.iter().enumerate() {
        let e = if *x == s[k] && x.parse::<u64>().is_ok() { x.parse::<u64>().ok() } else { None };
        ensure!(arg_utils::parse_vertex_id(x) == e, "parse_vertex_id({:?}) gives {:?}", x, arg_utils::parse_vertex_id(x));
    }
    // constraints
    let es: Vec<Edge> = (1..len).map(|k| Edge(VertexId(l[k - 1]), VertexId(l[k]))).collect();
    let (num, sc) = (r.below(50), r.range(-50, 50));
    let chk = |what: &str, got: Vec<Constraint>, exp: Vec<Constraint>| -> Result<(), String> {
        ensure!(got == exp, "{} gives {:?}, expected {:?}", what, got, exp);
        Ok(())
    };
    let no = |k: Constraint| Not(Box::new(k));
    chk("include", arg_utils::build_constraint_include(vids(&l)), l.iter().map(|x| ContainsVertex(VertexId(*x))).collect())?;
    chk("exclude", arg_utils::build_constraint_exclude(vids(&l)), l.iter().map(|x| no(ContainsVertex(VertexId(*x)))).collect())?;
    chk("include edges", arg_utils::build_constraint_include_edges(es.clone()), es.iter().map(|x| ContainsEdge(*x)).collect())?;
    chk("exclude edges", arg_utils::build_constraint_exclude_edges(es.clone()), es.iter().map(|x| no(ContainsEdge(*x))).collect())?;
    chk("ordered", vec![arg_utils::build_constraint_ordered(vids(&l))], vec![OrderedVertices(vids(&l))])?;
    chk("include cycle", vec![arg_utils::build_constraint_include_cycle()], vec![ContainsCycle])?;
    chk("no cycle", vec![arg_utils::build_constraint_no_cycle()], vec![no(ContainsCycle)])?;
    chk("min length", vec![arg_utils::build_constraint_min_length(num)], vec![MinLength(num)])?;
    chk("max length", vec![arg_utils::build_constraint_max_length(num)], vec![MaxLength(num)])?;
    chk("exact length", arg_utils::build_constraint_exact_length(num), vec![MinLength(num), MaxLength(num)])?;
    chk("min score", vec![arg_utils::build_constraint_min_score(sc)], vec![MinScore(sc)])?;
    chk("max score", vec![arg_utils::build_constraint_max_score(sc)], vec![MaxScore(sc)])?;
    chk("exact score", arg_utils::build_constraint_exact_score(sc), vec![MinScore(sc), MaxScore(sc)])?;
    ensure!(arg_utils::option_of(true, || 5) == Some(5) && arg_utils::option_of(false, || 5) == None, "option_of");
    // the tools
    match i % 8 {
        1 | 5 => add_patterns(r, c, &pool)?,
        3 => csp_options(r, c, &pool)?,
        7 => cycle_options(r, c)?,
        _ => (),
    }
    Ok(len > 1)
}

fn add_patterns(r: &mut Rng, c: &Ctx, pool: &[u64]) -> Result<(), String> {
    let dir = c.dir();
    cli::put(&dir, "");
    let rev = r.chance(1, 2);
    let mut a: Vec<String> = vec![];
    let mut exp: Vec<String> = vec![];
    let mut refused = false;
    let brief = r.chance(1, 3);
    let kinds = if brief { ["-v", "-e", "-c", "-O", "-X", "-C"] } else { ["--vertex", "--edge", "--chain", "--cycle", "--star", "--clique"] };
    let mut picked: Vec<usize> = (0..6).filter(|_| r.chance(1, 4)).collect();
    if picked.is_empty() {
        picked.push(r.below(6));
    }
    // effects come in the order of the tool: vertices, edges, chain, cycle, star, clique
    for k in &picked {
        let n = if r.chance(1, 30) { 10 + r.below(if *k == 5 { 60 } else { 600 }) } else if *k == 0 { 1 + r.below(4) } else { 2 + r.below(6) };
        let l: Vec<u64> = (0..n).map(|_| *r.pick(pool)).collect();
        a.push(kinds[*k].to_string());
        a.extend(strings(&l));
        let es: Vec<(u64, u64)> = match k {
            0 => {
                exp.extend(l.iter().map(|x| format!("AddVertex {}", x)));
                vec![]
            }
            1 => {
                if n % 2 == 1 {
                    refused = true;
                    break;
                }
                (0..n / 2).map(|j| (l[2 * j], l[2 * j + 1])).collect()
            }
            2 => (1..n).map(|j| (l[j - 1], l[j])).collect(),
            3 => (0..n).map(|j| (l[j], l[(j + 1) % n])).collect(),
            4 => (1..n).map(|j| (l[0], l[j])).collect(),
            _ => {
                let mut v = vec![];
                for x in 0..n {
                    for y in 0..n {
                        if x != y {
                            v.push((l[x], l[y]));
                        }
                    }
                }
                v
            }
        };
        // every ordered pair is in a clique: reversing is a matter of order only, which the tool leaves
        let flip = rev && *k != 5;
        exp.extend(es.iter().map(|(x, y)| if flip { format!("AddEdge {} {}", y, x) } else { format!("AddEdge {} {}", x, y) }));
    }
    let clique_rev = rev && picked.contains(&5);
    if rev {
        a.push(if brief { "-r" } else { "--reverse" }.to_string());
    }
    let (a, at) = cli::place(r, a, &dir);
    c.input(format!("gc-add {:?}", a));
    let o = cli::run(c, "gc-add", &a, &at)?;
    let got: Vec<String> = cli::get(&dir).lines().map(|x| x.to_string()).collect();
    if refused {
        ensure!(!o.ok, "gc-add accepted an odd number of ids for --edge");
        return Ok(());
    }
    ensure!(o.ok, "gc-add failed: {}", o.stderr);
    if clique_rev {
        let (x, y): (BTreeSet<String>, BTreeSet<String>) = (got.iter().cloned().collect(), exp.iter().cloned().collect());
        ensure!(x == y && got.len() == exp.len(), "the command file is {:?}, expected {:?} in any order", got, exp);
    } else {
        ensure!(got == exp, "the command file is {:?}, expected {:?}", got, exp);
    }
    // an id which is no number is refused
    if r.chance(1, 4) {
        let k = *r.pick(&["--vertex", "--edge", "--chain", "--cycle", "--star", "--clique"]);
        let bad = *r.pick(&["x", "18446744073709551616", "1.5"]);
        let a = cli::args(&[k, "1", bad]);
        let o = cli::run(c, "gc-add", &a, &dir)?;
        let now: Vec<String> = cli::get(&dir).lines().map(|x| x.to_string()).collect();
        ensure!(!o.ok && now == got, "gc-add {:?} was accepted: {:?}", a, now);
    }
    Ok(())
}

fn csp_options(r: &mut Rng, c: &Ctx, pool: &[u64]) -> Result<(), String> {
    let dir = c.dir();
    // a lone edge: the search itself is trivial, what counts is the constraints it gets
    cli::put(&dir, "AddEdge 1 2\n");
    let mut a = if r.chance(1, 2) { cli::args(&["-s", "1", "-e", "2"]) } else { cli::args(&["--end", "2", "--start", "1"]) };
    let mut exp: Vec<String> = vec![];
    let no = |k: Constraint| Not(Box::new(k));
    let mut all: Vec<Constraint> = vec![];
    for k in 0..11 {
        if !r.chance(1, 3) {
            continue;
        }
        let n = if r.chance(1, 40) { 10 + r.below(300) } else { 2 + r.below(3) };
        let l: Vec<u64> = (0..n).map(|_| *r.pick(pool)).collect();
        let (num, sc) = (r.below(9), r.range(0, 9));
        let (opt, vals, cs): (&str, Vec<String>, Vec<Constraint>) = match k {
            0 => ("--include", strings(&l), l.iter().map(|x| ContainsVertex(VertexId(*x))).collect()),
            1 => ("--exclude", strings(&l), l.iter().map(|x| no(ContainsVertex(VertexId(*x)))).collect()),
            2 => {
                // listed vertices are distinct
                let mut seen = BTreeSet::new();
                let mut l: Vec<u64> = l.into_iter().filter(|x| seen.insert(*x)).collect();
                if l.len() < 2 {
                    l.push(l[0] ^ 1);
                }
                ("--ordered", strings(&l), vec![OrderedVertices(vids(&l))])
            }
            3 => ("--include-cycle", vec![], vec![ContainsCycle]),
            4 => ("--no-cycle", vec![], vec![no(ContainsCycle)]),
            5 => ("--min-length", vec![num.to_string()], vec![MinLength(num)]),
            6 => ("--max-length", vec![num.to_string()], vec![MaxLength(num)]),
            7 => ("--exact-length", vec![num.to_string()], vec![MinLength(num), MaxLength(num)]),
            8 => ("--min-score", vec![sc.to_string()], vec![MinScore(sc)]),
            9 => ("--max-score", vec![sc.to_string()], vec![MaxScore(sc)]),
            _ => ("--exact-score", vec![sc.to_string()], vec![MinScore(sc), MaxScore(sc)]),
        };
        a.push(opt.to_string());
        a.extend(vals);
        exp.extend(cs.iter().map(|x| format!("{:?}", x)));
        all.extend(cs);
    }
    let (a, at) = cli::place(r, a, &dir);
    c.input(format!("gc-csp {:?} on the graph 1 -> 2", a));
    let o = cli::run(c, "gc-csp", &a, &at)?;
    ensure!(o.ok, "gc-csp failed: {}", o.stderr);
    let mut got: Vec<String> = o
        .stdout
        .lines()
        .skip(1)
        .take_while(|l| !l.starts_with("Constrained shortest") && !l.starts_with("Vertex "))
        .map(|x| x.to_string())
        .collect();
    got.sort();
    exp.sort();
    ensure!(got == exp, "the constraints of the search are {:?}, expected {:?}", got, exp);
    let sat = all.iter().all(|k| crate::p_search::means(k, &[1, 2], 1))
        || false;
    ensure!(o.stdout.contains("Constrained shortest path") == sat, "gc-csp printed {:?}", o.stdout);
    Ok(())
}

pub fn cycle_options(r: &mut Rng, c: &Ctx) -> Result<(), String> {
    let dir = c.dir();
    // one root which reaches every vertex, so that the enumeration is complete
    let mut g = graph(EXH + 1, r, 5, false);
    let mut root = 7;
    while g.vs.contains(&root) {
        root += 1;
    }
    for x in g.vs.clone() {
        g.es.push((root, x));
    }
    g.vs.push(root);
    cli::put(&dir, &crate::p_search::text(&g));
    let dg = g.build();
    let mut a: Vec<String> = vec![];
    let no = |k: Constraint| Not(Box::new(k));
    let mut all: Vec<Constraint> = vec![];
    for k in 0..10 {
        if !r.chance(1, 5) {
            continue;
        }
        let xs: Vec<u64> = (0..1 + r.below(3)).map(|_| *r.pick(&g.vs)).collect();
        // edges to a greater id: never the one that closes a cycle, of which the constraints know nothing
        let up: Vec<(u64, u64)> = g.es.iter().cloned().filter(|e| e.0 < e.1).collect();
        let es: Vec<(u64, u64)> = if up.is_empty() { vec![(1, 2)] } else { (0..1 + r.below(2)).map(|_| *r.pick(&up)).collect() };
        let pairs = |s: &Vec<(u64, u64)>| strings(&s.iter().flat_map(|e| vec![e.0, e.1]).collect::<Vec<u64>>());
        let edge = |e: &(u64, u64)| Edge(VertexId(e.0), VertexId(e.1));
        let (num, sc) = (r.below(6), r.range(0, 6));
        let (opt, vals, cs): (&str, Vec<String>, Vec<Constraint>) = match k {
            0 => ("--include-all", strings(&xs), xs.iter().map(|x| ContainsVertex(VertexId(*x))).collect()),
            1 => ("--exclude-all", strings(&xs), xs.iter().map(|x| no(ContainsVertex(VertexId(*x)))).collect()),
            2 => ("--include-all-edges", pairs(&es), es.iter().map(|e| ContainsEdge(edge(e))).collect()),
            3 => ("--exclude-all-edges", pairs(&es), es.iter().map(|e| no(ContainsEdge(edge(e)))).collect()),
            4 => ("--min-length", vec![num.to_string()], vec![MinLength(num)]),
            5 => ("--max-length", vec![num.to_string()], vec![MaxLength(num)]),
            6 => ("--exact-length", vec![num.to_string()], vec![MinLength(num), MaxLength(num)]),
            7 => ("--min-score", vec![sc.to_string()], vec![MinScore(sc)]),
            8 => ("--max-score", vec![sc.to_string()], vec![MaxScore(sc)]),
            9 => ("--exact-score", vec![sc.to_string()], vec![MinScore(sc), MaxScore(sc)]),
            _ => continue,
        };
        a.push(opt.to_string());
        a.extend(vals);
        all.extend(cs);
    }
    let sel: BTreeSet<Vec<u64>> = iter_cycle::cycle_iter(&dg)
        .map(|x| x.iter().map(|y| y.0).collect::<Vec<u64>>())
        .filter(|p| all.iter().all(|k| crate::p_search::means(k, p, p.len() as i64)))
        .collect();
    let what = r.below(8);
    let mut b = if what < 6 { a.clone() } else { vec![] };
    let n = r.below(5);
    b.push(if r.chance(1, 2) { ["--all", "--count", "--shortest", "--longest", "--head", "--take-n", "--girth", "--hamiltonian"] } else { ["-a", "-c", "-s", "-L", "-h", "-n", "--girth", "--hamiltonian"] }[what].to_string());
    if what == 5 {
        b.push(n.to_string());
    }
    let (b, at) = cli::place(r, b, &dir);
    c.input(format!("gc-cycle {:?} on {:?}", b, g));
    let o = cli::run(c, "gc-cycle", &b, &at)?;
    ensure!(o.ok, "gc-cycle failed: {}", o.stderr);
    let parse = |s: &str| -> Option<Vec<u64>> {
        let s = s.trim();
        if s.starts_with('[') && s.ends_with(']') {
            Some(s[1..s.len() - 1].split(',').filter_map(|x| x.trim().parse().ok()).collect())
        } else {
            None
        }
    };
    let bad = format!("gc-cycle printed {:?}, the cycles satisfying {:?} are {:?}", o.stdout, all, sel);
    match what {
        0 => {
            let got: Vec<Vec<u64>> = o.stdout.lines().filter_map(|l| parse(l)).collect();
            ensure!(got.len() == sel.len() && got.into_iter().collect::<BTreeSet<_>>() == sel, "{}", bad);
        }
        1 => ensure!(o.stdout.trim() == format!("count: {}", sel.len()), "{}", bad),
        2 | 3 => {
            let got = o.stdout.split(':').nth(1).and_then(|l| parse(l));
            let len = if what == 2 { sel.iter().map(|x| x.len()).min() } else { sel.iter().map(|x| x.len()).max() };
            ensure!(got.as_ref().map(|x| x.len()) == len && got.iter().all(|x| sel.contains(x)), "{}", bad);
        }
        6 => {
            let got: Option<usize> = o.stdout.trim().strip_prefix("girth:").ok_or(bad.clone())?.trim().parse().ok();
            let least = iter_cycle::cycle_iter(&dg).map(|x| x.len()).min();
            ensure!(got == least, "gc-cycle --girth printed {:?}, the shortest cycle has length {:?}", o.stdout, least);
        }
        7 => {
            let got = o.stdout.split(':').nth(1).and_then(|l| parse(l));
            let any = iter_cycle::cycle_iter(&dg).any(|x| x.len() == g.vs.len());
            ensure!(got.is_some() == any && got.iter().all(|x| x.len() == g.vs.len()), "gc-cycle --hamiltonian printed {:?}", o.stdout);
        }
        _ => {
            let got: Vec<Vec<u64>> = o.stdout.lines().filter_map(|l| parse(l)).collect();
            let want = if what == 4 { 1 } else { n };
            let dist: BTreeSet<&Vec<u64>> = got.iter().collect();
            ensure!(dist.len() == got.len() && got.len() == sel.len().min(want) && got.iter().all(|x| sel.contains(x)), "{}", bad);
        }
    }
    let _ = (Path::empty(), ScoredPath { path: Path::empty(), score: 0 });
    Ok(())
}

pub fn c16(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let dir = c.dir();
    let vc = if i < 40 { 2 + i as usize } else { 2 + r.below(120) };
    let vc = match big(i, r, 4000) {
        Some(n) => n.max(20),
        None => vc,
    };
    let ec = if r.chance(1, 3) { None } else { Some(r.below(if vc > 200 { 10 * vc } else { 150 })) };
    let brief = r.chance(1, 2);
    let mut a = cli::args(&if brief { ["-f", "-v"] } else { ["--force", "--vertex-count"] });
    a.push(vc.to_string());
    if let Some(e) = ec {
        a.extend(cli::args(&[if brief { "-e" } else { "--edge-count" }, &e.to_string()]));
    }
    let (a, at) = cli::place(r, a, &dir);
    c.input(format!("gc-random {:?}", a));
    cli::put(&dir, "AddEdge 2 1\nAddEdge 1 2\n");
    if r.chance(1, 8) {
        // nobody says yes: the graph stays
        let b: Vec<String> = a.iter().cloned().filter(|x| x != "-f" && x != "--force").collect();
        let o = cli::run(c, "gc-random", &b, &at)?;
        ensure!(cli::get(&dir) == "AddEdge 2 1\nAddEdge 1 2\n", "gc-random {:?} without confirmation replaced the graph: {}", b, o.stdout);
    }
    let o = cli::run(c, "gc-random", &a, &at)?;
    ensure!(o.ok, "gc-random failed: {}", o.stderr);
    let g = graph_utils::load_graph(dir.to_str().unwrap())?;
    let es: Vec<(u64, u64)> = g.edges().map(|e| ((e.0).0, (e.1).0)).collect();
    let want = ec.unwrap_or(3 * vc);
    ensure!(es.len() >= want, "{} edges, {} requested", es.len(), want);
    for (x, y) in &es {
        ensure!(x < y, "edge {:?} does not go from a smaller to a greater id", (x, y));
        ensure!(y - x > (vc / 10) as u64, "edge {:?} is too short for {} vertices", (x, y), vc);
    }
    ensure!(gc_core::algorithm::topo_sort::is_dag(&g), "the random graph has a cycle");
    Ok(want > 0)
}

// ---- reading

fn u64ish(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "18446744073709551615".to_string(),
        1 => "18446744073709551616".to_string(),
        2 => "99999999999999999999999".to_string(),
        3 => format!("00{}", r.below(30)),
        4 => r.u64().to_string(),
        _ => r.below(40).to_string(),
    }
}

fn num(b: &[u8]) -> Option<u64> {
    if b.is_empty() || !b.iter().all(|x| x.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(b).ok()?.parse().ok()
}

/// The documented command syntax: keyword, one blank, ids separated by blanks
fn ref_gcmd(l: &str) -> Option<GraphCommand> {
    let mut it = l.splitn(2, ' ');
    let kw = it.next()?;
    let rest = it.next()?;
    let ids: Vec<&str> = rest.split(|c: char| c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    // nothing before the first id, nothing after the last
    if rest.starts_with(|c: char| c.is_whitespace()) || rest.ends_with(|c: char| c.is_whitespace()) {
        return None;
    }
    let ids: Option<Vec<VertexId>> = ids.iter().map(|x| num(x.as_bytes()).map(VertexId)).collect();
    let ids = ids?;
    match (kw, ids.len()) {
        ("AddVertex", 1) => Some(AddVertex(ids[0])),
        ("RemoveVertex", 1) => Some(RemoveVertex(ids[0])),
        ("AddEdge", 2) => Some(AddEdge(ids[0], ids[1])),
        ("RemoveEdge", 2) => Some(RemoveEdge(ids[0], ids[1])),
        _ => None,
    }
}

/// TGF: an id (and a label), or two ids separated by blanks (and a label)
fn ref_tgf(l: &str) -> Option<GraphCommand> {
    let cs: Vec<char> = l.chars().collect();
    let mut k = 0;
    while k < cs.len() && cs[k].is_ascii_digit() {
        k += 1;
    }
    if k == 0 {
        return None;
    }
    let a: String = cs[..k].iter().collect();
    let mut j = k;
    while j < cs.len() && cs[j].is_whitespace() {
        j += 1;
    }
    let mut e = j;
    while e < cs.len() && cs[e].is_ascii_digit() {
        e += 1;
    }
    if j > k && e > j {
        let b: String = cs[j..e].iter().collect();
        return Some(AddEdge(VertexId(num(a.as_bytes())?), VertexId(num(b.as_bytes())?)));
    }
    Some(AddVertex(VertexId(num(a.as_bytes())?)))
}

pub fn c19(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let is_tgf = r.chance(1, 2);
    let many = i > 2000 && r.chance(1, 30);
    let lines = match big(i, r, 20000) {
        Some(n) => n,
        None => r.below(if many { 200 } else { 7 }),
    };
    let clean = r.chance(1, 2) || (lines > 10 && r.chance(3, 4));
    let mut bytes: Vec<u8> = vec![];
    for k in 0..lines {
        let kind = if clean { r.below(6) } else { r.below(14) };
        let id = |r: &mut Rng| if clean && r.chance(9, 10) { r.below(40).to_string() } else { u64ish(r) };
        let (mut a, b) = (id(r), id(r));
        if r.chance(1, 400) {
            a = format!("{}{}", "0".repeat(r.below(9000)), a);
        }
        let ws = r.pick(&[" ", " ", "  ", "\t", " \t "]).to_string();
        let mut l: Vec<u8> = if is_tgf {
            match kind {
                0 | 1 => a.clone().into_bytes(),
                2 | 3 => format!("{}{}{}", a, ws, b).into_bytes(),
                4 => vec![],
                5 => format!("{}# {}", r.pick(&["", " ", "\t"]), a).into_bytes(),
                6 => format!("{}{}label {}", a, ws, b).into_bytes(),
                7 => format!("{}{}{}{}label", a, ws, b, ws).into_bytes(),
                8 => format!("-{}", a).into_bytes(),
                9 => format!("{}x", a).into_bytes(),
                10 => format!(" {} {}", a, b).into_bytes(),
                11 => b"   ".to_vec(),
                12 => vec![0xff, 0xfe, b'1'],
                _ => "# \u{e9}t\u{e9}".as_bytes().to_vec(),
            }
        } else {
            match kind {
                0 => format!("AddVertex {}", a).into_bytes(),
                1 => format!("AddEdge {}{}{}", a, ws, b).into_bytes(),
                2 => format!("RemoveVertex {}", a).into_bytes(),
                3 => format!("RemoveEdge {}{}{}", a, ws, b).into_bytes(),
                4 => vec![],
                5 => format!("{}# AddVertex {}", r.pick(&["", " ", "\t"]), a).into_bytes(),
                6 => format!("addvertex {}", a).into_bytes(),
                7 => format!("AddVertex {} ", a).into_bytes(),
                8 => format!("AddEdge {}", a).into_bytes(),
                9 => format!("AddVertex {} {}", a, b).into_bytes(),
                10 => format!("AddEdge {} {} {}", a, b, a).into_bytes(),
                11 => r.pick(&["   ", "AddVertex", "AddVertex -1", " AddVertex 1", "AddVertex  1", "RemoveEdge 1 x", "AddVertexes 1"]).as_bytes().to_vec(),
                12 => vec![b'A', 0xc3, 0x28],
                _ => "AddVertex \u{661}\u{662}".as_bytes().to_vec(),
            }
        };
        // a stray character somewhere in the line
        if !clean && r.chance(1, 3) {
            if let Ok(t) = std::str::from_utf8(&l) {
                let mut cs: Vec<char> = t.chars().collect();
                let odd = ['\r', '\0', '\u{b}', '\u{c}', '\t', ' ', '\u{1c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{200b}', '\u{feff}', '+', '-', '_', '.', ',', ';', '#', '/', '"', '\\', '0', '9', 'x', 'A', '\u{e9}', '\u{1f600}', '\n'];
                let x = *r.pick(&odd);
                let at = match r.below(4) {
                    0 => 0,
                    1 => cs.len(),
                    _ => r.below(cs.len() + 1),
                };
                if r.chance(2, 3) || at >= cs.len() {
                    cs.insert(at, x);
                } else if r.chance(1, 2) {
                    cs[at] = x;
                } else {
                    cs.remove(at);
                }
                l = cs.into_iter().collect::<String>().into_bytes();
            }
        }
        bytes.append(&mut l);
        if k + 1 < lines || r.chance(2, 3) {
            bytes.extend(if r.chance(1, 6) { &b"\r\n"[..] } else { &b"\n"[..] });
        }
    }
    c.input(format!("{} file {:?}", if is_tgf { "tgf" } else { "gcmd" }, String::from_utf8_lossy(&bytes)));
    // the expected answer
    let mut exp: Result<Vec<GraphCommand>, usize> = Ok(vec![]);
    let mut rest: &[u8] = &bytes;
    let mut no = 0;
    while !rest.is_empty() {
        no += 1;
        let (mut l, nx) = match rest.iter().position(|x| *x == b'\n') {
            Some(k) => (&rest[..k], &rest[k + 1..]),
            None => (rest, &rest[rest.len()..]),
        };
        if rest.len() > l.len() && l.last() == Some(&b'\r') {
            l = &l[..l.len() - 1];
        }
        rest = nx;
        match std::str::from_utf8(l) {
            Err(_) => {
                exp = Err(no);
                break;
            }
            Ok(l) => {
                if l.is_empty() || l.trim().starts_with('#') {
                    continue;
                }
                match if is_tgf { ref_tgf(l) } else { ref_gcmd(l) } {
                    Some(x) => {
                        if let Ok(v) = exp.as_mut() {
                            v.push(x);
                        }
                    }
                    None => {
                        exp = Err(no);
                        break;
                    }
                }
            }
        }
    }
    let dir = c.dir();
    let f = dir.join("f");
    std::fs::write(&f, &bytes).unwrap();
    let open = || File::open(&f).map_err(|e| e.to_string());
    let got = if is_tgf { tgf::read_as_commands(open()?) } else { gcmd::read_as_commands(open()?) };
    match (&got, &exp) {
        (Ok(g), Ok(e)) => ensure!(g == e, "read {:?}, expected {:?}", g, e),
        (Ok(g), Err(n)) => return Err(format!("read {:?}, but line {} is invalid", g, n)),
        (Err(m), Ok(e)) => return Err(format!("error {:?}, expected {:?}", m, e)),
        (Err(m), Err(n)) => ensure!(
            m.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string()),
            "the error {:?} does not name line {}",
            m,
            n
        ),
    }
    let g = if is_tgf { tgf::read(open()?) } else { gcmd::read(open()?) };
    match (&g, &exp) {
        (Ok(g), Ok(e)) => {
            let mut m: Sets = (BTreeSet::new(), BTreeSet::new());
            for x in e {
                step(&mut m, x);
            }
            let pool: Vec<u64> = m.0.iter().cloned().collect();
            agrees(g, &m.0, &m.1, &pool).map_err(|e| format!("graph read: {}", e))?;
        }
        (Ok(_), Err(n)) => return Err(format!("a graph was read, but line {} is invalid", n)),
        (Err(m), Ok(_)) => return Err(format!("reading the graph fails: {:?}", m)),
        (Err(m), Err(n)) => ensure!(m.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string()), "the error {:?} does not name line {}", m, n),
    }
    if i % 16 == 3 && !is_tgf {
        std::fs::create_dir_all(dir.join(".graph")).unwrap();
        std::fs::write(dir.join(".graph").join("commands"), &bytes).unwrap();
        let g = graph_utils::load_graph(dir.to_str().unwrap());
        ensure!(g.is_ok() == exp.is_ok(), "load_graph succeeds: {}", g.is_ok());
        let missing = graph_utils::load_graph(dir.join("nowhere").to_str().unwrap());
        ensure!(missing.is_err(), "load_graph of a missing graph succeeds");
    }
    Ok(lines > 1)
}
