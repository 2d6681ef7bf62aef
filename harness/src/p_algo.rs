//! Topological sort (C03), Bellman-Ford (C07), DAG paths (C08), SPFA (C09), flow (C10), cycles (C11), traversals (C12), Hamiltonian paths (C13)
use crate::cli;
use crate::util::*;
use crate::Ctx;
use gc_core::algorithm::{cycle, hamiltonian, longest_path, max_flow, shortest_path, topo_sort};
use gc_core::graph::{Edge, VertexId};
use gc_core::iter::{iter_breadth, iter_cycle, iter_depth};
use gc_core::path::ScoredPath;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn gc_text(g: &G) -> String {
    let mut s = String::new();
    for x in &g.vs {
        s += &format!("AddVertex {}\n", x);
    }
    for (a, b) in &g.es {
        s += &format!("AddEdge {} {}\n", a, b);
    }
    s
}

fn check_order(g: &G, o: &[u64]) -> Result<(), String> {
    let mut s = o.to_vec();
    s.sort();
    ensure!(s == g.vset().into_iter().collect::<Vec<_>>(), "the order {:?} does not list every vertex exactly once", o);
    let pos: BTreeMap<u64, usize> = o.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for (a, b) in &g.es {
        ensure!(pos[a] < pos[b], "edge {:?} goes backwards in the order {:?}", (a, b), o);
    }
    Ok(())
}

pub fn c03(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 30);
    let dag = i >= EXH && r.chance(1, 2);
    let mut g = match self::big(i, r, 3000) {
        Some(n) => thin(r, n, dag),
        None => mid(i, r, if big { 60 } else { 9 }, dag),
    };
    if dag && r.chance(1, 4) && !g.es.is_empty() {
        let (a, b) = *r.pick(&g.es);
        g.es.push((b, a)); // one single cycle
    }
    c.input(format!("{:?}", g));
    let dg = g.build();
    let exp = g.acyclic();
    match topo_sort::topological_sort(&dg) {
        None => ensure!(!exp, "no order for a graph without cycle"),
        Some(o) => {
            ensure!(exp, "an order for a graph with a cycle: {:?}", o);
            check_order(&g, &o.iter().map(|x| x.0).collect::<Vec<_>>())?;
        }
    }
    ensure!(topo_sort::is_dag(&dg) == exp, "is_dag is {}", !exp);
    match topo_sort::try_dag(&dg) {
        None => ensure!(!exp, "try_dag fails on a graph without cycle"),
        Some(d) => {
            ensure!(exp, "try_dag succeeds on a graph with a cycle");
            ensure!(std::ptr::eq(d.as_graph(), &dg), "the marker gives another graph back");
        }
    }
    if i % 64 == 5 {
        let dir = c.dir();
        cli::put(&dir, &gc_text(&g));
        let (a, at) = cli::place(r, vec![], &dir);
        let o = cli::run(c, "gc-topo-sort", &a, &at)?;
        ensure!(o.ok, "gc-topo-sort failed: {}", o.stderr);
        if exp {
            let l = o.stdout.lines().find(|l| l.starts_with("Topological order:"));
            ensure!(l.is_some(), "gc-topo-sort printed no order: {}", o.stdout);
            let l: Vec<u64> = l.unwrap()["Topological order:".len()..].split_whitespace().filter_map(|x| x.parse().ok()).collect();
            check_order(&g, &l).map_err(|m| format!("gc-topo-sort: {}", m))?;
        } else {
            ensure!(!o.stdout.contains("Topological order:"), "gc-topo-sort printed an order: {}", o.stdout);
        }
    }
    Ok(!g.es.is_empty())
}

type W = BTreeMap<(u64, u64), i64>;

fn wf<'a>(w: &'a W) -> impl Fn(&Edge) -> i64 + 'a {
    move |e| w[&((e.0).0, (e.1).0)]
}

/// res must be exactly the distances of `d`, each with a path that has that weight
fn check_paths(g: &G, w: &W, s: u64, d: &BTreeMap<u64, i64>, res: &HashMap<VertexId, ScoredPath>, what: &str) -> Result<(), String> {
    let keys: BTreeSet<u64> = res.keys().map(|k| k.0).collect();
    let exp: BTreeSet<u64> = d.keys().cloned().collect();
    ensure!(keys == exp, "{}: entries for {:?}, reachable are {:?}", what, keys, exp);
    let es = g.eset();
    for (k, sp) in res {
        let p = v(&sp.path);
        ensure!(p.first() == Some(&s) && p.last() == Some(&k.0), "{}: path {:?} for vertex {}", what, p, k.0);
        ensure!(p.windows(2).all(|x| es.contains(&(x[0], x[1]))), "{}: path {:?} follows a missing edge", what, p);
        ensure!(cost(w, &p) == sp.score, "{}: path {:?} has weight {}, score says {}", what, p, cost(w, &p), sp.score);
        ensure!(sp.score == d[&k.0], "{}: vertex {} has score {}, best is {}", what, k.0, sp.score, d[&k.0]);
    }
    Ok(())
}

pub fn c07(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 25);
    let long = self::big(i, r, 400);
    let g = match long {
        Some(n) => thin(r, n, false),
        None => mid(i, r, if big { 30 } else { 7 }, false),
    };
    let neg = r.chance(3, 4);
    let w = weights(&g, r, neg);
    let s = if long.is_some() { far_start(&g, r) } else { some_vertex(&g, r) };
    c.input(format!("start {} {:?} weights {:?}", s, g, w));
    let d = distances(&g, &w, s);
    let res = shortest_path::bellman_ford(&g.build(), wf(&w), VertexId(s));
    match (d, res) {
        (None, None) => (),
        (None, Some(x)) => return Err(format!("a result in spite of a reachable negative cycle: {:?}", x)),
        (Some(_), None) => return Err("None without a reachable negative cycle".to_string()),
        (Some(d), Some(x)) => check_paths(&g, &w, s, &d, &x, "bellman_ford")?,
    }
    Ok(g.es.len() > 1)
}

pub fn c08(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 25);
    let long = self::big(i, r, 500);
    let g = match long {
        Some(n) => thin(r, n, true),
        None => mid(i, r, if big { 30 } else { 8 }, true),
    };
    let w = weights(&g, r, true);
    let s = if long.is_some() { far_start(&g, r) } else { some_vertex(&g, r) };
    c.input(format!("start {} {:?} weights {:?}", s, g, w));
    let dg = g.build();
    let dag = || topo_sort::try_dag(&dg).ok_or("not marked as a DAG".to_string());
    let d = distances(&g, &w, s).unwrap();
    let res = shortest_path::dag_shortest_paths(dag()?, wf(&w), VertexId(s));
    check_paths(&g, &w, s, &d, &res, "dag_shortest_paths")?;
    let nw: W = w.iter().map(|(k, x)| (*k, -x)).collect();
    let nd: BTreeMap<u64, i64> = distances(&g, &nw, s).unwrap().into_iter().map(|(k, x)| (k, -x)).collect();
    let res = longest_path::dag_longest_paths(dag()?, wf(&w), VertexId(s));
    check_paths(&g, &w, s, &nd, &res, "dag_longest_paths")?;
    let ends: Vec<u64> = if long.is_some() { vec![*r.pick(&g.vs), *d.keys().last().unwrap()] } else { g.vset().into_iter().take(6).chain(vec![s, 3]).collect() };
    for t in ends {
        for long in vec![false, true] {
            let (res, d, what) = if long {
                (longest_path::dag_longest_path(dag()?, wf(&w), VertexId(s), VertexId(t)), &nd, "dag_longest_path")
            } else {
                (shortest_path::dag_shortest_path(dag()?, wf(&w), VertexId(s), VertexId(t)), &d, "dag_shortest_path")
            };
            match res {
                None => ensure!(!d.contains_key(&t), "{}: nothing for reachable {}", what, t),
                Some(sp) => {
                    ensure!(d.contains_key(&t), "{}: a path to unreachable {}", what, t);
                    let m: HashMap<VertexId, ScoredPath> = vec![(VertexId(t), sp)].into_iter().collect();
                    let one: BTreeMap<u64, i64> = vec![(t, d[&t])].into_iter().collect();
                    check_paths(&g, &w, s, &one, &m, what)?;
                }
            }
        }
    }
    Ok(g.es.len() > 1)
}

pub fn c09(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 25);
    let n = if big { 25 } else { 7 };
    let dag = r.chance(1, 3);
    let long = self::big(i, r, 400);
    let g = match long {
        Some(n) => thin(r, n, dag),
        None => mid(i, r, n, dag),
    };
    let s = if long.is_some() { far_start(&g, r) } else { some_vertex(&g, r) };
    let neg = r.chance(2, 3);
    let mut w = weights(&g, r, neg);
    if distances(&g, &w, s).is_none() {
        // shift by a potential instead: negative weights, no negative cycle
        let pot: BTreeMap<u64, i64> = g.vs.iter().map(|x| (*x, r.range(-6, 6))).collect();
        w = g.es.iter().map(|e| (*e, r.range(0, 3) + pot[&e.0] - pot[&e.1])).collect();
    }
    c.input(format!("start {} {:?} weights {:?}", s, g, w));
    let d = match distances(&g, &w, s) {
        None => return Ok(false),
        Some(d) => d,
    };
    let res = shortest_path::spfa(&g.build(), wf(&w), VertexId(s));
    check_paths(&g, &w, s, &d, &res, "spfa")?;
    Ok(g.es.len() > 1)
}

/// Maximum flow value by augmenting paths on the residual matrix
fn flow_value(g: &G, cap: &BTreeMap<(u64, u64), u64>, s: u64, t: u64) -> u64 {
    let mut res: BTreeMap<(u64, u64), u128> = BTreeMap::new();
    for (e, c) in cap {
        *res.entry(*e).or_insert(0) += *c as u128;
        res.entry((e.1, e.0)).or_insert(0);
    }
    let mut total: u128 = 0;
    loop {
        let mut prev: BTreeMap<u64, u64> = BTreeMap::new();
        let mut q = std::collections::VecDeque::new();
        q.push_back(s);
        prev.insert(s, s);
        while let Some(x) = q.pop_front() {
            for &y in &g.vs {
                if !prev.contains_key(&y) && res.get(&(x, y)).cloned().unwrap_or(0) > 0 {
                    prev.insert(y, x);
                    q.push_back(y);
                }
            }
        }
        if !prev.contains_key(&t) {
            return total as u64;
        }
        let mut m = u128::max_value();
        let mut y = t;
        while y != s {
            m = m.min(res[&(prev[&y], y)]);
            y = prev[&y];
        }
        let mut y = t;
        while y != s {
            *res.get_mut(&(prev[&y], y)).unwrap() -= m;
            *res.get_mut(&(y, prev[&y])).unwrap() += m;
            y = prev[&y];
        }
        total += m;
    }
}

pub fn c10(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let dag = r.chance(1, 2);
    let long = self::big(i, r, 120);
    let g = match long {
        Some(n) => thin(r, n, dag),
        None => mid(i, r, 6, dag),
    };
    let s = if long.is_some() { far_start(&g, r) } else { some_vertex(&g, r) };
    let t = if long.is_some() { *g.hops(s).iter().max_by_key(|x| x.1).unwrap().0 } else { some_vertex(&g, r) };
    if s == t {
        return Ok(false);
    }
    let kind = r.below(5);
    let cap: BTreeMap<(u64, u64), u64> = g
        .es
        .iter()
        .map(|e| {
            let x = match kind {
                0 => 1,
                1 => r.below(3) as u64,
                2 => r.below(12) as u64,
                3 => r.u64() >> 8,
                _ => 1 + r.below(6) as u64,
            };
            (*e, x)
        })
        .collect();
    c.input(format!("source {} sink {} {:?} capacities {:?}", s, t, g, cap));
    let (val, fl) = max_flow::max_flow(&g.build(), |e: &Edge| cap[&((e.0).0, (e.1).0)], VertexId(s), VertexId(t));
    let keys: BTreeSet<(u64, u64)> = fl.keys().map(|e| ((e.0).0, (e.1).0)).collect();
    ensure!(keys == g.eset(), "flow on {:?}", keys);
    let mut net: BTreeMap<u64, i128> = BTreeMap::new();
    for (e, (f, k)) in &fl {
        let e = ((e.0).0, (e.1).0);
        ensure!(*k == cap[&e], "edge {:?} is reported with capacity {}", e, k);
        ensure!(f <= k, "edge {:?} carries {} over its capacity {}", e, f, k);
        *net.entry(e.0).or_insert(0) += *f as i128;
        *net.entry(e.1).or_insert(0) -= *f as i128;
    }
    for (x, n) in &net {
        ensure!(*x == s || *x == t || *n == 0, "vertex {} loses {} units; flow {:?}", x, n, fl);
    }
    let out = net.get(&s).cloned().unwrap_or(0);
    ensure!(out == val as i128, "value {} but net outflow of the source {}", val, out);
    let best = flow_value(&g, &cap, s, t);
    ensure!(val == best, "value {}, a flow of {} exists", val, best);
    Ok(best > 0)
}

fn cyc(x: &iter_cycle::Cycle) -> Vec<u64> {
    x.iter().map(|v| v.0).collect()
}

pub fn c11(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    if i % 64 == 21 {
        crate::p_cmd::cycle_options(r, c)?;
        return Ok(true);
    }
    let g = match self::big(i, r, 150) {
        Some(n) => thin(r, n, false),
        None => mid(i, r, 6, false),
    };
    c.input(format!("{:?}", g));
    let dg = g.build();
    let list: Vec<Vec<u64>> = iter_cycle::cycle_iter(&dg).map(|x| cyc(&x)).collect();
    for x in &list {
        ensure!(!x.is_empty(), "an empty cycle");
        let mut u = x.clone();
        u.sort();
        u.dedup();
        ensure!(u.len() == x.len(), "cycle {:?} visits a vertex twice", x);
        ensure!(x[0] == u[0], "cycle {:?} does not start with its smallest vertex", x);
        let mut closed = x.clone();
        closed.push(x[0]);
        ensure!(g.is_walk(&closed), "cycle {:?} follows a missing edge", x);
    }
    let set: BTreeSet<Vec<u64>> = list.iter().cloned().collect();
    ensure!(set.len() == list.len(), "a cycle comes twice: {:?}", list);
    let roots: Vec<u64> = g.vs.iter().cloned().filter(|x| !g.es.iter().any(|e| e.1 == *x)).collect();
    if !roots.is_empty() {
        let exp = g.cycles_from(&roots);
        ensure!(set == exp, "cycles {:?}, expected {:?}", set, exp);
    } else if !g.vs.is_empty() {
        let all = g.cycles_from(&g.vs);
        ensure!(
            g.vs.iter().any(|x| {
                let reach = g.reachable(*x);
                set == all.iter().filter(|c| reach.contains(&c[0])).cloned().collect::<BTreeSet<_>>()
            }),
            "cycles {:?} are those reachable from no single vertex",
            set
        );
    } else {
        ensure!(set.is_empty(), "cycles in an empty graph");
    }
    let n = list.len();
    let lens: Vec<usize> = list.iter().map(|x| x.len()).collect();
    let (mn, mx) = (lens.iter().min().cloned(), lens.iter().max().cloned());
    ensure!(cycle::count(&dg) == n, "count {} of {}", cycle::count(&dg), n);
    let f = cycle::first(&dg).map(|x| cyc(&x));
    ensure!(f.is_some() == (n > 0) && f.iter().all(|x| set.contains(x)), "first is {:?}", f);
    let all: Vec<Vec<u64>> = cycle::take_all(&dg).iter().map(cyc).collect();
    ensure!(all.len() == n && all.iter().cloned().collect::<BTreeSet<_>>() == set, "take_all gives {:?}", all);
    for k in vec![0, 1, 2, n, n + 1, n / 2] {
        let t: Vec<Vec<u64>> = cycle::take(&dg, k).iter().map(cyc).collect();
        let ts: BTreeSet<Vec<u64>> = t.iter().cloned().collect();
        ensure!(t.len() == k.min(n) && ts.len() == t.len() && ts.is_subset(&set), "take({}) gives {:?} of {:?}", k, t, set);
    }
    ensure!(cycle::girth(&dg) == mn, "girth {:?}, expected {:?}", cycle::girth(&dg), mn);
    let s = cycle::shortest(&dg).map(|x| cyc(&x));
    ensure!(s.as_ref().map(|x| x.len()) == mn && s.iter().all(|x| set.contains(x)), "shortest {:?}", s);
    let l = cycle::longest(&dg).map(|x| cyc(&x));
    ensure!(l.as_ref().map(|x| x.len()) == mx && l.iter().all(|x| set.contains(x)), "longest {:?}", l);
    let h = cycle::hamiltonian(&dg).map(|x| cyc(&x));
    let he = n > 0 && list.iter().any(|x| x.len() == g.vs.len());
    ensure!(h.is_some() == he && h.iter().all(|x| set.contains(x) && x.len() == g.vs.len()), "hamiltonian {:?}", h);
    // canonical form of cycles given by hand
    if let Some(x) = list.iter().find(|x| x.len() >= 2) {
        let k = r.below(x.len());
        let rot: Vec<VertexId> = (0..x.len()).map(|j| VertexId(x[(j + k) % x.len()])).collect();
        let cy = iter_cycle::Cycle::from_vertices(&rot).ok_or("from_vertices refuses a cycle")?;
        ensure!(cyc(&cy.canonical()) == *x, "canonical form of {:?} is {:?}", rot, cy.canonical());
        ensure!(cy.canonical().is_canonical() && cy.is_canonical() == (k == 0), "is_canonical of {:?}", rot);
        ensure!(cy.len() == x.len(), "len of {:?}", rot);
    }
    Ok(n > 0)
}

pub fn c12(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 20);
    let top = if r.chance(1, 2) { 300 } else { 2500 };
    let long = self::big(i, r, top);
    let g = match long {
        Some(n) => thin(r, n, false),
        None => mid(i, r, if big { 40 } else { 6 }, false),
    };
    let s = if long.is_some() { far_start(&g, r) } else { some_vertex(&g, r) };
    c.input(format!("start {} {:?}", s, g));
    let dg = g.build();
    let d = g.hops(s);
    let reach = g.reachable(s);
    for (what, l) in vec![
        ("bfs_iter_from", iter_breadth::bfs_iter_from(&dg, VertexId(s)).map(|x| x.0).collect::<Vec<u64>>()),
        ("dfs_iter_from", iter_depth::dfs_iter_from(&dg, VertexId(s)).map(|x| x.0).collect::<Vec<u64>>()),
    ] {
        ensure!(l.first() == Some(&s), "{} does not begin with the start: {:?}", what, l);
        let set: BTreeSet<u64> = l.iter().cloned().collect();
        ensure!(set == reach && l.len() == reach.len(), "{} yields {:?}, reachable are {:?}", what, l, reach);
        if what == "bfs_iter_from" {
            ensure!(l.windows(2).all(|x| d[&x[0]] <= d[&x[1]]), "bfs order {:?} has decreasing distances", l);
        }
    }
    for (what, l) in vec![
        ("bfs_iter", iter_breadth::bfs_iter(&dg).map(|x| x.0).collect::<Vec<u64>>()),
        ("dfs_iter", iter_depth::dfs_iter(&dg).map(|x| x.0).collect::<Vec<u64>>()),
    ] {
        let set: BTreeSet<u64> = l.iter().cloned().collect();
        ensure!(set.len() == l.len(), "{} yields a vertex twice: {:?}", what, l);
        match l.first() {
            None => ensure!(g.vs.is_empty(), "{} yields nothing", what),
            Some(h) => ensure!(g.vset().contains(h) && set == g.reachable(*h), "{} yields {:?}", what, l),
        }
    }
    if long.map_or(!big, |n| n <= 300) {
        let exp: BTreeSet<Vec<u64>> = g.simple_paths(s).into_iter().collect();
        for (what, l) in vec![
            ("bfs_path_iter_from", iter_breadth::bfs_path_iter_from(&dg, VertexId(s)).map(|x| v(&x)).collect::<Vec<_>>()),
            ("dfs_iter_path_from", iter_depth::dfs_iter_path_from(&dg, VertexId(s)).map(|x| v(&x)).collect::<Vec<_>>()),
        ] {
            let set: BTreeSet<Vec<u64>> = l.iter().cloned().collect();
            ensure!(set.len() == l.len(), "{} yields a path twice: {:?}", what, l);
            ensure!(set == exp, "{} yields {:?}, expected {:?}", what, l, exp);
            if what == "bfs_path_iter_from" {
                ensure!(l.windows(2).all(|x| x[0].len() <= x[1].len()), "path lengths decrease: {:?}", l);
            }
        }
    }
    Ok(reach.len() > 1)
}

pub fn c13(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let long = self::big(i, r, 60);
    let g = match long {
        Some(n) => thin(r, n, false),
        None => mid(i, r, 6, false),
    };
    c.input(format!("{:?}", g));
    let dg = g.build();
    let mut exp: BTreeSet<Vec<u64>> = BTreeSet::new();
    for x in &g.vs {
        exp.extend(g.simple_paths(*x).into_iter().filter(|p| p.len() == g.vs.len()));
    }
    let l: Vec<Vec<u64>> = hamiltonian::iter_hamiltonian_paths(&dg).map(|x| v(&x)).collect();
    let set: BTreeSet<Vec<u64>> = l.iter().cloned().collect();
    if !g.vs.is_empty() {
        ensure!(set.len() == l.len(), "a path comes twice: {:?}", l);
        ensure!(set == exp, "Hamiltonian paths {:?}, expected {:?}", l, exp);
        let f = hamiltonian::first_path(&dg).map(|x| v(&x));
        ensure!(f.is_some() == !exp.is_empty() && f.iter().all(|x| exp.contains(x)), "first path {:?} of {:?}", f, exp);
    }
    let h = g.vs.is_empty() || !exp.is_empty();
    ensure!(hamiltonian::is_hamiltonian(&dg) == h, "is_hamiltonian is {}", !h);
    // the test of a given path
    for _ in 0..4 {
        let mut p: Vec<u64> = g.vs.clone();
        r.shuffle(&mut p);
        if r.chance(1, 2) && !p.is_empty() {
            let (a, b) = (r.below(p.len()), r.below(p.len()));
            p[a] = p[b];
        }
        if r.chance(1, 4) {
            p.pop();
        }
        if r.chance(1, 4) && !g.vs.is_empty() {
            p.push(*r.pick(&g.vs));
        }
        let nodup = p.iter().collect::<BTreeSet<_>>().len() == p.len();
        let e = nodup && p.len() == g.vs.len();
        ensure!(hamiltonian::is_path_hamiltonian(&pathof(&p), &dg) == e, "is_path_hamiltonian({:?}) is {}", p, !e);
    }
    Ok(!exp.is_empty())
}
