//! Shortest path (C04), constraints (C05), constrained search (C06), validation (C14)
use crate::cli;
use crate::util::*;
use crate::Ctx;
use gc_core::constraint::checker;
use gc_core::constraint::constraint::Constraint::*;
use gc_core::constraint::constraint::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::path::{Path, ScoredPath};
use gc_core::search::a_star;
use std::collections::{BTreeMap, BTreeSet};

pub fn text(g: &G) -> String {
    let mut s = String::new();
    for x in &g.vs {
        s += &format!("AddVertex {}\n", x);
    }
    for (a, b) in &g.es {
        s += &format!("AddEdge {} {}\n", a, b);
    }
    s
}

fn check_found(g: &G, s: u64, t: u64, sp: &ScoredPath) -> Result<Vec<u64>, String> {
    let p = v(&sp.path);
    ensure!(p.first() == Some(&s) && p.last() == Some(&t), "path {:?} from {} to {}", p, s, t);
    ensure!(g.is_walk(&p), "path {:?} follows a missing edge", p);
    Ok(p)
}

pub fn c04(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let big = i > 2000 && r.chance(1, 20);
    let long = self::big(i, r, 300);
    let g = match long {
        Some(n) => thin(r, n, false),
        None => mid(i, r, if big { 30 } else { 7 }, false),
    };
    let (s, t) = if long.is_some() { (far_start(&g, r), *r.pick(&g.vs)) } else { (some_vertex(&g, r), some_vertex(&g, r)) };
    let t = if long.is_some() && r.chance(3, 4) { *g.hops(s).iter().max_by_key(|x| x.1).unwrap().0 } else { t };
    let w = weights(&g, r, false);
    // a consistent heuristic: a fraction of the exact distance to the end, or a potential below it
    let rev = G { vs: g.vs.clone(), es: g.es.iter().map(|(a, b)| (*b, *a)).collect() };
    let rw: BTreeMap<(u64, u64), i64> = w.iter().map(|((a, b), x)| ((*b, *a), *x)).collect();
    let to_end = distances(&rev, &rw, t).unwrap();
    let far = to_end.values().max().cloned().unwrap_or(0);
    let hk = r.below(3);
    let base = r.range(0, 5);
    // vertices which do not reach the end: only edges from them to others of that kind matter
    let h: BTreeMap<u64, i64> = g
        .vset()
        .into_iter()
        .chain(vec![s, t])
        .map(|x| {
            let d = to_end.get(&x).cloned().unwrap_or(far);
            (x, match hk {
                0 => 0,
                1 => d + base,
                _ => d / 2,
            })
        })
        .collect();
    // halves of integers: consistency can fail by rounding, so keep it only where it holds
    let consistent = g.es.iter().all(|e| h[&e.0] <= w[e] + h[&e.1]);
    c.input(format!("start {} end {} {:?} weights {:?} heuristic {:?}", s, t, g, w, if consistent { Some(&h) } else { None }));
    let dg = g.build();
    let d = distances(&g, &w, s).unwrap();
    let cf = |_: &DirectedGraph, p: &Path| cost(&w, &v(p));
    let hf = |_: &DirectedGraph, p: &Path| if consistent { h[&p.last().unwrap().0] } else { 0 };
    let hend = if consistent { h[&t] } else { 0 };
    match a_star::shortest_path(&dg, cf, hf, VertexId(s), VertexId(t)) {
        None => ensure!(!d.contains_key(&t), "no path, but the end is reachable at cost {}", d[&t]),
        Some(sp) => {
            let p = check_found(&g, s, t, &sp)?;
            ensure!(d.contains_key(&t), "path {:?} to an unreachable vertex", p);
            ensure!(sp.score == cost(&w, &p) + hend, "score {} but path {:?} costs {} (+ {})", sp.score, p, cost(&w, &p), hend);
            ensure!(sp.score == d[&t] + hend, "path {:?} with score {}, best is {}", p, sp.score, d[&t] + hend);
        }
    }
    let hops = g.hops(s);
    match a_star::shortest_path(&dg, a_star::one_weighted_edge, a_star::zero_heuristic, VertexId(s), VertexId(t)) {
        None => ensure!(!hops.contains_key(&t), "no path with unit costs, but the end is reachable"),
        Some(sp) => {
            let p = check_found(&g, s, t, &sp)?;
            ensure!(sp.score == p.len() as i64 - 1, "unit cost score {} for path {:?}", sp.score, p);
            ensure!(sp.score == hops[&t] as i64, "unit cost path {:?} with score {}, best is {}", p, sp.score, hops[&t]);
        }
    }
    if i % 64 == 9 {
        let dir = c.dir();
        cli::put(&dir, &text(&g));
        let (ss, ts) = (s.to_string(), t.to_string());
        let a = if r.chance(1, 2) { cli::args(&["-s", &ss, "-e", &ts]) } else { cli::args(&["--end", &ts, "--start", &ss]) };
        let (a, at) = cli::place(r, a, &dir);
        let o = cli::run(c, "gc-short-path", &a, &at)?;
        ensure!(o.ok, "gc-short-path failed: {}", o.stderr);
        let p: Vec<u64> = o.stdout.lines().filter_map(|l| l.trim().parse().ok()).collect();
        if let Some(d) = hops.get(&t) {
            ensure!(p.first() == Some(&s) && p.last() == Some(&t) && g.is_walk(&p) && p.len() == d + 1, "gc-short-path printed {:?}", o.stdout);
            ensure!(o.stdout.lines().next().unwrap_or("").ends_with(&format!("cost of {}", d)), "gc-short-path printed {:?}", o.stdout);
        } else {
            ensure!(p.is_empty(), "gc-short-path printed {:?}", o.stdout);
        }
    }
    Ok(d.contains_key(&t) && s != t)
}

// ---- constraints

pub fn leaf(r: &mut Rng, pool: &[u64], maxlen: usize) -> Constraint {
    let x = |r: &mut Rng| VertexId(*r.pick(pool));
    match r.below(8) {
        0 => ContainsVertex(x(r)),
        1 => ContainsEdge(Edge(x(r), x(r))),
        2 => {
            // listed vertices are distinct
            let mut p = pool.to_vec();
            r.shuffle(&mut p);
            let k = r.below(p.len() + 1);
            OrderedVertices(p[..k].iter().map(|x| VertexId(*x)).collect())
        }
        3 => ContainsCycle,
        4 => MinLength(r.below(maxlen + 1)),
        5 => MaxLength(r.below(maxlen + 2)),
        6 => MinScore(r.range(-1, maxlen as i64 + 2)),
        _ => MaxScore(r.range(-1, maxlen as i64 + 2)),
    }
}

pub fn constraint(r: &mut Rng, pool: &[u64], maxlen: usize, depth: usize) -> Constraint {
    if depth == 0 || r.chance(2, 5) {
        return leaf(r, pool, maxlen);
    }
    let a = Box::new(constraint(r, pool, maxlen, depth - 1));
    match r.below(5) {
        0 => Or(a, Box::new(constraint(r, pool, maxlen, depth - 1))),
        1 => Xor(a, Box::new(constraint(r, pool, maxlen, depth - 1))),
        2 => And(a, Box::new(constraint(r, pool, maxlen, depth - 1))),
        _ => Not(a),
    }
}

/// The documented meaning, independent of the code
pub fn means(c: &Constraint, p: &[u64], score: i64) -> bool {
    match c {
        ContainsVertex(x) => p.iter().any(|y| *y == x.0),
        ContainsEdge(e) => (1..p.len()).any(|k| p[k - 1] == (e.0).0 && p[k] == (e.1).0),
        OrderedVertices(o) => {
            let idx: Vec<usize> = p.iter().filter_map(|y| o.iter().position(|z| z.0 == *y)).collect();
            idx.windows(2).all(|w| w[0] <= w[1])
        }
        ContainsCycle => (0..p.len()).any(|a| (0..a).any(|b| p[a] == p[b])),
        MinLength(l) => p.len() >= *l,
        MaxLength(l) => p.len() <= *l,
        MinScore(s) => score >= *s,
        MaxScore(s) => score <= *s,
        Or(a, b) => means(a, p, score) || means(b, p, score),
        Xor(a, b) => means(a, p, score) != means(b, p, score),
        And(a, b) => means(a, p, score) && means(b, p, score),
        Not(a) => !means(a, p, score),
    }
}

pub fn c05(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let long = big(i, r, 2000);
    let n = match long {
        Some(n) if r.chance(1, 2) => n.min(300),
        _ => 1 + r.below(5),
    };
    let pool = names(r, n);
    let len = match long {
        Some(n) => r.below(n + 1),
        None if i > 3000 && r.chance(1, 30) => r.below(60),
        None => r.below(8),
    };
    let mut p: Vec<u64> = (0..len).map(|_| *r.pick(&pool)).collect();
    if r.chance(1, 3) || (n > 20 && r.chance(1, 2)) {
        let mut q = pool.clone();
        r.shuffle(&mut q);
        p = q; // without repetition
    }
    let scale = if r.chance(1, 10) { 1i64 << r.below(50) } else { 1 };
    let score = r.range(-2, 9) * scale;
    let depth = if r.chance(1, 40) { 7 } else { r.below(4) };
    let mut k = if scale > 1 && r.chance(1, 2) {
        let x = score + r.range(-2, 3) * r.range(0, scale);
        if r.chance(1, 2) { MinScore(x) } else { MaxScore(x) }
    } else {
        constraint(r, &pool, if long.is_some() { len + 3 } else { 8 }, depth)
    };
    if r.chance(1, 60) {
        // a deep one
        for _ in 0..r.below(200) {
            let o = Box::new(leaf(r, &pool, 8));
            k = match r.below(4) {
                0 => Not(Box::new(k)),
                1 => And(Box::new(k), o),
                2 => Or(o, Box::new(k)),
                _ => Xor(Box::new(k), o),
            };
        }
    }
    let mut q = p.clone();
    for _ in 0..r.below(5) {
        q.push(*r.pick(&pool));
    }
    let score2 = score + r.range(0, 4);
    c.input(format!("constraint {:?} path {:?} score {} extension {:?} score {}", k, p, score, q, score2));
    let sp = ScoredPath { path: pathof(&p), score };
    let sq = ScoredPath { path: pathof(&q), score: score2 };
    ensure!(k.check_complete(&sp) == means(&k, &p, score), "check_complete says {}", !means(&k, &p, score));
    ensure!(k.check_complete(&sq) == means(&k, &q, score2), "check_complete says {} on the extension", !means(&k, &q, score2));
    if means(&k, &q, score2) {
        ensure!(k.check_partial(&sp), "check_partial rejects the path, but its extension satisfies the constraint");
    }
    if means(&k, &p, score) {
        ensure!(k.check_partial(&sp), "check_partial rejects the path, but it satisfies the constraint");
    }
    // path queries
    let path = pathof(&p);
    ensure!(v(&path) == p, "vertices of Path::from({:?}) are {:?}", p, v(&path));
    ensure!(path.size() == p.len(), "size of {:?} is {}", p, path.size());
    ensure!(path.is_empty() == p.is_empty(), "is_empty of {:?} is {}", p, path.is_empty());
    ensure!(path.first().map(|x| x.0) == p.first().cloned(), "first of {:?} is {:?}", p, path.first());
    ensure!(path.last().map(|x| x.0) == p.last().cloned(), "last of {:?} is {:?}", p, path.last());
    let el: Vec<(u64, u64)> = path.to_edge_list().map(|e| ((e.0).0, (e.1).0)).collect();
    let ex: Vec<(u64, u64)> = (1..p.len()).map(|k| (p[k - 1], p[k])).collect();
    ensure!(el == ex, "edges of {:?} are {:?}", p, el);
    let cy = p.iter().collect::<BTreeSet<_>>().len() < p.len();
    ensure!(path.contains_cycle() == cy, "contains_cycle of {:?} is {}", p, !cy);
    for &a in pool.iter().take(8) {
        ensure!(path.contains_vertex(&VertexId(a)) == p.contains(&a), "contains_vertex({}) of {:?}", a, p);
        for &b in pool.iter().take(8) {
            ensure!(path.contains_edge(&Edge(VertexId(a), VertexId(b))) == ex.contains(&(a, b)), "contains_edge({},{}) of {:?}", a, b, p);
        }
        let ap = path.append(VertexId(a));
        let mut e = p.clone();
        e.push(a);
        ensure!(v(&ap) == e && v(&path) == p, "append({}) to {:?} gives {:?}", a, p, v(&ap));
    }
    ensure!(Path::empty().is_empty() && Path::empty().size() == 0, "the empty path is not empty");
    Ok(p.len() > 1)
}

pub fn c06(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let dag = r.chance(1, 3);
    let long = big(i, r, 120);
    let g = match long {
        Some(n) => thin0(r, n, dag),
        None => graph(i, r, if dag { 6 } else { 4 }, dag),
    };
    let (s, t) = if long.is_some() { (far_start(&g, r), *r.pick(&g.vs)) } else { (some_vertex(&g, r), some_vertex(&g, r)) };
    let t = if long.is_some() && r.chance(1, 2) { *g.hops(s).iter().max_by_key(|x| x.1).unwrap().0 } else { t };
    let pool: Vec<u64> = if g.vs.is_empty() { vec![0, 1] } else { g.vs.clone() };
    let unit = r.chance(1, 2);
    // strictly positive or zero costs; never decreasing when a path is extended
    let w: BTreeMap<(u64, u64), i64> = g.es.iter().map(|e| (*e, if unit { 1 } else { r.range(0, 3) })).collect();
    let mx = r.chance(1, 5); // cost of the dearest edge instead of the sum
    let cf = |p: &[u64]| -> i64 {
        if mx {
            p.windows(2).map(|x| w[&(x[0], x[1])]).max().unwrap_or(0)
        } else {
            cost(&w, p)
        }
    };
    let ml = if long.is_some() { pool.len() } else { 5 };
    let mut cs: Vec<Constraint> = (0..r.below(4)).map(|_| constraint(r, &pool, ml, 2)).collect();
    if r.chance(1, 30) {
        let k = 5 + r.below(40);
        cs.extend((0..k).map(|_| constraint(r, &pool, 5, 1)));
    }
    // keep the search finite
    let bound = if g.acyclic() {
        pool.len()
    } else if r.chance(1, 3) {
        cs.push(Not(Box::new(ContainsCycle)));
        pool.len()
    } else {
        let l = 1 + r.below(if long.is_some() { 60 } else { 6 });
        cs.push(MaxLength(l));
        l
    };
    r.shuffle(&mut cs);
    c.input(format!("start {} end {} {:?} costs {:?} (dearest edge: {}) constraints {:?}", s, t, g, w, mx, cs));
    let cand: Vec<Vec<u64>> = g.walks(s, bound, 1 << 20).into_iter().filter(|p| *p.last().unwrap() == t).collect();
    let best = cand.iter().filter(|p| cs.iter().all(|k| means(k, p, cf(p)))).map(|p| cf(p)).min();
    let dg = g.build();
    let res = a_star::constrained_shortest_path(
        &dg,
        |_: &DirectedGraph, p: &Path| cf(&v(p)),
        a_star::zero_heuristic,
        VertexId(s),
        VertexId(t),
        cs.clone(),
    );
    match res {
        None => ensure!(best.is_none(), "no path, but one of score {:?} satisfies the constraints", best),
        Some(sp) => {
            let p = check_found(&g, s, t, &sp)?;
            ensure!(sp.score == cf(&p), "score {} but path {:?} costs {}", sp.score, p, cf(&p));
            for k in &cs {
                ensure!(means(k, &p, sp.score), "path {:?} (score {}) does not satisfy {:?}", p, sp.score, k);
            }
            ensure!(best == Some(sp.score), "path {:?} with score {}, best is {:?}", p, sp.score, best);
        }
    }
    if i % 64 == 11 && unit {
        // the same question through the tool, with the constraints it offers
        let dir = c.dir();
        cli::put(&dir, &text(&g));
        let inc = *r.pick(&pool);
        let exc = *r.pick(&pool);
        let l = 1 + r.below(6);
        let nc = r.chance(1, 2);
        let mut a = cli::args(&["-s", &s.to_string(), "-e", &t.to_string(), "--max-length", &l.to_string()]);
        let mut cs = vec![MaxLength(l)];
        if r.chance(1, 2) {
            a.extend(cli::args(&["--include", &inc.to_string()]));
            cs.push(ContainsVertex(VertexId(inc)));
        }
        if r.chance(1, 3) {
            a.extend(cli::args(&["--exclude", &exc.to_string()]));
            cs.push(Not(Box::new(ContainsVertex(VertexId(exc)))));
        }
        if nc {
            a.extend(cli::args(&["--no-cycle"]));
            cs.push(Not(Box::new(ContainsCycle)));
        }
        let (a, at) = cli::place(r, a, &dir);
        c.input(format!("gc-csp {:?} on {:?}", a, g));
        let o = cli::run(c, "gc-csp", &a, &at)?;
        ensure!(o.ok, "gc-csp failed: {}", o.stderr);
        let p: Vec<u64> = o.stdout.lines().filter_map(|l| l.trim().parse().ok()).collect();
        let best = g
            .walks(s, l, 1 << 20)
            .into_iter()
            .filter(|p| *p.last().unwrap() == t && cs.iter().all(|k| means(k, p, p.len() as i64 - 1)))
            .map(|p| p.len())
            .min();
        match best {
            None => ensure!(p.is_empty(), "gc-csp printed {:?}", o.stdout),
            Some(b) => {
                ensure!(p.len() == b && p.first() == Some(&s) && p.last() == Some(&t) && g.is_walk(&p), "gc-csp printed {:?}, best has {} vertices", o.stdout, b);
                ensure!(cs.iter().all(|k| means(k, &p, p.len() as i64 - 1)), "gc-csp printed {:?} against {:?}", o.stdout, cs);
            }
        }
    }
    Ok(best.is_some() && s != t)
}

pub fn c14(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let many = if i > 500 && r.chance(1, 40) { Some(10 + r.below(300)) } else { None };
    let n = 1 + r.below(many.map_or(4, |m| 2 * m));
    let pool = names(r, n);
    let k = many.unwrap_or(r.below(7));
    let mut cs: Vec<Constraint> = vec![];
    for _ in 0..k {
        let d = r.below(3);
        let mut x = constraint(r, &pool, 6, d);
        if r.chance(1, 3) {
            x = match r.below(4) {
                0 => Not(Box::new(ContainsVertex(VertexId(*r.pick(&pool))))),
                1 => Not(Box::new(ContainsEdge(Edge(VertexId(*r.pick(&pool)), VertexId(*r.pick(&pool)))))),
                2 => Not(Box::new(ContainsCycle)),
                _ => leaf(r, &pool, 6),
            };
        }
        if r.chance(1, 20) {
            x = match r.below(4) {
                0 => MinLength(usize::max_value() - r.below(2)),
                1 => MaxLength(usize::max_value() - r.below(2)),
                2 => MinScore(if r.chance(1, 2) { i64::min_value() } else { i64::max_value() }),
                _ => MaxScore(if r.chance(1, 2) { i64::min_value() } else { i64::max_value() }),
            };
        }
        if many.is_some() && !r.chance(1, 200) {
            // a long list without contradiction, most of the time
            let h = pool.len() / 2;
            let (a, b) = (pool[r.below(h + 1)], pool[r.below(h + 1)]);
            let (y, z) = (pool[(h + 1 + r.below(h)).min(pool.len() - 1)], *r.pick(&pool));
            x = match r.below(6) {
                0 => ContainsVertex(VertexId(a)),
                1 => ContainsEdge(Edge(VertexId(a), VertexId(b))),
                2 => Not(Box::new(ContainsEdge(Edge(VertexId(y), VertexId(z))))),
                3 if h > 1 => Not(Box::new(ContainsVertex(VertexId(y)))),
                4 => Or(Box::new(MinLength(r.below(9))), Box::new(MaxLength(3))),
                _ => OrderedVertices(vec![VertexId(a), VertexId(y)]),
            };
        }
        cs.push(x);
    }
    if many.is_some() && r.chance(1, 2) {
        // one contradiction, somewhere
        let a = VertexId(*r.pick(&pool));
        let b = VertexId(*r.pick(&pool));
        let two = match r.below(4) {
            0 => vec![ContainsVertex(a), Not(Box::new(ContainsVertex(a)))],
            1 => vec![ContainsEdge(Edge(a, b)), Not(Box::new(ContainsEdge(Edge(a, b))))],
            2 => vec![ContainsEdge(Edge(a, b)), Not(Box::new(ContainsVertex(b)))],
            _ => vec![MaxScore(3), MinScore(7)],
        };
        for x in two {
            let p = r.below(cs.len() + 1);
            cs.insert(p, x);
        }
    }
    c.input(format!("{:?}", cs));
    let (mut vi, mut ve, mut ei, mut ee) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let (mut ci, mut ce) = (false, false);
    let (mut nl, mut xl, mut ns, mut xs) = (vec![], vec![], vec![], vec![]);
    for x in &cs {
        match x {
            ContainsVertex(v) => {
                vi.insert(v.0);
            }
            ContainsEdge(e) => {
                vi.insert((e.0).0);
                vi.insert((e.1).0);
                ei.insert(((e.0).0, (e.1).0));
            }
            ContainsCycle => ci = true,
            MinLength(l) => nl.push(*l),
            MaxLength(l) => xl.push(*l),
            MinScore(l) => ns.push(*l),
            MaxScore(l) => xs.push(*l),
            Not(y) => match &**y {
                ContainsVertex(v) => {
                    ve.insert(v.0);
                }
                ContainsEdge(e) => {
                    ee.insert(((e.0).0, (e.1).0));
                }
                ContainsCycle => ce = true,
                _ => (),
            },
            _ => (),
        }
    }
    let mut why = vec![];
    if vi.intersection(&ve).next().is_some() {
        why.push("a vertex is required and forbidden");
    }
    if ei.intersection(&ee).next().is_some() {
        why.push("an edge is required and forbidden");
    }
    if ci && ce {
        why.push("cycles are required and forbidden");
    }
    if nl.len() > 1 || xl.len() > 1 || ns.len() > 1 || xs.len() > 1 {
        why.push("a bound is given twice");
    }
    if nl.iter().any(|a| xl.iter().any(|b| a > b)) || ns.iter().any(|a| xs.iter().any(|b| a > b)) {
        why.push("a minimum exceeds the maximum");
    }
    match checker::validate(&cs) {
        Ok(()) => ensure!(why.is_empty(), "accepted, although {:?}", why),
        Err(m) => ensure!(!why.is_empty(), "rejected without reason: {}", m),
    }
    Ok(cs.len() > 1)
}
