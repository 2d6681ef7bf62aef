//! Random graphs, reference computations and small helpers shared by the property drivers.
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, index: u64, salt: &str) -> Rng {
        let mut h = seed ^ 0x9e37_79b9_7f4a_7c15;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let mut r = Rng(h ^ index.wrapping_mul(0xd134_2543_de82_ef95));
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo) as u64 + 1)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut Vec<T>) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// A graph as plain sets, with the vertex names in `ids`
#[derive(Clone, Debug)]
pub struct G {
    pub vs: Vec<u64>,
    pub es: Vec<(u64, u64)>,
}

impl G {
    pub fn vset(&self) -> BTreeSet<u64> {
        self.vs.iter().cloned().collect()
    }
    pub fn eset(&self) -> BTreeSet<(u64, u64)> {
        self.es.iter().cloned().collect()
    }
    /// Builds the real graph: same content, in the order of the lists
    pub fn build(&self) -> DirectedGraph {
        let mut g = DirectedGraph::new();
        for v in &self.vs {
            g.add_vertex(VertexId(*v));
        }
        for (a, b) in &self.es {
            g.add_edge(Edge(VertexId(*a), VertexId(*b)));
        }
        g
    }
    pub fn has(&self, a: u64, b: u64) -> bool {
        self.es.contains(&(a, b))
    }
    pub fn adj(&self) -> HashMap<u64, Vec<u64>> {
        let mut m: HashMap<u64, Vec<u64>> = HashMap::new();
        for (a, b) in &self.es {
            m.entry(*a).or_insert(vec![]).push(*b);
        }
        m
    }
    pub fn reachable(&self, s: u64) -> BTreeSet<u64> {
        let adj = self.adj();
        let mut seen = BTreeSet::new();
        seen.insert(s);
        let mut todo = vec![s];
        while let Some(v) = todo.pop() {
            for w in next(&adj, v) {
                if seen.insert(w) {
                    todo.push(w);
                }
            }
        }
        seen
    }
    pub fn acyclic(&self) -> bool {
        // repeatedly drop vertices without inbound edge
        let adj = self.adj();
        let mut deg: HashMap<u64, usize> = self.vs.iter().map(|v| (*v, 0)).collect();
        for (_, b) in &self.es {
            *deg.get_mut(b).unwrap() += 1;
        }
        let mut todo: Vec<u64> = self.vset().into_iter().filter(|v| deg[v] == 0).collect();
        let mut n = 0;
        while let Some(v) = todo.pop() {
            n += 1;
            for w in next(&adj, v) {
                let d = deg.get_mut(&w).unwrap();
                *d -= 1;
                if *d == 0 {
                    todo.push(w);
                }
            }
        }
        n == self.vset().len()
    }
    pub fn hops(&self, s: u64) -> BTreeMap<u64, usize> {
        let adj = self.adj();
        let mut d = BTreeMap::new();
        d.insert(s, 0);
        let mut cur = vec![s];
        let mut k = 0;
        while !cur.is_empty() {
            k += 1;
            let mut nxt = vec![];
            for v in cur {
                for w in next(&adj, v) {
                    if !d.contains_key(&w) {
                        d.insert(w, k);
                        nxt.push(w);
                    }
                }
            }
            cur = nxt;
        }
        d
    }
    /// All simple paths from s
    pub fn simple_paths(&self, s: u64) -> Vec<Vec<u64>> {
        let adj = self.adj();
        let mut res = vec![];
        let mut todo = vec![vec![s]];
        while let Some(p) = todo.pop() {
            for w in next(&adj, *p.last().unwrap()) {
                if !p.contains(&w) {
                    let mut q = p.clone();
                    q.push(w);
                    todo.push(q);
                }
            }
            res.push(p);
        }
        res
    }
    /// All walks from s with at most `len` vertices (and at most `cap` of them)
    pub fn walks(&self, s: u64, len: usize, cap: usize) -> Vec<Vec<u64>> {
        let adj = self.adj();
        let mut res: Vec<Vec<u64>> = vec![vec![s]];
        let mut i = 0;
        while i < res.len() && res.len() < cap {
            let p = res[i].clone();
            i += 1;
            if p.len() < len {
                for w in next(&adj, *p.last().unwrap()) {
                    let mut q = p.clone();
                    q.push(w);
                    res.push(q);
                }
            }
        }
        res
    }
    pub fn is_walk(&self, p: &[u64]) -> bool {
        p.windows(2).all(|w| self.has(w[0], w[1]))
    }
    /// Elementary cycles among the vertices reachable from `roots`, smallest vertex first
    pub fn cycles_from(&self, roots: &[u64]) -> BTreeSet<Vec<u64>> {
        let adj = self.adj();
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut todo = roots.to_vec();
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(next(&adj, x));
            }
        }
        let mut res = BTreeSet::new();
        for &s in &seen {
            // cycles whose smallest vertex is s
            let mut todo = vec![vec![s]];
            while let Some(p) = todo.pop() {
                for w in next(&adj, *p.last().unwrap()) {
                    if w == s {
                        res.insert(p.clone());
                    } else if w > s && !p.contains(&w) {
                        let mut q = p.clone();
                        q.push(w);
                        todo.push(q);
                    }
                }
            }
        }
        res
    }
}

fn next(adj: &HashMap<u64, Vec<u64>>, v: u64) -> Vec<u64> {
    adj.get(&v).cloned().unwrap_or_default()
}

pub const EXH: u64 = 512 + 16 + 2 + 1;

fn exhaustive(i: u64) -> G {
    let (n, bits) = if i == 0 {
        (0, 0)
    } else if i < 3 {
        (1, i - 1)
    } else if i < 19 {
        (2, i - 3)
    } else {
        (3, i - 19)
    };
    let vs: Vec<u64> = (0..n).collect();
    let mut es = vec![];
    for a in 0..n {
        for b in 0..n {
            if bits >> (a * n + b) & 1 == 1 {
                es.push((a, b));
            }
        }
    }
    G { vs, es }
}

/// Names for n vertices: consecutive, spread, at the far end of the id range, around powers of two, or alike in their lower half
pub fn names(r: &mut Rng, n: usize) -> Vec<u64> {
    let mut ids: BTreeSet<u64> = BTreeSet::new();
    let kind = r.below(7);
    let base = r.below(20) as u64;
    let step = 1 + r.below((2 * n as u64 + 4).leading_zeros() as usize - 2) as u32;
    while ids.len() < n {
        let x = match kind {
            0 => base + ids.len() as u64,
            1 => r.below(4 * n + 4) as u64,
            2 => u64::max_value() - r.below(3 * n + 3) as u64,
            3 => (1u64 << [0, 8, 16, 31, 32, 33, 53, 62, 63][r.below(9)]).wrapping_add(r.below(4 + n) as u64).wrapping_sub(2), // around powers of two
            4 => ((r.below(3 + n / 3) as u64) << 32) + r.below(3 + n / 3) as u64,
            5 => base.wrapping_add((r.below(2 * n + 4) as u64) << step), // alike in their lower bits
            _ => r.u64() >> r.below(64),
        };
        ids.insert(x);
    }
    let mut ids: Vec<u64> = ids.into_iter().collect();
    r.shuffle(&mut ids);
    ids
}

/// The first EXH indices enumerate every graph with up to three vertices; then random ones of up to `max_n` vertices.
pub fn graph(i: u64, r: &mut Rng, max_n: usize, dag: bool) -> G {
    if i < EXH {
        let mut g = exhaustive(i);
        if dag && !g.acyclic() {
            g.es.retain(|e| e.0 < e.1);
        }
        if r.chance(1, 2) {
            r.shuffle(&mut g.vs);
            r.shuffle(&mut g.es);
        }
        return g;
    }
    let n = 1 + r.below(max_n);
    let ids = names(r, n);
    let mut es: BTreeSet<(usize, usize)> = BTreeSet::new();
    let shape = r.below(6);
    if shape == 0 {
        for k in 1..n {
            es.insert((k - 1, k)); // chain
        }
    }
    if shape == 1 && n > 1 {
        for k in 0..n {
            es.insert((k, (k + 1) % n)); // ring
        }
    }
    if shape == 2 {
        for k in 1..n {
            es.insert((r.below(k), k)); // tree
        }
    }
    let dens = [0, 1, 2, 3, 5, 8][r.below(6)];
    for a in 0..n {
        for b in 0..n {
            if a != b && r.chance(dens, 4 + 2 * n.min(8)) {
                es.insert((a, b));
            }
        }
    }
    if r.chance(1, 3) {
        for a in 0..n {
            if r.chance(1, 4) {
                es.insert((a, a));
            }
        }
    }
    if dag {
        es = es.into_iter().filter(|e| e.0 != e.1).map(|(a, b)| (a.min(b), a.max(b))).collect();
    }
    let mut vs = ids.clone();
    let mut es: Vec<(u64, u64)> = es.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
    r.shuffle(&mut vs);
    r.shuffle(&mut es);
    G { vs, es }
}

/// As graph, with graphs of medium size and few paths in between
pub fn mid(i: u64, r: &mut Rng, max_n: usize, dag: bool) -> G {
    if i >= EXH && r.chance(1, 8) {
        let n = 4 + r.below(14);
        thin(r, n, dag)
    } else {
        graph(i, r, max_n, dag)
    }
}

/// Now and then: a size between 10 and top, of every order of magnitude alike
pub fn big(i: u64, r: &mut Rng, top: usize) -> Option<usize> {
    if i < EXH || !r.chance(1, 40) {
        return None;
    }
    let (lo, hi) = ((10f64).ln(), (top as f64).ln());
    let x = lo + (hi - lo) * (r.below(1 << 20) as f64 / (1 << 20) as f64);
    Some((x.exp() as usize).min(top).max(10))
}

/// A thin graph, often with a few more edges in any direction
pub fn thin(r: &mut Rng, n: usize, dag: bool) -> G {
    let mut g = thin0(r, n, dag);
    if r.chance(1, 2) {
        let k = 1 + r.below(4);
        for _ in 0..k {
            let e = (*r.pick(&g.vs), *r.pick(&g.vs));
            if !g.es.contains(&e) {
                g.es.push(e);
                if dag && !g.acyclic() {
                    g.es.pop();
                }
            }
        }
        r.shuffle(&mut g.es);
    }
    g
}

/// A graph of about n vertices with few paths: the sizes at which enumerations stay feasible
pub fn thin0(r: &mut Rng, n: usize, dag: bool) -> G {
    let ids = names(r, n);
    let mut es: BTreeSet<(usize, usize)> = BTreeSet::new();
    let shape = r.below(if dag { 6 } else { 9 });
    let chain = |es: &mut BTreeSet<(usize, usize)>, a: usize, b: usize| {
        for k in a + 1..b {
            es.insert((k - 1, k));
        }
    };
    match shape {
        0 => chain(&mut es, 0, n),
        1 => {
            // a chain with a few shortcuts
            chain(&mut es, 0, n);
            for _ in 0..1 + r.below(4) {
                let (a, b) = (r.below(n), r.below(n));
                if a != b {
                    es.insert((a.min(b), a.max(b)));
                }
            }
        }
        2 => {
            for k in 1..n {
                es.insert((0, k)); // many neighbours
            }
        }
        3 => {
            for k in 0..n - 1 {
                es.insert((k, n - 1)); // many sources
            }
        }
        4 => {
            for k in 1..n {
                es.insert((k - 1 - r.below(k.min(1 + n / 10)), k)); // tree, deep
            }
        }
        5 => {
            // two chains which meet at the end, and some isolated vertices
            let h = n / 2;
            chain(&mut es, 0, h);
            chain(&mut es, h, n - n / 8);
            es.insert((0, h));
            if h > 1 {
                es.insert((h - 1, n - n / 8 - 1));
            }
        }
        6 => {
            for k in 0..n {
                es.insert((k, (k + 1) % n)); // ring
            }
        }
        7 => {
            // a root and rings of various lengths
            let mut a = 1;
            while a < n {
                let b = (a + 1 + r.below(6)).min(n);
                for k in a..b {
                    es.insert((k, if k + 1 < b { k + 1 } else { a }));
                }
                es.insert((0, a));
                a = b;
            }
        }
        _ => {
            // a chain into a ring
            let h = r.below(n);
            chain(&mut es, 0, n);
            es.insert((n - 1, h));
        }
    }
    if dag {
        es = es.into_iter().filter(|e| e.0 < e.1).collect();
    }
    let mut vs = ids.clone();
    let mut es: Vec<(u64, u64)> = es.into_iter().map(|(a, b)| (ids[a], ids[b])).collect();
    r.shuffle(&mut vs);
    r.shuffle(&mut es);
    G { vs, es }
}

/// A start from which much of a thin graph is reachable, more often than not
pub fn far_start(g: &G, r: &mut Rng) -> u64 {
    let into: BTreeSet<u64> = g.es.iter().filter(|e| e.0 != e.1).map(|e| e.1).collect();
    let out: BTreeSet<u64> = g.es.iter().filter(|e| e.0 != e.1).map(|e| e.0).collect();
    let c: Vec<u64> = g.vs.iter().cloned().filter(|x| !into.contains(x) && out.contains(x)).collect();
    if c.is_empty() || r.chance(1, 5) { *r.pick(&g.vs) } else { *r.pick(&c) }
}

/// A vertex of the graph, or sometimes another one
pub fn some_vertex(g: &G, r: &mut Rng) -> u64 {
    if g.vs.is_empty() || r.chance(1, 25) {
        r.below(6) as u64
    } else {
        *r.pick(&g.vs)
    }
}

pub fn weights(g: &G, r: &mut Rng, neg: bool) -> BTreeMap<(u64, u64), i64> {
    let kind = r.below(7);
    // as wide as sums over every edge of every round still fit
    let top = (1i64 << 61) / ((g.vs.len() as i64 + 2) * (g.es.len() as i64 + 2));
    g.es.iter()
        .map(|e| {
            let w = match kind {
                0 => 1,
                1 => r.range(if neg { -2 } else { 0 }, 3),
                2 => r.range(if neg { -20 } else { 0 }, 100),
                3 => r.range(if neg { -(1 << 40) } else { 0 }, 1 << 40),
                4 => r.range(if neg { -top } else { 0 }, top),
                5 => r.range(if neg { -top } else { 0 }, top) >> r.below(56),
                _ => {
                    if r.chance(1, 3) {
                        0
                    } else {
                        r.range(if neg { -1 } else { 0 }, 9)
                    }
                }
            };
            (*e, w)
        })
        .collect()
}

pub fn cost(w: &BTreeMap<(u64, u64), i64>, p: &[u64]) -> i64 {
    p.windows(2).map(|x| *w.get(&(x[0], x[1])).unwrap_or(&0)).sum()
}

/// Exact distances, or None if a negative cycle is reachable from s
pub fn distances(g: &G, w: &BTreeMap<(u64, u64), i64>, s: u64) -> Option<BTreeMap<u64, i64>> {
    let mut ix: HashMap<u64, usize> = HashMap::new();
    let mut ids: Vec<u64> = vec![];
    for x in g.vs.iter().chain(std::iter::once(&s)) {
        if !ix.contains_key(x) {
            ix.insert(*x, ids.len());
            ids.push(*x);
        }
    }
    let es: Vec<(usize, usize, i64)> = w.iter().map(|(e, c)| (ix[&e.0], ix[&e.1], *c)).collect();
    let mut d: Vec<Option<i64>> = vec![None; ids.len()];
    d[ix[&s]] = Some(0);
    for _ in 0..ids.len() + 1 {
        let mut changed = false;
        for (a, b, c) in &es {
            if let Some(x) = d[*a] {
                if d[*b].map_or(true, |y| x + c < y) {
                    d[*b] = Some(x + c);
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(ids.iter().zip(d).filter_map(|(x, y)| y.map(|y| (*x, y))).collect());
        }
    }
    None
}

pub fn v(p: &gc_core::path::Path) -> Vec<u64> {
    p.to_vertex_list().map(|x| x.0).collect()
}

pub fn pathof(p: &[u64]) -> gc_core::path::Path {
    gc_core::path::Path::from(&p.iter().map(|x| VertexId(*x)).collect())
}
