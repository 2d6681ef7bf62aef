//! Graph store (C01), search queues (C17), attributes (C18)
use crate::util::*;
use crate::Ctx;
use gc_core::attribute::attribute_command::AttributeCommand;
use gc_core::attribute::mapping::*;
use gc_core::directed_graph::DirectedGraph;
use gc_core::graph::{Edge, VertexId};
use gc_core::iter::iter_datastructure::*;
use std::collections::{BTreeMap, BTreeSet};

fn e(a: u64, b: u64) -> Edge {
    Edge(VertexId(a), VertexId(b))
}

/// Every query of the graph against a pair of sets
pub fn agrees(g: &DirectedGraph, vs: &BTreeSet<u64>, es: &BTreeSet<(u64, u64)>, pool: &[u64]) -> Result<(), String> {
    let mut lv: Vec<u64> = g.vertices().map(|x| x.0).collect();
    lv.sort();
    ensure!(lv == vs.iter().cloned().collect::<Vec<_>>(), "vertices() gives {:?} (sorted), expected {:?}", lv, vs);
    let mut le: Vec<(u64, u64)> = g.edges().map(|x| ((x.0).0, (x.1).0)).collect();
    le.sort();
    ensure!(le == es.iter().cloned().collect::<Vec<_>>(), "edges() gives {:?} (sorted), expected {:?}", le, es);
    ensure!(g.vertex_count() == vs.len(), "vertex_count() = {}, expected {}", g.vertex_count(), vs.len());
    ensure!(g.edge_count() == es.len(), "edge_count() = {}, expected {}", g.edge_count(), es.len());
    ensure!(g.is_empty() == vs.is_empty(), "is_empty() = {}", g.is_empty());
    match g.head_option() {
        None => ensure!(vs.is_empty(), "head_option() is None on a non-empty graph"),
        Some(h) => ensure!(vs.contains(&h.0), "head_option() gives {} which is no vertex", h.0),
    }
    let (mut outs, mut ins): (BTreeMap<u64, Vec<(u64, u64)>>, BTreeMap<u64, Vec<(u64, u64)>>) = (BTreeMap::new(), BTreeMap::new());
    for x in es {
        outs.entry(x.0).or_insert(vec![]).push(*x);
        ins.entry(x.1).or_insert(vec![]).push(*x);
    }
    for &a in pool {
        ensure!(g.contains_vertex(VertexId(a)) == vs.contains(&a), "contains_vertex({}) = {}", a, !vs.contains(&a));
        let mut o: Vec<(u64, u64)> = g.outbound_edges(VertexId(a)).map(|x| ((x.0).0, (x.1).0)).collect();
        o.sort();
        let eo: Vec<(u64, u64)> = outs.get(&a).cloned().unwrap_or_default();
        ensure!(o == eo, "outbound_edges({}) gives {:?}, expected {:?}", a, o, eo);
        let mut n: Vec<(u64, u64)> = g.inbound_edges(VertexId(a)).map(|x| ((x.0).0, (x.1).0)).collect();
        n.sort();
        let en: Vec<(u64, u64)> = ins.get(&a).cloned().unwrap_or_default();
        ensure!(n == en, "inbound_edges({}) gives {:?}, expected {:?}", a, n, en);
        ensure!(g.degree_out(VertexId(a)) == eo.len(), "degree_out({}) = {}", a, g.degree_out(VertexId(a)));
        ensure!(g.degree_in(VertexId(a)) == en.len(), "degree_in({}) = {}", a, g.degree_in(VertexId(a)));
        for &b in pool.iter().take(if pool.len() > 100 { 3 } else { 24 }) {
            ensure!(g.contains_edge(e(a, b)) == es.contains(&(a, b)), "contains_edge({}, {}) = {}", a, b, !es.contains(&(a, b)));
        }
    }
    Ok(())
}

pub fn c01(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let small = i < 4000;
    let long = big(i, r, 40000);
    let n = if let Some(n) = long { 1 + r.below(n) } else if small { 1 + r.below(4) } else if r.chance(1, 40) { 1 + r.below(60) } else { 1 + r.below(9) };
    let pool = names(r, n);
    let len = if let Some(n) = long { n } else if small { 1 + r.below(8) } else if r.chance(1, 40) { 400 } else { 1 + r.below(60) };
    let hub = long.is_some() && r.chance(1, 3); // one vertex with many edges
    let rem = if long.is_some() { r.below(2) } else { [1, 2, 4][r.below(3)] };
    let ops: Vec<(usize, u64, u64)> = (0..len)
        .map(|_| {
            let k = if r.chance(rem, 6) { 2 + r.below(2) } else { r.below(5) % 2 };
            let a = if hub && k == 1 && r.chance(1, 2) { pool[0] } else { *r.pick(&pool) };
            let b = if r.chance(1, 6) { a } else if hub && r.chance(1, 2) { pool[0] } else { *r.pick(&pool) };
            (k, a, b)
        })
        .collect();
    c.input(format!(
        "ops: {}",
        ops.iter()
            .map(|(k, a, b)| match k {
                0 => format!("add_vertex({})", a),
                1 => format!("add_edge({},{})", a, b),
                2 => format!("remove_vertex({})", a),
                _ => format!("remove_edge({},{})", a, b),
            })
            .collect::<Vec<_>>()
            .join(" ")
    ));
    let mut g = DirectedGraph::new();
    let (mut vs, mut es) = (BTreeSet::new(), BTreeSet::new());
    agrees(&g, &vs, &es, &pool)?;
    for (k, (op, a, b)) in ops.iter().enumerate() {
        let (a, b) = (*a, *b);
        match op {
            0 => {
                let there = !vs.insert(a);
                ensure!(g.add_vertex(VertexId(a)) == there, "step {}: add_vertex({}) returned {}", k, a, !there);
            }
            1 => {
                vs.insert(a);
                vs.insert(b);
                let new = es.insert((a, b));
                ensure!(g.add_edge(e(a, b)) == new, "step {}: add_edge({},{}) returned {}", k, a, b, !new);
            }
            2 => {
                let there = vs.remove(&a);
                if there {
                    es = es.into_iter().filter(|x| x.0 != a && x.1 != a).collect();
                }
                ensure!(g.remove_vertex(VertexId(a)) == there, "step {}: remove_vertex({}) returned {}", k, a, !there);
            }
            _ => {
                es.remove(&(a, b));
                g.remove_edge(e(a, b));
            }
        }
        if len < 100 || (len < 1000 && k % 50 == 0) || k % 8000 == 0 || k + 1 == len || (len - k < 4 && len < 5000) {
            agrees(&g, &vs, &es, &pool).map_err(|m| format!("after step {} ({:?}): {}", k, ops[k], m))?;
        }
    }
    Ok(len > 2)
}

pub fn c17(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    if let Some(n) = big(i, r, 200_000) {
        return c17_long(n, r, c);
    }
    let len = if i < 4000 { 1 + r.below(10) } else { 1 + r.below(120) };
    let span = 1 + r.below(30);
    let pops = 1 + r.below(3);
    let ops: Vec<Option<i64>> = (0..len).map(|_| if r.chance(pops, 5) { None } else { Some(r.below(span) as i64 - 5) }).collect();
    c.input(format!("pushes and pops (None): {:?}", ops));
    // elements carry their push number, so that equal priorities stay distinguishable
    #[derive(Clone, Debug, PartialEq, Eq)]
    struct E(i64, usize);
    impl PartialOrd for E {
        fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for E {
        fn cmp(&self, o: &E) -> std::cmp::Ordering {
            self.0.cmp(&o.0)
        }
    }
    let mut st: Stack<E> = Stack::<E>::new();
    let mut qu: Queue<E> = Queue::<E>::new();
    let mut mi: MinPriorityQueue<E> = MinPriorityQueue::<E>::new();
    let mut ma: MaxPriorityQueue<E> = MaxPriorityQueue::<E>::new();
    let (mut ms, mut mq, mut mmi, mut mma): (Vec<E>, Vec<E>, Vec<E>, Vec<E>) = (vec![], vec![], vec![], vec![]);
    let mut all = ops.clone();
    all.extend(vec![None; len + 1]);
    for (k, op) in all.iter().enumerate() {
        match op {
            Some(x) => {
                st.push(E(*x, k));
                ms.push(E(*x, k));
                qu.push(E(*x, k));
                mq.push(E(*x, k));
                mi.push(E(*x, k));
                mmi.push(E(*x, k));
                ma.push(E(*x, k));
                mma.push(E(*x, k));
            }
            None => {
                let (got, exp) = (st.pop(), ms.pop());
                ensure!(got == exp, "step {}: stack popped {:?}, expected {:?}", k, got, exp);
                let exp = if mq.is_empty() { None } else { Some(mq.remove(0)) };
                let got = qu.pop();
                ensure!(got == exp, "step {}: queue popped {:?}, expected {:?}", k, got, exp);
                match mi.pop() {
                    None => ensure!(mmi.is_empty(), "step {}: min queue popped nothing, {:?} left", k, mmi),
                    Some(x) => {
                        let p = mmi.iter().position(|y| *y == x);
                        ensure!(p.is_some(), "step {}: min queue popped {:?} which is not among {:?}", k, x, mmi);
                        ensure!(mmi.iter().all(|y| y.0 >= x.0), "step {}: min queue popped {:?}, left {:?}", k, x, mmi);
                        mmi.remove(p.unwrap());
                    }
                }
                match ma.pop() {
                    None => ensure!(mma.is_empty(), "step {}: max queue popped nothing, {:?} left", k, mma),
                    Some(x) => {
                        let p = mma.iter().position(|y| *y == x);
                        ensure!(p.is_some(), "step {}: max queue popped {:?} which is not among {:?}", k, x, mma);
                        ensure!(mma.iter().all(|y| y.0 <= x.0), "step {}: max queue popped {:?}, left {:?}", k, x, mma);
                        mma.remove(p.unwrap());
                    }
                }
            }
        }
    }
    // and with the element types of the code itself
    use gc_core::path::ScoredPath;
    let mut q: MinPriorityQueue<ScoredPath> = MinPriorityQueue::<ScoredPath>::new();
    let mut m: Vec<i64> = vec![];
    for (k, op) in all.iter().enumerate() {
        match op {
            Some(x) => {
                q.push(ScoredPath { path: pathof(&[k as u64]), score: *x });
                m.push(*x);
                m.sort();
            }
            None => {
                let got = q.pop().map(|x| x.score);
                let exp = if m.is_empty() { None } else { Some(m.remove(0)) };
                ensure!(got == exp, "step {}: min queue of scored paths popped score {:?}, expected {:?}", k, got, exp);
            }
        }
    }
    Ok(len > 3)
}

/// Many elements at once, against the queues of the standard library
fn c17_long(n: usize, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    use std::cmp::Reverse;
    use std::collections::{BinaryHeap, VecDeque};
    let span = 1 + r.below(2 * n);
    let pops = r.below(3);
    let ops: Vec<Option<i64>> = (0..n).map(|_| if r.chance(pops, 5) { None } else { Some(r.below(span) as i64) }).collect();
    c.input(format!("{} pushes and pops (None) beginning {:?}", n, &ops[..ops.len().min(40)]));
    let (mut st, mut qu, mut mi, mut ma) =
        (Stack::<i64>::new(), Queue::<i64>::new(), MinPriorityQueue::<i64>::new(), MaxPriorityQueue::<i64>::new());
    let (mut ms, mut mq, mut mmi, mut mma) = (vec![], VecDeque::new(), BinaryHeap::new(), BinaryHeap::new());
    for (k, op) in ops.iter().cloned().chain(std::iter::repeat(None).take(n + 1)).enumerate() {
        match op {
            Some(x) => {
                st.push(x);
                ms.push(x);
                qu.push(x);
                mq.push_back(x);
                mi.push(x);
                mmi.push(Reverse(x));
                ma.push(x);
                mma.push(x);
            }
            None => {
                let (got, exp) = (st.pop(), ms.pop());
                ensure!(got == exp, "step {} of {}: stack popped {:?}, expected {:?}", k, n, got, exp);
                let (got, exp) = (qu.pop(), mq.pop_front());
                ensure!(got == exp, "step {} of {}: queue popped {:?}, expected {:?}", k, n, got, exp);
                let (got, exp) = (mi.pop(), mmi.pop().map(|Reverse(x)| x));
                ensure!(got == exp, "step {} of {}: min queue popped {:?}, expected {:?}", k, n, got, exp);
                let (got, exp) = (ma.pop(), mma.pop());
                ensure!(got == exp, "step {} of {}: max queue popped {:?}, expected {:?}", k, n, got, exp);
            }
        }
    }
    Ok(true)
}

pub fn c18(i: u64, r: &mut Rng, c: &Ctx) -> Result<bool, String> {
    let long = big(i, r, 3000);
    let n = long.unwrap_or(1 + r.below(5));
    let pool = names(r, n);
    let len = if long.is_some() { n + r.below(n) } else if i < 2000 { 1 + r.below(6) } else { 1 + r.below(40) };
    // 0 add 1 remove (methods), 2 add vertex attr 3 remove vertex attr 4 add edge attr 5 remove edge attr (commands, given to both mappings)
    let ops: Vec<(usize, u64, u64, i64)> = (0..len).map(|_| (r.below(6), *r.pick(&pool), *r.pick(&pool), r.range(-3, 9))).collect();
    let batch = r.chance(1, 3);
    c.input(format!("operations (kind, v1, v2, value), batch={}: {:?}", batch, ops));
    let mut mv: VertexAttrMapping<i64> = no_vertex_mapping();
    let mut me: EdgeAttrMapping<i64> = no_edge_mapping();
    let (mut ev, mut ee): (BTreeMap<u64, i64>, BTreeMap<(u64, u64), i64>) = (BTreeMap::new(), BTreeMap::new());
    let name = format!("attr{}", r.below(9));
    {
        let m = VertexAttrMapping::<i64>::new::<VertexId, i64>(&name);
        ensure!(m.name() == name, "name() = {:?}, expected {:?}", m.name(), name);
    }
    let cmd = |k: usize, a: u64, b: u64, x: i64| -> AttributeCommand<i64> {
        match k {
            2 => AttributeCommand::AddVertexAttr(VertexId(a), x),
            3 => AttributeCommand::RemoveVertexAttr(VertexId(a)),
            4 => AttributeCommand::AddEdgeAttr(VertexId(a), VertexId(b), x),
            _ => AttributeCommand::RemoveEdgeAttr(VertexId(a), VertexId(b)),
        }
    };
    type AC = AttributeCommand<i64>;
    for (s, (k, a, b, x)) in ops.iter().enumerate() {
        let (k, a, b, x) = (*k, *a, *b, *x);
        match k {
            0 => {
                ensure!(mv.add(VertexId(a), x), "step {}: add returned false", s);
                ensure!(me.add(e(a, b), x), "step {}: add returned false", s);
                ev.insert(a, x);
                ee.insert((a, b), x);
            }
            1 => {
                let t = ev.remove(&a).is_some();
                ensure!(mv.remove(&VertexId(a)) == t, "step {}: vertex remove returned {}", s, !t);
                let t = ee.remove(&(a, b)).is_some();
                ensure!(me.remove(&e(a, b)) == t, "step {}: edge remove returned {}", s, !t);
            }
            _ => {
                let rv = match k {
                    2 => {
                        ev.insert(a, x);
                        true
                    }
                    3 => ev.remove(&a).is_some(),
                    _ => false,
                };
                let re = match k {
                    4 => {
                        ee.insert((a, b), x);
                        true
                    }
                    5 => ee.remove(&(a, b)).is_some(),
                    _ => false,
                };
                if batch {
                    AC::apply_vertex_commands_to(vec![cmd(k, a, b, x)], &mut mv);
                    AC::apply_edge_commands_to(vec![cmd(k, a, b, x)], &mut me);
                } else {
                    let g = AC::apply_vertex_command_to(cmd(k, a, b, x), &mut mv);
                    ensure!(g == rv, "step {}: vertex command returned {}", s, g);
                    let g = AC::apply_edge_command_to(cmd(k, a, b, x), &mut me);
                    ensure!(g == re, "step {}: edge command returned {}", s, g);
                }
            }
        }
        if long.is_some() && s + 1 < len {
            continue;
        }
        let d = 77;
        let (f, fd, h, hd) = (mv.as_closure(), mv.as_closure_with_defaults(&d), me.as_closure(), me.as_closure_with_defaults(&d));
        for &p in &pool {
            ensure!(f(&VertexId(p)) == ev.get(&p), "step {}: vertex {} has {:?}, expected {:?}", s, p, f(&VertexId(p)), ev.get(&p));
            ensure!(fd(&VertexId(p)) == ev.get(&p).unwrap_or(&d), "step {}: vertex {} with default has {:?}", s, p, fd(&VertexId(p)));
            let near: Vec<u64> = if long.is_some() { ops.iter().filter(|o| o.1 == p).map(|o| o.2).collect() } else { pool.clone() };
            for q in near {
                ensure!(h(&e(p, q)) == ee.get(&(p, q)), "step {}: edge {:?} has {:?}, expected {:?}", s, (p, q), h(&e(p, q)), ee.get(&(p, q)));
                ensure!(hd(&e(p, q)) == ee.get(&(p, q)).unwrap_or(&d), "step {}: edge {:?} with default has {:?}", s, (p, q), hd(&e(p, q)));
            }
        }
    }
    // the whole list at once
    let (mut mv, mut me): (VertexAttrMapping<i64>, EdgeAttrMapping<i64>) = (no_vertex_mapping(), no_edge_mapping());
    let list: Vec<_> = ops.iter().filter(|o| o.0 >= 2).cloned().collect();
    AC::apply_vertex_commands_to(list.iter().map(|o| cmd(o.0, o.1, o.2, o.3)).collect(), &mut mv);
    AC::apply_edge_commands_to(list.iter().map(|o| cmd(o.0, o.1, o.2, o.3)).collect(), &mut me);
    for &p in &pool {
        let exp = list.iter().rev().find(|o| o.0 < 4 && o.1 == p).and_then(|o| if o.0 == 2 { Some(o.3) } else { None });
        ensure!(mv.as_closure()(&VertexId(p)) == exp.as_ref(), "whole list: vertex {} has {:?}, expected {:?}", p, mv.as_closure()(&VertexId(p)), exp);
        let near: Vec<u64> = if long.is_some() { list.iter().filter(|o| o.1 == p).map(|o| o.2).collect() } else { pool.clone() };
        for q in near {
            let exp = list.iter().rev().find(|o| o.0 >= 4 && o.1 == p && o.2 == q).and_then(|o| if o.0 == 4 { Some(o.3) } else { None });
            ensure!(me.as_closure()(&e(p, q)) == exp.as_ref(), "whole list: edge {:?} has {:?}, expected {:?}", (p, q), me.as_closure()(&e(p, q)), exp);
        }
    }
    Ok(len > 1)
}
