//! Ordered maps and sets: breadth-first search over the shapes of the real tree (a shape = which comparisons the real
//! lookup makes), every transition checked against a BTreeMap; plus every single operation and drain from large
//! start states, and every operation sequence on sets / collect / comparisons up to a depth.
use crate::harness::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum HOp {
    Ins(usize),
    Repl(usize),
    Rem(usize),
    RemAbsent(usize),
    RemMin,
    RemMax,
}

/// A history over ranks, made concrete: keys are positions in the final total order of everything ever inserted.
pub struct Real {
    pub ops: Vec<(HOp, u64)>, // with the key concerned (ranks resolved)
    pub universe: u64,        // keys are odd numbers < universe; even numbers are gaps
}

pub fn realise(h: &[HOp]) -> Real {
    // order: (id, live)
    let mut order: Vec<(usize, bool)> = vec![];
    let mut next = 0;
    #[derive(Clone, Copy)]
    enum K {
        Id(usize),
        Before(usize), // just before element id
        End,
        None,
    }
    let mut refs = vec![];
    let live_at = |order: &Vec<(usize, bool)>, r: usize| order.iter().enumerate().filter(|(_, e)| e.1).nth(r).map(|(i, _)| i);
    for op in h {
        match *op {
            HOp::Ins(g) => {
                let at = live_at(&order, g).unwrap_or(order.len());
                order.insert(at, (next, true));
                refs.push(K::Id(next));
                next += 1;
            }
            HOp::Repl(r) => refs.push(K::Id(order[live_at(&order, r).unwrap()].0)),
            HOp::Rem(r) => {
                let at = live_at(&order, r).unwrap();
                order[at].1 = false;
                refs.push(K::Id(order[at].0));
            }
            HOp::RemAbsent(g) => refs.push(match live_at(&order, g) {
                Some(i) => K::Before(order[i].0),
                None => K::End,
            }),
            HOp::RemMin => {
                if let Some(at) = live_at(&order, 0) {
                    order[at].1 = false;
                }
                refs.push(K::None)
            }
            HOp::RemMax => {
                let n = order.iter().filter(|e| e.1).count();
                if n > 0 {
                    let at = live_at(&order, n - 1).unwrap();
                    order[at].1 = false;
                }
                refs.push(K::None)
            }
        }
    }
    let pos: std::collections::HashMap<usize, u64> = order.iter().enumerate().map(|(i, e)| (e.0, i as u64)).collect();
    let ops = h
        .iter()
        .zip(refs)
        .map(|(o, k)| {
            (*o, match k {
                K::Id(i) => pos[&i] * 2 + 1,
                K::Before(i) => pos[&i] * 2,
                K::End => order.len() as u64 * 2,
                K::None => 0,
            })
        })
        .collect();
    Real { ops, universe: order.len() as u64 * 2 + 1 }
}

pub fn opts2(c: &mut Case, o: Option<(u64, u64)>) {
    match o {
        None => c.expect(&[0]),
        Some((k, v)) => c.expect(&[1, k, v]),
    };
}

/// Emits the op on a slot and applies it to the model.
fn emit(c: &mut Case, slot: u64, op: HOp, key: u64, val: u64, m: &mut BTreeMap<u64, u64>) {
    match op {
        HOp::Ins(_) | HOp::Repl(_) => {
            c.op(&[if val % 3 == 0 { 20 } else { 2 }, slot, key, val]);
            let r = m.insert(key, val);
            c.expect_opt(r);
        }
        HOp::Rem(_) | HOp::RemAbsent(_) => {
            c.op(&[3, slot, key]);
            let r = m.remove(&key);
            c.expect_opt(r);
        }
        HOp::RemMin => {
            c.op(&[4, slot]);
            let r = m.iter().next().map(|(k, v)| (*k, *v));
            if let Some((k, _)) = r {
                m.remove(&k);
            }
            opts2(c, r);
        }
        HOp::RemMax => {
            c.op(&[5, slot]);
            let r = m.iter().next_back().map(|(k, v)| (*k, *v));
            if let Some((k, _)) = r {
                m.remove(&k);
            }
            opts2(c, r);
        }
    }
}

fn observe(c: &mut Case, slot: u64, m: &BTreeMap<u64, u64>, universe: u64) {
    c.op(&[9, slot]);
    c.expect(&[m.len() as u64, m.is_empty() as u64]);
    opts2(c, m.iter().next().map(|(a, b)| (*a, *b)));
    opts2(c, m.iter().next_back().map(|(a, b)| (*a, *b)));
    for (k, v) in m {
        c.expect(&[*k, *v]);
    }
    c.expect(&[1111111]);
    for k in m.keys() {
        c.expect(&[*k]);
    }
    c.expect(&[1111112]);
    for v in m.values() {
        c.expect(&[*v]);
    }
    c.expect(&[1111113]);
    c.op(&[14, slot, universe]);
    for k in 0..universe {
        c.op(&[k]);
        c.expect_opt(m.get(&k).copied());
    }
}

fn cmp_maps(a: &BTreeMap<u64, u64>, b: &BTreeMap<u64, u64>) -> u64 {
    match a.iter().cmp(b.iter()) {
        std::cmp::Ordering::Less => 0,
        std::cmp::Ordering::Equal => 1,
        std::cmp::Ordering::Greater => 2,
    }
}

fn shape(c: &mut Case, slot: u64, m: &BTreeMap<u64, u64>, universe: u64) {
    c.op(&[15, m.len() as u64]);
    for k in m.keys() {
        c.op(&[*k]);
    }
    // one probe per live key and one per gap between live keys
    let mut probes: Vec<u64> = vec![0];
    for k in m.keys() {
        probes.push(*k);
        probes.push(*k + 1);
    }
    let _ = universe;
    c.op(&[16, slot, probes.len() as u64]);
    c.op(&probes);
    c.free();
}

/// history h on slot 0, then op (with copies taken before it)
fn transition(h: &[HOp], op: HOp, part: &str) -> (Case, usize) {
    let mut full = h.to_vec();
    full.push(op);
    let r = realise(&full);
    let mut c = Case::new();
    let mut m = BTreeMap::new();
    c.op(&[1, 0]);
    for (i, (o, k)) in r.ops[..h.len()].iter().enumerate() {
        emit(&mut c, 0, *o, *k, i as u64 + 1000, &mut m);
    }
    let pre = m.clone();
    c.op(&[10, 0, 1, 11, 0, 2]);
    let (o, k) = r.ops[h.len()];
    emit(&mut c, 0, o, k, 5000, &mut m);
    observe(&mut c, 0, &m, r.universe);
    observe(&mut c, 1, &pre, r.universe);
    let mut m2 = pre.clone();
    emit(&mut c, 2, o, k, 5000, &mut m2);
    observe(&mut c, 2, &m2, r.universe);
    c.op(&[12, 0, 2, 13, 0, 2]).expect(&[1, 1]);
    // against a map built afresh in key order: equal, and after one change unequal
    c.op(&[19, 3, m.len() as u64]);
    for (k, v) in &m {
        c.op(&[*k, *v]);
    }
    c.op(&[12, 0, 3, 13, 0, 3]).expect(&[1, 1]);
    let mut m3 = m.clone();
    emit(&mut c, 3, HOp::Rem(0), k, 0, &mut m3);
    c.op(&[12, 0, 3, 13, 0, 3, 13, 3, 0]).expect(&[(m == m3) as u64, cmp_maps(&m, &m3), cmp_maps(&m3, &m)]);
    // the shallow copy is independent both ways
    let mut m1 = pre.clone();
    emit(&mut c, 1, HOp::RemMin, 0, 0, &mut m1);
    observe(&mut c, 0, &m, r.universe);
    shape(&mut c, 0, &m, r.universe);
    c.key = format!("ord-map/{}/{:?}/after/{:?}", part, op, h);
    c.what = format!("std/ord-map: history {:?} then {:?} (keys {:?})", h, op, r.ops.iter().map(|x| x.1).collect::<Vec<_>>());
    (c, m.len())
}

fn alphabet(n: usize) -> Vec<HOp> {
    let mut v = vec![];
    for g in 0..=n {
        v.push(HOp::Ins(g));
    }
    for r in 0..n {
        v.push(HOp::Rem(r));
    }
    v.push(HOp::RemMin);
    v.push(HOp::RemMax);
    if n > 0 {
        v.push(HOp::Repl(n / 2));
        v.push(HOp::Repl(0));
        v.push(HOp::Repl(n - 1));
    }
    v.push(HOp::RemAbsent(0));
    v.push(HOp::RemAbsent(n));
    v.push(HOp::RemAbsent(n / 2));
    v
}

fn bfs(o: &Opts, rep: &Report, exe: &str, nmax: usize) {
    let mut seen: HashSet<(usize, u64)> = HashSet::new();
    let mut frontier: Vec<(Vec<HOp>, usize)> = vec![(vec![], 0)];
    seen.insert((0, 0));
    let (mut trans, mut depth) = (0u64, 0u64);
    while !frontier.is_empty() && rep.nviol.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        let mut cases = vec![];
        let mut meta = vec![];
        for (h, n) in &frontier {
            for op in alphabet(*n) {
                if matches!(op, HOp::Ins(_)) && *n >= nmax {
                    continue;
                }
                let (c, n2) = transition(h, op, "bfs");
                cases.push(c);
                meta.push((h, op, n2));
            }
        }
        trans += cases.len() as u64;
        let res = run_cases(o, rep, exe, "bfs", &cases);
        let mut nf = vec![];
        for (r, (h, op, n2)) in res.into_iter().zip(meta) {
            if let Some(f) = r {
                if seen.insert((n2, f[0])) {
                    let mut h2 = h.clone();
                    h2.push(op);
                    if nf.len() == 5 {
                        rep.sample(&format!("ord-map state by history {:?}", h2));
                    }
                    nf.push((h2, n2));
                }
            }
        }
        frontier = nf;
        depth += 1;
    }
    rep.cover("ord-map-bfs", &[("states", seen.len() as u64), ("transitions", trans), ("traces_validated_against_impl", trans), ("depth", depth), ("max_elements", nmax as u64)], &[("exhaustive", "all tree shapes with at most max_elements elements reachable through such trees; every insertion gap, removal rank, min/max")]);
}

fn start_histories(sizes: &[usize]) -> Vec<(String, Vec<HOp>)> {
    let mut v = vec![];
    for &n in sizes {
        v.push((format!("asc{}", n), (0..n).map(HOp::Ins).collect()));
        v.push((format!("desc{}", n), (0..n).map(|_| HOp::Ins(0)).collect()));
        v.push((format!("mid{}", n), (0..n).map(|i| HOp::Ins(i / 2)).collect()));
        v.push((format!("zip{}", n), (0..n).map(|i| if i % 2 == 0 { HOp::Ins(i) } else { HOp::Ins(0) }).collect()));
        v.push((format!("third{}", n), (0..n).map(|i| HOp::Ins(i * 2 / 3)).collect()));
    }
    v
}

fn large(o: &Opts, rep: &Report, exe: &str, sizes: &[usize], step: usize) {
    let mut cases = vec![];
    for (name, h) in start_histories(sizes) {
        let n = h.len();
        // every single operation from this start state
        for op in alphabet(n).into_iter().step_by(step) {
            let (mut c, _) = transition(&h, op, &name);
            c.key = format!("ord-map/{}/{:?}", name, op);
            cases.push(c);
        }
    }
    // the drains need no copies: one run per (start, rank where the removals start)
    for (name, h) in start_histories(sizes) {
        let n = h.len();
        for r in (0..n + 2).step_by(step * 2) {
            let mut full = h.clone();
            for left in (1..=n).rev() {
                full.push(if r == n { HOp::RemMin } else if r == n + 1 { HOp::RemMax } else { HOp::Rem(r.min(left - 1)) });
            }
            // and refill half of it at the same place
            for i in 0..n / 2 {
                full.push(HOp::Ins(if r % 2 == 0 { i } else { 0 }));
            }
            let rl = realise(&full);
            let mut c = Case::new();
            let mut m = BTreeMap::new();
            c.op(&[1, 0]);
            for (i, (op, k)) in rl.ops.iter().enumerate() {
                emit(&mut c, 0, *op, *k, i as u64 + 1000, &mut m);
                if i >= n {
                    // look at the whole map now and then, at neighbours always
                    if i % 7 == 0 {
                        observe(&mut c, 0, &m, rl.universe.min(400));
                    } else {
                        c.op(&[14, 0, 4]);
                        for p in [k.saturating_sub(2), *k, *k + 1, *k + 2] {
                            c.op(&[p]);
                            c.expect_opt(m.get(&p).copied());
                        }
                    }
                }
            }
            observe(&mut c, 0, &m, rl.universe);
            c.key = format!("ord-map/{}/drain@{}", name, r);
            c.what = format!("std/ord-map: {} elements inserted ({}), all removed starting at rank {}, half refilled", n, name, r);
            cases.push(c);
        }
    }
    let t: u64 = cases.iter().map(|c| c.exp.len() as u64).sum();
    let k = cases.len() as u64;
    run_cases(o, rep, exe, "large", &cases);
    rep.cover("ord-map-large-start-states", &[("transitions", k), ("traces_validated_against_impl", k), ("observations_compared", t), ("states", start_histories(sizes).len() as u64)], &[]);
}

/// Every pair of small maps: Eq and Ord; collect with duplicate keys; clear and reuse.
fn pairs(o: &Opts, rep: &Report, exe: &str) {
    let mut maps: Vec<BTreeMap<u64, u64>> = vec![];
    for code in 0..27u32 * 3 {
        let mut m = BTreeMap::new();
        let mut c = code;
        for k in 0..4 {
            if c % 3 > 0 {
                m.insert(k, (c % 3) as u64);
            }
            c /= 3;
        }
        maps.push(m);
    }
    let mut cases = vec![];
    for a in &maps {
        for b in &maps {
            let mut c = Case::new();
            c.op(&[19, 0, a.len() as u64]);
            for (k, v) in a {
                c.op(&[*k, *v]);
            }
            // b is built backwards, with each key first given another value
            c.op(&[19, 1, 2 * b.len() as u64]);
            for (k, _) in b.iter().rev() {
                c.op(&[*k, 77]);
            }
            for (k, v) in b.iter().rev() {
                c.op(&[*k, *v]);
            }
            c.op(&[12, 0, 1, 13, 0, 1]).expect(&[(a == b) as u64, cmp_maps(a, b)]);
            observe(&mut c, 1, b, 5);
            c.op(&[6, 1]);
            let mut e = BTreeMap::new();
            observe(&mut c, 1, &e, 5);
            emit(&mut c, 1, HOp::Ins(0), 3, 9, &mut e);
            observe(&mut c, 1, &e, 5);
            observe(&mut c, 0, a, 5);
            c.key = format!("ord-map/pair/{:?}/{:?}", a, b);
            c.what = format!("std/ord-map: eq/compare of {:?} and {:?}", a, b);
            cases.push(c);
        }
    }
    let k = cases.len() as u64;
    run_cases(o, rep, exe, "pairs", &cases);
    rep.cover("ord-map-pairs", &[("transitions", k), ("traces_validated_against_impl", k), ("states", maps.len() as u64)], &[]);
}

fn sets(o: &Opts, rep: &Report, exe: &str, depth: usize) {
    // ops: 0-2 insert, 3-5 remove, 6 remove-min, 7 remove-max, 8 clear, 9 deep-copy, 10 collect
    let nops = 11usize;
    let mut cases = vec![];
    let total = nops.pow(depth as u32);
    for code in 0..total {
        let mut c = Case::new();
        let mut s: BTreeSet<u64> = BTreeSet::new();
        c.op(&[30]);
        let mut x = code;
        let mut names = vec![];
        for _ in 0..depth {
            let op = x % nops;
            x /= nops;
            names.push(op);
            match op {
                0..=2 => {
                    c.op(&[31, op as u64 * 2 + 1]);
                    let r = s.insert(op as u64 * 2 + 1);
                    c.expect(&[r as u64]);
                }
                3..=5 => {
                    let k = (op as u64 - 3) * 2 + 1;
                    c.op(&[32, k]);
                    c.expect(&[s.remove(&k) as u64]);
                }
                6 | 7 => {
                    c.op(&[if op == 6 { 33 } else { 34 }]);
                    let r = if op == 6 { s.pop_first() } else { s.pop_last() };
                    c.expect_opt(r);
                }
                8 => {
                    c.op(&[35]);
                    s.clear();
                }
                9 => {
                    c.op(&[38]);
                }
                _ => {
                    c.op(&[39]);
                }
            }
            c.op(&[36]).expect(&[s.len() as u64, s.is_empty() as u64]);
            c.expect_opt(s.first().copied()).expect_opt(s.last().copied());
            for k in &s {
                c.expect(&[*k]);
            }
            c.expect(&[1111114]);
            for k in 0..7 {
                c.op(&[37, k]).expect(&[s.contains(&k) as u64]);
            }
        }
        c.key = format!("ord-set/{:?}", names);
        c.what = format!("std/ord-set: operations {:?} (0-2 insert 1,3,5; 3-5 remove; 6/7 remove-min/max; 8 clear; 9 deep-copy; 10 collect)", names);
        cases.push(c);
    }
    let k = cases.len() as u64;
    run_cases(o, rep, exe, "sets", &cases);
    rep.cover("ord-set-sequences", &[("transitions", k * depth as u64), ("traces_validated_against_impl", k), ("states", k), ("depth", depth as u64)], &[]);
}

pub fn main(o: &Opts, rep: &Report) {
    let exe = &o.exes[0];
    pairs(o, rep, exe);
    sets(o, rep, exe, if o.thorough { 5 } else { 4 });
    bfs(o, rep, exe, if o.thorough { 44 } else { 26 });
    if o.thorough {
        large(o, rep, exe, &[11, 12, 35, 71, 72, 78, 100, 133, 150, 200, 260], 1);
    } else {
        large(o, rep, exe, &[12, 36, 72, 78, 140], 2);
    }
}
