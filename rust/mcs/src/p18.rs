//! Mutable hash maps and sets: every operation from every reachable small table state, all short histories, growth.
use crate::harness::*;
use crate::p28::hashes;
use std::collections::{BTreeMap, BTreeSet, HashSet};

type M = BTreeMap<u64, u64>;
type K = (u64, u64);

fn obs(c: &mut Case, slot: u64, m: &M, keys: &[K]) {
    c.op(&[5, slot]).expect(&[m.len() as u64, m.is_empty() as u64, m.len() as u64]);
    for (k, v) in m {
        c.expect(&[*k, *v]);
    }
    c.expect(&[1111111, 0]);
    c.op(&[6, slot, keys.len() as u64]);
    for (k, h) in keys {
        c.op(&[*k, *h]);
        c.expect_opt(m.get(k).copied());
        c.expect(&[m.contains_key(k) as u64]);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Ins(usize),
    Rem(usize),
    Clear,
    Reserve(u64),
}

fn apply(c: &mut Case, slot: u64, op: Op, v: u64, m: &mut M, keys: &[K]) {
    match op {
        Op::Ins(k) => {
            let (l, h) = keys[k];
            c.op(&[if v % 2 == 0 { 2 } else { 13 }, slot, l, h, v]);
            c.expect_opt(m.insert(l, v));
        }
        Op::Rem(k) => {
            let (l, h) = keys[k];
            c.op(&[3, slot, l, h]);
            c.expect_opt(m.remove(&l));
        }
        Op::Clear => {
            c.op(&[4, slot]);
            m.clear();
        }
        Op::Reserve(n) => {
            c.op(&[10, slot, n]);
        }
    }
}

fn state(cap: u64, fill: &[K], h: &[Op], keys: &[K]) -> (Case, Vec<Op>) {
    let mut c = Case::new();
    let mut m = M::new();
    c.op(&[1, 0, cap]);
    for (l, p) in fill {
        c.op(&[2, 0, *l, *p, *l]);
        c.expect_opt(m.insert(*l, *l));
    }
    for (i, op) in h.iter().enumerate() {
        apply(&mut c, 0, *op, 1000 + i as u64, &mut m, keys);
    }
    let all: Vec<K> = fill.iter().chain(keys).copied().collect();
    c.op(&[11, 0]).free();
    c.op(&[15, 0, keys.len() as u64]);
    for (l, p) in keys {
        c.op(&[*l, *p]).free();
    }
    let mut ops: Vec<Op> = (0..keys.len()).map(Op::Ins).collect();
    ops.extend((0..keys.len()).map(Op::Rem));
    ops.extend([Op::Reserve(m.len() as u64), Op::Reserve(cap * 2), Op::Reserve(cap * 4 + 1), Op::Clear]);
    for op in &ops {
        let mut m2 = m.clone();
        c.op(&[7, 0, 1]);
        apply(&mut c, 1, *op, 7777, &mut m2, keys);
        c.op(&[11, 1]).free();
        obs(&mut c, 1, &m2, &all);
        // one more step after it, on the changed table
        let after = Op::Ins(h.len() % keys.len());
        apply(&mut c, 1, after, 8888, &mut m2, keys);
        obs(&mut c, 1, &m2, &all);
    }
    obs(&mut c, 0, &m, &all);
    c.op(&[8, 0, 2, 12, 0, 3, 9, 0, 2, 9, 3, 0, 9, 2, 3]).expect(&[1, 1, 1]);
    let mut m3 = m.clone();
    apply(&mut c, 2, Op::Ins(0), 4242, &mut m3, keys);
    c.op(&[9, 0, 2, 9, 2, 0, 9, 3, 2]).expect(&[(m3 == m) as u64; 3]);
    obs(&mut c, 2, &m3, &all);
    obs(&mut c, 3, &m, &all);
    obs(&mut c, 0, &m, &all);
    c.key = format!("hash-map/cap{}/fill{}/after/{:?}/{:?}", cap, fill.len(), keys, h);
    c.what = format!("std/hash-map: every operation {:?} from with-capacity {} + {} fillers after history {:?}; keys (label, hash part) {:?}", ops, cap, fill.len(), h, keys);
    (c, ops)
}

fn bfs(o: &Opts, rep: &Report, exe: &str, name: &str, cap: u64, fill: &[K], keys: &[K], nmax: usize) {
    let mut seen = HashSet::new();
    let mut queued: HashSet<(BTreeSet<usize>, u64)> = HashSet::new();
    let mut frontier: Vec<(Vec<Op>, BTreeSet<usize>)> = vec![(vec![], BTreeSet::new())];
    let (mut trans, mut runs, mut depth) = (0u64, 0u64, 0u64);
    while !frontier.is_empty() && rep.nviol.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        let (cases, ops): (Vec<_>, Vec<_>) = frontier.iter().map(|(h, _)| state(cap, fill, h, keys)).unzip();
        runs += cases.len() as u64;
        let res = run_cases(o, rep, exe, name, &cases);
        let mut nf = vec![];
        for ((f, (h, set)), ops) in res.into_iter().zip(&frontier).zip(&ops) {
            let Some(f) = f else { continue };
            trans += ops.len() as u64;
            if !seen.insert((set.clone(), f.clone())) {
                continue;
            }
            if seen.len() == 60 {
                rep.sample(&format!("hash-map table state by history {:?} over keys {:?}", h, keys));
            }
            for (i, op) in ops.iter().enumerate() {
                let mut s2 = set.clone();
                match op {
                    Op::Ins(k) => {
                        if !s2.insert(*k) {
                            continue;
                        }
                    }
                    Op::Rem(k) => {
                        if !s2.remove(k) {
                            continue;
                        }
                    }
                    _ => continue,
                }
                if s2.len() > nmax {
                    continue;
                }
                let d = f[1 + keys.len() + i];
                let Some(t) = (0..3).find(|t| !queued.contains(&(s2.clone(), d.wrapping_add(*t)))) else { continue };
                queued.insert((s2.clone(), d.wrapping_add(t)));
                let mut h2 = h.clone();
                h2.push(*op);
                nf.push((h2, s2));
            }
        }
        frontier = nf;
        depth += 1;
    }
    rep.cover(name, &[("states", seen.len() as u64), ("transitions", trans), ("traces_validated_against_impl", runs), ("depth", depth), ("keys", keys.len() as u64), ("max_elements", (nmax + fill.len()) as u64)], &[]);
}

fn sequences(o: &Opts, rep: &Report, exe: &str, keys: &[K], depth: usize) {
    let mut cases = vec![];
    let al = [Op::Ins(0), Op::Ins(1), Op::Ins(2), Op::Rem(0), Op::Rem(1), Op::Rem(2), Op::Clear, Op::Reserve(40)];
    for cap in [0u64, 1, 2, 3, 9, 16] {
        for code in 0..al.len().pow(depth as u32) {
            let mut c = Case::new();
            let mut m = M::new();
            c.op(&[1, 0, cap]);
            obs(&mut c, 0, &m, keys);
            let mut x = code;
            let mut h = vec![];
            for i in 0..depth {
                h.push(al[x % al.len()]);
                apply(&mut c, 0, al[x % al.len()], 100 + i as u64, &mut m, keys);
                obs(&mut c, 0, &m, keys);
                x /= al.len();
            }
            c.key = if cap == 0 { "hash-map/with-capacity-0".into() } else { format!("hash-map/seq/cap{}/{:?}/{:?}", cap, keys, h) };
            c.what = format!("std/hash-map: with-capacity {} then {:?}; keys (label, hash part) {:?}", cap, h, keys);
            cases.push(c);
        }
    }
    // sets
    let n = cases.len() as u64;
    run_cases(o, rep, exe, "sequences", &cases);
    let mut cases = vec![];
    let nops = 10usize;
    for code in 0..nops.pow(depth as u32) {
        let mut c = Case::new();
        let mut s: BTreeSet<u64> = BTreeSet::new();
        c.op(&[20, 0]);
        let mut x = code;
        let mut h = vec![];
        for _ in 0..depth {
            let op = x % nops;
            x /= nops;
            h.push(op);
            match op {
                0..=2 => {
                    c.op(&[21, 0, keys[op].0, keys[op].1]).expect(&[s.insert(keys[op].0) as u64]);
                }
                3..=5 => {
                    c.op(&[22, 0, keys[op - 3].0, keys[op - 3].1]).expect(&[s.remove(&keys[op - 3].0) as u64]);
                }
                6 => {
                    c.op(&[23, 0]);
                    s.clear();
                }
                _ => {
                    // a copy is equal, and changing the original afterwards does not change it
                    c.op(&[op as u64 + 19, 0, 1, 29, 0, 1, 29, 1, 0]).expect(&[1, 1]);
                    let (l, p) = keys[h.len() % 3];
                    let before = s.clone();
                    c.op(&[21, 0, l, p]).expect(&[s.insert(l) as u64]);
                    c.op(&[29, 0, 1, 29, 1, 0]).expect(&[(before == s) as u64; 2]);
                    set_obs(&mut c, 1, &before, keys);
                }
            }
            set_obs(&mut c, 0, &s, keys);
        }
        c.key = format!("hash-set/seq/{:?}", h);
        c.what = format!("std/hash-set: ops {:?} (0-2 insert!, 3-5 remove!, 6 clear!, 7 shallow-copy, 8 deep-copy, 9 collect) over keys {:?}", h, keys);
        cases.push(c);
    }
    run_cases(o, rep, exe, "set-sequences", &cases);
    rep.cover("sequences", &[("states", n + cases.len() as u64), ("transitions", (n + cases.len() as u64) * depth as u64), ("traces_validated_against_impl", n + cases.len() as u64), ("depth", depth as u64)], &[]);
}

fn set_obs(c: &mut Case, slot: u64, s: &BTreeSet<u64>, keys: &[K]) {
    c.op(&[25, slot]).expect(&[s.len() as u64, s.is_empty() as u64]);
    for k in s {
        c.expect(&[*k, 1]);
    }
    c.expect(&[1111112]);
    for (l, p) in keys {
        c.op(&[24, slot, *l, *p]).expect(&[s.contains(l) as u64]);
    }
}

/// long histories: growth with n elements under a hash distribution, removal in several orders
fn growth(o: &Opts, rep: &Report, exe: &str, dists: &[(String, Vec<K>)]) {
    let mut cases = vec![];
    for (name, keys) in dists {
        for cap in [0u64, 1, 7, 32, 1000] {
            for order in 0..4usize {
                let mut c = Case::new();
                let mut m = M::new();
                if cap == 0 {
                    c.op(&[14, 0]);
                } else {
                    c.op(&[1, 0, cap]);
                }
                let n = keys.len();
                for i in 0..n {
                    apply(&mut c, 0, Op::Ins(i), i as u64, &mut m, keys);
                    if i % 7 == 3 {
                        apply(&mut c, 0, Op::Ins(i / 2), i as u64 + 5000, &mut m, keys);
                    }
                    if i < 48 || i % 29 == 0 || i + 1 == n {
                        obs(&mut c, 0, &m, keys);
                    }
                }
                let rem: Vec<usize> = match order {
                    0 => (0..n).collect(),
                    1 => (0..n).rev().collect(),
                    2 => (0..n).map(|i| (i * 7) % n).collect(),
                    _ => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
                };
                for (j, i) in rem.iter().enumerate() {
                    apply(&mut c, 0, Op::Rem(*i), 0, &mut m, keys);
                    if order == 3 && j % 5 == 0 {
                        apply(&mut c, 0, Op::Ins(rem[j / 2]), 9000 + j as u64, &mut m, keys);
                    }
                    if n - j < 20 || j % 23 == 0 {
                        obs(&mut c, 0, &m, keys);
                    }
                }
                c.key = format!("hash-map/growth/{}/cap{}/{}", name, cap, order);
                c.what = format!("std/hash-map: {} keys with {} hashes inserted into capacity {} and removed in order {}", n, name, cap, order);
                cases.push(c);
            }
        }
    }
    run_cases(o, rep, exe, "growth", &cases);
    rep.cover("growth", &[("states", cases.len() as u64), ("transitions", cases.iter().map(|c| c.words.len() as u64).sum::<u64>() / 4), ("traces_validated_against_impl", cases.len() as u64)], &[]);
}

pub fn main(o: &Opts, rep: &Report) {
    let exe = &o.exes[0];
    let hs = hashes(o, exe, 100_000);
    let find = |bits: u32, v: u64, n: usize| -> Vec<u64> {
        hs.iter().enumerate().filter(|(_, h)| *h & ((1 << bits) - 1) == v).map(|(i, _)| i as u64).take(n).collect()
    };
    let at = |bits: u32, v: u64, i: usize| find(bits, v, i + 1).get(i).copied().unwrap_or(i as u64);
    // capacity 16: ideal positions around the wrap-around, with true collisions
    let k1: Vec<K> = vec![(1, at(4, 15, 0)), (2, at(4, 15, 0)), (3, at(4, 15, 1)), (4, at(4, 14, 0)), (5, at(4, 0, 0)), (6, at(4, 0, 1)), (7, at(4, 1, 0)), (8, at(4, 13, 0)), (9, at(4, 14, 1)), (10, at(4, 3, 0))];
    let k2: Vec<K> = vec![(1, at(4, 5, 0)), (2, at(4, 5, 0)), (3, at(4, 5, 0)), (4, at(4, 5, 1)), (5, at(4, 6, 0)), (6, at(4, 6, 1)), (7, at(4, 4, 0)), (8, at(4, 8, 0))];
    let q = !o.thorough;
    bfs(o, rep, exe, "bfs-wrap", 16, &[], &k1, if q { 9 } else { 10 });
    bfs(o, rep, exe, "bfs-cluster", 16, &[], &k2, 8);
    // 32 buckets nearly full: every key near the end or the beginning
    let fill: Vec<K> = (0..21).map(|i| (100 + i, at(5, (22 + i / 2) % 32, i as usize % 3))).collect();
    let k3: Vec<K> = vec![(1, at(5, 31, 4)), (2, at(5, 30, 4)), (3, at(5, 0, 4)), (4, at(5, 22, 4)), (5, at(5, 31, 4)), (6, at(5, 5, 4))];
    bfs(o, rep, exe, "bfs-full", 32, &fill, &k3, 6);
    sequences(o, rep, exe, &[k1[0], k1[1], k1[4]], if q { 4 } else { 5 });
    sequences(o, rep, exe, &[k1[0], k1[3], k1[7]], if q { 3 } else { 4 });
    let n = if q { 150 } else { 600 };
    let mut d: Vec<(String, Vec<K>)> = vec![
        ("all-different".into(), (0..n).map(|i| (i, i)).collect()),
        ("all-colliding".into(), (0..n / 2).map(|i| (i, 7)).collect()),
        ("pairwise-colliding".into(), (0..n).map(|i| (i, i / 2)).collect()),
    ];
    for (bits, v) in [(4u32, 15u64), (6, 63), (8, 255), (8, 0)] {
        d.push((format!("low-{}-bits-{}", bits, v), find(bits, v, n as usize / 2).into_iter().enumerate().map(|(i, h)| (i as u64, h)).collect()));
    }
    growth(o, rep, exe, &d);
    let mut c = Case::new();
    for n in (0..=4096u64).chain((12..62).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1])).chain([1 << 62]) {
        c.op(&[16, n]).expect(&[n.next_power_of_two()]);
    }
    c.key = "next-power-of-two".into();
    c.what = "next-power-of-two of 0..4096 and of the neighbours of every power of two".into();
    run_cases(o, rep, exe, "next-power-of-two", &[c]);
}
