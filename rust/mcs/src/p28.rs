//! Persistent maps: every transition from every reachable shape yields the right new version and leaves every older
//! version as it was.
use crate::harness::*;
use crate::p17::{opts2, realise, HOp};
use std::collections::{BTreeMap, HashMap, HashSet};

type M = BTreeMap<u64, u64>;

fn observe(c: &mut Case, slot: u64, m: &M, universe: u64) {
    c.op(&[105, slot]);
    c.expect(&[m.is_empty() as u64]);
    opts2(c, m.iter().next().map(|(a, b)| (*a, *b)));
    opts2(c, m.iter().next_back().map(|(a, b)| (*a, *b)));
    for (k, v) in m {
        c.expect(&[*k, *v]);
    }
    c.expect(&[1111111]);
    c.exp.extend(m.keys());
    c.exp.extend(m.values());
    c.op(&[106, slot, universe]);
    for k in 0..universe {
        c.op(&[k, 0]);
        c.expect_opt(m.get(&k).copied());
        c.expect(&[m.contains_key(&k) as u64]);
    }
}

fn emit(c: &mut Case, s: u64, d: u64, op: HOp, key: u64, val: u64, m: &M) -> M {
    let mut m = m.clone();
    match op {
        HOp::Ins(_) | HOp::Repl(_) => {
            c.op(&[101, s, d, key, 0, val]);
            m.insert(key, val);
        }
        HOp::Rem(_) | HOp::RemAbsent(_) => {
            c.op(&[102, s, d, key, 0]);
            m.remove(&key);
        }
        HOp::RemMin => {
            c.op(&[103, s, d]);
            m.pop_first();
        }
        HOp::RemMax => {
            c.op(&[104, s, d]);
            m.pop_last();
        }
    }
    m
}

fn shape(c: &mut Case, slot: u64, m: &M) {
    c.op(&[109, m.len() as u64]);
    for k in m.keys() {
        c.op(&[*k]);
    }
    let mut probes: Vec<u64> = vec![0];
    for k in m.keys() {
        probes.push(*k);
        probes.push(*k + 1);
    }
    c.op(&[110, slot, probes.len() as u64]);
    for p in probes {
        c.op(&[p, 0]);
    }
    c.free();
}

fn alphabet(n: usize) -> Vec<HOp> {
    let mut v: Vec<HOp> = (0..=n).map(HOp::Ins).collect();
    v.extend((0..n).map(HOp::Rem));
    v.extend([HOp::RemMin, HOp::RemMax, HOp::RemAbsent(n / 2)]);
    v.extend((0..n).map(HOp::Repl));
    v
}

/// realises h with each op of the alphabet as an alternative last step
fn ord_state(h: &[HOp], n: usize) -> (Case, Vec<HOp>) {
    let mut c = Case::new();
    // keys must be the same for all alternatives: spread the history's keys and use the gaps
    let r = realise(h);
    let spread = |k: u64| k * 2 + 1; // odd -> old keys, even -> new keys between them
    let uni = r.universe * 2 + 2;
    let mut versions: Vec<(u64, M)> = vec![(0, M::new())];
    c.op(&[100, 0]);
    for (i, (op, k)) in r.ops.iter().enumerate() {
        let s = versions.last().unwrap().0;
        let d = (i as u64 + 1) % 48;
        let m = emit(&mut c, s, d, *op, spread(*k), 1000 + i as u64, &versions.last().unwrap().1);
        if versions.len() >= 40 {
            versions.remove(0);
        }
        versions.push((d, m));
    }
    let (s, m) = versions.last().unwrap().clone();
    let live: Vec<u64> = m.keys().copied().collect();
    shape(&mut c, s, &m);
    let ops = alphabet(n);
    for op in &ops {
        let key = match *op {
            HOp::Ins(g) | HOp::RemAbsent(g) => {
                if g < live.len() {
                    live[g] - 1
                } else {
                    live.last().map_or(0, |k| k + 1)
                }
            }
            HOp::Rem(r) | HOp::Repl(r) => live[r],
            _ => 0,
        };
        let m2 = emit(&mut c, s, 60, *op, key, 7777, &m);
        observe(&mut c, 60, &m2, uni);
        shape(&mut c, 60, &m2);
    }
    for (slot, m) in &versions {
        observe(&mut c, *slot, m, uni);
    }
    c.op(&[117, s, 61, 118, s, 62, 107, s, 61, 107, s, 62, 108, s, 61, 108, 62, s, 119, s, 62]).expect(&[1, 1, 1, 1, 1]);
    c.key = format!("persistent-ord-map/after/{:?}", h);
    c.what = format!("std/persistent/ord-map: every single operation {:?} after history {:?}", ops, h);
    (c, ops)
}

fn ord_bfs(o: &Opts, rep: &Report, exe: &str, nmax: usize) {
    let mut seen = HashSet::new();
    let mut frontier: Vec<(Vec<HOp>, usize)> = vec![(vec![], 0)];
    let (mut trans, mut runs, mut depth) = (0u64, 0u64, 0u64);
    while !frontier.is_empty() && rep.nviol.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        let built: Vec<_> = frontier.iter().map(|(h, n)| ord_state(h, *n)).collect();
        let (cases, ops): (Vec<_>, Vec<_>) = built.into_iter().unzip();
        runs += cases.len() as u64;
        let res = run_cases(o, rep, exe, "ord-bfs", &cases);
        let mut nf = vec![];
        for ((f, (h, n)), ops) in res.into_iter().zip(&frontier).zip(ops) {
            let Some(f) = f else { continue };
            trans += ops.len() as u64;
            if !seen.insert((*n, f)) {
                continue;
            }
            if seen.len() == 40 {
                rep.sample(&format!("persistent ord-map state by history {:?}", h));
            }
            for op in ops {
                let n2 = match op {
                    HOp::Ins(_) => n + 1,
                    HOp::Rem(_) => n - 1,
                    HOp::RemMin | HOp::RemMax if *n > 0 => n - 1,
                    _ => continue,
                };
                if n2 <= nmax {
                    let mut h2 = h.clone();
                    h2.push(op);
                    nf.push((h2, n2));
                }
            }
        }
        frontier = nf;
        depth += 1;
    }
    rep.cover("persistent-ord-map-bfs", &[("states", seen.len() as u64), ("transitions", trans), ("traces_validated_against_impl", runs), ("depth", depth), ("max_elements", nmax as u64)],
        &[("state_identity", "tree shape of the version and of each of its one-operation successors (stands for the node colours)")]);
}

fn ord_pairs(o: &Opts, rep: &Report, exe: &str, nkeys: usize) {
    let mut maps = vec![];
    for code in 0..3usize.pow(nkeys as u32) {
        let mut m = M::new();
        let mut x = code;
        for k in 0..nkeys {
            if x % 3 > 0 {
                m.insert(k as u64, (x % 3) as u64);
            }
            x /= 3;
        }
        maps.push(m);
    }
    let build = |c: &mut Case, slot: u64, m: &M, rev: bool| {
        c.op(&[100, slot]);
        let mut v: Vec<_> = m.iter().collect();
        if rev {
            v.reverse();
        }
        for (k, x) in v {
            c.op(&[101, slot, slot, *k, 0, *x]);
        }
    };
    let comb = |k: u64, a: u64, b: u64| 1000000 * k + 1000 * a + b;
    let mut cases = vec![];
    let u = nkeys as u64 + 1;
    for a in &maps {
        for b in &maps {
            let mut c = Case::new();
            build(&mut c, 0, a, false);
            build(&mut c, 1, b, true);
            c.op(&[107, 0, 1, 108, 0, 1]);
            c.expect(&[(a == b) as u64, match a.iter().cmp(b.iter()) {
                std::cmp::Ordering::Less => 0,
                std::cmp::Ordering::Equal => 1,
                _ => 2,
            }]);
            for op in 111..=116u64 {
                c.op(&[op, 0, 1, 2]);
                let mut r = if op == 113 || op == 114 { M::new() } else { a.clone() };
                match op {
                    111 | 112 => {
                        for (k, bv) in b {
                            let v = match a.get(k) {
                                None => *bv,
                                Some(av) => if op == 111 { *av } else { comb(*k, *av, *bv) },
                            };
                            r.insert(*k, v);
                        }
                    }
                    113 | 114 => {
                        for (k, av) in a {
                            if let Some(bv) = b.get(k) {
                                r.insert(*k, if op == 113 { *av } else { comb(*k, *av, *bv) });
                            }
                        }
                    }
                    _ => {
                        for (k, bv) in b {
                            match a.get(k) {
                                None => { r.insert(*k, *bv); }
                                Some(av) => {
                                    let f = if op == 115 || (k + av + bv) % 2 == 0 { None } else { Some(comb(*k, *av, *bv)) };
                                    match f {
                                        None => { r.remove(k); }
                                        Some(v) => { r.insert(*k, v); }
                                    }
                                }
                            }
                        }
                    }
                }
                observe(&mut c, 2, &r, u);
            }
            observe(&mut c, 0, a, u);
            observe(&mut c, 1, b, u);
            c.key = format!("persistent-ord-map/pair/{:?}/{:?}", a, b);
            c.what = format!("std/persistent/ord-map: eq/compare/union/intersection/difference of {:?} and {:?}", a, b);
            cases.push(c);
        }
    }
    let k = cases.len() as u64;
    run_cases(o, rep, exe, "ord-pairs", &cases);
    rep.cover("persistent-ord-map-pairs", &[("states", maps.len() as u64), ("transitions", k * 8), ("traces_validated_against_impl", k)], &[]);
}

/// hash parts with chosen agreement of their hashes, found by asking the code itself
pub fn hashes(o: &Opts, exe: &str, n: u64) -> Vec<u64> {
    let mut out = vec![];
    let mut a = 0;
    while a < n {
        let k = (n - a).min(50_000);
        let r = run_words(exe, &o.work, &[220, a, k, 0], k as usize + 100, std::time::Duration::from_secs(60));
        if r.out.len() != k as usize {
            return out;
        }
        out.extend(r.out);
        a += k;
    }
    out
}

fn hash_obs(c: &mut Case, slot: u64, m: &M, keys: &[(u64, u64)]) {
    c.op(&[205, slot]).expect(&[m.len() as u64, m.is_empty() as u64]);
    c.op(&[208, slot]).expect(&[m.len() as u64]);
    for (k, v) in m {
        c.expect(&[*k, *v]);
    }
    c.expect(&[1111111, 0]);
    c.op(&[206, slot, keys.len() as u64]);
    for (k, h) in keys {
        c.op(&[*k, *h]);
        c.expect_opt(m.get(k).copied());
        c.expect(&[m.contains_key(k) as u64]);
    }
}

fn hash_state(h: &[(bool, usize)], keys: &[(u64, u64)]) -> Case {
    let mut c = Case::new();
    let mut versions: Vec<(u64, M)> = vec![(0, M::new())];
    c.op(&[200, 0]);
    let step = |c: &mut Case, s: u64, d: u64, ins: bool, k: usize, v: u64, m: &M| {
        let mut m = m.clone();
        let (l, p) = keys[k];
        if ins {
            c.op(&[201, s, d, l, p, v]);
            m.insert(l, v);
        } else {
            c.op(&[202, s, d, l, p]);
            m.remove(&l);
        }
        m
    };
    for (i, (ins, k)) in h.iter().enumerate() {
        let s = versions.last().unwrap().0;
        let d = (i as u64 + 1) % 48;
        let m = step(&mut c, s, d, *ins, *k, 1000 + i as u64, &versions.last().unwrap().1);
        if versions.len() >= 40 {
            versions.remove(0);
        }
        versions.push((d, m));
    }
    let (s, m) = versions.last().unwrap().clone();
    c.op(&[210, s]).free();
    for ins in [true, false] {
        for k in 0..keys.len() {
            let m2 = step(&mut c, s, 60, ins, k, 7777, &m);
            hash_obs(&mut c, 60, &m2, keys);
            c.op(&[210, 60]).free();
        }
    }
    for (slot, m) in &versions {
        hash_obs(&mut c, *slot, m, keys);
    }
    c.op(&[217, s, 61]);
    hash_obs(&mut c, 61, &m, keys);
    c.op(&[218, s, 62, 207, s, 61, 207, 62, s]).expect(&[1, 1]);
    let m3 = step(&mut c, 61, 61, true, 0, 4242, &m);
    c.op(&[207, s, 61, 207, 61, s]).expect(&[(m3 == m) as u64, (m3 == m) as u64]);
    hash_obs(&mut c, s, &m, keys);
    c.key = format!("persistent-hash-map/after/{:?}/{:?}", keys, h);
    c.what = format!("std/persistent/hash-map: every insert/remove after history {:?} (insert?, key index); keys (label, hash part) {:?}", h, keys);
    c
}

fn hash_bfs(o: &Opts, rep: &Report, exe: &str, name: &str, keys: &[(u64, u64)], nmax: usize) {
    let mut seen = HashSet::new();
    let mut frontier: Vec<(Vec<(bool, usize)>, Vec<usize>)> = vec![(vec![], vec![])];
    let mut queued: HashSet<(Vec<usize>, u64)> = HashSet::new();
    let (mut trans, mut runs, mut depth) = (0u64, 0u64, 0u64);
    while !frontier.is_empty() && rep.nviol.load(std::sync::atomic::Ordering::SeqCst) == 0 {
        let cases: Vec<_> = frontier.iter().map(|(h, _)| hash_state(h, keys)).collect();
        runs += cases.len() as u64;
        let res = run_cases(o, rep, exe, name, &cases);
        let mut nf = vec![];
        for (f, (h, set)) in res.into_iter().zip(&frontier) {
            let Some(f) = f else { continue };
            trans += 2 * keys.len() as u64;
            if !seen.insert((set.clone(), f.clone())) {
                continue;
            }
            for ins in [true, false] {
                for k in 0..keys.len() {
                    if set.contains(&k) == ins {
                        continue;
                    }
                    let mut s2 = set.clone();
                    if ins {
                        s2.push(k);
                        s2.sort();
                    } else {
                        s2.retain(|x| *x != k);
                    }
                    if s2.len() > nmax {
                        continue;
                    }
                    // successors that list their elements in the same order are expanded up to 3 times
                    let d = f[1 + if ins { k } else { keys.len() + k }];
                    let tag = (0..3).find(|t| !queued.contains(&(s2.clone(), d.wrapping_add(*t))));
                    let Some(t) = tag else { continue };
                    queued.insert((s2.clone(), d.wrapping_add(t)));
                    let mut h2 = h.clone();
                    h2.push((ins, k));
                    nf.push((h2, s2));
                }
            }
        }
        frontier = nf;
        depth += 1;
    }
    rep.cover(name, &[("states", seen.len() as u64), ("transitions", trans), ("traces_validated_against_impl", runs), ("depth", depth), ("keys", keys.len() as u64), ("max_elements", nmax as u64)],
        &[("state_identity", "element set, iteration order of the version and of each of its one-operation successors")]);
}

pub fn main(o: &Opts, rep: &Report) {
    let exe = &o.exes[0];
    ord_pairs(o, rep, exe, if o.thorough { 5 } else { 4 });
    ord_bfs(o, rep, exe, if o.thorough { 14 } else { 10 });
    let hs = hashes(o, exe, if o.thorough { 2_000_000 } else { 200_000 });
    let mut by: HashMap<(u32, u64), Vec<u64>> = HashMap::new();
    for bits in [5u32, 10, 15] {
        for (i, h) in hs.iter().enumerate() {
            by.entry((bits, h & ((1 << bits) - 1))).or_default().push(i as u64);
        }
    }
    let a = 0u64;
    let low = |bits: u32| hs.get(a as usize).map_or(0, |h| h & ((1 << bits) - 1));
    let agree = |bits: u32, not: u32| {
        by.get(&(bits, low(bits))).into_iter().flatten().copied().filter(|i| *i != a && hs[*i as usize] & ((1 << not) - 1) != low(not)).collect::<Vec<_>>()
    };
    let (g5, g10, g15) = (agree(5, 10), agree(10, 15), agree(15, 20));
    let pick = |v: &Vec<u64>, i: usize, d: u64| v.get(i).copied().unwrap_or(d);
    // three true collisions, neighbours agreeing on 15, 10 and 5 bits, and colliding neighbours
    let k1 = vec![(1, a), (2, a), (3, a), (4, pick(&g15, 0, 3)), (5, pick(&g10, 0, 4)), (6, pick(&g5, 0, 5)), (7, pick(&g15, 0, 3))];
    // bits 31 and 0 of the first level
    let at = |v: u64| hs.iter().position(|h| h & 31 == v).unwrap_or(9) as u64;
    let at2 = |v: u64, w: u64| hs.iter().position(|h| h & 31 == v && (h >> 5) & 31 == w).unwrap_or(9) as u64;
    let k2 = vec![(1, at2(31, 31)), (2, at2(31, 0)), (3, at2(0, 31)), (4, at2(0, 0)), (5, at(1)), (6, at(30)), (7, at2(31, 0)), (8, at2(31, 5))];
    hash_bfs(o, rep, exe, "persistent-hash-map-collisions", &k1, 7);
    hash_bfs(o, rep, exe, "persistent-hash-map-edges", &k2, 8);
    if o.thorough {
        let k3 = vec![(1, a), (2, a), (3, pick(&g15, 0, 3)), (4, pick(&g15, 1, 3)), (5, pick(&g15, 0, 3)), (6, pick(&g10, 0, 4)), (7, pick(&g10, 1, 4)), (8, pick(&g5, 0, 5)), (9, pick(&g5, 0, 5))];
        hash_bfs(o, rep, exe, "persistent-hash-map-mixed", &k3, 9);
    }
}
