//! Arrays and vectors against Vec: every operation with every small argument on every small sequence, every operation
//! sequence to a depth, and every out-of-range access.
use crate::harness::*;

type S = Vec<u64>;

fn put(c: &mut Case, d: u64, a: &[u64]) {
    c.op(&[1, d, a.len() as u64]).op(a);
}
fn exp_arr(c: &mut Case, a: &[u64]) {
    c.expect(&[a.len() as u64, a.is_empty() as u64]).expect(a).expect(a);
    c.exp.extend(a.iter().rev());
}
fn obs(c: &mut Case, d: u64, a: &[u64]) {
    c.op(&[2, d]);
    exp_arr(c, a);
}
fn obs_vec(c: &mut Case, d: u64, a: &[u64]) {
    c.op(&[54, d]).expect(&[a.len() as u64, a.is_empty() as u64, 1]).expect(a).expect(a);
    c.exp.extend(a.iter().rev());
    c.expect(&[1]);
}
fn ord(o: std::cmp::Ordering) -> u64 {
    (o as i8 + 1) as u64
}

/// (op name, words, result or None when out of range); the array is in slot 0
fn array_ops(rep: &mut Vec<(Case, bool)>, a: &S) {
    let n = a.len() as u64;
    let mut one = |name: String, f: &dyn Fn(&mut Case) -> bool| {
        let mut c = Case::new();
        put(&mut c, 0, a);
        let ok = f(&mut c);
        c.key = format!("array/{}/{:?}", name, a);
        c.what = format!("array/{} on {:?}", name, a);
        rep.push((c, ok));
    };
    for i in 0..=n + 2 {
        let iu = i as usize;
        let inr = i < n;
        one(format!("get {}", i), &|c| {
            c.op(&[4, 0, i]);
            if inr {
                c.expect(&[a[iu]]);
            }
            inr
        });
        one(format!("get? {}", i), &|c| {
            c.op(&[5, 0, i]).expect_opt(a.get(iu).copied());
            true
        });
        one(format!("set! {}", i), &|c| {
            c.op(&[27, 0, 1, 6, 0, i, 77]);
            if inr {
                let mut b = a.clone();
                b[iu] = 77;
                obs(c, 0, &b);
                obs(c, 1, a);
            }
            inr
        });
        one(format!("ref {}", i), &|c| {
            c.op(&[7, 0, i, 77]);
            if inr {
                c.expect(&[a[iu], 77]);
                let mut b = a.clone();
                b[iu] = 77;
                obs(c, 0, &b);
            }
            inr
        });
        for j in 0..=n + 2 {
            one(format!("subarray {} {}", i, j), &|c| {
                c.op(&[8, 0, i, j]);
                let ok = i <= j && j <= n;
                if ok {
                    exp_arr(c, &a[iu..j as usize]);
                    obs(c, 0, a);
                }
                ok
            });
            one(format!("swap! {} {}", i, j), &|c| {
                c.op(&[25, 0, i, j]);
                let ok = inr && j < n;
                if ok {
                    let mut b = a.clone();
                    b.swap(iu, j as usize);
                    obs(c, 0, &b);
                }
                ok
            });
        }
        let k = iu.min(a.len());
        one(format!("take {}", i), &|c| {
            c.op(&[9, 0, i]);
            exp_arr(c, &a[..k]);
            true
        });
        one(format!("skip {}", i), &|c| {
            c.op(&[10, 0, i]);
            exp_arr(c, &a[k..]);
            true
        });
        one(format!("split-at {}", i), &|c| {
            c.op(&[11, 0, i]);
            if i <= n {
                exp_arr(c, &a[..iu]);
                exp_arr(c, &a[iu..]);
            }
            i <= n
        });
        one(format!("split-at? {}", i), &|c| {
            c.op(&[14, 0, i]).expect(&[(i <= n) as u64]);
            if i <= n {
                exp_arr(c, &a[..iu]);
                exp_arr(c, &a[iu..]);
            }
            true
        });
        // new arrays: the source stays, and changing the new one does not change it
        let fresh = |c: &mut Case, b: &S| {
            obs(c, 1, b);
            obs(c, 0, a);
            c.op(&[23, 1, 88]);
            obs(c, 1, &vec![88; b.len()]);
            obs(c, 0, a);
        };
        one(format!("insert {}", i), &|c| {
            c.op(&[17, 0, 1, i, 55]);
            if i <= n {
                let mut b = a.clone();
                b.insert(iu, 55);
                fresh(c, &b);
            }
            i <= n
        });
        one(format!("update {}", i), &|c| {
            c.op(&[20, 0, 1, i, 55]);
            if inr {
                let mut b = a.clone();
                b[iu] = 55;
                fresh(c, &b);
            }
            inr
        });
        one(format!("remove {}", i), &|c| {
            c.op(&[21, 0, 1, i]);
            if inr {
                let mut b = a.clone();
                b.remove(iu);
                fresh(c, &b);
            }
            inr
        });
        // windows share their memory with the array: copying into a window
        for m in 0..=2u64 {
            let y: S = (0..m).map(|x| 200 + x).collect();
            let y2 = y.clone();
            one(format!("copy! {:?} into skip {}", y, i), &move |c| {
                put(c, 1, &y2);
                c.op(&[34, 0, i, 1]);
                let ok = m <= n - i.min(n);
                if ok {
                    let mut b = a.clone();
                    if iu <= b.len() {
                        b[iu..iu + m as usize].copy_from_slice(&y2);
                    }
                    obs(c, 0, &b);
                    obs(c, 1, &y2);
                }
                ok
            });
        }
    }
    for (op, first) in [(12u64, true), (13, false), (15, true), (16, false)] {
        one(format!("split-{}{}", if first { "first" } else { "last" }, if op > 14 { "?" } else { "" }), &|c| {
            c.op(&[op, 0]);
            if op > 14 {
                c.expect(&[(n > 0) as u64]);
            }
            if n > 0 {
                if first {
                    c.expect(&[a[0]]);
                    exp_arr(c, &a[1..]);
                } else {
                    c.expect(&[a[a.len() - 1]]);
                    exp_arr(c, &a[..a.len() - 1]);
                }
            }
            n > 0 || op > 14
        });
    }
    one("push, unshift, reverse!, copies, fill!, iterators".into(), &|c| {
        obs(c, 0, a);
        c.op(&[18, 0, 1, 55, 19, 0, 2, 56]);
        obs(c, 1, &[&a[..], &[55]].concat());
        obs(c, 2, &[&[56], &a[..]].concat());
        obs(c, 0, a);
        c.op(&[27, 0, 3, 28, 0, 4, 32, 0, 5, 26, 0]);
        let r: S = a.iter().rev().copied().collect();
        obs(c, 0, &r);
        for s in 3..=5 {
            obs(c, s, a);
        }
        c.op(&[35, 4]);
        for i in 0..a.len() + 2 {
            c.expect_opt(a.get(i).copied());
            c.expect_opt(r.get(i).copied());
        }
        c.op(&[31, 9, 0, 23, 3, 66, 3, 6, 44, n, 30, 7, n]);
        obs(c, 0, &(0..n).map(|i| 10 + i).collect::<S>());
        obs(c, 3, &vec![66; a.len()]);
        obs(c, 6, &vec![44; a.len()]);
        obs(c, 7, &(1..=n).collect::<S>());
        true
    });
}

fn pairs(cases: &mut Vec<(Case, bool)>, all: &[S]) {
    for a in all {
        for b in all {
            let mut c = Case::new();
            put(&mut c, 0, a);
            put(&mut c, 1, b);
            let (e, o) = ((a == b) as u64, ord(a.cmp(b)));
            c.op(&[29, 0, 1]).expect(&[e, o, e, o]);
            c.op(&[22, 0, 1, 2]);
            obs(&mut c, 2, &[&a[..], &b[..]].concat());
            let ok = a.len() <= b.len();
            if ok {
                c.op(&[24, 0, 1]);
                let mut d = b.clone();
                d[..a.len()].copy_from_slice(a);
                obs(&mut c, 1, &d);
            }
            obs(&mut c, 0, a);
            if !ok {
                c.op(&[24, 0, 1]);
            }
            c.key = format!("array/pair/{:?}/{:?}", a, b);
            c.what = format!("eq?, compare, concat, copy! of {:?} and {:?}", a, b);
            cases.push((c, ok));
        }
    }
}

#[derive(Clone)]
struct V {
    s: S,
    consumed: Vec<(u64, S)>,
    moved: Option<S>,
    next: u64,
}

/// Applies op number `k` to the vector in slot 0. None: out of range (stops the program). The flag says whether the
/// operation belongs to the structural subset.
const NOPS: usize = 40;
fn vec_op(c: &mut Case, v: &mut V, k: usize) -> Option<String> {
    let n = v.s.len();
    let nu = n as u64;
    v.next += 1;
    let x = 10 + v.next % 200;
    let name;
    macro_rules! nm { ($($t:tt)*) => { name = format!($($t)*) } }
    match k {
        0 => {
            nm!("push!");
            c.op(&[55, 0, x]);
            v.s.push(x);
        }
        1..=3 => {
            let i = [0, n / 2, n][k - 1];
            nm!("insert! {}", i);
            c.op(&[56, 0, i as u64, x]);
            v.s.insert(i, x);
        }
        4 => {
            nm!("pop!");
            c.op(&[57, 0]).expect_opt(v.s.pop());
        }
        5..=7 => {
            if n == 0 {
                return None;
            }
            let i = [0, n / 2, n - 1][k - 5];
            nm!("remove! {}", i);
            c.op(&[58, 0, i as u64]).expect(&[v.s.remove(i)]);
        }
        8..=10 => {
            if n == 0 {
                return None;
            }
            let i = [0, n / 2, n - 1][k - 8];
            nm!("swap-remove! {}", i);
            c.op(&[59, 0, i as u64]).expect(&[v.s.swap_remove(i)]);
        }
        11..=13 => {
            let i = [n / 2, n, n + 2][k - 11];
            nm!("truncate! {}", i);
            c.op(&[60, 0, i as u64]);
            v.s.truncate(i);
        }
        14 => {
            nm!("clear!");
            c.op(&[61, 0]);
            v.s.clear();
        }
        15..=17 => {
            let i = [0, 1, n][k - 15];
            if i > n {
                return None;
            }
            nm!("consume! {}", i);
            let slot = 1 + v.next % 7;
            c.op(&[62, 0, slot, i as u64]);
            v.consumed.retain(|x| x.0 != slot);
            v.consumed.push((slot, v.s.drain(..i).collect()));
        }
        18 => {
            nm!("consume-all!");
            let slot = 1 + v.next % 7;
            c.op(&[63, 0, slot]);
            v.consumed.retain(|x| x.0 != slot);
            v.consumed.push((slot, std::mem::take(&mut v.s)));
        }
        19..=21 => {
            let m = [0, 1, 3][k - 19];
            nm!("append! {} elements", m);
            c.op(&[64, 0, m]);
            for i in 0..m {
                c.op(&[x + i]);
                v.s.push(x + i);
            }
        }
        22..=25 => {
            let (r, e) = [(nu + 1, 1), (nu + 1, 0), (0, 1), (3, 0)][k - 22];
            nm!("reserve-capacity! {} {}", r, e);
            c.op(&[65, 0, r, e]).expect(&[1]);
        }
        26..=28 => {
            let (r, e) = [(0, 1), (1, 1), (3, 0)][k - 26];
            nm!("reserve-free! {} {}", r, e);
            c.op(&[66, 0, r, e]).expect(&[1]);
        }
        29 => {
            nm!("reverse!");
            c.op(&[67, 0]);
            v.s.reverse();
        }
        30 => {
            if n < 2 {
                return None;
            }
            nm!("swap! 0 {}", n - 1);
            c.op(&[68, 0, 0, nu - 1]);
            v.s.swap(0, n - 1);
        }
        31 => {
            nm!("fill!");
            c.op(&[69, 0, x]);
            v.s.fill(x);
        }
        32 => {
            nm!("move!");
            c.op(&[70, 0, 1]);
            v.moved = Some(std::mem::take(&mut v.s));
        }
        33..=35 => {
            nm!("{} into another slot, then change the original", ["shallow-copy", "deep-copy", "collect"][k - 33]);
            c.op(&[71 + (k as u64 - 33), 0, 1, 81, 0, 1]).expect(&[1]);
            v.moved = Some(v.s.clone());
            for (i, e) in v.s.iter_mut().enumerate() {
                c.op(&[76, 0, i as u64, 150 + i as u64]);
                *e = 150 + i as u64;
            }
        }
        36 => {
            if n == 0 {
                return None;
            }
            nm!("set! and ref at {}", n - 1);
            c.op(&[76, 0, nu - 1, x, 77, 0, nu - 1, x + 1]).expect(&[x, x + 1]);
            v.s[n - 1] = x + 1;
        }
        37 => {
            nm!("get?");
            for i in 0..n + 2 {
                c.op(&[75, 0, i as u64]).expect_opt(v.s.get(i).copied());
            }
        }
        38 => {
            nm!("fill!*");
            c.op(&[78, 0, x]);
            for i in 0..n {
                v.s[i] = x + 1 + i as u64;
            }
        }
        39 => {
            // the vector and the moved-out or copied one change places
            nm!("move back");
            let Some(m) = v.moved.take() else { return None };
            c.op(&[70, 1, 0]);
            v.s = m;
        }
        _ => unreachable!(),
    }
    Some(name)
}

fn starts(c: &mut Case, k: usize) -> V {
    let s: S = match k {
        0 => {
            c.op(&[50, 0]);
            vec![]
        }
        1 => {
            c.op(&[51, 0, 3]).expect(&[3]);
            vec![]
        }
        2 => {
            c.op(&[52, 0, 3, 1, 2, 3]);
            vec![1, 2, 3]
        }
        3 => {
            c.op(&[53, 0, 9, 2]);
            vec![9, 9]
        }
        4 => {
            c.op(&[79, 0, 4]);
            vec![1, 2, 3, 4]
        }
        _ => {
            c.op(&[80, 0, 5, 6]);
            vec![5, 6]
        }
    };
    V { s, consumed: vec![], moved: None, next: 0 }
}

fn vector_sequences(cases: &mut Vec<(Case, bool)>, depth: usize, ops: &[usize], start: &[usize]) -> u64 {
    let mut trans = 0;
    for &st in start {
        for code in 0..ops.len().pow(depth as u32) {
            let mut c = Case::new();
            let mut v = starts(&mut c, st);
            let mut x = code;
            let mut names = vec![];
            let mut ok = true;
            for _ in 0..depth {
                match vec_op(&mut c, &mut v, ops[x % ops.len()]) {
                    None => {
                        ok = false;
                        break;
                    }
                    Some(n) => names.push(n),
                }
                x /= ops.len();
                obs_vec(&mut c, 0, &v.s);
                for (slot, a) in &v.consumed {
                    obs(&mut c, *slot, a);
                }
                if let Some(m) = &v.moved {
                    obs_vec(&mut c, 1, m);
                }
            }
            if !ok {
                continue;
            }
            trans += depth as u64;
            c.key = format!("vector/start{}/{:?}", st, names);
            c.what = format!("std/vector from start {}: {:?}", st, names);
            cases.push((c, true));
        }
    }
    trans
}

fn vector_stops(cases: &mut Vec<(Case, bool)>) {
    for n in 0..=3u64 {
        for cap in [n, n + 3] {
            for i in n..=n + 3 {
                let mut ops: Vec<(&str, Vec<u64>)> = vec![
                    ("get", vec![74, 0, i]),
                    ("set!", vec![76, 0, i, 5]),
                    ("ref", vec![77, 0, i, 5]),
                    ("remove!", vec![58, 0, i]),
                    ("swap-remove!", vec![59, 0, i]),
                    ("swap!", vec![68, 0, i, 0]),
                    ("swap!", vec![68, 0, 0, i]),
                ];
                if i > n {
                    ops.push(("insert!", vec![56, 0, i, 5]));
                    ops.push(("consume!", vec![62, 0, 1, i]));
                }
                for (name, w) in ops {
                    let mut c = Case::new();
                    c.op(&[51, 0, cap]).expect(&[cap]);
                    for k in 0..n {
                        c.op(&[55, 0, k]);
                    }
                    c.op(&w);
                    c.key = format!("vector/{} out of range {:?} length {} capacity {}", name, &w[2..], n, cap);
                    c.what = c.key.clone();
                    cases.push((c, false));
                }
            }
        }
    }
}

fn go(o: &Opts, rep: &Report, exe: &str, part: &str, cases: Vec<(Case, bool)>, trans: u64) {
    let variant = &o.extra["variant"];
    let n = cases.len() as u64;
    let (ok, stop): (Vec<_>, Vec<_>) = cases.into_iter().partition(|c| c.1);
    let ok: Vec<Case> = ok.into_iter().map(|c| c.0).collect();
    let stop: Vec<Case> = stop.into_iter().map(|c| c.0).collect();
    run_cases(o, rep, exe, variant, &ok);
    run_stops(o, rep, exe, variant, &stop);
    rep.cover(&format!("{}-{}", part, variant), &[("states", n), ("transitions", trans), ("traces_validated_against_impl", n), ("must_stop_cases", stop.len() as u64)], &[]);
}

pub fn main(o: &Opts, rep: &Report) {
    let exe = &o.exes[0];
    let main_variant = o.extra["variant"] == "u64-chibi";
    let full = o.thorough || main_variant;
    let mut cases = vec![];
    let maxn = if full { 5 } else { 3 };
    for n in 0..=maxn {
        array_ops(&mut cases, &(0..n).map(|i| 20 + i).collect());
    }
    if !full {
        // stopping is shown on the main variant
        cases.retain(|c| c.1);
    }
    let k = cases.len() as u64;
    go(o, rep, exe, "array-operations", cases, k);
    let mut all: Vec<S> = vec![vec![]];
    for l in 1..=3usize {
        for code in 0..3usize.pow(l as u32) {
            all.push((0..l).map(|i| (code / 3usize.pow(i as u32) % 3) as u64).collect());
        }
    }
    let mut cases = vec![];
    pairs(&mut cases, &all);
    if !full {
        cases.retain(|c| c.1);
    }
    let k = cases.len() as u64;
    go(o, rep, exe, "array-pairs", cases, k);
    let all_ops: Vec<usize> = (0..NOPS).collect();
    let structural = [0, 1, 2, 4, 5, 9, 11, 14, 16, 18, 21, 22, 26, 28, 29, 32, 33, 39];
    let mut cases = vec![];
    let mut t = vector_sequences(&mut cases, if full { 3 } else { 2 }, &all_ops, if full { &[0, 2, 3] } else { &[0, 1, 2, 3, 4, 5] });
    t += vector_sequences(&mut cases, if main_variant { if o.thorough { 5 } else { 4 } } else { 3 }, &structural, if full { &[1, 2] } else { &[2] });
    if full {
        vector_stops(&mut cases);
    }
    go(o, rep, exe, "vector-sequences", cases, t);
}
