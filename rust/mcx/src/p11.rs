//! Class constraints: all small sets of instances against backward chaining, with the evidence checked and, in
//! compiled programs, the selected definitions observed.
use crate::common::*;
use crate::front::*;
use crate::harness::*;
use crate::sysf;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Con(&'static str),
    App(Box<Ty>, Vec<Ty>),
    Var(usize),
}
use Ty::*;

type Goal = (usize, Ty);

fn app(f: &'static str, a: Vec<Ty>) -> Ty {
    App(Box::new(Con(f)), a)
}
fn b(t: Ty) -> Ty {
    app("B", vec![t])
}
fn p(t: Ty, u: Ty) -> Ty {
    app("P", vec![t, u])
}
const VARS: [&str; 4] = ["va", "vb", "vf", "vx"];

impl Ty {
    fn text(&self) -> String {
        match self {
            Con(c) => c.to_string(),
            Var(v) => VARS[*v].to_string(),
            App(f, a) => format!("({}{})", f.text(), a.iter().map(|a| format!(" {}", a.text())).collect::<String>()),
        }
    }
    fn shift(&self, by: usize) -> Ty {
        match self {
            Var(v) => Var(v + by),
            App(f, a) => App(Box::new(f.shift(by)), a.iter().map(|a| a.shift(by)).collect()),
            t => t.clone(),
        }
    }
    fn subst(&self, s: &HashMap<usize, Ty>) -> Ty {
        match self {
            Var(v) => s.get(v).map(|t| t.subst(s)).unwrap_or_else(|| self.clone()),
            App(f, a) => App(Box::new(f.subst(s)), a.iter().map(|a| a.subst(s)).collect()),
            t => t.clone(),
        }
    }
    fn occurs(&self, v: usize) -> bool {
        match self {
            Var(w) => *w == v,
            App(f, a) => f.occurs(v) || a.iter().any(|a| a.occurs(v)),
            Con(_) => false,
        }
    }
}

fn unify(a: &Ty, b: &Ty, s: &mut HashMap<usize, Ty>) -> bool {
    let (a, b) = (a.subst(s), b.subst(s));
    match (&a, &b) {
        _ if a == b => true,
        (Var(v), t) | (t, Var(v)) => {
            // the kinds: a variable that is applied never meets anything but a constructor of one argument here
            if t.occurs(*v) {
                return false;
            }
            s.insert(*v, t.clone());
            true
        }
        (App(f, x), App(g, y)) => x.len() == y.len() && unify(f, g, s) && x.iter().zip(y).all(|(x, y)| unify(x, y, s)),
        _ => false,
    }
}

/// The pattern's variables, bound so that it becomes `t` (whose own variables are constants).
fn matches(pat: &Ty, t: &Ty, s: &mut HashMap<usize, Ty>) -> bool {
    match (pat, t) {
        (Var(v), t) => match s.get(v) {
            Some(u) => u == t,
            None => {
                s.insert(*v, t.clone());
                true
            }
        },
        (Con(a), Con(b)) => a == b,
        (App(f, x), App(g, y)) => x.len() == y.len() && matches(f, g, s) && x.iter().zip(y).all(|(x, y)| matches(x, y, s)),
        _ => false,
    }
}

#[derive(Clone, Debug)]
struct Inst {
    class: usize,
    head: Ty,
    ctx: Vec<Goal>,
    vars: Vec<usize>,
}

/// What class D (1) requires of its argument besides: class C (0) of ..
#[derive(Clone, Copy, PartialEq, Debug)]
enum Super {
    Same,
    Boxed,
    None,
}
const SUPERS: [Super; 3] = [Super::Same, Super::Boxed, Super::None];

impl Super {
    fn of(self, t: &Ty) -> Option<Goal> {
        match self {
            Super::Same => Some((0, t.clone())),
            Super::Boxed => Some((0, b(t.clone()))),
            Super::None => None,
        }
    }
    fn close(self, prem: &[Goal]) -> Vec<Goal> {
        let mut v = prem.to_vec();
        v.extend(prem.iter().filter(|g| g.0 == 1).filter_map(|g| self.of(&g.1)));
        v
    }
}

/// A proof by instances: the index of the instance and the proofs of its context.
struct Proof(usize, Vec<Proof>);

/// Some(None) is a proof by assumption.
fn derive(insts: &[Inst], prem: &[Goal], g: &Goal, fuel: usize) -> Option<Option<Proof>> {
    if prem.contains(g) {
        return Some(None);
    }
    if fuel == 0 {
        return None;
    }
    for (i, inst) in insts.iter().enumerate() {
        let mut s = HashMap::new();
        if inst.class == g.0 && matches(&inst.head.shift(100), &g.1, &mut s) {
            let subs: Option<Vec<_>> = inst
                .ctx
                .iter()
                .map(|c| derive(insts, prem, &(c.0, c.1.shift(100).subst(&s)), fuel - 1))
                .collect();
            return subs.map(|v| {
                let v: Option<Vec<Proof>> = v.into_iter().collect();
                Some(Proof(i, v.unwrap_or_default()))
            });
        }
    }
    None
}

fn holds(insts: &[Inst], prem: &[Goal], g: &Goal) -> bool {
    derive(insts, prem, g, 12).is_some()
}

fn overlapping(insts: &[Inst], class: usize) -> bool {
    insts.iter().enumerate().any(|(i, a)| {
        insts[..i]
            .iter()
            .any(|b| a.class == class && b.class == class && unify(&a.head.shift(100), &b.head.shift(200), &mut HashMap::new()))
    })
}

/// The instances agree with each other, and those of D satisfy what the class requires.
fn consistent(insts: &[Inst], sup: Super) -> bool {
    !overlapping(insts, 0)
        && !overlapping(insts, 1)
        && insts.iter().all(|i| {
            i.class == 0 || sup.of(&i.head).map_or(true, |g| holds(insts, &sup.close(&i.ctx), &g))
        })
}

fn pool() -> Vec<Inst> {
    let (va, vb) = (Var(0), Var(1));
    let mut v = vec![];
    let mut add = |class: usize, head: &Ty, vars: &[usize], ctxs: &[Vec<Goal>]| {
        for ctx in ctxs {
            v.push(Inst { class, head: head.clone(), ctx: ctx.clone(), vars: vars.to_vec() });
        }
    };
    let none = vec![vec![]];
    let one = |t: &Ty| vec![vec![], vec![(0, t.clone())], vec![(1, t.clone())]];
    add(0, &Con("T1"), &[], &none);
    add(0, &Con("T2"), &[], &none);
    add(0, &b(va.clone()), &[0], &one(&va));
    add(0, &va, &[0], &[vec![], vec![(1, va.clone())], vec![(0, va.clone())]]);
    add(0, &b(Con("T1")), &[], &none);
    add(0, &b(b(va.clone())), &[0], &[vec![], vec![(0, va.clone())]]);
    add(0, &p(va.clone(), vb.clone()), &[0, 1], &[vec![], vec![(0, va.clone())], vec![(0, vb.clone())], vec![(0, vb.clone()), (0, va.clone())], vec![(1, va.clone()), (0, vb.clone())]]);
    add(0, &p(va.clone(), va.clone()), &[0], &[vec![], vec![(0, va.clone())]]);
    add(0, &p(va.clone(), Con("T1")), &[0], &[vec![], vec![(0, va.clone())]]);
    add(0, &p(Con("T1"), va.clone()), &[0], &[vec![], vec![(0, b(va.clone()))]]);
    add(0, &App(Box::new(Var(2)), vec![va.clone()]), &[2, 0], &[vec![], vec![(0, va.clone())]]);
    add(0, &b(va.clone()), &[0], &[vec![(0, b(b(va.clone())))]]);
    add(1, &Con("T1"), &[], &none);
    add(1, &Con("T2"), &[], &none);
    add(1, &b(va.clone()), &[0], &one(&va));
    add(1, &va, &[0], &[vec![], vec![(0, va.clone())], vec![(0, b(va.clone()))]]);
    add(1, &b(Con("T1")), &[], &none);
    add(1, &p(va.clone(), vb.clone()), &[0, 1], &[vec![], vec![(1, va.clone()), (1, vb.clone())], vec![(0, va.clone()), (1, vb.clone())]]);
    v
}

const CLASS: [&str; 2] = ["C", "D"];
const METH: [&str; 2] = ["c", "d"];

fn goal_text(g: &Goal) -> String {
    format!("({} {})", CLASS[g.0], g.1.text())
}

fn wheres(gs: &[Goal]) -> String {
    match gs {
        [] => String::new(),
        _ => format!(" (where{})", gs.iter().map(|g| format!(" {}", goal_text(g))).collect::<String>()),
    }
}

fn forall(vars: &[usize]) -> String {
    match vars {
        [] => String::new(),
        _ => format!("(forall{}) ", vars.iter().map(|v| format!(" {}", VARS[*v])).collect::<String>()),
    }
}

fn inst_text(name: &str, i: &Inst) -> String {
    let m = METH[i.class];
    format!("(instance {} {}{}{} (function ({} x) unit))\n", name, forall(&i.vars), goal_text(&(i.class, i.head.clone())), wheres(&i.ctx), m)
}

const TYPES: &str = "(data T1 t1) (data T2 t2) (data (B A) b) (data (P A A2) p) (function any {(forall Z) Z} any)\n";

fn classes(sup: Super) -> String {
    let w = sup.of(&Con("X")).map_or(String::new(), |g| format!(" (where {})", goal_text(&g)));
    format!("(class (C X) (function (c x) {{(-> X unit)}}))\n(class (D X){} (function (d x) {{(-> X unit)}}))\n", w)
}

const HEAD: &str = "(no-implicit-std) (import \"builtin\" _)\n";

struct UseOf {
    text: String,
    prem: Vec<Goal>,
    goals: Vec<Goal>,
}

fn ground() -> Vec<Ty> {
    let (t1, t2) = (Con("T1"), Con("T2"));
    vec![
        t1.clone(),
        t2.clone(),
        b(t1.clone()),
        b(t2.clone()),
        b(b(t1.clone())),
        b(b(b(t2.clone()))),
        p(t1.clone(), t1.clone()),
        p(t1.clone(), t2.clone()),
        p(t2.clone(), t1.clone()),
        p(t2.clone(), t2.clone()),
        p(b(t1.clone()), b(t1.clone())),
        p(b(t1.clone()), t1.clone()),
        b(p(t1, t2)),
    ]
}

fn uses(full: bool) -> Vec<UseOf> {
    let mut v = vec![];
    let va = Var(0);
    for t in ground() {
        for c in 0..2 {
            v.push(UseOf { text: format!("({} any{{{}}})", METH[c], t.text()), prem: vec![], goals: vec![(c, t.clone())] });
        }
    }
    // in a function with assumptions
    let prems = vec![
        vec![],
        vec![(0, va.clone())],
        vec![(1, va.clone())],
        vec![(0, b(va.clone()))],
        vec![(1, b(va.clone()))],
        vec![(0, b(b(va.clone())))],
        vec![(0, va.clone()), (1, Var(1))],
    ];
    let open = vec![va.clone(), b(va.clone()), b(b(va.clone())), p(va.clone(), Con("T1")), p(va.clone(), va.clone()), p(va.clone(), Var(1)), Var(1), Con("T1"), b(Var(1))];
    for prem in &prems {
        for t in &open {
            for c in 0..2 {
                v.push(UseOf {
                    text: format!("(function u {{(forall va vb) unit{}}} ({} any{{{}}}))", wheres(prem), METH[c], t.text()),
                    prem: prem.clone(),
                    goals: vec![(c, t.clone())],
                });
                if !full {
                    continue;
                }
                // the same within a local function that is polymorphic itself, used at a ground type
                v.push(UseOf {
                    text: format!(
                        "(function u {{(forall va vb) unit{}}} (let ([(g y) (begin ({} y) ({} any{{{}}}))]) (g any{{T1}})))",
                        wheres(prem), METH[1 - c], METH[c], t.text()
                    ),
                    prem: prem.clone(),
                    goals: vec![(c, t.clone()), (1 - c, Con("T1"))],
                });
            }
        }
    }
    // through functions whose constraints are inferred
    for t in ground().into_iter().take(9) {
        for c in 0..2 {
            let m = METH[c];
            v.push(UseOf { text: format!("(function (f x) ({} x)) (f any{{{}}})", m, t.text()), prem: vec![], goals: vec![(c, t.clone())] });
            v.push(UseOf {
                text: format!("(function (wrap x) {{(forall va) (-> va (B va))}} b) (function (f x) ({} (wrap x))) (f any{{{}}})", m, t.text()),
                prem: vec![],
                goals: vec![(c, b(t.clone()))],
            });
            v.push(UseOf {
                text: format!("(function (f x) (begin (c x) (g x))) (function (g x) (begin ({} x) (f x))) (g any{{{}}})", m, t.text()),
                prem: vec![],
                goals: vec![(0, t.clone()), (c, t.clone())],
            });
            for u in [Con("T1"), b(Con("T1"))] {
                v.push(UseOf {
                    text: format!("(let ([(g y) ({} y)]) (begin (g any{{{}}}) (g any{{{}}})))", m, t.text(), u.text()),
                    prem: vec![],
                    goals: vec![(c, t.clone()), (c, u)],
                });
            }
        }
    }
    v
}

struct Counts {
    programs: AtomicU64,
    accepted: AtomicU64,
    proofs: AtomicU64,
}

fn expect(rep: &Report, front: &Front, key: &str, text: &str, ok: Option<bool>, n: &Counts) -> bool {
    n.programs.fetch_add(1, SeqCst);
    match (front.check(text), ok) {
        (Built::Ok(m), Some(true) | None) => {
            n.accepted.fetch_add(1, SeqCst);
            match sysf::check(front, &m) {
                Ok((_, p)) => {
                    n.proofs.fetch_add(p, SeqCst);
                    return true;
                }
                Err(e) => rep.violation(key, &format!("wrong evidence: {} -- {}", e, text), text),
            }
        }
        (Built::Rejected(_), Some(false) | None) => return true,
        (Built::Rejected(f), Some(true)) => {
            let f: String = f.text.chars().take(300).collect();
            rep.violation(key, &format!("rejected although its constraints follow: {} -- {}", f, text), text)
        }
        (Built::Ok(_), Some(false)) => rep.violation(key, &format!("accepted although its constraints do not follow or its instances conflict: {}", text), text),
        (b, _) => rep.violation(key, &format!("{}: {}", b.describe(), text), text),
    }
    false
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..k {
        last = last.iter().flat_map(|s: &Vec<usize>| (s.last().map_or(0, |l| l + 1)..n).map(move |i| [&s[..], &[i]].concat())).collect();
        v.extend(last.iter().cloned());
    }
    v
}

fn one_module(o: &Opts, rep: &Report) {
    let pool = pool();
    let sets = subsets(pool.len(), 3);
    let few = uses(false);
    let full = uses(true);
    let front = Front::new(&[]);
    let n = Counts { programs: AtomicU64::new(0), accepted: AtomicU64::new(0), proofs: AtomicU64::new(0) };
    let valid = AtomicU64::new(0);
    sweep(o.jobs, (sets.len() * 3) as u64, |i| {
        let set = &sets[i as usize / 3];
        let sup = SUPERS[i as usize % 3];
        if set.len() == 3 && sup != Super::Same && !o.thorough {
            return true;
        }
        let insts: Vec<Inst> = set.iter().map(|i| pool[*i].clone()).collect();
        let ok = consistent(&insts, sup);
        let base = format!("{}{}{}", HEAD, TYPES, classes(sup));
        let decls: Vec<String> = insts.iter().enumerate().map(|(k, i)| inst_text(&format!("I{}", k), i)).collect();
        let key = format!("set/{:?}/{:?}", sup, set);
        let fwd: String = decls.concat();
        let rev: String = decls.iter().rev().cloned().collect();
        expect(rep, &front, &format!("{}/", key), &format!("{}{}", base, fwd), Some(ok), &n);
        expect(rep, &front, &format!("{}/rev", key), &format!("{}{}", rev, base), Some(ok), &n);
        if !ok {
            return rep.nviol.load(SeqCst) < 40;
        }
        valid.fetch_add(1, SeqCst);
        let us = if set.len() < 3 || o.thorough { &full } else { &few };
        for (j, u) in us.iter().enumerate() {
            let prem = sup.close(&u.prem);
            let ok = u.goals.iter().all(|g| holds(&insts, &prem, g));
            let text = if j % 2 == 0 { format!("{}{}{}", base, fwd, u.text) } else { format!("{}{}{}", rev, base, u.text) };
            expect(rep, &front, &format!("{}/{}", key, j), &text, Some(ok), &n);
        }
        rep.nviol.load(SeqCst) < 40
    });
    rep.cover(
        "sets of instances",
        &[
            ("instances", pool.len() as u64),
            ("sets", sets.len() as u64),
            ("consistent_sets", valid.load(SeqCst)),
            ("programs", n.programs.load(SeqCst)),
            ("accepted", n.accepted.load(SeqCst)),
            ("proofs_checked", n.proofs.load(SeqCst)),
        ],
        &[],
    );
}

fn modules(o: &Opts, rep: &Report) {
    let all = pool();
    // a smaller pool: C T1, C (B a) <= C a, C a, C (B T1), D T1, D (B a) <= D a, D a <= C a
    let small: Vec<Inst> = all
        .iter()
        .filter(|i| match (i.class, &i.head, i.ctx.len()) {
            (0, Con("T1"), _) => true,
            (0, Var(_), 0) => true,
            (0, h, n) if *h == b(Var(0)) => n == 1 && i.ctx[0] == (0, Var(0)),
            (0, h, _) if *h == b(Con("T1")) => true,
            (1, Con("T1"), _) => true,
            (1, h, 1) if *h == b(Var(0)) => i.ctx[0].0 == 1,
            (1, Var(_), 1) => i.ctx[0] == (0, Var(0)),
            _ => false,
        })
        .cloned()
        .collect();
    let sets = subsets(small.len(), 3);
    let n = Counts { programs: AtomicU64::new(0), accepted: AtomicU64::new(0), proofs: AtomicU64::new(0) };
    let graphs = AtomicU64::new(0);
    let us: Vec<UseOf> = uses(false).into_iter().filter(|u| u.goals.iter().all(|g| !g.1.text().contains('P') && !g.1.text().contains("T2"))).collect();
    // the quick tier uses the ground goals and a few of the others
    let us: Vec<UseOf> = us.into_iter().enumerate().filter(|(j, u)| o.thorough || j % 5 == 0 || u.prem.is_empty() && *j < 8).map(|(_, u)| u).collect();
    let sups = [Super::Same, Super::None];
    sweep(o.jobs, (sets.len() * 2) as u64, |i| {
        let set = &sets[i as usize / 2];
        let sup = sups[i as usize % 2];
        let insts: Vec<Inst> = set.iter().map(|i| small[*i].clone()).collect();
        let base = format!("{}(export _)\n{}{}", HEAD, TYPES, classes(sup));
        let head = format!("{}(import \"base\" _)\n", HEAD);
        // where each instance lives: m1, m2 or the main module
        for place in 0..3usize.pow(set.len() as u32) {
            let at: Vec<usize> = (0..set.len()).map(|k| place / 3usize.pow(k as u32) % 3).collect();
            // whether m2 imports the instances of m1
            for chain in [false, true] {
                let mut front = Front::new(&[("base", &base)]);
                let mut fine = true;
                for m in 0..2 {
                    let seen: Vec<usize> = (0..set.len()).filter(|k| at[*k] == m || (chain && m == 1 && at[*k] == 0)).collect();
                    let ok = consistent(&seen.iter().map(|k| insts[*k].clone()).collect::<Vec<_>>(), sup);
                    let mut text = format!("{}(export _)\n", head);
                    if chain && m == 1 {
                        text += "(import \"m0\" _)\n";
                    }
                    for k in 0..set.len() {
                        if at[k] == m {
                            text += &inst_text(&format!("I{}", k), &insts[k]);
                        }
                    }
                    let key = format!("modules/{:?}/{}/{}/{}", set, place, chain, m);
                    let want = if ok { Some(true) } else { expected(&insts, &seen, &at, m, sup) };
                    n.programs.fetch_add(1, SeqCst);
                    match front.build(format!("m{}", m).parse().unwrap(), &text) {
                        Built::Ok(_) if want != Some(false) => front.add(format!("m{}", m).parse().unwrap(), &text),
                        Built::Rejected(_) if want != Some(true) => fine = false,
                        bu => {
                            rep.violation(&key, &format!("a module that should {}be accepted: {}: {}", if want == Some(true) { "" } else { "not " }, bu.describe(), text), &text);
                            fine = false;
                        }
                    }
                    if !fine {
                        break;
                    }
                }
                if !fine {
                    continue;
                }
                graphs.fetch_add(1, SeqCst);
                // all choices of instances to import by name
                for pick in 0..1usize << set.len() {
                    if (0..set.len()).any(|k| pick >> k & 1 == 1 && at[k] == 2) {
                        continue;
                    }
                    let seen: Vec<usize> = (0..set.len()).filter(|k| at[*k] == 2 || pick >> k & 1 == 1).collect();
                    let vis: Vec<Inst> = seen.iter().map(|k| insts[*k].clone()).collect();
                    let mut text = head.clone();
                    // in both orders of the modules
                    for m in if pick % 2 == 0 { [0, 1] } else { [1, 0] } {
                        let names: String = (0..set.len()).filter(|k| at[*k] == m && pick >> k & 1 == 1).map(|k| format!(" I{}", k)).collect();
                        let _ = writeln!(text, "(import \"m{}\"{})", m, names);
                    }
                    for k in 0..set.len() {
                        if at[k] == 2 {
                            text += &inst_text(&format!("I{}", k), &insts[k]);
                        }
                    }
                    let own_ok = (0..set.len()).filter(|k| at[*k] == 2 && insts[*k].class == 1).all(|k| {
                        sup.of(&insts[k].head).map_or(true, |g| holds(&vis, &sup.close(&insts[k].ctx), &g))
                    });
                    let clash = overlapping(&vis, 0) || overlapping(&vis, 1);
                    for (j, u) in us.iter().enumerate() {
                        let prem = sup.close(&u.prem);
                        let want = if clash {
                            conflict(&insts, &seen, &at, 2).or_else(|| {
                                // every conflict that a constraint of the program has to choose within is reported
                                let direct = u.goals.iter().any(|g| overlapping(&vis, g.0) && !prem.contains(g));
                                if direct { Some(false) } else { None }
                            })
                        } else {
                            Some(own_ok && u.goals.iter().all(|g| holds(&vis, &prem, g)))
                        };
                        let text = format!("{}{}", text, u.text);
                        expect(rep, &front, &format!("main/{:?}/{}/{}/{}/{}", set, place, chain, pick, j), &text, want, &n);
                    }
                }
            }
        }
        rep.nviol.load(SeqCst) < 40
    });
    rep.cover(
        "instances over modules",
        &[
            ("instances", small.len() as u64),
            ("uses", us.len() as u64),
            ("graphs", graphs.load(SeqCst)),
            ("programs", n.programs.load(SeqCst)),
            ("accepted", n.accepted.load(SeqCst)),
            ("proofs_checked", n.proofs.load(SeqCst)),
        ],
        &[],
    );
}

/// Whether module `m` is to be accepted, when that is settled.
fn expected(insts: &[Inst], seen: &[usize], at: &[usize], m: usize, sup: Super) -> Option<bool> {
    let vis: Vec<Inst> = seen.iter().map(|k| insts[*k].clone()).collect();
    if overlapping(&vis, 0) || overlapping(&vis, 1) {
        return conflict(insts, seen, at, m);
    }
    // what another module's instances lack is that module's business
    let own = seen.iter().filter(|k| at[**k] == m && insts[**k].class == 1);
    Some(own.into_iter().all(|k| sup.of(&insts[*k].head).map_or(true, |g| holds(&vis, &sup.close(&insts[*k].ctx), &g))))
}

/// Some(false) when module `m` declares an instance of a class whose visible instances conflict.
fn conflict(insts: &[Inst], seen: &[usize], at: &[usize], m: usize) -> Option<bool> {
    let vis: Vec<Inst> = seen.iter().map(|k| insts[*k].clone()).collect();
    let bad = (0..2).any(|c| overlapping(&vis, c) && seen.iter().any(|k| at[*k] == m && insts[*k].class == c));
    if bad {
        Some(false)
    } else {
        None
    }
}

// ---------------------------------------------------------------- classes that depend on each other

fn hierarchies(o: &Opts, rep: &Report) {
    // three classes, each with any set of superclasses among the three (with the argument as it is or boxed)
    let front = Front::new(&[]);
    let n = Counts { programs: AtomicU64::new(0), accepted: AtomicU64::new(0), proofs: AtomicU64::new(0) };
    let opts: Vec<Vec<(usize, bool)>> = (0..27)
        .map(|k| (0..3).filter_map(|c| match k / 3usize.pow(c as u32) % 3 { 0 => None, 1 => Some((c, false)), _ => Some((c, true)) }).collect())
        .collect();
    sweep(o.jobs, 27 * 27 * 27, |i| {
        let sup = [&opts[i as usize % 27], &opts[i as usize / 27 % 27], &opts[i as usize / 729]];
        let mut text = format!("{}{}", HEAD, TYPES);
        for (k, s) in sup.iter().enumerate() {
            let w: String = s.iter().map(|(c, bx)| format!(" (K{} {})", c, if *bx { "(B X)" } else { "X" })).collect();
            let _ = writeln!(text, "(class (K{} X){} (function (k{} x) {{(-> X unit)}}))", k, if w.is_empty() { String::new() } else { format!(" (where{})", w) }, k);
        }
        let reach = |a: usize| {
            let mut seen = [false; 3];
            let mut todo = vec![a];
            while let Some(x) = todo.pop() {
                for (c, _) in sup[x] {
                    if !seen[*c] {
                        seen[*c] = true;
                        todo.push(*c);
                    }
                }
            }
            seen
        };
        let cyclic = (0..3).any(|a| reach(a)[a]);
        let key = format!("hierarchy/{}", i);
        if cyclic {
            expect(rep, &front, &key, &text, Some(false), &n);
            return rep.nviol.load(SeqCst) < 40;
        }
        // every goal from every assumption
        for a in 0..3 {
            let mut prem: Vec<Goal> = vec![(a, Var(0))];
            let mut k = 0;
            while k < prem.len() {
                let (c, t) = prem[k].clone();
                for (d, bx) in sup[c] {
                    prem.push((*d, if *bx { b(t.clone()) } else { t.clone() }));
                }
                k += 1;
            }
            for c in 0..3 {
                for t in [Var(0), b(Var(0)), b(b(Var(0)))] {
                    let ok = prem.contains(&(c, t.clone()));
                    let text = format!("{}(function (u x) {{(forall va) (-> va unit) (where (K{} va))}} (k{} any{{{}}}))", text, a, c, t.text());
                    expect(rep, &front, &format!("{}/{}/{}/{}", key, a, c, t.text()), &text, Some(ok), &n);
                }
            }
        }
        rep.nviol.load(SeqCst) < 40
    });
    rep.cover("hierarchies", &[("hierarchies", 27 * 27 * 27), ("programs", n.programs.load(SeqCst)), ("accepted", n.accepted.load(SeqCst)), ("proofs_checked", n.proofs.load(SeqCst))], &[]);
}

// ---------------------------------------------------------------- programs to run

fn value(insts: &[Inst], sup: Super, g: &Goal, method: usize, fuel: usize) -> Option<u32> {
    if fuel == 0 {
        return None; // the call does not end
    }
    let Proof(i, _) = derive(insts, &[], g, 12)??;
    let inst = &insts[i];
    let mut s = HashMap::new();
    assert!(matches(&inst.head.shift(100), &g.1, &mut s));
    let mut v = (i as u32 + 1) * (method as u32 + 3);
    match method {
        // d by default
        1 if i % 2 == 0 => {
            let e = value(insts, sup, g, 2, fuel - 1)?;
            let c = match sup.of(&g.1) {
                Some(g) => value(insts, sup, &g, 0, fuel - 1)?,
                None => 0,
            };
            return Some(e.wrapping_mul(3).wrapping_add(c));
        }
        _ => {}
    }
    for (k, c) in inst.ctx.iter().enumerate() {
        let g = (c.0, c.1.shift(100).subst(&s));
        let x = value(insts, sup, &g, if c.0 == 0 { 0 } else { 1 }, fuel - 1)?;
        v = v.wrapping_add(x.wrapping_mul(1000003u32.wrapping_mul(k as u32 + 1)));
    }
    Some(v)
}

/// Whether the evidence for a goal, with all superclasses of everything in it, is a finite set.
fn finite(insts: &[Inst], sup: Super, g: &Goal, seen: &mut Vec<Goal>) -> bool {
    if seen.contains(g) {
        return true;
    }
    if seen.len() > 40 {
        return false;
    }
    seen.push(g.clone());
    let Some(Some(Proof(i, _))) = derive(insts, &[], g, 20) else { return false };
    let mut s = HashMap::new();
    matches(&insts[i].head.shift(100), &g.1, &mut s);
    let mut next: Vec<Goal> = insts[i].ctx.iter().map(|c| (c.0, c.1.shift(100).subst(&s))).collect();
    if g.0 == 1 {
        next.extend(sup.of(&g.1));
    }
    next.iter().all(|g| finite(insts, sup, g, seen))
}

/// Writes the programs and the lines they have to print.
fn programs(o: &Opts, rep: &Report) {
    let pool = pool();
    let sets: Vec<Vec<usize>> = subsets(pool.len(), 3).into_iter().filter(|s| !s.is_empty()).collect();
    let files = 8;
    let mut cases = 0u64;
    let mut blocks = 0u64;
    let mut infinite = 0u64;
    let texts = Mutex::new(vec![(String::new(), String::new()); files]);
    for t in texts.lock().unwrap().iter_mut() {
        t.0 = "(import \"std\" _)\n(data T1 t1) (data T2 t2) (data (B A) b) (data (P A A2) p) (data (Q A) q)\n".to_string();
    }
    let mut rot = 0usize;
    for sup in SUPERS {
        for set in &sets {
            let insts: Vec<Inst> = set.iter().map(|i| pool[*i].clone()).collect();
            // sets with at least one instance of each class, or with conditions
            if !consistent(&insts, sup) || insts.iter().all(|i| i.ctx.is_empty()) && set.len() < 2 {
                continue;
            }
            rot += 1;
            if set.len() == 3 && !o.thorough && rot % 3 != 0 && insts.iter().filter(|i| !i.ctx.is_empty()).count() < 2 {
                continue;
            }
            let id = blocks;
            blocks += 1;
            let mut out = String::new();
            let name = |c: usize| format!("{}{}", CLASS[c], id);
            let proxy = |t: &Ty| format!("q{{(Q {})}}", t.text());
            let w = match sup.of(&Con("X")) {
                Some(g) => format!(" (where ({} {}))", name(0), g.1.text()),
                None => String::new(),
            };
            let _ = writeln!(out, "(class ({} X) (function (c{} x) {{(-> (Q X) U32)}}))", name(0), id);
            let dflt = match sup.of(&Con("X")) {
                Some(g) => format!("(+ (* 3 (e{} x)) (c{} {}))", id, id, proxy(&g.1)),
                None => format!("(* 3 (e{} x))", id),
            };
            let _ = writeln!(out, "(class ({} X){} (function (d{} x) {{(-> (Q X) U32)}} {}) (function (e{} x) {{(-> (Q X) U32)}}))", name(1), w, id, dflt, id);
            for (k, i) in insts.iter().enumerate() {
                let ctx: String = i.ctx.iter().map(|g| format!(" ({} {})", name(g.0), g.1.text())).collect();
                let w = if ctx.is_empty() { ctx } else { format!(" (where{})", ctx) };
                let body = |m: u32| {
                    let mut e = format!("{}", (k as u32 + 1) * (m + 3));
                    for (j, g) in i.ctx.iter().enumerate() {
                        e = format!("(+ {} (* {} ({}{} {})))", e, 1000003u32.wrapping_mul(j as u32 + 1), METH[g.0], id, proxy(&g.1));
                    }
                    e
                };
                let _ = write!(out, "(instance I{}.{} {}({} {}){}", id, k, forall(&i.vars), name(i.class), i.head.text(), w);
                if i.class == 0 {
                    let _ = write!(out, " (function (c{} x) {})", id, body(0));
                } else {
                    if k % 2 == 1 {
                        let _ = write!(out, " (function (d{} x) {})", id, body(1));
                    }
                    let _ = write!(out, " (function (e{} x) {})", id, body(2));
                }
                out += ")\n";
            }
            for c in 0..2 {
                let _ = writeln!(out, "(function (via{}.{} x) {{(forall va) (-> (Q va) U32) (where ({} va))}} (let ([(g y) (+ ({}{} x) ({}{} y))]) (g x)))", id, c, name(c), METH[c], id, METH[c], id);
            }
            if let Some(g) = sup.of(&Var(0)) {
                let _ = writeln!(out, "(function (sup{} x) {{(forall va) (-> (Q va) U32) (where ({} va))}} (c{} {}))", id, name(1), id, proxy(&g.1));
            }
            let slot = &mut texts.lock().unwrap()[id as usize % files];
            let before = cases;
            for t in ground() {
                for c in 0..2 {
                    let Some(v) = value(&insts, sup, &(c, t.clone()), c, 30) else { continue };
                    if !finite(&insts, sup, &(c, t.clone()), &mut vec![]) {
                        infinite += 1;
                        continue;
                    }
                    let key = format!("{:?}/{:?}/{}", sup, set, goal_text(&(c, t.clone()))).replace(' ', "");
                    let mut line = |call: String, v: u32, how: &str| {
                        cases += 1;
                        let _ = writeln!(out, "(println! \"{}/{} \" {})", key, how, call);
                        let _ = writeln!(slot.1, "{}/{} {}", key, how, v);
                    };
                    line(format!("({}{} {})", METH[c], id, proxy(&t)), v, "direct");
                    line(format!("(via{}.{} {})", id, c, proxy(&t)), v.wrapping_mul(2), "assumed");
                    if c == 1 {
                        if let Some(v) = value(&insts, sup, &(1, t.clone()), 2, 30) {
                            line(format!("(e{} {})", id, proxy(&t)), v, "other");
                        }
                        if let Some(v) = sup.of(&t).and_then(|g| value(&insts, sup, &g, 0, 30)) {
                            line(format!("(sup{} {})", id, proxy(&t)), v, "superclass");
                        }
                    }
                }
            }
            if cases > before {
                slot.0 += &out;
            }
        }
    }
    // chains of four classes, called from an assumption of the last one
    {
        let slot = &mut texts.lock().unwrap()[0];
        for bits in 0..8usize {
            for twice in 0..2 {
                let n = |c: usize| format!("K{}.{}.{}", bits, twice, c);
                let m = |c: usize| format!("k{}.{}.{}", bits, twice, c);
                let mut out = String::new();
                for c in 0..4 {
                    let mut w = String::new();
                    if c > 0 {
                        let boxed = bits >> (c - 1) & 1 == 1;
                        w = format!(" (where ({} {})", n(c - 1), if boxed { "(B X)" } else { "X" });
                        if twice == 1 && c == 3 {
                            // two ways up
                            w += &format!(" ({} X)", n(0));
                        }
                        w += ")";
                    }
                    let _ = writeln!(out, "(class ({} X){} (function ({} x) {{(-> (Q X) U32)}}))", n(c), w, m(c));
                    let _ = writeln!(out, "(instance I{} ({} T1) (function ({} x) {}))", n(c), n(c), m(c), c + 1);
                    let _ = writeln!(out, "(instance J{} (forall va) ({} (B va)) (where ({} va)) (function ({} x) (* 10 ({} q{{(Q va)}}))))", n(c), n(c), n(c), m(c), m(c));
                }
                for c in 0..4 {
                    let depth = (c..3).filter(|k| bits >> k & 1 == 1).count();
                    let t = (0..depth).fold(Var(0), |t, _| b(t));
                    let f = format!("up{}.{}.{}", bits, twice, c);
                    let _ = writeln!(out, "(function ({} x) {{(forall va) (-> (Q va) U32) (where ({} va))}} ({} q{{(Q {})}}))", f, n(3), m(c), t.text());
                    for extra in 0..3u32 {
                        let t = (0..extra).fold(Con("T1"), |t, _| b(t));
                        cases += 1;
                        let _ = writeln!(out, "(println! \"{}/{} \" ({} q{{(Q {})}}))", f, extra, f, t.text());
                        let _ = writeln!(slot.1, "{}/{} {}", f, extra, (c as u32 + 1) * 10u32.pow(depth as u32 + extra));
                    }
                }
                slot.0 += &out;
            }
        }
    }
    for (i, (text, lines)) in texts.into_inner().unwrap().into_iter().enumerate() {
        std::fs::write(o.work.join(format!("run{}.llrl", i)), text).unwrap();
        std::fs::write(o.work.join(format!("run{}.expect", i)), lines).unwrap();
    }
    rep.cover("programs to run", &[("instance_sets", blocks), ("method_calls", cases), ("goals_with_infinite_evidence", infinite)], &[]);
}

pub fn main(o: &Opts, rep: &'static Report) {
    programs(o, rep);
    if o.extra.contains_key("run") {
        return;
    }
    hierarchies(o, rep);
    one_module(o, rep);
    modules(o, rep);
}
