//! Kinds: all pairs of small declarations, against a reference kind inference.
use crate::common::*;
use crate::front::*;
use crate::harness::*;
use llrl::ast;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Name(usize),
    App(usize, Vec<Ty>),
    Fun(Box<Ty>, Box<Ty>),
}

/// All types of a size over the names < n.
fn types(size: usize, n: usize) -> Vec<Ty> {
    let mut out = vec![];
    if size == 1 {
        out.extend((0..n).map(Ty::Name));
        return out;
    }
    for h in 0..n {
        for a in types(size - 1, n) {
            out.push(Ty::App(h, vec![a]));
        }
    }
    for l in 1..size - 1 {
        let (xs, ys) = (types(l, n), types(size - 1 - l, n));
        for x in &xs {
            for y in &ys {
                out.push(Ty::Fun(x.clone().into(), y.clone().into()));
                for h in 0..n {
                    out.push(Ty::App(h, vec![x.clone(), y.clone()]));
                }
            }
        }
    }
    out
}

fn show(t: &Ty, names: &[&str]) -> String {
    match t {
        Ty::Name(i) => names[*i].into(),
        Ty::App(h, a) => format!("({} {})", names[*h], a.iter().map(|a| show(a, names)).collect::<Vec<_>>().join(" ")),
        Ty::Fun(a, b) => format!("(-> {} {})", show(a, names), show(b, names)),
    }
}

fn mentions(t: &Ty, i: usize) -> bool {
    match t {
        Ty::Name(j) => *j == i,
        Ty::App(h, a) => *h == i || a.iter().any(|a| mentions(a, i)),
        Ty::Fun(a, b) => mentions(a, i) || mentions(b, i),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum K {
    Star,
    Fun(Vec<K>, Box<K>),
    Var(usize),
}

#[derive(Default)]
struct Kinds(Vec<Option<K>>);

impl Kinds {
    fn fresh(&mut self) -> K {
        self.0.push(None);
        K::Var(self.0.len() - 1)
    }
    fn zonk(&self, k: &K) -> K {
        match k {
            K::Star => K::Star,
            K::Fun(a, r) => K::Fun(a.iter().map(|a| self.zonk(a)).collect(), self.zonk(r).into()),
            K::Var(i) => self.0[*i].as_ref().map_or(k.clone(), |k| self.zonk(k)),
        }
    }
    fn unify(&mut self, a: &K, b: &K) -> Result<(), ()> {
        fn occurs(i: usize, k: &K) -> bool {
            match k {
                K::Star => false,
                K::Var(j) => i == *j,
                K::Fun(a, r) => a.iter().any(|a| occurs(i, a)) || occurs(i, r),
            }
        }
        match (self.zonk(a), self.zonk(b)) {
            (a, b) if a == b => Ok(()),
            (K::Var(i), k) | (k, K::Var(i)) => {
                if occurs(i, &k) {
                    return Err(());
                }
                self.0[i] = Some(k);
                Ok(())
            }
            (K::Fun(a, r), K::Fun(b, s)) if a.len() == b.len() => {
                a.iter().zip(&b).try_for_each(|(a, b)| self.unify(a, b))?;
                self.unify(&r, &s)
            }
            _ => Err(()),
        }
    }
    fn of(&mut self, t: &Ty, env: &[K]) -> Result<K, ()> {
        match t {
            Ty::Name(i) => Ok(env[*i].clone()),
            Ty::App(h, a) => {
                let args = a.iter().map(|a| self.of(a, env)).collect::<Result<Vec<_>, ()>>()?;
                let r = self.fresh();
                self.unify(&env[*h].clone(), &K::Fun(args, r.clone().into()))?;
                Ok(r)
            }
            Ty::Fun(a, b) => {
                for t in [a, b] {
                    let k = self.of(t, env)?;
                    self.unify(&k, &K::Star)?;
                }
                Ok(K::Star)
            }
        }
    }
    fn settle(&mut self, k: &K) {
        match self.zonk(k) {
            K::Star => {}
            K::Var(i) => self.0[i] = Some(K::Star),
            K::Fun(a, r) => {
                a.iter().for_each(|a| self.settle(a));
                self.settle(&r);
            }
        }
    }
}

const ANNS: [&str; 3] = ["", "*", "(-> * *)"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Second {
    Data,
    Class,
    Function,
    LocalFunction,
}

struct Shape {
    second: Second,
    params: [usize; 2],
    /// of the first parameter of each declaration
    anns: [usize; 2],
}

fn star_fun(n: usize) -> K {
    K::Fun(vec![K::Star; n], K::Star.into())
}

/// The parameters' kinds, or a kind error. The names of a declaration's type: unit, X, (Y,) its parameters.
fn reference(s: &Shape, tys: [&Ty; 2]) -> Result<[Vec<K>; 2], ()> {
    let mut ks = Kinds::default();
    let params: [Vec<K>; 2] = std::array::from_fn(|i| (0..s.params[i]).map(|_| ks.fresh()).collect());
    for i in 0..2 {
        match (s.anns[i], params[i].first()) {
            (1, Some(k)) => ks.unify(&k.clone(), &K::Star).unwrap(),
            (2, Some(k)) => ks.unify(&k.clone(), &star_fun(1)).unwrap(),
            _ => {}
        }
    }
    let data = |p: &Vec<K>| if p.is_empty() { K::Star } else { K::Fun(p.clone(), K::Star.into()) };
    let two = s.second == Second::Data;
    let cons: Vec<K> = if two { vec![K::Star, data(&params[0]), data(&params[1])] } else { vec![K::Star, data(&params[0])] };
    let xy = two && mentions(tys[0], 2);
    let yx = mentions(tys[1], 1);
    let groups: Vec<Vec<usize>> = if xy && yx {
        vec![vec![0, 1]]
    } else if xy {
        vec![vec![1], vec![0]]
    } else {
        vec![vec![0], vec![1]]
    };
    for g in groups {
        for &i in &g {
            let env: Vec<K> = cons.iter().chain(&params[i]).cloned().collect();
            let k = ks.of(tys[i], &env)?;
            ks.unify(&k, &K::Star)?;
        }
        for &i in &g {
            params[i].iter().for_each(|p| ks.settle(p));
        }
    }
    Ok(params.map(|p| p.iter().map(|p| ks.zonk(p)).collect()))
}

fn text(s: &Shape, tys: [&Ty; 2]) -> String {
    let two = s.second == Second::Data;
    let head = |i: usize| -> (Vec<String>, Vec<&'static str>) {
        let names: Vec<&'static str> = [["A", "B"], ["C", "D"]][i][..s.params[i]].to_vec();
        let decl = names.iter().enumerate().map(|(j, n)| if j == 0 && s.anns[i] != 0 { format!("[{} {}]", n, ANNS[s.anns[i]]) } else { n.to_string() }).collect();
        (decl, names)
    };
    let mut o = String::from("(no-implicit-std) (import \"builtin\" _) (import \"base\" bot)\n");
    for i in 0..2 {
        let (decl, names) = head(i);
        let mut all = if two { vec!["unit", "X", "Y"] } else { vec!["unit", "X"] };
        all.extend(names);
        let t = show(tys[i], &all);
        let params: String = decl.iter().map(|d| format!(" {}", d)).collect();
        o += &match (i, s.second) {
            (0, _) => format!("(data (X{}) (x {}))\n", params, t),
            (_, Second::Data) => format!("(data (Y{}) (y {}))\n", params, t),
            (_, Second::Class) => format!("(class (Z{}) (function m {{{}}}))\n", params, t),
            (_, Second::Function) => format!("(function m {{(forall{}) {}}} bot)\n", params, t),
            (_, Second::LocalFunction) => format!("(function f {{unit}} (let ([(m) {{(forall{}) (-> {})}} bot]) unit))\n", params, t),
        };
    }
    o
}

fn same(a: &K, b: &ast::Kind) -> bool {
    match (a, b) {
        (K::Star, ast::Kind::Type) => true,
        (K::Fun(a, r), ast::Kind::Fun(b, s)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)) && same(r, s),
        _ => false,
    }
}

pub fn run(o: &Opts, rep: &'static Report, front: &Front) {
    let max = if o.thorough { 4 } else { 3 };
    let mut shapes = vec![];
    for second in [Second::Data, Second::Class, Second::Function, Second::LocalFunction] {
        for p in [[1, 1], [1, 2], [2, 1], [2, 2], [1, 0], [0, 2], [0, 1]] {
            for anns in [[0, 0], [1, 0], [2, 0], [0, 1], [0, 2]] {
                if (0..2).all(|i| anns[i] == 0 || p[i] > 0) && !(second != Second::Data && p[1] == 0) {
                    shapes.push(Shape { second, params: p, anns });
                }
            }
        }
    }
    let (total, ok) = (AtomicU64::new(0), AtomicU64::new(0));
    for s in &shapes {
        let base = if s.second == Second::Data { 3 } else { 2 };
        let t: [Vec<Ty>; 2] = std::array::from_fn(|i| {
            let m = if i == 1 && s.anns == [0, 0] { max } else { 3.min(max) };
            let m = if i == 0 && (s.params[0] == 2 || base == 3) { 3.min(m) } else { m };
            (1..=m).flat_map(|n| types(n, base + s.params[i])).collect()
        });
        // a first declaration of another kind does not need to be large
        let first = if base == 2 && !o.thorough { t[0].iter().take(40).cloned().collect() } else { t[0].clone() };
        let n = (first.len() * t[1].len()) as u64;
        sweep(o.jobs, n, |i| {
            let tys = [&first[i as usize / t[1].len()], &t[1][i as usize % t[1].len()]];
            let text = text(s, tys);
            total.fetch_add(1, SeqCst);
            let fail = |what: String| {
                rep.violation(&format!("kinds/{}", text.lines().skip(1).collect::<Vec<_>>().join(" ")), &format!("{}: {}", what, text.lines().skip(1).collect::<Vec<_>>().join(" ")), &text);
                rep.nviol.load(SeqCst) < 20
            };
            let want = reference(s, tys);
            match (want, front.check(&text)) {
                (Err(()), Built::Rejected(f)) if format!("{:?}", f.error).contains("CannotUnifyKind") => true,
                (Ok(ks), Built::Ok(m)) => {
                    ok.fetch_add(1, SeqCst);
                    for (k, name) in ks.iter().flatten().zip([["A", "B"], ["C", "D"]].iter().enumerate().flat_map(|(i, n)| n[..s.params[i]].to_vec())) {
                        let ids = m.symbol_map().find_occurences::<ast::NodeId<ast::TypeParameter>>(name);
                        let [id] = ids.as_slice() else { return fail(format!("{} type parameters {}", ids.len(), name)) };
                        let got = m.inferred_kinds().get(*id);
                        if !got.as_ref().map_or(false, |g| same(k, g)) {
                            return fail(format!("the kind of {} is {:?} instead of {:?}", name, got, k));
                        }
                    }
                    if s.params[0] > 0 {
                        let x = m.symbol_map().find_occurences::<ast::NodeId<ast::DataTypeCon>>("X")[0];
                        let want = K::Fun(ks[0].clone(), K::Star.into());
                        if !m.inferred_kinds().get(x).map_or(false, |g| same(&want, &g)) {
                            return fail(format!("the kind of X is {:?}", m.inferred_kinds().get(x)));
                        }
                    }
                    true
                }
                (w, b) => fail(format!("{} but {}", if w.is_ok() { "well-kinded" } else { "ill-kinded" }, b.describe())),
            }
        });
    }
    rep.cover("kinds", &[("pairs of declarations", total.into_inner()), ("well-kinded", ok.into_inner()), ("shapes", shapes.len() as u64)], &[]);
}
