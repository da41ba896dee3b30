//! Type inference: all programs up to a size over several sublanguages, against a textbook reference inference.
use crate::common::*;
use crate::front::*;
use crate::harness::*;
use crate::sysf;
use llrl::ast;
use llrl::module::Module;
use std::collections::{BTreeSet, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub const PRE: &str = "(no-implicit-std) (import \"builtin\" _) (export _)
(data (M A) (j A) n)
(function bot {(forall Z) Z} bot)
";

// ---------------------------------------------------------------- terms

#[derive(Clone, Debug, PartialEq)]
enum E {
    Var(usize),
    Unit,
    True,
    Str,
    Nothing,
    Just(Box<E>),
    Pair(Box<E>, Box<E>),
    App(Box<E>, Vec<E>),
    If(Box<E>, Box<E>, Box<E>),
    Seq(Box<E>, Box<E>),
    While(Box<E>, Box<E>),
    Ret(Box<E>),
    /// an index of the annotations of the grammar
    Ann(Box<E>, usize),
    LetV(Box<E>, Option<usize>, Box<E>),
    /// a local function (itself k, its parameters k+1..)
    LetF(usize, Option<usize>, Box<E>, Box<E>),
    /// two local functions k, k+1 with a parameter k+2 each
    LetFF(Box<E>, Box<E>, Box<E>),
    MatchM(Box<E>, Box<E>, Box<E>),
    MatchP(Box<E>, Box<E>),
    /// (match e [(let x) ..]) with an as-pattern
    MatchAs(Box<E>, Box<E>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum P {
    Unit,
    True,
    Str,
    Nothing,
    Just,
    Pair,
    App0,
    App1,
    App2,
    If,
    Seq,
    While,
    Ret,
    Ann,
    LetV,
    LetVAnn,
    LetF0,
    LetF1,
    LetF2,
    LetFAnn,
    LetFF,
    MatchM,
    MatchP,
    MatchAs,
}

impl P {
    /// (parts with the number of additional variables in scope, annotations?)
    fn parts(self) -> &'static [usize] {
        match self {
            P::Unit | P::True | P::Str | P::Nothing => &[],
            P::Just | P::App0 | P::Ret | P::Ann => &[0],
            P::Pair | P::App1 | P::Seq | P::While => &[0, 0],
            P::App2 | P::If => &[0, 0, 0],
            P::LetV | P::LetVAnn => &[0, 1],
            P::LetF0 => &[1, 1],
            P::LetF1 | P::LetFAnn => &[2, 1],
            P::LetF2 => &[3, 1],
            P::LetFF => &[3, 3, 2],
            P::MatchM => &[0, 1, 0],
            P::MatchP => &[0, 2],
            P::MatchAs => &[0, 2],
        }
    }
}

struct Grammar {
    prods: Vec<P>,
    /// (text, as a reference type) of annotations of expressions and variables
    anns: Vec<(&'static str, T)>,
    /// of local functions with one parameter
    sigs: Vec<Sig>,
    max: usize,
    memo: Vec<Vec<u64>>,
}

#[derive(Clone)]
struct Sig {
    text: &'static str,
    foralls: Vec<&'static str>,
    args: Vec<T>,
    ret: T,
}

impl Grammar {
    fn new(prods: &[P], anns: Vec<(&'static str, T)>, sigs: Vec<Sig>, max: usize) -> Self {
        let mut g = Grammar { prods: prods.to_vec(), anns, sigs, max, memo: vec![] };
        let width = 3 * max + 8;
        for n in 0..=max {
            let row: Vec<u64> = (0..width).map(|k| g.count_slow(n, k)).collect();
            g.memo.push(row);
        }
        g
    }
    fn variants(&self, p: P) -> u64 {
        match p {
            P::Ann | P::LetVAnn => self.anns.len() as u64,
            P::LetFAnn => self.sigs.len() as u64,
            _ => 1,
        }
    }
    fn count(&self, n: usize, k: usize) -> u64 {
        self.memo.get(n).map_or(0, |r| r.get(k).copied().unwrap_or(0))
    }
    fn split(&self, parts: &[usize], n: usize, k: usize) -> u64 {
        match parts {
            [] => (n == 0) as u64,
            [p, rest @ ..] => (1..=n).map(|i| self.count(i, k + p) * self.split(rest, n - i, k)).sum(),
        }
    }
    fn count_slow(&self, n: usize, k: usize) -> u64 {
        if n == 0 {
            return 0;
        }
        let vars = if n == 1 { k as u64 } else { 0 };
        vars + self.prods.iter().map(|p| self.variants(*p) * self.split(p.parts(), n - 1, k)).sum::<u64>()
    }
    fn unrank(&self, n: usize, k: usize, mut i: u64) -> E {
        if n == 1 {
            if i < k as u64 {
                return E::Var(i as usize);
            }
            i -= k as u64;
        }
        for p in &self.prods {
            let c = self.split(p.parts(), n - 1, k);
            let v = self.variants(*p);
            if i < c * v {
                let variant = (i / c) as usize;
                let parts = self.unrank_parts(p.parts(), n - 1, k, i % c);
                return build(*p, variant, parts);
            }
            i -= c * v;
        }
        unreachable!()
    }
    fn unrank_parts(&self, parts: &[usize], n: usize, k: usize, mut i: u64) -> Vec<E> {
        let [p, rest @ ..] = parts else { return vec![] };
        for m in 1..=n {
            let (a, b) = (self.count(m, k + p), self.split(rest, n - m, k));
            if i < a * b {
                let mut out = vec![self.unrank(m, k + p, i / b)];
                out.extend(self.unrank_parts(rest, n - m, k, i % b));
                return out;
            }
            i -= a * b;
        }
        unreachable!()
    }
}

fn build(p: P, variant: usize, parts: Vec<E>) -> E {
    let mut it = parts.into_iter().map(Box::new);
    let mut x = || it.next().unwrap();
    match p {
        P::Unit => E::Unit,
        P::True => E::True,
        P::Str => E::Str,
        P::Nothing => E::Nothing,
        P::Just => E::Just(x()),
        P::Pair => E::Pair(x(), x()),
        P::App0 => E::App(x(), vec![]),
        P::App1 => E::App(x(), vec![*x()]),
        P::App2 => E::App(x(), vec![*x(), *x()]),
        P::If => E::If(x(), x(), x()),
        P::Seq => E::Seq(x(), x()),
        P::While => E::While(x(), x()),
        P::Ret => E::Ret(x()),
        P::Ann => E::Ann(x(), variant),
        P::LetV => E::LetV(x(), None, x()),
        P::LetVAnn => E::LetV(x(), Some(variant), x()),
        P::LetF0 => E::LetF(0, None, x(), x()),
        P::LetF1 => E::LetF(1, None, x(), x()),
        P::LetF2 => E::LetF(2, None, x(), x()),
        P::LetFAnn => E::LetF(1, Some(variant), x(), x()),
        P::LetFF => E::LetFF(x(), x(), x()),
        P::MatchM => E::MatchM(x(), x(), x()),
        P::MatchP => E::MatchP(x(), x()),
        P::MatchAs => E::MatchAs(x(), x()),
    }
}

impl E {
    fn write(&self, g: &Grammar, k: usize, o: &mut String) {
        macro_rules! w { ($($x:expr),*) => {{ $( $x.put(g, o); )* }}; }
        trait Put {
            fn put(&self, g: &Grammar, o: &mut String);
        }
        impl Put for &str {
            fn put(&self, _: &Grammar, o: &mut String) {
                o.push_str(self)
            }
        }
        impl Put for String {
            fn put(&self, _: &Grammar, o: &mut String) {
                o.push_str(self)
            }
        }
        impl Put for (&Box<E>, usize) {
            fn put(&self, g: &Grammar, o: &mut String) {
                self.0.write(g, self.1, o)
            }
        }
        let v = |i: usize| format!("v{}", i);
        match self {
            E::Var(i) => w!(v(*i)),
            E::Unit => w!("unit"),
            E::True => w!("#t"),
            E::Str => w!("\"s\""),
            E::Nothing => w!("n"),
            E::Just(a) => w!("(j ", (a, k), ")"),
            E::Pair(a, b) => w!("(: ", (a, k), " ", (b, k), ")"),
            E::App(f, a) => {
                w!("(", (f, k));
                for a in a {
                    o.push(' ');
                    a.write(g, k, o);
                }
                w!(")");
            }
            E::If(c, a, b) => w!("(if ", (c, k), " ", (a, k), " ", (b, k), ")"),
            E::Seq(a, b) => w!("(begin ", (a, k), " ", (b, k), ")"),
            E::While(a, b) => w!("(while ", (a, k), " ", (b, k), " unit)"),
            E::Ret(a) => w!("(return ", (a, k), ")"),
            E::Ann(a, t) => w!("(begin ", (a, k), " {", g.anns[*t].0, "})"),
            E::LetV(a, t, b) => {
                let t = t.map_or(String::new(), |t| format!(" {{{}}}", g.anns[t].0));
                w!("(let ([", v(k), t, " ", (a, k), "]) ", (b, k + 1), ")")
            }
            E::LetF(n, t, a, b) => {
                let t = t.map_or(String::new(), |t| format!(" {{{}}}", g.sigs[t].text));
                let ps: String = (1..=*n).map(|i| format!(" {}", v(k + i))).collect();
                w!("(let ([(", v(k), ps, ")", t, " ", (a, k + 1 + n), "]) ", (b, k + 1), ")")
            }
            E::LetFF(a, b, c) => {
                w!("(let ([(", v(k), " ", v(k + 2), ") ", (a, k + 3), "] [(", v(k + 1), " ", v(k + 2), ") ", (b, k + 3), "]) ", (c, k + 2), ")")
            }
            E::MatchM(e, a, b) => w!("(match ", (e, k), " [(j (let ", v(k), ")) ", (a, k + 1), "] [n ", (b, k), "])"),
            E::MatchP(e, a) => w!("(match ", (e, k), " [(: (let ", v(k), ") (let ", v(k + 1), ")) ", (a, k + 2), "])"),
            E::MatchAs(e, a) => w!("(match ", (e, k), " [(let ", v(k), " (: (let ", v(k + 1), ") _)) ", (a, k + 2), "])"),
        }
    }
    fn uses(&self, v: usize) -> bool {
        match self {
            E::Var(i) => *i == v,
            E::Unit | E::True | E::Str | E::Nothing => false,
            E::Just(a) | E::Ret(a) | E::Ann(a, _) => a.uses(v),
            E::Pair(a, b) | E::Seq(a, b) | E::While(a, b) | E::LetV(a, _, b) | E::LetF(_, _, a, b) | E::MatchP(a, b) | E::MatchAs(a, b) => a.uses(v) || b.uses(v),
            E::App(f, a) => f.uses(v) || a.iter().any(|a| a.uses(v)),
            E::If(a, b, c) | E::LetFF(a, b, c) | E::MatchM(a, b, c) => a.uses(v) || b.uses(v) || c.uses(v),
        }
    }
}

// ---------------------------------------------------------------- reference inference

#[derive(Clone, Debug, PartialEq)]
enum T {
    Var(usize),
    /// a type parameter: (name, which binding of it)
    Rigid(usize),
    /// in annotations
    Name(&'static str),
    Con(&'static str, Vec<T>),
}

fn con(c: &'static str) -> T {
    T::Con(c, vec![])
}
fn arrow(args: &[T], ret: T) -> T {
    T::Con("->", args.iter().cloned().chain([ret]).collect())
}

#[derive(Clone)]
struct Poly {
    vars: Vec<usize>,
    rigid: Vec<usize>,
    body: T,
}

#[derive(Clone)]
enum Bound {
    Mono(T),
    Poly(Poly),
}

#[derive(Default)]
struct Ref {
    vars: Vec<Option<T>>,
    rigids: usize,
    env: Vec<Bound>,
    names: Vec<(&'static str, T)>,
    /// what is recorded for the binders in the order of the traversal
    log: Vec<Entry>,
    quantified: BTreeSet<usize>,
}

type Bad<X> = Result<X, ()>;

impl Ref {
    fn fresh(&mut self) -> T {
        self.vars.push(None);
        T::Var(self.vars.len() - 1)
    }
    fn zonk(&self, t: &T) -> T {
        match t {
            T::Var(i) => match &self.vars[*i] {
                Some(t) => self.zonk(t),
                None => t.clone(),
            },
            T::Con(c, a) => T::Con(c, a.iter().map(|a| self.zonk(a)).collect()),
            t => t.clone(),
        }
    }
    fn unify(&mut self, a: &T, b: &T) -> Bad<()> {
        match (self.zonk(a), self.zonk(b)) {
            (T::Var(i), T::Var(j)) if i == j => Ok(()),
            (T::Var(i), t) | (t, T::Var(i)) => {
                if ftv(&t).contains(&i) {
                    return Err(());
                }
                self.vars[i] = Some(t);
                Ok(())
            }
            (T::Con(c, x), T::Con(d, y)) if c == d && x.len() == y.len() => x.iter().zip(&y).try_for_each(|(x, y)| self.unify(x, y)),
            (T::Rigid(i), T::Rigid(j)) if i == j => Ok(()),
            _ => Err(()),
        }
    }
    fn named(&self, t: &T) -> T {
        match t {
            T::Name(n) => self.names.iter().rev().find(|x| x.0 == *n).expect("a name in scope").1.clone(),
            T::Con(c, a) => T::Con(c, a.iter().map(|a| self.named(a)).collect()),
            t => t.clone(),
        }
    }
    fn instantiate(&mut self, p: &Poly) -> T {
        let m: HashMap<usize, T> = p.vars.iter().map(|v| (*v, self.fresh())).collect();
        let r: HashMap<usize, T> = p.rigid.iter().map(|v| (*v, self.fresh())).collect();
        let b = self.zonk(&p.body);
        fn go(t: &T, m: &HashMap<usize, T>, r: &HashMap<usize, T>) -> T {
            match t {
                T::Var(i) => m.get(i).cloned().unwrap_or_else(|| t.clone()),
                T::Rigid(i) => r.get(i).cloned().unwrap_or_else(|| t.clone()),
                T::Con(c, a) => T::Con(c, a.iter().map(|a| go(a, m, r)).collect()),
                t => t.clone(),
            }
        }
        go(&b, &m, &r)
    }
    fn env_types(&self) -> Vec<T> {
        self.env
            .iter()
            .map(|b| match b {
                Bound::Mono(t) => self.zonk(t),
                // quantified variables are never bound again, so the others are the free ones
                Bound::Poly(p) => {
                    let t = self.zonk(&p.body);
                    T::Con("", ftv(&t).difference(&p.vars.iter().copied().collect()).map(|v| T::Var(*v)).collect())
                }
            })
            .collect()
    }
    fn generalize(&self, t: &T, outer: usize) -> Vec<usize> {
        let mut free = BTreeSet::new();
        for t in &self.env_types()[..outer] {
            free.extend(ftv(t));
        }
        ftv(&self.zonk(t)).difference(&free).copied().collect()
    }

    /// Functions `env.len()..` (one per body) with parameters; afterwards they are in the environment.
    fn group(&mut self, g: &Grammar, fs: &[(Option<usize>, &E)], at: usize) -> Bad<()> {
        // the functions that depend on each other are inferred together, before those that use them
        let n = fs.len();
        let mut reach = vec![vec![false; n]; n];
        for i in 0..n {
            for j in 0..n {
                reach[i][j] = fs[i].1.uses(at + j);
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    reach[i][j] |= reach[i][k] && reach[k][j];
                }
            }
        }
        let base = self.env.len();
        debug_assert_eq!(base, at);
        let mut done = vec![false; n];
        let unknown = Bound::Mono(con("unknown"));
        self.env.extend(vec![unknown; n]);
        let mut logs: Vec<Vec<Entry>> = vec![vec![]; n];
        while let Some(i) = (0..n).find(|i| !done[*i] && (0..n).all(|j| done[j] || !reach[*i][j] || reach[j][*i])) {
            let group: Vec<usize> = (0..n).filter(|j| *j == i || reach[i][*j] && reach[*j][i]).collect();
            let saved = std::mem::take(&mut self.log);
            let mut tys = vec![];
            for &j in &group {
                let ret = self.fresh();
                let params: Option<Vec<T>> = fs[j].0.map(|c| (0..c).map(|_| self.fresh()).collect());
                let t = params.as_ref().map_or(ret.clone(), |p| arrow(p, ret.clone()));
                self.env[at + j] = Bound::Mono(t.clone());
                tys.push((t, params, ret));
            }
            for (&j, (t, params, ret)) in group.iter().zip(&tys) {
                self.log.push(Entry::Fun(t.clone(), vec![], vec![]));
                for p in params.iter().flatten() {
                    self.env.push(Bound::Mono(p.clone()));
                    self.log.push(Entry::Mono(p.clone()));
                }
                let b = self.expr(g, fs[j].1, Some(ret))?;
                self.unify(&b, ret)?;
                self.env.truncate(base + n);
                logs[j] = std::mem::take(&mut self.log);
            }
            // polymorphic in the variables that all the functions of the group share and the surroundings do not mention;
            // the others default
            for &j in &group {
                self.env[at + j] = Bound::Mono(con("unknown"));
            }
            let each: Vec<BTreeSet<usize>> = tys.iter().map(|t| self.generalize(&t.0, base).into_iter().collect()).collect();
            let vars: Vec<usize> = each[0].iter().filter(|v| each.iter().all(|e| e.contains(v))).copied().collect();
            for v in each.iter().flatten().filter(|v| !vars.contains(v)) {
                self.vars[*v] = Some(con("unit"));
            }
            self.quantified.extend(&vars);
            for &j in &group {
                if let Entry::Fun(_, v, _) = &mut logs[j][0] {
                    *v = vars.clone();
                }
            }
            for (&j, (t, ..)) in group.iter().zip(&tys) {
                self.env[at + j] = Bound::Poly(Poly { vars: vars.clone(), rigid: vec![], body: t.clone() });
                done[j] = true;
            }
            self.log = saved;
        }
        for l in logs {
            self.log.extend(l);
        }
        Ok(())
    }

    fn expr(&mut self, g: &Grammar, e: &E, ret: Option<&T>) -> Bad<T> {
        Ok(match e {
            E::Var(i) => match self.env[*i].clone() {
                Bound::Mono(t) => t,
                Bound::Poly(p) => self.instantiate(&p),
            },
            E::Unit => con("unit"),
            E::True => con("Bool"),
            E::Str => con("String"),
            E::Nothing => T::Con("M", vec![self.fresh()]),
            E::Just(a) => T::Con("M", vec![self.expr(g, a, ret)?]),
            E::Pair(a, b) => T::Con(":", vec![self.expr(g, a, ret)?, self.expr(g, b, ret)?]),
            E::App(f, a) => {
                let f = self.expr(g, f, ret)?;
                let a = a.iter().map(|a| self.expr(g, a, ret)).collect::<Bad<Vec<_>>>()?;
                let r = self.fresh();
                self.unify(&f, &arrow(&a, r.clone()))?;
                r
            }
            E::If(c, a, b) => {
                let c = self.expr(g, c, ret)?;
                self.unify(&c, &con("Bool"))?;
                let a = self.expr(g, a, ret)?;
                let b = self.expr(g, b, ret)?;
                self.unify(&a, &b)?;
                a
            }
            E::Seq(a, b) => {
                self.expr(g, a, ret)?;
                self.expr(g, b, ret)?
            }
            E::While(a, b) => {
                let a = self.expr(g, a, ret)?;
                self.unify(&a, &con("Bool"))?;
                self.expr(g, b, ret)?;
                con("unit")
            }
            E::Ret(a) => {
                let a = self.expr(g, a, ret)?;
                self.unify(&a, ret.ok_or(())?)?;
                self.fresh()
            }
            E::Ann(a, t) => {
                let a = self.expr(g, a, ret)?;
                let t = self.named(&g.anns[*t].1);
                self.unify(&a, &t)?;
                a
            }
            E::LetV(a, t, b) => {
                let a = self.expr(g, a, ret)?;
                if let Some(t) = t {
                    let t = self.named(&g.anns[*t].1);
                    self.unify(&a, &t)?;
                }
                self.log.push(Entry::Mono(a.clone()));
                self.env.push(Bound::Mono(a));
                let b = self.expr(g, b, ret)?;
                self.env.pop();
                b
            }
            E::LetF(n, None, a, b) => {
                let k = self.env.len();
                self.group(g, &[(Some(*n), a)], k)?;
                let b = self.expr(g, b, ret)?;
                self.env.pop();
                b
            }
            E::LetF(_, Some(s), a, b) => {
                self.annotated(g, &g.sigs[*s].clone(), a)?;
                let b = self.expr(g, b, ret)?;
                self.env.pop();
                b
            }
            E::LetFF(a, b, c) => {
                let k = self.env.len();
                // both functions' parameters are called k+2
                self.group(g, &[(Some(1), a), (Some(1), b)], k)?;
                let c = self.expr(g, c, ret)?;
                self.env.truncate(k);
                c
            }
            E::MatchM(e, a, b) => {
                let e = self.expr(g, e, ret)?;
                let x = self.fresh();
                self.unify(&e, &T::Con("M", vec![x.clone()]))?;
                self.log.push(Entry::Mono(x.clone()));
                self.env.push(Bound::Mono(x));
                let a = self.expr(g, a, ret)?;
                self.env.pop();
                let b = self.expr(g, b, ret)?;
                self.unify(&a, &b)?;
                a
            }
            E::MatchP(p, a) | E::MatchAs(p, a) => {
                let t = self.expr(g, p, ret)?;
                let (x, y) = (self.fresh(), self.fresh());
                self.unify(&t, &T::Con(":", vec![x.clone(), y.clone()]))?;
                let bound = if let E::MatchP(..) = e { [x, y] } else { [t, x] };
                for b in bound {
                    self.log.push(Entry::Mono(b.clone()));
                    self.env.push(Bound::Mono(b));
                }
                let a = self.expr(g, a, ret)?;
                self.env.pop();
                self.env.pop();
                a
            }
        })
    }

    /// A function with a type signature; afterwards it is in the environment.
    fn annotated(&mut self, g: &Grammar, s: &Sig, body: &E) -> Bad<()> {
        let outer = self.env.len();
        let names = self.names.len();
        let mut rigid = vec![];
        for f in &s.foralls {
            self.rigids += 1;
            rigid.push(self.rigids);
            self.names.push((f, T::Rigid(self.rigids)));
        }
        let args: Vec<T> = s.args.iter().map(|a| self.named(a)).collect();
        let ret = self.named(&s.ret);
        let t = arrow(&args, ret.clone());
        self.env.push(Bound::Poly(Poly { vars: vec![], rigid: rigid.clone(), body: t.clone() }));
        self.log.push(Entry::Fun(t, vec![], rigid.clone()));
        for a in args {
            self.log.push(Entry::Mono(a.clone()));
            self.env.push(Bound::Mono(a));
        }
        let b = self.expr(g, body, Some(&ret))?;
        self.unify(&b, &ret)?;
        self.env.truncate(outer + 1);
        self.names.truncate(names);
        // a type parameter must not get into the types of the surroundings
        fn has(t: &T, r: &[usize]) -> bool {
            match t {
                T::Rigid(i) => r.contains(i),
                T::Con(_, a) => a.iter().any(|a| has(a, r)),
                _ => false,
            }
        }
        for b in &self.env[..outer] {
            let t = match b {
                Bound::Mono(t) => t,
                Bound::Poly(p) => &p.body,
            };
            if has(&self.zonk(t), &rigid) {
                return Err(());
            }
        }
        Ok(())
    }
}

#[derive(Clone)]
enum Entry {
    Mono(T),
    /// with the variables and the type parameters it is polymorphic in
    Fun(T, Vec<usize>, Vec<usize>),
}

fn ftv(t: &T) -> BTreeSet<usize> {
    match t {
        T::Var(i) => [*i].into(),
        T::Con(_, a) => a.iter().flat_map(ftv).collect(),
        _ => [].into(),
    }
}

// ---------------------------------------------------------------- comparison

type Found = Vec<(ast::Type, Vec<ast::NodeId<ast::TypeParameter>>, bool)>;

fn binders(m: &Module, e: &ast::Expr, o: &mut Found) {
    use ast::ExprRep::*;
    let tys = m.inferred_types();
    fn pat(m: &Module, p: &ast::Pattern, o: &mut Found) {
        match &p.rep {
            ast::PatternRep::Var(v) => {
                o.push((m.inferred_types().type_(v.id).unwrap().clone(), vec![], false));
                if let Some(p) = &v.as_pat {
                    pat(m, p, o);
                }
            }
            ast::PatternRep::Decon(d) => d.fields.iter().flatten().for_each(|p| pat(m, p, o)),
            _ => {}
        }
    }
    match &e.rep {
        Use(_) | Con(_) | Const(_) | Capture(_) => {}
        App(a) => {
            binders(m, &a.callee, o);
            a.args.iter().for_each(|a| binders(m, a, o));
        }
        Annotate(a) => binders(m, &a.body, o),
        Let(l) => {
            for d in &l.defs {
                if let Some(v) = d.as_ref().left() {
                    binders(m, &v.init, o);
                    o.push((tys.type_(v.id).unwrap().clone(), vec![], false));
                }
                if let Some(f) = d.as_ref().right() {
                    function(m, tys.scheme(f.id).unwrap(), Some(&f.params), &f.body, o);
                }
            }
            binders(m, &l.body, o);
        }
        Seq(s) => {
            s.stmts.iter().for_each(|s| binders(m, s, o));
            binders(m, &s.ret, o);
        }
        If(i) => [&i.cond, &i.then, &i.else_].into_iter().for_each(|e| binders(m, e, o)),
        While(w) => [&w.cond, &w.body].into_iter().for_each(|e| binders(m, e, o)),
        Match(x) => {
            binders(m, &x.target, o);
            for (p, b) in &x.clauses {
                pat(m, p, o);
                binders(m, b, o);
            }
        }
        Return(r) => r.iter().for_each(|e| binders(m, e, o)),
    }
}

fn function(m: &Module, s: &ast::Scheme, params: Option<&Vec<ast::Parameter>>, body: &ast::Expr, o: &mut Found) {
    o.push((s.body.clone(), s.ty_params.iter().map(|p| p.id).collect(), true));
    for p in params.into_iter().flatten() {
        o.push((m.inferred_types().type_(p.id).unwrap().clone(), vec![], false));
    }
    binders(m, body, o);
}

#[derive(Default)]
struct Match {
    to: HashMap<(bool, usize), ast::NodeId<ast::TypeParameter>>,
    from: HashMap<ast::NodeId<ast::TypeParameter>, (bool, usize)>,
}

impl Match {
    fn gen(&mut self, v: (bool, usize), t: &ast::Type) -> bool {
        let ast::Type::Gen(g) = t else { return false };
        *self.to.entry(v).or_insert(*g) == *g && *self.from.entry(*g).or_insert(v) == v
    }
    fn same(&mut self, r: &Ref, quantified: &BTreeSet<usize>, m_con: ast::TypeCon, a: &T, b: &ast::Type) -> bool {
        match a {
            T::Var(v) if quantified.contains(v) => self.gen((true, *v), b),
            // a variable nothing depends on
            T::Var(_) => *b == ast::Type::Con(ast::TypeCon::unit()),
            T::Rigid(v) => self.gen((false, *v), b),
            T::Name(_) => false,
            T::Con(c, args) => {
                let c = match *c {
                    "->" => ast::TypeCon::fun(args.len() - 1),
                    ":" => ast::TypeCon::tuple(args.len()),
                    "unit" => ast::TypeCon::unit(),
                    "Bool" => ast::TypeCon::BOOL,
                    "String" => ast::TypeCon::STRING,
                    "M" => m_con,
                    _ => return false,
                };
                match b {
                    ast::Type::Con(d) => args.is_empty() && c == *d,
                    ast::Type::App(d, bs) => **d == ast::Type::Con(c) && args.len() == bs.len() && args.iter().zip(bs).all(|(a, b)| self.same(r, quantified, m_con, a, b)),
                    _ => false,
                }
            }
        }
    }
}

fn show(t: &T) -> String {
    match t {
        T::Var(i) => format!("t{}", i),
        T::Rigid(i) => format!("A{}", i),
        T::Name(n) => n.to_string(),
        T::Con(c, a) if a.is_empty() => c.to_string(),
        T::Con(c, a) => format!("({} {})", c, a.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}

// ---------------------------------------------------------------- programs

/// How a program is made of one or several terms.
#[derive(Clone)]
enum Form {
    /// functions v0.. with that many parameters (None: not a function); a parameter is v<number of functions>..
    Group(Vec<Option<usize>>),
    /// one function with each of the signatures
    Signed(Vec<Sig>),
}

struct Part {
    name: &'static str,
    g: Grammar,
    form: Form,
}

impl Part {
    fn scopes(&self) -> Vec<usize> {
        match &self.form {
            Form::Group(f) => f.iter().map(|p| f.len() + p.unwrap_or(0)).collect(),
            Form::Signed(_) => vec![2],
        }
    }
    /// the programs of total size n
    fn count(&self, n: usize) -> u64 {
        let v = if let Form::Signed(s) = &self.form { s.len() as u64 } else { 1 };
        v * self.g.split(&self.scopes(), n, 0)
    }
    fn program(&self, n: usize, i: u64) -> (Vec<E>, usize) {
        let c = self.g.split(&self.scopes(), n, 0);
        (self.g.unrank_parts(&self.scopes(), n, 0, i % c), (i / c) as usize)
    }
    fn text(&self, es: &[E], v: usize) -> String {
        let mut o = String::from("(no-implicit-std) (import \"builtin\" _) (import \"base\" _)\n");
        for (i, (e, k)) in es.iter().zip(self.scopes()).enumerate() {
            match &self.form {
                Form::Group(f) => match f[i] {
                    Some(p) => o += &format!("(function (v{}{}) ", i, (0..p).map(|p| format!(" v{}", f.len() + p)).collect::<String>()),
                    None => o += &format!("(function v{} ", i),
                },
                Form::Signed(s) => o += &format!("(function (v0 v1) {{{}}} ", s[v].text),
            }
            e.write(&self.g, k, &mut o);
            o += ")\n";
        }
        o
    }
    fn reference(&self, es: &[E], v: usize) -> (Bad<()>, Ref) {
        let mut r = Ref::default();
        let res = match &self.form {
            Form::Group(f) => {
                let fs: Vec<(Option<usize>, &E)> = f.iter().copied().zip(es).collect();
                r.group(&self.g, &fs, 0)
            }
            Form::Signed(s) => r.annotated(&self.g, &s[v], &es[0]),
        };
        (res, r)
    }
}

pub fn m_con(front: &Front) -> ast::TypeCon {
    use llrl::module::External;
    let m = front.find_module(&"base".parse().unwrap()).unwrap();
    let id = m.symbol_map().find_occurences::<ast::NodeId<ast::DataTypeCon>>("M")[0];
    ast::TypeCon::Data(id)
}

fn run_part(front: &Front, o: &Opts, rep: &Report, part: &Part, budget: u64) {
    let mc = m_con(front);
    let (mut total, mut ok, mut bad, mut types) = (0u64, 0u64, 0u64, 0u64);
    let mut size = 0;
    for n in 1..=part.g.max {
        let c = part.count(n);
        if total + c > budget {
            break;
        }
        size = n;
        let (oks, bads, tys) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        sweep(o.jobs, c, |i| {
            let (es, v) = part.program(n, i);
            let text = part.text(&es, v);
            let (want, r) = part.reference(&es, v);
            let fail = |what: &str| {
                rep.violation(&format!("{}/{}/{}", part.name, n, i), &format!("{}: {}", what, text.lines().skip(1).collect::<Vec<_>>().join(" ")), &text);
                rep.nviol.load(SeqCst) < 20
            };
            match (want, front.check(&text)) {
                (_, Built::Crash(e)) => return fail(&format!("the compiler crashes ({})", e)),
                (_, Built::Unreadable(e)) => return fail(&format!("not read ({})", e)),
                (Ok(()), Built::Rejected(f)) => return fail(&format!("a well-typed program is rejected ({})", f.text)),
                (Err(()), Built::Ok(_)) => return fail("an ill-typed program is accepted"),
                (Err(()), Built::Rejected(f)) => {
                    bads.fetch_add(1, SeqCst);
                    if !type_error(&f.error) {
                        return fail(&format!("rejected for another reason than its types ({})", f.text));
                    }
                }
                (Ok(()), Built::Ok(m)) => {
                    oks.fetch_add(1, SeqCst);
                    if let Err(e) = sysf::check(front, &m) {
                        return fail(&format!("the recorded types are inconsistent ({})", e));
                    }
                    let mut fs: Vec<(String, &ast::Function)> = m.ast_root().functions.values().map(|f| (m.symbol_map().get(f.id).unwrap().name.clone(), f)).collect();
                    fs.sort_by(|a, b| a.0.cmp(&b.0));
                    let mut found = vec![];
                    for (_, f) in &fs {
                        function(&m, m.inferred_types().scheme(f.id).unwrap(), f.params.as_ref(), &f.body, &mut found);
                    }
                    if found.len() != r.log.len() {
                        return fail("another number of binders");
                    }
                    tys.fetch_add(found.len() as u64, SeqCst);
                    let mut mt = Match::default();
                    for (want, got) in r.log.iter().zip(&found) {
                        let (t, poly) = match want {
                            Entry::Mono(t) => (t, None),
                            Entry::Fun(t, v, g) => (t, Some((v, g))),
                        };
                        let t = r.zonk(t);
                        if !mt.same(&r, &r.quantified, mc, &t, &got.0) {
                            return fail(&format!("{} is inferred where {} is principal", sexp(&got.0), show(&t)));
                        }
                        if poly.is_some() != got.2 {
                            return fail("another kind of binder");
                        }
                        if let Some((v, g)) = poly {
                            let mut gens = vec![];
                            gens_of(&got.0, &mut gens);
                            gens.retain(|g| got.1.contains(g));
                            let want = ftv(&t).iter().filter(|x| v.contains(x)).count() + rigids(&t).iter().filter(|x| g.contains(x)).count();
                            if gens.len() != want {
                                return fail(&format!("{} is polymorphic in {} instead of {} type parameters", sexp(&got.0), gens.len(), want));
                            }
                        }
                    }
                }
            }
            true
        });
        total += c;
        ok += oks.into_inner();
        bad += bads.into_inner();
        types += tys.into_inner();
    }
    rep.cover(part.name, &[("programs", total), ("accepted", ok), ("rejected", bad), ("binder types compared", types), ("largest size", size as u64)], &[]);
}

/// Is it the type inference that complains?
fn type_error(e: &llrl::module::Error) -> bool {
    let s = format!("{:?}", e);
    s.contains("CannotUnifyType") || s.contains("OccursCheck")
}

fn sexp(t: &ast::Type) -> String {
    match t {
        ast::Type::Con(c) if *c == ast::TypeCon::unit() => "unit".into(),
        ast::Type::Gen(g) => format!("g{}", g.index_in_module()),
        ast::Type::App(f, a) => format!("({} {})", sexp(f), a.iter().map(sexp).collect::<Vec<_>>().join(" ")),
        t => format!("{:?}", t),
    }
}

fn gens_of(t: &ast::Type, o: &mut Vec<ast::NodeId<ast::TypeParameter>>) {
    match t {
        ast::Type::Gen(g) if !o.contains(g) => o.push(*g),
        ast::Type::App(f, a) => {
            gens_of(f, o);
            a.iter().for_each(|a| gens_of(a, o));
        }
        _ => {}
    }
}

fn rigids(t: &T) -> BTreeSet<usize> {
    match t {
        T::Rigid(i) => [*i].into(),
        T::Con(_, a) => a.iter().flat_map(rigids).collect(),
        _ => [].into(),
    }
}

fn sig(text: &'static str, foralls: &[&'static str], args: &[T], ret: T) -> Sig {
    Sig { text, foralls: foralls.to_vec(), args: args.to_vec(), ret }
}

fn parts(thorough: bool) -> Vec<Part> {
    use P::*;
    let (a, b) = (T::Name("A"), T::Name("B"));
    let max = if thorough { 14 } else { 12 };
    let grammar = |p: &[P]| Grammar::new(p, vec![], vec![], max);
    let m = |t: &T| T::Con("M", vec![t.clone()]);
    let tup = |a: &T, b: &T| T::Con(":", vec![a.clone(), b.clone()]);
    let outer = vec![
        sig("(forall A) (-> A A)", &["A"], &[a.clone()], a.clone()),
        sig("(forall A B) (-> A B)", &["A", "B"], &[a.clone()], b.clone()),
        sig("(forall A) (-> A Bool)", &["A"], &[a.clone()], con("Bool")),
        sig("(-> Bool Bool)", &[], &[con("Bool")], con("Bool")),
        sig("(forall A) (-> (M A) A)", &["A"], &[m(&a)], a.clone()),
        sig("(forall A) (-> A (M A))", &["A"], &[a.clone()], m(&a)),
        sig("(forall A B) (-> (: A B) (: B A))", &["A", "B"], &[tup(&a, &b)], tup(&b, &a)),
        sig("(forall A B) (-> (-> A B) (-> A B))", &["A", "B"], &[arrow(&[a.clone()], b.clone())], arrow(&[a.clone()], b.clone())),
        sig("(forall A B) (-> (-> A B) (-> B A))", &["A", "B"], &[arrow(&[a.clone()], b.clone())], arrow(&[b.clone()], a.clone())),
        sig("(forall A B) (-> (-> A A) (: A A))", &["A", "B"], &[arrow(&[a.clone()], a.clone())], tup(&a, &a)),
    ];
    let scoped = vec![
        sig("(-> A A)", &[], &[a.clone()], a.clone()),
        sig("(forall A) (-> A A)", &["A"], &[a.clone()], a.clone()),
        sig("(forall B) (-> B B)", &["B"], &[b.clone()], b.clone()),
        sig("(forall B) (-> B A)", &["B"], &[b.clone()], a.clone()),
        sig("(forall B) (-> A B)", &["B"], &[a.clone()], b.clone()),
        sig("(-> A Bool)", &[], &[a.clone()], con("Bool")),
        sig("(forall B) (-> B (: B A))", &["B"], &[b.clone()], tup(&b, &a)),
    ];
    let anns = vec![("A", a.clone()), ("Bool", con("Bool")), ("(-> A A)", arrow(&[a.clone()], a.clone())), ("(M A)", m(&a)), ("unit", con("unit"))];
    let closed = vec![("Bool", con("Bool")), ("(M Bool)", m(&con("Bool"))), ("(-> Bool Bool)", arrow(&[con("Bool")], con("Bool"))), ("(: unit unit)", tup(&con("unit"), &con("unit")))];
    let first: Vec<Sig> = outer.iter().filter(|s| s.foralls.contains(&"A")).cloned().collect();
    let local: Vec<Sig> = scoped.iter().filter(|s| !["(-> A A)", "(-> A Bool)", "(forall B) (-> B A)", "(forall B) (-> A B)", "(forall B) (-> B (: B A))"].contains(&s.text)).cloned().chain([outer[1].clone(), outer[2].clone(), outer[5].clone(), outer[3].clone()]).collect();
    vec![
        Part { name: "lambda", g: grammar(&[App1, LetV, LetF1]), form: Form::Group(vec![Some(1)]) },
        Part { name: "constants", g: grammar(&[Unit, True, App0, App1, App2, LetV, LetF0, LetF1, LetF2]), form: Form::Group(vec![Some(1)]) },
        Part { name: "value", g: grammar(&[True, App1, LetF1, LetV, LetF0, App0]), form: Form::Group(vec![None]) },
        Part { name: "mutual local functions", g: grammar(&[App1, LetFF, LetF1]), form: Form::Group(vec![Some(1)]) },
        Part { name: "mutual local functions with pairs", g: grammar(&[App1, LetFF, Pair, Unit]), form: Form::Group(vec![Some(1)]) },
        Part { name: "matching", g: grammar(&[Nothing, Just, Pair, App1, MatchM, MatchP, MatchAs, True]), form: Form::Group(vec![Some(1)]) },
        Part { name: "matching and functions", g: grammar(&[Just, Pair, App1, LetF1, LetV, MatchM, MatchP]), form: Form::Group(vec![Some(1)]) },
        Part { name: "control", g: grammar(&[Unit, True, Str, If, Seq, While, Ret, App1, LetF1]), form: Form::Group(vec![Some(1)]) },
        Part { name: "returns", g: grammar(&[True, Ret, If, LetF1, App1, LetV]), form: Form::Group(vec![Some(2)]) },
        Part { name: "two functions", g: grammar(&[Unit, App1, App2, Pair, If]), form: Form::Group(vec![Some(1), Some(1)]) },
        Part { name: "two functions with local ones", g: grammar(&[App1, Pair, LetF1, LetV, Just]), form: Form::Group(vec![Some(1), Some(1)]) },
        Part { name: "a value and a function", g: grammar(&[Unit, True, App1, Pair, Nothing, LetF1]), form: Form::Group(vec![None, Some(1)]) },
        Part { name: "three functions", g: grammar(&[App1, Pair, Unit]), form: Form::Group(vec![Some(1), Some(1), Some(1)]) },
        Part { name: "annotations", g: Grammar::new(&[Nothing, Just, App1, Ann, LetVAnn, LetF1, True], closed, vec![], max), form: Form::Group(vec![Some(1)]) },
        Part { name: "annotated local functions", g: Grammar::new(&[App1, Just, True, LetFAnn, LetF1, Pair], vec![], local, max), form: Form::Group(vec![Some(1)]) },
        Part { name: "signatures", g: grammar(&[True, Just, Pair, App1, LetF1, MatchM, MatchP]), form: Form::Signed(outer.clone()) },
        Part { name: "scoped type parameters", g: Grammar::new(&[True, Just, Nothing, App1, Ann, LetVAnn, LetFAnn], anns, scoped, max), form: Form::Signed(first) },
    ]
}

pub fn main(o: &Opts, rep: &'static Report) {
    let front = Front::new(&[("base", PRE)]);
    let budget = if o.thorough { 8_000_000 } else { 160_000 };
    for p in parts(o.thorough) {
        run_part(&front, o, rep, &p, budget);
    }
    crate::p08k::run(o, rep, &front);
}
