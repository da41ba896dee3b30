//! Name resolution: every assignment of names to the binding and using places of nested scopes, every list of import
//! and export forms over small module graphs, and every pair of declarations of one name, against lexical scoping.
use crate::common::*;
use crate::front::*;
use crate::harness::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const BASE: &str = "(no-implicit-std) (import \"builtin\" _) (export _)
(function any {(forall Z) Z} any)
(function (same x y) {(forall Z) (-> Z Z unit)} unit)
(data T0 t0) (data T1 t1) (data T2 t2) (data T3 t3) (data T4 t4) (data T5 t5) (data T6 t6) (data T7 t7) (data T8 t8) (data T9 t9)
(data T10 t10) (data T11 t11) (data T12 t12) (data T13 t13) (data T14 t14) (data T15 t15)
";
const HEAD: &str = "(no-implicit-std) (import \"builtin\" _) (import \"base\" _)\n";

/// What a name stands for, with what shows that a use got it.
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// a function of one argument that returns this T
    Fun(usize),
    /// a value of this T
    Val(usize),
    /// a value of the type of this (uniquely named) witness
    Like(String),
    Fun2(usize),
    /// a type parameter or type of which the witness is a value
    Ty(String),
    /// a constructor without fields of this T-like type name, one of several
    Con(String),
    Class,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum U {
    Value,
    Type,
    Con,
    /// text only, within a pattern
    PatCon,
    /// text only, in a signature
    SigType,
    SigClass,
}

#[derive(Clone, Debug)]
enum N {
    S(String),
    /// a region in which the names defined in the scope are visible
    Scope(usize, Vec<N>),
    Def(Vec<usize>, Kind),
    Use(U),
    /// the name defined by the last but n-th hole
    Again(usize),
}

/// Scopes and witnesses get fresh numbers.
struct B {
    n: usize,
}

type Seq = Vec<N>;

fn s(x: &str) -> N {
    N::S(x.to_string())
}

macro_rules! seq {
    ($($e:expr),* $(,)?) => {{ let mut v: Seq = vec![]; $( v.extend(Into::<Part>::into($e).0); )* v }};
}
struct Part(Seq);
impl From<&str> for Part {
    fn from(x: &str) -> Part {
        Part(vec![s(x)])
    }
}
impl From<String> for Part {
    fn from(x: String) -> Part {
        Part(vec![N::S(x)])
    }
}
impl From<N> for Part {
    fn from(x: N) -> Part {
        Part(vec![x])
    }
}
impl From<Seq> for Part {
    fn from(x: Seq) -> Part {
        Part(x)
    }
}

impl B {
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n
    }
}

/// Numbers of the T types handed out to definitions, per tree.
fn ty(b: &mut B) -> usize {
    b.id()
}

const COMPOSITES: usize = 20;
/// (number of subexpressions) of each composite
fn arity(c: usize) -> usize {
    [2, 2, 3, 2, 3, 3, 2, 2, 2, 2, 3, 2, 1, 2, 3, 1, 2, 2, 1, 1][c]
}

fn compose(c: usize, e: Vec<Seq>, b: &mut B) -> Seq {
    let mut e = e.into_iter();
    let mut x = || e.next().unwrap();
    match c {
        // variables
        0 => {
            let (l, t) = (b.id(), ty(b));
            seq!["(let ([", N::Def(vec![l], Kind::Val(t)), format!("{{#{}}} (begin ", t), x(), " any)]) ", N::Scope(l, seq![x()]), ")"]
        }
        1 => {
            let (l, t) = (b.id(), ty(b));
            seq!["(let (", "[", N::Def(vec![l], Kind::Val(t)), format!("{{#{}}} any]) ", t), N::Scope(l, seq!["(begin ", x(), " ", x(), ")"]), ")"]
        }
        2 => {
            let (l, t, u) = (b.id(), ty(b), ty(b));
            seq!["(let ([", N::Def(vec![l], Kind::Val(t)), format!("{{#{}}} (begin ", t), x(), " any)] [",
                 N::Def(vec![l], Kind::Val(u)), format!("{{#{}}} (begin ", u), x(), " any)]) ", N::Scope(l, seq![x()]), ")"]
        }
        // a function
        3 => {
            let (l, f, p, t, q) = (b.id(), b.id(), b.id(), ty(b), ty(b));
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun(t)), " ", N::Def(vec![p], Kind::Val(q)),
                 format!(") {{(-> #{} #{})}} ", q, t), N::Scope(p, seq!["(begin ", x(), " any)"]), "]"]), ") ", N::Scope(l, seq![x()]), ")"]
        }
        // two functions
        4 => {
            let (l, f, p, p2, t, q, t2, q2) = (b.id(), b.id(), b.id(), b.id(), ty(b), ty(b), ty(b), ty(b));
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun(t)), " ", N::Def(vec![p], Kind::Val(q)),
                 format!(") {{(-> #{} #{})}} ", q, t), N::Scope(p, seq!["(begin ", x(), " any)"]), "] [(",
                 N::Def(vec![f, l], Kind::Fun(t2)), " ", N::Def(vec![p2], Kind::Val(q2)),
                 format!(") {{(-> #{} #{})}} ", q2, t2), N::Scope(p2, seq!["(begin ", x(), " any)"]), "]"]), ") ", N::Scope(l, seq![x()]), ")"]
        }
        // a function and a variable
        5 => {
            let (l, f, p, t, q, v) = (b.id(), b.id(), b.id(), ty(b), ty(b), ty(b));
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun(t)), " ", N::Def(vec![p], Kind::Val(q)),
                 format!(") {{(-> #{} #{})}} ", q, t), N::Scope(p, seq!["(begin ", x(), " any)"]), "] [",
                 N::Def(vec![l], Kind::Val(v)), format!("{{#{}}} (begin ", v), x(), " any)]"]), ") ", N::Scope(l, seq![x()]), ")"]
        }
        // a polymorphic function
        6 => {
            let (l, f, g, p, t) = (b.id(), b.id(), b.id(), b.id(), ty(b));
            let w = format!("w{}", b.id());
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun2(t)), " ", w.clone(), " z) {(forall ",
                 N::Def(vec![g], Kind::Ty(w)), ") ", N::Scope(g, seq!["(-> ", N::Again(0), " ", N::Use(U::SigType), format!(" #{})", t)]), "} ",
                 N::Scope(g, vec![N::Scope(p, seq!["(begin ", x(), " any)"])]), "]"]), ") ", N::Scope(l, seq![x()]), ")"]
        }
        // two parameters
        7 => {
            let (l, f, p, t, q, r) = (b.id(), b.id(), b.id(), ty(b), ty(b), ty(b));
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun2(t)), " ", N::Def(vec![p], Kind::Val(q)), " ", N::Def(vec![p], Kind::Val(r)),
                 format!(") {{(-> #{} #{} #{})}} ", q, r, t), N::Scope(p, seq!["(begin ", x(), " any)"]), "]"]), ") ",
                 N::Scope(l, seq![x()]), ")"]
        }
        // matches
        8 => {
            let (l, t) = (b.id(), ty(b));
            seq![format!("(match (begin "), x(), format!(" any){{#{}}} [(let ", t), N::Def(vec![l], Kind::Val(t)), ") ", N::Scope(l, seq!["(begin ", x(), " unit)"]), "])"]
        }
        9 => {
            let (l, t, u) = (b.id(), ty(b), ty(b));
            seq![format!("(match (begin "), x(), format!(" any){{(: #{} #{})}} [(: (let ", t, u), N::Def(vec![l], Kind::Val(t)), ") (let ",
                 N::Def(vec![l], Kind::Val(u)), ")) ", N::Scope(l, seq!["(begin ", x(), " unit)"]), "])"]
        }
        10 => {
            let (l, m, t) = (b.id(), b.id(), ty(b));
            seq![format!("(match (begin "), x(), format!(" any){{(: #{} Bool)}} [(: (let ", t), N::Def(vec![l], Kind::Val(t)), ") #t) ",
                 N::Scope(l, seq!["(begin ", x(), " unit)"]), "] [(: (let ", N::Def(vec![m], Kind::Val(t)), ") _) ", N::Scope(m, seq!["(begin ", x(), " unit)"]), "])"]
        }
        // as-pattern
        11 => {
            let (l, t) = (b.id(), ty(b));
            let w = format!("w{}", b.id());
            seq!["(match any [(let ", N::Def(vec![l], Kind::Like(w.clone())), format!(" (let {} (: (let ", w), N::Def(vec![l], Kind::Val(t)),
                 ") _))) ", N::Scope(l, seq![format!("(begin (same {} any{{(: #{} unit)}}) ", w, t), x(), " ", x(), " unit)"]), "])"]
        }
        12 => seq!["(return (begin ", x(), " any))"],
        13 => seq!["(while (begin ", x(), " #f) ", x(), ")"],
        14 => seq!["(if (begin ", x(), " #f) (begin ", x(), " unit) (begin ", x(), " unit))"],
        15 => seq!["(begin ", x(), " unit){unit}"],
        16 => seq!["(same (begin ", x(), " unit) (begin ", x(), " unit))"],
        // a function with two type parameters
        17 => {
            let (l, f, g, p, t) = (b.id(), b.id(), b.id(), b.id(), ty(b));
            let (w, w2) = (format!("w{}", b.id()), format!("w{}", b.id()));
            seq!["(let (", N::Scope(f, seq!["[(", N::Def(vec![f, l], Kind::Fun2(t)), format!(" {} {}) {{(forall ", w, w2),
                 N::Def(vec![g], Kind::Ty(w)), " ", N::Def(vec![g], Kind::Ty(w2)), ") ",
                 N::Scope(g, seq!["(-> ", N::Again(1), " ", N::Again(0), format!(" #{})", t)]), "} ",
                 N::Scope(g, vec![N::Scope(p, seq!["(begin ", x(), " any)"])]), "]"]), ") ", N::Scope(l, seq![x()]), ")"]
        }
        // a variable and a constructor in one pattern
        18 => {
            let (l, t) = (b.id(), ty(b));
            seq![format!("(match (: any{{#{}}} any) [(: (let ", t), N::Def(vec![l], Kind::Val(t)), ") ", N::Use(U::PatCon), ") ",
                 N::Scope(l, seq!["(begin ", x(), " unit)"]), "] [_ unit])"]
        }
        19 => {
            let (l, t) = (b.id(), ty(b));
            seq![format!("(match (: any any{{#{}}}) [(: ", t), N::Use(U::PatCon), " (let ", N::Def(vec![l], Kind::Val(t)), ")) ",
                 N::Scope(l, seq!["(begin ", x(), " unit)"]), "] [_ unit])"]
        }
        _ => unreachable!(),
    }
}

const PLACES: usize = 7;

/// The places of a module an expression can stand in.
fn place(p: usize, e: Seq, b: &mut B) -> Seq {
    match p {
        0 => seq!["(function (test) (begin ", e, " any))"],
        // a bare `return` has no function to return from here
        1 if matches!(&e[0], N::S(x) if x.starts_with("(return")) => seq!["(function (test) (begin ", e, " any))"],
        1 => seq![e],
        2 => {
            let (g, q) = (b.id(), b.id());
            let w = format!("w{}", b.id());
            seq!["(function (test ", N::Def(vec![q], Kind::Like(w.clone())), format!(" {} z) {{(forall ", w), N::Def(vec![g], Kind::Ty(w)), ") ",
                 N::Scope(g, seq!["(-> ", N::Again(0), " ", N::Again(0), " ", N::Use(U::SigType), " unit)"]), "} ",
                 N::Scope(g, vec![N::Scope(q, seq!["(begin ", e, " any)"])]), ")"]
        }
        3 => {
            let (c, g, q) = (b.id(), b.id(), b.id());
            let v = format!("w{}", b.id());
            seq!["(class (Cls ", N::Def(vec![c], Kind::Ty("_".into())), ") ", N::Scope(c, seq![
                 "(function (meth ", N::Def(vec![q], Kind::Like(v.clone())), format!(" {} z) {{(forall ", v), N::Def(vec![g], Kind::Ty(v)), ") ",
                 N::Scope(g, seq!["(-> ", N::Again(0), " ", N::Again(0), " ", N::Use(U::SigType), " unit)"]), "} ",
                 N::Scope(g, vec![N::Scope(q, seq!["(begin ", e, " any)"])]), ")"]), ")"]
        }
        4 => {
            let (c, q) = (b.id(), b.id());
            let w = format!("w{}", b.id());
            seq!["(class (Cls X) (function (meth x y) {(-> X X unit)}))\n(instance Inst (forall ", N::Def(vec![c], Kind::Ty("_".into())), ") ",
                 N::Scope(c, seq!["(Cls (: ", N::Again(0), " ", N::Use(U::SigType), ")) (function (meth ", N::Def(vec![q], Kind::Like(w.clone())), format!(" {}) ", w),
                 N::Scope(q, seq!["(begin ", e, " any)"]), ")"]), ")"]
        }
        5 => {
            let g = b.id();
            let w = format!("w{}", b.id());
            seq![format!("(function (test {}) {{(forall ", w), N::Def(vec![g], Kind::Ty(w)), ") ",
                 N::Scope(g, seq!["(-> ", N::Again(0), " unit) (where (", N::Use(U::SigClass), " ", N::Use(U::SigType), "))"]), "} ",
                 N::Scope(g, seq!["(begin ", e, " any)"]), ")"]
        }
        6 => {
            let g = b.id();
            seq!["(data (Dat ", N::Def(vec![g], Kind::Ty("_".into())), ") ", N::Scope(g, seq!["(dat ", N::Use(U::SigType), " ", N::Use(U::SigType), ")"]),
                 ")\n(function (test) (begin ", e, " any))"]
        }
        _ => unreachable!(),
    }
}

/// Modules whose names the tested module imports or defines.
const IMPORTED: &str = "(no-implicit-std) (import \"builtin\" _) (import \"base\" _) (export a b i1 i2 i3 I [c a])
(function (a x) {(forall Z) (-> Z T13)} any)
(data I i1 b) (data J i2 i3)
";

struct Env {
    text: &'static str,
    names: &'static [(&'static str, &'static str)],
}
/// "f:T" function, "c:T" constructor, "t:w" type with witness, "k" class
const ENVS: &[Env] = &[
    Env { text: "", names: &[] },
    Env { text: "(function (a x) {(forall Z) (-> Z T14)} any)", names: &[("a", "f:14")] },
    Env { text: "(data a w0) (data Tb b bb)", names: &[("a", "t:w0"), ("b", "c:Tb")] },
    Env { text: "(import \"imp\" a b I)", names: &[("a", "f:13"), ("b", "c:I")] },
    Env { text: "(data Ta a aa) (import \"imp\" [b I])", names: &[] },
    Env { text: "(class (a X)) (function (b x) {(forall Z) (-> Z T15)} any)", names: &[("a", "k"), ("b", "f:15")] },
];

#[derive(Clone)]
struct Hole {
    use_: Option<U>,
    /// index of the definition
    def: usize,
    /// scopes around a use
    around: Vec<usize>,
}

struct Template {
    seq: Seq,
    holes: Vec<Hole>,
    defs: Vec<(Vec<usize>, Kind)>,
}

fn template(seq: Seq) -> Template {
    fn walk(n: &N, around: &mut Vec<usize>, t: &mut Template) {
        match n {
            N::S(_) | N::Again(_) => {}
            N::Scope(i, ns) => {
                around.push(*i);
                ns.iter().for_each(|n| walk(n, around, t));
                around.pop();
            }
            N::Def(scopes, k) => {
                t.holes.push(Hole { use_: None, def: t.defs.len(), around: vec![] });
                t.defs.push((scopes.clone(), k.clone()));
            }
            N::Use(u) => t.holes.push(Hole { use_: Some(*u), def: usize::MAX, around: around.clone() }),
        }
    }
    let mut t = Template { seq: vec![], holes: vec![], defs: vec![] };
    seq.iter().for_each(|n| walk(n, &mut vec![], &mut t));
    // number the Ts of this tree compactly
    let mut ts: Vec<usize> = vec![];
    for (_, k) in t.defs.iter() {
        if let Kind::Fun(i) | Kind::Fun2(i) | Kind::Val(i) = k {
            if !ts.contains(i) {
                ts.push(*i)
            }
        }
    }
    fn rename(n: &mut N, ts: &[usize]) {
        match n {
            N::S(x) => {
                let mut out = String::new();
                let mut it = x.split('#');
                out.push_str(it.next().unwrap());
                for p in it {
                    let d: String = p.chars().take_while(|c| c.is_ascii_digit()).collect();
                    if d.is_empty() {
                        out.push('#');
                        out.push_str(p);
                    } else {
                        let k = ts.iter().position(|t| *t == d.parse::<usize>().unwrap()).unwrap();
                        assert!(k <= 12, "too many types");
                        out.push_str(&format!("T{}{}", k, &p[d.len()..]));
                    }
                }
                *x = out;
            }
            N::Scope(_, ns) => ns.iter_mut().for_each(|n| rename(n, ts)),
            _ => {}
        }
    }
    let mut seq = seq;
    seq.iter_mut().for_each(|n| rename(n, &ts));
    for (_, k) in t.defs.iter_mut() {
        if let Kind::Fun(i) | Kind::Fun2(i) | Kind::Val(i) = k {
            *i = ts.iter().position(|t| t == i).unwrap();
        }
    }
    t.seq = seq;
    t
}

fn env_kind(d: &str) -> Kind {
    match d.split_once(':') {
        Some(("f", t)) => Kind::Fun(t.parse().unwrap()),
        Some(("c", t)) => Kind::Con(t.into()),
        Some(("t", w)) => Kind::Ty(w.into()),
        _ => Kind::Class,
    }
}

enum Outcome {
    Rejected(&'static str),
    Resolved(Vec<Kind>),
}

/// The reference: lexical scoping.
fn resolve(t: &Template, env: &[(&str, Kind)], names: &[&str]) -> Outcome {
    let mut scopes: BTreeMap<(usize, &str), &Kind> = BTreeMap::new();
    for (h, name) in t.holes.iter().zip(names) {
        if h.use_.is_none() {
            for sc in t.defs[h.def].0.iter() {
                if scopes.insert((*sc, *name), &t.defs[h.def].1).is_some() {
                    return Outcome::Rejected("one scope defines a name twice");
                }
            }
        }
    }
    let mut out = vec![];
    for (h, name) in t.holes.iter().zip(names) {
        let Some(u) = h.use_ else { continue };
        let k = h
            .around
            .iter()
            .rev()
            .find_map(|sc| scopes.get(&(*sc, *name)).copied())
            .or_else(|| env.iter().find(|(n, _)| n == name).map(|(_, k)| k));
        let Some(k) = k else { return Outcome::Rejected("a use without a definition") };
        let ok = match u {
            U::Value => matches!(k, Kind::Fun(_) | Kind::Fun2(_) | Kind::Val(_) | Kind::Like(_) | Kind::Con(_)),
            U::Type | U::SigType => matches!(k, Kind::Ty(_)),
            U::Con | U::PatCon => matches!(k, Kind::Con(_)),
            U::SigClass => *k == Kind::Class,
        };
        if !ok {
            return Outcome::Rejected("a use of something of another sort");
        }
        out.push(k.clone());
    }
    Outcome::Resolved(out)
}

fn render(t: &Template, names: &[&str], resolved: Option<&[Kind]>) -> String {
    fn walk<'a>(n: &N, names: &[&'a str], defs: &mut Vec<&'a str>, i: &mut usize, j: &mut usize, r: Option<&[Kind]>, out: &mut String) {
        match n {
            N::S(x) => out.push_str(x),
            N::Scope(_, ns) => ns.iter().for_each(|n| walk(n, names, defs, i, j, r, out)),
            N::Again(k) => out.push_str(defs[defs.len() - 1 - k]),
            N::Def(..) => {
                defs.push(names[*i]);
                out.push_str(names[*i]);
                *i += 1;
            }
            N::Use(u) => {
                let name = names[*i];
                *i += 1;
                let k = r.map(|r| &r[*j]);
                *j += 1;
                match (u, k) {
                    (U::SigType | U::SigClass | U::PatCon, _) => out.push_str(name),
                    (U::Value, None) => out.push_str(name),
                    (U::Type, None) => out.push_str(&format!("any{{{}}}", name)),
                    (U::Con, None) => out.push_str(&format!("(match any [{} unit] [_ unit])", name)),
                    (U::Value, Some(Kind::Fun(t))) => out.push_str(&format!("({} any){{T{}}}", name, t)),
                    (U::Value, Some(Kind::Fun2(t))) => out.push_str(&format!("({} any any){{T{}}}", name, t)),
                    (U::Value, Some(Kind::Val(t))) => out.push_str(&format!("{}{{T{}}}", name, t)),
                    (U::Value, Some(Kind::Like(w))) => out.push_str(&format!("(same {} {})", name, w)),
                    (U::Value, Some(Kind::Con(t))) => out.push_str(&format!("{}{{{}}}", name, t)),
                    (U::Type, Some(Kind::Ty(w))) if w == "_" => out.push_str(&format!("any{{{}}}", name)),
                    (U::Type, Some(Kind::Ty(w))) => out.push_str(&format!("(same {} any{{{}}})", w, name)),
                    (U::Con, Some(Kind::Con(t))) => out.push_str(&format!("(match any{{{}}} [{} unit] [_ unit])", t, name)),
                    _ => unreachable!(),
                }
            }
        }
    }
    let mut out = String::new();
    let (mut i, mut j) = (0, 0);
    let mut defs = vec![];
    t.seq.iter().for_each(|n| walk(n, names, &mut defs, &mut i, &mut j, resolved, &mut out));
    out
}

fn short(f: &Failure) -> String {
    f.text.chars().take(300).collect()
}

fn expect(rep: &Report, front: &Front, key: &str, text: &str, why_not: Option<&str>) {
    match (front.check(text), why_not) {
        (Built::Ok(_), None) | (Built::Rejected(_), Some(_)) => {}
        (Built::Rejected(f), None) => rep.violation(key, &format!("rejected although every name has a definition: {} -- {}", short(&f), text), text),
        (Built::Ok(_), Some(w)) => rep.violation(key, &format!("accepted although it contains {}: {}", w, text), text),
        (b, _) => rep.violation(key, &format!("{}: {}", b.describe(), text), text),
    }
}

fn scopes(o: &Opts, rep: &Report) {
    let mut b = B { n: 0 };
    let leaves = [N::Use(U::Value), N::Use(U::Type), N::Use(U::Con)];
    let v = || vec![N::Use(U::Value)];
    // expressions as generators, so that every instance has scopes of its own
    type Gen = Box<dyn Fn(&mut B) -> Seq + Send + Sync>;
    let mut e1: Vec<Gen> = vec![];
    for c in 0..COMPOSITES {
        for k in 0..3usize.pow(arity(c) as u32) {
            let l = leaves.clone();
            // the uses of constructors and types are mixed into one place at a time
            let digits: Vec<usize> = (0..arity(c)).map(|i| k / 3usize.pow(i as u32) % 3).collect();
            if digits.iter().filter(|d| **d != 0).count() > 1 {
                continue;
            }
            e1.push(Box::new(move |b| compose(c, digits.iter().map(|d| vec![l[*d].clone()]).collect(), b)));
        }
    }
    let mut templates: Vec<Template> = vec![];
    for l in leaves.iter() {
        for p in 0..PLACES {
            let l = l.clone();
            templates.push(template(place(p, vec![l], &mut b)));
        }
    }
    for e in e1.iter() {
        for p in 0..PLACES {
            let x = e(&mut b);
            templates.push(template(place(p, x, &mut b)));
        }
    }
    let depth1 = templates.len();
    for c in 0..COMPOSITES {
        for pos in 0..arity(c) {
            for e in e1.iter() {
                let parts = (0..arity(c)).map(|i| if i == pos { e(&mut b) } else { v() }).collect();
                let x = compose(c, parts, &mut b);
                templates.push(template(place(0, x, &mut b)));
            }
        }
    }
    let mut deep = 0;
    if o.thorough {
        // one more level around the nestings that bind something
        for c in 0..12 {
            for pos in 0..arity(c) {
                for d in 0..12 {
                    for pos2 in 0..arity(d) {
                        for f in 0..12 {
                            let f = compose(f, (0..arity(f)).map(|_| v()).collect(), &mut b);
                            let inner = (0..arity(d)).map(|i| if i == pos2 { f.clone() } else { vec![s("unit")] }).collect();
                            let inner = compose(d, inner, &mut b);
                            let parts = (0..arity(c)).map(|i| if i == pos { inner.clone() } else { vec![s("unit")] }).collect();
                            let x = compose(c, parts, &mut b);
                            templates.push(template(place(0, x, &mut b)));
                            deep += 1;
                        }
                    }
                }
            }
        }
    }
    let envs: Vec<Vec<(&str, Kind)>> = ENVS
        .iter()
        .map(|e| {
            if e.text.contains("[b I]") {
                vec![("a", Kind::Con("Ta".into())), ("b", Kind::Ty("i1".into()))]
            } else {
                e.names.iter().map(|(n, d)| (*n, env_kind(d))).collect()
            }
        })
        .collect();
    let front = Front::new(&[("base", BASE), ("imp", IMPORTED)]);
    let limit = if o.thorough { 12 } else { 7 };
    let (programs, accepted, skipped) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    sweep(o.jobs, templates.len() as u64, |ti| {
        let t = &templates[ti as usize];
        if t.holes.len() > limit {
            skipped.fetch_add(1, SeqCst);
            return true;
        }
        for (ei, env) in ENVS.iter().enumerate() {
            if ti as usize >= depth1 && (ei == 0 || ei == 4) && !o.thorough {
                continue;
            }
            // type i1 is not imported by its own name there, its constructors are
            let text = if ei == 4 { format!("{} (import \"imp\" i1)", env.text) } else { env.text.to_string() };
            for k in 0..1u64 << t.holes.len() {
                let names: Vec<&str> = (0..t.holes.len()).map(|i| if k >> i & 1 == 0 { "a" } else { "b" }).collect();
                programs.fetch_add(1, SeqCst);
                let key = format!("scope/{}/{}/{}", ti, ei, k);
                match resolve(t, &envs[ei], &names) {
                    Outcome::Rejected(w) => expect(rep, &front, &key, &format!("{}{}\n{}", HEAD, text, render(t, &names, None)), Some(w)),
                    Outcome::Resolved(r) => {
                        accepted.fetch_add(1, SeqCst);
                        expect(rep, &front, &key, &format!("{}{}\n{}", HEAD, text, render(t, &names, Some(&r))), None);
                    }
                }
            }
        }
        rep.nviol.load(SeqCst) < 40
    });
    rep.cover(
        "scopes",
        &[
            ("templates", templates.len() as u64),
            ("of_three_levels", deep),
            ("programs", programs.load(SeqCst)),
            ("accepted", accepted.load(SeqCst)),
            ("templates_beyond_the_hole_limit", skipped.load(SeqCst)),
        ],
        &[],
    );
}

// ---------------------------------------------------------------- imports and exports

type Names = BTreeMap<String, usize>;

/// (target, new name)
const FORMS: &[(&str, Option<&str>)] = &[
    ("a", None),
    ("b", None),
    ("x:a", None),
    ("b", Some("a")),
    ("a", Some("x:a")),
    ("x:a", Some("q")),
    ("_", None),
    ("x:_", None),
    ("_a", None),
    ("x:_", Some("_")),
    ("_", Some("x:_")),
    ("x:_", Some("y:_")),
    ("_:a", Some("y_")),
    ("a_", None),
    ("_", Some("a")),
];

fn form_text(f: &(&str, Option<&str>)) -> String {
    match f.1 {
        None => f.0.to_string(),
        Some(n) => format!("[{} {}]", n, f.0),
    }
}

#[derive(Clone, Copy)]
enum Wild<'a> {
    All,
    Starts(&'a str),
    Ends(&'a str),
}

fn wild(s: &str) -> Option<Wild> {
    if s == "_" {
        Some(Wild::All)
    } else if let Some(e) = s.strip_prefix('_') {
        Some(Wild::Ends(e))
    } else {
        s.strip_suffix('_').map(Wild::Starts)
    }
}

/// Adds the names a form selects; None when that is an error.
fn select(from: &Names, form: &(&str, Option<&str>), to: &mut Names) -> Option<()> {
    let put = |to: &mut Names, n: String, c: usize| match to.insert(n, c) {
        Some(old) if old != c => None,
        _ => Some(()),
    };
    match wild(form.0) {
        Some(src) => {
            let dest = match form.1 {
                None => src,
                Some(n) => wild(n)?,
            };
            for (n, c) in from {
                let part = match src {
                    Wild::All => n.as_str(),
                    Wild::Starts(p) => match n.strip_prefix(p) {
                        Some(r) if !r.is_empty() => r,
                        _ => continue,
                    },
                    Wild::Ends(p) => match n.strip_suffix(p) {
                        Some(r) if !r.is_empty() => r,
                        _ => continue,
                    },
                };
                let new = match dest {
                    Wild::All => part.to_string(),
                    Wild::Starts(p) => format!("{}{}", p, part),
                    Wild::Ends(p) => format!("{}{}", part, p),
                };
                put(to, new, *c)?;
            }
            Some(())
        }
        None => put(to, form.1.unwrap_or(form.0).to_string(), *from.get(form.0)?),
    }
}

/// All lists of up to two forms.
fn lists(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    v.extend((0..n).map(|i| vec![i]));
    v.extend((0..n * n).map(|i| vec![i / n, i % n]));
    v
}

fn decl(kind: &str, forms: &[usize]) -> String {
    format!("({}{})\n", kind, forms.iter().map(|f| format!(" {}", form_text(&FORMS[*f]))).collect::<String>())
}

const UNIVERSE: &[&str] = &["a", "b", "x:a", "q", "x:b", "x:x:a", "y:a", "yx", "x:q", "ax:a", "x:", ":a", "y:q"];

/// Checks that `text` sees exactly `names`.
fn sees(rep: &Report, front: &Front, key: &str, text: &str, names: &Names, programs: &AtomicU64) {
    let uses: String = names.iter().map(|(n, c)| format!(" ({} any){{T{}}}", n, c)).collect();
    expect(rep, front, key, &format!("{}(begin{} unit)", text, uses), None);
    programs.fetch_add(1, SeqCst);
    // names that are not there, one by one
    for n in UNIVERSE {
        if !names.contains_key(*n) {
            programs.fetch_add(1, SeqCst);
            expect(rep, front, &format!("{}/{}", key, n), &format!("{}{}", text, n), Some("a name that is not imported"));
        }
    }
}

fn define(names: &[(&str, usize)]) -> String {
    names.iter().map(|(n, t)| format!("(function ({} x) {{(forall Z) (-> Z T{})}} any)\n", n, t)).collect()
}

fn imports(o: &Opts, rep: &Report) {
    let defs: [&[(&str, usize)]; 3] = [&[("a", 1), ("b", 2), ("x:a", 3)], &[("x:a", 1), ("x:b", 2)], &[("x:a", 4), ("q", 5), ("a", 6)]];
    let base: Vec<(&str, String)> = vec![("base", BASE.to_string())];
    let mk = |mods: &[(&str, String)]| Front::new(&mods.iter().map(|(p, t)| (*p, t.as_str())).collect::<Vec<_>>());
    let ls = lists(FORMS.len());
    let programs = AtomicU64::new(0);
    let graphs = AtomicU64::new(0);
    let hidden = std::sync::Mutex::new(BTreeSet::new());
    let own = |d: &[(&str, usize)]| d.iter().map(|(n, t)| (n.to_string(), *t)).collect::<Names>();
    // one exporter, one importer
    sweep(o.jobs, (ls.len() * defs.len()) as u64, |i| {
        let d = defs[i as usize % defs.len()];
        let exp = &ls[i as usize / defs.len()];
        let m1 = format!("{}{}{}", HEAD, define(d), decl("export", exp));
        let mut exports = Names::new();
        let ok = exp.iter().try_for_each(|f| select(&own(d), &FORMS[*f], &mut exports)).is_some();
        let f0 = mk(&base);
        match (f0.build("one".parse().unwrap(), &m1), ok) {
            (Built::Ok(_), true) => {}
            (Built::Rejected(_), false) => return true,
            (b, _) => {
                rep.violation(&format!("export/{}", i), &format!("exports that are {}: {}: {}", if ok { "fine" } else { "in conflict, missing or malformed" }, b.describe(), m1), &m1);
                return rep.nviol.load(SeqCst) < 40;
            }
        }
        // equal exports have the same importers
        if !hidden.lock().unwrap().insert((exports.clone(), i as usize % defs.len())) && !o.thorough {
            return true;
        }
        let front = mk(&[base[0].clone(), ("one", m1)]);
        for (j, imp) in ls.iter().enumerate() {
            graphs.fetch_add(1, SeqCst);
            let text = format!("{}{}", HEAD, decl("import \"one\"", imp));
            let mut seen = Names::new();
            let key = format!("import/{}/{}", i, j);
            if imp.iter().try_for_each(|f| select(&exports, &FORMS[*f], &mut seen)).is_none() {
                programs.fetch_add(1, SeqCst);
                expect(rep, &front, &key, &text, Some("an import of a missing name, in conflict, or malformed"));
            } else if imp.len() < 2 || o.thorough || exp.len() < 2 {
                sees(rep, &front, &key, &text, &seen, &programs);
            } else {
                let uses: String = seen.iter().map(|(n, c)| format!(" ({} any){{T{}}}", n, c)).collect();
                programs.fetch_add(1, SeqCst);
                expect(rep, &front, &key, &format!("{}(begin{} unit)", text, uses), None);
            }
        }
        rep.nviol.load(SeqCst) < 40
    });
    // an exporter, a module in between with or without a definition of its own, an importer of both
    let mids: [&[(&str, usize)]; 4] = [&[], &[("a", 7)], &[("q", 7)], &[("x:b", 7), ("b", 8)]];
    let one = format!("{}{}(export _)", HEAD, define(defs[0]));
    let exports1 = own(defs[0]);
    let n = FORMS.len() + 1;
    let small = |i: usize| if i == 0 { vec![] } else { vec![i - 1] };
    sweep(o.jobs, (n * n * mids.len()) as u64, |i| {
        let i = i as usize;
        let (imp, exp, mid) = (small(i % n), small(i / n % n), mids[i / n / n]);
        let m2 = format!("{}{}{}{}", HEAD, decl("import \"one\"", &imp), define(mid), decl("export", &exp));
        let mut top = Names::new();
        let mut exports = Names::new();
        let ok = (|| {
            imp.iter().try_for_each(|f| select(&exports1, &FORMS[*f], &mut top))?;
            for (n, t) in mid {
                if top.insert(n.to_string(), *t).is_some() {
                    return None;
                }
            }
            exp.iter().try_for_each(|f| select(&top, &FORMS[*f], &mut exports))
        })()
        .is_some();
        let f1 = mk(&[base[0].clone(), ("one", one.clone())]);
        match (f1.build("two".parse().unwrap(), &m2), ok) {
            (Built::Ok(_), true) => {}
            (Built::Rejected(_), false) => return true,
            (b, _) => {
                rep.violation(&format!("chain/{}", i), &format!("a module that is {}: {}: {}", if ok { "fine" } else { "in error" }, b.describe(), m2), &m2);
                return rep.nviol.load(SeqCst) < 40;
            }
        }
        let front = mk(&[base[0].clone(), ("one", one.clone()), ("two", m2)]);
        for j in 0..n * n {
            let (a, b) = (small(j % n), small(j / n));
            if !o.thorough && !a.is_empty() && !b.is_empty() && (i + j) % 3 != 0 {
                continue;
            }
            graphs.fetch_add(1, SeqCst);
            let text = format!("{}{}{}", HEAD, decl("import \"two\"", &a), decl("import \"one\"", &b));
            let mut seen = Names::new();
            let ok = a.iter().try_for_each(|f| select(&exports, &FORMS[*f], &mut seen)).and_then(|_| b.iter().try_for_each(|f| select(&exports1, &FORMS[*f], &mut seen)));
            let key = format!("chain/{}/{}", i, j);
            if ok.is_none() {
                programs.fetch_add(1, SeqCst);
                expect(rep, &front, &key, &text, Some("an import of a missing name, in conflict, or malformed"));
            } else {
                sees(rep, &front, &key, &text, &seen, &programs);
            }
        }
        rep.nviol.load(SeqCst) < 40
    });
    // the implicit std gives way to explicit imports, and only it does
    let std = format!("{}{}(export _)", HEAD, define(&[("a", 9), ("b", 10)]));
    let front = mk(&[base[0].clone(), ("one", one), ("std", std)]);
    for j in 0..n * 2 {
        let imp = small(j % n);
        let text = format!("(import \"builtin\" _) (import \"base\" _) {}{}", if j >= n { "(no-implicit-std)" } else { "" }, decl("import \"one\"", &imp));
        let mut seen = Names::new();
        if imp.iter().try_for_each(|f| select(&exports1, &FORMS[*f], &mut seen)).is_none() {
            expect(rep, &front, &format!("std/{}", j), &text, Some("an import of a missing name, in conflict, or malformed"));
            continue;
        }
        if j < n {
            seen.entry("a".into()).or_insert(9);
            seen.entry("b".into()).or_insert(10);
        }
        sees(rep, &front, &format!("std/{}", j), &text, &seen, &programs);
        for (name, _) in [("a", 0), ("b", 0), ("q", 0)] {
            let t = format!("{}{}", text, define(&[(name, 11)]));
            let clash = seen.contains_key(name);
            let t = if clash { t } else { format!("{}({} any){{T11}}", t, name) };
            programs.fetch_add(1, SeqCst);
            expect(rep, &front, &format!("std/{}/{}", j, name), &t, if clash { Some("a name that is both defined and imported") } else { None });
        }
    }
    rep.cover("imports and exports", &[("graphs", graphs.load(SeqCst)), ("programs", programs.load(SeqCst))], &[]);
}

/// Every pair of top-level declarations of names, and of several definitions within one declaration.
fn declarations(o: &Opts, rep: &Report) {
    let front = Front::new(&[("base", BASE), ("imp", IMPORTED)]);
    // declarations that define N, and one other unique name U where they need one
    let kinds = [
        "(function (N x) {(-> unit unit)} unit)",
        "(function N {unit} unit)",
        "(c-function N {(-> unit unit)} \"cn\")",
        "(macro (N s) (return any))",
        "(data N U)",
        "(data U N)",
        "(data U (N unit) V)",
        "(data U V N)",
        "(class (N X))",
        "(class (U X) (function (N x) {(-> X unit)}))",
        "(class (U X) (function (V x) {(-> X unit)}) (function (N x) {(-> X unit)} unit))",
        "(instance N (Empty T0))",
        "(import \"imp\" [N i1])",
        "(import \"imp\" [N I])",
        "(begin (function (N x) {(-> unit unit)} unit))",
    ];
    let mut n = 0;
    let fill = |k: &str, name: &str, i: usize| {
        k.replace('N', name).replace('U', &format!("u{}", i)).replace('V', &format!("v{}", i)).replace(&format!("{}ot", name), "Not")
    };
    let head = format!("{}(class (Empty X))\n", HEAD);
    for (i, a) in kinds.iter().enumerate() {
        for (j, b) in kinds.iter().enumerate() {
            for (x, y) in [("p", "p"), ("p", "q")] {
                n += 1;
                // two instances of one class for one type are another property's
                if i == 11 && j == 11 && x != y {
                    continue;
                }
                let t = format!("{}{}\n{}", head, fill(a, x, 1), fill(b, y, 2));
                // importing the same thing twice is fine
                let clash = x == y && !(i == j && (i == 12 || i == 13));
                expect(rep, &front, &format!("pair/{}/{}/{}", i, j, y), &t, if clash { Some("two declarations of one name") } else { None });
            }
        }
    }
    // several definitions within one declaration
    let within = [
        ("(function (F D1 D2) {(-> unit unit unit)} unit)", true),
        ("(function (F x y) {(forall D1 D2) (-> D1 D2 unit)} unit)", true),
        ("(data (F D1 D2) (k D1 D2))", true),
        ("(data F D1 D2)", true),
        ("(data D1 D2)", true),
        ("(data F (D1 unit) D2)", true),
        ("(class (F D1 D2) (function (m x y) {(-> D1 D2 unit)}))", true),
        ("(class (F X) (function (D1 x) {(-> X unit)}) (function (D2 x) {(-> X unit)}))", true),
        ("(class (D1 X) (function (D2 x) {(-> X unit)}))", true),
        ("(class (Two X Y)) (instance F (forall D1 D2) (Two D1 D2))", true),
        ("(class (F X) (function (m x y) {(forall D1 D2) (-> D1 D2 unit)}))", true),
        ("(let ([D1 unit] [D2 unit]) unit)", true),
        ("(let ([(D1) unit] [(D2) unit]) unit)", true),
        ("(let ([(D1) unit] [D2 unit]) unit)", true),
        ("(let ([(f D1 D2) unit]) unit)", true),
        ("(match any{(: unit unit)} [(: (let D1) (let D2)) unit])", true),
        ("(match any{unit} [(let D1 (let D2)) unit])", true),
        ("(match any{(: unit unit)} [(let D1 (: (let D2) _)) unit])", true),
        ("(function (F D1) {(forall D2) (-> D2 unit)} unit)", false),
        ("(let ([(D1 D2) unit]) unit)", false),
        ("(class (F D1) (function (m x) {(forall D2) (-> D2 unit)}))", false),
        ("(let ([D1 unit]) (let ([D2 unit]) unit))", false),
        ("(match unit [(let D1) (match unit [(let D2) unit])])", false),
        ("(data (D1 D2) k)", false),
        ("(begin (let ([D1 unit]) unit) (let ([D2 unit]) unit))", false),
    ];
    for (i, (t, clash)) in within.iter().enumerate() {
        for (x, y) in [("p", "p"), ("p", "q"), ("q", "p")] {
            n += 1;
            let t = format!("{}{}", HEAD, t.replace("D1", x).replace("D2", y).replace('F', "fff"));
            expect(rep, &front, &format!("within/{}/{}{}", i, x, y), &t, if *clash && x == y { Some("two definitions of one name in one scope") } else { None });
        }
    }
    // instance methods are the class's, whatever is in scope under their names
    let classes = Front::new(&[
        ("base", BASE),
        ("cls", &format!("{}(export _) (class (C X) (function (m x) {{(-> X T1)}}) (function (d x) {{(-> X T2)}} any))", HEAD)),
    ]);
    let methods = [
        ("m", "(function (m x) (begin x any{T1}))", 1),
        ("d", "(function (d x) (begin x any{T2}))", 1),
        ("j", "(function (j x) (begin x any))", 1),
        ("m", "(function (m) any)", 0),
        ("m", "(function (m x y) any)", 2),
        ("d", "(function d any)", 9),
    ];
    let scopes = ["(import \"cls\" C)", "(import \"cls\" _)", "(import \"cls\" C) (function (m x) {(-> unit T5)} any)", "(import \"cls\" C m) (function (j x) {(-> unit T5)} any)", "(import \"cls\" [C C] [d m])", "(import \"cls\" m d)"];
    for (si, sc) in scopes.iter().enumerate() {
        for l in lists(methods.len()).into_iter().chain((0..27).map(|i| vec![i % 3, i / 3 % 3, i / 9])) {
            n += 1;
            let t = format!("{}{}(instance Ins (C T0) {})", HEAD, sc, l.iter().map(|i| methods[*i].1).collect::<Vec<_>>().join(" "));
            let names: Vec<&str> = l.iter().map(|i| methods[*i].0).collect();
            let why = if si == 5 {
                Some("a class that is not imported")
            } else if names.contains(&"j") {
                Some("a method its class does not have")
            } else if names.iter().collect::<BTreeSet<_>>().len() < names.len() {
                Some("one method twice")
            } else if !names.contains(&"m") {
                Some("an instance without a required method")
            } else if l.iter().any(|i| methods[*i].2 != 1) {
                Some("a method with another number of parameters")
            } else {
                None
            };
            expect(rep, &classes, &format!("instance/{}/{:?}", si, l), &t, why);
        }
    }
    let _ = o;
    rep.cover("declarations", &[("programs", n)], &[]);
}

pub fn main(o: &Opts, rep: &Report) {
    declarations(o, rep);
    imports(o, rep);
    scopes(o, rep);
}
