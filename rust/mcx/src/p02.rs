//! Preprocessor directives against an independent expander, over all small trees inside all small contexts.
use crate::common::*;
use crate::harness::*;
use llrl::lexer::Lexer;
use llrl::preprocess::Preprocessor;
use llrl::sexp::{Sexp, SexpRep, Ss};
use llrl::source_loc::{Location, LocationRange, SourceLocation, SourceLocator};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Environments are immutable chains: leaving a scope cannot disturb an outer one.
struct Env(String, Vec<Sexp>, Option<Rc<Env>>);
type En = Option<Rc<Env>>;

fn lookup(e: &En, n: &str) -> Option<Sexp> {
    let mut e = e.as_ref();
    while let Some(x) = e {
        if x.0 == n {
            return Some(x.1[0].clone());
        }
        e = x.2.as_ref();
    }
    None
}

fn bind(e: &En, n: &str, v: &Sexp) -> En {
    if n == "_" { e.clone() } else { Some(Rc::new(Env(n.to_string(), vec![v.clone()], e.clone()))) }
}

type X<T> = Result<T, ()>;

fn items(s: &Sexp) -> X<&[Sexp]> {
    match &s.rep {
        SexpRep::List(l) => Ok(l),
        _ => Err(()),
    }
}

fn var(s: &Sexp) -> X<&str> {
    match &s.rep {
        SexpRep::Symbol(n) if n == "_" || n.starts_with('$') => Ok(n),
        _ => Err(()),
    }
}

struct Ref<'a> {
    features: &'a [&'a str],
}

impl Ref<'_> {
    fn seq(&self, ss: &[Sexp], e: &En) -> X<Vec<Sexp>> {
        let mut out = vec![];
        for s in ss {
            out.extend(self.form(s, e)?);
        }
        Ok(out)
    }
    fn one(&self, s: &Sexp, e: &En) -> X<Sexp> {
        let mut v = self.form(s, e)?;
        if v.len() == 1 { Ok(v.pop().unwrap()) } else { Err(()) }
    }
    fn truth(&self, s: &Sexp, e: &En) -> X<bool> {
        match self.one(s, e)?.rep {
            SexpRep::Bool(b) => Ok(b),
            _ => Err(()),
        }
    }
    fn form(&self, s: &Sexp, e: &En) -> X<Vec<Sexp>> {
        let new = |rep| Sexp::new(s.loc, rep);
        match &s.rep {
            SexpRep::Symbol(n) if n.starts_with('$') => lookup(e, n).map(|v| vec![v]).ok_or(()),
            SexpRep::ListLike(l) => {
                let mut head = self.seq(std::slice::from_ref(&l.0), e)?;
                head.extend(self.seq(&l.1, e)?);
                let tail = self.one(&l.2, e)?;
                if head.is_empty() {
                    return Ok(vec![tail]);
                }
                Ok(vec![match tail.rep {
                    SexpRep::List(t) => {
                        head.extend(t);
                        new(SexpRep::List(head))
                    }
                    SexpRep::ListLike(t) => {
                        head.push(t.0);
                        head.extend(t.1);
                        let h = head.remove(0);
                        new(SexpRep::ListLike(Box::new((h, head, t.2))))
                    }
                    _ => {
                        let h = head.remove(0);
                        new(SexpRep::ListLike(Box::new((h, head, tail))))
                    }
                }])
            }
            SexpRep::List(l) => {
                let d = match l.first().map(|h| &h.rep) {
                    Some(SexpRep::Symbol(d)) => &**d,
                    _ => "",
                };
                match (d, l.get(1..).unwrap_or(&[])) {
                    ("$symbol", args) => {
                        let mut name = String::new();
                        for a in self.seq(args, e)? {
                            match a.rep {
                                SexpRep::Symbol(s) | SexpRep::String(s) => name += &s,
                                SexpRep::Char(c) => name.push(c),
                                _ => return Err(()),
                            }
                        }
                        if name.is_empty() { Err(()) } else { Ok(vec![new(SexpRep::Symbol(name.into()))]) }
                    }
                    ("$let", [bs, body @ ..]) => {
                        let mut inner = e.clone();
                        for b in items(bs)? {
                            let [n, v] = items(b)? else { return Err(()) };
                            let v = self.one(v, e)?;
                            inner = bind(&inner, var(n)?, &v);
                        }
                        self.seq(body, &inner)
                    }
                    ("$let1", [n, v, body @ ..]) => {
                        let v = self.one(v, e)?;
                        self.seq(body, &bind(e, var(n)?, &v))
                    }
                    ("$for1", [n, els, body @ ..]) => {
                        let els = self.one(els, e)?;
                        let mut out = vec![];
                        let n = var(n)?;
                        for v in items(&els)? {
                            out.extend(self.seq(body, &bind(e, n, v))?);
                        }
                        Ok(out)
                    }
                    ("$for", [ns, els, body @ ..]) => {
                        let ns = items(ns)?.iter().map(var).collect::<X<Vec<_>>>()?;
                        let els = self.one(els, e)?;
                        let rows = items(&els)?.iter().map(items).collect::<X<Vec<_>>>()?;
                        if rows.iter().any(|r| r.len() != ns.len()) {
                            return Err(());
                        }
                        let mut out = vec![];
                        for r in rows {
                            let inner = ns.iter().zip(r).fold(e.clone(), |i, (n, v)| bind(&i, n, v));
                            out.extend(self.seq(body, &inner)?);
                        }
                        Ok(out)
                    }
                    ("$when", [c, body @ ..]) => {
                        if self.truth(c, e)? { self.seq(body, e) } else { Ok(vec![]) }
                    }
                    ("$not", [c]) => Ok(vec![new(SexpRep::Bool(!self.truth(c, e)?))]),
                    ("$feature", [f]) => match self.one(f, e)?.rep {
                        SexpRep::String(f) => Ok(vec![new(SexpRep::Bool(self.features.contains(&&*f)))]),
                        _ => Err(()),
                    },
                    ("$let" | "$let1" | "$for" | "$for1" | "$when" | "$not" | "$feature", _) => Err(()),
                    _ => Ok(vec![new(SexpRep::List(self.seq(l, e)?))]),
                }
            }
            _ => Ok(vec![s.clone()]),
        }
    }
}

fn read(text: &str) -> Vec<Sexp> {
    llrl::parser::parse::<Ss, _>(&mut SourceLocator::temporary(), Lexer::new(text)).aggregate_errors().expect(text).ss
}

/// Fills the hole (the symbol HOLE) with `with`; every node gets a location of its own.
fn fill(s: &Sexp, with: &[&Sexp], at: &mut usize, locs: &[SourceLocation]) -> Sexp {
    if let SexpRep::Symbol(n) = &s.rep {
        if n == "HOLE" {
            if let Some((w, rest)) = with.split_first() {
                return fill(w, rest, at, locs);
            }
        }
    }
    let loc = locs[*at];
    *at += 1;
    let mut f = |s: &Sexp| fill(s, with, at, locs);
    Sexp::new(loc, match &s.rep {
        SexpRep::List(l) => SexpRep::List(l.iter().map(f).collect()),
        SexpRep::ListLike(l) => {
            let h = f(&l.0);
            let m = l.1.iter().map(&mut f).collect();
            SexpRep::ListLike(Box::new((h, m, f(&l.2))))
        }
        r => r.clone(),
    })
}

/// All trees of `size` nodes over `leaves`.
fn trees(size: usize, leaves: &[Sexp], out: &mut Vec<Vec<Sexp>>) {
    while out.len() <= size {
        let n = out.len();
        let mut v = vec![];
        if n == 1 {
            v.extend(leaves.iter().cloned());
        }
        if n >= 1 {
            // lists whose elements sum up to n - 1
            let mut stack: Vec<(usize, Vec<Sexp>)> = vec![(n - 1, vec![])];
            while let Some((left, l)) = stack.pop() {
                if left == 0 {
                    v.push(Sexp::new(leaves[0].loc, SexpRep::List(l)));
                    continue;
                }
                for k in 1..=left {
                    for t in &out[k] {
                        let mut l = l.clone();
                        l.push(t.clone());
                        stack.push((left - k, l));
                    }
                }
            }
        }
        out.push(v);
    }
}

fn asks(s: &Sexp) -> bool {
    match &s.rep {
        SexpRep::Symbol(s) => s == "$feature",
        SexpRep::List(l) => l.iter().any(asks),
        SexpRep::ListLike(l) => asks(&l.0) || l.1.iter().any(asks) || asks(&l.2),
        _ => false,
    }
}

const CONTEXTS: &[&str] = &[
    "HOLE", "x HOLE y", "(HOLE)", "(x HOLE)", "(HOLE x)", "(HOLE . y)", "(x HOLE . y)", "(x . HOLE)", "((x . HOLE) . HOLE)",
    "($let1 $a HOLE $a)", "($let1 $a x HOLE)", "($let1 $a x HOLE $a) ", "($let1 $a x HOLE) $a", "($let1 $a x HOLE) ($let1 $b $a $b)",
    "($let1 $a 1 ($let1 $a 2 HOLE $a) $a)", "($let1 $a HOLE ($let1 $b $a ($let1 $a 2 $b $a)))", "($let1 $b x HOLE)", "($let1 _ HOLE _)",
    "($let1 HOLE x $a)", "($let1 $a HOLE)", "($let1 $a)", "($let HOLE $a)", "($let (HOLE) $a)", "($let ([$a HOLE]) $a)", "($let ([$a x] [$b HOLE]) $b $a)",
    "($let ([$a x] [$a HOLE]) $a)", "($let ([$a x] [$a y]) HOLE) $a", "($let1 $a 1 ($let ([$a x] [$a y]) HOLE) $a HOLE)", "($let ([$a x] [$b $a]) HOLE)",
    "($let1 $a 1 ($let ([$a x] [$b $a]) HOLE $a $b) $a)", "($let1 $a 1 ($let ([$b $a] [$a x]) HOLE $a $b) $b)", "($let ([HOLE x]) $a)", "($let () HOLE)",
    "($let ([$a x] [_ HOLE] [$b y]) _ $a $b)", "($let ([$a x y]) HOLE)",
    "($for1 $a HOLE $a)", "($for1 $a (HOLE) $a)", "($for1 $a (1 2) HOLE)", "($for1 $a (1 2) $a HOLE $a)", "($for1 $a ((1 2) (3)) ($for1 $b $a HOLE ($a $b)))",
    "($for1 $a (1 HOLE) ($for1 $b ($a HOLE) ($a $b)))", "($for1 $a () HOLE)", "($for1 HOLE (1 2) x)", "($for1 $a 1 HOLE)", "($for1 $a (1 2) HOLE) $a", "($let1 $a 9 ($for1 $a (1 2) HOLE) $a)",
    "($for ($a $b) HOLE ($a $b))", "($for ($a $b) (HOLE) ($a $b))", "($for ($a $b) ((1 2) (3 HOLE)) ($b $a))", "($for ($a $b) ((1 2) (3 4)) HOLE)", "($for ($a) ((1) (2)) HOLE) $a",
    "($for (HOLE $a) ((1 2)) $a)", "($for HOLE ((1 2)) $a $b)", "($for () (() ()) HOLE)", "($for ($a $a) ((1 2)) HOLE $a) $a", "($let1 $a 9 ($for ($a $a) ((1 2)) HOLE $a) $a)", "($for (_ $a) ((1 HOLE) (2 3)) _ $a)",
    "($for ($a $b) ((1 2) (3)) HOLE)", "($for ($a) () HOLE)",
    "($when HOLE x)", "($when #t HOLE)", "($when #f HOLE)", "x ($when #t y HOLE z) w", "(x ($when #f HOLE) y)", "($when ($not HOLE) x)", "($when ($feature HOLE) x)", "($when HOLE)", "($when)", "($when #t)",
    "($when ($feature \"f\") HOLE) ($when ($not ($feature \"f\")) (n HOLE))", "($when ($feature \"f\") ($when ($not ($feature \"g\")) HOLE))", "($when ($feature \"g\") HOLE)",
    "($not HOLE)", "($not HOLE x)", "($not ($not HOLE))", "($feature HOLE)", "($feature HOLE \"f\")", "($symbol HOLE)", "($symbol x HOLE \"s\" #\\c)", "($symbol \"\" HOLE \"\")",
    "($let1 $a \"f\" ($feature $a) HOLE)", "($let1 $when 1 ($when #t $when HOLE))", "(x ($let1 $a (HOLE) $a $a))", "($let1 $a ($when HOLE y) $a)", "($let1 $a HOLE (x . $a))", "(($for1 $a HOLE $a) . HOLE)", "'HOLE", "`(x ,HOLE ,@HOLE)", "HOLE {HOLE}", "\"$a\" #\\$ HOLE",
];

pub fn main(o: &Opts, rep: &'static Report) {
    let mut locator = SourceLocator::temporary();
    let locs: Vec<SourceLocation> = (0..4000)
        .map(|i| {
            let l = Location { offset: i, line: 0, character: i };
            locator.issue(LocationRange::new(l, l))
        })
        .collect();
    let leaves = read("x $a $b _ #t #f \"f\" \"g\" $let1 $let $for1 $for $when $not $feature $symbol");
    let few = read("x $a #t #f \"f\" $let1 $for1 $when $not $feature $symbol");
    let (mut small, mut deep) = (vec![], vec![]);
    trees(4 + o.thorough as usize, &leaves, &mut small);
    trees(3 + o.thorough as usize, &few, &mut deep);
    let small: Vec<Sexp> = small.concat();
    let deep: Vec<Sexp> = deep.concat();
    let well = read("$a ($let1 $a y $a) ($for1 $a (1 2) ($a)) ($when ($feature \"f\") x) ($feature \"g\") ($not ($feature \"f\")) ($symbol $a \"s\") ($for ($a $b) ((1 2) (3 4)) $b $a) ($let ([$a 1] [$b $a]) $b) \"f\" #t (1 2) ((1 2)) ((1) (2)) ($a 5) (($a 5)) _ x");
    let contexts: Vec<Vec<Sexp>> = CONTEXTS.iter().map(|c| read(c)).collect();
    let total = AtomicU64::new(0);
    let valid = AtomicU64::new(0);
    let nc = contexts.len() as u64;
    let run = |part: &str, n: u64, build: &(dyn Fn(u64) -> Vec<Sexp> + Sync)| {
        let (t0, v0) = (total.load(SeqCst), valid.load(SeqCst));
        sweep(o.jobs, n, |i| {
            let input = build(i);
            let sets: [&[&str]; 4] = [&["f"], &[], &["g"], &["f", "g"]];
            // the features matter only where something asks for them
            for &features in &sets[..if input.iter().any(asks) { 4 } else { 1 }] {
                total.fetch_add(1, SeqCst);
                let want = Ref { features }.seq(&input, &None);
                let mut pp = Preprocessor::new();
                features.iter().for_each(|f| pp.enable_feature(*f));
                let mut ss = Ss::new(locs[0], input.clone());
                let shown = || format!("{:?} with features {:?}", Ss::new(locs[0], input.clone()).to_string(), features);
                let got = match guarded("a preprocessor input", || pp.run(&mut ss)) {
                    Err(p) => {
                        rep.violation(&format!("crash/{}", shown()), &format!("preprocessing {} crashes: {}", shown(), p), &shown());
                        continue;
                    }
                    Ok(r) => r,
                };
                match (want, got) {
                    (Err(()), Err(_)) => {}
                    (Ok(w), Ok(())) if w == ss.ss => {
                        valid.fetch_add(1, SeqCst);
                    }
                    (w, g) => {
                        let say = |r: Result<&Vec<Sexp>, String>| match r {
                            Ok(v) => {
                                let s: Vec<String> = v.iter().map(|s| s.to_string()).collect();
                                s.join(" ")
                            }
                            Err(e) => e,
                        };
                        let w2 = say(w.as_ref().map_err(|_| "an error".to_string()));
                        let g2 = say(g.as_ref().map(|_| &ss.ss).map_err(|e| format!("error {:?}", e)));
                        let note = if w2 == g2 { " (source locations differ)" } else { "" };
                        rep.violation(&format!("expand/{}", shown()), &format!("{} expands to {}, expected {}{}", shown(), g2, w2, note), &shown());
                    }
                }
            }
            rep.nviol.load(SeqCst) < 40
        });
        let n = total.load(SeqCst) - t0;
        rep.cover(part, &[("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("without_error", valid.load(SeqCst) - v0)], &[]);
        let s = Ss::new(locs[0], build(n / 8)).to_string();
        rep.sample(&format!("{}: {}", part, s));
    };
    let fill_all = |c: &[Sexp], with: &[&Sexp]| {
        let mut at = 0;
        c.iter().map(|s| fill(s, with, &mut at, &locs)).collect::<Vec<_>>()
    };
    let m = small.len() as u64;
    run("small-trees-in-contexts", nc * m, &|i| fill_all(&contexts[(i % nc) as usize], &[&small[(i / nc) as usize]]));
    // a context within a context, around small trees and around well-formed directives
    let singles: Vec<&Sexp> = contexts.iter().filter(|c| c.len() == 1).map(|c| &c[0]).collect();
    let ns = singles.len() as u64;
    let inner: Vec<&Sexp> = well.iter().chain(&deep).collect();
    let k = inner.len() as u64;
    run("nested-contexts", nc * ns * k, &|i| fill_all(&contexts[(i % nc) as usize], &[singles[(i / nc % ns) as usize], inner[(i / nc / ns) as usize]]));
    let w = well.len() as u64;
    run("twice-nested-contexts", nc * ns * ns * w, &|i| {
        fill_all(&contexts[(i % nc) as usize], &[singles[(i / nc % ns) as usize], singles[(i / nc / ns % ns) as usize], &well[(i / nc / ns / ns) as usize]])
    });
}
