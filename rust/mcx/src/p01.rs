//! Reading source text: lexer and parser against an independent reader, printing against re-reading, locations.
use crate::common::*;
use crate::harness::*;
use llrl::lexer::Lexer;
use llrl::path::Path;
use llrl::sexp::{Sexp, SexpRep, Ss};
use llrl::source_loc::SourceLocationTable;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn strtod(s: *const std::os::raw::c_char, end: *mut *mut std::os::raw::c_char) -> f64;
}

// ---- the reference reader ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum T {
    Int(bool, u64),
    Fp(f64),
    Sym(String),
    Str(String),
    Ch(char),
    P(&'static str),
    Bad,
}

#[derive(Clone, Debug)]
enum R {
    Int(bool, u64),
    Fp(f64),
    Sym(String),
    Str(String),
    Ch(char),
    Bool(bool),
    List(Vec<N>),
    Dotted(Vec<N>, Box<N>),
}

#[derive(Clone, Debug)]
struct N {
    /// the text it was read from; an empty text lies somewhere in lo..=hi
    lo: usize,
    hi: usize,
    empty: bool,
    rep: R,
}

fn number(s: &str) -> Option<T> {
    let b = s.as_bytes();
    let (neg, d) = match b.first()? {
        b'-' => (true, &b[1..]),
        b'+' => (false, &b[1..]),
        _ => (false, b),
    };
    if !d.is_empty() && d.iter().all(|c| c.is_ascii_digit()) {
        let mut v: u128 = 0;
        for c in d {
            v = (v * 10 + (c - b'0') as u128).min(1 << 100);
        }
        if !neg && v < 1 << 64 {
            return Some(T::Int(false, v as u64));
        }
        if neg && v <= 1 << 63 {
            return Some(T::Int(true, (v as u64).wrapping_neg()));
        }
    }
    // infinities and NaN are numbers too
    if ["inf", "infinity", "nan"].iter().any(|w| d.eq_ignore_ascii_case(w.as_bytes())) {
        let x = if (d[0] | 32) == b'n' { f64::NAN } else { f64::INFINITY };
        return Some(T::Fp(if neg { -x } else { x }));
    }
    // [digits] [. digits] with at least one digit, then an optional exponent with at least one digit
    let mut i = 0;
    let mut digits = 0;
    while i < d.len() && d[i].is_ascii_digit() {
        i += 1;
        digits += 1;
    }
    if i < d.len() && d[i] == b'.' {
        i += 1;
        while i < d.len() && d[i].is_ascii_digit() {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return None;
    }
    if i < d.len() && (d[i] | 32) == b'e' {
        i += 1;
        if i < d.len() && (d[i] == b'+' || d[i] == b'-') {
            i += 1;
        }
        let k = i;
        while i < d.len() && d[i].is_ascii_digit() {
            i += 1;
        }
        if i == k {
            return None;
        }
    }
    if i != d.len() {
        return None;
    }
    let c = std::ffi::CString::new(s).unwrap();
    Some(T::Fp(unsafe { strtod(c.as_ptr(), std::ptr::null_mut()) }))
}

fn unesc(c: char) -> Option<char> {
    match c {
        't' => Some('\t'),
        'r' => Some('\r'),
        'n' => Some('\n'),
        '"' => Some('"'),
        '\\' => Some('\\'),
        _ => None,
    }
}

fn tokens(s: &str) -> Vec<(usize, usize, T)> {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|c| c.1);
    let off = |i: usize| cs.get(i).map_or(s.len(), |c| c.0);
    let id = |c: char| c.is_ascii_alphanumeric() || "!$%&*+-./:<=>?^_|".contains(c);
    let mut out = vec![];
    let mut i = 0;
    while let Some(c) = at(i) {
        let st = i;
        let t = if " \t\r\n".contains(c) {
            i += 1;
            continue;
        } else if c == ';' {
            while at(i).map_or(false, |c| c != '\n') {
                i += 1;
            }
            continue;
        } else if id(c) {
            while at(i).map_or(false, id) {
                i += 1;
            }
            let w = &s[off(st)..off(i)];
            match w {
                "." => T::P("."),
                "?" => T::P("?"),
                "!" => T::P("!"),
                _ => number(w).unwrap_or_else(|| T::Sym(w.into())),
            }
        } else if c == '"' {
            i += 1;
            let mut v = String::new();
            loop {
                match at(i) {
                    None => break T::Bad,
                    Some('"') => {
                        i += 1;
                        break T::Str(v);
                    }
                    Some('\\') => match at(i + 1).and_then(unesc) {
                        Some(e) => {
                            v.push(e);
                            i += 2;
                        }
                        None => {
                            i += 1;
                            break T::Bad;
                        }
                    },
                    Some(c) => {
                        v.push(c);
                        i += 1;
                    }
                }
            }
        } else if c == '#' {
            match at(i + 1) {
                Some('t') => {
                    i += 2;
                    T::P("#t")
                }
                Some('f') => {
                    i += 2;
                    T::P("#f")
                }
                Some('\\') => match at(i + 2) {
                    None => {
                        i += 2;
                        T::Bad
                    }
                    Some('\\') => match at(i + 3).and_then(unesc) {
                        Some(e) => {
                            i += 4;
                            T::Ch(e)
                        }
                        None => {
                            i += 3;
                            T::Bad
                        }
                    },
                    Some(c) => {
                        i += 3;
                        T::Ch(c)
                    }
                },
                _ => {
                    i += 1;
                    T::Bad
                }
            }
        } else if c == ',' && at(i + 1) == Some('@') {
            i += 2;
            T::P(",@")
        } else if let Some(p) = ["(", ")", "[", "]", "{", "}", "'", "`", "\\", "~", ",", "@"].iter().find(|p| p.starts_with(c)) {
            i += 1;
            T::P(p)
        } else {
            i += 1;
            T::Bad
        };
        out.push((off(st), off(i), t));
    }
    out
}

struct Ref {
    t: Vec<(usize, usize, T)>,
    i: usize,
}

/// start of the offending token (or the end of the last one)
type E = usize;

impl Ref {
    fn p(&self) -> Option<&'static str> {
        match self.t.get(self.i) {
            Some((_, _, T::P(p))) => Some(p),
            _ => None,
        }
    }
    fn end(&self) -> usize {
        if self.i == 0 { 0 } else { self.t[self.i - 1].1 }
    }
    fn err(&self) -> E {
        self.t.get(self.i).map_or(self.end(), |t| t.0)
    }
    fn eat(&mut self, p: &str) -> Result<(), E> {
        if self.p() == Some(p) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.err())
        }
    }
    fn starts(&self) -> bool {
        match self.t.get(self.i) {
            None => false,
            Some((_, _, T::P(p))) => !matches!(*p, "." | "@" | "?" | "!" | ")" | "]" | "}"),
            Some(_) => true,
        }
    }
    fn seq(&mut self) -> Result<Vec<N>, E> {
        let mut v = vec![];
        while self.starts() {
            v.push(self.sexp()?);
        }
        Ok(v)
    }
    fn body(&mut self) -> Result<R, E> {
        let mut v = self.seq()?;
        match self.p() {
            Some("@") => {
                self.i += 1;
                let lo = self.end();
                let st = self.err();
                let rep = self.body()?;
                v.push(if self.end() == lo {
                    N { lo, hi: st, empty: true, rep }
                } else {
                    N { lo: st, hi: self.end(), empty: false, rep }
                });
                Ok(R::List(v))
            }
            Some(".") => {
                self.i += 1;
                let l = self.sexp()?;
                if v.is_empty() {
                    return Ok(l.rep);
                }
                Ok(match l.rep {
                    R::List(w) => {
                        v.extend(w);
                        R::List(v)
                    }
                    R::Dotted(w, e) => {
                        v.extend(w);
                        R::Dotted(v, e)
                    }
                    _ => R::Dotted(v, Box::new(l)),
                })
            }
            _ => Ok(R::List(v)),
        }
    }
    fn sexp(&mut self) -> Result<N, E> {
        let Some((lo, _, t)) = self.t.get(self.i).cloned() else { return Err(self.err()) };
        let quoted = |n: &str| Some(n.to_string());
        let mut q = None;
        let rep = match t {
            T::Bad => return Err(lo),
            T::Int(s, v) => R::Int(s, v),
            T::Fp(v) => R::Fp(v),
            T::Sym(s) => R::Sym(s),
            T::Str(s) => R::Str(s),
            T::Ch(c) => R::Ch(c),
            T::P("#t") => R::Bool(true),
            T::P("#f") => R::Bool(false),
            T::P(p) => {
                q = match p {
                    "'" => quoted("quote"),
                    "`" => quoted("quasiquote"),
                    "," => quoted("unquote"),
                    ",@" => quoted("unquote-splicing"),
                    "\\" => quoted("capture"),
                    "~" => quoted("load"),
                    "(" | "[" => None,
                    _ => return Err(lo),
                };
                R::Bool(false)
            }
        };
        let p = self.p();
        self.i += 1;
        let rep = if let Some(q) = q {
            let s = N { lo, hi: self.end(), empty: false, rep: R::Sym(q) };
            R::List(vec![s, self.sexp()?])
        } else if p == Some("(") || p == Some("[") {
            let b = self.body()?;
            self.eat(if p == Some("(") { ")" } else { "]" })?;
            b
        } else {
            rep
        };
        let mut n = N { lo, hi: self.end(), empty: false, rep };
        loop {
            let (name, mut rest) = match self.p() {
                Some("?") => {
                    self.i += 1;
                    ("try?", vec![])
                }
                Some("!") => {
                    self.i += 1;
                    ("try!", vec![])
                }
                Some("{") => {
                    self.i += 1;
                    let r = self.seq()?;
                    self.eat("}")?;
                    ("annotate", r)
                }
                _ => return Ok(n),
            };
            let mut v = vec![N { lo, hi: self.end(), empty: false, rep: R::Sym(name.into()) }, n];
            v.append(&mut rest);
            n = N { lo, hi: self.end(), empty: false, rep: R::List(v) };
        }
    }
    fn all(&mut self) -> Result<Vec<N>, E> {
        let v = self.seq()?;
        if self.i < self.t.len() {
            return Err(self.err());
        }
        Ok(v)
    }
}

fn reference(s: &str) -> Result<Vec<N>, E> {
    Ref { t: tokens(s), i: 0 }.all()
}

// ---- comparing --------------------------------------------------------------------------------------------------

fn same_num(a: &R, b: &R) -> bool {
    let f = |r: &R| match r {
        R::Int(true, v) => Ok(*v as i64 as i128),
        R::Int(false, v) => Ok(*v as i128),
        R::Fp(x) => Err(*x),
        _ => unreachable!(),
    };
    match (f(a), f(b)) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => x == y || x.is_nan() && y.is_nan(),
        (Ok(i), Err(x)) | (Err(x), Ok(i)) => i as f64 == x,
    }
}

/// by_value: numbers are the same when their values are
fn same(a: &N, b: &SexpRep, by_value: bool) -> bool {
    let all = |a: &[N], b: &[Sexp]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, &y.rep, by_value));
    match (&a.rep, b) {
        (R::Int(s, v), SexpRep::Integer(t, w)) if !by_value => s == t && v == w,
        (R::Fp(x), SexpRep::FPNumber(y)) if !by_value => x.to_bits() == y.0.to_bits(),
        (R::Int(..) | R::Fp(_), SexpRep::Integer(..) | SexpRep::FPNumber(_)) if by_value => {
            let c = match b {
                SexpRep::Integer(s, v) => R::Int(*s, *v),
                SexpRep::FPNumber(x) => R::Fp(x.0),
                _ => unreachable!(),
            };
            same_num(&a.rep, &c)
        }
        (R::Sym(x), SexpRep::Symbol(y)) => x == y,
        (R::Str(x), SexpRep::String(y)) => x == y,
        (R::Ch(x), SexpRep::Char(y)) => x == y,
        (R::Bool(x), SexpRep::Bool(y)) => x == y,
        (R::List(x), SexpRep::List(y)) => all(x, y),
        (R::Dotted(x, e), SexpRep::ListLike(l)) => {
            x.len() == l.1.len() + 1 && same(&x[0], &l.0.rep, by_value) && all(&x[1..], &l.1) && same(e, &l.2.rep, by_value)
        }
        _ => false,
    }
}

fn locations(table: &SourceLocationTable, text: &str, n: &N, s: &Sexp) -> Result<(), String> {
    let (_, r) = table.review(s.loc);
    for l in [r.start, r.end] {
        let o = l.offset as usize;
        if o > text.len() || !text.is_char_boundary(o) {
            return Err(format!("a location lies outside the text: {}", o));
        }
        let before = &text[..o];
        let line = before.matches('\n').count();
        let ch = o - before.rfind('\n').map_or(0, |i| i + 1);
        if (l.line as usize, l.character as usize) != (line, ch) {
            return Err(format!("offset {} is line {} character {}, not {:?}", o, line, ch, l));
        }
    }
    let (a, b) = (r.start.offset as usize, r.end.offset as usize);
    let ok = if n.empty { a <= b && n.lo <= a && b <= n.hi } else { (a, b) == (n.lo, n.hi) };
    if !ok {
        return Err(format!("{} was read from {}..{} but is located at {}..{}", s, n.lo, n.hi, a, b));
    }
    let kids: Vec<&Sexp> = match &s.rep {
        SexpRep::List(l) => l.iter().collect(),
        SexpRep::ListLike(l) => std::iter::once(&l.0).chain(&l.1).chain(std::iter::once(&l.2)).collect(),
        _ => vec![],
    };
    let nk: Vec<&N> = match &n.rep {
        R::List(v) => v.iter().collect(),
        R::Dotted(v, e) => v.iter().chain(std::iter::once(&**e)).collect(),
        _ => vec![],
    };
    for (x, y) in nk.into_iter().zip(kids) {
        locations(table, text, x, y)?;
    }
    Ok(())
}

/// Reads `text` with the code under test, compares with the reference, prints and reads back.
fn examine(text: &str) -> Result<bool, (String, String)> {
    let bad = |k: &str, w: String| Err((format!("{}/{:?}", k, text), w));
    let mut table = SourceLocationTable::new();
    let mut loc = table.begin_locate(&Path::current());
    let got = match guarded(text, || llrl::parser::parse::<Ss, _>(&mut loc, Lexer::new(text))) {
        Ok(g) => g,
        Err(p) => return bad("crash", format!("reading {:?} crashes: {}", text, p)),
    };
    table.complete_locate(loc);
    let want = reference(text);
    for e in got.inner_errors.iter().chain(got.final_result.as_ref().err()) {
        let r = e.unexpected.range;
        let (a, b) = (r.start.offset as usize, r.end.offset as usize);
        if a > b || b > text.len() {
            return bad("error-location", format!("reading {:?}: error located at {}..{}, outside the text", text, a, b));
        }
    }
    let first = got.inner_errors.iter().chain(got.final_result.as_ref().err()).map(|e| e.unexpected.range.start.offset as usize).min();
    match (want, first) {
        (Err(w), Some(g)) => {
            if w != g {
                return bad("error-location", format!("reading {:?}: the error is at offset {}, reported at {}", text, w, g));
            }
            Ok(false)
        }
        (Err(w), None) => bad("accepts", format!("{:?} is malformed at offset {} but is read as {}", text, w, got.final_result.unwrap())),
        (Ok(_), Some(g)) => bad("rejects", format!("{:?} is well-formed but is rejected at offset {}", text, g)),
        (Ok(want), None) => {
            let ss = got.final_result.unwrap();
            if want.len() != ss.ss.len() || !want.iter().zip(&ss.ss).all(|(n, s)| same(n, &s.rep, false)) {
                return bad("reads", format!("{:?} reads as {:?}, expected {:?}", text, ss.ss.iter().map(|s| &s.rep).collect::<Vec<_>>(), want));
            }
            for (n, s) in want.iter().zip(&ss.ss) {
                if let Err(e) = locations(&table, text, n, s) {
                    return bad("location", format!("reading {:?}: {}", text, e));
                }
            }
            let shown = match guarded(text, || ss.to_string()) {
                Ok(s) => s,
                Err(p) => return bad("crash", format!("printing what {:?} reads as crashes: {}", text, p)),
            };
            match reference(&shown) {
                Ok(back) if back.len() == ss.ss.len() && back.iter().zip(&ss.ss).all(|(n, s)| same(n, &s.rep, true)) => Ok(true),
                Ok(_) => bad("print", format!("{:?} is printed as {:?}, which means something else", text, shown)),
                Err(_) => bad("print", format!("{:?} is printed as {:?}, which cannot be read", text, shown)),
            }
        }
    }
}

pub fn main(o: &Opts, rep: &'static Report) {
    let (total, accepted) = (AtomicU64::new(0), AtomicU64::new(0));
    let run = |part: &str, alphabet: &[&str], max: u32| {
        let w = Words { alphabet, max };
        let (t0, a0) = (total.load(SeqCst), accepted.load(SeqCst));
        sweep(o.jobs, w.count(), |i| {
            let text = w.word(i);
            total.fetch_add(1, SeqCst);
            match examine(&text) {
                Ok(true) => {
                    accepted.fetch_add(1, SeqCst);
                }
                Ok(false) => {}
                Err((k, what)) => rep.violation(&k, &what, &text),
            }
            rep.nviol.load(SeqCst) < 40
        });
        let n = total.load(SeqCst) - t0;
        rep.cover(part, &[("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("well_formed", accepted.load(SeqCst) - a0)], &[]);
        rep.sample(&format!("{}: {:?}", part, w.word(w.count() - 7)));
    };
    let t = o.thorough as u32;
    let every = ["(", ")", "[", "]", "{", "}", "'", "`", "\\", "~", ",", "@", "#", "\"", ";", ".", "?", "!", " ", "\n", "a", "1", "-", "é", "t", "n"];
    run("characters", &every, 4 + t);
    // every ASCII character next to every other, and every character in a string, as a character and outside both
    let ascii: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).chain(["é", "話", "\u{3000}", "\u{10ffff}"].map(String::from)).collect();
    run("ascii", &ascii.iter().map(|s| &s[..]).collect::<Vec<_>>(), 2 + t);
    let mut single: Vec<String> = vec![];
    for c in (0..0x11_0000).filter_map(char::from_u32).filter(|c| o.thorough || (*c as u32) < 0x3100 || *c as u32 & 0xff >= 0xfc) {
        single.push(format!("(a \"{}\" b)", c));
        single.push(format!("(a #\\{} b)", c));
        single.push(format!("(a {} b)", c));
        single.push(format!("\"\\{}\" #\\\\{} c", c, c));
    }
    run("single", &single.iter().map(|s| &s[..]).collect::<Vec<_>>(), 1);
    run("structure", &["(", ")", "[", "]", "{", "}", " ", "a", "."], 7 + t);
    run("list-sugar", &["(", ")", " ", "a", ".", "@", "'", "? ", "{", "}"], 6 + t);
    run("prefix-and-postfix", &["(a)", "(", ")", "'", ",@", "~", " ", "x", "?", "! ", "{T}"], 6 + t);
    run("named-sugar", &["(", ")", "quote ", "try? ", "try! ", "annotate ", "load ", "unquote-splicing ", "x ", "1 ", "(f)", " . ", "'", "? "], 5 + t);
    run("strings", &["\"", "\\", "n", "x", "é", "\n", ";", "t"], 7 + t);
    run("string-escapes", &["\"", "\\\\", "\\\"", "\\n", "\\t", "\\r", "\\x", "a", "\t", "\r", "\n"], 5 + t);
    run("chars", &["#", "\\", "n", "a", "\"", " ", "t", "(", ")", "é", "\n"], 5 + t);
    run("comments", &[";", "\n", "a", " ", "(", ")", "\r", "\""], 6 + t);
    run("numbers", &["0", "1", "9", "-", "+", ".", "e", "x"], 6 + t);
    run("number-lists", &["1.5", "-0.0", "1e300", "-", "1", " ", "00", ".5", "9007199254740993"], 4 + t);
    // integers around every power of ten and two that bounds a type, with both signs
    let mut big: Vec<String> = vec![];
    for sign in ["", "+", "-"] {
        for b in [1u128 << 31, 1 << 32, 1 << 63, 1 << 64, 10u128.pow(18), 10u128.pow(19), 10u128.pow(20), 1 << 53, 1 << 65] {
            for d in 0..5 {
                for pre in ["", "0", "00000"] {
                    for post in ["", ".", ".0", "e0", "e5", "e-3", "x"] {
                        big.push(format!("{}{}{}{}", sign, pre, b - 2 + d, post));
                    }
                }
            }
        }
    }
    for m in ["1", "1.7976931348623157", "1.7976931348623159", "4.9", "2.5", "2.4", "2.2250738585072011", "9.999999999999999999"] {
        for e in ["e308", "e309", "e-308", "e-323", "e-324", "e-325", "e22", "e23", "e-5", "e400", "e-400", "e99999", "E7"] {
            for s in ["", "-"] {
                big.push(format!("{}{}{}", s, m, e));
            }
        }
    }
    let b: Vec<&str> = big.iter().map(|s| &s[..]).collect();
    run("number-bounds", &b, 1);
}
