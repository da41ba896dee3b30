//! Exhaustiveness and unreachable-clause reports: all clause lists over small pattern sets through the whole front
//! end, against brute force over the values.
use crate::common::*;
use crate::front::*;
use crate::harness::*;
use llrl::module::Error;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

const PRE: &str = "(no-implicit-std) (import \"builtin\" _) (export _)
(data X a b c d)
(data N (s N) z)
(data (M A) (j A) n)
(data W (w Bool Y))
(value-data Y (y0 Bool) (y1 Bool Bool) y2)
(value-data (P A B) (p: A B))
";

#[derive(Clone, PartialEq, Debug)]
enum Pat {
    Any,
    /// a constructor with its position among `of`, or a literal
    Con(&'static str, Vec<Pat>),
    Lit(&'static str),
}

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Con(&'static str, Vec<Val>),
    Lit(&'static str),
    Other,
}

#[derive(Clone)]
enum Ty {
    Lits(&'static [&'static str]),
    Cons(Vec<(&'static str, Vec<Ty>)>),
    /// N
    Nat,
}
use Ty::*;

fn cons(t: &Ty) -> Vec<(&'static str, Vec<Ty>)> {
    match t {
        Lits(_) => vec![],
        Cons(c) => c.clone(),
        Nat => vec![("s", vec![Nat]), ("z", vec![])],
    }
}

fn product<T: Clone>(parts: &[Vec<T>]) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for p in parts {
        out = out.iter().flat_map(|o| p.iter().map(|x| o.iter().cloned().chain([x.clone()]).collect())).collect();
    }
    out
}

/// All patterns of at most `depth` constructors deep.
fn pats(t: &Ty, depth: usize) -> Vec<Pat> {
    let mut out = vec![Pat::Any];
    if depth == 0 {
        return out;
    }
    if let Lits(l) = t {
        out.extend(l.iter().map(|l| Pat::Lit(l)));
    }
    for (c, fs) in cons(t) {
        let sub: Vec<Vec<Pat>> = fs.iter().map(|f| pats(f, depth - 1)).collect();
        out.extend(product(&sub).into_iter().map(|a| Pat::Con(c, a)));
    }
    out
}

/// All values down to `depth`; below that one arbitrary value each (no pattern looks there).
fn vals(t: &Ty, depth: usize) -> Vec<Val> {
    if depth == 0 {
        return vec![Val::Other];
    }
    if let Lits(l) = t {
        return l.iter().map(|l| Val::Lit(l)).chain([Val::Other]).collect();
    }
    let mut out = vec![];
    for (c, fs) in cons(t) {
        let sub: Vec<Vec<Val>> = fs.iter().map(|f| vals(f, depth - 1)).collect();
        out.extend(product(&sub).into_iter().map(|a| Val::Con(c, a)));
    }
    out
}

fn matches(p: &Pat, v: &Val) -> bool {
    match (p, v) {
        (Pat::Any, _) => true,
        (Pat::Con(c, ps), Val::Con(d, vs)) => c == d && ps.iter().zip(vs).all(|(p, v)| matches(p, v)),
        (Pat::Lit(a), Val::Lit(b)) => a == b,
        _ => false,
    }
}

/// Is `v` one of the values a reported example describes? A hole in the place of a literal stands for any other one.
fn described(p: &Pat, v: &Val, lits: bool) -> bool {
    match (p, v) {
        (Pat::Any, Val::Lit(_)) => !lits,
        (Pat::Any, Val::Con(_, vs)) => vs.iter().all(|v| described(&Pat::Any, v, lits)),
        (Pat::Con(c, ps), Val::Con(d, vs)) => c == d && ps.iter().zip(vs).all(|(p, v)| described(p, v, lits)),
        _ => matches(p, v),
    }
}

/// As source text; the style decides between the ways to write the same pattern.
fn write(p: &Pat, style: &mut u64, var: &mut u32) -> String {
    *style = style.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let k = *style >> 33;
    match p {
        Pat::Any if k % 3 == 0 => {
            *var += 1;
            format!("(let v{})", var)
        }
        Pat::Any => "_".into(),
        p => {
            let s = match p {
                Pat::Lit(l) => l.to_string(),
                Pat::Con(c, a) if a.is_empty() && *c != ":" => c.to_string(),
                Pat::Con(c, a) => {
                    let a: Vec<String> = a.iter().map(|a| format!(" {}", write(a, style, var))).collect();
                    format!("({}{})", c, a.concat())
                }
                _ => unreachable!(),
            };
            if k % 5 == 0 {
                *var += 1;
                format!("(let v{} {})", var, s)
            } else {
                s
            }
        }
    }
}

fn show(p: &Pat) -> String {
    match p {
        Pat::Any => "_".into(),
        Pat::Lit(l) => l.to_string(),
        Pat::Con(c, a) if a.is_empty() && *c != ":" => c.to_string(),
        Pat::Con(c, a) => format!("({}{})", c, a.iter().map(|a| format!(" {}", show(a))).collect::<String>()),
    }
}

/// Reads back a pattern the compiler reports.
fn read(s: &str, t: &Ty) -> Option<Pat> {
    fn go<'a>(s: &mut std::iter::Peekable<std::vec::IntoIter<&'a str>>, t: &Ty) -> Option<Pat> {
        let w = s.next()?;
        let nested = w == "(";
        let name = if nested { s.next()? } else { w };
        if name == "_" {
            return Some(Pat::Any);
        }
        if let Lits(l) = t {
            return l.iter().find(|l| **l == name).map(|l| Pat::Lit(l));
        }
        let (c, fs) = cons(t).into_iter().find(|c| c.0 == name)?;
        let mut a = vec![];
        for f in &fs {
            a.push(go(s, f)?);
        }
        if nested && s.next()? != ")" {
            return None;
        }
        Some(Pat::Con(c, a))
    }
    let spaced = s.replace('(', " ( ").replace(')', " ) ");
    let words: Vec<&str> = spaced.split_whitespace().collect();
    let mut it = words.into_iter().peekable();
    let p = go(&mut it, t)?;
    if it.next().is_none() { Some(p) } else { None }
}

#[derive(Debug, PartialEq)]
enum Want {
    Fine,
    Useless(usize),
    Missing,
}

fn reference(rows: &[&Pat], values: &[Val]) -> Want {
    for i in 0..rows.len() {
        if !values.iter().any(|v| matches(rows[i], v) && !rows[..i].iter().any(|r| matches(r, v))) {
            return Want::Useless(i);
        }
    }
    if values.iter().all(|v| rows.iter().any(|r| matches(r, v))) { Want::Fine } else { Want::Missing }
}

fn verdict(f: &Front, text: &str, t: &Ty, rows: &[&Pat], values: &[Val]) -> Result<Want, String> {
    let want = reference(rows, values);
    let built = f.check(text);
    match (&want, &built) {
        (_, Built::Crash(_) | Built::Unreadable(_)) => Err(built.describe()),
        (Want::Fine, Built::Ok(_)) => Ok(want),
        (Want::Fine, _) => Err(format!("all clauses are reachable and cover everything, but it is {}", built.describe())),
        (_, Built::Ok(_)) => Err(format!("it is accepted, but {}", match &want {
            Want::Useless(i) => format!("clause {} is unreachable", i + 1),
            _ => "the clauses do not cover everything".into(),
        })),
        (_, Built::Rejected(e)) => match (&want, e.error.clone().drop_context_info()) {
            (Want::Useless(i), Error::UselessPattern(p)) => {
                if read(&p, t).as_ref() == Some(rows[*i]) {
                    return Ok(want);
                }
                Err(format!("clause {} is the first unreachable one, but {} is reported", i + 1, p))
            }
            (Want::Missing, Error::NonExhaustivePattern(ps)) => {
                if ps.is_empty() {
                    return Err("no example of an uncovered value is reported".into());
                }
                for p in ps {
                    let Some(q) = read(&p, t) else { return Err(format!("the reported example {} is not a pattern of the matched type", p)) };
                    let mut some = false;
                    for v in values.iter().filter(|v| described(&q, v, true)) {
                        some = true;
                        if rows.iter().any(|r| matches(r, v)) {
                            return Err(format!("the reported example {} is covered by the clauses", p));
                        }
                    }
                    if !some {
                        return Err(format!("the reported example {} describes no value", p));
                    }
                }
                Ok(want)
            }
            (w, _) => Err(format!("expected {:?} but it is {}", w, built.describe())),
        },
    }
}

/// Places an expression can stand in; the match in them is always checked.
const PLACES: &[&str] = &[
    "@", "(begin @ unit)", "(begin unit @)", "(let ([v unit]) @)", "(let ([v @]) unit)", "(let ([(f) @]) (f))", "(let ([(f x) (begin @ x)]) unit)", "(if @@ unit unit)",
    "(if #t @ unit)", "(if #t unit @)", "(while #f @)", "(while (begin @ #f) unit)", "(match @ [_ unit])", "(match 1 [1 @] [_ unit])", "(match 1 [1 unit] [_ @])",
    "(: @ 1)", "(: 1 @)", "(idf @)", "((begin @ idf) 1)", "@ {(:)}", "(function (g) {(-> (:))} @)", "(function (g x) {(forall A) (-> A A)} @ x)", "(function (g) {(-> (:))} (return @))",
    "(function g {(:)} @)", "(class (C A) (function (m x) {(-> A (:))})) (instance C.I (C I32) (function (m x) @))", "(class (C A) (function (m x) {(-> A (:))} @))",
    "(instance I.I (IC I32) (function (im x) @))", "(function (g) {(-> (:))} (let ([(h) (let ([(k) @]) (k))]) (h)))", "(macro (q s) (begin @ (ok s)))", "(match #t [#t (match #f [_ @])] [#f unit])",
    "(transparent-function (g) {(-> (:))} @)", "unit @",
];

pub fn main(o: &Opts, rep: &'static Report) {
    let base = Front::new(&[("pre", PRE)]);
    let b = || Cons(vec![("#t", vec![]), ("#f", vec![])]);
    let x = || Cons(vec![("a", vec![]), ("b", vec![]), ("c", vec![]), ("d", vec![])]);
    let m = |t: Ty| Cons(vec![("j", vec![t]), ("n", vec![])]);
    let tup = |t: Vec<Ty>| Cons(vec![(":", t)]);
    let y = || Cons(vec![("y0", vec![b()]), ("y1", vec![b(), b()]), ("y2", vec![])]);
    let t = o.thorough as u32;
    // name, type, its annotation, pattern depth, longest clause list
    let types: Vec<(&str, Ty, &str, usize, u32)> = vec![
        ("bool", b(), "Bool", 1, 5 + t),
        ("enum", x(), "X", 1, 6 + t),
        ("bool-pair", tup(vec![b(), b()]), "(: Bool Bool)", 2, 5 + t),
        ("bool-triple", tup(vec![b(), b(), b()]), "(: Bool Bool Bool)", 2, 4),
        ("enum-pair", tup(vec![x(), b()]), "(: X Bool)", 2, 4 + t),
        ("nat", Nat, "N", 4, 5 + t),
        ("maybe-enum", m(x()), "(M X)", 2, 6 + t),
        ("maybe-pair", tup(vec![m(b()), m(b())]), "(: (M Bool) (M Bool))", 3, 3 + t),
        ("maybe-maybe", m(m(b())), "(M (M Bool))", 3, 6 + t),
        ("nested-tuple", tup(vec![b(), tup(vec![b(), b()])]), "(: Bool (: Bool Bool))", 3, 4),
        ("fields", Cons(vec![("w", vec![b(), y()])]), "W", 3, 3),
        ("variants", y(), "Y", 2, 4 + t),
        ("generic", Cons(vec![("p:", vec![m(b()), b()])]), "(P (M Bool) Bool)", 3, 4),
        ("ints", Lits(&["0", "1", "-1"]), "I32", 1, 5 + t),
        ("wide-ints", Lits(&["18446744073709551615", "0", "9223372036854775808", "255"]), "U64", 1, 5),
        ("int-bool", tup(vec![Lits(&["0", "7"]), b()]), "(: U8 Bool)", 2, 4 + t),
        ("int-pair", tup(vec![Lits(&["0", "-2"]), Lits(&["0", "5"])]), "(: I64 I16)", 2, 4 + t),
        ("strings", Lits(&["\"\"", "\"a\"", "\"ab\""]), "String", 1, 5 + t),
        ("chars", Lits(&["#\\a", "#\\b"]), "Char", 1, 5 + t),
        ("floats", Lits(&["0.5", "1.5", "-1.5"]), "F64", 1, 5 + t),
        ("maybe-string", m(Lits(&["\"x\"", "\"y\""])), "(M String)", 2, 5 + t),
        ("unit", tup(vec![]), "(:)", 1, 3),
        ("option", Cons(vec![("none", vec![]), ("some", vec![tup(vec![b(), x()])])]), "(Option (: Bool X))", 3, 3),
        ("nat-pair", tup(vec![Nat, Nat]), "(: N N)", 3, 3),
    ];
    let total = AtomicU64::new(0);
    let ok = AtomicU64::new(0);
    let report = |text: &str, r: Result<Want, String>| {
        total.fetch_add(1, SeqCst);
        match r {
            Ok(w) => {
                ok.fetch_add((w == Want::Fine) as u64, SeqCst);
            }
            Err(e) => rep.violation(&format!("match/{}", text), &format!("{}: {}", text, e), text),
        }
        rep.nviol.load(SeqCst) < 30
    };
    for (name, ty, anno, depth, max) in &types {
        let ps = pats(ty, *depth);
        let values = vals(ty, *depth + 1);
        let alphabet: Vec<&str> = ps.iter().map(|_| "").collect();
        let words = Words { alphabet: &alphabet, max: *max };
        let (t0, o0) = (total.load(SeqCst), ok.load(SeqCst));
        // lists extending one whose next-to-last clause is already unreachable tell nothing new
        sweep(o.jobs, words.count() - 1, |i| {
            let ls = words.letters(i + 1);
            let rows: Vec<&Pat> = ls.iter().map(|l| &ps[*l]).collect();
            if rows.len() >= 2 {
                if let Want::Useless(k) = reference(&rows[..rows.len() - 1], &values) {
                    if k + 1 < rows.len() && rows.len() > 3 {
                        return true;
                    }
                }
            }
            let (mut style, mut var) = (i, 0);
            let clauses: Vec<String> = rows.iter().map(|r| format!("[{}]", write(r, &mut style, &mut var))).collect();
            let text = format!("(no-implicit-std) (import \"pre\" _) (function (f x) {{(-> {} (:))}} (match x {}))", anno, clauses.join(" "));
            report(&text, verdict(&base, &text, ty, &rows, &values))
        });
        let n = total.load(SeqCst) - t0;
        rep.cover(&format!("clauses-of-{}", name), &[("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("accepted", ok.load(SeqCst) - o0), ("patterns", ps.len() as u64), ("values", values.len() as u64), ("longest", *max as u64)], &[]);
    }
    // the same matches wherever an expression can stand, with the types defined in the module itself or imported under other names
    let (t0, o0) = (total.load(SeqCst), ok.load(SeqCst));
    let ty = m(b());
    let ps = pats(&ty, 2);
    let values = vals(&ty, 3);
    let rows: Vec<Vec<&Pat>> = {
        let one: Vec<Vec<&Pat>> = ps.iter().map(|p| vec![p]).collect();
        let two = product(&[ps.iter().collect::<Vec<_>>(), ps.iter().collect()]);
        let three = product(&[ps.iter().collect::<Vec<_>>(), ps.iter().collect(), ps.iter().collect()]);
        one.into_iter().chain(two).chain(three).collect()
    };
    let heads = [
        ("", "(import \"pre\" _) "),
        ("", "(import \"builtin\" _) (data (M A) (j A) n) "),
        ("", "(import \"builtin\" _) (value-data (M A) (j A) n) "),
        ("", "(import \"builtin\" _) (import \"pre\" M [j j] [n n]) "),
        ("q/", "(import \"builtin\" _) (import \"pre\" [q/_ _]) "),
    ];
    let n = (rows.len() * PLACES.len() * heads.len()) as u64;
    sweep(o.jobs, n, |i| {
        let r = &rows[i as usize / PLACES.len() / heads.len()];
        let place = PLACES[i as usize % PLACES.len()];
        let (pre, head) = heads[i as usize / PLACES.len() % heads.len()];
        let (mut style, mut var) = (i, 0);
        let name = |s: String| if pre.is_empty() { s } else { s.replace("(j ", "(q/j ").replace("(n)", "q/n").replace(" n", " q/n").replace("[n", "[q/n") };
        let clauses: Vec<String> = r.iter().map(|p| name(format!("[{}]", write(p, &mut style, &mut var)))).collect();
        let m = format!("(match {}n {{({}M Bool)}} {})", pre, pre, clauses.join(" "));
        let mt = format!("(begin {} #t)", m);
        let body = place.replace("@@", &mt).replace('@', &m);
        let needs_class = place.contains("IC ");
        let extra = format!("{}{}", if needs_class { "(class (IC A) (function (im x) {(-> A (:))})) " } else { "" }, if place.contains("idf") { "(function (idf x) {(forall A) (-> A A)} x) " } else { "" });
        let text = format!("(no-implicit-std) {}{}{}", head, extra, body);
        // reported patterns are written with the names in scope
        let f = &base;
        let v = verdict_named(f, &text, &ty, r, &values, pre);
        report(&text, v)
    });
    let n = total.load(SeqCst) - t0;
    rep.cover("places", &[("states", n), ("transitions", n), ("traces_validated_against_impl", n), ("accepted", ok.load(SeqCst) - o0)], &[]);
    rep.sample(&format!("{}", rows[30].iter().map(|p| show(p)).collect::<Vec<_>>().join(" | ")));
}

fn verdict_named(f: &Front, text: &str, t: &Ty, rows: &[&Pat], values: &[Val], _pre: &str) -> Result<Want, String> {
    verdict(f, text, t, rows, values)
}
