//! Small programs of several modules, and what the tests of P04 and P05 share.
use llrl::module::Module;
use llrl::path::Path;
use llrl::preprocess::Preprocessor;
use llrl::report::Report;
use llrl::sexp::{Sexp, SexpRep};
use llrl::source::{collect, LoadableSource, Loader, Source};
use llrl::source_loc::SourceLocationTable;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fail {
    No,
    Resolve,
    Type,
    Import,
    Macro,
}

pub fn name(i: usize) -> String {
    format!("~/m{}", i)
}

/// Module i uses what modules with even numbers define as a function, and what those with odd numbers define as a macro.
/// With `real`, the macros do themselves what `expand` does, and what runs is reported to mc_ev.
pub fn text(i: usize, deps: &[usize], fail: Fail, inits: usize, real: bool) -> String {
    let mut s = "(no-implicit-std)\n(import \"builtin\" _)\n".to_string();
    for d in deps {
        s += &format!("(import \"{}\" _)\n", name(*d));
    }
    if fail == Fail::Import {
        s += &format!("(import \"{}\" not-there)\n", deps.first().map_or("builtin".to_string(), |d| name(*d)));
    }
    s += &format!("(export f{0} k{0})\n", i);
    if real {
        s += &format!("(c-function ev {{(-> I32 I32)}} \"mc_ev\")\n(macro (k{} s) (match s [(syntax (sexp:cons _ (syntax (sexp:cons (let x) _)))) (match x [(syntax (sexp:symbol \"fail\")) (err \"the macro fails\")] [_ (ok x)])] [_ (err \"the macro gets something else\")]))\n", i);
    } else {
        s += &format!("(macro (k{} s) (ok s))\n", i);
    }
    let mut e = match fail {
        Fail::Resolve => "not-there",
        Fail::Type => "#t",
        _ => "x",
    }
    .to_string();
    for d in deps {
        e = format!("({}{} {})", if d % 2 == 1 { "k" } else { "f" }, d, e);
    }
    if fail == Fail::Macro {
        e = match deps.iter().find(|d| *d % 2 == 1) {
            Some(d) => format!("(k{} fail)", d),
            None => "not-there".into(),
        }
    }
    s += &format!("(function (f{} x) {{(-> I32 I32)}} {})\n", i, e);
    for k in 0..inits {
        let call = format!("(f{} {})", i, 7000 + i * 10 + k);
        s += &if real { format!("(ev {})\n", call) } else { call + "\n" };
    }
    s
}

/// The sources in an order of the dependencies
pub fn sources(n: usize, g: &[Vec<usize>], fail: &[Fail], entries: &[usize], inits: usize, real: bool) -> Vec<Source> {
    let mem: HashMap<String, LoadableSource> = (0..n).map(|i| (format!("m{}", i), text(i, &g[i], fail[i], inits, real).into())).collect();
    let mut loader = Loader::new();
    loader.add_package("builtin".parse::<Path>().unwrap().package, llrl::ast::builtin::module());
    loader.add_package("~".parse::<Path>().unwrap().package, mem);
    let es: Vec<Path> = entries.iter().map(|i| name(*i).parse().unwrap()).collect();
    let mut v = mcstd::sched::once(move || {
        let mut table = SourceLocationTable::new();
        let mut report = Report::new();
        let set = collect(es.iter(), &loader, &mut table, &Preprocessor::new(), &mut report);
        set.resolve_dependencies_order().unwrap()
    });
    // one order for one configuration: the builtin module, then by number
    v.sort_by_key(|s| s.path.to_string());
    v
}

/// What the macros of these programs do
pub fn expand(s: &Sexp) -> Result<Sexp, String> {
    match &s.rep {
        SexpRep::List(v) if v.len() == 2 => match &v[1].rep {
            SexpRep::Symbol(x) if x == "fail" => Err("the macro fails".into()),
            _ => Ok(v[1].clone()),
        },
        _ => Err("the macro gets something else".into()),
    }
}

pub fn dags(n: usize) -> Vec<Vec<Vec<usize>>> {
    let slots: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
    (0..1usize << slots.len())
        .map(|m| {
            let mut g = vec![vec![]; n];
            for (k, (i, j)) in slots.iter().enumerate() {
                if m >> k & 1 == 1 {
                    g[*i].push(*j);
                }
            }
            g
        })
        .collect()
}

pub fn reachable(g: &[Vec<usize>], entries: &[usize]) -> Vec<bool> {
    let mut r = vec![false; g.len()];
    let mut todo = entries.to_vec();
    while let Some(i) = todo.pop() {
        if !r[i] {
            r[i] = true;
            todo.extend(&g[i]);
        }
    }
    r
}

pub fn describe(m: &Arc<Module>) -> String {
    let mut e: Vec<String> = m.ast_root().functions.values().map(|f| format!("{:?}", f)).collect();
    e.sort();
    e.join("\n") + &format!("{:?}", m.ast_root().init_expressions)
}
