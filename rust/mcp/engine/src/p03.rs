use crate::Ctl;
use llrl::path::Path;
use llrl::preprocess::Preprocessor;
use llrl::report::Report;
use llrl::source::{collect, Error, LoadableSource, Loader, Source, SourceRep};
use llrl::source_loc::SourceLocationTable;
use mcstd::sched::Config;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ok,
    Missing,
    Unparsable,
    SelfImport,
    BadPath,
    BadDirective,
    NoPackage,
    Unreadable,
}
use St::*;

/// Where the modules live: name of the package, of the module, and whether on disk
const LAYOUTS: [&[(&str, &str)]; 7] = [
    &[],
    &[("~", "a"), ("pk", "a"), ("~", "prelude")],
    &[("~", "a"), ("pk", "a"), ("pk", "b")],
    &[("~", "prelude"), ("pk", "prelude"), ("pk", "x/prelude")],
    &[("~", "a"), ("~", "a.b"), ("~", "a.c")],
    &[("~", "a"), ("~", "a/b"), ("~", "b/a")],
    &[("~", "a.llrl"), ("~", "a"), ("pk", "a")],
];

fn full(p: &str, m: &str) -> String {
    if m == "prelude" {
        p.into()
    } else {
        format!("{}/{}", p, m)
    }
}

/// The ways in which module i can import module j
fn spellings(i: usize, j: usize, st: &[St], layout: usize) -> Vec<String> {
    if layout == 0 {
        return vec![name(j, st, layout)];
    }
    let (p, q) = (LAYOUTS[layout][i], LAYOUTS[layout][j]);
    let mut v = vec![];
    if q.0 != "~" {
        v.push(format!("{}/{}", q.0, q.1));
    }
    if p.0 == q.0 {
        v.push(format!("~/{}", q.1));
    }
    if q.1 == "prelude" {
        for k in 0..v.len() {
            let s = v[k].trim_end_matches("/prelude").to_string();
            v.push(s);
        }
    }
    v
}

fn name(i: usize, st: &[St], layout: usize) -> String {
    if layout != 0 {
        return full(LAYOUTS[layout][i].0, LAYOUTS[layout][i].1);
    }
    match st[i] {
        NoPackage => format!("nowhere/m{}", i),
        Unreadable => format!("disk/m{}", i),
        _ => format!("~/m{}", i),
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Got {
    /// module -> (dependencies, kinds of errors, its own location)
    modules: BTreeMap<String, (BTreeSet<String>, Vec<String>, String)>,
    count: usize,
    order: Result<Vec<String>, BTreeSet<String>>,
}

fn kind(e: &Error) -> String {
    match e {
        Error::PackageNotFound => "package",
        Error::ModuleNotFound => "module",
        Error::LoadFailed(_) => "load",
        Error::ParseFailed(_) => "parse",
        Error::PreprocessFailed(_) => "preprocess",
        Error::InvalidImportPath(_, _) => "path",
        Error::CannotImportModuleItself => "self",
    }
    .to_string()
}

fn describe(s: &Source, t: &SourceLocationTable) -> (BTreeSet<String>, Vec<String>, String) {
    let loc = match &s.rep {
        SourceRep::Code(ss) => ss
            .ss
            .iter()
            .map(|x| {
                let (p, r) = t.review(x.loc);
                format!("{}:{}", p, r)
            })
            .collect::<Vec<_>>()
            .join(" "),
        SourceRep::Empty => "".into(),
    };
    let mut es: Vec<String> = s.errors.iter().map(kind).collect();
    es.sort();
    (s.dependencies.values().map(|p| p.to_string()).collect(), es, loc)
}

fn text(i: usize, deps: &[usize], st: &[St], layout: usize) -> String {
    // every form is on a line of its own, and every module has a different number of them before the imports
    let mut s = "(no-implicit-std)\n".to_string() + &"(f)\n".repeat(i);
    for d in deps {
        for n in spellings(i, *d, st, layout) {
            s += &format!("(import \"{}\" _)\n", n);
        }
    }
    match st[i] {
        Unparsable => s += "(\n",
        SelfImport => s += &format!("(import \"~/m{}\" _)\n", i),
        BadPath => s += "(import \"~/../m0\" _)\n",
        BadDirective => s = s.to_string() + "($unless)\n",
        _ => {}
    }
    s
}

pub fn main(c: &mut Ctl) {
    let mut plan: Vec<(usize, Vec<Vec<usize>>, Vec<St>, Vec<usize>, usize, usize, usize, bool)> = Vec::new();
    let all = [Ok, Missing, Unparsable, SelfImport, BadPath, BadDirective, NoPackage, Unreadable];
    let graphs = |n: usize| -> Vec<Vec<Vec<usize>>> {
        let slots: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, j))).collect();
        (0..1usize << slots.len())
            .map(|m| {
                let mut g = vec![vec![]; n];
                for (k, (i, j)) in slots.iter().enumerate() {
                    if m >> k & 1 == 1 {
                        g[*i].push(*j);
                    }
                }
                g
            })
            .collect()
    };
    let deep = c.thorough as usize;
    for g in graphs(1) {
        for a in all {
            plan.push((1, g.clone(), vec![a], vec![0], 0, 4, 0, false));
        }
    }
    for g in graphs(2) {
        for a in all {
            for b in all {
                for e in [vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0]] {
                    plan.push((2, g.clone(), vec![a, b], e, 0, 2 + deep, 0, false));
                }
            }
        }
        for e in [vec![0], vec![0, 1]] {
            for w in [1, 2] {
                plan.push((2, g.clone(), vec![Ok, Ok], e.clone(), w, 3, 0, false));
            }
        }
    }
    for g in graphs(3) {
        for e in [vec![0], vec![0, 1], vec![2, 1, 0]] {
            for (b, p) in [(Ok, 1 + deep), (Missing, 1), (Unparsable, 1), (SelfImport, deep), (Unreadable, deep)] {
                plan.push((3, g.clone(), vec![Ok, Ok, b], e.clone(), 0, p, 0, false));
            }
            for w in [1, 2] {
                plan.push((3, g.clone(), vec![Ok, Ok, Ok], e.clone(), w, 1, 0, false));
            }
        }
    }
    for (k, g) in graphs(4).into_iter().enumerate() {
        if c.thorough || k % 8 == 0 || g.iter().map(|d| d.len()).sum::<usize>() <= 3 {
            plan.push((4, g, vec![Ok; 4], vec![0], 0, 0, 0, false));
        }
    }

    for (l, layout) in LAYOUTS.iter().enumerate().skip(1) {
        for g in graphs(3) {
            // the current package cannot be imported from others
            if (0..3).any(|i| g[i].iter().any(|j| layout[i].0 != "~" && layout[*j].0 == "~")) {
                continue;
            }
            for disk in [false, true] {
                for last in [Ok, Missing] {
                    plan.push((3, g.clone(), vec![Ok, Ok, last], vec![0], 0, deep, l, disk));
                }
            }
        }
    }

    let disk = format!("{}/disk", c.work);
    for i in 0..4 {
        let _ = std::fs::create_dir_all(format!("{}/m{}.llrl", disk, i));
    }
    for (n, g, st, entries, workers, preemptions, layout, on_disk) in plan {
        // nothing is said about what a module imports with a syntax error
        if (0..n).any(|i| matches!(st[i], Unparsable | BadDirective) && !g[i].is_empty()) || !c.mine() {
            continue;
        }
        // what has to come out
        let mut want: BTreeMap<String, (BTreeSet<String>, Vec<String>, String)> = BTreeMap::new();
        let mut todo = entries.clone();
        let mut edges = vec![vec![]; n];
        while let Some(i) = todo.pop() {
            let nm = name(i, &st, layout);
            if want.contains_key(&nm) {
                continue;
            }
            let es: Vec<String> = match st[i] {
                Ok => vec![],
                Missing => vec!["module"],
                Unparsable => vec!["parse"],
                SelfImport => vec!["self"],
                BadPath => vec!["path"],
                BadDirective => vec!["preprocess"],
                NoPackage => vec!["package"],
                Unreadable => vec!["load"],
            }
            .into_iter()
            .map(String::from)
            .collect();
            let read = !matches!(st[i], Missing | Unparsable | BadDirective | NoPackage | Unreadable);
            let mut deps = BTreeSet::new();
            let mut loc = String::new();
            if read {
                deps.insert("builtin".to_string());
                for d in &g[i] {
                    deps.insert(name(*d, &st, layout));
                    todo.push(*d);
                    edges[i].push(*d);
                }
                let t = text(i, &g[i], &st, layout);
                loc = t.lines().enumerate().map(|(k, l)| format!("{}:{}:1-{}:{}", nm, k + 1, k + 1, l.len() + 1)).collect::<Vec<_>>().join(" ");
            }
            want.insert(nm, (deps, es, loc));
        }
        if want.values().any(|x| !x.0.is_empty()) {
            want.insert("builtin".into(), (BTreeSet::new(), vec![], "".into()));
        }
        let failed = want.values().any(|x| !x.1.is_empty());
        // strongly connected components by reachability
        let mut reach = vec![vec![false; n]; n];
        for i in 0..n {
            let mut s = edges[i].clone();
            while let Some(j) = s.pop() {
                if !reach[i][j] {
                    reach[i][j] = true;
                    s.extend(&edges[j]);
                }
            }
        }
        let cycles: BTreeSet<BTreeSet<String>> = (0..n).filter(|i| reach[*i][*i]).map(|i| (0..n).filter(|j| reach[i][*j] && reach[*j][i]).map(|j| name(j, &st, layout)).collect()).collect();

        let mut loader = Loader::new();
        loader.add_package("builtin".parse::<Path>().unwrap().package, "(no-implicit-std)".to_string());
        if layout == 0 {
            let mut mem: HashMap<String, LoadableSource> = HashMap::new();
            for i in 0..n {
                if !matches!(st[i], Missing | NoPackage | Unreadable) {
                    mem.insert(format!("m{}", i), text(i, &g[i], &st, layout).into());
                }
            }
            loader.add_package("~".parse::<Path>().unwrap().package, mem);
            loader.add_package("disk".parse::<Path>().unwrap().package, std::path::PathBuf::from(&disk));
        } else {
            for p in ["~", "pk"] {
                let dir = format!("{}/layout/{}", c.work, p);
                let _ = std::fs::remove_dir_all(&dir);
                let mut mem: HashMap<String, LoadableSource> = HashMap::new();
                for i in (0..n).filter(|i| LAYOUTS[layout][*i].0 == p && st[*i] == Ok) {
                    let (m, t) = (LAYOUTS[layout][i].1, text(i, &g[i], &st, layout));
                    let f = format!("{}/{}.llrl", dir, m);
                    std::fs::create_dir_all(std::path::Path::new(&f).parent().unwrap()).unwrap();
                    std::fs::write(f, &t).unwrap();
                    mem.insert(m.to_string(), t.into());
                }
                let package = p.parse::<Path>().unwrap().package;
                if on_disk {
                    loader.add_package(package, std::path::PathBuf::from(&dir));
                } else {
                    loader.add_package(package, mem);
                }
            }
        }
        want.entry("builtin".into()).and_modify(|x| x.2 = "builtin:1:1-1:18".into());
        let es: Vec<Path> = entries.iter().map(|i| name(*i, &st, layout).parse().unwrap()).collect();
        let place = if layout == 0 { String::new() } else { format!(" called {:?}{}", LAYOUTS[layout], if on_disk { " on disk" } else { "" }) };
        let what = format!("loading from {:?}, with imports {:?} and modules {:?}{}", entries, g, st, place);
        let key = format!("{:?}/{:?}/{:?}/{}/{}", entries, g, st, layout, on_disk);
        let body = move || {
            let mut table = SourceLocationTable::new();
            let mut report = Report::new();
            let set = collect(es.iter(), &loader, &mut table, &Preprocessor::new(), &mut report);
            let modules = set.sources().map(|s| (s.path.to_string(), describe(s, &table))).collect();
            let count = set.sources().count();
            let order = if failed { Result::Ok(vec![]) } else { set.resolve_dependencies_order().map(|v| v.iter().map(|s| s.path.to_string()).collect()).map_err(|v| v.iter().map(|p| p.to_string()).collect()) };
            Got { modules, count, order }
        };
        let cfg = Config { workers, preemptions, max_steps: 2000, max_executions: if c.thorough { 200000 } else { 20000 } };
        c.run(&key, &what, cfg, false, body, move |r| {
            let mut r = r.unwrap();
            for (k, x) in &mut r.modules {
                if want.get(k).map_or(false, |w| w.1 == ["parse"] || w.1 == ["preprocess"]) {
                    (x.0, x.2) = (want[k].0.clone(), want[k].2.clone());
                }
            }
            for k in ["builtin", "std"] {
                if r.modules.contains_key(k) && !want.contains_key(k) {
                    r.modules.remove(k);
                    r.count -= 1;
                }
            }
            if r.modules != want {
                for (k, v) in &want {
                    if r.modules.get(k) != Some(v) {
                        return Err(format!("module {} is {:?} instead of {:?}", k, r.modules.get(k), v));
                    }
                }
                return Err(format!("it also loads {:?}", r.modules.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()));
            }
            if r.count != want.len() {
                return Err("a module is loaded twice".into());
            }
            match r.order {
                _ if failed => {}
                Err(p) => {
                    if !cycles.contains(&p) {
                        return Err(format!("reports a cycle {:?}", p));
                    }
                }
                Result::Ok(v) => {
                    if !cycles.is_empty() {
                        return Err(format!("orders {:?} in spite of the cycle {:?}", v, cycles));
                    }
                    let set: BTreeSet<&String> = v.iter().collect();
                    if v.len() != want.len() || set.len() != v.len() {
                        return Err(format!("orders {:?}", v));
                    }
                    for (k, x) in v.iter().enumerate() {
                        for d in &want[x].0 {
                            if !v[..k].contains(d) {
                                return Err(format!("orders {} before its dependency {}: {:?}", x, d, v));
                            }
                        }
                    }
                }
            }
            Result::Ok(())
        });
    }
}
