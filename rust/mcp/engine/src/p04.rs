use crate::gen::*;
use crate::Ctl;
use llrl::ast;
use llrl::module::{parallel_build, Backend, Error, Module, ModuleId};
use llrl::path::Path;
use llrl::report::Report;
use llrl::sexp::Sexp;
use mcstd::sched::{self, Config};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Add(String, bool),
    Macro(String, String),
}

#[derive(Default)]
struct Mock {
    names: Mutex<HashMap<ModuleId, String>>,
    events: Mutex<Vec<Ev>>,
}

impl Backend for Mock {
    fn add_module(&self, m: Arc<Module>, entry: bool) {
        sched::point();
        let p = m.path().to_string();
        self.names.lock().unwrap().insert(m.id(), p.clone());
        self.events.lock().unwrap().push(Ev::Add(p, entry));
        sched::point();
    }

    fn execute_macro(&self, id: ast::NodeId<ast::Macro>, s: &Sexp) -> Result<Sexp, String> {
        sched::point();
        let m = self.names.lock().unwrap().get(&id.module()).cloned().unwrap_or_else(|| "a module that has not been added".into());
        self.events.lock().unwrap().push(Ev::Macro(m, s.to_string()));
        sched::point();
        expand(s)
    }
}

pub fn main(c: &mut Ctl) {
    let deep = c.thorough as usize;
    let mut plan: Vec<(usize, Vec<Vec<usize>>, Vec<Fail>, Vec<usize>, usize, usize)> = Vec::new();
    let kinds = [Fail::Resolve, Fail::Type, Fail::Import, Fail::Macro];
    for n in 1..=3usize {
        for g in dags(n) {
            for m in 0..1usize << n {
                for e in [vec![n - 1], (0..n).collect::<Vec<_>>(), vec![0]] {
                    // which kind of failure: all of the same kind
                    for k in if m == 0 { &kinds[..1] } else { &kinds[..] } {
                        let f: Vec<Fail> = (0..n).map(|i| if m >> i & 1 == 1 { *k } else { Fail::No }).collect();
                        for (w, p) in [(0, 2 + deep), (2, 1 + deep), (1, deep)] {
                            plan.push((n, g.clone(), f.clone(), e.clone(), w, p + (n < 3) as usize));
                        }
                    }
                }
            }
        }
    }
    for g in dags(3) {
        plan.push((3, g, vec![Fail::No; 3], vec![0, 1, 2], 0, 3 + deep));
    }
    for g in dags(4) {
        for m in 0..5usize {
            let f: Vec<Fail> = (0..4).map(|i| if m == i + 1 { Fail::Resolve } else { Fail::No }).collect();
            plan.push((4, g.clone(), f, vec![0, 1, 2, 3], 0, 1 + deep));
        }
    }
    if c.thorough {
        for g in dags(5) {
            plan.push((5, g, vec![Fail::No; 5], vec![0, 1, 2, 3, 4], 0, 0));
        }
    }
    let mut seen = HashSet::new();
    // the builtin module is built once and kept
    let warm = sources(1, &[vec![]], &[Fail::No], &[0], 0, false);
    sched::once(move || parallel_build(warm.clone(), HashSet::new(), &(), &mut Report::new()).0.len());
    for (n, g, fail, entries, workers, preemptions) in plan {
        if !seen.insert((g.clone(), fail.clone(), entries.clone(), workers, preemptions)) || !c.mine() {
            continue;
        }
        let there = reachable(&g, &entries);
        let mut good = vec![false; n];
        for i in 0..n {
            good[i] = there[i] && fail[i] == Fail::No && g[i].iter().all(|d| good[*d]);
        }
        let src = sources(n, &g, &fail, &entries, 1, false);
        assert_eq!(src.len(), 1 + there.iter().filter(|x| **x).count());
        let what = format!("building {:?} with imports {:?} and failures {:?}", entries, g, fail);
        let key = format!("{:?}/{:?}/{:?}/{}", entries, g, fail, workers);
        let es: HashSet<Path> = entries.iter().map(|i| name(*i).parse().unwrap()).collect();
        let cfg = Config { workers, preemptions, max_steps: 3000, max_executions: if c.thorough { 200000 } else { 20000 } };
        let body = move || {
            let mock = Mock::default();
            let mut report = Report::new();
            let (ok, bad) = parallel_build(src.clone(), es.clone(), &mock, &mut report);
            let events = mock.events.into_inner().unwrap();
            let ok: Vec<(String, String)> = ok.iter().map(|m| (m.path().to_string(), describe(m))).collect();
            let bad: Vec<(String, bool, String)> = bad.iter().map(|(s, e)| (s.path.to_string(), matches!(e, Error::DependentModuleBuildFailed), format!("{:?}", e))).collect();
            (ok, bad, events)
        };
        let mut first = None;
        c.run(&key, &what, cfg, false, body, move |r| {
            let (ok, bad, events) = r.unwrap();
            let mut names: BTreeSet<String> = (0..n).filter(|i| good[*i]).map(name).collect();
            names.insert("builtin".into());
            let built: BTreeSet<String> = ok.iter().map(|x| x.0.clone()).collect();
            if built != names || built.len() != ok.len() {
                return Err(format!("it builds {:?} instead of {:?}", built, names));
            }
            let mut want: BTreeMap<String, bool> = BTreeMap::new();
            for i in (0..n).filter(|i| there[*i] && !good[*i]) {
                want.insert(name(i), g[i].iter().any(|d| !good[*d]));
            }
            let got: BTreeMap<String, bool> = bad.iter().map(|x| (x.0.clone(), x.1)).collect();
            if got != want || got.len() != bad.len() {
                return Err(format!("errors (true: because of a dependency) {:?} instead of {:?}", got, want));
            }
            let mut added: Vec<usize> = Vec::new();
            let mut builtin = 0;
            let mut macros: BTreeMap<(String, String), usize> = BTreeMap::new();
            for e in &events {
                match e {
                    Ev::Add(p, entry) if p == "builtin" => {
                        builtin += 1;
                        if *entry {
                            return Err("the builtin module is an entry point".into());
                        }
                    }
                    Ev::Add(p, entry) => {
                        let i = (0..n).find(|i| name(*i) == *p).ok_or(format!("adds {}", p))?;
                        if *entry != entries.contains(&i) {
                            return Err(format!("adds {} as {}", p, if *entry { "an entry point" } else { "no entry point" }));
                        }
                        if builtin == 0 || g[i].iter().any(|d| !added.contains(d)) {
                            return Err(format!("adds {} before its dependencies, in {:?}", p, events));
                        }
                        if !good[i] || added.contains(&i) {
                            return Err(format!("adds {}, in {:?}", p, events));
                        }
                        added.push(i);
                    }
                    Ev::Macro(p, s) => {
                        if !added.iter().any(|i| name(*i) == *p) {
                            return Err(format!("executes a macro of {} before it is added, in {:?}", p, events));
                        }
                        *macros.entry((p.clone(), s.clone())).or_default() += 1;
                    }
                }
            }
            if builtin != 1 || added.len() != good.iter().filter(|x| **x).count() {
                return Err(format!("adds {:?}", events));
            }
            // what is built does not depend on the schedule
            let all = (ok, bad, macros);
            match &first {
                None => first = Some(all),
                Some(f) => {
                    if *f != all {
                        return Err(format!("another schedule builds {:?}, this one {:?}", f, all));
                    }
                }
            }
            Ok(())
        });
    }
}
