use crate::gen::*;
use crate::Ctl;
use llrl::ast;
use llrl::lowering::ir::{self, traverser};
use llrl::lowering::{Backend, Lowerizer};
use llrl::module::{parallel_build, Module};
use llrl::path::Path;
use llrl::report::Report;
use llrl::sexp::Sexp;
use mcstd::sched::{self, Config};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

/// A definition refers to these
struct Refs(HashSet<u32>);
impl traverser::Traverser for Refs {
    type Error = ();
    fn before_ct(&mut self, ct: &ir::Ct) -> Result<bool, ()> {
        if let ir::Ct::Id(id) = ct {
            self.0.insert(id.index());
        }
        Ok(true)
    }
}
fn refs(x: &impl traverser::Traverse) -> HashSet<u32> {
    let mut r = Refs(HashSet::new());
    let _ = traverser::traverse(x, &mut r);
    r.0
}

#[derive(Clone, PartialEq, Debug)]
enum Ev {
    /// the numbers of top level expressions that a statement of main consists of
    Main(Vec<u32>),
    Macro(String),
}

#[derive(Default)]
struct Log {
    defs: HashMap<u32, HashSet<u32>>,
    kinds: HashMap<u32, bool>,
    events: Vec<Ev>,
    wrong: Vec<String>,
    calls: usize,
}

struct Mock {
    log: Arc<Mutex<Log>>,
    /// the call that fails
    fault: usize,
}

impl Mock {
    fn call(&mut self) {
        sched::point();
        let n = {
            let mut l = self.log.lock().unwrap();
            l.calls += 1;
            l.calls
        };
        if n == self.fault {
            panic!("the backend fails");
        }
    }
    fn closed(l: &mut Log, what: &str, start: HashSet<u32>) {
        let mut seen = HashSet::new();
        let mut todo: Vec<u32> = start.into_iter().collect();
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            match l.defs.get(&i) {
                Some(d) => todo.extend(d),
                None => l.wrong.push(format!("{} needs definition {}, which has not been put", what, i)),
            }
        }
    }
}

impl Backend for Mock {
    fn put_def(&mut self, id: ir::CtId, def: Arc<ir::Def>) {
        self.call();
        let mut l = self.log.lock().unwrap();
        if matches!(*def, ir::Def::Alias(_) | ir::Def::AliasTable(_) | ir::Def::Generic(..) | ir::Def::Data(_)) {
            l.wrong.push(format!("definition {} is of a kind that backends do not know", id.index()));
        }
        let r = refs(&*def);
        if l.defs.insert(id.index(), r).is_some() {
            l.wrong.push(format!("definition {} is put twice", id.index()));
        }
        let m = matches!(&*def, ir::Def::Function(f) if matches!(f.kind, ir::FunctionKind::Macro));
        l.kinds.insert(id.index(), m);
    }

    fn put_main(&mut self, init: ir::Init) {
        self.call();
        let mut l = self.log.lock().unwrap();
        let mut s = HashSet::new();
        s.extend(refs(&init.expr));
        s.extend(refs(&init.ty));
        Mock::closed(&mut l, "main", s);
        let t = format!("{:?}", init.expr);
        let v = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).filter(|x| (7000..7100).contains(x)).collect();
        l.events.push(Ev::Main(v));
    }

    fn execute_macro(&mut self, id: ir::CtId, s: Sexp) -> Result<Sexp, String> {
        self.call();
        let mut l = self.log.lock().unwrap();
        Mock::closed(&mut l, "a macro", [id.index()].into_iter().collect());
        if l.kinds.get(&id.index()) != Some(&true) {
            l.wrong.push(format!("definition {} is executed as a macro", id.index()));
        }
        l.events.push(Ev::Macro(s.to_string()));
        expand(&s)
    }

    fn complete(self, _: &mut Report) {}
}

/// Forwards and lets other threads in between.
struct Pass<'a>(&'a Lowerizer<Mock>);
impl llrl::module::Backend for Pass<'_> {
    fn add_module(&self, m: Arc<Module>, entry: bool) {
        self.0.add_module(m, entry)
    }
    fn execute_macro(&self, id: ast::NodeId<ast::Macro>, s: &Sexp) -> Result<Sexp, String> {
        self.0.execute_macro(id, s)
    }
}

pub fn main(c: &mut Ctl) {
    let deep = c.thorough as usize;
    // imports, failing module, entries, workers, preemptions, fault at call k of how many (0: none)
    let mut plan: Vec<(Vec<Vec<usize>>, Vec<Fail>, Vec<usize>, usize, usize, bool)> = Vec::new();
    let subsets = |n: usize| (1..1usize << n).map(move |m| (0..n).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>());
    for n in 1..=3usize {
        for g in dags(n) {
            for e in subsets(n) {
                plan.push((g.clone(), vec![Fail::No; n], e.clone(), 0, (if n < 3 { 2 } else { 1 }) + deep, false));
                plan.push((g.clone(), vec![Fail::No; n], e.clone(), 1, deep, false));
                if n < 3 || e == [2] || e == [0, 2] {
                    plan.push((g.clone(), vec![Fail::No; n], e.clone(), 0, (n < 3) as usize + deep, true));
                }
                for i in 0..n {
                    let f: Vec<Fail> = (0..n).map(|k| if k == i { Fail::Macro } else { Fail::No }).collect();
                    plan.push((g.clone(), f, e.clone(), 0, deep, false));
                }
            }
        }
    }
    for g in dags(4) {
        for e in [vec![3], vec![2, 3]] {
            plan.push((g.clone(), vec![Fail::No; 4], e, 0, deep, false));
        }
    }
    real(c);
    let warm = sources(1, &[vec![]], &[Fail::No], &[0], 0, false);
    sched::once(move || parallel_build(warm.clone(), HashSet::new(), &(), &mut Report::new()).0.len());
    for (g, fail, entries, workers, preemptions, faulty) in plan {
        let n = g.len();
        if !c.mine() {
            continue;
        }
        let there = reachable(&g, &entries);
        let mut good = vec![false; n];
        for i in 0..n {
            good[i] = there[i] && fail[i] == Fail::No && g[i].iter().all(|d| good[*d]);
        }
        let src = sources(n, &g, &fail, &entries, 2, false);
        let started: Vec<usize> = entries.iter().copied().filter(|e| good[*e]).collect();
        let inits = reachable(&g, &started);
        // without a fault, and then with one at every call that run makes
        let mut fault = 0;
        let mut calls = 1;
        while fault == 0 || (faulty && fault <= calls) {
            let what = format!("building and lowering {:?} with imports {:?}, failures {:?}{}", entries, g, fail, if fault > 0 { format!(", and a backend that fails at call {}", fault) } else { String::new() });
            let key = format!("{:?}/{:?}/{:?}/{}/{}", entries, g, fail, workers, fault);
            let es: HashSet<Path> = entries.iter().map(|i| name(*i).parse().unwrap()).collect();
            let cfg = Config { workers, preemptions: if fault > 0 && n > 1 { deep } else { preemptions }, max_steps: 5000, max_executions: if c.thorough { 200000 } else { 20000 } };
            let src = src.clone();
            let body = move || {
                let log = Arc::new(Mutex::new(Log::default()));
                let lowerizer = Lowerizer::new(Mock { log: log.clone(), fault });
                let mut report = Report::new();
                let (ok, _) = parallel_build(src.clone(), es.clone(), &Pass(&lowerizer), &mut report);
                sched::point();
                let mock = lowerizer.complete(&mut report);
                drop(mock);
                let l = log.lock().unwrap();
                (ok.len(), l.events.clone(), l.wrong.clone(), l.calls)
            };
            let mut first: Option<usize> = None;
            let mut most = 0;
            let (g, inits, good, there) = (&g, &inits, &good, &there);
            c.run(&key, &what, cfg, fault > 0, body, |r| {
                if fault > 0 {
                    // another order may need fewer calls
                    return match r {
                        Err(_) => Ok(()),
                        Ok(x) if x.3 < fault => Ok(()),
                        Ok(_) => Err("it ends as if nothing had happened".into()),
                    };
                }
                let (ok, events, wrong, calls) = r.unwrap();
                most = most.max(calls);
                if let Some(w) = wrong.first() {
                    return Err(w.clone());
                }
                if ok != 1 + good.iter().filter(|x| **x).count() {
                    return Err(format!("{} modules are built", ok));
                }
                let mut main: Vec<u32> = Vec::new();
                let mut macros = 0;
                for e in &events {
                    match e {
                        Ev::Main(v) => main.extend(v),
                        Ev::Macro(_) => macros += 1,
                    }
                }
                let want: usize = (0..n).filter(|i| there[*i] && g[*i].iter().all(|d| good[*d])).map(|i| if fail[i] == Fail::No { g[i].iter().filter(|d| *d % 2 == 1).count() } else { g[i].iter().any(|d| d % 2 == 1) as usize }).sum();
                if macros != want {
                    return Err(format!("{} macros are executed instead of {}", macros, want));
                }
                ordered(g, inits, &main)?;
                match first {
                    None => first = Some(calls),
                    Some(_) => {}
                }
                Ok(())
            });
            if fault == 0 {
                calls = most;
            }
            fault += 1;
        }
    }
}

/// Every expression once, in textual order, and after those of the modules imported
fn ordered(g: &[Vec<usize>], inits: &[bool], main: &[u32]) -> Result<(), String> {
    let n = g.len();
    let mut expect: Vec<u32> = (0..n).filter(|i| inits[*i]).flat_map(|i| [7000 + i as u32 * 10, 7001 + i as u32 * 10]).collect();
    let mut got = main.to_vec();
    got.sort();
    expect.sort();
    if got != expect {
        return Err(format!("main consists of {:?}", main));
    }
    let at = |x: u32| main.iter().position(|y| *y == x).unwrap();
    for i in (0..n).filter(|i| inits[*i]) {
        let b = 7000 + i as u32 * 10;
        if at(b) > at(b + 1) {
            return Err(format!("the expressions of a module are out of order: {:?}", main));
        }
        for d in &g[i] {
            if at(7001 + *d as u32 * 10) > at(b) {
                return Err(format!("a module is initialized before its dependency: {:?}", main));
            }
        }
    }
    Ok(())
}

extern "C" {
    fn dlsym(handle: *const u8, name: *const u8) -> *mut u8;
}

/// The same with the real chibi backend on its thread: macros are executed, and so is the program.
fn real(c: &mut Ctl) {
    let (log, logged) = unsafe { (dlsym(std::ptr::null(), b"mc_log\0".as_ptr()) as *mut i32, dlsym(std::ptr::null(), b"mc_logged\0".as_ptr()) as *mut i32) };
    assert!(!log.is_null() && !logged.is_null());
    let (log, logged) = (log as usize, logged as usize);
    let deep = c.thorough as usize;
    let mut plan = Vec::new();
    for n in 1..=3usize {
        for g in dags(n) {
            for m in 1..1usize << n {
                let e: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).collect();
                if !c.thorough && n == 3 && e != [2] {
                    continue;
                }
                plan.push((g.clone(), vec![Fail::No; n], e.clone(), (n < 3) as usize + deep));
                for i in 0..n {
                    plan.push((g.clone(), (0..n).map(|k| if k == i { Fail::Macro } else { Fail::No }).collect(), e.clone(), deep));
                }
            }
        }
    }
    // what lives in statics for good comes first, and outside of what is explored
    let run = move |src: Vec<llrl::source::Source>, es: HashSet<Path>| {
        let backend = llrl::backend::chibi::Backend::from(llrl::backend::options::Options::default());
        let lowerizer = Lowerizer::new(backend);
        let mut report = Report::new();
        let (ok, _) = parallel_build(src, es, &lowerizer, &mut report);
        let mut backend = lowerizer.complete(&mut report);
        unsafe { *(logged as *mut i32) = 0 };
        let r = llrl::backend::native::NativeBackend::execute_main(&mut backend);
        let n = unsafe { *(logged as *const i32) } as usize;
        let main: Vec<u32> = (0..n).map(|i| unsafe { *(log as *const i32).add(i) as u32 }).collect();
        llrl::lowering::Backend::complete(backend, &mut report);
        (ok.len(), r, main)
    };
    let warm = sources(1, &[vec![]], &[Fail::No], &[0], 1, true);
    let es: HashSet<Path> = [name(0).parse().unwrap()].into_iter().collect();
    let r = sched::once(move || run(warm.clone(), es.clone()));
    assert_eq!(r.2, [7000]);
    for (g, fail, entries, preemptions) in plan {
        let n = g.len();
        if !c.mine() {
            continue;
        }
        let there = reachable(&g, &entries);
        let mut good = vec![false; n];
        for i in 0..n {
            good[i] = there[i] && fail[i] == Fail::No && g[i].iter().all(|d| good[*d]);
        }
        let src = sources(n, &g, &fail, &entries, 2, true);
        let started: Vec<usize> = entries.iter().copied().filter(|e| good[*e]).collect();
        let inits = reachable(&g, &started);
        let what = format!("compiling and executing {:?} with imports {:?}, failures {:?}", entries, g, fail);
        let key = format!("chibi/{:?}/{:?}/{:?}", entries, g, fail);
        let es: HashSet<Path> = entries.iter().map(|i| name(*i).parse().unwrap()).collect();
        let cfg = Config { workers: 0, preemptions, max_steps: 8000, max_executions: if c.thorough { 20000 } else { 300 } };
        c.stuck = false;
        c.run(&key, &what, cfg, false, move || run(src.clone(), es.clone()), |r| {
            let (ok, r, main) = r.unwrap();
            if ok != 1 + good.iter().filter(|x| **x).count() {
                return Err(format!("{} modules are built", ok));
            }
            if r.is_err() {
                return Err(format!("the program ends with {:?}", r));
            }
            ordered(&g, &inits, &main)
        });
        if c.stuck {
            // the backend's thread may be gone
            return;
        }
    }
}
