//! Explores the schedules of the parallel parts of the compiler.
#[path = "../../../mcs/src/harness.rs"]
#[allow(dead_code)]
mod harness;
mod gen;
mod p03;
mod p04;
mod p05;
use harness::Report;
use mcstd::sched::{explore, Config, End, Execution};

pub struct Ctl {
    pub rep: &'static Report,
    pub thorough: bool,
    pub shard: usize,
    pub of: usize,
    pub n: usize,
    pub configs: usize,
    pub executions: usize,
    pub steps: usize,
    pub diverged: usize,
    pub cut: usize,
    pub work: String,
    /// an execution did not end
    pub stuck: bool,
}

impl Ctl {
    /// Whether the next configuration belongs to this process
    pub fn mine(&mut self) -> bool {
        self.n += 1;
        self.n % self.of == self.shard
    }

    /// Explores one configuration; `judge` says what is wrong with an execution that ended.
    pub fn run<R: Send + 'static>(
        &mut self,
        key: &str,
        what: &str,
        cfg: Config,
        faulty: bool,
        body: impl Fn() -> R + Send + Sync + 'static,
        mut judge: impl FnMut(Result<R, String>) -> Result<(), String>,
    ) {
        let rep = self.rep;
        let mut stop = false;
        let mut stuck = false;
        let mut first = true;
        let stats = explore(cfg, body, |x: Execution<R>| {
            stuck |= x.end != End::Finished;
            let bad = match (&x.end, x.result) {
                (End::Deadlock(w), _) => Some(format!("it never ends: everything waits ({})", w)),
                (End::TooLong, _) => Some("it does not end".to_string()),
                (End::Hang, _) => {
                    stop = true;
                    Some("it computes without end".to_string())
                }
                (End::Finished, Some(Err(p))) if !faulty => Some(format!("panic: {}", p)),
                (End::Finished, Some(r)) => judge(r).err(),
                (End::Finished, None) => Some("no result".to_string()),
            };
            let bad = bad.or_else(|| (x.left > 0 && !first && !faulty).then(|| format!("{} threads never end", x.left)));
            first = false;
            if let Some(b) = bad {
                rep.violation(key, &format!("{}: {}", what, b), &format!("{{\"configuration\": {}, \"workers\": {}, \"schedule\": {:?}}}", harness::esc(what), cfg.workers, x.trace));
                false
            } else {
                true
            }
        });
        self.stuck |= stuck;
        self.configs += 1;
        self.executions += stats.executions;
        self.steps += stats.steps;
        self.diverged += stats.diverged;
        self.cut += (!stats.complete) as usize;
        if stop {
            self.end();
            std::process::exit(0);
        }
    }

    pub fn end(&self) {
        println!("{} {} {} {} {}", self.configs, self.executions, self.steps, self.diverged, self.cut);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        // what happens in an execution is judged, everything else is a fault of this program
        if !mcstd::sched::controlled() {
            eprintln!("{}", i);
        }
    }));
    let rep: &'static Report = Box::leak(Box::new(Report::new(&a[3])));
    let mut c = Ctl { rep, thorough: a[2] == "thorough", shard: a[4].parse().unwrap(), of: a[5].parse().unwrap(), n: 0, configs: 0, executions: 0, steps: 0, diverged: 0, cut: 0, work: a[6].clone(), stuck: false };
    match a[1].as_str() {
        "p03" => p03::main(&mut c),
        "p04" => p04::main(&mut c),
        "p05" => p05::main(&mut c),
        _ => panic!(),
    }
    c.end();
}
