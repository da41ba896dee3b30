//! Engines that link /repo's crates and enumerate inputs in-process.
#[path = "../../mcs/src/harness.rs"]
#[allow(dead_code)]
mod harness;
#[allow(dead_code)]
mod common;
mod p01;
mod p02;
mod p06;
mod p07;
mod p08;
mod p08k;
mod p09;
mod p11;
mod sysf;
mod front;
use harness::{Opts, Report};

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("property");
    let mut o = Opts {
        exes: vec![],
        work: "".into(),
        thorough: false,
        seed: 1,
        extra: Default::default(),
        jobs: std::thread::available_parallelism().map_or(8, |n| n.get()),
    };
    let mut report = String::new();
    while let Some(k) = a.next() {
        let v = a.next().expect("option value");
        match k.as_str() {
            "--work" => o.work = v.into(),
            "--report" => report = v,
            "--tier" => o.thorough = v == "thorough",
            "--seed" => o.seed = v.parse().unwrap(),
            "--exe" => o.exes.push(v),
            "--jobs" => o.jobs = v.parse().unwrap(),
            _ => {
                o.extra.insert(k.trim_start_matches("--").to_string(), v);
            }
        }
    }
    let rep: &'static Report = Box::leak(Box::new(Report::new(&report)));
    common::init(rep, std::time::Duration::from_secs(20));
    match prop.as_str() {
        "p01" => p01::main(&o, rep),
        "p02" => p02::main(&o, rep),
        "p06" => p06::main(&o, rep),
        "p07" => p07::main(&o, rep),
        "p08" => p08::main(&o, rep),
        "p09" => p09::main(&o, rep),
        "p11" => p11::main(&o, rep),
        _ => panic!("unknown property {}", prop),
    }
}
