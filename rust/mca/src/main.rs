//! Engines that link /repo's assembler, linker and object writer.
#[path = "../../mcs/src/harness.rs"]
#[allow(dead_code)]
mod harness;
#[path = "../../mcx/src/common.rs"]
#[allow(dead_code)]
mod common;
mod forms;
mod p15;
mod p16;
use p15::*;

use harness::{Opts, Report};

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("property");
    let mut o = Opts {
        exes: vec![],
        work: "".into(),
        thorough: false,
        seed: 1,
        extra: Default::default(),
        jobs: std::thread::available_parallelism().map_or(8, |n| n.get()),
    };
    let mut report = String::new();
    while let Some(k) = a.next() {
        let v = a.next().expect("option value");
        match k.as_str() {
            "--work" => o.work = v.into(),
            "--report" => report = v,
            "--tier" => o.thorough = v == "thorough",
            "--seed" => o.seed = v.parse().unwrap(),
            "--exe" => o.exes.push(v),
            "--jobs" => o.jobs = v.parse().unwrap(),
            _ => {
                o.extra.insert(k.trim_start_matches("--").to_string(), v);
            }
        }
    }
    let rep: &'static Report = Box::leak(Box::new(Report::new(&report)));
    common::init(rep, std::time::Duration::from_secs(20));
    match prop.as_str() {
        "p16" => p16::main(&o, rep),
        "p15" => p15::main(&o, rep),
        _ => panic!("unknown property {}", prop),
    }
}
