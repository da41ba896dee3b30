mod harness;
mod p17;
mod p18;
mod p19;
mod p20;
mod p28;
use harness::*;

fn main() {
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("property");
    let mut o = Opts { exes: vec![], work: ".".into(), thorough: false, seed: 1, extra: Default::default(), jobs: 8 };
    let mut report = String::from("/dev/stdout");
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match &k[..] {
            "--exe" => o.exes.push(v),
            "--work" => o.work = v.into(),
            "--tier" => o.thorough = v == "thorough",
            "--seed" => o.seed = v.parse().unwrap(),
            "--report" => report = v,
            "--jobs" => o.jobs = v.parse().unwrap(),
            _ => {
                o.extra.insert(k[2..].to_string(), v);
            }
        }
    }
    let rep = Report::new(&report);
    match &prop[..] {
        "p17" => p17::main(&o, &rep),
        "p18" => p18::main(&o, &rep),
        "p19" => p19::main(&o, &rep),
        "p20" => p20::main(&o, &rep),
        "p28" => p28::main(&o, &rep),
        _ => panic!("unknown property {}", prop),
    }
}
