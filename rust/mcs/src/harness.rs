//! Runs op-interpreter harnesses (llrl programs linked with mcio.c) on word streams, and reports.
use std::collections::HashMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Opts {
    pub exes: Vec<String>,
    pub work: PathBuf,
    pub thorough: bool,
    pub seed: u64,
    pub extra: HashMap<String, String>,
    pub jobs: usize,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Report {
    f: Mutex<fs::File>,
    keys: Mutex<HashMap<String, usize>>,
    pub nviol: AtomicUsize,
    samples: AtomicUsize,
}

impl Report {
    pub fn new(path: &str) -> Self {
        Report {
            f: Mutex::new(fs::File::create(path).unwrap()),
            keys: Default::default(),
            nviol: AtomicUsize::new(0),
            samples: AtomicUsize::new(0),
        }
    }
    fn line(&self, s: &str) {
        let mut f = self.f.lock().unwrap();
        f.write_all(s.as_bytes()).unwrap();
        f.write_all(b"\n").unwrap();
    }
    /// `key` identifies the failing input / call (what known_findings.json lists).
    pub fn violation(&self, key: &str, what: &str, replay: &str) {
        let mut k = self.keys.lock().unwrap();
        let n = k.entry(key.to_string()).or_insert(0);
        *n += 1;
        if *n > 1 || k.len() > 300 {
            return;
        }
        drop(k);
        self.nviol.fetch_add(1, SeqCst);
        let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
        self.line(&format!(
            "{{\"violation\":{{\"key\":{},\"what\":{},\"replay\":{}}}}}",
            esc(key),
            esc(&cut(what, 3000)),
            esc(&cut(replay, 20000))
        ));
    }
    pub fn sample(&self, s: &str) {
        if self.samples.fetch_add(1, SeqCst) < 8 {
            self.line(&format!("{{\"sample\":{}}}", esc(s)));
        }
    }
    pub fn cover(&self, part: &str, kv: &[(&str, u64)], text: &[(&str, &str)]) {
        let mut s = format!("{{\"cover\":{{\"part\":{}", esc(part));
        for (k, v) in kv {
            s += &format!(",{}:{}", esc(k), v);
        }
        for (k, v) in text {
            s += &format!(",{}:{}", esc(k), esc(v));
        }
        self.line(&(s + "}}"));
    }
}

pub enum End {
    Done,
    /// the harness died or hung: how
    Died(String),
}

pub const MARK: u64 = 0x4d41524b4d41524b;

pub struct Outcome {
    pub end: End,
    pub inpos: usize,
    pub out: Vec<u64>,
}

static SEQ: AtomicU64 = AtomicU64::new(0);

pub fn run_words(exe: &str, work: &PathBuf, words: &[u64], out_cap: usize, hang: Duration) -> Outcome {
    run_words_env(exe, work, words, out_cap, hang, &[])
}

pub fn run_words_env(exe: &str, work: &PathBuf, words: &[u64], out_cap: usize, hang: Duration, env: &[(String, String)]) -> Outcome {
    let id = SEQ.fetch_add(1, SeqCst);
    let fin = work.join(format!("in-{}", id));
    let fout = work.join(format!("out-{}", id));
    let bytes: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    fs::write(&fin, bytes).unwrap();
    let of = fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&fout).unwrap();
    of.set_len((out_cap as u64 + 64) * 8).unwrap();
    let errp = work.join(format!("err-{}", id));
    let errf = fs::File::create(&errp).unwrap();
    let mut child = Command::new(exe)
        .env("MC_IN", &fin)
        .env("MC_OUT", &fout)
        .envs(env.iter().cloned())
        .current_dir(work)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(errf)
        .spawn()
        .expect("spawn harness");
    let pos = || {
        let mut b = [0u8; 24];
        of.read_exact_at(&mut b, 0).unwrap();
        let g = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        (g(0), g(1), g(2))
    };
    let mut last = (0, 0, 0);
    let mut since = Instant::now();
    let mut nap = 200u64;
    let mut hung = false;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(20_000);
        let p = pos();
        if p != last {
            last = p;
            since = Instant::now();
        } else if since.elapsed() > hang {
            hung = true;
            child.kill().ok();
        }
    };
    let (ip, op, done) = pos();
    let mut buf = vec![0u8; op as usize * 8];
    of.read_exact_at(&mut buf, 24).unwrap();
    let out = buf.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let mut err = String::new();
    fs::File::open(&errp).unwrap().read_to_string(&mut err).ok();
    for f in [&fin, &fout, &errp] {
        fs::remove_file(f).ok();
    }
    let end = if hung {
        End::Died(format!("hangs (no progress for {:?})", hang))
    } else if done == 1 && status.code() == Some(0) {
        End::Done
    } else if status.code() == Some(97) {
        panic!("harness i/o error: {}", err);
    } else {
        let t: String = err.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
        End::Died(match status.signal() {
            Some(s) => format!("killed by signal {}; stderr: {}", s, t.trim()),
            None => format!("exit status {:?}; stderr: {}", status.code(), t.trim()),
        })
    };
    Outcome { end, inpos: ip as usize, out }
}

/// Runs `f` over `items` on `jobs` threads.
pub fn par<T: Send, F: Fn(T) + Sync>(jobs: usize, items: Vec<T>, f: F) {
    let q = Mutex::new(items.into_iter());
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let it = q.lock().unwrap().next();
                match it {
                    Some(t) => f(t),
                    None => break,
                }
            });
        }
    });
}

/// One case: a self-contained word sequence with the outputs the reference demands.
/// `Fp` positions are free words (fingerprints), handed back to the caller.
pub struct Case {
    pub words: Vec<u64>,
    pub exp: Vec<u64>,
    /// positions of `exp` that are not compared
    pub free: Vec<usize>,
    pub key: String,
    pub what: String,
}

impl Case {
    pub fn new() -> Self {
        Case { words: vec![], exp: vec![], free: vec![], key: String::new(), what: String::new() }
    }
    pub fn op(&mut self, w: &[u64]) -> &mut Self {
        self.words.extend_from_slice(w);
        self
    }
    pub fn expect(&mut self, w: &[u64]) -> &mut Self {
        self.exp.extend_from_slice(w);
        self
    }
    pub fn expect_opt(&mut self, o: Option<u64>) -> &mut Self {
        match o {
            None => self.exp.push(0),
            Some(v) => {
                self.exp.push(1);
                self.exp.push(v)
            }
        }
        self
    }
    pub fn free(&mut self) -> &mut Self {
        self.free.push(self.exp.len());
        self.exp.push(0);
        self
    }
    pub fn blob(&mut self, b: &[u8]) -> &mut Self {
        push_blob(&mut self.words, b);
        self
    }
    pub fn expect_blob(&mut self, b: &[u8]) -> &mut Self {
        push_blob(&mut self.exp, b);
        self
    }
}

pub fn push_blob(v: &mut Vec<u64>, b: &[u8]) {
    v.push(b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        v.push(u64::from_le_bytes(w));
    }
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub words: u64,
}

static STOP: AtomicBool = AtomicBool::new(false);

/// Runs all cases (in batches over all cores) on one harness executable; every mismatch, crash or hang is reported.
/// Returns for each case its free words (None if it failed).
pub fn run_cases(o: &Opts, rep: &Report, exe: &str, tag: &str, cases: &[Case]) -> Vec<Option<Vec<u64>>> {
    let results: Mutex<Vec<Option<Vec<u64>>>> = Mutex::new((0..cases.len()).map(|_| None).collect());
    let mut batches = vec![];
    let (mut start, mut sz) = (0, 0);
    let per = (cases.iter().map(|c| c.exp.len() + c.words.len()).sum::<usize>() / (o.jobs * 2)).clamp(2_000, 4_000_000);
    for i in 0..cases.len() {
        sz += cases[i].exp.len() + cases[i].words.len();
        if sz > per || i + 1 == cases.len() {
            batches.push((start, i + 1));
            start = i + 1;
            sz = 0;
        }
    }
    let restarts = AtomicUsize::new(0);
    par(o.jobs, batches, |(mut a, b)| {
        while a < b {
            if STOP.load(SeqCst) {
                return;
            }
            let mut words = vec![];
            let mut cap = 1024;
            for c in &cases[a..b] {
                words.extend_from_slice(&c.words);
                words.push(MARK);
                cap += c.exp.len() + 1;
            }
            words.push(0);
            let env: Vec<(String, String)> = vec![];
            let r = run_words_env(exe, &o.work, &words, cap * 2 + 100_000, Duration::from_secs(20), &env);
            let mut p = 0;
            let mut bad = None;
            let mut got = vec![];
            for (i, c) in cases[a..b].iter().enumerate() {
                let end = (p + c.exp.len()).min(r.out.len());
                let mine = &r.out[p..end];
                let mut free = vec![];
                let mut mism = None;
                let mut fi = 0;
                for (k, e) in c.exp.iter().enumerate() {
                    if fi < c.free.len() && c.free[fi] == k {
                        fi += 1;
                        if k < mine.len() {
                            free.push(mine[k]);
                        }
                        continue;
                    }
                    if k >= mine.len() || mine[k] != *e {
                        mism = Some(k);
                        break;
                    }
                }
                if mism.is_none() && r.out.get(end) == Some(&MARK) {
                    got.push((a + i, free));
                    p = end + 1;
                    continue;
                }
                let how = match (mism, &r.end) {
                    (Some(k), _) if k < mine.len() && mine[k] != MARK => format!("output word {}: expected {}, got {}", k, c.exp[k], mine[k]),
                    (_, End::Died(h)) if end == r.out.len() => h.clone(),
                    (Some(k), _) => format!("only {} of {} output words", k, c.exp.len()),
                    (None, _) => "surplus output".into(),
                };
                bad = Some((i, how, mine.to_vec()));
                break;
            }
            {
                let mut g = results.lock().unwrap();
                for (i, f) in got {
                    g[i] = Some(f);
                }
            }
            match bad {
                None => {
                    if let (End::Done, true) = (&r.end, p == r.out.len()) {
                        return;
                    }
                    let c = &cases[b - 1];
                    rep.violation(&c.key, &format!("[{}] {}: after the last case of a batch: {}", tag, c.what, match &r.end { End::Done => "surplus output".to_string(), End::Died(h) => h.clone() }), &format!("{:?}", c.words));
                    return;
                }
                Some((i, how, mine)) => {
                    let c = &cases[a + i];
                    rep.violation(
                        &c.key,
                        &format!("[{}] {}: {}", tag, c.what, how),
                        &format!("exe {} words {:?} expected {:?} got {:?}", exe, c.words, c.exp, mine),
                    );
                    a += i + 1;
                    if restarts.fetch_add(1, SeqCst) > 400 {
                        STOP.store(true, SeqCst);
                    }
                }
            }
        }
    });
    results.into_inner().unwrap()
}

/// Runs each case in a process of its own: it must produce exactly the expected words and then stop the program
/// (not by an invalid memory access, and not go on).
pub fn run_stops(o: &Opts, rep: &Report, exe: &str, tag: &str, cases: &[Case]) {
    par(o.jobs, cases.iter().collect(), |c| {
        let mut words = c.words.clone();
        words.push(MARK);
        words.push(0);
        let r = run_words(exe, &o.work, &words, c.exp.len() + 4096, Duration::from_secs(20));
        let how = match &r.end {
            _ if r.out.len() > c.exp.len() => format!("the program went on (surplus output {:?})", &r.out[c.exp.len()..]),
            End::Done => "the program ended normally".into(),
            End::Died(h) if h.contains("signal 11") || h.contains("signal 7;") || h.contains("hangs") => h.clone(),
            _ if r.out != c.exp => format!("output {:?}, expected {:?}", r.out, c.exp),
            _ => return,
        };
        rep.violation(&c.key, &format!("[{}] {} should stop the program: {}", tag, c.what, how), &format!("exe {} words {:?}", exe, c.words));
    });
}
