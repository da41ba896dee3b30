//! Exhaustive enumeration over inputs of in-process code, with panics and endless loops caught and reported.
use crate::harness::Report;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

type Slot = Arc<Mutex<(Option<Instant>, String)>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());

thread_local! {
    static SLOT: Slot = {
        let s: Slot = Arc::new(Mutex::new((None, String::new())));
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<u32> = RefCell::new(0);
}

/// Panics inside `guarded` are recorded instead of printed; inputs on which the code under test does not come back
/// are reported by a watchdog, which then ends the process (what was found so far is in the report).
pub fn init(rep: &'static Report, hang: Duration) {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) > 0 {
            PANIC.with(|p| *p.borrow_mut() = i.to_string());
        } else {
            old(i)
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let mut hung = false;
        for s in SLOTS.lock().unwrap().iter() {
            let g = s.lock().unwrap();
            if let Some(t) = g.0 {
                if t.elapsed() > hang {
                    rep.violation(&format!("hang/{}", g.1), &format!("no answer within {:?} on {}", hang, g.1), &g.1);
                    hung = true;
                }
            }
        }
        if hung {
            std::process::exit(0);
        }
    });
}

/// Runs the code under test on `input`; a panic becomes Err(message).
pub fn guarded<T>(input: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    SLOT.with(|s| {
        let mut g = s.lock().unwrap();
        g.0 = Some(Instant::now());
        g.1.clear();
        g.1.push_str(input);
    });
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    SLOT.with(|s| s.lock().unwrap().0 = None);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// f(i) for every i < n on all cores, in chunks; stops early when `f` returns false somewhere.
pub fn sweep(jobs: usize, n: u64, f: impl Fn(u64) -> bool + Sync) {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let chunk = (n / (jobs as u64 * 64)).clamp(1, 4096);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let a = next.fetch_add(chunk, SeqCst);
                    if a >= n || stop.load(SeqCst) {
                        break;
                    }
                    for i in a..(a + chunk).min(n) {
                        if !f(i) {
                            stop.store(true, SeqCst);
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
}

/// All words over `alphabet` of length <= n, by index.
pub struct Words<'a> {
    pub alphabet: &'a [&'a str],
    pub max: u32,
}

impl Words<'_> {
    pub fn count(&self) -> u64 {
        let k = self.alphabet.len() as u64;
        (0..=self.max).map(|i| k.pow(i)).sum()
    }
    pub fn letters(&self, mut i: u64) -> Vec<usize> {
        let k = self.alphabet.len() as u64;
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        (0..len)
            .map(|_| {
                let d = i % k;
                i /= k;
                d as usize
            })
            .collect()
    }
    pub fn word(&self, i: u64) -> String {
        self.letters(i).into_iter().map(|d| self.alphabet[d]).collect()
    }
}

pub fn opt_static<T>(c: &'static OnceLock<T>, f: impl FnOnce() -> T) -> &'static T {
    c.get_or_init(f)
}
