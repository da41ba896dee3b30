//! Stateless exploration: every execution runs on OS threads of which one at a time holds the token; at every operation on a
//! shared object the choice of who continues is taken from a script, and the scripts are enumerated depth first.
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type Pred = Box<dyn Fn() -> bool>;

#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    cv: Condvar,
}

impl Gate {
    fn wait(&self) {
        let mut g = self.open.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
        *g = false;
    }
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.cv.notify_one();
    }
}

enum Status {
    Ready,
    Blocked(Pred),
    Done,
}

struct Th {
    status: Status,
    gate: Arc<Gate>,
    name: &'static str,
}
unsafe impl Send for Th {}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Finished,
    Deadlock(String),
    TooLong,
    Hang,
}

#[derive(Default)]
struct State {
    ths: Vec<Th>,
    cur: usize,
    script: Vec<(u32, u32)>,
    pos: usize,
    preempt: usize,
    steps: usize,
    max_steps: usize,
    rr: bool,
    end: Option<End>,
    main_done: bool,
    diverged: usize,
    abandoned: bool,
    workers: usize,
    used: usize,
    trace: Vec<u32>,
}

static S: Mutex<Option<Box<State>>> = Mutex::new(None);
static DRIVER: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());

thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = S.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Default::default))
}

pub fn controlled() -> bool {
    ME.with(|m| m.get().is_some())
}

fn finish(st: &mut State, end: End) {
    if st.end.is_none() {
        st.end = Some(end);
    }
    *DRIVER.0.lock().unwrap() = true;
    DRIVER.1.notify_one();
}

/// Chooses who runs next; the token passes to it. `me` is the caller, with its status already set.
/// Returns whether the caller goes on.
fn pass(st: &mut State, me: usize) -> bool {
    let mut opts: Vec<usize> = Vec::new();
    let able = |t: &Th| match &t.status {
        Status::Ready => true,
        Status::Blocked(p) => p(),
        Status::Done => false,
    };
    let mine = able(&st.ths[me]);
    if mine {
        opts.push(me);
    }
    if !mine || st.preempt > 0 {
        for i in 0..st.ths.len() {
            if i != me && able(&st.ths[i]) {
                opts.push(i);
            }
        }
    }
    if opts.is_empty() {
        if st.main_done {
            finish(st, End::Finished);
        } else {
            let w: Vec<&str> = st.ths.iter().filter(|t| !matches!(t.status, Status::Done)).map(|t| t.name).collect();
            let w = w.join(", ");
            finish(st, End::Deadlock(w));
        }
        return false;
    }
    st.steps += 1;
    let k = if st.rr {
        // past the bound every thread gets its turn, so that only a program that does not end under a fair schedule is reported
        if st.steps > 3 * st.max_steps {
            st.abandoned = true;
            finish(st, End::TooLong);
            return false;
        }
        let mut all: Vec<usize> = (0..st.ths.len()).filter(|i| able(&st.ths[*i])).collect();
        all.sort_by_key(|i| (*i + st.ths.len() - me - 1) % st.ths.len());
        opts = all;
        0
    } else {
        if st.steps > st.max_steps {
            st.rr = true;
        }
        pick(st, opts.len())
    };
    let next = opts[k];
    if mine && next != me && !st.rr {
        st.preempt -= 1;
    }
    st.trace.push(next as u32);
    if next == me {
        st.ths[me].status = Status::Ready;
        return true;
    }
    st.cur = next;
    st.ths[next].status = Status::Ready;
    st.ths[next].gate.open();
    false
}

fn pick(st: &mut State, n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    let k = if st.pos < st.script.len() {
        if st.script[st.pos].1 != n as u32 {
            // an execution that does not repeat: follow what is there
            st.diverged += 1;
            let k = st.script[st.pos].0.min(n as u32 - 1);
            st.script.truncate(st.pos);
            st.script.push((k, n as u32));
        }
        st.script[st.pos].0
    } else {
        st.script.push((0, n as u32));
        0
    };
    st.pos += 1;
    k as usize
}

/// A choice that is not one of scheduling.
pub fn choose(n: usize) -> usize {
    if !controlled() || n == 0 {
        return 0;
    }
    with(|st| pick(st, n))
}

fn go(me: usize, status: Status) {
    let (on, gate) = with(|st| {
        st.ths[me].status = status;
        let on = pass(st, me);
        (on, st.ths[me].gate.clone())
    });
    if !on {
        gate.wait();
    }
}

/// A point where another thread may be scheduled.
pub fn point() {
    if let Some(me) = ME.with(|m| m.get()) {
        if std::thread::panicking() {
            return;
        }
        go(me, Status::Ready);
    }
}

/// Waits for a condition over shared objects.
pub fn block_until<'a>(p: impl Fn() -> bool + 'a) {
    if p() {
        return;
    }
    let me = match ME.with(|m| m.get()) {
        Some(me) => me,
        None => panic!("blocked outside the exploration"),
    };
    let b: Box<dyn Fn() -> bool + 'a> = Box::new(p);
    // the caller stays here until the condition holds, so what it borrows stays
    let b: Pred = unsafe { std::mem::transmute(b) };
    go(me, Status::Blocked(b));
}

/// A new controlled thread.
pub fn spawn(name: &'static str, f: impl FnOnce() + Send + 'static) {
    let gate = Arc::new(Gate::default());
    let id = with(|st| {
        st.ths.push(Th { status: Status::Ready, gate: gate.clone(), name });
        st.ths.len() - 1
    });
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            ME.with(|m| m.set(Some(id)));
            gate.wait();
            let _ = catch_unwind(AssertUnwindSafe(f));
            with(|st| {
                let me = ME.with(|m| m.get()).unwrap();
                st.ths[me].status = Status::Done;
                pass(st, me);
            });
            ME.with(|m| m.set(None));
        })
        .expect("thread");
}

/// Worker slots of the thread pool; 0 stands for as many as there are jobs.
pub fn take_slot() {
    block_until(|| with_free());
    with(|st| st.used += 1);
}
fn with_free() -> bool {
    // called with S held by the scheduler as well as from the thread itself: read without the lock, the caller has the token
    unsafe {
        let st = &*(RAW.0.get());
        match st.as_ref() {
            Some(st) => (**st).workers == 0 || (**st).used < (**st).workers,
            None => true,
        }
    }
}
pub fn free_slot() {
    with(|st| st.used -= 1);
}
struct Raw(std::cell::UnsafeCell<Option<*const State>>);
unsafe impl Sync for Raw {}
static RAW: Raw = Raw(std::cell::UnsafeCell::new(None));

#[derive(Clone, Copy)]
pub struct Config {
    pub workers: usize,
    pub preemptions: usize,
    pub max_steps: usize,
    pub max_executions: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: usize,
    pub steps: usize,
    pub diverged: usize,
    pub complete: bool,
    pub threads_left: usize,
}

pub struct Execution<R> {
    pub end: End,
    pub result: Option<Result<R, String>>,
    /// threads of this execution that have not ended
    pub left: usize,
    pub trace: Vec<u32>,
}

pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

/// Runs the body under every schedule. `check` sees every execution and says whether to go on.
pub fn explore<R: Send + 'static>(cfg: Config, body: impl Fn() -> R + Send + Sync + 'static, mut check: impl FnMut(Execution<R>) -> bool) -> Stats {
    let body = Arc::new(body);
    let mut script: Vec<(u32, u32)> = Vec::new();
    let mut stats = Stats::default();
    let base = with(|st| {
        unsafe { *RAW.0.get() = Some(st as *const State) };
        // what earlier executions left behind for good (threads that live in statics) stays
        st.ths.iter().rposition(|t| !matches!(t.status, Status::Done)).map_or(0, |p| p + 1)
    });
    loop {
        let base = if stats.executions == 0 { base } else { with(|st| st.ths.iter().rposition(|t| !matches!(t.status, Status::Done)).map_or(0, |p| p + 1)) };
        *DRIVER.0.lock().unwrap() = false;
        let slot: Arc<Mutex<Option<Result<R, String>>>> = Arc::default();
        with(|st| {
            st.ths.truncate(base);
            st.script = std::mem::take(&mut script);
            st.pos = 0;
            st.preempt = cfg.preemptions;
            st.steps = 0;
            st.max_steps = cfg.max_steps;
            st.rr = false;
            st.end = None;
            st.main_done = false;
            st.diverged = 0;
            st.workers = cfg.workers;
            st.used = 0;
            st.trace.clear();
        });
        let (b, s) = (body.clone(), slot.clone());
        spawn("main", move || {
            let r = catch_unwind(AssertUnwindSafe(|| b())).map_err(|p| message(&*p));
            *s.lock().unwrap() = Some(r);
            with(|st| st.main_done = true);
        });
        with(|st| st.ths[base].gate.open());
        // wait for the end; a program that computes without end is noticed by the clock
        let mut hang = false;
        {
            let mut g = DRIVER.0.lock().unwrap();
            let t0 = Instant::now();
            while !*g {
                g = DRIVER.1.wait_timeout(g, Duration::from_secs(5)).unwrap().0;
                if !*g && t0.elapsed() > Duration::from_secs(90) {
                    hang = true;
                    break;
                }
            }
        }
        let (end, left, trace) = with(|st| {
            script = std::mem::take(&mut st.script);
            script.truncate(st.pos);
            stats.steps += st.steps;
            stats.diverged += st.diverged;
            let left = st.ths[base..].iter().filter(|t| !matches!(t.status, Status::Done)).count();
            (if hang { End::Hang } else { st.end.clone().unwrap() }, left, st.trace.clone())
        });
        stats.executions += 1;
        stats.threads_left = left;
        let stuck = matches!(end, End::Hang | End::Deadlock(_) | End::TooLong);
        let result = slot.lock().unwrap().take();
        let on = check(Execution { end, result, left, trace });
        if !stuck && !on {
            return stats;
        }
        if stuck {
            // the threads of this execution stay where they are, out of the way
            with(|st| {
                for t in st.ths[base..].iter_mut() {
                    t.status = Status::Done
                }
            });
            return stats;
        }
        while let Some(&(k, n)) = script.last() {
            if k + 1 < n {
                script.last_mut().unwrap().0 += 1;
                break;
            }
            script.pop();
        }
        if script.is_empty() {
            stats.complete = true;
            return stats;
        }
        if stats.executions >= cfg.max_executions {
            return stats;
        }
    }
}

/// Runs the body once, under the schedule that comes first.
pub fn once<R: Send + 'static>(body: impl Fn() -> R + Send + Sync + 'static) -> R {
    let mut got = None;
    explore(Config { workers: 0, preemptions: 0, max_steps: 100000, max_executions: 1 }, body, |x: Execution<R>| {
        got = x.result;
        true
    });
    got.expect("it does not end").unwrap_or_else(|p| panic!("{}", p))
}
