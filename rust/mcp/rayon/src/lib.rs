//! rayon's scopes on controlled threads: every job is a thread that waits for a worker.
use mcstd::sched;
use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Inner {
    pending: Mutex<usize>,
    panic: Mutex<Option<Box<dyn Any + Send>>>,
}
pub struct Scope<'scope> {
    inner: Arc<Inner>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub type ScopeFifo<'scope> = Scope<'scope>;

impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let inner = self.inner.clone();
        *inner.pending.lock().unwrap() += 1;
        let job: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            sched::take_slot();
            let s = Scope { inner: inner.clone(), marker: PhantomData };
            if let Err(p) = catch_unwind(AssertUnwindSafe(|| body(&s))) {
                inner.panic.lock().unwrap().get_or_insert(p);
            }
            sched::free_slot();
            *inner.pending.lock().unwrap() -= 1;
        });
        // scope() waits for the job
        let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
        if sched::controlled() {
            sched::spawn("job", job);
        } else {
            job();
        }
    }
    pub fn spawn_fifo<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.spawn(body)
    }
}

thread_local! { static IN_POOL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    let nested = IN_POOL.with(|p| p.replace(true));
    if !nested {
        sched::take_slot();
    }
    let s = Scope { inner: Arc::default(), marker: PhantomData };
    let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
    // a worker that waits runs other jobs
    sched::free_slot();
    let i = &s.inner;
    sched::block_until(|| *i.pending.lock().unwrap() == 0);
    if nested {
        sched::take_slot();
    }
    IN_POOL.with(|p| p.set(nested));
    let p = s.inner.panic.lock().unwrap().take();
    match (r, p) {
        (Err(p), _) | (_, Some(p)) => resume_unwind(p),
        (Ok(r), None) => r,
    }
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    scope(op)
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    scope(op)
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (mut ra, mut rb) = (None, None);
    let (pa, pb) = (&mut ra, &mut rb);
    scope(|s| {
        s.spawn(move |_| *pb = Some(b()));
        *pa = Some(a());
    });
    (ra.unwrap(), rb.unwrap())
}
pub fn current_num_threads() -> usize {
    8
}
