pub use ::std::thread::*;
use crate::sched;
use ::std::panic::{catch_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Mutex};

type Slot<T> = Arc<Mutex<Option<::std::thread::Result<T>>>>;

pub struct JoinHandle<T> {
    slot: Slot<T>,
    real: Option<::std::thread::JoinHandle<()>>,
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        write!(f, "JoinHandle")
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        if let Some(r) = self.real {
            let _ = r.join();
        } else {
            sched::point();
            let s = &self.slot;
            sched::block_until(|| s.lock().unwrap().is_some());
        }
        let r = self.slot.lock().unwrap().take().unwrap();
        r
    }
    pub fn is_finished(&self) -> bool {
        sched::point();
        self.slot.lock().unwrap().is_some()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let slot: Slot<T> = Arc::default();
    let s = slot.clone();
    let run = move || {
        let r = catch_unwind(AssertUnwindSafe(f));
        *s.lock().unwrap() = Some(r);
    };
    if sched::controlled() {
        sched::spawn("thread", run);
        JoinHandle { slot, real: None }
    } else {
        JoinHandle { slot, real: Some(::std::thread::spawn(run)) }
    }
}

#[derive(Debug, Default)]
pub struct Builder {}
impl Builder {
    pub fn new() -> Self {
        Self {}
    }
    pub fn name(self, _: String) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}

pub fn yield_now() {
    sched::point();
}
pub fn sleep(_: ::std::time::Duration) {
    sched::point();
}
