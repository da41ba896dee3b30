pub use ::std::sync::*;
use crate::sched;
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};

// Everything below is touched by one thread at a time, the one with the token.

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { locked: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(true);
        let g = MutexGuard { m: self, panicking: ::std::thread::panicking() };
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::point();
        sched::block_until(|| !self.locked.get());
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        if self.locked.get() {
            Err(TryLockError::WouldBlock)
        } else {
            Ok(self.guard()?)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.m.poisoned.set(true);
        }
        self.m.locked.set(false);
    }
}

pub struct RwLock<T: ?Sized> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { readers: Cell::new(0), writer: Cell::new(false), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> RwLock<T> {
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.readers.set(self.readers.get() + 1);
        let g = RwLockReadGuard(self);
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.writer.set(true);
        let g = RwLockWriteGuard(self, ::std::thread::panicking());
        if self.poisoned.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        sched::block_until(|| !self.writer.get());
        self.rguard()
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        sched::block_until(|| !self.writer.get() && self.readers.get() == 0);
        self.wguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        if self.writer.get() { Err(TryLockError::WouldBlock) } else { Ok(self.rguard()?) }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        if self.writer.get() || self.readers.get() != 0 { Err(TryLockError::WouldBlock) } else { Ok(self.wguard()?) }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.readers.set(self.0.readers.get() - 1);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && ::std::thread::panicking() {
            self.0.poisoned.set(true);
        }
        self.0.writer.set(false);
    }
}

#[derive(Default)]
pub struct Condvar {
    next: Cell<u64>,
    waiting: ::std::cell::RefCell<Vec<u64>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Condvar")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Self { next: Cell::new(0), waiting: ::std::cell::RefCell::new(Vec::new()) }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        let n = self.next.get();
        self.next.set(n + 1);
        self.waiting.borrow_mut().push(n);
        drop(g);
        sched::block_until(|| !m.locked.get() && !self.waiting.borrow().contains(&n));
        m.guard()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        sched::point();
        let n = self.waiting.borrow().len();
        if n > 0 {
            let k = sched::choose(n);
            self.waiting.borrow_mut().remove(k);
        }
    }
    pub fn notify_all(&self) {
        sched::point();
        self.waiting.borrow_mut().clear();
    }
}

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use crate::sched;
    macro_rules! int {
        ($($n:ident $t:ty;)*) => { $(
            #[derive(Default)]
            pub struct $n(::std::sync::atomic::$n);
            impl ::std::fmt::Debug for $n {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) }
            }
            impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
            impl $n {
                pub const fn new(v: $t) -> Self { Self(::std::sync::atomic::$n::new(v)) }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn load(&self, _: Ordering) -> $t { sched::point(); self.0.load(Ordering::SeqCst) }
                pub fn store(&self, v: $t, _: Ordering) { sched::point(); self.0.store(v, Ordering::SeqCst) }
                pub fn swap(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.swap(v, Ordering::SeqCst) }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { sched::point(); self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { self.compare_exchange(a, b, o, p) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, f: F) -> Result<$t, $t> { sched::point(); self.0.fetch_update(Ordering::SeqCst, Ordering::SeqCst, f) }
            }
        )* }
    }
    macro_rules! arith {
        ($($n:ident $t:ty;)*) => { $( impl $n {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_add(v, Ordering::SeqCst) }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_sub(v, Ordering::SeqCst) }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_max(v, Ordering::SeqCst) }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_min(v, Ordering::SeqCst) }
        } )* }
    }
    macro_rules! bits {
        ($($n:ident $t:ty;)*) => { $( impl $n {
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_and(v, Ordering::SeqCst) }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_or(v, Ordering::SeqCst) }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { sched::point(); self.0.fetch_xor(v, Ordering::SeqCst) }
        } )* }
    }
    int! { AtomicBool bool; AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
    arith! { AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
    bits! { AtomicBool bool; AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize; }
}

/// Multi-producer channels; capacity None for unbounded, 0 for rendezvous.
pub mod chan {
    use crate::sched;
    use ::std::cell::RefCell;
    use ::std::collections::VecDeque;
    use ::std::sync::Arc;
    pub struct Inner<T> {
        pub q: VecDeque<(u64, T)>,
        next: u64,
        pub senders: usize,
        pub receivers: usize,
        cap: Option<usize>,
    }
    pub struct Chan<T>(pub RefCell<Inner<T>>);
    unsafe impl<T: Send> Send for Chan<T> {}
    unsafe impl<T: Send> Sync for Chan<T> {}
    pub fn new<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan(RefCell::new(Inner { q: VecDeque::new(), next: 0, senders: 1, receivers: 1, cap })))
    }
    impl<T> Chan<T> {
        pub fn send(&self, v: T) -> Result<(), T> {
            sched::point();
            let cap = self.0.borrow().cap;
            if let Some(c) = cap {
                if c > 0 {
                    sched::block_until(|| self.0.borrow().receivers == 0 || self.0.borrow().q.len() < c);
                }
            }
            let n = {
                let mut i = self.0.borrow_mut();
                if i.receivers == 0 {
                    return Err(v);
                }
                let n = i.next;
                i.next += 1;
                i.q.push_back((n, v));
                n
            };
            if cap == Some(0) {
                sched::block_until(|| self.0.borrow().receivers == 0 || !self.0.borrow().q.iter().any(|(k, _)| *k == n));
                let mut i = self.0.borrow_mut();
                if let Some(p) = i.q.iter().position(|(k, _)| *k == n) {
                    return Err(i.q.remove(p).unwrap().1);
                }
            }
            Ok(())
        }
        pub fn recv(&self) -> Option<T> {
            sched::point();
            sched::block_until(|| self.0.borrow().senders == 0 || !self.0.borrow().q.is_empty());
            self.0.borrow_mut().q.pop_front().map(|x| x.1)
        }
        /// Err(true) when disconnected
        pub fn try_recv(&self) -> Result<T, bool> {
            sched::point();
            let mut i = self.0.borrow_mut();
            let gone = i.senders == 0;
            i.q.pop_front().map(|x| x.1).ok_or(gone)
        }
        pub fn len(&self) -> usize {
            sched::point();
            self.0.borrow().q.len()
        }
    }
}

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use super::chan::{new, Chan};
    use ::std::sync::Arc;
    macro_rules! sender {
        ($n:ident) => {
            pub struct $n<T>(Arc<Chan<T>>);
            impl<T> $n<T> {
                pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                    self.0.send(v).map_err(SendError)
                }
            }
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0 .0.borrow_mut().senders += 1;
                    Self(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0 .0.borrow_mut().senders -= 1;
                }
            }
            impl<T> ::std::fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    write!(f, "Sender")
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);
    pub struct Receiver<T>(Arc<Chan<T>>);
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            self.0.recv().ok_or(RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            self.0.try_recv().map_err(|g| if g { TryRecvError::Disconnected } else { TryRecvError::Empty })
        }
        pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(|| self.0.recv())
        }
        pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
            ::std::iter::from_fn(|| self.0.try_recv().ok())
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0 .0.borrow_mut().receivers -= 1;
        }
    }
    impl<T> ::std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            write!(f, "Receiver")
        }
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = new(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = new(Some(n));
        (SyncSender(c.clone()), Receiver(c))
    }
}
