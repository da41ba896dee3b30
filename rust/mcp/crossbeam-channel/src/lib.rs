//! The part of crossbeam-channel that a controlled scheduler can run.
use mcstd::sync::chan::{new, Chan};
use std::fmt;
use std::sync::Arc;

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SendError(..)")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sending on a disconnected channel")
    }
}
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "receiving on an empty and disconnected channel")
    }
}
impl<T> std::error::Error for SendError<T> {}
impl std::error::Error for RecvError {}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        self.0.send(v).map_err(SendError)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|g| if g { TryRecvError::Disconnected } else { TryRecvError::Empty })
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(|| self.0.recv())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(|| self.0.try_recv().ok())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0 .0.borrow_mut().senders += 1;
        Self(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0 .0.borrow_mut().receivers += 1;
        Self(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0 .0.borrow_mut().senders -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let last = {
            let mut i = self.0 .0.borrow_mut();
            i.receivers -= 1;
            i.receivers == 0
        };
        if last {
            // messages nobody can receive go, with what they hold
            let q: Vec<T> = self.0 .0.borrow_mut().q.drain(..).map(|x| x.1).collect();
            drop(q);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sender")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Receiver")
    }
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let c = new(Some(n));
    (Sender(c.clone()), Receiver(c))
}
