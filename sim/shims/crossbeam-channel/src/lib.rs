//! Simulated `crossbeam-channel`: an MPMC FIFO queue whose operations are scheduling points.
use simrt::{block, block_timeout, wake, yield_point, Kind};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Chan<T> {
    q: RefCell<VecDeque<T>>,
    cap: Option<usize>,
    /// Elements that one element stands for in `len`, for channels made smaller.
    scale: usize,
    senders: Cell<usize>,
    receivers: Cell<usize>,
}
impl<T> Chan<T> {
    fn key(&self) -> usize {
        self as *const _ as *const u8 as usize
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

fn mk<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let scale = if cap.is_some_and(|c| c >= 64) { simrt::chan_scale() } else { 1 };
    let cap = cap.map(|c| if c == 0 { 0 } else { (c / scale).max(1) });
    let c = Arc::new(Chan {
        q: RefCell::new(VecDeque::new()),
        cap,
        scale,
        senders: Cell::new(1),
        receivers: Cell::new(1),
    });
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    // A zero-capacity channel is only ever probed with try_send/try_recv here: always full/empty.
    mk(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    mk(None)
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sending on a disconnected channel")
    }
}
impl<T> fmt::Debug for SendTimeoutError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendTimeoutError(..)")
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Full(_) => f.write_str("Full(..)"),
            Self::Disconnected(_) => f.write_str("Disconnected(..)"),
        }
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<T> std::error::Error for SendError<T> {}
impl<T> std::error::Error for TrySendError<T> {}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::Display for RecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for TryRecvError {}
impl std::error::Error for RecvError {}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Full(v) | Self::Disconnected(v) => v,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Self::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected(_))
    }
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> From<SendError<T>> for TrySendError<T> {
    fn from(e: SendError<T>) -> Self {
        Self::Disconnected(e.0)
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}

macro_rules! shared {
    ($t:ident) => {
        impl<T> $t<T> {
            pub fn len(&self) -> usize {
                yield_point(Kind::Load);
                let n = self.0.q.borrow().len() * self.0.scale;
                yield_point(Kind::Load);
                n
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn is_full(&self) -> bool {
                let n = self.len() / self.0.scale;
                self.0.cap.map_or(false, |c| n >= c)
            }
            pub fn capacity(&self) -> Option<usize> {
                self.0.cap.map(|c| c * self.0.scale)
            }
            pub fn same_channel(&self, o: &Self) -> bool {
                Arc::ptr_eq(&self.0, &o.0)
            }
        }
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(concat!(stringify!($t), " { .. }"))
            }
        }
    };
}
shared!(Sender);
shared!(Receiver);

impl<T> Sender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        yield_point(Kind::ChanSend);
        if self.0.receivers.get() == 0 {
            return Err(TrySendError::Disconnected(v));
        }
        if let Some(c) = self.0.cap {
            if self.0.q.borrow().len() >= c {
                yield_point(Kind::ChanSend);
                if std::any::type_name::<T>().contains("ReadOp") {
                    simrt::note_drop();
                }
                return Err(TrySendError::Full(v));
            }
        }
        self.0.q.borrow_mut().push_back(v);
        wake(self.0.key());
        yield_point(Kind::ChanSend);
        Ok(())
    }
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        let mut v = v;
        loop {
            match self.try_send(v) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Disconnected(x)) => return Err(SendError(x)),
                Err(TrySendError::Full(x)) => v = x,
            }
            block(self.0.key(), "channel send");
        }
    }
    pub fn send_timeout(&self, v: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        let mut v = v;
        let mut out = false;
        loop {
            match self.try_send(v) {
                Ok(()) => return Ok(()),
                Err(TrySendError::Disconnected(x)) => return Err(SendTimeoutError::Disconnected(x)),
                Err(TrySendError::Full(x)) => v = x,
            }
            if out {
                return Err(SendTimeoutError::Timeout(v));
            }
            out = block_timeout(self.0.key(), d.as_nanos() as u64, "channel send");
        }
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        yield_point(Kind::ChanRecv);
        let r = self.0.q.borrow_mut().pop_front();
        match r {
            Some(v) => {
                wake(self.0.key());
                Ok(v)
            }
            None if self.0.senders.get() == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => block(self.0.key(), "channel recv"),
            }
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let mut out = false;
        loop {
            match self.try_recv() {
                Ok(v) => return Ok(v),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) if out => return Err(RecvTimeoutError::Timeout),
                Err(TryRecvError::Empty) => out = block_timeout(self.0.key(), d.as_nanos() as u64, "channel recv"),
            }
        }
    }
    pub fn recv_deadline(&self, t: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(t.saturating_duration_since(Instant::now()))
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.senders.set(self.0.senders.get() + 1);
        Self(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.receivers.set(self.0.receivers.get() + 1);
        Self(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.senders.set(self.0.senders.get() - 1);
        wake(self.0.key());
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let n = self.0.receivers.get() - 1;
        self.0.receivers.set(n);
        if n == 0 {
            // As in the real implementation, the messages are dropped with the last receiver.
            let q = std::mem::take(&mut *self.0.q.borrow_mut());
            drop(q);
        }
        wake(self.0.key());
    }
}
