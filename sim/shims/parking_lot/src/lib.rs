//! Simulated `parking_lot`: `lock_api` over locks that block a coroutine.
pub use lock_api;
use lock_api::{GuardNoSend, RawMutex as _, RawRwLock as _};
use simrt::{block, block_timeout, wake, weak_fail, yield_point, Kind};
use std::cell::Cell;
use std::time::{Duration, Instant};

pub struct RawMutex {
    held: Cell<bool>,
}
unsafe impl Send for RawMutex {}
unsafe impl Sync for RawMutex {}
impl RawMutex {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { held: Cell::new(false) };
    type GuardMarker = GuardNoSend;
    fn lock(&self) {
        yield_point(Kind::LockAcq);
        while self.held.get() {
            block(self.key(), "mutex");
        }
        self.held.set(true);
    }
    fn try_lock(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.held.get() {
            return false;
        }
        self.held.set(true);
        true
    }
    unsafe fn unlock(&self) {
        self.held.set(false);
        wake(self.key());
        yield_point(Kind::LockRel);
    }
    fn is_locked(&self) -> bool {
        self.held.get()
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.unlock()
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, d: Duration) -> bool {
        yield_point(Kind::LockAcq);
        while self.held.get() {
            if block_timeout(self.key(), d.as_nanos() as u64, "mutex") && self.held.get() {
                return false;
            }
        }
        self.held.set(true);
        true
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.try_lock_for(t.saturating_duration_since(Instant::now()))
    }
}

pub struct RawRwLock {
    readers: Cell<usize>,
    writer: Cell<bool>,
    upgradable: Cell<bool>,
    waiting_writers: Cell<usize>,
}
unsafe impl Send for RawRwLock {}
unsafe impl Sync for RawRwLock {}
impl RawRwLock {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock {
        readers: Cell::new(0),
        writer: Cell::new(false),
        upgradable: Cell::new(false),
        waiting_writers: Cell::new(0),
    };
    type GuardMarker = GuardNoSend;
    fn lock_shared(&self) {
        yield_point(Kind::LockAcq);
        // As in the real implementation a waiting writer blocks new readers.
        while self.writer.get() || self.waiting_writers.get() > 0 {
            block(self.key(), "rwlock read");
        }
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_shared(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.writer.get() || self.waiting_writers.get() > 0 {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
    unsafe fn unlock_shared(&self) {
        self.readers.set(self.readers.get() - 1);
        wake(self.key());
        yield_point(Kind::LockRel);
    }
    fn lock_exclusive(&self) {
        yield_point(Kind::LockAcq);
        if self.writer.get() || self.readers.get() > 0 || self.upgradable.get() {
            self.waiting_writers.set(self.waiting_writers.get() + 1);
            while self.writer.get() || self.readers.get() > 0 || self.upgradable.get() {
                block(self.key(), "rwlock write");
            }
            self.waiting_writers.set(self.waiting_writers.get() - 1);
        }
        self.writer.set(true);
    }
    fn try_lock_exclusive(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.writer.get() || self.readers.get() > 0 || self.upgradable.get() {
            return false;
        }
        self.writer.set(true);
        true
    }
    unsafe fn unlock_exclusive(&self) {
        self.writer.set(false);
        wake(self.key());
        yield_point(Kind::LockRel);
    }
    fn is_locked(&self) -> bool {
        self.writer.get() || self.readers.get() > 0 || self.upgradable.get()
    }
    fn is_locked_exclusive(&self) -> bool {
        self.writer.get()
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.unlock_shared()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.unlock_exclusive()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.writer.set(false);
        self.readers.set(1);
        wake(self.key());
        yield_point(Kind::LockRel);
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        yield_point(Kind::LockAcq);
        while self.writer.get() {
            block(self.key(), "rwlock read");
        }
        self.readers.set(self.readers.get() + 1);
    }
    fn try_lock_shared_recursive(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.writer.get() {
            return false;
        }
        self.readers.set(self.readers.get() + 1);
        true
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        yield_point(Kind::LockAcq);
        while self.writer.get() || self.upgradable.get() {
            block(self.key(), "rwlock upgradable");
        }
        self.upgradable.set(true);
    }
    fn try_lock_upgradable(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.writer.get() || self.upgradable.get() {
            return false;
        }
        self.upgradable.set(true);
        true
    }
    unsafe fn unlock_upgradable(&self) {
        self.upgradable.set(false);
        wake(self.key());
        yield_point(Kind::LockRel);
    }
    unsafe fn upgrade(&self) {
        yield_point(Kind::LockAcq);
        while self.readers.get() > 0 {
            block(self.key(), "rwlock upgrade");
        }
        self.upgradable.set(false);
        self.writer.set(true);
    }
    unsafe fn try_upgrade(&self) -> bool {
        yield_point(Kind::LockAcq);
        if self.readers.get() > 0 {
            return false;
        }
        self.upgradable.set(false);
        self.writer.set(true);
        true
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(simrt::cur() + 1).unwrap()
    }
}

pub type RawFairMutex = RawMutex;
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedFairMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar {
    _x: Cell<u8>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Self { _x: Cell::new(0) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    pub fn notify_one(&self) -> bool {
        yield_point(Kind::LockRel);
        simrt::wake_n(self.key(), 1) > 0
    }
    pub fn notify_all(&self) -> usize {
        yield_point(Kind::LockRel);
        simrt::wake_n(self.key(), usize::MAX)
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let m = unsafe { MutexGuard::mutex(g).raw() };
        // No scheduling point between the release and the wait.
        m.held.set(false);
        wake(m.key());
        if !weak_fail() {
            block(self.key(), "condvar");
        }
        m.lock();
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let m = unsafe { MutexGuard::mutex(g).raw() };
        m.held.set(false);
        wake(m.key());
        let t = block_timeout(self.key(), d.as_nanos() as u64, "condvar");
        m.lock();
        WaitTimeoutResult(t)
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, t: Instant) -> WaitTimeoutResult {
        let d = t.saturating_duration_since(Instant::now());
        self.wait_for(g, d)
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut c: impl FnMut(&mut T) -> bool) {
        while c(&mut **g) {
            self.wait(g);
        }
    }
}
