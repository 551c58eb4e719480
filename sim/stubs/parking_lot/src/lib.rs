//! parking_lot's public API over locks that hand every scheduling decision to
//! the simulator (`simrt`). Outside a simulated thread the locks are plain
//! spin locks, so code that is not being scheduled still works.
use simrt::{lock_wait, lock_woken, yield_point};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const WRITER: usize = 1;
const UPGR: usize = 2;
const READER: usize = 4;

pub struct RawRwLock {
    state: AtomicUsize,
    /// writers waiting; while >0 and the run uses writer-preference, new readers wait
    pending: AtomicUsize,
}

impl RawRwLock {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn try_sh(&self, recursive: bool) -> bool {
        let s = self.state.load(SeqCst);
        if s & WRITER != 0 {
            return false;
        }
        if !recursive && self.pending.load(SeqCst) > 0 && simrt::writer_preference() {
            return false;
        }
        self.state.compare_exchange(s, s + READER, SeqCst, SeqCst).is_ok()
    }
    fn try_ex(&self) -> bool {
        self.state.compare_exchange(0, WRITER, SeqCst, SeqCst).is_ok()
    }
    fn try_up(&self) -> bool {
        let s = self.state.load(SeqCst);
        if s & (WRITER | UPGR) != 0 {
            return false;
        }
        self.state.compare_exchange(s, s | UPGR, SeqCst, SeqCst).is_ok()
    }
    fn released(&self) {
        lock_woken(self.addr());
        yield_point();
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock { state: AtomicUsize::new(0), pending: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;

    fn lock_shared(&self) {
        yield_point();
        while !self.try_sh(false) {
            lock_wait(self.addr(), false);
        }
        yield_point();
    }
    fn try_lock_shared(&self) -> bool {
        yield_point();
        let r = self.try_sh(false);
        if r {
            yield_point();
        }
        r
    }
    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(READER, SeqCst);
        self.released();
    }
    fn lock_exclusive(&self) {
        yield_point();
        if !self.try_ex() {
            self.pending.fetch_add(1, SeqCst);
            loop {
                lock_wait(self.addr(), true);
                if self.try_ex() {
                    break;
                }
            }
            self.pending.fetch_sub(1, SeqCst);
        }
        yield_point();
    }
    fn try_lock_exclusive(&self) -> bool {
        yield_point();
        let r = self.try_ex();
        if r {
            yield_point();
        }
        r
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.fetch_and(!WRITER, SeqCst);
        self.released();
    }
    fn is_locked(&self) -> bool {
        self.state.load(SeqCst) != 0
    }
    fn is_locked_exclusive(&self) -> bool {
        self.state.load(SeqCst) & WRITER != 0
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.store(READER, SeqCst);
        self.released();
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        yield_point();
        while !self.try_sh(true) {
            lock_wait(self.addr(), false);
        }
        yield_point();
    }
    fn try_lock_shared_recursive(&self) -> bool {
        yield_point();
        self.try_sh(true)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        yield_point();
        while !self.try_up() {
            lock_wait(self.addr(), false);
        }
        yield_point();
    }
    fn try_lock_upgradable(&self) -> bool {
        yield_point();
        self.try_up()
    }
    unsafe fn unlock_upgradable(&self) {
        self.state.fetch_and(!UPGR, SeqCst);
        self.released();
    }
    unsafe fn upgrade(&self) {
        yield_point();
        loop {
            if self.state.compare_exchange(UPGR, WRITER, SeqCst, SeqCst).is_ok() {
                break;
            }
            lock_wait(self.addr(), true);
        }
        yield_point();
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.state.compare_exchange(UPGR, WRITER, SeqCst, SeqCst).is_ok()
    }
}

pub struct RawMutex {
    state: AtomicUsize,
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { state: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        yield_point();
        while self.state.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            lock_wait(self as *const _ as usize, true);
        }
        yield_point();
    }
    fn try_lock(&self) -> bool {
        yield_point();
        let r = self.state.compare_exchange(0, 1, SeqCst, SeqCst).is_ok();
        if r {
            yield_point();
        }
        r
    }
    unsafe fn unlock(&self) {
        self.state.store(0, SeqCst);
        lock_woken(self as *const _ as usize);
        yield_point();
    }
    fn is_locked(&self) -> bool {
        self.state.load(SeqCst) != 0
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static K: u8 = const { 0 });
        K.with(|k| std::num::NonZeroUsize::new(k as *const _ as usize).unwrap())
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub use lock_api;
