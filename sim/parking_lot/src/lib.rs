//! Stand-in for `parking_lot` used in simulation only. Same `lock_api` surface; every acquire and
//! release is reported to the simulator, which decides who runs next.
use lock_api::{GuardNoSend, RawMutex as _, RawRwLock as _};
use simhook::{fire, Ev};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering};

pub struct RawMutex {
    locked: AtomicBool,
}

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { locked: AtomicBool::new(false) };
    type GuardMarker = GuardNoSend;

    #[inline]
    fn lock(&self) {
        fire(Ev::PreLock);
        while self.locked.swap(true, Ordering::SeqCst) {
            if fire(Ev::Contended(self as *const _ as usize)) {
                break;
            }
        }
    }
    #[inline]
    fn try_lock(&self) -> bool {
        !self.locked.swap(true, Ordering::SeqCst)
    }
    #[inline]
    unsafe fn unlock(&self) {
        self.locked.store(false, Ordering::SeqCst);
        fire(Ev::Unlocked(self as *const _ as usize));
    }
    #[inline]
    fn is_locked(&self) -> bool {
        self.locked.load(Ordering::SeqCst)
    }
}

pub struct RawRwLock {
    // -1: writer, n > 0: readers
    state: AtomicIsize,
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock { state: AtomicIsize::new(0) };
    type GuardMarker = GuardNoSend;

    fn lock_shared(&self) {
        fire(Ev::PreLock);
        while !self.try_lock_shared() {
            if fire(Ev::Contended(self as *const _ as usize)) {
                break;
            }
        }
    }
    fn try_lock_shared(&self) -> bool {
        let s = self.state.load(Ordering::SeqCst);
        if s >= 0 {
            self.state.store(s + 1, Ordering::SeqCst);
            true
        } else {
            false
        }
    }
    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(1, Ordering::SeqCst);
        fire(Ev::Unlocked(self as *const _ as usize));
    }
    fn lock_exclusive(&self) {
        fire(Ev::PreLock);
        while !self.try_lock_exclusive() {
            if fire(Ev::Contended(self as *const _ as usize)) {
                break;
            }
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        if self.state.load(Ordering::SeqCst) == 0 {
            self.state.store(-1, Ordering::SeqCst);
            true
        } else {
            false
        }
    }
    unsafe fn unlock_exclusive(&self) {
        self.state.store(0, Ordering::SeqCst);
        fire(Ev::Unlocked(self as *const _ as usize));
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(RawMutex::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(RawRwLock::INIT, val)
}
