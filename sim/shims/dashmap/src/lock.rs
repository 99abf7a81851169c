//! Replaced for the simulation: a plain reader-writer lock without queues, each acquisition of
//! which is a scheduling point of the simulator. A thread that finds it taken waits for the
//! simulator to run somebody else; outside of a simulation it spins.

use core::sync::atomic::{AtomicUsize, Ordering};

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;

const WRITER: usize = usize::MAX;

pub struct RawRwLock {
    state: AtomicUsize,
}

impl RawRwLock {
    fn wait(&self) {
        if !simhook::contended(self as *const _ as usize) {
            std::thread::yield_now();
        }
    }

    fn try_excl(&self) -> bool {
        self.state
            .compare_exchange(0, WRITER, Ordering::Acquire, Ordering::Relaxed)
            .is_ok()
    }

    fn try_shared(&self) -> bool {
        self.state
            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |s| {
                (s < WRITER - 1).then(|| s + 1)
            })
            .is_ok()
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = Self {
        state: AtomicUsize::new(0),
    };

    type GuardMarker = lock_api::GuardNoSend;

    fn try_lock_exclusive(&self) -> bool {
        simhook::point("map");
        self.try_excl()
    }

    fn lock_exclusive(&self) {
        simhook::point("map");
        while !self.try_excl() {
            self.wait();
        }
    }

    unsafe fn unlock_exclusive(&self) {
        self.state.store(0, Ordering::Release);
        simhook::point("map-unlock");
    }

    fn try_lock_shared(&self) -> bool {
        simhook::point("map");
        self.try_shared()
    }

    fn lock_shared(&self) {
        simhook::point("map");
        while !self.try_shared() {
            self.wait();
        }
    }

    unsafe fn unlock_shared(&self) {
        self.state.fetch_sub(1, Ordering::Release);
        simhook::point("map-unlock");
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.state.store(1, Ordering::Release);
    }
}
