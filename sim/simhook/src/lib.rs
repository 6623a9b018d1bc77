//! Thread-local hook through which the lock stand-in reports to the simulator.
use std::cell::Cell;

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    /// About to acquire a lock.
    PreLock,
    /// The lock at this address is held by someone else: give up the processor until it is free.
    Contended(usize),
    /// The lock at this address was released.
    Unlocked(usize),
}

thread_local! {
    static HOOK: Cell<Option<fn(Ev) -> bool>> = const { Cell::new(None) };
}

pub fn set(h: Option<fn(Ev) -> bool>) {
    HOOK.with(|c| c.set(h));
}

/// Report an event. For `Contended`, `true` means: take the lock although it is held (only while
/// the simulator abandons a run).
#[inline]
pub fn fire(ev: Ev) -> bool {
    match HOOK.try_with(|c| c.get()).unwrap_or(None) {
        Some(f) => f(ev),
        None => {
            if let Ev::Contended(_) = ev {
                panic!("simulation: lock contended outside the simulator");
            }
            false
        }
    }
}
