//! What the simulated code sees of the operating system: clock, entropy, memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CLOCK_ON: Cell<bool> = const { Cell::new(false) };
    static NOW_NS: Cell<u64> = const { Cell::new(0) };
    // Clock of the node that is currently running: rate in 1/1000 and offset.
    static RATE: Cell<u64> = const { Cell::new(1000) };
    static OFFSET: Cell<u64> = const { Cell::new(0) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
    static COUNT_ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

const EPOCH_NS: u64 = 1_000_000_000_000_000;

pub fn clock_start() {
    CLOCK_ON.with(|c| c.set(true));
    NOW_NS.with(|c| c.set(0));
    ENTROPY.with(|c| c.set(1));
    set_node_clock(1000, 0);
}
pub fn clock_stop() {
    CLOCK_ON.with(|c| c.set(false));
}
pub fn set_now(ns: u64) {
    NOW_NS.with(|c| c.set(ns));
}
pub fn set_node_clock(rate: u64, offset: u64) {
    RATE.with(|c| c.set(rate));
    OFFSET.with(|c| c.set(offset));
}

/// Time as the clock of a node with this rate and offset shows it.
pub fn node_time(now: u64, rate: u64, offset: u64) -> u64 {
    EPOCH_NS + (now as u128 * rate as u128 / 1000) as u64 + offset
}

/// The one clock of the process: simulated inside a run, real outside.
///
/// # Safety
/// `ts` must point to a writable timespec.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let on = CLOCK_ON.try_with(|c| c.get()).unwrap_or(false);
    if on {
        let t = node_time(NOW_NS.with(|c| c.get()), RATE.with(|c| c.get()), OFFSET.with(|c| c.get()));
        (*ts).tv_sec = (t / 1_000_000_000) as _;
        (*ts).tv_nsec = (t % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
    }
}

/// Entropy (hash map keys): a fixed sequence per run.
///
/// # Safety
/// `buf` must be valid for `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let p = buf as *mut u8;
    for i in 0..len {
        let v = ENTROPY.try_with(|c| {
            let v = c.get();
            c.set(v + 1);
            v
        });
        *p.add(i) = crate::rng::mix(v.unwrap_or(7)) as u8;
    }
    len as libc::ssize_t
}

pub struct Counting;

#[inline]
fn add(n: usize) {
    let _ = COUNT_ON.try_with(|on| {
        if on.get() {
            let l = LIVE.with(|c| {
                let l = c.get() + n as i64;
                c.set(l);
                l
            });
            PEAK.with(|c| {
                if l > c.get() {
                    c.set(l)
                }
            });
            BIGGEST.with(|c| {
                if n > c.get() {
                    c.set(n)
                }
            });
        }
    });
}
#[inline]
fn sub(n: usize) {
    let _ = COUNT_ON.try_with(|on| {
        if on.get() {
            LIVE.with(|c| c.set(c.get() - n as i64));
        }
    });
}

// A request beyond this is refused with an abort of the worker: no legitimate run comes near it.
const HARD_LIMIT: usize = 1 << 31;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        if n > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Count allocations made by `f` only (the simulated endpoint), not by the simulator around it.
pub fn counting(on: bool) -> bool {
    COUNT_ON.with(|c| c.replace(on))
}
pub fn mem_reset() {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
}
/// (live, peak, biggest single request)
pub fn mem() -> (i64, i64, usize) {
    (LIVE.with(|c| c.get()), PEAK.with(|c| c.get()), BIGGEST.with(|c| c.get()))
}
