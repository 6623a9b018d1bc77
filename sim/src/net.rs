//! The simulated transport: two reliable ordered byte pipes with seeded capacity, latency, bandwidth,
//! fragmentation, buffering until flush, stalls, errors and truncation.
use crate::sched::{self, choose, count, preempt, violate};
use crate::sys;
use crate::wire::{Ledger, Parser};
use futures::io::{AsyncRead, AsyncWrite};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct DirPlan {
    /// Bytes in flight before the writer has to wait; 0 means unlimited.
    pub cap: u32,
    pub lat_us: u32,
    pub jitter_us: u32,
    pub ns_per_byte: u32,
    /// Largest single read / write; 0 unlimited.
    pub short_r: u32,
    pub short_w: u32,
    /// One in n calls reports "not ready" although it is; 0 never.
    pub pend_r: u32,
    pub pend_w: u32,
    pub pend_f: u32,
    /// Bytes held back until flushed; 0: no buffering.
    pub stage: u32,
    /// Delivery stalls (start us, length us).
    pub stalls: Vec<(u32, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct FaultPlan {
    /// Endpoint whose call is hit.
    pub side: u8,
    /// 0 read, 1 write, 2 flush, 3 close
    pub op: u8,
    /// Fires at the n-th call (true) or when n bytes have passed (false).
    pub by_call: bool,
    pub at: u32,
    /// 0 connection reset, 1 broken pipe, 2 end of stream / zero-length write, 3 other error,
    /// 4 write count too large, 5 timed out
    pub kind: u8,
    /// One failing call only; the transport would work again afterwards.
    pub transient: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct NetPlan {
    /// Direction 0: written by side 0.
    pub dir: [DirPlan; 2],
    pub faults: Vec<FaultPlan>,
    /// When one side's socket is dropped: 0 end of stream after delivery, writes vanish; 1 writes fail;
    /// 2 reset: in-flight data is lost and reads and writes fail.
    pub gone: u8,
}

struct Seg {
    at: u64,
    data: Vec<u8>,
    pos: usize,
}

#[derive(Default)]
struct Dir {
    p: DirPlan,
    staged: Vec<u8>,
    segs: VecDeque<Seg>,
    held: usize,
    next_free: u64,
    last_at: u64,
    r_waker: Option<Waker>,
    w_waker: Option<Waker>,
    closed: bool,
    w_gone: bool,
    r_gone: bool,
    reset: bool,
    written: u64,
    read: u64,
}

#[derive(Default)]
struct EndSt {
    calls: [u32; 4],
    errored: bool,
    fired: Vec<bool>,
    close_ok: u32,
    gone: bool,
    monitored: bool,
}

pub struct Net {
    plan: NetPlan,
    d: [Dir; 2],
    e: [EndSt; 2],
    tx: [Parser; 2],
    rx: [Parser; 2],
    pub ledger: Rc<RefCell<Ledger>>,
    /// Fired faults: (side, op, kind)
    pub fired: Vec<(u8, u8, u8)>,
}

pub type NetRef = Rc<RefCell<Net>>;

pub fn new(plan: &NetPlan, ledger: Rc<RefCell<Ledger>>, monitored: [bool; 2]) -> NetRef {
    let mk = |i: usize| Dir { p: plan.dir[i].clone(), ..Default::default() };
    let me = |i: usize| EndSt { fired: vec![false; plan.faults.len()], monitored: monitored[i], ..Default::default() };
    Rc::new(RefCell::new(Net {
        plan: plan.clone(),
        d: [mk(0), mk(1)],
        e: [me(0), me(1)],
        tx: Default::default(),
        rx: Default::default(),
        ledger,
        fired: vec![],
    }))
}

pub struct EndPoint {
    net: NetRef,
    side: usize,
}

pub fn ends(net: &NetRef) -> (EndPoint, EndPoint) {
    (EndPoint { net: net.clone(), side: 0 }, EndPoint { net: net.clone(), side: 1 })
}

enum Hit {
    No,
    Err(io::Error),
    Zero,
    Over,
}

impl Net {
    /// Is nothing in flight towards `side`?
    pub fn drained(&self, side: usize) -> bool {
        self.d[1 - side].held == 0
    }
    pub fn in_flight(&self, side: usize) -> usize {
        self.d[1 - side].held
    }
    pub fn errored(&self, side: usize) -> bool {
        self.e[side].errored
    }
    pub fn closed_by(&self, side: usize) -> bool {
        self.d[side].closed
    }
    pub fn end_gone(&self, side: usize) -> bool {
        self.e[side].gone
    }
    pub fn tx_boundary(&self, side: usize) -> bool {
        self.tx[side].at_boundary()
    }
    pub fn rx_boundary(&self, side: usize) -> bool {
        self.rx[side].at_boundary()
    }
    pub fn tx_frames(&self, side: usize) -> u64 {
        self.tx[side].frames
    }
    /// Side's socket buffer holds bytes that were never flushed.
    pub fn unflushed(&self, side: usize) -> usize {
        self.d[side].staged.len()
    }

    fn fault(&mut self, side: usize, op: usize, bytes: u64) -> Hit {
        self.e[side].calls[op] += 1;
        let calls = self.e[side].calls[op];
        for (i, f) in self.plan.faults.iter().enumerate() {
            if f.side as usize != side || f.op as usize != op {
                continue;
            }
            let due = if f.by_call { calls > f.at } else { bytes >= f.at as u64 };
            if !due || (self.e[side].fired[i] && f.transient) {
                continue;
            }
            if !self.e[side].fired[i] {
                self.fired.push((f.side, f.op, f.kind));
                let name: &'static str = match (op, f.kind) {
                    (0, 2) => "fault_read_eof",
                    (0, _) => "fault_read_error",
                    (1, 2) => "fault_write_zero",
                    (1, 4) => "fault_write_overcount",
                    (1, _) => "fault_write_error",
                    (2, _) => "fault_flush_error",
                    _ => "fault_close_error",
                };
                count(name);
                if f.transient {
                    count("fault_transient");
                }
            }
            self.e[side].fired[i] = true;
            let k = match f.kind {
                1 => io::ErrorKind::BrokenPipe,
                2 if op <= 1 => return Hit::Zero,
                4 if op == 1 => return Hit::Over,
                3 => io::ErrorKind::Other,
                5 => io::ErrorKind::TimedOut,
                _ => io::ErrorKind::ConnectionReset,
            };
            crate::ev!("{} transport error {:?} on op {}", side, k, op);
            return Hit::Err(io::Error::new(k, "injected"));
        }
        Hit::No
    }

    fn used(&self, side: usize, op: &str) {
        if self.e[side].monitored && self.e[side].errored {
            violate(&["P16", "P15"], format!("transport used after error ({op})"), format!("side {side}: poll_{op} after the transport had reported an error"));
        }
    }

    /// Move `data` into flight in direction `dir`.
    fn push(&mut self, dir: usize, data: Vec<u8>) -> u64 {
        let now = sched::now();
        let d = &mut self.d[dir];
        let mut at = now.max(d.next_free) + data.len() as u64 * d.p.ns_per_byte as u64;
        d.next_free = at;
        at += d.p.lat_us as u64 * 1000;
        if d.p.jitter_us > 0 {
            at += choose(1 << 30, |r| r.below(d.p.jitter_us as u64 * 1000 + 1) as u32) as u64;
        }
        for (s, l) in &d.p.stalls {
            let (s, e) = (*s as u64 * 1000, (*s as u64 + *l as u64) * 1000);
            if at >= s && at < e {
                at = e;
                count("fault_stall");
            }
        }
        at = at.max(d.last_at);
        d.last_at = at;
        d.segs.push_back(Seg { at, data, pos: 0 });
        at
    }
}

fn arm(net: &NetRef, dir: usize, at: u64) {
    if at <= sched::now() {
        let w = net.borrow_mut().d[dir].r_waker.take();
        if let Some(w) = w {
            w.wake()
        }
    } else {
        let n = net.clone();
        sched::add_timer(at, move || {
            let w = n.borrow_mut().d[dir].r_waker.take();
            if let Some(w) = w {
                w.wake()
            }
        });
    }
}

impl EndPoint {
    fn pend(&self, n: u32, name: &'static str, cx: &mut Context<'_>) -> bool {
        if n > 0 && choose(2, |r| (r.below(n as u64) == 0) as u32) == 1 {
            count(name);
            cx.waker().wake_by_ref();
            true
        } else {
            false
        }
    }

    pub fn read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let (side, dir) = (self.side, 1 - self.side);
        let mut n = self.net.borrow_mut();
        n.used(side, "read");
        let bytes = n.d[dir].read;
        match n.fault(side, 0, bytes) {
            Hit::Err(e) => {
                n.e[side].errored = true;
                return Poll::Ready(Err(e));
            }
            Hit::Zero => return Poll::Ready(Ok(0)),
            _ => {}
        }
        let p = (n.d[dir].p.pend_r, n.d[dir].p.short_r);
        drop(n);
        if self.pend(p.0, "fault_read_pending", cx) {
            return Poll::Pending;
        }
        let mut n = self.net.borrow_mut();
        if n.d[dir].reset {
            n.e[side].errored = true;
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        let now = sched::now();
        let mut want = buf.len();
        // A byte-offset fault ahead cuts the read there, so that it fires exactly at its offset.
        for f in &n.plan.faults {
            if f.side as usize == side && f.op == 0 && !f.by_call && (f.at as u64) > n.d[dir].read {
                want = want.min((f.at as u64 - n.d[dir].read) as usize);
            }
        }
        if p.1 > 0 && want > 1 {
            let m = (p.1 as usize).min(want) as u64;
            let v = choose(1 << 30, |r| r.range(1, m) as u32) as usize;
            if v > 0 && v < want {
                count("fault_short_read");
                want = v;
            }
        }
        let d = &mut n.d[dir];
        let mut got = 0;
        while got < want {
            let Some(s) = d.segs.front_mut() else { break };
            if s.at > now {
                break;
            }
            let k = (s.data.len() - s.pos).min(want - got);
            buf[got..got + k].copy_from_slice(&s.data[s.pos..s.pos + k]);
            s.pos += k;
            got += k;
            if s.pos == s.data.len() {
                d.segs.pop_front();
            }
        }
        if got == 0 && !buf.is_empty() {
            if d.segs.is_empty() && (d.closed || d.w_gone) {
                return Poll::Ready(Ok(0));
            }
            d.r_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        d.held -= got;
        d.read += got as u64;
        let w = d.w_waker.take();
        if n.e[side].monitored {
            let led = n.ledger.clone();
            let mut led = led.borrow_mut();
            led.sides[side].rx_bytes += got as u64;
            n.rx[side].feed(&buf[..got], &mut |e| led.on_rx(side, e));
        }
        drop(n);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(got))
    }

    fn room(d: &Dir) -> usize {
        if d.p.cap == 0 {
            usize::MAX
        } else {
            (d.p.cap as usize).saturating_sub(d.held)
        }
    }

    /// Move staged bytes into flight as far as there is room. True when none are left.
    fn unstage(&mut self) -> bool {
        let dir = self.side;
        let mut n = self.net.borrow_mut();
        let d = &mut n.d[dir];
        if d.staged.is_empty() {
            return true;
        }
        let k = Self::room(d).min(d.staged.len());
        if k == 0 {
            return false;
        }
        let out: Vec<u8> = d.staged.drain(..k).collect();
        d.held += k;
        let left = d.staged.is_empty();
        let at = n.push(dir, out);
        drop(n);
        arm(&self.net, dir, at);
        left
    }

    pub fn write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let (side, dir) = (self.side, self.side);
        let mut n = self.net.borrow_mut();
        n.used(side, "write");
        let bytes = n.d[dir].written;
        let mut over = false;
        match n.fault(side, 1, bytes) {
            Hit::Err(e) => {
                n.e[side].errored = true;
                return Poll::Ready(Err(e));
            }
            Hit::Zero => {
                n.e[side].errored = true;
                return Poll::Ready(Ok(0));
            }
            Hit::Over => over = true,
            Hit::No => {}
        }
        let p = (n.d[dir].p.pend_w, n.d[dir].p.short_w, n.d[dir].p.stage as usize);
        drop(n);
        if self.pend(p.0, "fault_write_pending", cx) {
            return Poll::Pending;
        }
        if over {
            self.net.borrow_mut().e[side].errored = true;
            return Poll::Ready(Ok(buf.len() + 1));
        }
        {
            let mut n = self.net.borrow_mut();
            if n.d[dir].reset {
                n.e[side].errored = true;
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            if n.d[dir].r_gone {
                if n.plan.gone != 0 {
                    n.e[side].errored = true;
                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                }
                // vanishes
                let k = buf.len();
                n.d[dir].written += k as u64;
                if n.e[side].monitored {
                    let led = n.ledger.clone();
                    n.tx[side].feed(buf, &mut |e| led.borrow_mut().on_tx(side, e));
                }
                return Poll::Ready(Ok(k));
            }
        }
        if p.2 > 0 && self.net.borrow().d[dir].staged.len() >= p.2 && !self.unstage() && self.net.borrow().d[dir].staged.len() >= p.2 {
            self.net.borrow_mut().d[dir].w_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = self.net.borrow_mut();
        let d = &mut n.d[dir];
        let room = if p.2 > 0 { p.2 - d.staged.len().min(p.2) } else { Self::room(d) };
        if room == 0 {
            d.w_waker = Some(cx.waker().clone());
            count("probe_transport_full");
            return Poll::Pending;
        }
        let mut k = room.min(buf.len());
        let written = d.written;
        for f in &n.plan.faults {
            if f.side as usize == side && f.op == 1 && !f.by_call && (f.at as u64) > written {
                k = k.min((f.at as u64 - written) as usize);
            }
        }
        if p.1 > 0 && k > 1 {
            let m = (p.1 as usize).min(k) as u64;
            let v = choose(1 << 30, |r| r.range(1, m) as u32) as usize;
            if v > 0 && v < k {
                count("fault_short_write");
                k = v;
            }
        }
        n.d[dir].written += k as u64;
        if n.e[side].monitored {
            let led = n.ledger.clone();
            let mut led = led.borrow_mut();
            led.sides[side].tx_bytes += k as u64;
            n.tx[side].feed(&buf[..k], &mut |e| led.on_tx(side, e));
        }
        if p.2 > 0 {
            n.d[dir].staged.extend_from_slice(&buf[..k]);
            return Poll::Ready(Ok(k));
        }
        n.d[dir].held += k;
        let at = n.push(dir, buf[..k].to_vec());
        drop(n);
        arm(&self.net, dir, at);
        Poll::Ready(Ok(k))
    }

    pub fn flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let side = self.side;
        let mut n = self.net.borrow_mut();
        n.used(side, "flush");
        let bytes = n.d[side].written;
        if let Hit::Err(e) = n.fault(side, 2, bytes) {
            n.e[side].errored = true;
            return Poll::Ready(Err(e));
        }
        let p = n.d[side].p.pend_f;
        drop(n);
        if self.pend(p, "fault_flush_pending", cx) {
            return Poll::Pending;
        }
        if self.net.borrow().d[side].r_gone {
            self.net.borrow_mut().d[side].staged.clear();
            return Poll::Ready(Ok(()));
        }
        if self.unstage() {
            Poll::Ready(Ok(()))
        } else {
            self.net.borrow_mut().d[side].w_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }

    pub fn close(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let side = self.side;
        let mut n = self.net.borrow_mut();
        n.used(side, "close");
        let bytes = n.d[side].written;
        if let Hit::Err(e) = n.fault(side, 3, bytes) {
            n.e[side].errored = true;
            return Poll::Ready(Err(e));
        }
        let p = n.d[side].p.pend_f;
        drop(n);
        if self.pend(p, "fault_close_pending", cx) {
            return Poll::Pending;
        }
        if !self.net.borrow().d[side].r_gone && !self.unstage() {
            self.net.borrow_mut().d[side].w_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = self.net.borrow_mut();
        n.e[side].close_ok += 1;
        if n.e[side].close_ok > 1 && n.e[side].monitored {
            violate(&["P14", "P16"], "transport closed twice", format!("side {side}"));
        }
        n.d[side].closed = true;
        n.ledger.borrow_mut().sides[side].tx_closed += 1;
        crate::ev!("{} transport closed", side);
        let w = n.d[side].r_waker.take();
        drop(n);
        if let Some(w) = w {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncRead for EndPoint {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        preempt(3);
        let c = sys::counting(false);
        let r = self.read(cx, buf);
        sys::counting(c);
        r
    }
}
impl AsyncWrite for EndPoint {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        preempt(4);
        let c = sys::counting(false);
        let r = self.write(cx, buf);
        sys::counting(c);
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        preempt(5);
        let c = sys::counting(false);
        let r = self.flush(cx);
        sys::counting(c);
        r
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        preempt(6);
        let c = sys::counting(false);
        let r = self.close(cx);
        sys::counting(c);
        r
    }
}

impl Drop for EndPoint {
    fn drop(&mut self) {
        let c = sys::counting(false);
        let side = self.side;
        let (w1, w2) = {
            let Ok(mut n) = self.net.try_borrow_mut() else { return };
            n.e[side].gone = true;
            let reset = n.plan.gone == 2 && !n.d[side].closed;
            n.d[side].w_gone = true;
            n.d[side].staged.clear();
            n.d[1 - side].r_gone = true;
            if reset {
                n.d[side].reset = true;
                n.d[1 - side].reset = true;
                n.d[side].segs.clear();
                n.d[side].held = 0;
            }
            (n.d[side].r_waker.take(), n.d[1 - side].w_waker.take())
        };
        if sched::active() {
            crate::ev!("{} transport dropped", side);
            if let Some(w) = w1 {
                w.wake()
            }
            if let Some(w) = w2 {
                w.wake()
            }
        }
        sys::counting(c);
    }
}
