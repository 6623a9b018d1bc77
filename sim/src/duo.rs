//! Two real endpoints over the simulated transport, driven by simulated applications.
use crate::app::{counted, Tracked};
use crate::net::{self, EndPoint, NetRef};
use crate::plan::{check_content, content, Plan};
use crate::sched::{self, spawn, violate, End, Event, ALL};
use crate::wire::Ledger;
use futures::io::{AsyncRead, AsyncReadExt, AsyncWrite, ReadHalf, WriteHalf};
use parking_lot::Mutex;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::poll_fn;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

type Conn = Connection<EndPoint>;

struct ConnCell {
    m: Mutex<Option<Conn>>,
    cmd: Rc<Event>,
    close_req: Cell<bool>,
    drop_req: Cell<bool>,
    ended: Rc<Event>,
    want: RefCell<VecDeque<usize>>,
    /// Result of a graceful close.
    closed: RefCell<Option<Result<(), String>>>,
    /// What poll_next_inbound reported at the end.
    report: RefCell<Option<Option<String>>>,
    errors: Cell<u32>,
}

#[derive(Clone, Debug)]
struct Op {
    side: usize,
    sid: u32,
    idx: usize,
    kind: &'static str,
}

pub struct World {
    plan: Plan,
    led: Rc<RefCell<Ledger>>,
    net: NetRef,
    conns: [ConnCell; 2],
    reg: RefCell<BTreeMap<(usize, u32), usize>>,
    pending: RefCell<BTreeMap<u64, Op>>,
    next_op: Cell<u64>,
    changed: Rc<Event>,
    done: RefCell<Vec<[bool; 2]>>,
    opened: RefCell<Vec<Option<u32>>>,
    batch: Cell<u32>,
}

enum Fail {
    Quit,
    Io(#[allow(dead_code)] io::Error),
}

enum Io {
    Whole(Mutex<Option<Tracked>>),
    Halves(RefCell<Option<ReadHalf<Tracked>>>, RefCell<Option<WriteHalf<Tracked>>>),
}

/// One side of one stream.
struct H {
    w: Rc<World>,
    side: usize,
    sid: u32,
    idx: usize,
    role: usize,
    io: Io,
    quit: Event,
    lanes: Cell<u32>,
    key_w: u64,
    key_r: u64,
    off_w: Cell<u64>,
    off_r: Cell<u64>,
    eof: Cell<bool>,
    reads: Cell<u64>,
}

pub fn config(p: &crate::plan::ConnPlan) -> Config {
    let mut c = Config::default();
    c.set_max_connection_receive_window(None);
    c.set_max_num_streams(p.max_streams as usize);
    if let Some(x) = p.extra_kib {
        c.set_max_connection_receive_window(Some(p.max_streams as usize * 256 * 1024 + x as usize * 1024));
    }
    c.set_read_after_close(p.read_after_close);
    c.set_split_send_size(p.split as usize);
    c
}

fn stream_key(seed: u64, idx: usize, dir: usize) -> u64 {
    crate::rng::mix(seed ^ ((idx as u64) << 1 | dir as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

impl World {
    fn led_s(&self, side: usize, sid: u32) -> crate::wire::S {
        self.led.borrow().sides[side].streams.get(&sid).cloned().unwrap_or_default()
    }
    /// Connection of `side` is neither closing, dropped, ended nor failed.
    fn alive(&self, side: usize) -> bool {
        let c = &self.conns[side];
        !c.close_req.get() && !c.drop_req.get() && !c.ended.is_set() && !self.net.borrow().errored(side) && !self.net.borrow().end_gone(side)
    }
    fn both_alive(&self) -> bool {
        self.alive(0) && self.alive(1) && self.net.borrow().fired.is_empty()
    }
    fn op_start(&self, side: usize, sid: u32, idx: usize, kind: &'static str) -> u64 {
        let k = self.next_op.get();
        self.next_op.set(k + 1);
        self.pending.borrow_mut().insert(k, Op { side, sid, idx, kind });
        k
    }
    fn op_end(&self, k: u64) {
        sched::progress();
        self.pending.borrow_mut().remove(&k);
    }
    fn finish(&self, idx: usize, role: usize) {
        self.done.borrow_mut()[idx][role] = true;
        self.changed.poke();
    }
}

impl H {
    async fn op<T>(&self, kind: &'static str, mut f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> Result<T, Fail> {
        let k = self.w.op_start(self.side, self.sid, self.idx, kind);
        let r = poll_fn(|cx| {
            if self.quit.is_set() {
                return Poll::Ready(Err(Fail::Quit));
            }
            match f(cx) {
                Poll::Ready(x) => Poll::Ready(Ok(x)),
                Poll::Pending => {
                    // The call may have been preempted, and the flag set meanwhile.
                    if self.quit.is_set() {
                        return Poll::Ready(Err(Fail::Quit));
                    }
                    self.quit.register(cx);
                    Poll::Pending
                }
            }
        })
        .await;
        self.w.op_end(k);
        r
    }

    fn p(&self) -> &crate::plan::SidePlan {
        &self.w.plan.streams[self.idx].side[self.role]
    }

    /// Read once. None: end of stream.
    async fn read(&self, max: usize) -> Result<Option<usize>, Fail> {
        let n = self.reads.get();
        self.reads.set(n + 1);
        let packet = match self.p().rapi {
            1 => true,
            2 => n % 2 == 1,
            _ => false,
        };
        let mut buf = vec![0u8; max.max(1)];
        let r: io::Result<Option<Vec<u8>>> = self
            .op("read", |cx| match &self.io {
                Io::Whole(m) => {
                    let mut g = m.lock();
                    let t = g.as_mut().unwrap();
                    if packet {
                        match t.poll_packet(cx) {
                            Poll::Pending => Poll::Pending,
                            Poll::Ready(None) => Poll::Ready(Ok(None)),
                            Poll::Ready(Some(Ok(v))) => Poll::Ready(Ok(Some(v))),
                            Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
                        }
                    } else {
                        Pin::new(t).poll_read(cx, &mut buf).map(|r| r.map(|n| if n == 0 { None } else { Some(buf[..n].to_vec()) }))
                    }
                }
                Io::Halves(r, _) => {
                    let mut g = r.borrow_mut();
                    Pin::new(g.as_mut().unwrap()).poll_read(cx, &mut buf).map(|r| r.map(|n| if n == 0 { None } else { Some(buf[..n].to_vec()) }))
                }
            })
            .await?;
        match r {
            Err(e) => {
                let st = self.w.led_s(self.side, self.sid);
                violate(&["P01", "P14", "P15"], "read failed", format!("side {} stream {}: {e} ({st:?})", self.side, self.sid));
                Err(Fail::Io(e))
            }
            Ok(None) => {
                self.eof_check();
                Ok(None)
            }
            Ok(Some(v)) => {
                crate::ev!("{} app read {} on {}", self.side, v.len(), self.sid);
                if self.eof.get() && !v.is_empty() {
                    violate(&["P01", "P03"], "data after end of stream", format!("side {} stream {}", self.side, self.sid));
                }
                if let Some(k) = check_content(self.key_r, self.off_r.get(), &v) {
                    violate(
                        &["P01"],
                        "content differs",
                        format!("side {} stream {}: byte {} differs from what was written", self.side, self.sid, self.off_r.get() + k as u64),
                    );
                }
                self.off_r.set(self.off_r.get() + v.len() as u64);
                Ok(Some(v.len()))
            }
        }
    }

    fn eof_check(&self) {
        if self.eof.replace(true) {
            return;
        }
        let w = &self.w;
        let me = w.led_s(self.side, self.sid);
        let other = w.led_s(1 - self.side, self.sid);
        let got = self.off_r.get();
        crate::ev!("{} app eof on {} after {}", self.side, self.sid, got);
        let rac = w.plan.conf[self.side].read_after_close;
        let what = || format!("side {} stream {}: end of stream after {got} bytes; reader {me:?} writer {other:?}", self.side, self.sid);
        if w.both_alive() && !w.conns[1 - self.side].ended.is_set() {
            if !(other.close_called || other.dropped) {
                violate(&["P01", "P03", "P04"], "end of stream while the writer is open", what());
            }
            if got != other.written {
                let mut tags = vec!["P01"];
                if other.wclosed {
                    tags.push("P03")
                }
                if other.dropped {
                    tags.push("P04")
                }
                violate(&tags, "end of stream before all bytes", what());
            }
            return;
        }
        if got > other.written {
            // A write may have been accepted whose call has not returned yet.
            sched::count("read_ahead_of_write_return");
        }
        if rac && got != me.rx_data {
            let graceful = w.conns[0].close_req.get() || w.conns[1].close_req.get();
            let tags: &[&str] = if graceful { &["P14", "P01", "P15"] } else { &["P15", "P01"] };
            violate(tags, "received bytes lost at the end of the connection", what());
        }
    }

    async fn write(&self, buf: &[u8]) -> Result<usize, Fail> {
        let r = self
            .op("write", |cx| match &self.io {
                Io::Whole(m) => Pin::new(m.lock().as_mut().unwrap()).poll_write(cx, buf),
                Io::Halves(_, w) => Pin::new(w.borrow_mut().as_mut().unwrap()).poll_write(cx, buf),
            })
            .await?;
        match r {
            Ok(n) => Ok(n),
            Err(e) => {
                let me = self.w.led_s(self.side, self.sid);
                let other = self.w.led_s(1 - self.side, self.sid);
                if self.w.both_alive() && !other.dropped && !me.close_called {
                    violate(&["P01", "P03", "P04"], "write failed on an open stream", format!("side {} stream {}: {e}; {me:?} peer {other:?}", self.side, self.sid));
                }
                Err(Fail::Io(e))
            }
        }
    }
    async fn flush(&self) -> Result<(), Fail> {
        let r = self
            .op("flush", |cx| match &self.io {
                Io::Whole(m) => Pin::new(m.lock().as_mut().unwrap()).poll_flush(cx),
                Io::Halves(_, w) => Pin::new(w.borrow_mut().as_mut().unwrap()).poll_flush(cx),
            })
            .await?;
        if let Err(e) = &r {
            if self.w.both_alive() {
                violate(&["P02"], "flush failed", format!("side {} stream {}: {e}", self.side, self.sid));
            }
        }
        r.map_err(Fail::Io)
    }
    async fn close(&self) -> Result<(), Fail> {
        let r = self
            .op("close", |cx| match &self.io {
                Io::Whole(m) => Pin::new(m.lock().as_mut().unwrap()).poll_close(cx),
                Io::Halves(_, w) => Pin::new(w.borrow_mut().as_mut().unwrap()).poll_close(cx),
            })
            .await?;
        if let Err(e) = &r {
            if self.w.both_alive() {
                violate(&["P03", "P02"], "close failed", format!("side {} stream {}: {e}", self.side, self.sid));
            }
        }
        r.map_err(Fail::Io)
    }
    fn release(&self) {
        match &self.io {
            Io::Whole(m) => {
                let t = m.lock().take();
                drop(t)
            }
            Io::Halves(r, w) => {
                let (a, b) = (r.borrow_mut().take(), w.borrow_mut().take());
                drop(a);
                drop(b);
            }
        }
    }
    fn lane_done(&self) {
        let n = self.lanes.get() - 1;
        self.lanes.set(n);
        if n == 0 {
            self.release();
            self.w.finish(self.idx, self.role);
        }
    }
    async fn put(&self, n: u64) -> Result<(), Fail> {
        let p = self.p();
        let end = self.off_w.get() + n;
        let mut k = 0u32;
        loop {
            if p.drop_w.is_some_and(|d| self.off_w.get() >= d as u64) {
                self.quit.set();
                return Err(Fail::Quit);
            }
            if self.off_w.get() >= end {
                return Ok(());
            }
            // Much more than what one call can take costs time only.
            let m = (p.wchunk.max(1) as u64).min(end - self.off_w.get()).min(self.w.plan.conf[self.side].split.max(1) as u64 * 16);
            let mut buf = vec![0u8; m as usize];
            content(self.key_w, self.off_w.get(), &mut buf);
            let got = self.write(&buf).await?;
            self.off_w.set(self.off_w.get() + got as u64);
            k += 1;
            if p.flush > 0 && k.is_multiple_of(p.flush) {
                self.flush().await?;
            }
            if p.wpause > 0 {
                sched::sleep(p.wpause as u64 * 1000).await;
            }
        }
    }
    /// Read up to `n` bytes, or to the end of stream (u64::MAX). False at the end of stream.
    async fn take(&self, n: u64) -> Result<bool, Fail> {
        let p = self.p().clone();
        let end = self.off_r.get().saturating_add(n);
        let mut stalls: VecDeque<(u32, u32)> = p.stalls.iter().copied().filter(|s| s.0 as u64 >= self.off_r.get()).collect();
        loop {
            if p.drop_r.is_some_and(|d| self.off_r.get() >= d as u64) {
                self.quit.set();
                return Err(Fail::Quit);
            }
            while stalls.front().is_some_and(|s| s.0 as u64 <= self.off_r.get()) {
                let (_, us) = stalls.pop_front().unwrap();
                sched::count("fault_reader_stall");
                if us == 0 {
                    sched::wait_idle().await;
                    self.w.stalled_check(self.idx);
                } else {
                    sched::sleep(us as u64 * 1000).await;
                }
            }
            if self.off_r.get() >= end {
                return Ok(true);
            }
            let m = (p.rchunk.max(1) as u64).min(end - self.off_r.get());
            if self.read(m as usize).await?.is_none() {
                if n == u64::MAX {
                    // End of stream is final.
                    self.read(16).await?;
                }
                return Ok(false);
            }
        }
    }
    async fn end_write(&self) -> Result<(), Fail> {
        let p = self.p();
        self.close().await?;
        if p.write_after_close {
            let r = self
                .op("write", |cx| match &self.io {
                    Io::Whole(m) => Pin::new(m.lock().as_mut().unwrap()).poll_write(cx, b"x"),
                    Io::Halves(_, w) => Pin::new(w.borrow_mut().as_mut().unwrap()).poll_write(cx, b"x"),
                })
                .await?;
            sched::count("probe_write_after_close");
            if r.is_ok() {
                violate(&["P03"], "write after close succeeded", format!("side {} stream {}", self.side, self.sid));
            }
        }
        if p.close_twice {
            sched::count("probe_close_twice");
            self.close().await?;
        }
        if p.close_and_go {
            self.quit.set();
        }
        Ok(())
    }
    async fn lane_w(&self, n: u64) -> Result<(), Fail> {
        self.put(n).await?;
        self.end_write().await
    }
    async fn lane_r(&self) -> Result<(), Fail> {
        self.take(u64::MAX).await.map(|_| ())
    }
    async fn linger(&self) {
        if self.p().linger > 0 && !self.quit.is_set() {
            sched::sleep(self.p().linger as u64 * 1000).await;
        }
    }
}

impl World {
    /// A reader stalled on stream `idx`; everything else has come to rest.
    fn stalled_check(&self, idx: usize) {
        if !self.both_alive() {
            return;
        }
        sched::count("probe_stall_idle");
        let held = |i: usize| self.plan.streams[i].side.iter().any(|s| s.stalls.iter().any(|x| x.1 == 0));
        for (i, st) in self.plan.streams.iter().enumerate() {
            if i == idx || held(i) || st.batch > self.batch.get() || self.may_not_surface(i) {
                continue;
            }
            if self.done.borrow()[i] != [true, true] {
                violate(
                    &["P08", "P02"],
                    "stream blocked by a stalled one",
                    format!("stream plan {i} (id {:?}) is not done although only plan {idx} is stalled; waiting: {:?}", self.opened.borrow()[i], self.pending.borrow().values().filter(|o| o.idx == i).collect::<Vec<_>>()),
                );
            }
        }
    }
    /// The opener may drop the stream before anything of it reaches the wire.
    fn may_not_surface(&self, i: usize) -> bool {
        let p = &self.plan.streams[i].side[0];
        p.drop_w.is_some() || p.drop_r.is_some() || p.drop_at.is_some()
    }
}

fn start_stream(w: &Rc<World>, idx: usize, role: usize, side: usize, s: Stream) {
    let sp = w.plan.streams[idx].clone();
    let p = sp.side[role].clone();
    let sid = s.id().val();
    let mine = if role == 0 { 0 } else { 1 };
    let kd = |dir: usize| stream_key(w.plan.seed, idx, if sp.pattern == 3 { 0 } else { dir });
    let t = Tracked::new(s, w.led.clone(), side, w.plan.conf[side].read_after_close);
    let two = (sp.pattern == 0 || (sp.pattern == 3 && role == 0)) && p.style != 0;
    let io = if p.style == 2 && p.rapi == 0 {
        let (r, wr) = t.split();
        Io::Halves(RefCell::new(Some(r)), RefCell::new(Some(wr)))
    } else {
        Io::Whole(Mutex::new(Some(t)))
    };
    let h = Rc::new(H {
        w: w.clone(),
        side,
        sid,
        idx,
        role,
        io,
        quit: Event::default(),
        lanes: Cell::new(if two { 2 } else { 1 }),
        key_w: kd(mine),
        key_r: kd(1 - mine),
        off_w: Cell::new(0),
        off_r: Cell::new(0),
        eof: Cell::new(false),
        reads: Cell::new(0),
    });
    let total = if role == 0 { sp.a } else { sp.b } as u64;
    if let Some(t) = p.drop_at {
        let h = h.clone();
        spawn(side, format!("{side}.dropper{idx}"), async move {
            sched::sleep(t as u64 * 1000).await;
            h.quit.set();
        });
    }
    if two {
        let (h1, h2) = (h.clone(), h);
        spawn(side, format!("{side}.w{idx}"), async move {
            let _ = h1.lane_w(total).await;
            h1.lane_done();
        });
        spawn(side, format!("{side}.r{idx}"), async move {
            let _ = h2.lane_r().await;
            h2.linger().await;
            h2.lane_done();
        });
        return;
    }
    spawn(side, format!("{side}.s{idx}"), async move {
        match (sp.pattern, role) {
            (1, 0) => {
                let _ = h.lane_w(total).await;
                let _ = h.lane_r().await;
            }
            (1, _) => {
                let _ = h.lane_r().await;
                let _ = h.lane_w(total).await;
            }
            (2, _) => {
                let q = (sp.a as u64 / sp.rounds.max(1) as u64).max(1);
                let r: Result<(), Fail> = async {
                    for _ in 0..sp.rounds {
                        if role == 0 {
                            h.put(q).await?;
                            if !h.take(q).await? {
                                break;
                            }
                        } else {
                            if !h.take(q).await? {
                                break;
                            }
                            h.put(q).await?;
                        }
                    }
                    Ok(())
                }
                .await;
                if !matches!(r, Err(Fail::Quit)) {
                    if role == 0 {
                        let _ = h.end_write().await;
                        let _ = h.lane_r().await;
                    } else {
                        let _ = h.lane_r().await;
                        let _ = h.end_write().await;
                    }
                }
            }
            (3, 1) => {
                let r: Result<(), Fail> = async {
                    loop {
                        let before = h.off_r.get();
                        if p.drop_r.is_some_and(|d| before >= d as u64) {
                            h.quit.set();
                            return Err(Fail::Quit);
                        }
                        if h.read(p.rchunk.max(1) as usize).await?.is_none() {
                            break;
                        }
                        let n = h.off_r.get() - before;
                        if n > 0 {
                            h.put(n).await?;
                        }
                    }
                    h.end_write().await
                }
                .await;
                if let Err(Fail::Io(_)) = r {
                    let _ = h.lane_r().await;
                }
            }
            _ => {
                let (a, b) = (h.lane_w(total), h.lane_r());
                let _ = futures::future::join(a, b).await;
            }
        }
        h.linger().await;
        h.lane_done();
    });
}

fn on_opened(w: &Rc<World>, side: usize, idx: usize, r: Result<Stream, ConnectionError>) {
    match r {
        Ok(s) => {
            let sid = s.id().val();
            crate::ev!("{} opened {} (plan {})", side, sid, idx);
            w.led.borrow_mut().opened(side, sid);
            if !s.is_pending_ack() && w.led_s(side, sid).rx_ack == 0 && w.both_alive() {
                violate(&["P10"], "new stream not pending acknowledgement", format!("side {side} stream {sid}"));
            }
            if w.reg.borrow_mut().insert((side, sid), idx).is_some() {
                violate(&["P09"], "identifier reused", format!("side {side} stream {sid}"));
            }
            w.opened.borrow_mut()[idx] = Some(sid);
            start_stream(w, idx, 0, side, s);
        }
        Err(e) => {
            crate::ev!("{} open failed: {e}", side);
            if w.both_alive() {
                let tags: &[&str] = match e {
                    ConnectionError::TooManyStreams => &["P11", "P04", "P02"],
                    ConnectionError::NoMoreStreamIds => &["P09"],
                    _ => &["P02", "P15"],
                };
                violate(tags, "open failed", format!("side {side}: {e}"));
            }
            w.conns[side].errors.set(w.conns[side].errors.get() + 1);
            let mut d = w.done.borrow_mut();
            d[idx] = [true, true];
            drop(d);
            w.changed.poke();
        }
    }
}

fn on_inbound(w: &Rc<World>, side: usize, s: Stream) {
    let sid = s.id().val();
    crate::ev!("{} accepted {}", side, sid);
    w.led.borrow_mut().surfaced(side, sid);
    if !s.is_pending_ack() && w.led_s(side, sid).rx_fin == 0 && w.both_alive() {
        violate(&["P10"], "accepted stream already acknowledged", format!("side {side} stream {sid}"));
    }
    let idx = w.reg.borrow().get(&(1 - side, sid)).copied();
    match idx {
        Some(i) => start_stream(w, i, 1, side, s),
        None => violate(&["P01", "P09"], "stream surfaced that was never opened", format!("side {side} stream {sid}")),
    }
}

enum Out {
    In(Option<Result<Stream, ConnectionError>>),
    Opened(usize, Result<Stream, ConnectionError>),
    Closed(Result<(), ConnectionError>),
    Drop,
}

async fn driver(w: Rc<World>, side: usize) {
    let drive = w.plan.conf[side].drive;
    let c = &w.conns[side];
    let mut close_op = None;
    loop {
        let o = poll_fn(|cx| {
            c.cmd.register(cx);
            if c.drop_req.get() {
                return Poll::Ready(Out::Drop);
            }
            let mut g = c.m.lock();
            let conn = g.as_mut().unwrap();
            if c.close_req.get() {
                w.led.borrow_mut().sides[side].close_called = true;
                if close_op.is_none() {
                    close_op = Some(w.op_start(side, 0, usize::MAX, "conn_close"));
                }
                return counted(|| conn.poll_close(cx)).map(Out::Closed);
            }
            let front = c.want.borrow().front().copied();
            if let (2, Some(i)) = (drive, front) {
                if let Poll::Ready(r) = counted(|| conn.poll_new_outbound(cx)) {
                    c.want.borrow_mut().pop_front();
                    return Poll::Ready(Out::Opened(i, r));
                }
            }
            if let Poll::Ready(r) = counted(|| conn.poll_next_inbound(cx)) {
                return Poll::Ready(Out::In(r));
            }
            if let (1, Some(i)) = (drive, front) {
                if let Poll::Ready(r) = counted(|| conn.poll_new_outbound(cx)) {
                    c.want.borrow_mut().pop_front();
                    return Poll::Ready(Out::Opened(i, r));
                }
            }
            Poll::Pending
        })
        .await;
        match o {
            Out::In(Some(Ok(s))) => on_inbound(&w, side, s),
            Out::Opened(i, r) => on_opened(&w, side, i, r),
            Out::In(None) => {
                *c.report.borrow_mut() = Some(None);
                break;
            }
            Out::In(Some(Err(e))) => {
                *c.report.borrow_mut() = Some(Some(e.to_string()));
                c.errors.set(c.errors.get() + 1);
                break;
            }
            Out::Closed(r) => {
                crate::ev!("{} close finished: {:?}", side, r.as_ref().map_err(|e| e.to_string()));
                *c.closed.borrow_mut() = Some(r.map_err(|e| e.to_string()));
                break;
            }
            Out::Drop => {
                let conn = c.m.lock().take();
                counted(|| drop(conn));
                w.led.borrow_mut().sides[side].conn_gone = true;
                break;
            }
        }
    }
    if let Some(k) = close_op {
        w.op_end(k);
    }
    w.led.borrow_mut().sides[side].ended = true;
    crate::ev!("{} connection ended: report {:?} closed {:?}", side, c.report.borrow(), c.closed.borrow());
    c.ended.set();
    for i in c.want.borrow_mut().drain(..) {
        w.done.borrow_mut()[i] = [true, true];
    }
    w.changed.poke();
    // The end is final.
    for round in 0..2 {
        let bad = poll_fn(|cx| {
            let mut g = c.m.lock();
            let Some(conn) = g.as_mut() else { return Poll::Ready(None) };
            let a = counted(|| conn.poll_next_inbound(cx));
            if !matches!(a, Poll::Ready(None)) {
                return Poll::Ready(Some("poll_next_inbound does not report the end again"));
            }
            let b = counted(|| conn.poll_new_outbound(cx));
            if !matches!(b, Poll::Ready(Err(ConnectionError::Closed))) {
                return Poll::Ready(Some("poll_new_outbound does not fail as closed"));
            }
            let d = counted(|| conn.poll_close(cx));
            if !matches!(d, Poll::Ready(Ok(()))) {
                return Poll::Ready(Some("poll_close does not succeed"));
            }
            Poll::Ready(None)
        })
        .await;
        if let Some(b) = bad {
            violate(&["P15", "P14"], "end of connection not final", format!("side {side}: {b}"));
        }
        if round == 0 {
            sched::yield_now().await;
        }
    }
    if w.plan.conf[side].drop_when_ended {
        let conn = c.m.lock().take();
        counted(|| drop(conn));
    }
}

async fn opener(w: Rc<World>, side: usize, batch: u32) {
    let mut list: Vec<usize> = (0..w.plan.streams.len()).filter(|i| w.plan.streams[*i].opener as usize == side && w.plan.streams[*i].batch == batch).collect();
    list.sort_by_key(|i| w.plan.streams[*i].at);
    let c = &w.conns[side];
    let t0 = sched::now();
    for i in list {
        let at = t0 + w.plan.streams[i].at as u64 * 1000;
        let now = sched::now();
        if at > now {
            sched::sleep(at - now).await;
        }
        if c.ended.is_set() || c.close_req.get() || c.drop_req.get() {
            w.done.borrow_mut()[i] = [true, true];
            w.changed.poke();
            continue;
        }
        if w.plan.conf[side].drive != 0 {
            c.want.borrow_mut().push_back(i);
            c.cmd.poke();
            continue;
        }
        let k = w.op_start(side, 0, i, "open");
        let r = poll_fn(|cx| {
            let mut g = c.m.lock();
            if (c.close_req.get() || c.drop_req.get()) && !c.ended.is_set() {
                // The task that closes the connection drives it now.
                c.ended.register(cx);
                return Poll::Pending;
            }
            match g.as_mut() {
                Some(conn) => counted(|| conn.poll_new_outbound(cx)),
                None => Poll::Ready(Err(ConnectionError::Closed)),
            }
        })
        .await;
        w.op_end(k);
        on_opened(&w, side, i, r);
    }
}

async fn main_task(w: Rc<World>) {
    let batches = w.plan.streams.iter().map(|s| s.batch).max().unwrap_or(0);
    for b in 0..=batches {
        w.batch.set(b);
        for side in 0..2 {
            if w.plan.streams.iter().any(|s| s.batch == b && s.opener as usize == side) {
                let w2 = w.clone();
                spawn(side, format!("{side}.opener"), opener(w2, side, b));
            }
        }
        poll_fn(|cx| {
            w.changed.register(cx);
            if w.conns.iter().any(|c| c.ended.is_set()) {
                return Poll::Ready(());
            }
            let d = w.done.borrow();
            for (i, s) in w.plan.streams.iter().enumerate() {
                if s.batch <= b && !(d[i][0] && (d[i][1] || w.may_not_surface(i))) {
                    return Poll::Pending;
                }
            }
            Poll::Ready(())
        })
        .await;
        if b < batches {
            sched::wait_idle().await;
        }
    }
    for side in 0..2 {
        if w.plan.end[side].how == 1 {
            w.conns[side].close_req.set(true);
            w.conns[side].cmd.poke();
        }
    }
}

async fn trigger(w: Rc<World>, side: usize) {
    let e = &w.plan.end[side];
    sched::wait_ticks(e.at as u64).await;
    if w.conns[side].ended.is_set() {
        return;
    }
    if e.how == 2 {
        sched::count("fault_close_midway");
        w.conns[side].close_req.set(true);
    } else {
        sched::count("fault_connection_dropped");
        w.conns[side].drop_req.set(true);
    }
    w.conns[side].cmd.poke();
}

pub fn build(plan: &Plan) -> Rc<World> {
    let led = Rc::new(RefCell::new(Ledger::default()));
    for s in 0..2 {
        let c = &plan.conf[s];
        let mut l = led.borrow_mut();
        let sd = &mut l.sides[s];
        sd.real = true;
        sd.client = s == 0;
        sd.split = c.split as u64;
        sd.limit = c.extra_kib.map(|x| c.max_streams as u64 * 256 * 1024 + x as u64 * 1024);
        sd.max_streams = c.max_streams as u64;
    }
    let net = net::new(&plan.net, led.clone(), [true, true]);
    let (a, b) = net::ends(&net);
    let mk = |e, s: usize| ConnCell {
        m: Mutex::new(Some(counted(|| Connection::new(e, config(&plan.conf[s]), if s == 0 { Mode::Client } else { Mode::Server })))),
        cmd: Event::new(),
        close_req: Cell::new(false),
        drop_req: Cell::new(false),
        ended: Event::new(),
        want: RefCell::new(VecDeque::new()),
        closed: RefCell::new(None),
        report: RefCell::new(None),
        errors: Cell::new(0),
    };
    let n = plan.streams.len();
    let w = Rc::new(World {
        plan: plan.clone(),
        led,
        net,
        conns: [mk(a, 0), mk(b, 1)],
        reg: RefCell::new(BTreeMap::new()),
        pending: RefCell::new(BTreeMap::new()),
        next_op: Cell::new(0),
        changed: Event::new(),
        done: RefCell::new(vec![[false, false]; n]),
        opened: RefCell::new(vec![None; n]),
        batch: Cell::new(0),
    });
    for s in 0..2 {
        spawn(s, format!("{s}.driver"), driver(w.clone(), s));
    }
    for s in 0..2 {
        if plan.end[s].how >= 2 {
            spawn(s, format!("{s}.trigger"), trigger(w.clone(), s));
        }
    }
    spawn(0, "main", main_task(w.clone()));
    w
}

/// Judge the state in which a run came to rest.
pub fn finalize(w: &Rc<World>, end: End) {
    match end {
        End::Stopped => return,
        End::Cap => return,
        End::Livelock => {
            let p = w.pending.borrow();
            violate(ALL, "no end in sight", format!("no progress for {} steps; waiting: {:?}", sched::STALL, p.values().take(8).collect::<Vec<_>>()));
            return;
        }
        End::Quiescent => {}
    }
    let stuck_locks: Vec<_> = sched::unfinished().into_iter().filter(|x| x.1).collect();
    if !stuck_locks.is_empty() {
        violate(ALL, "lock deadlock", format!("{stuck_locks:?}"));
        return;
    }
    let fired = !w.net.borrow().fired.is_empty();
    let dropped = w.conns.iter().any(|c| c.drop_req.get());
    let closed = w.conns.iter().any(|c| c.close_req.get());
    let stall = w.plan.streams.iter().any(|s| s.side.iter().any(|x| !x.stalls.is_empty()));
    let pend: Vec<Op> = w.pending.borrow().values().cloned().collect();
    for o in &pend {
        let me = w.led_s(o.side, o.sid);
        let other = w.led_s(1 - o.side, o.sid);
        let credit = crate::wire::CREDIT0 + me.rx_credit;
        // A stream that has never been written to is not announced, so there is nobody to answer.
        if o.kind == "read" && me.opened && me.tx_frames == 0 && me.written == 0 && !me.close_called {
            sched::count("excused_read_before_first_write");
            continue;
        }
        // See known-findings.txt: nobody is told that a stream has been dropped after it was closed.
        if o.kind == "write" && other.dropped && other.wclosed && me.written == credit && me.rx_fin == 1 && me.rx_rst == 0 && !fired && !dropped && !closed && sched::known("write_to_closed_and_dropped") {
            sched::count("known_write_to_closed_and_dropped");
            continue;
        }
        let mut tags: Vec<&str> = vec![];
        if fired || dropped {
            tags.push("P15");
        } else if closed {
            tags.extend(["P14", "P15"]);
        } else {
            tags.push("P02");
            if stall {
                tags.push("P08");
            }
        }
        let mut class = format!("stuck {}", o.kind);
        match o.kind {
            "read" => {
                if me.close_called && me.written == 0 && other.rx_fin == 0 {
                    tags.push("P03");
                }
                if other.wclosed {
                    tags.extend(["P03", "P01"]);
                    class += " after peer's close";
                } else if other.dropped {
                    tags.push("P04");
                    class += " after peer's drop";
                } else if me.rx_data > me.read {
                    tags.push("P01");
                    class += " with unread data";
                }
            }
            "write" => {
                if other.dropped {
                    tags.push("P04");
                    class += " after peer's drop";
                    if other.wclosed {
                        class += " (closed before)";
                    }
                }
                if me.written < credit {
                    tags.push("P05");
                    class += " with credit";
                } else if me.written == other.read {
                    tags.push("P06");
                    class += " although all was read";
                }
            }
            "open" => tags.push("P10"),
            "conn_close" => tags.push("P14"),
            "close" => tags.push("P03"),
            _ => {}
        }
        violate(&tags, class, format!("side {} stream {} plan {}: {} never completes; here {me:?} peer {other:?}; all waiting: {:?}", o.side, o.sid, o.idx, o.kind, pend.iter().map(|o| (o.side, o.sid, o.kind)).collect::<Vec<_>>()));
    }
    let net = w.net.borrow();
    let led = w.led.borrow();
    for s in 0..2 {
        let c = &w.conns[s];
        let sd = &led.sides[s];
        if w.both_alive() {
            if net.unflushed(s) > 0 {
                violate(&["P16", "P02"], "idle with unflushed bytes", format!("side {s}: {} bytes", net.unflushed(s)));
            }
            if !net.tx_boundary(s) {
                violate(&["P16", "P02"], "idle in the middle of a frame", format!("side {s}"));
            }
            if sd.pings_due.iter().any(|x| x.1) {
                violate(&["P17", "P02"], "ping never answered", format!("side {s}: {:?}", sd.pings_due));
            }
            for (sid, st) in &sd.streams {
                if st.tx_data != st.written {
                    violate(&["P02", "P16", "P04", "P01"], "accepted bytes never sent", format!("side {s} stream {sid}: {st:?}"));
                }
                if st.tx_syn > 0 && !led.sides[1 - s].streams.get(sid).is_some_and(|x| x.surfaced) {
                    violate(&["P01", "P02", "P09"], "stream never surfaced", format!("side {s} stream {sid}"));
                }
                if st.dropped && st.surfaced && !st.wclosed && st.tx_fin + st.tx_rst == 0 && st.rx_rst == 0 {
                    violate(&["P04"], "drop not announced", format!("side {s} stream {sid}: {st:?}"));
                }
                if st.wclosed && st.tx_fin == 0 && st.rx_rst == 0 {
                    violate(&["P03"], "close not announced", format!("side {s} stream {sid}: {st:?}"));
                }
            }
        }
        // Reports.
        let errored = net.errored(s);
        let local_err = c.errors.get();
        if let Some(rep) = c.report.borrow().as_ref() {
            let goaway = !sd.goaway_rx.is_empty();
            let bound = net.rx_boundary(s);
            let what = format!("side {s}: report {rep:?}, transport error {errored}, go-away received {:?}, frame boundary {bound}", sd.goaway_rx);
            if errored && rep.is_none() && !goaway {
                violate(&["P15"], "transport error not reported", what.clone());
            }
            if !errored && !goaway && !bound && rep.is_none() {
                violate(&["P15"], "truncation not reported", what.clone());
            }
            if !errored && (goaway || bound) && rep.is_some() {
                violate(&["P15", "P14"], "clean end reported as error", what);
            }
            if local_err > 1 + w.plan.streams.len() as u32 {
                violate(&["P15"], "error reported repeatedly", format!("side {s}"));
            }
        } else if c.ended.is_set() && c.closed.borrow().is_none() && !c.drop_req.get() {
            violate(&["P15"], "ended without report", format!("side {s}"));
        }
        if let Some(r) = c.closed.borrow().as_ref() {
            match r {
                Err(e) => {
                    if !errored && net.rx_boundary(s) {
                        violate(&["P14"], "close failed on a working transport", format!("side {s}: {e}"));
                    }
                }
                Ok(()) => {
                    sched::count("probe_graceful_close");
                    let was_ended = sd.goaway_tx.is_empty() && (errored || !sd.goaway_rx.is_empty() || net.end_gone(1 - s) || net.closed_by(1 - s));
                    if !was_ended {
                        if sd.goaway_tx.iter().filter(|g| **g == 0).count() != 1 {
                            violate(&["P14"], "no final go-away", format!("side {s}: {:?}", sd.goaway_tx));
                        }
                        if sd.tx_closed != 1 {
                            violate(&["P14"], "transport not closed once", format!("side {s}: {}", sd.tx_closed));
                        }
                        for (sid, st) in &sd.streams {
                            if st.tx_data != st.written {
                                violate(&["P14"], "accepted bytes lost by close", format!("side {s} stream {sid}: {} of {} sent", st.tx_data, st.written));
                            }
                            if st.wclosed && st.tx_fin == 0 && st.rx_rst == 0 && st.rx_fin == 0 {
                                violate(&["P14", "P03"], "stream close lost by connection close", format!("side {s} stream {sid}: {st:?}"));
                            }
                        }
                        let o = &w.conns[1 - s];
                        let passive = !o.close_req.get() && !o.drop_req.get() && !net.errored(1 - s) && net.fired.is_empty();
                        if passive {
                            if o.report.borrow().as_ref() != Some(&None) && o.ended.is_set() {
                                violate(&["P14", "P15"], "peer of a graceful close saw an error", format!("side {}: {:?}", 1 - s, o.report.borrow()));
                            }
                            if !o.ended.is_set() {
                                violate(&["P14"], "peer of a graceful close did not notice", format!("side {}", 1 - s));
                            }
                            for (sid, st) in &sd.streams {
                                let os = led.sides[1 - s].streams.get(sid).cloned().unwrap_or_default();
                                if os.rx_data != st.tx_data {
                                    violate(&["P14"], "bytes sent before close not received", format!("stream {sid}: {} of {}", os.rx_data, st.tx_data));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Payload bytes delivered to applications in this run.
pub fn delivered(w: &World) -> u64 {
    let l = w.led.borrow();
    l.sides.iter().map(|s| s.streams.values().map(|x| x.read).sum::<u64>()).sum()
}
pub fn ledger(w: &World) -> Rc<RefCell<Ledger>> {
    w.led.clone()
}
