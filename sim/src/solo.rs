//! One real endpoint against a scripted peer that speaks (or breaks) the specification, judged by an
//! executable reference model: the ledger of frames received, plus what the application did.
use crate::app::{counted, Tracked};
use crate::net::{self, EndPoint, NetRef};
use crate::plan::{check_content, content, Plan, Step};
use crate::sched::{self, spawn, violate, End, Event, ALL};
use crate::sys;
use crate::wire::{self, Ev, Hdr, Ledger, Parser, ACK, CREDIT0, DATA, FIN, GOAWAY, PING, RST, SYN, WU};
use futures::io::{AsyncRead, AsyncWrite};
use parking_lot::Mutex;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::poll_fn;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use yamux::{Connection, ConnectionError, Mode, Stream};

type Conn = Connection<EndPoint>;

#[derive(Clone, Debug)]
enum Op {
    Write { n: u64, chunk: u32 },
    Flush,
    Close,
    Read { n: u64, chunk: u32, packet: bool },
}

#[derive(Default)]
struct Lane {
    q: RefCell<VecDeque<Op>>,
    busy: RefCell<Option<&'static str>>,
    go: Event,
}

struct AppStream {
    t: Mutex<Option<Tracked>>,
    sid: u32,
    local: bool,
    w: Lane,
    r: Lane,
    quit: Event,
    held: Cell<bool>,
    off_w: Cell<u64>,
    off_r: Cell<u64>,
    eof: Cell<bool>,
}

/// A stream as the peer sees it.
#[derive(Default, Clone, Debug)]
struct Ps {
    mine: bool,
    /// Reset by the very frame that announced it.
    never: bool,
    credit: u64,
    sent: u64,
    granted: u64,
    fin: bool,
    rst: bool,
    acked: bool,
    rx_rst: bool,
    rx_bytes: u64,
}

#[derive(Default)]
struct Peer {
    q: VecDeque<u8>,
    frames: u64,
    order: Vec<u32>,
    st: BTreeMap<u32, Ps>,
    next_id: u32,
    probe: Option<u32>,
    stalled: bool,
    eof: Option<bool>,
    closed: bool,
    sent_partial: bool,
    garbage: bool,
    /// Bytes the script has asked to be sent, and bytes sent: replies are no progress.
    scripted: u64,
    sent: u64,
    cur: u32,
}

pub struct World {
    plan: Plan,
    led: Rc<RefCell<Ledger>>,
    net: NetRef,
    conn: Mutex<Option<Conn>>,
    cmd: Rc<Event>,
    close_req: Cell<bool>,
    drop_req: Cell<bool>,
    ended: Cell<bool>,
    report: RefCell<Option<Option<String>>>,
    closed: RefCell<Option<Result<(), String>>>,
    opens: Cell<u32>,
    open_waiting: Cell<bool>,
    open_killed: Cell<bool>,
    exact: Cell<bool>,
    in_open: Cell<bool>,
    open_dead: Cell<bool>,
    suspects: RefCell<Vec<(&'static [&'static str], &'static str, String)>>,
    /// Streams whose drop the endpoint has surely noticed.
    reclaimed: RefCell<BTreeSet<u32>>,
    chaos: Cell<bool>,
    bad: Cell<u32>,
    fatal: Cell<bool>,
    streams: RefCell<Vec<Rc<AppStream>>>,
    peer: RefCell<Peer>,
    pend: RefCell<Option<EndPoint>>,
    tx_ev: Event,
    rx_ev: Event,
    closing_op: Cell<bool>,
    done: Cell<bool>,
}

fn key(seed: u64, sid: u32, dir: u64) -> u64 {
    crate::rng::mix(seed ^ ((sid as u64) << 1 | dir).wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

impl World {
    fn led_s(&self, sid: u32) -> wire::S {
        self.led.borrow().sides[0].streams.get(&sid).cloned().unwrap_or_default()
    }
    /// The connection has ended, is closing or has been dropped.
    fn over(&self) -> bool {
        let n = self.net.borrow();
        self.ended.get()
            || self.close_req.get()
            || self.drop_req.get()
            || self.open_killed.get()
            || n.errored(0)
            || !n.fired.is_empty()
            || self.fatal.get()
            || self.peer.borrow().eof.is_some()
            || !self.led.borrow().sides[0].goaway_rx.is_empty()
    }
    fn judged(&self) -> bool {
        !self.chaos.get()
    }
    fn app(&self, sid: u32) -> Option<Rc<AppStream>> {
        self.streams.borrow().iter().find(|s| s.sid == sid).cloned()
    }

    // ---- peer ----

    fn send(&self, h: Hdr, body: &[u8], legal: bool) {
        let mut p = self.peer.borrow_mut();
        if p.eof.is_some() || p.garbage {
            return;
        }
        crate::ev!("peer sends {}{}", h.show(), if legal { "" } else { " (illegal)" });
        if !legal {
            self.led.borrow_mut().sides[0].rx_illegal.insert(p.frames);
        }
        p.frames += 1;
        if h.ty != PING {
            p.scripted += 12 + body.len() as u64;
        }
        p.q.extend(h.encode());
        p.q.extend(body);
        drop(p);
        self.tx_ev.poke();
    }
    fn with_ps<R>(&self, sid: u32, f: impl FnOnce(&mut Ps) -> R) -> R {
        let mut p = self.peer.borrow_mut();
        if !p.st.contains_key(&sid) {
            p.order.push(sid);
            p.st.insert(sid, Ps { credit: CREDIT0, granted: CREDIT0, ..Default::default() });
        }
        f(p.st.get_mut(&sid).unwrap())
    }
    /// Flag for the first frame the peer sends on a stream of the endpoint's.
    fn ackflag(&self, sid: u32) -> u16 {
        self.with_ps(sid, |p| {
            if !p.mine && !p.acked {
                p.acked = true;
                ACK
            } else {
                0
            }
        })
    }
    fn pick(&self, i: u32, f: impl Fn(u32, &Ps) -> bool) -> Option<u32> {
        let p = self.peer.borrow();
        let l: Vec<u32> = p.order.iter().copied().filter(|s| f(*s, &p.st[s])).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[i as usize % l.len()])
        }
    }
    fn data(&self, sid: u32, mut n: u64, chunk: u32, fin: bool) {
        loop {
            let off = self.with_ps(sid, |p| p.sent);
            let room = self.with_ps(sid, |p| p.credit.saturating_sub(p.sent));
            let k = n.min(chunk.clamp(1, wire::MAX_BODY) as u64).min(room);
            let mut b = vec![0u8; k as usize];
            content(key(self.plan.seed, sid, 1), off, &mut b);
            n -= k;
            let last = n == 0 || k == 0;
            let mut fl = self.ackflag(sid);
            if fin && last {
                fl |= FIN;
                self.with_ps(sid, |p| p.fin = true);
            }
            self.with_ps(sid, |p| p.sent += k);
            self.send(Hdr::new(DATA, fl, sid, k as u32), &b, true);
            if last {
                return;
            }
        }
    }
    fn fresh_id(&self, skip: u32) -> u32 {
        let mut p = self.peer.borrow_mut();
        let id = p.next_id.saturating_add(skip.saturating_mul(2));
        p.next_id = id.saturating_add(2);
        id
    }
    fn peer_frame(&self, e: Ev) {
        match e {
            Ev::Header(h) => {
                self.peer.borrow_mut().cur = h.sid;
                if h.ty == DATA || h.ty == WU {
                    let syn = h.flags & SYN != 0;
                    let known = self.peer.borrow().st.contains_key(&h.sid);
                    if syn || known {
                        self.with_ps(h.sid, |p| {
                            if h.ty == WU && h.flags & RST == 0 {
                                p.credit += h.len as u64;
                            }
                            p.rx_rst |= h.flags & RST != 0;
                        });
                    }
                }
                if h.ty == PING && h.flags & SYN != 0 {
                    self.peer.borrow_mut().probe = Some(h.len);
                    if self.plan.autopong {
                        self.pong();
                    }
                }
            }
            Ev::Body(b) => {
                let sid = self.peer.borrow().cur;
                let off = self.with_ps(sid, |p| p.rx_bytes);
                if let Some(k) = check_content(key(self.plan.seed, sid, 0), off, b) {
                    violate(&["P01", "P16"], "sent content differs", format!("stream {sid}: byte {} on the wire differs from what was written", off + k as u64));
                }
                self.with_ps(sid, |p| p.rx_bytes += b.len() as u64);
            }
            Ev::Done(_) => {}
        }
    }
    fn pong(&self) {
        let v = self.peer.borrow_mut().probe.take();
        if let Some(v) = v {
            self.send(Hdr::new(PING, ACK, 0, v), &[], true);
        }
    }

    // ---- application ----

    fn add_stream(self: &Rc<Self>, s: Stream, local: bool) {
        let sid = s.id().val();
        let t = Tracked::new(s, self.led.clone(), 0, self.plan.conf[0].read_after_close);
        let a = Rc::new(AppStream {
            t: Mutex::new(Some(t)),
            sid,
            local,
            w: Lane::default(),
            r: Lane::default(),
            quit: Event::default(),
            held: Cell::new(true),
            off_w: Cell::new(0),
            off_r: Cell::new(0),
            eof: Cell::new(false),
        });
        self.streams.borrow_mut().push(a.clone());
        for reader in [false, true] {
            let (w, a) = (self.clone(), a.clone());
            spawn(0, format!("{}{sid}", if reader { "r" } else { "w" }), async move { lane(w, a, reader).await });
        }
    }
    fn app_pick(&self, i: u32) -> Option<Rc<AppStream>> {
        let l: Vec<_> = self.streams.borrow().iter().filter(|s| s.held.get()).cloned().collect();
        if l.is_empty() {
            None
        } else {
            Some(l[i as usize % l.len()].clone())
        }
    }
    fn release(&self, a: &AppStream) {
        a.held.set(false);
        a.quit.set();
        a.w.go.poke();
        a.r.go.poke();
        let t = a.t.lock().take();
        drop(t);
    }

    fn got(&self, a: &AppStream, v: &[u8]) {
        if a.eof.get() && !v.is_empty() && self.judged() {
            violate(&["P01", "P03"], "data after end of stream", format!("stream {}", a.sid));
        }
        if self.judged() {
            if let Some(k) = check_content(key(self.plan.seed, a.sid, 1), a.off_r.get(), v) {
                violate(&["P01", "P18"], "content differs", format!("stream {}: byte {}", a.sid, a.off_r.get() + k as u64));
            }
        }
        a.off_r.set(a.off_r.get() + v.len() as u64);
        let s = self.led_s(a.sid);
        if self.judged() && s.read > s.rx_data && !self.close_req.get() {
            violate(&["P12", "P01", "P18"], "read more than was legally received", format!("stream {}: {} of {}", a.sid, s.read, s.rx_data));
        }
        crate::ev!("app read {} on {}", v.len(), a.sid);
    }
    fn got_eof(&self, a: &AppStream) {
        if a.eof.replace(true) {
            return;
        }
        let s = self.led_s(a.sid);
        crate::ev!("app eof on {} after {}", a.sid, s.read);
        if !self.judged() {
            return;
        }
        let over = self.over() || self.open_dead.get();
        if s.rx_fin == 0 && s.rx_rst == 0 && !over {
            self.suspect(&["P01", "P03", "P18"], "end of stream while the writer is open", format!("stream {}: {s:?}", a.sid));
        }
        if s.read != s.rx_data && (!over || self.plan.conf[0].read_after_close) {
            let tags: &'static [&'static str] = if over { &["P15", "P14", "P01"] } else { &["P01", "P03", "P18", "P04"] };
            if self.plan.conf[0].read_after_close {
                violate(tags, "end of stream before all bytes", format!("stream {}: {s:?}", a.sid));
            } else {
                self.suspect(tags, "end of stream before all bytes", format!("stream {}: {s:?}", a.sid));
            }
        }
    }
    /// A violation, unless the call that is opening a stream ends the connection.
    fn suspect(&self, tags: &'static [&'static str], class: &'static str, msg: String) {
        if self.in_open.get() {
            self.suspects.borrow_mut().push((tags, class, msg));
        } else {
            violate(tags, class, msg);
        }
    }
    fn write_failed(&self, a: &AppStream, e: &std::io::Error) {
        let s = self.led_s(a.sid);
        if self.judged() && !self.over() && !self.open_dead.get() && s.rx_rst == 0 && !s.close_called {
            self.suspect(&["P01", "P18", "P03"], "write failed on an open stream", format!("stream {}: {e}; {s:?}", a.sid));
        }
    }
}

async fn lane(w: Rc<World>, a: Rc<AppStream>, reader: bool) {
    let l = if reader { &a.r } else { &a.w };
    loop {
        let op = poll_fn(|cx| {
            if a.quit.is_set() {
                return Poll::Ready(None);
            }
            match l.q.borrow_mut().pop_front() {
                Some(o) => Poll::Ready(Some(o)),
                None => {
                    l.go.register(cx);
                    a.quit.register(cx);
                    Poll::Pending
                }
            }
        })
        .await;
        let Some(op) = op else { return };
        *l.busy.borrow_mut() = Some(match op {
            Op::Write { .. } => "write",
            Op::Flush => "flush",
            Op::Close => "close",
            Op::Read { .. } => "read",
        });
        // None: the handle was dropped underneath.
        let quit = |cx: &mut Context<'_>| {
            if a.quit.is_set() {
                true
            } else {
                a.quit.register(cx);
                false
            }
        };
        match op {
            Op::Write { n, chunk } => {
                let end = a.off_w.get() + n;
                while a.off_w.get() < end {
                    // Much more than what one call can take costs time only.
                    let k = (chunk.max(1) as u64).min(end - a.off_w.get()).min(w.plan.conf[0].split.max(1) as u64 * 16);
                    let mut b = vec![0u8; k as usize];
                    content(key(w.plan.seed, a.sid, 0), a.off_w.get(), &mut b);
                    let r = poll_fn(|cx| {
                        if quit(cx) {
                            return Poll::Ready(None);
                        }
                        let mut g = a.t.lock();
                        let Some(t) = g.as_mut() else { return Poll::Ready(None) };
                        Pin::new(t).poll_write(cx, &b).map(Some)
                    })
                    .await;
                    match r {
                        None => return,
                        Some(Ok(n)) => a.off_w.set(a.off_w.get() + n as u64),
                        Some(Err(e)) => {
                            w.write_failed(&a, &e);
                            break;
                        }
                    }
                }
            }
            Op::Flush | Op::Close => {
                let close = matches!(op, Op::Close);
                let r = poll_fn(|cx| {
                    if quit(cx) {
                        return Poll::Ready(None);
                    }
                    let mut g = a.t.lock();
                    let Some(t) = g.as_mut() else { return Poll::Ready(None) };
                    if close { Pin::new(t).poll_close(cx).map(Some) } else { Pin::new(t).poll_flush(cx).map(Some) }
                })
                .await;
                match r {
                    None => return,
                    Some(Ok(())) => {}
                    Some(Err(e)) => {
                        if w.judged() && !w.over() && !w.open_dead.get() {
                            w.suspect(&["P03", "P02"], if close { "close failed" } else { "flush failed" }, format!("stream {}: {e}", a.sid));
                        }
                    }
                }
            }
            Op::Read { n, chunk, packet } => {
                let mut left = n;
                while left > 0 {
                    let mut b = vec![0u8; (chunk.max(1) as u64).min(left) as usize];
                    let r = poll_fn(|cx| {
                        if quit(cx) {
                            return Poll::Ready(None);
                        }
                        let mut g = a.t.lock();
                        let Some(t) = g.as_mut() else { return Poll::Ready(None) };
                        if packet {
                            t.poll_packet(cx).map(|r| Some(r.transpose()))
                        } else {
                            Pin::new(t).poll_read(cx, &mut b).map(|r| Some(r.map(|n| if n == 0 { None } else { Some(b[..n].to_vec()) })))
                        }
                    })
                    .await;
                    match r {
                        None => return,
                        Some(Ok(Some(v))) => {
                            left = left.saturating_sub(v.len() as u64);
                            w.got(&a, &v);
                        }
                        Some(Ok(None)) => {
                            w.got_eof(&a);
                            break;
                        }
                        Some(Err(e)) => {
                            violate(&["P01", "P14", "P15"], "read failed", format!("stream {}: {e}", a.sid));
                            break;
                        }
                    }
                }
            }
        }
        *l.busy.borrow_mut() = None;
    }
}

enum Out {
    In(Option<Result<Stream, ConnectionError>>),
    Opened(Result<Stream, ConnectionError>),
    Closed(Result<(), ConnectionError>),
    Drop,
}

fn on_opened(w: &Rc<World>, r: Result<Stream, ConnectionError>) {
    w.opens.set(w.opens.get().saturating_sub(1));
    match r {
        Ok(s) => {
            let sid = s.id().val();
            crate::ev!("opened {sid}");
            w.led.borrow_mut().opened(0, sid);
            if !s.is_pending_ack() && w.judged() && !w.over() {
                violate(&["P10"], "new stream not pending acknowledgement", format!("stream {sid}"));
            }
            w.add_stream(s, true);
        }
        Err(e) => {
            crate::ev!("open failed: {e}");
            if w.judged() && !w.over() {
                let (live, last) = {
                    let l = w.led.borrow();
                    let live = l.sides[0].streams.values().filter(|s| (s.opened || s.surfaced) && !s.dropped).count();
                    (live as u64, l.sides[0].last_id)
                };
                let max = w.plan.conf[0].max_streams as u64;
                match e {
                    ConnectionError::TooManyStreams => {
                        sched::count("probe_too_many_streams");
                        if live < max && w.exact.get() {
                            violate(&["P11", "P04"], "open refused below the stream limit", format!("{live} live streams, limit {max}"));
                        }
                    }
                    ConnectionError::NoMoreStreamIds => {
                        sched::count("probe_ids_exhausted");
                        if last < u32::MAX - 5 {
                            violate(&["P09"], "identifiers exhausted too early", format!("last identifier {last}"));
                        }
                    }
                    ref e => violate(&["P02", "P15", "P09", "P11"], "open failed", e.to_string()),
                }
            }
            w.open_killed.set(true);
        }
    }
}

fn on_inbound(w: &Rc<World>, s: Stream) {
    let sid = s.id().val();
    crate::ev!("accepted {sid}");
    w.led.borrow_mut().surfaced(0, sid);
    if w.judged() && !s.is_pending_ack() && w.led_s(sid).rx_fin == 0 && w.led_s(sid).rx_rst == 0 && !w.over() {
        violate(&["P10"], "accepted stream already acknowledged", format!("stream {sid}"));
    }
    w.add_stream(s, false);
}

/// Opening a stream may end the connection, which others can see before the call is over.
fn poll_open(w: &Rc<World>, conn: &mut Conn, cx: &mut std::task::Context<'_>) -> Poll<Result<Stream, ConnectionError>> {
    w.in_open.set(true);
    let r = counted(|| conn.poll_new_outbound(cx));
    w.in_open.set(false);
    let s = std::mem::take(&mut *w.suspects.borrow_mut());
    if matches!(r, Poll::Ready(Err(_))) {
        w.open_dead.set(true);
    } else {
        for (t, c, m) in s {
            violate(t, c, m);
        }
    }
    r
}

async fn driver(w: Rc<World>) {
    let drive = w.plan.conf[0].drive;
    loop {
        let o = poll_fn(|cx| {
            w.cmd.register(cx);
            if w.drop_req.get() {
                return Poll::Ready(Out::Drop);
            }
            let mut g = w.conn.lock();
            let conn = g.as_mut().unwrap();
            if w.close_req.get() {
                w.led.borrow_mut().sides[0].close_called = true;
                w.closing_op.set(true);
                return counted(|| conn.poll_close(cx)).map(Out::Closed);
            }
            if drive == 2 && w.opens.get() > 0 {
                if let Poll::Ready(r) = poll_open(&w, conn, cx) {
                    return Poll::Ready(Out::Opened(r));
                }
            }
            if let Poll::Ready(r) = counted(|| conn.poll_next_inbound(cx)) {
                return Poll::Ready(Out::In(r));
            }
            if drive == 1 && w.opens.get() > 0 {
                if let Poll::Ready(r) = poll_open(&w, conn, cx) {
                    return Poll::Ready(Out::Opened(r));
                }
            }
            Poll::Pending
        })
        .await;
        match o {
            Out::In(Some(Ok(s))) => on_inbound(&w, s),
            Out::Opened(r) => on_opened(&w, r),
            Out::In(None) => {
                *w.report.borrow_mut() = Some(None);
                break;
            }
            Out::In(Some(Err(e))) => {
                *w.report.borrow_mut() = Some(Some(e.to_string()));
                break;
            }
            Out::Closed(r) => {
                w.closing_op.set(false);
                *w.closed.borrow_mut() = Some(r.map_err(|e| e.to_string()));
                break;
            }
            Out::Drop => {
                let c = w.conn.lock().take();
                counted(|| drop(c));
                break;
            }
        }
    }
    w.led.borrow_mut().sides[0].ended = true;
    w.ended.set(true);
    crate::ev!("connection ended: report {:?} closed {:?}", w.report.borrow(), w.closed.borrow());
    for _ in 0..2 {
        let bad = poll_fn(|cx| {
            let mut g = w.conn.lock();
            let Some(conn) = g.as_mut() else { return Poll::Ready(None) };
            if !matches!(counted(|| conn.poll_next_inbound(cx)), Poll::Ready(None)) {
                return Poll::Ready(Some("poll_next_inbound does not report the end again"));
            }
            if !matches!(counted(|| conn.poll_new_outbound(cx)), Poll::Ready(Err(ConnectionError::Closed))) {
                return Poll::Ready(Some("poll_new_outbound does not fail as closed"));
            }
            if !matches!(counted(|| conn.poll_close(cx)), Poll::Ready(Ok(()))) {
                return Poll::Ready(Some("poll_close does not succeed"));
            }
            Poll::Ready(None)
        })
        .await;
        if let Some(b) = bad {
            violate(&["P15", "P14"], "end of connection not final", b);
        }
    }
    if w.plan.conf[0].drop_when_ended {
        let c = w.conn.lock().take();
        counted(|| drop(c));
    }
}

/// Opens streams from a task of its own.
async fn opener(w: Rc<World>) {
    loop {
        let r = poll_fn(|cx| {
            w.cmd.register(cx);
            if w.done.get() {
                return Poll::Ready(None);
            }
            // Whoever gets here has been woken.
            w.open_waiting.set(false);
            let mut g = w.conn.lock();
            if w.opens.get() == 0 || w.close_req.get() || w.drop_req.get() {
                return Poll::Pending;
            }
            match g.as_mut() {
                None => Poll::Pending,
                Some(conn) => match poll_open(&w, conn, cx) {
                    Poll::Ready(r) => Poll::Ready(Some(r)),
                    Poll::Pending => {
                        w.open_waiting.set(true);
                        Poll::Pending
                    }
                },
            }
        })
        .await;
        w.open_waiting.set(false);
        match r {
            None => return,
            Some(r) => on_opened(&w, r),
        }
    }
}

async fn peer_tx(w: Rc<World>) {
    loop {
        let chunk = poll_fn(|cx| {
            let mut p = w.peer.borrow_mut();
            if !p.q.is_empty() {
                let n = p.q.len().min(64 * 1024);
                return Poll::Ready(Some(p.q.drain(..n).collect::<Vec<u8>>()));
            }
            if p.eof.is_some() {
                return Poll::Ready(None);
            }
            w.tx_ev.register(cx);
            Poll::Pending
        })
        .await;
        let Some(chunk) = chunk else { break };
        let mut off = 0;
        while off < chunk.len() {
            let r = poll_fn(|cx| match w.pend.borrow_mut().as_mut() {
                Some(e) => e.write(cx, &chunk[off..]).map(Some),
                None => Poll::Ready(None),
            })
            .await;
            match r {
                Some(Ok(n)) if n > 0 => {
                    off += n;
                    let mut p = w.peer.borrow_mut();
                    p.sent += n as u64;
                    if p.sent <= p.scripted {
                        sched::progress();
                    }
                }
                _ => return,
            }
        }
        let r = poll_fn(|cx| match w.pend.borrow_mut().as_mut() {
            Some(e) => e.flush(cx).map(Some),
            None => Poll::Ready(None),
        })
        .await;
        if !matches!(r, Some(Ok(()))) {
            return;
        }
    }
    let hard = w.peer.borrow().eof == Some(true);
    if hard {
        let e = w.pend.borrow_mut().take();
        drop(e);
        w.rx_ev.poke();
    } else {
        let _ = poll_fn(|cx| match w.pend.borrow_mut().as_mut() {
            Some(e) => e.close(cx).map(Some),
            None => Poll::Ready(None),
        })
        .await;
    }
    w.peer.borrow_mut().closed = true;
}

async fn peer_rx(w: Rc<World>) {
    let mut parser = Parser::default();
    let mut buf = vec![0u8; 32 * 1024];
    loop {
        let r = poll_fn(|cx| {
            w.rx_ev.register(cx);
            if w.peer.borrow().stalled {
                return Poll::Pending;
            }
            match w.pend.borrow_mut().as_mut() {
                Some(e) => e.read(cx, &mut buf).map(Some),
                None => Poll::Ready(None),
            }
        })
        .await;
        match r {
            Some(Ok(n)) if n > 0 => parser.feed(&buf[..n], &mut |e| w.peer_frame(e)),
            _ => return,
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter_map(|c| (c as char).to_digit(16).map(|d| d as u8)).collect();
    b.chunks(2).map(|c| if c.len() == 2 { c[0] << 4 | c[1] } else { c[0] << 4 }).collect()
}

impl World {
    fn enter_chaos(&self) {
        if !self.chaos.replace(true) {
            self.led.borrow_mut().chaos = true;
            sched::count("fault_hostile_peer");
        }
    }
    fn raw(&self, b: &[u8]) {
        let mut p = self.peer.borrow_mut();
        if p.eof.is_none() {
            p.scripted += b.len() as u64;
            p.q.extend(b);
        }
        drop(p);
        self.tx_ev.poke();
    }

    fn bad(&self, kind: u8, s: u32, v: u32, flags: u16) {
        if self.over() || self.peer.borrow().stalled || self.chaos.get() {
            return;
        }
        let client = self.plan.client;
        let extra = flags & (FIN);
        let own = |x: u32| if client { x | 1 } else { (x & !1).max(2) };
        let led = self.led.borrow();
        let live: Vec<u32> = led.sides[0].streams.iter().filter(|(_, s)| (s.opened || s.surfaced) && !s.dropped).map(|x| *x.0).collect();
        let st = if live.is_empty() { None } else { Some(live[s as usize % live.len()]) };
        let sst = st.map(|i| led.sides[0].streams[&i].clone());
        let probe = led.sides[0].ping_out;
        let max = led.sides[0].max_streams;
        drop(led);
        let body = |n: u32| vec![0xEEu8; n as usize];
        let mut name = "bad";
        let mut sent = true;
        match kind {
            // A new stream with an identifier of the endpoint's own parity.
            0 | 1 => {
                name = "fault_bad_parity";
                let mut id = own(1000 + 2 * (v % 10_000));
                while self.led_s(id).opened {
                    id += 2;
                }
                if kind == 0 {
                    self.send(Hdr::new(DATA, SYN | extra, id, v % 100), &body(v % 100), false);
                } else {
                    self.send(Hdr::new(WU, SYN | extra, id, v), &[], false);
                }
            }
            2 | 3 => {
                name = "fault_bad_id_zero";
                if kind == 2 {
                    self.send(Hdr::new(DATA, SYN | extra, 0, v % 100), &body(v % 100), false);
                } else {
                    self.send(Hdr::new(WU, SYN | extra, 0, v % 100), &[], false);
                }
            }
            4 | 5 => {
                name = "fault_bad_id_in_use";
                // Only identifiers of the peer's own parity: the others are case 0.
                let Some(id) = live.iter().copied().filter(|i| (i % 2 == 1) != client).nth(s as usize % live.len().max(1)).or(live.iter().copied().find(|i| (i % 2 == 1) != client)) else { return };
                if kind == 4 {
                    self.send(Hdr::new(DATA, SYN | extra, id, v % 100), &body(v % 100), false);
                } else {
                    self.send(Hdr::new(WU, SYN | extra, id, v), &[], false);
                }
            }
            // More data than the window has left.
            6 => {
                name = "fault_bad_over_window";
                let (Some(id), Some(ss)) = (st, sst) else { return };
                if ss.rx_fin > 0 || ss.rx_rst > 0 {
                    return;
                }
                let n = CREDIT0 + ss.tx_credit - ss.rx_data + 1 + (v as u64 % 3) * 1000;
                if n > wire::MAX_BODY as u64 {
                    return;
                }
                self.send(Hdr::new(DATA, extra, id, n as u32), &body(n as u32), false);
            }
            // Credit that overflows the window.
            7 => {
                name = "fault_bad_credit_overflow";
                let (Some(id), Some(ss)) = (st, sst) else { return };
                let win = CREDIT0 + ss.rx_credit - ss.written;
                if win == 0 {
                    return;
                }
                let n = (u32::MAX as u64 - win + 1 + (v as u64 % 1000)).min(u32::MAX as u64) as u32;
                self.send(Hdr::new(WU, extra, id, n), &[], false);
            }
            // Ping answers nobody asked for.
            8 => {
                name = "fault_bad_pong";
                let id = match probe {
                    None => v,
                    Some((p, _)) if p != v => v,
                    Some((p, _)) => p.wrapping_add(1),
                };
                self.send(Hdr::new(PING, ACK, 0, id), &[], false);
            }
            9 => {
                name = "fault_bad_first_body";
                let id = self.fresh_id(0);
                let n = CREDIT0 as u32 + 1 + v % 1000;
                self.send(Hdr::new(DATA, SYN | extra, id, n), &body(n), false);
            }
            10 => {
                name = "fault_bad_initial_credit";
                let id = self.fresh_id(0);
                let n = u32::MAX - CREDIT0 as u32 + 1 + v % (CREDIT0 as u32);
                self.send(Hdr::new(WU, SYN | extra, id, n), &[], false);
            }
            11 | 12 => {
                name = "fault_bad_too_many";
                if (live.len() as u64) < max {
                    return;
                }
                let id = self.fresh_id(0);
                if kind == 11 {
                    self.send(Hdr::new(DATA, SYN | extra, id, v % 100), &body(v % 100), false);
                } else {
                    self.send(Hdr::new(WU, SYN | extra, id, v % 100), &[], false);
                }
            }
            // Undecodable or oversized: nothing can follow.
            13 | 14 | 15 => {
                name = "fault_bad_undecodable";
                let mut h = Hdr::new(DATA, flags & 15, st.unwrap_or(7), v % 1000);
                match kind {
                    13 => h.ver = 1 + (v % 255) as u8,
                    14 => h.ty = 4 + (v % 252) as u8,
                    _ => {
                        name = "fault_bad_oversized";
                        h.len = wire::MAX_BODY + 1 + (v % 3) * 0x1000_0000;
                    }
                }
                self.fatal.set(true);
                self.send(h, &[], false);
                self.peer.borrow_mut().garbage = true;
                sent = false;
            }
            _ => return,
        }
        sched::count(name);
        if sent {
            self.bad.set(self.bad.get() + 1);
        }
    }

    /// The system has come to rest: compare with the model.
    fn idle_check(&self) {
        let (stalled, eof) = {
            let p = self.peer.borrow();
            (p.stalled, p.eof.is_some())
        };
        let over = self.over();
        self.memory_check();
        let tight = !stalled && !over && self.judged();
        let streams: Vec<_> = self.streams.borrow().clone();
        // Everyone who waits must have a reason to.
        for a in &streams {
            if !a.held.get() {
                continue;
            }
            let s = self.led_s(a.sid);
            for l in [&a.w, &a.r] {
                let Some(k) = *l.busy.borrow() else { continue };
                let what = || format!("stream {}: {k} waits; {s:?} stalled {stalled} over {over}", a.sid);
                if self.ended.get() || self.closing_op.get() {
                    let tags: &[&str] = if self.close_req.get() { &["P14", "P15"] } else { &["P15"] };
                    violate(tags, format!("{k} stuck after the end"), what());
                    continue;
                }
                if !self.judged() || over {
                    continue;
                }
                match k {
                    "read" => {
                        if s.rx_data > s.read {
                            violate(&["P02", "P01", "P18"], "read stuck with unread data", what());
                        } else if s.rx_rst > 0 {
                            violate(&["P04", "P18", "P02"], "read stuck after reset", what());
                        } else if s.rx_fin > 0 {
                            violate(&["P03", "P18", "P02"], "read stuck after end of stream", what());
                        }
                    }
                    "write" => {
                        if s.rx_rst > 0 {
                            violate(&["P04", "P18", "P02"], "write stuck after reset", what());
                        } else if s.written < CREDIT0 + s.rx_credit && !stalled {
                            violate(&["P05", "P02", "P18"], "write stuck with credit", what());
                        } else if !stalled {
                            sched::count("probe_credit_exhausted");
                        }
                    }
                    _ => {
                        if !stalled {
                            violate(&["P02", "P03"], format!("{k} stuck"), what());
                        }
                    }
                }
            }
        }
        let led = self.led.borrow();
        let sd = &led.sides[0];
        if self.opens.get() > 0 && tight {
            let waiting = sd.streams.iter().filter(|(id, s)| (**id % 2 == 1) == sd.client && s.opened && s.rx_ack == 0 && s.rx_fin == 0 && s.rx_rst == 0 && !s.dropped && !s.close_called).count();
            if waiting < 256 {
                violate(&["P10", "P02"], "open stuck", format!("{waiting} unacknowledged streams"));
            } else {
                sched::count("probe_open_waits_for_ack");
            }
        }
        if self.opens.get() > 0 && self.open_waiting.get() && self.ended.get() {
            violate(&["P15", "P10"], "open stuck after the end", String::new());
        }
        if self.closing_op.get() && !stalled && !self.chaos.get() {
            violate(&["P14", "P02"], "close of the connection stuck", format!("{} bytes in flight to the peer", self.net.borrow().in_flight(1)));
        }
        if self.judged() {
            let refusals = sd.goaway_tx.iter().filter(|g| **g != 0).count() as u32;
            if refusals > self.bad.get() {
                violate(&["P18", "P12", "P17", "P05"], "legal frame refused", format!("go-away sent: {:?} for {} violations", sd.goaway_tx, self.bad.get()));
            }
            if tight && refusals < self.bad.get() {
                violate(&["P12"], "violation not refused", format!("go-away sent: {:?} for {} violations", sd.goaway_tx, self.bad.get()));
            }
        }
        // Ends that must have been noticed.
        let net = self.net.borrow();
        if (eof || !sd.goaway_rx.is_empty() || self.fatal.get()) && !self.ended.get() && !self.open_dead.get() && !stalled && !self.chaos.get() && self.peer.borrow().q.is_empty() && !self.closing_op.get() && !self.drop_req.get() {
            violate(&["P15", "P12"], "end not noticed", format!("eof {eof} go-away {:?} fatal {}", sd.goaway_rx, self.fatal.get()));
        }
        if !tight {
            return;
        }
        self.reclaimed.borrow_mut().extend(sd.streams.iter().filter(|(_, s)| s.dropped).map(|x| *x.0));
        if net.errored(0) {
            return;
        }
        if net.unflushed(0) > 0 {
            violate(&["P16", "P02"], "idle with unflushed bytes", format!("{}", net.unflushed(0)));
        }
        if !net.tx_boundary(0) {
            violate(&["P16", "P02"], "idle in the middle of a frame", String::new());
        }
        if sd.pings_due.iter().any(|x| x.1) {
            violate(&["P17", "P18", "P02"], "ping never answered", format!("{:?}", sd.pings_due));
        }
        drop(net);
        let mut list: Vec<(u32, wire::S)> = sd.streams.iter().map(|(a, b)| (*a, b.clone())).collect();
        list.retain(|x| !sd.client == (x.0 % 2 == 1) || x.1.opened);
        drop(led);
        for (sid, s) in list {
            let local = s.opened;
            if !local && s.rx_syn > 0 && !s.surfaced && s.rx_rst == 0 {
                violate(&["P18", "P01"], "announced stream never surfaced", format!("stream {sid}: {s:?}"));
                continue;
            }
            if !s.opened && !s.surfaced {
                continue;
            }
            if s.tx_data != s.written {
                violate(&["P02", "P16", "P04", "P18", "P01"], "accepted bytes never sent", format!("stream {sid}: {s:?}"));
            }
            if s.wclosed && s.tx_fin == 0 && s.rx_rst == 0 {
                violate(&["P03"], "close not announced", format!("stream {sid}: {s:?}"));
            }
            if s.dropped && !s.wclosed && s.tx_fin + s.tx_rst == 0 && s.rx_rst == 0 && (s.surfaced || s.tx_frames > 0) {
                violate(&["P04"], "drop not announced", format!("stream {sid}: {s:?}"));
            }
            let Some(a) = self.app(sid) else { continue };
            if !a.held.get() {
                continue;
            }
            // Credit.
            if s.rx_fin == 0 && s.rx_rst == 0 && a.r.busy.borrow().is_some() && s.read == s.rx_data {
                let out = CREDIT0 + s.tx_credit - s.rx_data;
                if out < s.wmin.max(CREDIT0) / 2 {
                    violate(&["P06", "P05"], "no credit granted for consumed bytes", format!("stream {sid}: {out} bytes of credit left, everything read; {s:?}"));
                }
            }
            // Reported state.
            let g = a.t.lock();
            let Some(t) = g.as_ref() else { continue };
            let st = t.inner();
            let (wc, c, pa) = (st.is_write_closed(), st.is_closed(), st.is_pending_ack());
            drop(g);
            let closed = s.rx_rst > 0 || (s.wclosed && s.rx_fin > 0);
            let wclosed = s.wclosed && !closed;
            if a.w.busy.borrow().is_none() {
                if c != closed {
                    violate(&["P03", "P18", "P04"], "is_closed wrong", format!("stream {sid}: {c}; {s:?}"));
                }
                if wc != wclosed {
                    violate(&["P03", "P18"], "is_write_closed wrong", format!("stream {sid}: {wc}; {s:?}"));
                }
            }
            let acked = if local { s.rx_ack > 0 } else { s.tx_ack > 0 };
            let settled = s.rx_fin > 0 || s.rx_rst > 0 || s.close_called;
            if pa && (acked || settled) {
                violate(&["P10"], "still pending acknowledgement", format!("stream {sid}: {s:?}"));
            }
            if !pa && !acked && !settled {
                violate(&["P10"], "not pending acknowledgement", format!("stream {sid}: {s:?}"));
            }
        }
    }

    fn memory_check(&self) {
        let (live, peak, biggest) = sys::mem();
        let mut bound = 1_600_000i64;
        let led = self.led.borrow();
        for s in led.sides[0].streams.values() {
            if s.opened || s.surfaced {
                bound += 8_192;
                if !s.dropped {
                    bound += 16_384;
                    // Unread bytes within the advertised window; a byte received alone costs a chunk.
                    let win = (CREDIT0 + s.tx_credit).saturating_sub(s.read);
                    let unread = if self.chaos.get() { win.min(s.rx_data.max(s.rx_data.saturating_sub(s.read))) } else { s.rx_data.saturating_sub(s.read) };
                    bound += 80 * unread.min(win) as i64;
                }
                bound += 3 * s.written.saturating_sub(s.tx_data) as i64;
            }
        }
        if live > bound {
            violate(&["P13"], "memory", format!("{live} bytes live (peak {peak}), at most {bound} are explained by windows, streams and one frame"));
        }
        // One frame, or a table with an entry per frame received.
        let most = 1_200_000 + 8 * self.peer.borrow().sent as usize;
        if biggest > most {
            violate(&["P13"], "single allocation", format!("{biggest} bytes requested at once, at most {most} are explained by what was received"));
        }
    }

    /// Streams opened by the peer that have not surfaced yet.
    fn coming(&self) -> u64 {
        self.peer.borrow().st.iter().filter(|(i, p)| p.mine && self.app(**i).is_none() && !p.never).count() as u64
    }

    /// Streams that may count for the endpoint's limit.
    fn occupied(&self) -> u64 {
        let gone = self.reclaimed.borrow();
        let l = self.led.borrow();
        let live = l.sides[0].streams.iter().filter(|(i, s)| (s.opened || s.surfaced) && !(s.dropped && gone.contains(*i))).count();
        live as u64 + self.opens.get() as u64 + self.coming()
    }

    async fn step(self: &Rc<Self>, st: &Step) {
        crate::ev!("step {st:?}");
        sched::progress();
        let w = self;
        match st {
            Step::POpen { wu, credit, n, fin, skip } => {
                let max = w.plan.conf[0].max_streams as u64;
                if w.occupied() >= max && !w.chaos.get() && !w.peer.borrow().stalled {
                    // Handles dropped lately count until the endpoint has taken notice.
                    sched::wait_idle().await;
                    w.idle_check();
                }
                if w.occupied() >= max && !w.chaos.get() {
                    return;
                }
                let id = w.fresh_id(*skip);
                if id >= u32::MAX - 4 {
                    return;
                }
                w.with_ps(id, |p| {
                    p.mine = true;
                    p.fin = *fin;
                });
                let fl = SYN | if *fin { FIN } else { 0 };
                if *wu {
                    w.with_ps(id, |p| p.granted += *credit as u64);
                    w.send(Hdr::new(WU, fl, id, *credit), &[], true);
                } else {
                    let n = (*n as u64).min(CREDIT0);
                    let mut b = vec![0u8; n as usize];
                    content(key(w.plan.seed, id, 1), 0, &mut b);
                    w.with_ps(id, |p| p.sent = n);
                    w.send(Hdr::new(DATA, fl, id, n as u32), &b, true);
                }
            }
            Step::POpenRst { wu } => {
                let id = w.fresh_id(0);
                w.with_ps(id, |p| {
                    p.mine = true;
                    p.rst = true;
                    p.never = true;
                });
                w.send(Hdr::new(if *wu { WU } else { DATA }, SYN | RST, id, 0), &[], true);
            }
            Step::PData { s, n, chunk, fin } => {
                if let Some(id) = w.pick(*s, |_, p| !p.fin && !p.rst && !p.rx_rst) {
                    w.data(id, *n as u64, *chunk, *fin);
                }
            }
            Step::PCredit { s, n, fin } => {
                if let Some(id) = w.pick(*s, |_, p| !p.rst && !p.rx_rst) {
                    let n = w.with_ps(id, |p| {
                        let n = (*n as u64).min((u32::MAX as u64).saturating_sub(p.granted)) as u32;
                        p.granted += n as u64;
                        n
                    });
                    let mut fl = w.ackflag(id);
                    if *fin && !w.with_ps(id, |p| p.fin) {
                        fl |= FIN;
                        w.with_ps(id, |p| p.fin = true);
                    }
                    w.send(Hdr::new(WU, fl, id, n), &[], true);
                }
            }
            Step::PFin { s, wu } => {
                if let Some(id) = w.pick(*s, |_, p| !p.fin && !p.rst && !p.rx_rst) {
                    w.with_ps(id, |p| p.fin = true);
                    let fl = w.ackflag(id) | FIN;
                    w.send(Hdr::new(if *wu { WU } else { DATA }, fl, id, 0), &[], true);
                }
            }
            Step::PRst { s, wu } => {
                if let Some(id) = w.pick(*s, |_, p| !p.rst) {
                    w.with_ps(id, |p| p.rst = true);
                    w.send(Hdr::new(if *wu { WU } else { DATA }, RST, id, 0), &[], true);
                }
            }
            Step::PAck { s, how, n } => {
                if let Some(id) = w.pick(*s, |_, p| !p.mine && !p.acked && !p.rst && !p.rx_rst && !p.fin) {
                    let fl = w.ackflag(id);
                    match how {
                        0 => {
                            w.with_ps(id, |p| p.granted += *n as u64 & 0xff_ffff);
                            w.send(Hdr::new(WU, fl, id, *n & 0xff_ffff), &[], true)
                        }
                        1 => w.send(Hdr::new(DATA, fl, id, 0), &[], true),
                        _ => {
                            w.with_ps(id, |p| p.fin = true);
                            w.send(Hdr::new(DATA, fl | FIN, id, 0), &[], true)
                        }
                    }
                }
            }
            Step::PPing { v } => w.send(Hdr::new(PING, SYN, 0, *v), &[], true),
            Step::PPong => w.pong(),
            Step::PGoAway { code } => {
                w.send(Hdr::new(GOAWAY, 0, 0, *code), &[], true);
                sched::count("fault_goaway");
            }
            Step::PEof { partial } => w.eof(*partial, false),
            Step::PStall => {
                w.peer.borrow_mut().stalled = true;
                sched::count("fault_peer_stops_reading");
            }
            Step::PResume => {
                w.peer.borrow_mut().stalled = false;
                w.rx_ev.poke();
            }
            Step::Bad { kind, s, v, flags } => {
                sched::wait_idle().await;
                w.bad(*kind, *s, *v, *flags);
                sched::wait_idle().await;
                w.idle_check();
            }
            Step::Late { s, kind, n } => {
                let id = w.pick(*s, |i, p| !p.fin && !p.rst && w.app(i).is_some_and(|a| !a.held.get()));
                if let Some(id) = id {
                    sched::count("probe_late_frame");
                    match kind {
                        0 => w.data(id, *n as u64, 16384, false),
                        1 => w.data(id, *n as u64, 16384, true),
                        2 => {
                            w.with_ps(id, |p| p.granted += *n as u64 & 0xffff);
                            let fl = w.ackflag(id);
                            w.send(Hdr::new(WU, fl, id, *n & 0xffff), &[], true)
                        }
                        _ => {
                            w.with_ps(id, |p| p.rst = true);
                            w.send(Hdr::new(DATA, RST, id, 0), &[], true)
                        }
                    }
                }
            }
            Step::Raw { hex, times } => {
                w.enter_chaos();
                let b = unhex(hex);
                for _ in 0..*times {
                    w.raw(&b);
                }
            }
            Step::Wild { ty, flags, sid, len, body, times } => {
                w.enter_chaos();
                let h = Hdr { ver: 0, ty: *ty, flags: *flags, sid: *sid, len: *len };
                let mut b = h.encode().to_vec();
                b.extend(vec![0x55u8; *body as usize]);
                let climb = *flags & SYN != 0 && *times > 1;
                for i in 0..*times {
                    if climb {
                        // A flood of new streams.
                        b[4..8].copy_from_slice(&sid.wrapping_add(2 * i).to_be_bytes());
                    }
                    w.raw(&b);
                }
            }
            Step::AOpen => {
                // An open must not take the place of a stream that is on its way.
                let race = w.coming() > 0 && w.occupied() >= w.plan.conf[0].max_streams as u64;
                if !w.over() && (!race || w.chaos.get()) {
                    w.opens.set(w.opens.get() + 1);
                    w.cmd.poke();
                }
            }
            Step::AWrite { s, n, chunk } => {
                if let Some(a) = w.app_pick(*s) {
                    a.w.q.borrow_mut().push_back(Op::Write { n: *n as u64, chunk: *chunk });
                    a.w.go.poke();
                }
            }
            Step::ARead { s, n, chunk, packet } => {
                if let Some(a) = w.app_pick(*s) {
                    a.r.q.borrow_mut().push_back(Op::Read { n: *n as u64, chunk: *chunk, packet: *packet });
                    a.r.go.poke();
                }
            }
            Step::ARead1 { s, n } => {
                if let Some(a) = w.app_pick(*s) {
                    if a.r.busy.borrow().is_none() && a.r.q.borrow().is_empty() && *n > 0 {
                        let exact = w.exact.get() && w.judged() && !w.over() && !w.peer.borrow().stalled;
                        let before = w.led_s(a.sid);
                        let mut b = vec![0u8; *n as usize];
                        let r = poll_fn(|cx| {
                            let mut g = a.t.lock();
                            Poll::Ready(Pin::new(g.as_mut().unwrap()).poll_read(cx, &mut b))
                        })
                        .await;
                        match r {
                            Poll::Pending => {
                                if exact && (before.rx_data > before.read || before.rx_fin + before.rx_rst > 0) {
                                    violate(&["P02", "P01", "P18"], "read pending with unread data or end of stream", format!("stream {}: {before:?}", a.sid));
                                }
                            }
                            Poll::Ready(Ok(0)) => w.got_eof(&a),
                            Poll::Ready(Ok(n)) => w.got(&a, &b[..n]),
                            Poll::Ready(Err(e)) => violate(&["P01", "P14", "P15"], "read failed", format!("stream {}: {e}", a.sid)),
                        }
                    }
                }
            }
            Step::AFlush { s } => {
                if let Some(a) = w.app_pick(*s) {
                    a.w.q.borrow_mut().push_back(Op::Flush);
                    a.w.go.poke();
                }
            }
            Step::AClose { s } => {
                if let Some(a) = w.app_pick(*s) {
                    a.w.q.borrow_mut().push_back(Op::Close);
                    a.w.go.poke();
                }
            }
            Step::ADrop { s } => {
                if let Some(a) = w.app_pick(*s) {
                    w.release(&a);
                }
            }
            Step::CClose => {
                if !w.ended.get() {
                    w.close_req.set(true);
                    w.cmd.poke();
                }
            }
            Step::CDrop => {
                if !w.ended.get() {
                    w.drop_req.set(true);
                    w.cmd.poke();
                    sched::count("fault_connection_dropped");
                }
            }
            Step::Idle => {
                sched::wait_idle().await;
                w.idle_check();
            }
            Step::Sleep { us } => sched::sleep(*us as u64 * 1000).await,
        }
    }
    fn eof(&self, partial: u32, hard: bool) {
        let mut p = self.peer.borrow_mut();
        if p.eof.is_some() {
            return;
        }
        if partial > 0 && !p.garbage {
            // The beginning of a data frame of 100 bytes.
            let mut b = Hdr::new(DATA, 0, 1, 100).encode().to_vec();
            b.extend([0u8; 100]);
            let n = (partial as usize).min(b.len() - 1);
            p.scripted += n as u64;
            p.q.extend(&b[..n]);
            p.sent_partial = true;
            sched::count("fault_truncated");
        }
        p.eof = Some(hard);
        drop(p);
        sched::count("fault_peer_eof");
        self.tx_ev.poke();
    }
}

async fn script(w: Rc<World>) {
    sched::wait_idle().await;
    for (i, st) in w.plan.steps.clone().iter().enumerate() {
        w.exact.set(w.plan.sync);
        w.step(st).await;
        if w.plan.sync || i % 64 == 63 {
            if !(w.plan.sync && matches!(st, Step::Sleep { .. })) {
                sched::wait_idle().await;
                w.idle_check();
            }
        }
    }
    sched::wait_idle().await;
    w.idle_check();
    // Release a stalled transport, then judge again.
    if w.peer.borrow().stalled {
        w.peer.borrow_mut().stalled = false;
        w.rx_ev.poke();
        sched::wait_idle().await;
        w.idle_check();
    }
    if w.plan.end[1].how != 0 {
        w.eof(0, w.plan.end[1].how == 3);
        sched::wait_idle().await;
        w.idle_check();
    }
    w.done.set(true);
    w.cmd.poke();
}

pub fn build(plan: &Plan) -> Rc<World> {
    let led = Rc::new(RefCell::new(Ledger::default()));
    {
        let c = &plan.conf[0];
        let mut l = led.borrow_mut();
        let sd = &mut l.sides[0];
        sd.real = true;
        sd.client = plan.client;
        sd.split = c.split as u64;
        sd.limit = c.extra_kib.map(|x| c.max_streams as u64 * CREDIT0 + x as u64 * 1024);
        sd.max_streams = c.max_streams as u64;
        l.sides[1].client = !plan.client;
        l.exact = plan.sync && plan.sched.gap == 0 && plan.sched.step_ns == 0;
    }
    let net = net::new(&plan.net, led.clone(), [true, false]);
    let (a, b) = net::ends(&net);
    crate::first_id(plan.ids_left.map(|k| {
        let last = if plan.client { u32::MAX - 2 } else { u32::MAX - 3 };
        last - 2 * k.clamp(1, 1000) + 2
    }));
    let mode = if plan.client { Mode::Client } else { Mode::Server };
    sys::mem_reset();
    let conn = counted(|| Connection::new(a, crate::duo::config(&plan.conf[0]), mode));
    crate::first_id(None);
    let w = Rc::new(World {
        plan: plan.clone(),
        led,
        net,
        conn: Mutex::new(Some(conn)),
        cmd: Event::new(),
        close_req: Cell::new(false),
        drop_req: Cell::new(false),
        ended: Cell::new(false),
        report: RefCell::new(None),
        closed: RefCell::new(None),
        opens: Cell::new(0),
        open_waiting: Cell::new(false),
        open_killed: Cell::new(false),
        exact: Cell::new(false),
        in_open: Cell::new(false),
        open_dead: Cell::new(false),
        suspects: Default::default(),
        reclaimed: Default::default(),
        chaos: Cell::new(false),
        bad: Cell::new(0),
        fatal: Cell::new(false),
        streams: RefCell::new(vec![]),
        peer: RefCell::new(Peer { next_id: if plan.client { 2 } else { 1 }, ..Default::default() }),
        pend: RefCell::new(Some(b)),
        tx_ev: Event::default(),
        rx_ev: Event::default(),
        closing_op: Cell::new(false),
        done: Cell::new(false),
    });
    spawn(0, "driver", driver(w.clone()));
    if plan.conf[0].drive == 0 {
        spawn(0, "opener", opener(w.clone()));
    }
    spawn(1, "peer.tx", peer_tx(w.clone()));
    spawn(1, "peer.rx", peer_rx(w.clone()));
    spawn(1, "script", script(w.clone()));
    w
}

pub fn finalize(w: &Rc<World>, end: End) {
    match end {
        End::Stopped => return,
        End::Cap => return,
        End::Livelock => {
            violate(ALL, "no end in sight", format!("no progress for {} steps", sched::STALL));
            return;
        }
        End::Quiescent => {}
    }
    let stuck: BTreeSet<_> = sched::unfinished().into_iter().filter(|x| x.1).collect();
    if !stuck.is_empty() {
        violate(ALL, "lock deadlock", format!("{stuck:?}"));
        return;
    }
    if !w.done.get() {
        violate(ALL, "script stuck", String::new());
        return;
    }
    w.memory_check();
    let net = w.net.borrow();
    let led = w.led.borrow();
    let sd = &led.sides[0];
    let p = w.peer.borrow();
    let errored = net.errored(0);
    let goaway = !sd.goaway_rx.is_empty();
    if let Some(rep) = w.report.borrow().as_ref() {
        let what = format!("report {rep:?}; transport error {errored}, go-away {:?}, truncated {}, undecodable {}", sd.goaway_rx, p.sent_partial, w.fatal.get());
        let truncated = p.sent_partial || !net.rx_boundary(0);
        if w.judged() && !w.open_killed.get() {
            let must_err = (errored || truncated || w.fatal.get()) && !goaway;
            if must_err && rep.is_none() {
                violate(&["P15", "P12"], "failure not reported", what);
            } else if !errored && !truncated && !w.fatal.get() && rep.is_some() {
                violate(&["P15", "P18"], "clean end reported as error", what);
            }
        }
    } else if w.ended.get() && w.closed.borrow().is_none() && !w.drop_req.get() {
        violate(&["P15"], "ended without report", String::new());
    }
    if let (Some(r), true) = (w.closed.borrow().as_ref(), w.judged()) {
        match r {
            Err(e) => {
                if !errored && !net.end_gone(1) {
                    violate(&["P14"], "close failed on a working transport", e.clone());
                }
            }
            Ok(()) => {
                sched::count("probe_graceful_close");
                let was_ended = goaway || errored || p.eof.is_some() || w.open_killed.get() || w.fatal.get();
                let zero = sd.goaway_tx.iter().filter(|g| **g == 0).count();
                if !was_ended || zero > 0 {
                    if zero != 1 {
                        violate(&["P14"], "no final go-away", format!("{:?}", sd.goaway_tx));
                    }
                    if sd.tx_closed != 1 {
                        violate(&["P14"], "transport not closed once", format!("{}", sd.tx_closed));
                    }
                    for (sid, s) in &sd.streams {
                        if s.tx_data != s.written {
                            violate(&["P14"], "accepted bytes lost by close", format!("stream {sid}: {} of {} sent", s.tx_data, s.written));
                        }
                        if s.wclosed && s.tx_fin == 0 && s.rx_rst == 0 && s.rx_fin == 0 {
                            violate(&["P14", "P03"], "stream close lost by connection close", format!("stream {sid}: {s:?}"));
                        }
                    }
                }
            }
        }
    }
}

pub fn delivered(w: &World) -> u64 {
    w.led.borrow().sides[0].streams.values().map(|x| x.read + x.tx_data).sum()
}
pub fn ledger(w: &World) -> Rc<RefCell<Ledger>> {
    w.led.clone()
}
