//! Independent frame codec and the per-endpoint ledger: what each endpoint put on and took from the
//! wire, what its application did, and the rules that must hold at every single step.
use crate::sched::{self, violate};
use std::collections::{BTreeMap, VecDeque};

pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;
pub const DATA: u8 = 0;
pub const WU: u8 = 1;
pub const PING: u8 = 2;
pub const GOAWAY: u8 = 3;
pub const CREDIT0: u64 = 256 * 1024;
pub const MAX_BODY: u32 = 1024 * 1024;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub ver: u8,
    pub ty: u8,
    pub flags: u16,
    pub sid: u32,
    pub len: u32,
}

impl Hdr {
    pub fn new(ty: u8, flags: u16, sid: u32, len: u32) -> Hdr {
        Hdr { ver: 0, ty, flags, sid, len }
    }
    pub fn encode(&self) -> [u8; 12] {
        let mut b = [0u8; 12];
        b[0] = self.ver;
        b[1] = self.ty;
        b[2..4].copy_from_slice(&self.flags.to_be_bytes());
        b[4..8].copy_from_slice(&self.sid.to_be_bytes());
        b[8..12].copy_from_slice(&self.len.to_be_bytes());
        b
    }
    pub fn decode(b: &[u8; 12]) -> Hdr {
        Hdr {
            ver: b[0],
            ty: b[1],
            flags: u16::from_be_bytes([b[2], b[3]]),
            sid: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
            len: u32::from_be_bytes([b[8], b[9], b[10], b[11]]),
        }
    }
    pub fn show(&self) -> String {
        let t = match self.ty {
            DATA => "data",
            WU => "window",
            PING => "ping",
            GOAWAY => "goaway",
            _ => "?",
        };
        let mut f = String::new();
        for (b, n) in [(SYN, "S"), (ACK, "A"), (FIN, "F"), (RST, "R")] {
            if self.flags & b != 0 {
                f.push_str(n)
            }
        }
        format!("{t}[{}]#{} len {}", f, self.sid, self.len)
    }
}

pub enum Ev<'a> {
    Header(Hdr),
    Body(&'a [u8]),
    Done(Hdr),
}

/// Incremental frame parser.
#[derive(Default)]
pub struct Parser {
    head: [u8; 12],
    have: usize,
    body_left: u32,
    cur: Option<Hdr>,
    dead: bool,
    pub frames: u64,
}

impl Parser {
    pub fn at_boundary(&self) -> bool {
        self.have == 0 && self.cur.is_none()
    }
    pub fn feed(&mut self, mut b: &[u8], f: &mut dyn FnMut(Ev)) {
        while !b.is_empty() && !self.dead {
            if self.cur.is_some() {
                let n = (self.body_left as usize).min(b.len());
                f(Ev::Body(&b[..n]));
                self.body_left -= n as u32;
                b = &b[n..];
                if self.body_left == 0 {
                    let h = self.cur.take().unwrap();
                    self.frames += 1;
                    f(Ev::Done(h));
                }
                continue;
            }
            let n = (12 - self.have).min(b.len());
            self.head[self.have..self.have + n].copy_from_slice(&b[..n]);
            self.have += n;
            b = &b[n..];
            if self.have == 12 {
                self.have = 0;
                let h = Hdr::decode(&self.head);
                f(Ev::Header(h));
                if h.ver != 0 || h.ty > 3 || (h.ty == DATA && h.len > MAX_BODY) {
                    // Nothing can be parsed behind this.
                    self.dead = true;
                    return;
                }
                if h.ty == DATA && h.len > 0 {
                    self.cur = Some(h);
                    self.body_left = h.len;
                } else {
                    self.frames += 1;
                    f(Ev::Done(h));
                }
            }
        }
    }
}

/// One stream as seen by one endpoint.
#[derive(Default, Debug, Clone)]
pub struct S {
    pub opened: bool,
    pub surfaced: bool,
    pub tx_frames: u64,
    pub tx_syn: u32,
    pub tx_ack: u32,
    pub tx_fin: u32,
    pub tx_rst: u32,
    pub tx_data: u64,
    pub tx_credit: u64,
    pub rx_syn: u32,
    pub rx_ack: u32,
    pub rx_fin: u32,
    pub rx_rst: u32,
    pub rx_data: u64,
    pub rx_credit: u64,
    pub written: u64,
    pub read: u64,
    pub close_called: bool,
    pub wclosed: bool,
    pub dropped: bool,
    pub eof: bool,
    /// Largest window this stream has provably had (credit granted beyond what was read).
    pub wmin: u64,
    /// Exact mode: the window by the rule, when it was last updated, and the read calls since:
    /// (bytes consumed before, time, round-trip time known).
    pub w: u64,
    pub upd: u64,
    pub calls: Vec<(u64, u64, Option<u64>)>,
}

/// One endpoint.
#[derive(Default)]
pub struct Side {
    pub real: bool,
    pub client: bool,
    pub split: u64,
    pub limit: Option<u64>,
    pub max_streams: u64,
    pub streams: BTreeMap<u32, S>,
    pub last_id: u32,
    pub goaway_tx: Vec<u32>,
    pub goaway_rx: Vec<u32>,
    pub close_called: bool,
    pub conn_gone: bool,
    /// poll_* reported the end of the connection
    pub ended: bool,
    /// Values to be sent back; those with `false` need not be, they name a stream.
    pub pings_due: VecDeque<(u32, bool)>,
    pub pings_answered: u64,
    pub ping_out: Option<(u32, u64)>,
    pub pongs_rx: u64,
    pub last_pong_node_ns: Option<u64>,
    pub own_pings: u64,
    pub tx_frames: u64,
    pub tx_bytes: u64,
    pub rx_bytes: u64,
    pub tx_partial: Option<Hdr>,
    pub tx_closed: u32,
    pub rx_index: u64,
    /// Frames the script peer sent that are to be ignored by the accounting, by index.
    pub rx_illegal: std::collections::BTreeSet<u64>,
    pub last_rtt: Option<u64>,
}

#[derive(Default)]
pub struct Ledger {
    pub sides: [Side; 2],
    /// The peer may have sent anything: only rules that hold regardless are applied.
    pub chaos: bool,
    /// Time stands still while tasks run and nothing is preempted: window updates can be predicted.
    pub exact: bool,
}

impl Ledger {
    pub fn s(&mut self, side: usize, sid: u32) -> &mut S {
        self.sides[side].streams.entry(sid).or_default()
    }

    fn is_local(&self, side: usize, sid: u32) -> bool {
        (sid % 2 == 1) == self.sides[side].client
    }

    pub fn on_tx(&mut self, side: usize, e: Ev) {
        match e {
            Ev::Header(h) => {
                crate::ev!("{} tx {}", side, h.show());
                sched::hash_in(u64::from(h.ty) << 56 ^ u64::from(h.flags) << 40 ^ u64::from(h.sid) << 20 ^ u64::from(h.len));
                self.tx_header(side, h)
            }
            Ev::Body(b) => {
                let h = self.sides[side].tx_partial.unwrap();
                let s = self.s(side, h.sid);
                s.tx_data += b.len() as u64;
                let (d, c) = (s.tx_data, CREDIT0 + s.rx_credit);
                if d > c {
                    violate(&["P05"], "tx beyond credit", format!("side {side} stream {}: {d} payload bytes on the wire with {c} credit", h.sid));
                }
            }
            Ev::Done(_) => {
                self.sides[side].tx_partial = None;
                self.sides[side].tx_frames += 1;
            }
        }
    }

    fn tx_header(&mut self, side: usize, h: Hdr) {
        let local = self.is_local(side, h.sid);
        let chaos = self.chaos;
        let sd = &mut self.sides[side];
        sd.tx_partial = Some(h);
        if h.ver != 0 || h.ty > 3 || h.flags & !15 != 0 {
            violate(&["P16", "P18"], "tx malformed header", format!("side {side}: {h:?}"));
            return;
        }
        if sd.goaway_tx.contains(&0) {
            violate(&["P14", "P16"], "tx after final go-away", format!("side {side}: {}", h.show()));
        }
        match h.ty {
            PING => {
                if h.sid != 0 {
                    violate(&["P16", "P17"], "tx ping on a stream", h.show());
                }
                if h.flags == SYN {
                    sd.own_pings += 1;
                    if let Some((v, _)) = sd.ping_out {
                        if !chaos {
                            violate(&["P17"], "second probe outstanding", format!("side {side}: probe {} while {v} is unanswered", h.len));
                        }
                    }
                    let t = sched::node_now(side);
                    if let Some(p) = sd.last_pong_node_ns {
                        if t < p + 10_000_000_000 && !chaos {
                            violate(&["P17"], "probe too soon", format!("side {side}: probe {} ms after the previous answer", (t - p) / 1_000_000));
                        }
                    }
                    sd.ping_out = Some((h.len, t));
                } else if h.flags == ACK {
                    while sd.pings_due.front().is_some_and(|(v, must)| !must && *v != h.len) {
                        sd.pings_due.pop_front();
                    }
                    match sd.pings_due.pop_front() {
                        Some((v, _)) if v == h.len => sd.pings_answered += 1,
                        Some((v, _)) => violate(&["P17", "P18"], "ping answer differs", format!("side {side}: answered {} but {v} is due", h.len)),
                        None => violate(&["P17", "P18"], "unsolicited ping answer", format!("side {side}: answered {} but nothing is due", h.len)),
                    }
                } else {
                    violate(&["P16", "P17"], "tx ping flags", h.show());
                }
            }
            GOAWAY => {
                if h.sid != 0 || h.flags != 0 || h.len > 2 {
                    violate(&["P16"], "tx go-away malformed", h.show());
                }
                if h.len == 0 && !sd.close_called {
                    violate(&["P14", "P16", "P18", "P02"], "go-away without close", format!("side {side}"));
                }
                sd.goaway_tx.push(h.len);
            }
            _ => {
                if h.sid == 0 {
                    violate(&["P16"], "tx frame on stream 0", h.show());
                    return;
                }
                let split = sd.split;
                let dead_rx = sd.streams.get(&h.sid).cloned().unwrap_or_default();
                let s = sd.streams.entry(h.sid).or_default();
                let what = format!("side {side}: {} (ledger {:?})", h.show(), dead_rx);
                if h.ty == DATA {
                    if u64::from(h.len) > split {
                        violate(&["P16"], "tx frame above split size", format!("{what} split {split}"));
                    }
                    if h.len > MAX_BODY {
                        violate(&["P16", "P18", "P01"], "tx frame above maximum", what.clone());
                    }
                    if h.flags & RST != 0 && h.len > 0 {
                        violate(&["P16"], "tx data on reset", what.clone());
                    }
                }
                if local {
                    if !s.opened {
                        violate(&["P09", "P16"], "tx on stream never opened", what.clone());
                    }
                    if h.flags & ACK != 0 {
                        violate(&["P10", "P16"], "tx ack on own stream", what.clone());
                    }
                    if s.tx_frames == 0 {
                        if h.flags & SYN == 0 && h.flags & RST == 0 {
                            violate(if h.flags & FIN != 0 { &["P09", "P16", "P03", "P18"] } else { &["P09", "P16", "P18"] }, "first frame without SYN", what.clone());
                        }
                    } else if h.flags & SYN != 0 {
                        violate(&["P09", "P16", "P18"], "SYN repeated", what.clone());
                    }
                } else {
                    if h.flags & SYN != 0 {
                        violate(&["P09", "P16"], "SYN on the peer's identifier", what.clone());
                    }
                    if !chaos && s.rx_syn == 0 {
                        violate(&["P16"], "tx on stream the peer never opened", what.clone());
                    }
                    if !chaos {
                        if !s.surfaced {
                            violate(&["P10", "P16"], "tx before the application got the stream", what.clone());
                        }
                        if h.flags & ACK != 0 {
                            if s.tx_ack > 0 {
                                violate(&["P10"], "acknowledged twice", what.clone());
                            }
                            if s.tx_frames > 0 {
                                violate(&["P10"], "acknowledged late", what.clone());
                            }
                        } else if s.tx_frames == 0 && !s.dropped {
                            violate(&["P10", "P18"], "first frame without ACK", what.clone());
                        }
                    }
                }
                if s.tx_rst > 0 {
                    violate(&["P04", "P16"], "tx after reset", what.clone());
                }
                if s.tx_fin > 0 {
                    if h.flags & FIN != 0 {
                        violate(&["P03", "P16"], "second FIN", what.clone());
                    }
                    if h.ty == DATA && h.len > 0 {
                        violate(&["P03", "P16"], "data after FIN", what.clone());
                    }
                }
                if h.flags & FIN != 0 && !s.close_called && !s.dropped && !chaos {
                    violate(&["P01", "P03", "P16"], "FIN without close", what.clone());
                }
                if h.flags & RST != 0 && !s.dropped && !chaos {
                    violate(&["P01", "P04"], "RST without drop", what.clone());
                }
                s.tx_frames += 1;
                s.tx_syn += u32::from(h.flags & SYN != 0);
                s.tx_ack += u32::from(h.flags & ACK != 0);
                s.tx_fin += u32::from(h.flags & FIN != 0);
                s.tx_rst += u32::from(h.flags & RST != 0);
                if h.ty == WU {
                    s.tx_credit += u64::from(h.len);
                    self.window_rules(side, h.sid, h.len);
                }
            }
        }
    }

    /// Credit outstanding beyond what the application has read is a lower bound for the window.
    fn window_rules(&mut self, side: usize, sid: u32, len: u32) {
        let chaos = self.chaos;
        if self.exact && !chaos && len > 0 {
            self.tuning(side, sid, u64::from(len));
        }
        let sd = &mut self.sides[side];
        let rtt_known = sd.pongs_rx > 0;
        let s = sd.streams.get_mut(&sid).unwrap();
        let out = (CREDIT0 + s.tx_credit).saturating_sub(s.read);
        s.wmin = s.wmin.max(out).max(CREDIT0);
        let w = s.wmin;
        if w > CREDIT0 && !rtt_known {
            violate(&["P06", "P07"], "window grown without round-trip time", format!("side {side} stream {sid}: unread + credit = {out}"));
        }
        if let Some(limit) = sd.limit {
            let extra: u64 = sd.streams.values().filter(|s| !s.dropped && (s.opened || s.surfaced)).map(|s| s.wmin.max(CREDIT0) - CREDIT0).sum();
            let allowed = limit.saturating_sub(sd.max_streams * CREDIT0);
            if extra > allowed {
                violate(&["P06", "P07"], "connection window limit exceeded", format!("side {side}: windows exceed their minimum by {extra}, allowed {allowed}"));
            }
            if extra > 0 {
                sched::count("probe_window_grown");
            }
            if extra == allowed && extra > 0 {
                sched::count("probe_window_limit_reached");
            }
        }
        let _ = chaos;
    }

    /// A read call on a stream is about to be made.
    pub fn read_call(&mut self, side: usize, sid: u32) {
        if self.exact {
            let rtt = self.sides[side].last_rtt;
            let t = sched::node_now(side);
            let s = self.s(side, sid);
            let c = (s.read, t, rtt);
            if s.calls.last() != Some(&c) {
                s.calls.push(c);
            }
        }
    }

    /// A window update has just been counted: it must be what the tuning rule gives for one of the
    /// read calls since the last one.
    fn tuning(&mut self, side: usize, sid: u32, len: u64) {
        let sd = &mut self.sides[side];
        let room = match sd.limit {
            None => u64::MAX,
            Some(l) => {
                let used: u64 = sd.streams.values().filter(|s| !s.dropped && (s.opened || s.surfaced)).map(|s| s.w.max(CREDIT0) - CREDIT0).sum();
                l.saturating_sub(sd.max_streams * CREDIT0).saturating_sub(used)
            }
        };
        let s = sd.streams.get_mut(&sid).unwrap();
        let w = s.w.max(CREDIT0);
        let granted = CREDIT0 + s.tx_credit;
        let mut fits = None;
        let mut why = String::new();
        for (i, (c, t, rtt)) in s.calls.iter().enumerate() {
            let fast = rtt.is_some_and(|r| t - s.upd < 2 * r);
            let new = if fast { (2 * w).min(w.saturating_add(room)).min(u32::MAX as u64) } else { w };
            why = format!(
                "window {w}, {c} bytes consumed, {granted} granted (rule: {}); last update {} ns ago, round-trip time {rtt:?}, room {room}",
                new + c,
                t - s.upd
            );
            // Credit is granted once at least half the window has been consumed.
            let due = (*c + w).saturating_sub(granted - len) >= w / 2;
            if due && granted == new + c {
                fits = Some((i, new, *t));
                if new == 2 * w {
                    sched::count("probe_window_doubled");
                } else if new > w {
                    sched::count("probe_window_grown_to_limit");
                } else if fast {
                    sched::count("probe_window_held_by_limit");
                } else if rtt.is_some() {
                    sched::count("probe_window_kept_slow");
                } else {
                    sched::count("probe_window_kept_no_rtt");
                }
                break;
            }
        }
        match fits {
            Some((i, new, t)) => {
                s.w = new;
                s.upd = t;
                s.calls.drain(..=i);
            }
            None => {
                // Beyond twice the window or the limit it is also a matter of the bound itself.
                let c = s.calls.iter().map(|x| x.0).max().unwrap_or(0);
                let tags: &[&str] = if granted > c + w.saturating_mul(2).min(w.saturating_add(room)) { &["P07", "P06"] } else { &["P07"] };
                violate(tags, "window update not by the rule", format!("side {side} stream {sid}: {why}"));
            }
        }
    }

    pub fn on_rx(&mut self, side: usize, e: Ev) {
        let chaos = self.chaos;
        match e {
            Ev::Header(h) => {
                crate::ev!("{} rx {}", side, h.show());
            }
            Ev::Body(_) => {}
            Ev::Done(h) => {
                let sd = &mut self.sides[side];
                let idx = sd.rx_index;
                sd.rx_index += 1;
                if sd.rx_illegal.contains(&idx) {
                    return;
                }
                match h.ty {
                    PING => {
                        if h.flags & ACK != 0 {
                            if let Some((v, at)) = sd.ping_out {
                                if v == h.len {
                                    let t = sched::node_now(side);
                                    sd.last_rtt = Some(t - at);
                                    sd.ping_out = None;
                                    sd.pongs_rx += 1;
                                    sd.last_pong_node_ns = Some(t);
                                }
                            }
                        } else {
                            sd.pings_due.push_back((h.len, h.sid == 0));
                        }
                    }
                    GOAWAY => sd.goaway_rx.push(h.len),
                    // A closing endpoint no longer looks at what comes in.
                    _ if sd.close_called => {}
                    _ => {
                        let s = sd.streams.entry(h.sid).or_default();
                        if h.flags & RST != 0 {
                            s.rx_rst += 1;
                            return;
                        }
                        s.rx_syn += u32::from(h.flags & SYN != 0);
                        s.rx_ack += u32::from(h.flags & ACK != 0);
                        s.rx_fin += u32::from(h.flags & FIN != 0);
                        if h.ty == DATA {
                            s.rx_data += u64::from(h.len);
                            if !chaos && s.rx_data > CREDIT0 + s.tx_credit {
                                // Only possible between two real endpoints if one of them cheats.
                                sched::count("rx_beyond_grant");
                            }
                        } else {
                            s.rx_credit += u64::from(h.len);
                        }
                    }
                }
            }
        }
    }

    /// The application's write was accepted.
    pub fn wrote(&mut self, side: usize, sid: u32, n: u64) {
        let s = self.s(side, sid);
        s.written += n;
        let (w, c) = (s.written, CREDIT0 + s.rx_credit);
        if w > c {
            violate(&["P05"], "write beyond credit", format!("side {side} stream {sid}: {w} bytes accepted with {c} credit"));
        }
    }

    pub fn opened(&mut self, side: usize, sid: u32) {
        let sd = &mut self.sides[side];
        let parity_ok = (sid % 2 == 1) == sd.client && sid != 0;
        if !parity_ok {
            violate(&["P09"], "wrong identifier parity", format!("side {side} (client {}) opened stream {sid}", sd.client));
        }
        if sid <= sd.last_id {
            violate(&["P09"], "identifier not increasing", format!("side {side} opened stream {sid} after {}", sd.last_id));
        }
        sd.last_id = sid;
        let live = sd.streams.values().filter(|s| (s.opened || s.surfaced) && !s.dropped).count() as u64;
        if live + 1 > sd.max_streams {
            violate(&["P11"], "opened beyond the stream limit", format!("side {side}: {} live streams, limit {}", live + 1, sd.max_streams));
        }
        let backlog = 1 + sd
            .streams
            .iter()
            .filter(|(id, s)| {
                (**id % 2 == 1) == sd.client && s.opened && s.rx_ack == 0 && s.rx_fin == 0 && s.rx_rst == 0 && !s.dropped && !s.close_called
            })
            .count();
        if backlog > 256 {
            violate(&["P10"], "acknowledgement backlog exceeded", format!("side {side}: {backlog} open unacknowledged streams"));
        }
        if backlog == 256 {
            sched::count("probe_backlog_full");
        }
        let t = sched::node_now(side);
        let s = self.s(side, sid);
        s.opened = true;
        s.upd = t;
    }

    pub fn surfaced(&mut self, side: usize, sid: u32) {
        let chaos = self.chaos;
        let local = self.is_local(side, sid);
        if local || sid == 0 {
            violate(&["P12", "P09", "P18"], "inbound stream with a wrong identifier", format!("side {side}: stream {sid} surfaced"));
        }
        let sd = &mut self.sides[side];
        let live = sd.streams.values().filter(|s| (s.opened || s.surfaced) && !s.dropped).count() as u64;
        if live + 1 > sd.max_streams {
            violate(&["P11", "P12", "P13"], "accepted beyond the stream limit", format!("side {side}: {} live streams, limit {}", live + 1, sd.max_streams));
        }
        let s = sd.streams.entry(sid).or_default();
        if s.surfaced && !chaos {
            violate(&["P01", "P12"], "stream surfaced twice", format!("side {side}: stream {sid}"));
        }
        if s.rx_syn == 0 && !chaos {
            violate(&["P01", "P12", "P18"], "stream surfaced without SYN", format!("side {side}: stream {sid}"));
        }
        s.surfaced = true;
        s.upd = sched::node_now(side);
    }
}
