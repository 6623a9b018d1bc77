//! Run plans: everything a run consists of apart from the schedule choices.
use crate::net::{FaultPlan, NetPlan};
use crate::sched::SchedPlan;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct ConnPlan {
    /// Connection receive window limit beyond 256 KiB per stream, in KiB; None: no limit.
    pub extra_kib: Option<u32>,
    pub max_streams: u32,
    pub read_after_close: bool,
    pub split: u32,
    /// 0 opener on its own task, 1 one task polling inbound first, 2 one task polling outbound first
    pub drive: u8,
    /// Drop the connection object as soon as it has ended (else keep it to the end of the run).
    pub drop_when_ended: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct SidePlan {
    pub wchunk: u32,
    pub rchunk: u32,
    /// Flush after every n writes; 0 never.
    pub flush: u32,
    /// 0 one task, 1 two tasks sharing the stream under a lock, 2 two tasks with split halves
    pub style: u8,
    /// 0 AsyncRead, 1 Stream of packets, 2 alternating
    pub rapi: u8,
    pub close_twice: bool,
    pub write_after_close: bool,
    /// Drop the handle once this many bytes are written / read, or at this time (us).
    pub drop_w: Option<u32>,
    pub drop_r: Option<u32>,
    pub drop_at: Option<u32>,
    /// Close, then drop the handle without reading to the end of stream.
    pub close_and_go: bool,
    /// Reader pauses: (after bytes, microseconds; 0 microseconds: until everything else is idle)
    pub stalls: Vec<(u32, u32)>,
    /// Keep the finished handle this long (us).
    pub linger: u32,
    /// Writer pauses this long (us) between writes.
    pub wpause: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct StreamPlan {
    pub opener: u8,
    pub at: u32,
    /// 0 duplex, 1 request/response, 2 ping-pong, 3 echo
    pub pattern: u8,
    pub a: u32,
    pub b: u32,
    pub rounds: u32,
    /// [opener, acceptor]
    pub side: [SidePlan; 2],
    /// Open only after all streams of earlier batches are done and everything is idle.
    pub batch: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct EndPlan {
    /// 0 leave open, 1 graceful close once all is done, 2 close after `at` preemption points,
    /// 3 drop the connection after `at` points
    pub how: u8,
    pub at: u32,
}

/// One step of the scripted peer / application in the solo world.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// Peer opens a stream: by window update (credit) or data (n bytes), optionally with FIN; `skip`
    /// identifiers are left out.
    POpen { wu: bool, credit: u32, n: u32, fin: bool, skip: u32 },
    /// Peer sends n bytes on stream s within its credit, with flags; `ack` may be piggybacked.
    PData { s: u32, n: u32, chunk: u32, fin: bool },
    /// Peer grants credit; flags may include FIN.
    PCredit { s: u32, n: u32, fin: bool },
    /// A stream announced and reset by the same frame.
    POpenRst { wu: bool },
    PFin { s: u32, wu: bool },
    PRst { s: u32, wu: bool },
    /// Peer acknowledges a stream opened by the endpoint: 0 window update, 1 empty data, 2 FIN
    PAck { s: u32, how: u8, n: u32 },
    PPing { v: u32 },
    /// Answer the endpoint's outstanding probe.
    PPong,
    PGoAway { code: u32 },
    /// End of transport from the peer's side (clean or in the middle of a frame).
    PEof { partial: u32 },
    /// Peer stops / resumes taking bytes from the transport.
    PStall,
    PResume,
    /// A frame that breaks the rules, sent when idle. `kind` selects which, `s` a stream, `v` a value.
    Bad { kind: u8, s: u32, v: u32, flags: u16 },
    /// Frame for a stream that is gone (dropped by the endpoint's application).
    Late { s: u32, kind: u8, n: u32 },
    /// Arbitrary bytes; after this only crash, memory and form are judged.
    Raw { hex: String, times: u32 },
    /// A frame with arbitrary fields; same.
    Wild { ty: u8, flags: u16, sid: u32, len: u32, body: u32, times: u32 },
    AOpen,
    AWrite { s: u32, n: u32, chunk: u32 },
    /// Read n bytes (or up to the end of stream); `packet`: Stream interface
    ARead { s: u32, n: u32, chunk: u32, packet: bool },
    /// Exactly one poll_read with a buffer of n bytes.
    ARead1 { s: u32, n: u32 },
    AFlush { s: u32 },
    AClose { s: u32 },
    ADrop { s: u32 },
    /// Close / drop the connection.
    CClose,
    CDrop,
    Idle,
    Sleep { us: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Plan {
    /// "duo" or "solo"
    pub world: String,
    pub profile: String,
    pub seed: u64,
    pub sched: SchedPlan,
    pub net: NetPlan,
    pub conf: [ConnPlan; 2],
    pub streams: Vec<StreamPlan>,
    pub end: [EndPlan; 2],
    /// Solo: the endpoint is the client.
    pub client: bool,
    pub steps: Vec<Step>,
    /// Solo: the peer answers probes at once.
    pub autopong: bool,
    /// Solo: every step is followed by an idle check.
    pub sync: bool,
    /// Solo: first stream identifier the endpoint assigns, counted down from the end of the space.
    pub ids_left: Option<u32>,
}

impl Plan {
    pub fn healthy(&self) -> bool {
        self.net.faults.is_empty()
    }
}

pub fn fault(side: u8, op: u8, by_call: bool, at: u32, kind: u8, transient: bool) -> FaultPlan {
    FaultPlan { side, op, by_call, at, kind, transient }
}

/// Pseudo-random contents: every stream direction has its own bytes.
pub fn content(key: u64, off: u64, buf: &mut [u8]) {
    let mut i = 0;
    while i < buf.len() {
        let o = off + i as u64;
        let w = crate::rng::mix(key ^ (o / 8).wrapping_mul(0x9E37_79B9_7F4A_7C15)).to_le_bytes();
        let mut j = (o % 8) as usize;
        while j < 8 && i < buf.len() {
            buf[i] = w[j];
            i += 1;
            j += 1;
        }
    }
}
pub fn check_content(key: u64, off: u64, buf: &[u8]) -> Option<usize> {
    let mut e = vec![0u8; buf.len()];
    content(key, off, &mut e);
    if e == buf {
        None
    } else {
        e.iter().zip(buf).position(|(a, b)| a != b)
    }
}
