//! Run plans drawn from a seed, one profile per property.
use crate::net::{DirPlan, NetPlan};
use crate::plan::{fault, ConnPlan, EndPlan, Plan, SidePlan, Step, StreamPlan};
use crate::rng::{mix, Rng};
use crate::sched::SchedPlan;

fn sched(r: &mut Rng) -> SchedPlan {
    let mut p = SchedPlan {
        strategy: r.weighted(&[(2, 0u8), (4, 1), (4, 2), (2, 3)]),
        gap: r.weighted(&[(3, 0u32), (1, 1), (2, 3), (3, 10), (3, 40), (2, 200)]),
        fresh: r.chance(1, 2),
        spurious: r.weighted(&[(5, 0u32), (1, 3), (1, 20), (1, 100)]),
        step_ns: r.weighted(&[(2, 0u64), (3, 100), (4, 1000), (2, 20_000)]),
        rate: [1000, 1000],
        jumps: vec![],
    };
    if r.chance(1, 6) {
        p.rate = [r.range(500, 2000) as u32, r.range(500, 2000) as u32];
    }
    if r.chance(1, 6) {
        for _ in 0..r.range(1, 4) {
            p.jumps.push((r.below(3000) as u32, r.below(2) as u8, r.pick(&[1u32, 50, 2000, 11_000, 60_000])));
        }
    }
    p
}

/// Transport: 0 benign, 1 any, 2 tight.
fn dir(r: &mut Rng, level: u8) -> DirPlan {
    let mut d = DirPlan::default();
    if level == 0 {
        d.lat_us = r.weighted(&[(2, 0u32), (1, 100), (1, 5000)]);
        return d;
    }
    d.cap = if level == 2 {
        r.weighted(&[(1, 1u32), (2, 12), (2, 13), (2, 24), (3, 100), (3, 1000), (2, 20_000), (1, 70_000)])
    } else {
        r.weighted(&[(6, 0u32), (1, 24), (1, 100), (2, 1000), (3, 20_000), (3, 262_144)])
    };
    d.lat_us = r.weighted(&[(4, 0u32), (2, 10), (2, 500), (2, 20_000), (1, 200_000)]);
    d.jitter_us = if r.chance(1, 3) { d.lat_us.max(100) } else { 0 };
    d.ns_per_byte = r.weighted(&[(6, 0u32), (2, 1), (2, 10), (1, 100)]);
    d.short_r = r.weighted(&[(5, 0u32), (1, 1), (1, 7), (1, 13), (2, 100), (2, 5000)]);
    d.short_w = r.weighted(&[(5, 0u32), (1, 1), (1, 7), (1, 13), (2, 100), (2, 5000)]);
    d.pend_r = r.weighted(&[(5, 0u32), (1, 2), (1, 5), (1, 30)]);
    d.pend_w = r.weighted(&[(5, 0u32), (1, 2), (1, 5), (1, 30)]);
    d.pend_f = r.weighted(&[(5, 0u32), (1, 2), (1, 5)]);
    d.stage = r.weighted(&[(4, 0u32), (1, 16), (1, 300), (2, 8192), (1, 65_536)]);
    if r.chance(1, 5) {
        for _ in 0..r.range(1, 3) {
            d.stalls.push((r.below(300_000) as u32, r.range(100, 500_000) as u32));
        }
    }
    d
}
fn net(r: &mut Rng, level: u8) -> NetPlan {
    NetPlan { dir: [dir(r, level), dir(r, level)], faults: vec![], gone: r.below(3) as u8 }
}

/// One-byte transports and writes are slow: keep the data small there.
fn slow(n: &NetPlan) -> bool {
    n.dir.iter().any(|d| (d.cap > 0 && d.cap < 200) || (d.short_r > 0 && d.short_r < 200) || (d.short_w > 0 && d.short_w < 200) || (d.stage > 0 && d.stage < 200))
}

fn conf(r: &mut Rng, streams: u32) -> ConnPlan {
    ConnPlan {
        extra_kib: if r.chance(1, 2) { None } else { Some(r.weighted(&[(2, 0u32), (2, 100), (2, 256), (2, 700), (2, 4096)])) },
        max_streams: streams + r.below(4) as u32,
        read_after_close: r.chance(2, 3),
        split: r.weighted(&[(1, 1u32), (1, 7), (2, 100), (2, 1500), (5, 16_384), (2, 65_536), (1, 1_048_576), (1, 3_000_000)]),
        drive: r.below(3) as u8,
        drop_when_ended: r.chance(1, 2),
    }
}

fn size(r: &mut Rng, class: u8) -> u32 {
    match class {
        // tiny
        0 => r.weighted(&[(2, 0u64), (2, 1), (6, 64), (4, 900)]).pipe(|m| r.range(m / 2, m)) as u32,
        // medium
        1 => r.weighted(&[(1, 0u64), (1, 1), (4, 5_000), (4, 60_000), (2, 300_000)]).pipe(|m| r.range(m / 2, m)) as u32,
        // around the window
        2 => r.pick(&[131_071u32, 131_072, 131_073, 262_143, 262_144, 262_145, 400_000, 524_288]),
        _ => r.range(500_000, 3_000_000) as u32,
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for u64 {}

fn chunk(r: &mut Rng, total: u32) -> u32 {
    let c = r.weighted(&[(1, 1u32), (1, 10), (2, 333), (4, 4096), (4, 16_384), (3, 50_000), (2, 300_000), (1, 2_000_000)]);
    c.max(total / 400).max(1)
}

fn side(r: &mut Rng, write: u32, read: u32) -> SidePlan {
    SidePlan {
        wchunk: chunk(r, write),
        rchunk: chunk(r, read),
        flush: r.weighted(&[(3, 0u32), (2, 1), (2, 3)]),
        style: r.below(3) as u8,
        rapi: r.weighted(&[(4, 0u8), (2, 1), (2, 2)]),
        close_twice: r.chance(1, 5),
        write_after_close: r.chance(1, 6),
        linger: r.weighted(&[(4, 0u32), (1, 10), (1, 5000)]),
        wpause: 0,
        ..Default::default()
    }
}

fn stream(r: &mut Rng, class: u8, spread: u32) -> StreamPlan {
    let pattern = r.weighted(&[(4, 0u8), (2, 1), (2, 2), (2, 3)]);
    let a = size(r, class);
    let b = if pattern == 3 { a } else { size(r, class) };
    let rounds = r.range(1, 6) as u32;
    let a = if pattern == 2 { a.min(250_000 * rounds) } else { a };
    StreamPlan {
        opener: r.below(2) as u8,
        at: if spread == 0 { 0 } else { r.below(spread as u64) as u32 },
        pattern,
        a,
        b,
        rounds,
        side: [side(r, a, b), side(r, b, a)],
        batch: 0,
    }
}

struct Duo {
    n: (u64, u64),
    class: &'static [(u32, u8)],
    net: u8,
    spread: &'static [(u32, u32)],
}

fn duo(r: &mut Rng, d: &Duo) -> Plan {
    let mut p = Plan { world: "duo".into(), ..Default::default() };
    p.sched = sched(r);
    p.net = net(r, d.net);
    let n = r.range(d.n.0, d.n.1) as u32;
    let spread = r.weighted(d.spread);
    let mut budget = if slow(&p.net) { 12_000u32 } else { 6_000_000 };
    p.conf = [conf(r, n), conf(r, n)];
    for c in &mut p.conf {
        // Tiny frames of bulk data only cost time.
        if c.split < 1000 {
            budget = budget.min(100 * c.split.max(20));
        }
    }
    for _ in 0..n {
        let class = r.weighted(d.class);
        let mut s = stream(r, class, spread);
        let share = budget / 2;
        s.a = s.a.min(share);
        s.b = if s.pattern == 3 { s.a } else { s.b.min(share) };
        budget = budget.saturating_sub(s.a + s.b).max(100);
        p.streams.push(s);
    }
    p.end = [EndPlan { how: 0, at: 0 }, EndPlan { how: 0, at: 0 }];
    if r.chance(1, 2) {
        p.end[r.below(2) as usize].how = 1;
    }
    p
}

fn add_drops(r: &mut Rng, p: &mut Plan, num: u64, den: u64) {
    for s in &mut p.streams {
        let (a, b) = (s.a as u64, s.b as u64);
        for role in 0..2 {
            if !r.chance(num, den) {
                continue;
            }
            let (w, rd) = if role == 0 { (a, b) } else { (b, a) };
            let x = &mut s.side[role];
            match r.below(4) {
                0 => x.drop_w = Some(r.below(w + 1) as u32),
                1 => x.drop_r = Some(r.below(rd + 1) as u32),
                2 => x.drop_at = Some(r.weighted(&[(2, 0u32), (2, 20), (2, 2000), (1, 100_000)])),
                _ => {
                    x.drop_w = Some(0);
                }
            }
        }
    }
}

fn add_faults(r: &mut Rng, p: &mut Plan) {
    let vol: u64 = p.streams.iter().map(|s| s.a as u64 + s.b as u64 + 100).sum::<u64>() + 200;
    for _ in 0..r.weighted(&[(5, 1u32), (1, 2)]) {
        let by_call = r.chance(1, 2);
        let op = r.weighted(&[(4, 0u8), (4, 1), (2, 2), (1, 3)]);
        let at = if op == 3 {
            0
        } else if by_call {
            r.weighted(&[(1, 1u64), (3, 20), (3, 200), (2, 2000)]).pipe(|m| r.below(m + 1)) as u32
        } else {
            match r.below(3) {
                0 => r.below(60) as u32,
                1 => r.below(vol.min(3000)) as u32,
                _ => r.below(vol) as u32,
            }
        };
        let kind = r.pick(&[0u8, 0, 1, 2, 2, 3, 4, 5]);
        let transient = r.chance(1, 4) && !(op == 0 && kind == 2);
        p.net.faults.push(fault(r.below(2) as u8, op, by_call, at, kind, transient));
    }
}

// ---- scripted peer ----

struct Solo {
    /// (weight, step kind)
    w: &'static [(u32, u8)],
    len: (u64, u64),
    sync: u8,
    /// Sizes of transfers: 0 tiny, 1 medium, 2 window
    big: u8,
    net: u8,
}

fn step(r: &mut Rng, k: u8, big: u8) -> Step {
    let s = r.below(8) as u32;
    let n = match big {
        0 => r.pick(&[0u32, 1, 5, 100, 2000]),
        1 => r.pick(&[0u32, 1, 100, 5000, 20_000, 70_000, 131_072, 300_000]),
        _ => r.pick(&[1u32, 70_000, 131_071, 131_072, 131_073, 200_000, 262_144, 300_000, 600_000, 2_000_000]),
    };
    let mut chunk = r.pick(&[100u32, 1000, 16_384, 16_384, 65_536, 262_144, 1_048_576]).max(n / 300 + 1);
    if chunk == 1_048_576 && big == 2 {
        chunk = 3_000_000;
    }
    let wu = r.chance(1, 2);
    let fin = r.chance(1, 6);
    match k {
        0 => Step::POpen { wu, credit: r.pick(&[0u32, 0, 1, 100_000, 2_000_000]), n, fin, skip: r.weighted(&[(5, 0u32), (1, 1), (1, 50), (1, 100_000)]) },
        1 => Step::PData { s, n, chunk, fin },
        2 => Step::PCredit { s, n: r.pick(&[0u32, 1, 1000, 131_072, 262_144, 3_000_000]), fin },
        3 => Step::PFin { s, wu },
        4 => Step::PRst { s, wu },
        5 => Step::PAck { s, how: r.below(3) as u8, n: r.pick(&[0u32, 1, 262_144]) },
        6 => Step::PPing { v: r.u64() as u32 },
        7 => Step::PPong,
        8 => Step::PGoAway { code: r.below(3) as u32 },
        9 => Step::PEof { partial: r.pick(&[0u32, 0, 1, 11, 12, 13, 60, 111]) },
        10 => Step::PStall,
        11 => Step::PResume,
        12 => Step::Bad { kind: r.below(16) as u8, s, v: r.pick(&[0u32, 1, 2, 7, 99, 12_345]), flags: r.pick(&[0u16, 0, 0, 4]) },
        13 => Step::Late { s, kind: r.below(4) as u8, n: n.min(20_000) },
        14 => Step::POpenRst { wu },
        20 => Step::AOpen,
        21 => Step::AWrite { s, n, chunk },
        22 => Step::ARead { s, n: n.max(1), chunk, packet: r.chance(1, 3) },
        23 => Step::ARead { s, n: 100_000_000, chunk, packet: r.chance(1, 3) },
        24 => Step::ARead1 { s, n: n.clamp(1, 300_000) },
        25 => Step::AFlush { s },
        26 => Step::AClose { s },
        27 => Step::ADrop { s },
        28 => Step::CClose,
        29 => Step::CDrop,
        30 => Step::Idle,
        31 => Step::Sleep { us: r.weighted(&[(3, 50u32), (3, 3000), (2, 200_000), (2, 10_000_000), (1, 10_000_001), (1, 25_000_000)]) },
        _ => Step::Idle,
    }
}

const LEGAL: &[(u32, u8)] = &[
    (8, 0), (12, 1), (6, 2), (3, 3), (2, 4), (4, 5), (3, 6), (3, 7), (2, 14), (2, 13), (5, 20), (10, 21), (6, 22), (6, 23), (3, 24), (2, 25), (4, 26), (3, 27), (4, 30), (2, 31),
];

fn solo(r: &mut Rng, d: &Solo) -> Plan {
    let mut p = Plan { world: "solo".into(), ..Default::default() };
    p.sched = sched(r);
    p.net = net(r, d.net);
    p.client = r.chance(1, 2);
    p.autopong = r.chance(1, 2);
    p.sync = match d.sync {
        0 => false,
        1 => true,
        _ => r.chance(1, 2),
    };
    let m = r.pick(&[3u32, 8, 40]);
    p.conf = [conf(r, m), ConnPlan::default()];
    p.conf[0].max_streams = m;
    let big = if slow(&p.net) || p.conf[0].split < 1000 { 0 } else { d.big };
    let n = r.range(d.len.0, d.len.1);
    for _ in 0..r.range(1, 3) {
        let k = r.pick(&[0u8, 20]);
        p.steps.push(step(r, k, big));
    }
    for _ in 0..n {
        let k = r.weighted(d.w);
        p.steps.push(step(r, k, big));
    }
    p.end[1].how = r.weighted(&[(2, 0u8), (3, 1), (1, 3)]);
    p
}

/// Window tuning: time moves only where the script says so.
fn tuning(r: &mut Rng) -> Plan {
    let mut p = Plan { world: "solo".into(), ..Default::default() };
    p.sched = SchedPlan { strategy: r.below(4) as u8, gap: 0, fresh: r.chance(1, 2), spurious: 0, step_ns: 0, rate: [1000, 1000], jumps: vec![] };
    p.net = NetPlan::default();
    p.client = r.chance(1, 2);
    p.sync = true;
    let m = r.pick(&[1u32, 2, 4]);
    p.conf = [conf(r, m), ConnPlan::default()];
    p.conf[0].max_streams = m;
    p.conf[0].split = 16_384;
    p.conf[0].extra_kib = r.weighted(&[(2, None), (2, Some(0u32)), (2, Some(100)), (2, Some(256)), (2, Some(700)), (2, Some(1000)), (2, Some(4096))]);
    let rtt = r.pick(&[1u32, 100, 1000, 50_000]);
    for _ in 0..m {
        p.steps.push(Step::POpen { wu: r.chance(1, 2), credit: 0, n: 0, fin: false, skip: 0 });
    }
    // Optionally make the round-trip time known.
    if r.chance(9, 10) {
        p.steps.push(Step::Sleep { us: rtt });
        p.steps.push(Step::PPong);
    }
    let mut known = rtt;
    for _ in 0..r.range(4, 14) {
        let s = r.below(m as u64) as u32;
        match r.below(12) {
            0 => {
                p.steps.push(Step::ADrop { s });
                p.steps.push(Step::POpen { wu: true, credit: 0, n: 0, fin: false, skip: 0 });
            }
            1 => {
                // A new measurement: the next probe is due ten seconds after the last answer.
                p.steps.push(Step::Sleep { us: 10_000_000 });
                p.steps.push(Step::PPing { v: 1 });
                known = r.pick(&[1u32, 100, 1000, 50_000, 3_000_000]);
                p.steps.push(Step::Sleep { us: known });
                p.steps.push(Step::PPong);
            }
            _ => {
                let n = r.pick(&[131_071u32, 131_072, 131_073, 200_000, 262_144, 262_144, 500_000, 1_000_000, 2_500_000]);
                p.steps.push(Step::PData { s, n, chunk: r.pick(&[16_384u32, 65_536, 262_144]), fin: false });
                let us = r.pick(&[0, 0, 1, known, 2 * known - 1, 2 * known, 2 * known + 1, 5 * known]);
                if us > 0 {
                    p.steps.push(Step::Sleep { us });
                }
                let q = r.pick(&[n, n, n / 2, 131_072, 131_071, 10_000]).max(1);
                p.steps.push(Step::ARead { s, n: q as u64 as u32, chunk: r.pick(&[1000u32, 16_384, 131_072, 2_000_000]).max(q / 100), packet: r.chance(1, 4) });
                if r.chance(1, 2) {
                    // Look again: this is when an update is due.
                    p.steps.push(Step::ARead1 { s, n: 1 });
                }
            }
        }
    }
    p.end[1].how = r.below(2) as u8;
    p
}

fn backlog(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: LEGAL, len: (0, 3), sync: 1, big: 0, net: 0 });
    p.conf[0].max_streams = r.pick(&[258u32, 300, 600]);
    p.conf[0].split = 16_384;
    p.sync = false;
    let n = r.range(250, 262) as u32;
    let announce = r.below(4);
    p.steps.clear();
    for i in 0..n {
        p.steps.push(Step::AOpen);
        if announce > 0 && (announce > 1 || r.chance(1, 2)) {
            p.steps.push(Step::Idle);
            p.steps.push(Step::AWrite { s: i, n: r.pick(&[1u32, 10]), chunk: 100 });
        }
    }
    p.steps.push(Step::Idle);
    for _ in 0..r.range(2, 14) {
        let s = r.below(300) as u32;
        let wu = r.chance(1, 2);
        let st = match r.below(9) {
            0 | 1 => Step::PAck { s, how: r.below(3) as u8, n: 0 },
            2 => Step::PFin { s, wu },
            3 => Step::PRst { s, wu },
            4 => Step::ADrop { s },
            5 => Step::AClose { s },
            6 => Step::PData { s, n: 10, chunk: 100, fin: false },
            7 => Step::POpen { wu, credit: 0, n: 1, fin: false, skip: 0 },
            _ => Step::AOpen,
        };
        p.steps.push(st);
        if r.chance(2, 3) {
            p.steps.push(Step::Idle);
        }
        if r.chance(1, 2) {
            p.steps.push(Step::AOpen);
        }
    }
    match r.below(6) {
        0 => p.steps.push(Step::CClose),
        1 => p.steps.push(Step::PGoAway { code: 0 }),
        2 => p.steps.push(Step::CDrop),
        _ => {}
    }
    p.end[1].how = r.below(2) as u8;
    p
}

fn exhaustion(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: LEGAL, len: (0, 6), sync: 2, big: 0, net: 1 });
    let k = r.range(1, 5) as u32;
    p.ids_left = Some(k);
    p.conf[0].max_streams = 40;
    let mut opens = k + r.range(0, 3) as u32;
    while opens > 0 {
        let pos = r.below(p.steps.len() as u64 + 1) as usize;
        p.steps.insert(pos, Step::AOpen);
        opens -= 1;
    }
    p
}

fn limits(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo {
        w: &[(6, 0), (8, 20), (3, 27), (2, 26), (2, 3), (2, 4), (3, 21), (3, 23), (3, 1), (4, 30), (2, 14)],
        len: (5, 30),
        sync: 1,
        big: 0,
        net: 1,
    });
    p.conf[0].max_streams = r.pick(&[0u32, 1, 2, 3, 4]);
    if r.chance(2, 3) {
        // Inbound beyond the limit.
        for _ in 0..r.range(1, 4) {
            let pos = r.below(p.steps.len() as u64 + 1) as usize;
            p.steps.insert(pos, Step::Bad { kind: r.pick(&[11u8, 12]), s: 0, v: r.below(200) as u32, flags: r.pick(&[0u16, 4]) });
        }
        // Opening beyond the limit ends the connection: rarely.
        if r.chance(2, 3) {
            p.steps.retain(|s| !matches!(s, Step::AOpen));
        }
    }
    p
}

fn hostile(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: LEGAL, len: (0, 25), sync: 0, big: 1, net: 1 });
    if r.chance(1, 2) {
        p.net = NetPlan::default();
        p.net.dir[0].cap = r.pick(&[0u32, 100, 20_000]);
    }
    if r.chance(1, 4) {
        p.conf[0].max_streams = r.pick(&[0u32, 1, 300]);
    }
    let small = slow(&p.net);
    if r.chance(1, 3) {
        p.steps.push(Step::PStall);
    }
    for _ in 0..r.range(1, 10) {
        let st = match r.below(10) {
            0 | 1 => {
                let n = r.range(1, 60);
                let mut hex = String::new();
                for _ in 0..n {
                    hex.push_str(&format!("{:02x}", r.below(256)));
                }
                Step::Raw { hex, times: 1 }
            }
            2 => {
                // Random bytes that start like a header.
                let mut hex = format!("00{:02x}00{:02x}", r.below(5), r.below(16));
                for _ in 0..r.range(4, 40) {
                    hex.push_str(&format!("{:02x}", r.pick(&[0u8, 0, 0, 1, 2, 3, 255, 16])));
                }
                Step::Raw { hex, times: r.range(1, 4) as u32 }
            }
            3 => Step::Wild { ty: 2, flags: r.pick(&[1u16, 1, 1, 0, 3]), sid: 0, len: r.u64() as u32, body: 0, times: if small { 50 } else { r.pick(&[1u32, 100, 20_000]) } },
            4 => Step::Wild { ty: r.below(2) as u8, flags: r.pick(&[1u16, 1, 5, 9, 3]), sid: r.pick(&[1u32, 2, 2, 1, 1001, 1002, u32::MAX - 6]), len: 0, body: 0, times: if small { 20 } else { r.pick(&[1u32, 50, 3000]) } },
            5 => Step::Wild { ty: 0, flags: r.pick(&[0u16, 1, 4, 8]), sid: r.below(8) as u32, len: r.pick(&[1_048_576u32, 1_048_577, 0x7fff_ffff, u32::MAX, 262_145]), body: r.pick(&[0u32, 0, 10]), times: 1 },
            6 => {
                let n = r.pick(&[0u32, 0, 1, 1, 100, 16_384]);
                let t = if small { 20 } else { (600_000 / (n + 12)).min(r.pick(&[1u32, 100, 30_000])).max(1) };
                Step::Wild { ty: 0, flags: r.pick(&[0u16, 0, 2, 4]), sid: r.below(8) as u32, len: n, body: n, times: t }
            }
            7 => Step::Wild { ty: 1, flags: r.pick(&[0u16, 0, 2, 4, 8]), sid: r.below(8) as u32, len: r.pick(&[0u32, 1, u32::MAX, 1 << 31, 262_144]), body: 0, times: if small { 5 } else { r.pick(&[1u32, 3, 5000]) } },
            8 => Step::Wild { ty: r.below(4) as u8, flags: r.u64() as u16, sid: r.pick(&[0u32, 1, 2, 3, 4, u32::MAX]), len: r.pick(&[0u32, 5, 1000, u32::MAX]), body: r.pick(&[0u32, 5, 1000]), times: r.pick(&[1u32, 2, 20]) },
            _ => Step::Wild { ty: 2, flags: 2, sid: 0, len: r.pick(&[0u32, 1, 7]), body: 0, times: r.pick(&[1u32, 2]) },
        };
        p.steps.push(st);
        if r.chance(1, 3) {
            let k = r.weighted(LEGAL);
            p.steps.push(step(r, k, 0));
        }
    }
    // Cut the last bytes anywhere.
    if r.chance(1, 4) {
        p.steps.push(Step::PEof { partial: r.pick(&[0u32, 1, 11, 12, 13, 60, 111]) });
    }
    match r.below(8) {
        0 => p.steps.push(Step::CClose),
        1 => p.steps.push(Step::CDrop),
        _ => {}
    }
    p.end[1].how = r.pick(&[1u8, 1, 3]);
    p
}

fn violations(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo {
        w: &[(8, 0), (10, 1), (5, 2), (2, 3), (1, 4), (3, 5), (2, 6), (3, 7), (5, 20), (8, 21), (5, 22), (5, 23), (2, 24), (2, 26), (2, 27), (10, 12)],
        len: (4, 25),
        sync: 1,
        big: 2,
        net: 1,
    });
    if r.chance(1, 2) {
        p.conf[0].max_streams = r.pick(&[1u32, 2, 3]);
    }
    p.steps.push(step(r, 12, 1));
    p
}

fn ends(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: LEGAL, len: (2, 25), sync: 2, big: 1, net: 1 });
    if r.chance(1, 5) {
        p.steps.push(Step::PStall);
    }
    let k = match r.below(12) {
        0..=2 => 8,
        3..=5 => 9,
        6 => 29,
        7 => 28,
        8 | 9 => {
            add_faults(r, &mut p);
            for f in &mut p.net.faults {
                f.side = 0;
            }
            30
        }
        _ => 12,
    };
    let at = r.range(p.steps.len() as u64 / 2, p.steps.len() as u64) as usize;
    p.steps.insert(at, step(r, k, 1));
    p
}

fn keepalive(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo {
        w: &[(6, 6), (6, 7), (8, 31), (3, 0), (5, 1), (3, 21), (3, 23), (2, 20), (3, 10), (4, 11), (1, 2), (3, 30)],
        len: (6, 40),
        sync: 2,
        big: 1,
        net: 1,
    });
    p.sched.jumps.clear();
    if r.chance(1, 3) {
        // Many pings in flight at once.
        let at = r.below(p.steps.len() as u64 + 1) as usize;
        for i in 0..r.range(5, 60) {
            p.steps.insert(at, Step::PPing { v: i as u32 * 7919 });
        }
    }
    p
}

fn stalls(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (2, 7), class: &[(3, 1), (3, 2), (2, 3)], net: 1, spread: &[(2, 0), (1, 2000), (1, 200_000)] });
    let k = r.range(1, 2).min(p.streams.len() as u64 - 1);
    for i in 0..k as usize {
        let s = &mut p.streams[i];
        s.pattern = r.pick(&[0u8, 0, 1]);
        let role = r.below(2) as usize;
        // Stall before everything has been read, so that data piles up.
        let incoming = if role == 0 { s.b } else { s.a };
        let at = r.below(incoming as u64 / 2 + 1) as u32;
        let us = r.weighted(&[(5, 0u32), (1, 1000), (1, 300_000)]);
        s.side[role].stalls.push((at, us));
        if r.chance(1, 3) {
            s.side[role].stalls.push((at + incoming / 4, us));
        }
        if s.side[role].style == 0 {
            s.side[role].style = 1;
        }
    }
    // Opened while others are stalled.
    if r.chance(1, 2) {
        let l = p.streams.len() - 1;
        p.streams[l].at = r.range(10_000, 900_000) as u32;
    }
    p
}

fn many(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (100, 330), class: &[(1, 0)], net: 0, spread: &[(3, 0), (1, 5000)] });
    let level = if r.chance(1, 2) { 0 } else { 1 };
    p.net = net(r, level);
    if slow(&p.net) {
        for d in &mut p.net.dir {
            d.cap = d.cap.max(1000);
            d.short_r = 0;
            d.short_w = 0;
        }
    }
    let one = r.chance(2, 3);
    for s in &mut p.streams {
        s.a = s.a.min(50);
        s.b = s.b.min(50);
        s.rounds = 1;
        s.side[0].style = 0;
        s.side[1].style = 0;
        if one {
            s.opener = 0;
        }
    }
    if r.chance(1, 3) {
        add_drops(r, &mut p, 1, 4);
    }
    coarse(&mut p);
    p
}

/// With hundreds of tasks or megabytes of data, every needless switch costs a lot.
fn coarse(p: &mut Plan) {
    if p.sched.gap < 10 {
        p.sched.spurious = 0;
        if p.sched.gap == 1 {
            p.sched.gap = 5;
        }
    }
}

fn batches(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (4, 14), class: &[(4, 0), (1, 1)], net: 1, spread: &[(2, 0), (1, 2000)] });
    if r.chance(1, 2) {
        add_drops(r, &mut p, 1, 3);
    }
    let per = r.range(1, 3) as usize;
    for (i, s) in p.streams.iter_mut().enumerate() {
        s.batch = (i / per) as u32;
        s.side[0].linger = 0;
        s.side[1].linger = 0;
    }
    for c in &mut p.conf {
        c.max_streams = per as u32;
    }
    p
}

fn general_duo(r: &mut Rng) -> Plan {
    duo(r, &Duo { n: (1, 7), class: &[(3, 0), (5, 1), (2, 2), (1, 3)], net: 1, spread: &[(3, 0), (2, 500), (2, 300_000), (1, 25_000_000)] })
}
fn tight_duo(r: &mut Rng) -> Plan {
    duo(r, &Duo { n: (1, 5), class: &[(2, 0), (5, 1), (2, 2)], net: 2, spread: &[(3, 0), (2, 500), (1, 300_000), (1, 25_000_000)] })
}
fn bulk_duo(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (1, 4), class: &[(1, 2), (3, 3)], net: 0, spread: &[(3, 0), (1, 100_000)] });
    for d in &mut p.net.dir {
        d.lat_us = r.pick(&[0u32, 100, 5000, 50_000]);
        d.ns_per_byte = r.pick(&[0u32, 1, 10]);
    }
    coarse(&mut p);
    p
}
fn close_duo(r: &mut Rng) -> Plan {
    let lvl = r.pick(&[1u8, 1, 2]);
    let mut p = duo(r, &Duo { n: (1, 6), class: &[(3, 0), (4, 1), (2, 2)], net: lvl, spread: &[(3, 0), (2, 500)] });
    p.end = Default::default();
    for _ in 0..r.range(1, 2) {
        let s = r.below(2) as usize;
        p.end[s] = EndPlan { how: r.weighted(&[(1, 1u8), (6, 2)]), at: r.weighted(&[(2, 60u64), (3, 500), (3, 4000), (1, 40_000)]).pipe(|m| r.below(m)) as u32 };
    }
    p
}
fn fail_duo(r: &mut Rng) -> Plan {
    let lvl = r.pick(&[0u8, 1, 1, 2]);
    let mut p = duo(r, &Duo { n: (1, 6), class: &[(3, 0), (4, 1), (2, 2)], net: lvl, spread: &[(3, 0), (2, 500), (1, 100_000)] });
    if r.chance(3, 4) {
        add_faults(r, &mut p);
    } else {
        p.end[r.below(2) as usize] = EndPlan { how: 3, at: r.weighted(&[(2, 60u64), (3, 500), (3, 4000)]).pipe(|m| r.below(m)) as u32 };
    }
    if r.chance(1, 6) {
        p.end[r.below(2) as usize] = EndPlan { how: 2, at: r.below(2000) as u32 };
    }
    if r.chance(1, 5) {
        add_drops(r, &mut p, 1, 4);
    }
    p
}
fn drop_duo(r: &mut Rng) -> Plan {
    let lvl = r.pick(&[1u8, 1, 2]);
    let mut p = duo(r, &Duo { n: (1, 6), class: &[(3, 0), (4, 1), (3, 2)], net: lvl, spread: &[(3, 0), (2, 500), (1, 100_000)] });
    add_drops(r, &mut p, 1, 2);
    for s in &mut p.streams {
        if r.chance(1, 6) {
            let role = r.below(2) as usize;
            s.side[role].close_and_go = true;
            if r.chance(1, 8) {
                // The other side has more to write than it may.
                s.pattern = 0;
                *(if role == 0 { &mut s.b } else { &mut s.a }) = 400_000;
                *(if role == 0 { &mut s.a } else { &mut s.b }) = 0;
            }
        }
    }
    p
}
/// Long pauses and nothing else going on: every wake-up that is owed must be given, none comes by chance.
fn quiet_duo(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (1, 5), class: &[(3, 0), (2, 1), (1, 2)], net: 0, spread: &[(1, 20), (2, 500_000), (3, 8_000_000)] });
    p.sched.spurious = 0;
    p.sched.jumps.clear();
    p.sched.step_ns = r.pick(&[0u64, 100]);
    if r.chance(1, 2) {
        p.sched.gap = 0;
    }
    let drops = r.chance(1, 4);
    for c in &mut p.conf {
        c.drive = r.weighted(&[(3, 0u8), (1, 1), (1, 2)]);
    }
    for s in &mut p.streams {
        for x in &mut s.side {
            x.linger = r.pick(&[0u32, 100_000, 3_000_000]);
            if r.chance(1, 3) {
                x.wpause = r.pick(&[1000u32, 300_000]);
                x.wchunk = x.wchunk.max(s.a.max(s.b) / 12);
            }
        }
    }
    if drops {
        add_drops(r, &mut p, 1, 3);
    }
    p
}
fn half_duo(r: &mut Rng) -> Plan {
    let mut p = duo(r, &Duo { n: (1, 6), class: &[(6, 0), (3, 1), (1, 2)], net: 1, spread: &[(3, 0), (2, 500)] });
    for s in &mut p.streams {
        if r.chance(1, 3) {
            s.a = 0;
            if s.pattern == 3 {
                s.b = 0;
            }
        }
        for x in &mut s.side {
            x.close_twice = r.chance(1, 2);
            x.write_after_close = r.chance(1, 3);
        }
    }
    p
}
fn frag_duo(r: &mut Rng) -> Plan {
    let mut p = general_duo(r);
    for d in &mut p.net.dir {
        if d.short_w == 0 {
            d.short_w = r.pick(&[1u32, 3, 12, 13, 20, 1000]);
        }
        d.pend_w = r.pick(&[0u32, 2, 4, 10]);
        d.stage = r.pick(&[0u32, 0, 13, 100, 9000]);
    }
    if slow(&p.net) {
        for s in &mut p.streams {
            s.a = s.a.min(6000);
            s.b = if s.pattern == 3 { s.a } else { s.b.min(6000) };
        }
    }
    if r.chance(1, 3) {
        add_faults(r, &mut p);
    }
    if r.chance(1, 3) {
        add_drops(r, &mut p, 1, 4);
    }
    p
}
fn legal_solo(r: &mut Rng) -> Plan {
    let big = r.pick(&[0u8, 1, 1, 2]);
    solo(r, &Solo { w: LEGAL, len: (4, 45), sync: 2, big, net: 1 })
}
fn credit_solo(r: &mut Rng) -> Plan {
    solo(r, &Solo {
        w: &[(4, 0), (6, 1), (12, 2), (1, 3), (3, 5), (4, 7), (5, 20), (16, 21), (5, 23), (2, 25), (1, 26), (2, 10), (2, 11), (4, 30)],
        len: (6, 40),
        sync: 2,
        big: 2,
        net: 1,
    })
}
/// Several readers that want to grow their windows at the same moment.
fn grow_solo(r: &mut Rng) -> Plan {
    let mut p = Plan { world: "solo".into(), ..Default::default() };
    p.sched = sched(r);
    p.sched.gap = r.pick(&[1u32, 2, 3, 5, 10]);
    p.sched.spurious = 0;
    p.sched.step_ns = r.pick(&[0u64, 0, 100]);
    p.net = NetPlan::default();
    p.client = r.chance(1, 2);
    p.sync = false;
    let m = r.pick(&[2u32, 2, 3, 4]);
    p.conf = [conf(r, m), ConnPlan::default()];
    p.conf[0].max_streams = m;
    p.conf[0].split = 16_384;
    p.conf[0].extra_kib = Some(r.pick(&[100u32, 256, 256, 300, 512, 700, 1000]));
    for _ in 0..m {
        p.steps.push(Step::POpen { wu: r.chance(1, 2), credit: 0, n: 0, fin: false, skip: 0 });
    }
    p.steps.push(Step::Sleep { us: 3_000_000 });
    p.steps.push(Step::PPong);
    p.steps.push(Step::Idle);
    for _ in 0..r.range(1, 4) {
        for s in 0..m {
            p.steps.push(Step::PData { s, n: 262_144, chunk: 262_144, fin: false });
        }
        p.steps.push(Step::Idle);
        for s in 0..m {
            p.steps.push(Step::ARead { s, n: r.pick(&[262_144u32, 262_144, 200_000, 131_072]), chunk: 2_000_000, packet: r.chance(1, 4) });
        }
        for s in 0..m {
            p.steps.push(Step::ARead1 { s, n: 1 });
        }
        if r.chance(1, 4) {
            let s = r.below(m as u64) as u32;
            p.steps.push(Step::ADrop { s });
            p.steps.push(Step::POpen { wu: true, credit: 0, n: 0, fin: false, skip: 0 });
        }
        p.steps.push(Step::Idle);
    }
    p
}
/// Frames around the biggest one the protocol's implementations accept.
fn huge_solo(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: &[(2, 0), (2, 2), (2, 21), (2, 23), (1, 26), (2, 30)], len: (0, 6), sync: 2, big: 2, net: 0 });
    p.conf[0].split = r.pick(&[1_048_575u32, 1_048_576, 1_048_577, 1_100_000, 3_000_000, 8_000_000]);
    p.steps.push(if r.chance(1, 2) { Step::AOpen } else { Step::POpen { wu: r.chance(1, 2), credit: 2_000_000, n: 0, fin: false, skip: 0 } });
    for _ in 0..r.range(1, 3) {
        // Every stream gets some: which one the write lands on depends on the steps before.
        for s in 0..3 {
            p.steps.push(Step::PCredit { s, n: r.pick(&[800_000u32, 1_000_000, 3_000_000]), fin: false });
        }
        if r.chance(2, 3) {
            p.steps.push(Step::Idle);
        }
        let n = r.pick(&[1_048_575u32, 1_048_576, 1_048_577, 1_500_000, 3_000_000]);
        p.steps.push(Step::AWrite { s: r.below(3) as u32, n, chunk: r.pick(&[n, n, 1_048_577, 3_000_000]) });
        p.steps.push(Step::Idle);
    }
    p
}
fn window_solo(r: &mut Rng) -> Plan {
    solo(r, &Solo { w: &[(5, 0), (16, 1), (2, 3), (4, 7), (3, 20), (4, 21), (10, 22), (8, 23), (4, 24), (2, 27), (3, 31), (2, 30)], len: (8, 50), sync: 2, big: 2, net: 0 })
}
fn half_solo(r: &mut Rng) -> Plan {
    solo(r, &Solo { w: &[(6, 0), (6, 1), (2, 2), (8, 3), (2, 4), (2, 5), (6, 20), (6, 21), (4, 22), (6, 23), (10, 26), (2, 27), (4, 30)], len: (5, 35), sync: 2, big: 0, net: 1 })
}
fn drop_solo(r: &mut Rng) -> Plan {
    solo(r, &Solo { w: &[(8, 0), (8, 1), (3, 2), (4, 3), (4, 4), (3, 5), (6, 20), (8, 21), (4, 22), (4, 23), (4, 26), (10, 27), (8, 13), (4, 30)], len: (5, 35), sync: 2, big: 1, net: 1 })
}
fn close_solo(r: &mut Rng) -> Plan {
    let mut p = solo(r, &Solo { w: LEGAL, len: (2, 25), sync: 2, big: 1, net: 1 });
    if r.chance(1, 3) {
        p.steps.push(Step::PStall);
        let k = r.weighted(LEGAL);
        p.steps.push(step(r, k, 1));
    }
    p.steps.push(Step::CClose);
    for _ in 0..r.below(4) {
        let k = r.weighted(LEGAL);
        p.steps.push(step(r, k, 0));
    }
    p
}

type G = fn(&mut Rng) -> Plan;

fn mixture(id: &str) -> &'static [(u32, &'static str, G)] {
    match id {
        "P01" => &[(5, "duo", general_duo), (2, "tight", tight_duo), (1, "bulk", bulk_duo), (2, "drop", drop_duo), (2, "peer", legal_solo)],
        "P02" => &[(4, "tight", tight_duo), (3, "duo", general_duo), (1, "bulk", bulk_duo), (1, "drop", drop_duo), (2, "peer", legal_solo), (1, "many", many), (3, "quiet", quiet_duo)],
        "P03" => &[(5, "half", half_duo), (5, "half-peer", half_solo), (1, "drop", drop_duo), (1, "quiet", quiet_duo)],
        "P04" => &[(5, "drop", drop_duo), (1, "quiet", quiet_duo), (5, "drop-peer", drop_solo)],
        "P05" => &[(5, "credit-peer", credit_solo), (1, "huge-peer", huge_solo), (2, "duo", general_duo), (1, "bulk", bulk_duo), (1, "violations", violations)],
        "P06" => &[(4, "window-peer", window_solo), (1, "grow-peer", grow_solo), (3, "tuning", tuning), (2, "bulk", bulk_duo), (2, "duo", general_duo), (1, "stall", stalls)],
        "P07" => &[(10, "tuning", tuning), (4, "grow-peer", grow_solo), (1, "bulk", bulk_duo), (1, "window-peer", window_solo), (1, "quiet", quiet_duo)],
        "P08" => &[(1, "stall", stalls)],
        "P09" => &[(3, "duo", general_duo), (2, "many", many), (3, "exhaustion", exhaustion), (3, "peer", legal_solo), (2, "drop", drop_duo)],
        "P10" => &[(4, "backlog", backlog), (4, "peer", legal_solo), (2, "many", many), (2, "drop", drop_duo), (2, "duo", general_duo), (1, "quiet", quiet_duo)],
        "P11" => &[(6, "limits", limits), (4, "batches", batches), (1, "violations", violations)],
        "P12" => &[(1, "violations", violations)],
        "P13" => &[(1, "hostile", hostile)],
        "P14" => &[(5, "close", close_duo), (3, "close-peer", close_solo), (1, "ends", ends)],
        "P15" => &[(6, "fail", fail_duo), (4, "ends", ends), (1, "close", close_duo)],
        "P16" => &[(4, "fragments", frag_duo), (1, "huge-peer", huge_solo), (2, "peer", legal_solo), (1, "fail", fail_duo), (1, "tight", tight_duo), (1, "close", close_duo)],
        "P17" => &[(5, "keepalive", keepalive), (1, "tight", tight_duo), (1, "duo", general_duo)],
        "P18" => &[(6, "peer", legal_solo), (1, "huge-peer", huge_solo), (1, "credit-peer", credit_solo), (1, "half-peer", half_solo), (1, "keepalive", keepalive)],
        _ => &[(1, "duo", general_duo)],
    }
}

pub const IDS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18"];

pub fn plan(id: &str, seed: u64) -> Plan {
    let mut r = Rng::new(mix(seed) ^ 0x1357);
    let m = mixture(id);
    let total: u64 = m.iter().map(|x| x.0 as u64).sum();
    let mut k = r.below(total);
    let mut g = &m[0];
    for x in m {
        if k < x.0 as u64 {
            g = x;
            break;
        }
        k -= x.0 as u64;
    }
    let mut p = (g.2)(&mut r);
    p.profile = g.1.into();
    p.seed = seed;
    p
}
