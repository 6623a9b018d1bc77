//! Running a check: workers that each run a share of the seeds, and their supervisor.
use crate::shrink::{self, Replay};
use crate::{gen, run};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default)]
pub struct Summary {
    pub runs: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u128,
    pub decisions: u64,
    pub delivered: u64,
    pub frames: u64,
    pub counts: BTreeMap<String, u64>,
    pub profiles: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub rerun: u64,
    pub rerun_differs: u64,
    pub others: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<serde_json::Value>,
}

impl Summary {
    fn add(&mut self, o: Summary) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.decisions += o.decisions;
        self.delivered += o.delivered;
        self.frames += o.frames;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.profiles {
            *self.profiles.entry(k).or_default() += v;
        }
        self.hashes.extend(o.hashes);
        self.rerun += o.rerun;
        self.rerun_differs += o.rerun_differs;
        for (k, v) in o.others {
            self.others.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        self.samples.extend(o.samples);
    }
}

fn limit_memory() {
    // A run that eats memory must end in a failed allocation of its own.
    let l = libc::rlimit { rlim_cur: 5 << 30, rlim_max: 5 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

/// worker ID first stride count wall_s
pub fn worker(a: &[String]) {
    limit_memory();
    let id = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (first, stride, count, wall) = (n(1), n(2), n(3), n(4));
    let t0 = Instant::now();
    let mut s = Summary::default();
    let out = std::io::stdout();
    for i in 0..count {
        if t0.elapsed().as_secs() >= wall {
            break;
        }
        let seed = first + i * stride;
        {
            let mut o = out.lock();
            let _ = writeln!(o, "b {seed}");
            let _ = o.flush();
        }
        let p = gen::plan(id, seed);
        let o = run::run(&p, None, id, false);
        if let Some(v) = o.violations.first() {
            let mut l = out.lock();
            let _ = writeln!(l, "v {}", json!({"seed": seed, "class": v.class, "msg": v.msg}));
            let _ = l.flush();
        }
        s.runs += 1;
        s.steps += o.steps;
        s.switches += o.switches;
        s.sim_ns += o.now as u128;
        s.decisions += o.choices.len() as u64;
        s.delivered += o.delivered;
        s.frames += o.frames;
        for (k, v) in &o.counts {
            *s.counts.entry(k.to_string()).or_default() += v;
        }
        *s.profiles.entry(p.profile.clone()).or_default() += 1;
        if o.switches > 0 && o.frames > 0 {
            s.hashes.push(o.hash);
        }
        for v in &o.others {
            s.others.entry(v.class.clone()).or_insert((0, seed)).0 += 1;
        }
        if i % 97 == 5 && o.steps < 200_000 {
            // The same decisions must give the same run.
            s.rerun += 1;
            let again = run::run(&p, Some(o.choices.clone()), id, false);
            if again.hash != o.hash || again.steps != o.steps {
                s.rerun_differs += 1;
                eprintln!("run of seed {seed} is not repeatable");
            }
        }
        if i == 3 {
            let mut small = serde_json::to_value(&p).unwrap();
            for k in ["streams", "steps"] {
                if let Some(x) = small.get_mut(k).and_then(|x| x.as_array_mut()) {
                    let n = x.len();
                    if n > 4 {
                        x.truncate(4);
                        x.push(json!(format!("... {} more", n - 4)));
                    }
                }
            }
            s.samples.push(json!({"seed": seed, "plan": small, "steps": o.steps, "task_switches": o.switches, "decisions": o.choices.len(), "simulated_ns": o.now, "frames": o.frames, "bytes_delivered": o.delivered, "trace_hash": format!("{:016x}", o.hash)}));
        }
    }
    let mut l = out.lock();
    let _ = writeln!(l, "e {}", serde_json::to_string(&s).unwrap());
    let _ = l.flush();
}

enum Msg {
    Line(usize, String),
    Gone(usize),
}

struct Found {
    seed: u64,
    class: String,
    msg: String,
    dbg: bool,
    /// The process did not survive the run.
    fatal: bool,
}

/// Runs for which the quick tier takes about half a minute on eight cores.
fn runs(id: &str, tier: &str) -> (u64, u64) {
    let quick = match id {
        "P01" => 20_000,
        "P02" => 12_000,
        "P03" => 60_000,
        "P04" => 30_000,
        "P05" => 16_000,
        "P06" => 16_000,
        "P07" => 24_000,
        "P08" => 20_000,
        "P09" => 9_000,
        "P10" => 5_000,
        "P11" => 60_000,
        "P12" => 24_000,
        "P13" => 60_000,
        "P14" => 60_000,
        "P15" => 60_000,
        "P16" => 30_000,
        "P17" => 40_000,
        _ => 80_000,
    };
    match tier {
        "quick" => (quick, 90),
        _ => (quick * 400, 780),
    }
}

fn exec(exe: &str, args: &[String]) -> Child {
    Command::new(exe).args(args).stdout(Stdio::piped()).stderr(Stdio::inherit()).stdin(Stdio::null()).spawn().expect("worker")
}

/// Run one seed in a process of its own. None: no violation.
fn confirm(exe: &str, id: &str, seed: u64) -> Option<String> {
    let mut c = exec(exe, &["one".into(), id.into(), seed.to_string()]);
    let t = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(st) => {
                use std::os::unix::process::ExitStatusExt;
                return match (st.code(), st.signal()) {
                    (Some(0), _) | (Some(1), _) => None,
                    (c, s) => Some(format!("the process of the run died (exit code {c:?}, signal {s:?})")),
                };
            }
            None if t.elapsed() > Duration::from_secs(100) => {
                let _ = c.kill();
                let _ = c.wait();
                return Some("the run does not come to an end: 100 s without reaching the next preemption point".into());
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

/// check ID tier release-binary simdbg-binary verif-dir
pub fn check(a: &[String]) -> i32 {
    let (id, tier, rel, dbg, dir) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let (total, wall) = runs(id, tier);
    let total = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let wall: u64 = std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(wall);
    let w = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16) as u64;
    let first = base.wrapping_sub(1).wrapping_mul(1_000_000_007) & 0xFFFF_FFFF_FFFF;
    let (tx, rx) = mpsc::channel();
    let mut kids = vec![];
    let mut last: Vec<(u64, Instant)> = vec![];
    for k in 0..w {
        // Three of eight workers run the build with debug assertions and overflow checks.
        let d = k % 8 >= 5;
        let exe = if d { dbg } else { rel };
        let mut c = exec(exe, &["worker".into(), id.clone(), (first + k).to_string(), w.to_string(), (total / w + 1).to_string(), wall.to_string()]);
        let r = BufReader::new(c.stdout.take().unwrap());
        let tx = tx.clone();
        let k = k as usize;
        std::thread::spawn(move || {
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(Msg::Line(k, l)).is_err() {
                            return;
                        }
                    }
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::Gone(k));
        });
        kids.push((c, d));
        last.push((first + k as u64, Instant::now()));
    }
    drop(tx);
    let mut sum = Summary::default();
    let mut ended = BTreeSet::new();
    let mut gone = BTreeSet::new();
    let mut found: Option<Found> = None;
    let mut harness: Option<String> = None;
    while gone.len() < kids.len() && found.is_none() {
        let mut suspect = None;
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Line(k, l)) => {
                if let Some(x) = l.strip_prefix("b ") {
                    last[k] = (x.parse().unwrap_or(0), Instant::now());
                } else if let Some(x) = l.strip_prefix("v ") {
                    let v: serde_json::Value = serde_json::from_str(x).unwrap_or_default();
                    found = Some(Found {
                        seed: v["seed"].as_u64().unwrap_or(0),
                        class: v["class"].as_str().unwrap_or("").into(),
                        msg: v["msg"].as_str().unwrap_or("").into(),
                        dbg: kids[k].1,
                        fatal: false,
                    });
                } else if let Some(x) = l.strip_prefix("e ") {
                    match serde_json::from_str::<Summary>(x) {
                        Ok(s) => sum.add(s),
                        Err(e) => harness = Some(format!("summary of worker {k}: {e}")),
                    }
                    ended.insert(k);
                }
            }
            Ok(Msg::Gone(k)) => {
                gone.insert(k);
                let _ = kids[k].0.wait();
                if !ended.contains(&k) {
                    suspect = Some(k);
                }
            }
            Err(_) => {}
        }
        for k in 0..kids.len() {
            if !gone.contains(&k) && !ended.contains(&k) && last[k].1.elapsed() > Duration::from_secs(90) {
                let _ = kids[k].0.kill();
                suspect = Some(k);
                gone.insert(k);
            }
        }
        if let Some(k) = suspect {
            let seed = last[k].0;
            let exe = if kids[k].1 { dbg } else { rel };
            match confirm(exe, id, seed) {
                Some(m) => found = Some(Found { seed, class: "run never ends or kills the process".into(), msg: m, dbg: kids[k].1, fatal: true }),
                None => harness = Some(format!("worker {k} ended at seed {seed}, which runs well alone")),
            }
        }
    }
    for (c, _) in &mut kids {
        let _ = c.kill();
        let _ = c.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut line = None;
    if let Some(f) = &found {
        violations = 1;
        let exe = if f.dbg { dbg } else { rel };
        let rdir = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{id}-{}.json", f.seed);
        let _ = std::fs::remove_file(&path);
        if !f.fatal {
            let secs = if tier == "quick" { 60 } else { 240 };
            let mut c = exec(exe, &["shrink".into(), id.clone(), f.seed.to_string(), path.clone(), secs.to_string()]);
            let t = Instant::now();
            while c.try_wait().ok().flatten().is_none() {
                if t.elapsed() > Duration::from_secs(secs + 120) {
                    let _ = c.kill();
                    let _ = c.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
        if !std::path::Path::new(&path).exists() {
            let r = Replay {
                property: id.clone(),
                binary: if f.dbg { "simdbg" } else { "release" }.into(),
                class: f.class.clone(),
                msg: f.msg.clone(),
                step: 0,
                time_ns: 0,
                hash: String::new(),
                found_with_seed: f.seed,
                shrink: "not minimised".into(),
                plan: gen::plan(id, f.seed),
                choices: None,
                trace: vec![],
            };
            let _ = std::fs::write(&path, serde_json::to_string(&r).unwrap());
        }
        println!("seed {} ({} build): {}: {}", f.seed, if f.dbg { "simdbg" } else { "release" }, f.class, f.msg);
        if !f.fatal {
            let st = Command::new(exe).args(["replay", &path, "quiet"]).stdin(Stdio::null()).status();
            println!("replay in a fresh process: {}", if st.is_ok_and(|s| s.code() == Some(1)) { "reproduced" } else { "NOT reproduced" });
        }
        line = Some(format!("VIOLATION property={id} replay={path}"));
    }
    sum.hashes.sort_unstable();
    sum.hashes.dedup();
    let wall_s = t0.elapsed().as_secs_f64();
    let pick = |pre: &str| -> BTreeMap<String, u64> { sum.counts.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k.trim_start_matches(pre).to_string(), *v)).collect() };
    let mut samples = std::mem::take(&mut sum.samples);
    samples.truncate(4);
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "wall_s": wall_s,
        "violations": violations,
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.hashes.len(),
            "rule": "One evaluation is one simulated run: a plan (scenario, configuration, network, faults) and every scheduling decision are drawn from the seed. Non-trivial: the run switched tasks and put at least one frame on the wire. Distinct: by a hash over all scheduling decisions that were taken, frames, application events and times of the run.",
            "samples": samples,
            "first_seed": first,
            "runs_per_hour": (sum.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (sum.runs as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": (sum.sim_ns / 1_000_000) as f64 / 1000.0,
            "scheduler_steps": sum.steps,
            "task_switches": sum.switches,
            "decisions": sum.decisions,
            "frames_on_the_wire": sum.frames,
            "payload_bytes_delivered": sum.delivered,
            "scenario_profiles": sum.profiles,
            "faults_injected": pick("fault_"),
            "situations_reached": pick("probe_"),
            "excused": pick("excused_"),
            "known_findings_met": pick("known_"),
            "runs_repeated_for_determinism": sum.rerun,
            "runs_that_did_not_repeat": sum.rerun_differs,
            "violations_of_other_properties_seen": sum.others.iter().map(|(k, v)| json!({"class": k, "runs": v.0, "first_seed": v.1})).collect::<Vec<_>>(),
            "builds": {"release": "5 of 8 workers", "simdbg (debug assertions, overflow checks)": "3 of 8 workers"},
            "real_code": "the whole yamux crate (connection, streams, frame codec, flow control, RTT, closing, cleanup) and the futures crate's channels, wakers and SelectAll",
            "stubs": "transport (simulated socket pair), task scheduler, clock (clock_gettime), getrandom, parking_lot (a mutex that is a preemption point), the scripted remote peer of the solo world"
        },
        "assumptions": [
            "seeded search, not enumeration: what the seeds of this run did not reach is not covered",
            "preemption points are lock operations, socket calls and waits; code between them runs without interruption, as it has no other shared state (std atomics and the futures channels are taken as atomic)"
        ]
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        harness = Some(format!("evidence: {e}"));
    }
    println!(
        "{id} {tier}: {} runs ({} distinct), {} steps, {:.1} s simulated, {:.1} s",
        sum.runs,
        sum.hashes.len(),
        sum.steps,
        sum.sim_ns as f64 / 1e9,
        wall_s
    );
    if let Ok(known) = std::fs::read_to_string(format!("{dir}/known-findings.txt")) {
        for l in known.lines() {
            let Some(rest) = l.strip_prefix("finding: ") else { continue };
            let mut w = rest.splitn(3, ' ');
            let (Some(p), Some(h), Some(text)) = (w.next(), w.next(), w.next()) else { continue };
            let n = sum.counts.get(h.replace("history=", "known_").as_str()).copied().unwrap_or(0);
            if p == format!("property={id}") && n > 0 {
                println!("KNOWN-FINDING: {p} {text} ({n} times in this run)");
            }
        }
    }
    for (k, v) in &sum.others {
        println!("note: {} run(s) violated another property: {k} (first seed {})", v.0, v.1);
    }
    if let Some(l) = line {
        println!("{l}");
        return 1;
    }
    if let Some(h) = harness {
        println!("error of the check: {h}");
        return 2;
    }
    0
}

pub fn one(a: &[String]) -> i32 {
    limit_memory();
    let p = gen::plan(&a[0], a[1].parse().unwrap());
    let o = run::run(&p, None, &a[0], false);
    for v in &o.violations {
        println!("{}: {}", v.class, v.msg);
    }
    !o.violations.is_empty() as i32
}

pub fn shrink(a: &[String]) -> i32 {
    limit_memory();
    let p = gen::plan(&a[0], a[1].parse().unwrap());
    match shrink::shrink(&a[0], p, Duration::from_secs(a[3].parse().unwrap())) {
        Some(r) => {
            let tmp = format!("{}.tmp", a[2]);
            std::fs::write(&tmp, serde_json::to_string(&r).unwrap()).expect("write");
            std::fs::rename(&tmp, &a[2]).expect("rename");
            0
        }
        None => 3,
    }
}

pub fn replay(a: &[String]) -> i32 {
    limit_memory();
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("replay file")).expect("replay file");
    let quiet = a.len() > 1;
    if r.binary != shrink::profile() {
        println!("note: found with the {} build, this is {}", r.binary, shrink::profile());
    }
    let o = run::run(&r.plan, r.choices.as_ref().map(|c| shrink::unrle(c)), &r.property, true);
    if !quiet {
        for l in &o.log {
            println!("{l}");
        }
    }
    match o.violations.iter().find(|v| v.class == r.class) {
        Some(v) => {
            let same = format!("{:016x}", o.hash) == r.hash && v.step == r.step && v.time_ns == r.time_ns;
            println!("{}: {}", v.class, v.msg);
            println!("property {} violated at step {}, {} ns{}", r.property, v.step, v.time_ns, if same { ", exactly as recorded" } else { " (run differs from the recorded one)" });
            1
        }
        None => {
            println!("no violation of class {:?}; {:?}", r.class, o.violations);
            0
        }
    }
}
