//! One simulated run on a thread of its own.
use crate::plan::Plan;
use crate::rng::{mix, Chooser};
use crate::sched::{self, End, Violation};
use crate::{duo, solo};
use std::collections::BTreeMap;

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub others: Vec<Violation>,
    pub counts: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub now: u64,
    pub choices: Vec<u32>,
    pub log: Vec<String>,
    pub delivered: u64,
    pub frames: u64,
}

/// Steps after which a run counts as endless.
pub fn cap() -> u64 {
    std::env::var("SIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(6_000_000)
}

pub fn run(plan: &Plan, choices: Option<Vec<u32>>, focus: &str, verbose: bool) -> Outcome {
    run_capped(plan, choices, focus, verbose, cap())
}

pub fn run_capped(plan: &Plan, choices: Option<Vec<u32>>, focus: &str, verbose: bool, cap: u64) -> Outcome {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || run_here(plan, choices, focus, verbose, cap))
            .expect("thread")
            .join()
    });
    r.unwrap_or_else(|p| {
        let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        Outcome {
            violations: vec![Violation { tags: vec!["*".into()], class: "panic outside of a task".into(), msg, step: 0, time_ns: 0 }],
            others: vec![],
            counts: Default::default(),
            hash: 0,
            steps: 0,
            switches: 0,
            now: 0,
            choices: vec![],
            log: vec![],
            delivered: 0,
            frames: 0,
        }
    })
}

fn run_here(plan: &Plan, choices: Option<Vec<u32>>, focus: &str, verbose: bool, cap: u64) -> Outcome {
    let ch = match choices {
        Some(c) => Chooser::replay(c),
        None => Chooser::random(mix(plan.seed ^ 0xC0FFEE)),
    };
    sched::start(plan.sched.clone(), ch, mix(plan.seed ^ 0xABCD), focus, cap, verbose);
    let (delivered, frames);
    let mut clean;
    if plan.world == "solo" {
        let w = solo::build(plan);
        let e = sched::run();
        solo::finalize(&w, e);
        clean = e == End::Quiescent;
        delivered = solo::delivered(&w);
        frames = solo::ledger(&w).borrow().sides.iter().map(|s| s.tx_frames).sum();
        clean &= !sched::stopped();
        if !clean {
            std::mem::forget(w);
        }
    } else {
        let w = duo::build(plan);
        let e = sched::run();
        duo::finalize(&w, e);
        clean = e == End::Quiescent;
        delivered = duo::delivered(&w);
        frames = duo::ledger(&w).borrow().sides.iter().map(|s| s.tx_frames).sum();
        clean &= !sched::stopped();
        if !clean {
            std::mem::forget(w);
        }
    }
    let mut sim = sched::finish(clean);
    let out = Outcome {
        violations: std::mem::take(&mut sim.violations),
        others: std::mem::take(&mut sim.others),
        counts: std::mem::take(&mut sim.counts),
        hash: sim.hash,
        steps: sim.steps,
        switches: sim.switches,
        now: sim.now,
        choices: std::mem::take(&mut sim.ch.log),
        log: std::mem::take(&mut sim.log),
        delivered,
        frames,
    };
    out
}
