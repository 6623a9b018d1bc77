//! Minimising a failing run, and the replay files it ends up in.
use crate::plan::Plan;
use crate::run::{self, Outcome};
use crate::sched::Violation;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::time::{Duration, Instant};

/// Everything needed to repeat a run exactly.
#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    /// Build profile of the binary in which the run fails.
    pub binary: String,
    pub class: String,
    pub msg: String,
    pub step: u64,
    pub time_ns: u64,
    /// Hash over all events of the run.
    pub hash: String,
    pub found_with_seed: u64,
    pub shrink: String,
    pub plan: Plan,
    /// The schedule: (decision, how often in a row); after the end of the list every decision is 0.
    /// None: decisions are drawn from the seed (runs that end the process).
    pub choices: Option<Vec<(u32, u32)>>,
    /// What happened, for reading.
    pub trace: Vec<String>,
}

fn rle(c: &[u32]) -> Vec<(u32, u32)> {
    let mut out: Vec<(u32, u32)> = vec![];
    for &v in c {
        match out.last_mut() {
            Some(l) if l.0 == v => l.1 += 1,
            _ => out.push((v, 1)),
        }
    }
    out
}
pub fn unrle(c: &[(u32, u32)]) -> Vec<u32> {
    c.iter().flat_map(|(v, n)| std::iter::repeat_n(*v, *n as usize)).collect()
}

struct Shrinker {
    property: String,
    class: String,
    end: Instant,
    runs: u32,
    max_runs: u32,
    cap: u64,
}

impl Shrinker {
    fn over(&self) -> bool {
        self.runs >= self.max_runs || Instant::now() >= self.end
    }
    fn fails(&mut self, p: &Plan, choices: Option<Vec<u32>>) -> Option<(Outcome, Violation)> {
        if self.over() {
            return None;
        }
        self.runs += 1;
        let o = run::run_capped(p, choices, &self.property, false, self.cap);
        let v = o.violations.iter().find(|v| v.class == self.class)?.clone();
        Some((o, v))
    }

    /// Does the plan fail with some schedule close at hand? Then with which decisions.
    fn try_plan(&mut self, p: &Plan, last: &[u32]) -> Option<Vec<u32>> {
        if let Some((o, _)) = self.fails(p, Some(last.to_vec())) {
            return Some(o.choices);
        }
        let (o, _) = self.fails(p, None)?;
        Some(o.choices)
    }
}

const ARRAYS: &[&str] = &["/steps", "/streams", "/net/faults", "/net/dir/0/stalls", "/net/dir/1/stalls", "/sched/jumps"];

/// Numbers that may be made smaller without changing what kind of run it is.
fn numbers(v: &Value, path: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let skip = ["conf", "seed", "client", "world", "profile", "kind", "how", "opener", "ids_left", "ty", "flags", "sid", "side", "op", "end", "pattern", "style", "rapi", "rate", "strategy", "batch", "hex", "len", "gone"];
                // `side` of a stream plan is an array of settings.
                if skip.contains(&k.as_str()) && !x.is_array() {
                    continue;
                }
                if k == "conf" || k == "end" || k == "rate" || k == "faults" {
                    continue;
                }
                numbers(x, format!("{path}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                numbers(x, format!("{path}/{i}"), out);
            }
        }
        Value::Number(n) if n.as_u64().is_some_and(|n| n > 0) => out.push(path),
        Value::Bool(true) => out.push(path),
        _ => {}
    }
}

pub fn shrink(property: &str, plan: Plan, budget: Duration) -> Option<Replay> {
    let seed = plan.seed;
    let o = run::run(&plan, None, property, false);
    let v = o.violations.first()?.clone();
    let endless = v.class == "no end in sight";
    let mut s = Shrinker {
        property: property.into(),
        class: v.class.clone(),
        end: Instant::now() + budget,
        runs: 0,
        max_runs: if endless { 40 } else { 4000 },
        cap: if endless { run::cap() } else { (o.steps * 3 + 50_000).min(run::cap()) },
    };
    let (steps0, n0) = (o.steps, o.choices.len());
    let mut plan = plan;
    let mut last = o.choices;
    // Parts of the plan.
    loop {
        let before = serde_json::to_string(&plan).unwrap().len();
        for a in ARRAYS {
            let mut size = usize::MAX;
            loop {
                let j = serde_json::to_value(&plan).unwrap();
                let n = j.pointer(a).and_then(|x| x.as_array()).map_or(0, |x| x.len());
                if n == 0 || size == 0 || s.over() {
                    break;
                }
                size = size.min(n);
                let mut i = 0;
                let mut hit = false;
                loop {
                    let j = serde_json::to_value(&plan).unwrap();
                    let n = j.pointer(a).and_then(|x| x.as_array()).map_or(0, |x| x.len());
                    if i >= n || s.over() {
                        break;
                    }
                    let mut c = j.clone();
                    let arr = c.pointer_mut(a).unwrap().as_array_mut().unwrap();
                    arr.drain(i..(i + size).min(n));
                    match serde_json::from_value::<Plan>(c).ok().and_then(|p| s.try_plan(&p, &last).map(|l| (p, l))) {
                        Some((p, l)) => {
                            plan = p;
                            last = l;
                            hit = true;
                        }
                        None => i += size,
                    }
                }
                if size == 1 && !hit {
                    break;
                }
                size = if size == 1 { 1 } else { size / 2 };
            }
        }
        let mut paths = vec![];
        numbers(&serde_json::to_value(&plan).unwrap(), String::new(), &mut paths);
        for p in paths {
            if s.over() {
                break;
            }
            let j = serde_json::to_value(&plan).unwrap();
            let Some(old) = j.pointer(&p).cloned() else { continue };
            let cands: Vec<Value> = match &old {
                Value::Bool(_) => vec![Value::Bool(false)],
                Value::Number(n) => {
                    let n = n.as_u64().unwrap_or(0);
                    let mut c = vec![0, 1, n / 2];
                    c.retain(|x| *x < n);
                    c.dedup();
                    c.into_iter().map(Value::from).collect()
                }
                _ => continue,
            };
            for c in cands {
                let mut k = j.clone();
                *k.pointer_mut(&p).unwrap() = c;
                let Ok(q) = serde_json::from_value::<Plan>(k) else { continue };
                if let Some(l) = s.try_plan(&q, &last) {
                    plan = q;
                    last = l;
                    break;
                }
            }
        }
        if s.over() || serde_json::to_string(&plan).unwrap().len() >= before {
            break;
        }
    }
    // The schedule: as few disruptive decisions as possible, and a short list.
    let mut size = (last.len() / 2).max(1);
    while size > 0 && !s.over() {
        let mut i = 0;
        while i < last.len() && !s.over() {
            let hi = (i + size).min(last.len());
            if last[i..hi].iter().any(|x| *x != 0) {
                let mut c = last.clone();
                c[i..hi].fill(0);
                if let Some((o, _)) = s.fails(&plan, Some(c)) {
                    last = o.choices;
                }
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    while last.last() == Some(&0) {
        last.pop();
    }
    // The final word.
    let o = run::run(&plan, Some(last.clone()), property, true);
    let v = o.violations.iter().find(|v| v.class == s.class)?.clone();
    let mut trace = o.log.clone();
    if trace.len() > 400 {
        let cut = trace.len() - 400;
        trace.drain(..cut);
        trace.insert(0, format!("({cut} earlier lines left out)"));
    }
    Some(Replay {
        property: property.into(),
        binary: profile().into(),
        class: v.class.clone(),
        msg: v.msg.clone(),
        step: v.step,
        time_ns: v.time_ns,
        hash: format!("{:016x}", o.hash),
        found_with_seed: seed,
        shrink: format!("{} runs; steps {steps0} -> {}, decisions {n0} -> {}", s.runs, o.steps, last.len()),
        plan,
        choices: Some(rle(&last)),
        trace,
    })
}

pub fn profile() -> &'static str {
    if cfg!(debug_assertions) {
        "simdbg"
    } else {
        "release"
    }
}
