mod app;
mod check;
mod duo;
mod gen;
mod net;
mod plan;
mod rng;
mod run;
mod sched;
mod shrink;
mod solo;
mod sys;
mod wire;

/// First stream identifier of connections created by this thread from now on.
pub fn first_id(_id: Option<u32>) {
    #[cfg(yamux_sim)]
    yamux::sim::set_first_id(_id);
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if sched::active() {
            sched::log_line(format!("    | {}", r.args()));
        }
    }
    fn flush(&self) {}
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        sched::note_panic(format!("{m} at {l}"));
        if !sched::active() {
            eprintln!("harness panic: {m} at {l}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "try" => {
            // try <property> <first seed> <n>
            let (id, s0, n) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
            let t = std::time::Instant::now();
            let mut classes: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
            let (mut steps, mut choices) = (0, 0);
            let mut slowest = (0.0f64, 0u64);
            let focus = a.get(5).cloned().unwrap_or("none".into());
            for seed in s0..s0 + n {
                let p = gen::plan(id, seed);
                let t1 = std::time::Instant::now();
                let o = run::run(&p, None, &focus, false);
                let d = t1.elapsed().as_secs_f64();
                if d > slowest.0 {
                    slowest = (d, seed);
                }
                steps += o.steps;
                choices += o.choices.len();
                for v in o.violations.iter().chain(&o.others) {
                    let e = classes.entry(format!("{}|{:?}", v.class, v.tags)).or_insert((0, seed, format!("[{}] {}", p.profile, v.msg)));
                    e.0 += 1;
                }
            }
            println!("{n} runs in {:?}, {steps} steps, {choices} choices, slowest {slowest:?}", t.elapsed());
            for (c, (n, s, m)) in classes {
                println!("{n:>6} {c}\n         seed {s}: {}", m.chars().take(600).collect::<String>());
            }
        }
        "show" => {
            if std::env::var_os("SIM_LOG").is_some() {
                log::set_logger(&Logger).unwrap();
                log::set_max_level(log::LevelFilter::Trace);
            }
            let (id, seed) = (&a[2], a[3].parse::<u64>().unwrap());
            let p = gen::plan(id, seed);
            println!("{}", serde_json::to_string(&p).unwrap());
            let o = run::run(&p, None, a.get(4).map(|s| s.as_str()).unwrap_or("none"), true);
            for l in &o.log {
                println!("{l}");
            }
            println!("{:?} {:?} steps {} choices {} now {} {:?}", o.violations, o.others, o.steps, o.choices.len(), o.now, o.counts);
        }
        "worker" => check::worker(&a[2..]),
        "one" => std::process::exit(check::one(&a[2..])),
        "shrink" => std::process::exit(check::shrink(&a[2..])),
        "replay" => std::process::exit(check::replay(&a[2..])),
        "check" => std::process::exit(check::check(&a[2..])),
        x => {
            eprintln!("unknown mode {x}");
            std::process::exit(2);
        }
    }
}
