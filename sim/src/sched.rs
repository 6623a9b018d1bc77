//! The simulator core: one OS thread, tasks as coroutines, virtual time, seeded choice of who runs.
use crate::rng::{Chooser, Rng};
use crate::sys;
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use serde::{Deserialize, Serialize};
use simhook::Ev;
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type Aid = usize;

enum Resume {
    Go,
    Kill,
}
enum Y {
    Park,
    Preempt,
    Locked(usize),
}
type Co = Coroutine<Resume, Y, ()>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Running,
    Parked,
    Locked(usize),
    Done,
}

struct Actor {
    co: Option<Co>,
    st: St,
    woken: bool,
    gen: u64,
    node: usize,
    name: String,
    prio: u64,
}

/// How the schedule of a run is drawn.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct SchedPlan {
    /// 0 first-in-first-out, 1 uniform, 2 random priorities with change points, 3 last-in-first-out mix
    pub strategy: u8,
    /// Mean number of preemption points between preemptions; 0: tasks only yield when they wait.
    pub gap: u32,
    /// Wakers of earlier polls are dead: only the one of the latest poll wakes the task.
    pub fresh: bool,
    /// One in `spurious` steps wakes a waiting task for no reason; 0 never.
    pub spurious: u32,
    /// Simulated nanoseconds each scheduling step takes.
    pub step_ns: u64,
    /// Clock rate (1/1000) of the two nodes.
    pub rate: [u32; 2],
    /// Clock jumps: (at step, node, milliseconds forward).
    pub jumps: Vec<(u32, u8, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub tags: Vec<String>,
    pub class: String,
    pub msg: String,
    pub step: u64,
    pub time_ns: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// Nothing left to run.
    Quiescent,
    /// Stopped by a violation.
    Stopped,
    /// Step budget used up while the application still made progress.
    Cap,
    /// Many steps without progress.
    Livelock,
}

type Job = Box<dyn FnOnce()>;

pub struct IdleCell {
    done: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}

pub struct Sim {
    actors: Vec<Actor>,
    ready: Vec<Aid>,
    cur: Option<Aid>,
    pub now: u64,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    jobs: BTreeMap<(u64, u64), Job>,
    seq: u64,
    idle: VecDeque<Rc<IdleCell>>,
    pub ch: Chooser,
    strat: Rng,
    plan: SchedPlan,
    gap_left: u32,
    pub steps: u64,
    pub ticks: u64,
    pub cap: u64,
    tick_waits: Vec<(u64, Rc<IdleCell>)>,
    pub hash: u64,
    killing: bool,
    stop: bool,
    pub focus: String,
    pub violations: Vec<Violation>,
    pub others: Vec<Violation>,
    pub counts: BTreeMap<&'static str, u64>,
    pub verbose: bool,
    pub log: Vec<String>,
    offsets: [u64; 2],
    last_picked: Option<Aid>,
    pub switches: u64,
    spurious_left: u32,
    /// The task waiting for idleness runs next, before anything else can happen.
    at_idle: bool,
    /// Step and preemption point of the latest progress of the application.
    progress: (u64, u64),
    log_wakes: bool,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
    static CUR_Y: Cell<*const Yielder<Resume, Y>> = const { Cell::new(std::ptr::null()) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("simulation running")))
}
pub fn active() -> bool {
    SIM.with(|s| s.try_borrow().map(|s| s.is_some()).unwrap_or(true))
}

pub fn note_panic(msg: String) {
    PANIC_MSG.with(|p| *p.borrow_mut() = Some(msg));
}
pub fn take_panic() -> String {
    PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

struct W {
    actor: Aid,
    gen: u64,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        W::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if active() {
            with(|s| s.wake(self.actor, self.gen));
        }
    }
}

impl Sim {
    fn wake(&mut self, a: Aid, gen: u64) {
        let fresh = self.plan.fresh;
        let act = &mut self.actors[a];
        if self.log_wakes {
            eprintln!("[{}] wake {} gen {} of {} st {}", self.steps, act.name, gen, act.gen, match act.st { St::Parked => "parked", St::Ready => "ready", St::Done => "done", _ => "running" });
        }
        if fresh && gen != act.gen {
            *self.counts.entry("stale_wake_ignored").or_default() += 1;
            return;
        }
        match act.st {
            St::Parked => {
                act.st = St::Ready;
                self.ready.push(a);
            }
            St::Done => {}
            _ => act.woken = true,
        }
    }
    fn unlocked(&mut self, addr: usize) {
        for i in 0..self.actors.len() {
            if self.actors[i].st == St::Locked(addr) {
                self.actors[i].st = St::Ready;
                self.ready.push(i);
            }
        }
    }
    fn mixh(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
    fn draw_gap(&mut self) {
        let g = self.plan.gap;
        if g == 0 {
            self.gap_left = u32::MAX;
            return;
        }
        let v = self.ch.choose(u32::MAX, |r| r.range(1, 2 * g as u64) as u32);
        self.gap_left = if v == 0 { u32::MAX } else { v };
    }
    fn node_clock(&self, node: usize) {
        sys::set_now(self.now);
        sys::set_node_clock(self.plan.rate[node].max(1) as u64, self.offsets[node]);
    }
}

/// Steps without any progress of the application after which a run counts as endless.
pub const STALL: u64 = 1_500_000;

/// Whether the committed list of known findings (file named by SIM_KNOWN) has this history.
pub fn known(history: &str) -> bool {
    static K: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let k = K.get_or_init(|| std::env::var("SIM_KNOWN").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default());
    k.lines().any(|l| l.starts_with("finding:") && l.split_whitespace().any(|w| w.strip_prefix("history=") == Some(history)))
}

/// The application or the scripted peer got something done.
pub fn progress() {
    with(|s| s.progress = (s.steps, s.ticks))
}

pub fn now() -> u64 {
    with(|s| s.now)
}
/// What the clock of `node` shows at simulated time `at` given its present offset.
pub fn node_now(node: usize) -> u64 {
    with(|s| sys::node_time(s.now, s.plan.rate[node].max(1) as u64, s.offsets[node]))
}
pub fn count(name: &'static str) {
    with(|s| *s.counts.entry(name).or_default() += 1);
}
pub fn count_n(name: &'static str, n: u64) {
    with(|s| *s.counts.entry(name).or_default() += n);
}
pub fn choose(n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
    with(|s| s.ch.choose(n, f))
}
pub fn hash_in(v: u64) {
    with(|s| s.mixh(v));
}
pub fn verbose() -> bool {
    with(|s| s.verbose)
}
pub fn log_line(l: String) {
    with(|s| {
        let who = s.cur.map(|c| s.actors[c].name.clone()).unwrap_or_else(|| "-".into());
        let line = format!("[{:>7} {:>12}ns] {:<10} {}", s.steps, s.now, who, l);
        if s.log.len() < 200_000 {
            s.log.push(line)
        }
    });
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { if $crate::sched::verbose() { $crate::sched::log_line(format!($($a)*)) } };
}

/// Tag for violations that count for every property (a crash or a hang of the code under test).
pub const ALL: &[&str] = &["*"];

pub fn violate(tags: &[&str], class: impl Into<String>, msg: impl Into<String>) {
    let (class, msg) = (class.into(), msg.into());
    ev!("VIOLATION {:?} {} {}", tags, class, msg);
    with(|s| {
        let v = Violation {
            tags: tags.iter().map(|t| t.to_string()).collect(),
            class,
            msg,
            step: s.steps,
            time_ns: s.now,
        };
        if tags.contains(&"*") || s.focus == "*" || tags.iter().any(|t| *t == s.focus) {
            s.violations.push(v);
            s.stop = true;
        } else if s.others.len() < 8 && !s.others.iter().any(|o| o.class == v.class) {
            s.others.push(v);
        }
    });
}
pub fn stopped() -> bool {
    with(|s| s.stop)
}

fn in_actor() -> bool {
    !CUR_Y.with(|c| c.get()).is_null()
}

fn do_yield(y: Y) -> Resume {
    let c = sys::counting(false);
    let p = CUR_Y.with(|c| c.get());
    // SAFETY: the pointer is set by the coroutine that is running and stays valid while it runs.
    let r = unsafe { (*p).suspend(y) };
    CUR_Y.with(|c| c.set(p));
    sys::counting(c);
    r
}

/// A point at which another task may be scheduled.
pub fn preempt(kind: u64) {
    if !in_actor() || std::thread::panicking() {
        return;
    }
    let c = sys::counting(false);
    let go = with(|s| {
        if s.killing {
            return false;
        }
        s.ticks += 1;
        let _ = kind;
        if s.ticks - s.progress.1 > STALL * 40 {
            // A task that never waits: give the scheduler a chance to stop the run.
            return true;
        }
        if s.gap_left == u32::MAX {
            return false;
        }
        s.gap_left -= 1;
        if s.gap_left == 0 {
            s.draw_gap();
            return true;
        }
        false
    });
    if go {
        do_yield(Y::Preempt);
    }
    sys::counting(c);
}

fn hook(ev: Ev) -> bool {
    if !active() {
        return matches!(ev, Ev::Contended(_));
    }
    match ev {
        Ev::PreLock => {
            preempt(1);
            false
        }
        Ev::Unlocked(a) => {
            let c = sys::counting(false);
            with(|s| s.unlocked(a));
            sys::counting(c);
            preempt(2);
            false
        }
        Ev::Contended(a) => {
            if !in_actor() || std::thread::panicking() || with(|s| s.killing) {
                return true;
            }
            let c = sys::counting(false);
            count("lock_contended");
            do_yield(Y::Locked(a));
            sys::counting(c);
            false
        }
    }
}

/// Start a task on `node`.
pub fn spawn(node: usize, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> Aid {
    let c = sys::counting(false);
    let mut fut: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(Box::pin(fut));
    let id = with(|s| s.actors.len());
    let co: Co = Coroutine::with_stack(
        DefaultStack::new(256 * 1024).expect("stack"),
        move |y: &Yielder<Resume, Y>, first: Resume| {
            CUR_Y.with(|c| c.set(y as *const _));
            let r = catch_unwind(AssertUnwindSafe(|| {
                if let Resume::Kill = first {
                    drop(fut.take());
                    return;
                }
                let mut f = fut.take().unwrap();
                loop {
                    let gen = with(|s| {
                        let a = &mut s.actors[id];
                        a.gen += 1;
                        a.woken = false;
                        a.gen
                    });
                    let w: Waker = Arc::new(W { actor: id, gen }).into();
                    let mut cx = Context::from_waker(&w);
                    match f.as_mut().poll(&mut cx) {
                        Poll::Ready(()) => break,
                        Poll::Pending => {
                            drop(w);
                            if let Resume::Kill = do_yield(Y::Park) {
                                break;
                            }
                        }
                    }
                }
                drop(f);
            }));
            if r.is_err() {
                sys::counting(false);
                let m = take_panic();
                violate(ALL, format!("panic: {}", classify(&m)), format!("panic in {}: {m}", with(|s| s.actors[id].name.clone())));
                std::mem::forget(r);
            }
            CUR_Y.with(|c| c.set(std::ptr::null()));
        },
    );
    with(|s| {
        let prio = s.strat.u64();
        s.actors.push(Actor {
            co: Some(co),
            st: St::Ready,
            woken: false,
            gen: 0,
            node,
            name: name.into(),
            prio,
        });
        s.ready.push(id);
    });
    sys::counting(c);
    id
}

/// Panic message without its variable parts.
fn classify(m: &str) -> String {
    let m: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let mut out = String::new();
    let mut last = ' ';
    for c in m.chars() {
        if !(c == '#' && last == '#') {
            out.push(c);
        }
        last = c;
    }
    out.chars().take(160).collect()
}

pub fn add_timer(at: u64, job: impl FnOnce() + 'static) {
    with(|s| {
        s.seq += 1;
        let k = (at, s.seq);
        s.timers.push(Reverse(k));
        s.jobs.insert(k, Box::new(job));
    });
}

struct Shared2 {
    waker: RefCell<Option<Waker>>,
    done: Cell<bool>,
}
/// Sleep for simulated nanoseconds.
pub async fn sleep(ns: u64) {
    let sh = Rc::new(Shared2 { waker: RefCell::new(None), done: Cell::new(false) });
    let s2 = sh.clone();
    let at = now() + ns;
    add_timer(at, move || {
        s2.done.set(true);
        let w = s2.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake()
        }
    });
    futures::future::poll_fn(|cx| {
        if sh.done.get() {
            Poll::Ready(())
        } else {
            *sh.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}

async fn on_cell(c: Rc<IdleCell>) {
    futures::future::poll_fn(|cx| {
        if c.done.get() {
            Poll::Ready(())
        } else {
            *c.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}

/// Wait until nothing else in the system can run and no timer is pending.
pub async fn wait_idle() {
    let c = Rc::new(IdleCell { done: Cell::new(false), waker: RefCell::new(None) });
    with(|s| s.idle.push_back(c.clone()));
    on_cell(c).await
}
/// Wait until `n` more preemption points have passed (or the system is idle).
pub async fn wait_ticks(n: u64) {
    let c = Rc::new(IdleCell { done: Cell::new(false), waker: RefCell::new(None) });
    with(|s| {
        let at = s.ticks + n;
        s.tick_waits.push((at, c.clone()))
    });
    on_cell(c).await
}

pub async fn yield_now() {
    let mut first = true;
    futures::future::poll_fn(|cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

/// A flag tasks can wait for.
#[derive(Default)]
pub struct Event {
    set: Cell<bool>,
    wakers: RefCell<BTreeMap<Aid, Waker>>,
}
impl Event {
    pub fn new() -> Rc<Event> {
        Rc::new(Event::default())
    }
    pub fn set(&self) {
        self.set.set(true);
        self.poke();
    }
    pub fn is_set(&self) -> bool {
        self.set.get()
    }
    /// Wake everyone who waits, without setting the flag.
    pub fn poke(&self) {
        let ws = std::mem::take(&mut *self.wakers.borrow_mut());
        for w in ws.into_values() {
            w.wake()
        }
    }
    pub fn register(&self, cx: &mut Context<'_>) {
        let me = with(|s| s.cur).unwrap_or(usize::MAX);
        self.wakers.borrow_mut().insert(me, cx.waker().clone());
    }
    pub fn poll(&self, cx: &mut Context<'_>) -> Poll<()> {
        if self.set.get() {
            Poll::Ready(())
        } else {
            self.register(cx);
            Poll::Pending
        }
    }
    pub async fn wait(&self) {
        futures::future::poll_fn(|cx| self.poll(cx)).await
    }
}

pub fn start(plan: SchedPlan, ch: Chooser, strat_seed: u64, focus: &str, cap: u64, verbose: bool) {
    sys::clock_start();
    let mut sim = Sim {
        actors: vec![],
        ready: vec![],
        cur: None,
        now: 0,
        timers: BinaryHeap::new(),
        jobs: BTreeMap::new(),
        seq: 0,
        idle: VecDeque::new(),
        ch,
        strat: Rng::new(strat_seed),
        plan,
        gap_left: u32::MAX,
        steps: 0,
        ticks: 0,
        cap,
        tick_waits: vec![],
        hash: 0xcbf2_9ce4_8422_2325,
        killing: false,
        stop: false,
        focus: focus.into(),
        violations: vec![],
        others: vec![],
        counts: BTreeMap::new(),
        verbose,
        log: vec![],
        offsets: [0; 2],
        last_picked: None,
        switches: 0,
        spurious_left: 2000,
        at_idle: false,
        progress: (0, 0),
        log_wakes: std::env::var_os("SIM_WAKES").is_some(),
    };
    sim.draw_gap();
    SIM.with(|s| *s.borrow_mut() = Some(sim));
    simhook::set(Some(hook));
}

enum Next {
    Run(Aid, Co),
    Jobs(Vec<Job>),
    Cells(Vec<Rc<IdleCell>>),
    End(End),
}

fn next() -> Next {
    with(|s| {
        if s.stop {
            return Next::End(End::Stopped);
        }
        if s.steps >= s.cap || s.ticks - s.progress.1 > STALL * 40 {
            return Next::End(End::Cap);
        }
        // tick triggers
        if !s.tick_waits.is_empty() {
            let t = s.ticks;
            let idle = s.ready.is_empty() && s.timers.is_empty();
            let due: Vec<_> = s.tick_waits.iter().filter(|x| x.0 <= t || idle).map(|x| x.1.clone()).collect();
            if !due.is_empty() {
                s.tick_waits.retain(|x| x.0 > t && !idle);
                return Next::Cells(due);
            }
        }
        let steps = s.steps;
        if let Some(k) = s.plan.jumps.iter().position(|j| j.0 as u64 <= steps) {
            let (_, n, ms) = s.plan.jumps.remove(k);
            s.offsets[(n & 1) as usize] += ms as u64 * 1_000_000;
            *s.counts.entry("fault_clock_jump").or_default() += 1;
        }
        // timers
        if s.ready.is_empty() {
            if let Some(Reverse((at, _))) = s.timers.peek() {
                s.now = s.now.max(*at);
            }
        }
        let mut jobs = vec![];
        while let Some(Reverse(k)) = s.timers.peek().copied() {
            if k.0 > s.now {
                break;
            }
            s.timers.pop();
            jobs.push(s.jobs.remove(&k).unwrap());
        }
        if !jobs.is_empty() {
            return Next::Jobs(jobs);
        }
        if s.ready.is_empty() {
            if let Some(c) = s.idle.pop_front() {
                s.at_idle = true;
                return Next::Cells(vec![c]);
            }
            return Next::End(End::Quiescent);
        }
        // spurious wake-ups
        let sp = s.plan.spurious;
        let at_idle = std::mem::take(&mut s.at_idle);
        if !at_idle && sp > 0 && s.spurious_left > 0 && s.ch.choose(2, |r| (r.below(sp as u64) == 0) as u32) == 1 {
            let parked: Vec<Aid> = (0..s.actors.len()).filter(|i| s.actors[*i].st == St::Parked).collect();
            if !parked.is_empty() {
                let n = parked.len() as u32;
                let k = s.ch.choose(n, |r| r.below(n as u64) as u32);
                let a = parked[k as usize];
                s.spurious_left -= 1;
                s.actors[a].st = St::Ready;
                s.ready.push(a);
                *s.counts.entry("fault_spurious_wake").or_default() += 1;
            }
        }
        // pick
        let n = s.ready.len() as u32;
        let k = if n == 1 {
            0
        } else {
            let strategy = s.plan.strategy;
            let mut idx = 0u32;
            match strategy {
                1 => idx = s.strat.below(n as u64) as u32,
                2 => {
                    let mut best = (0u64, 0usize);
                    for (i, a) in s.ready.iter().enumerate() {
                        if s.actors[*a].prio >= best.0 {
                            best = (s.actors[*a].prio, i);
                        }
                    }
                    idx = best.1 as u32;
                    if s.strat.chance(1, 40) {
                        let a = s.ready[best.1];
                        s.actors[a].prio = s.strat.below(1 << 20);
                    }
                }
                3 => {
                    if s.strat.chance(3, 4) {
                        idx = n - 1;
                    }
                }
                _ => {}
            }
            s.ch.choose(n, |_| idx)
        };
        let a = s.ready.remove(k as usize);
        s.steps += 1;
        s.now += s.plan.step_ns;
        if s.last_picked != Some(a) {
            s.switches += 1;
            s.last_picked = Some(a);
        }
        let h = (a as u64) << 32 | (s.now & 0xffff_ffff);
        s.mixh(h);
        s.cur = Some(a);
        let act = &mut s.actors[a];
        act.st = St::Running;
        let co = act.co.take().unwrap();
        let node = act.node;
        s.node_clock(node);
        Next::Run(a, co)
    })
}

/// Run until quiescent, stopped or capped.
pub fn run() -> End {
    loop {
        match next() {
            Next::End(e) => return e,
            Next::Jobs(js) => {
                for j in js {
                    j()
                }
            }
            Next::Cells(cs) => {
                for c in cs {
                    c.done.set(true);
                    let w = c.waker.borrow_mut().take();
                    if let Some(w) = w {
                        w.wake()
                    }
                }
            }
            Next::Run(a, mut co) => {
                with(|s| {
                    if s.log_wakes {
                        eprintln!("[{}] run {}", s.steps, s.actors[a].name)
                    }
                });
                let r = co.resume(Resume::Go);
                CUR_Y.with(|c| c.set(std::ptr::null()));
                with(|s| {
                    s.cur = None;
                    s.actors[a].co = Some(co);
                    match r {
                        CoroutineResult::Return(()) => {
                            s.actors[a].st = St::Done;
                            s.mixh(1);
                        }
                        CoroutineResult::Yield(Y::Park) => {
                            s.mixh(2);
                            if s.actors[a].woken {
                                s.actors[a].st = St::Ready;
                                s.ready.push(a);
                            } else {
                                s.actors[a].st = St::Parked;
                            }
                        }
                        CoroutineResult::Yield(Y::Preempt) => {
                            s.mixh(3);
                            s.actors[a].st = St::Ready;
                            s.ready.push(a);
                        }
                        CoroutineResult::Yield(Y::Locked(addr)) => {
                            s.mixh(4);
                            s.actors[a].st = St::Locked(addr);
                        }
                    }
                });
            }
        }
    }
}

/// Names of tasks that have not finished: (name, waiting for a lock).
pub fn unfinished() -> Vec<(String, bool)> {
    with(|s| {
        s.actors
            .iter()
            .filter(|a| a.st != St::Done)
            .map(|a| (a.name.clone(), matches!(a.st, St::Locked(_))))
            .collect()
    })
}

/// End the run: after a clean run, unwind every task in an orderly way; after a violation, leave
/// everything where it is (the run's thread ends and its memory is lost).
pub fn finish(clean: bool) -> Sim {
    if clean {
        with(|s| s.killing = true);
        let n = with(|s| s.actors.len());
        for i in 0..n {
            let co = with(|s| {
                s.cur = Some(i);
                s.actors[i].co.take()
            });
            if let Some(mut co) = co {
                if !co.done() {
                    if co.started() {
                        let mut guard = 0;
                        while let CoroutineResult::Yield(_) = co.resume(Resume::Kill) {
                            guard += 1;
                            if guard > 1000 {
                                break;
                            }
                        }
                    } else {
                        let _ = co.resume(Resume::Kill);
                    }
                    CUR_Y.with(|c| c.set(std::ptr::null()));
                }
                if !co.done() {
                    std::mem::forget(co);
                }
            }
        }
    }
    let mut sim = SIM.with(|s| s.borrow_mut().take()).unwrap();
    let had_panic = !sim.violations.is_empty();
    for a in sim.actors.drain(..) {
        if let Some(co) = a.co {
            if co.done() {
                drop(co)
            } else {
                std::mem::forget(co)
            }
        }
    }
    for (_, j) in std::mem::take(&mut sim.jobs) {
        if clean && !had_panic {
            drop(j)
        } else {
            std::mem::forget(j)
        }
    }
    simhook::set(None);
    sys::clock_stop();
    sim
}
