//! The scheduler: real OS threads, exactly one of which runs at a time. Every interception point
//! (channel operation, futex, thread creation/join/exit, clock read, sleep, yield, socket and file
//! operation, and explicit points of the harness) gives the seeded scheduler the choice of who runs.
use crate::raw;
use crate::rng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU32, Ordering};

pub const NONE: u32 = u32::MAX;
thread_local! {
    static CUR: Cell<u32> = const { Cell::new(NONE) };
}

pub const BASE_MONO: u64 = 1_000_000_000_000; // 1000 s
pub const BASE_REAL: u64 = 1_700_000_000_000_000_000;

pub const SCHED: usize = 0;
pub const PLAN: usize = 1;
pub const ENV: usize = 2;

// Kinds of scheduling points (1..=10 come from the crossbeam hook).
pub const K_SPAWN: u32 = 20;
pub const K_FUTEX_WAIT: u32 = 21;
pub const K_FUTEX_WAKE: u32 = 22;
pub const K_JOIN: u32 = 23;
pub const K_EXIT: u32 = 24;
pub const K_CLOCK: u32 = 25;
pub const K_SLEEP: u32 = 26;
pub const K_YIELD: u32 = 27;
pub const K_USER: u32 = 28;
pub const K_NET: u32 = 29;
pub const K_FS: u32 = 30;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked { key: u64, deadline: u64 },
    Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wake {
    Notified,
    TimedOut,
}

pub struct Task {
    pub st: St,
    pub wake: Wake,
    token: Box<AtomicU32>,
    pub pthread: usize,
    prio: i64,
    pub steps: u64,
    pub last_kind: u32,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub step: u64,
    pub task: u32,
    pub now: u64,
    pub tag: &'static str,
    pub a: i64,
    pub b: i64,
    pub c: i64,
}

pub struct Stream {
    rng: Rng,
    idx: u32,
    pub rec: Vec<(u32, u64)>,
    replay: Option<HashMap<u32, u64>>,
}

impl Stream {
    fn put(&mut self, gen: impl FnOnce(&mut Rng) -> u64, n: u64) -> u64 {
        let i = self.idx;
        self.idx += 1;
        let v = match &self.replay {
            Some(m) => {
                let v = m.get(&i).copied().unwrap_or(0);
                if n == 0 { v } else { v.min(n - 1) }
            }
            None => gen(&mut self.rng),
        };
        if v != 0 {
            self.rec.push((i, v));
        }
        v
    }
}

enum Policy {
    Random { stick_ppm: u64 },
    Pct { points: Vec<u64> },
    RunToBlock,
    Starve { victim: u32 },
    Lowest,
    Highest,
}

/// What the environment may do in this run; set by the scenario, all off by default.
#[derive(Clone, Default)]
pub struct EnvCfg {
    /// Probability (ppm) per scheduling point that the clock jumps while threads are runnable.
    pub stall_ppm: u64,
    /// Sizes (ns) a stall can have.
    pub stall_sizes: Vec<u64>,
    /// Probability (ppm) that a futex wait returns spuriously.
    pub spurious_ppm: u64,
    /// The n-th next thread creation fails with EAGAIN (0 = never).
    pub spawn_fail_in: u32,
    /// Some thread polls without ever blocking: while only it can run, time passes.
    pub polling: bool,
    /// Nanoseconds every clock read costs.
    pub clock_tick: u64,
}

pub struct Sim {
    pub tasks: Vec<Task>,
    pub cur: u32,
    pub now: u64,
    pub steps: u64,
    cap: u64,
    /// Step of the last entry of the recorded history, and the longest gap between two of them.
    last_ev: u64,
    max_gap: u64,
    pub seed: u64,
    pub streams: [Stream; 3],
    policy: Policy,
    last_task: u32,
    consec: u64,
    low_prio: i64,
    pub env: EnvCfg,
    pub sched_hash: u64,
    pub ev_hash: u64,
    pub events: Vec<Ev>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub violation: Option<(String, String)>,
    pub notes: Vec<String>,
    env_seed: u64,
    env_ctr: u64,
    since_advance: u64,
    pub switches: u64,
    pub verbose: bool,
    pub net: crate::net::Net,
    pub fs: crate::fs::Fs,
    pub active: bool,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
/// 0 running, 1 finished, 2 aborted (threads left parked; the process must exit).
pub static DONE: AtomicU32 = AtomicU32::new(0);

#[inline]
pub fn me() -> u32 {
    CUR.with(|c| c.get())
}
#[inline]
pub fn in_sim() -> bool {
    me() != NONE
}
/// Only the token holder may call this.
#[inline]
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

fn fnv(h: u64, v: u64) -> u64 {
    let mut h = h ^ v;
    h = h.wrapping_mul(0x100000001b3);
    h ^ (h >> 29)
}

impl Sim {
    fn wake_expired(&mut self) {
        let now = self.now;
        for t in self.tasks.iter_mut() {
            if let St::Blocked { deadline, .. } = t.st {
                if deadline <= now {
                    t.st = St::Ready;
                    t.wake = Wake::TimedOut;
                }
            }
        }
    }
    fn min_deadline(&self) -> Option<u64> {
        self.tasks
            .iter()
            .filter_map(|t| match t.st {
                St::Blocked { deadline, .. } if deadline != u64::MAX => Some(deadline),
                _ => None,
            })
            .min()
    }

    /// Chooses who runs next. `cur_last`: the current task asked to let others go first.
    fn pick(&mut self, kind: u32, mut cur_last: bool) -> u32 {
        self.steps += 1;
        self.since_advance += 1;
        // Progress is a new entry of the history; a starved schedule may be long, but not idle.
        if self.steps - self.last_ev > self.cap {
            abort_run("livelock", format!("nothing happened for {} scheduling steps", self.cap));
        }
        if self.steps > self.cap * 40 {
            abort_run("livelock", format!("no termination within {} scheduling steps", self.cap * 40));
        }
        let cur = self.cur;
        if self.env.stall_ppm > 0 && self.active {
            let ppm = self.env.stall_ppm;
            let sizes = self.env.stall_sizes.len() as u64;
            let s = self.streams[ENV].put(
                |r| if r.chance(ppm) { 1 + r.below(sizes) } else { 0 },
                sizes + 1,
            );
            if s > 0 {
                let d = self.env.stall_sizes[s as usize - 1];
                self.now += d;
                *self.faults.entry("stall".into()).or_default() += 1;
            }
        }
        // Only spinning threads are runnable: let the earliest timer fire.
        let alone = self.env.polling && self.consec > 200 && self.tasks.iter().filter(|t| t.st == St::Ready).count() == 1;
        if self.since_advance > 20_000 || alone {
            if let Some(d) = self.min_deadline() {
                if d > self.now {
                    self.now = d;
                }
                self.since_advance = 0;
            }
        }
        self.wake_expired();
        let mut cand: Vec<u32> = Vec::with_capacity(8);
        loop {
            let cur_ready = matches!(self.tasks[cur as usize].st, St::Ready);
            if cur == self.last_task && self.consec > 60 {
                cur_last = true;
            }
            if cur_ready && !cur_last {
                cand.push(cur);
            }
            for (i, t) in self.tasks.iter().enumerate() {
                if i as u32 != cur && t.st == St::Ready {
                    cand.push(i as u32);
                }
            }
            if cur_ready && cur_last {
                cand.push(cur);
            }
            if !cand.is_empty() {
                break;
            }
            match self.min_deadline() {
                Some(d) => {
                    self.now = self.now.max(d);
                    self.since_advance = 0;
                    self.wake_expired();
                }
                None => {
                    let d: Vec<String> = self
                        .tasks
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.st != St::Done)
                        .map(|(i, t)| format!("task {} blocked in {}", i, kind_name(t.last_kind)))
                        .collect();
                    abort_run("hang", format!("deadlock: {}", d.join(", ")));
                }
            }
        }
        let n = cand.len();
        let chosen = if n == 1 {
            cand[0]
        } else {
            let policy = &mut self.policy;
            let tasks = &mut self.tasks;
            let low = &mut self.low_prio;
            let cur_first = cand[0] == cur;
            let steps = self.steps;
            let c = &cand;
            let idx = self.streams[SCHED].put(
                |r| match policy {
                    Policy::Random { stick_ppm } => {
                        if cur_first && r.chance(*stick_ppm) { 0 } else { r.below(n as u64) }
                    }
                    Policy::RunToBlock => {
                        if cur_first { 0 } else { r.below(n as u64) }
                    }
                    Policy::Lowest => {
                        (0..n).min_by_key(|&i| (c[i] == cur && !cur_first, c[i])).unwrap() as u64
                    }
                    Policy::Highest => {
                        (0..n).max_by_key(|&i| (!(c[i] == cur && !cur_first), c[i])).unwrap() as u64
                    }
                    Policy::Starve { victim } => {
                        if r.chance(10_000) {
                            r.below(n as u64)
                        } else {
                            let v = *victim;
                            let others: Vec<usize> = (0..n).filter(|&i| c[i] != v).collect();
                            others[r.below(others.len() as u64) as usize] as u64
                        }
                    }
                    Policy::Pct { points } => {
                        if points.contains(&steps) || !cur_first {
                            *low -= 1;
                            tasks[cur as usize].prio = *low;
                        }
                        (0..n).max_by_key(|&i| tasks[c[i] as usize].prio).unwrap() as u64
                    }
                },
                n as u64,
            );
            cand[idx as usize]
        };
        if chosen == self.last_task {
            self.consec += 1;
        } else {
            self.consec = 0;
            self.switches += 1;
        }
        self.last_task = chosen;
        self.sched_hash = fnv(self.sched_hash, ((chosen as u64) << 8) | kind as u64);
        chosen
    }

    pub fn note_fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_default() += 1;
    }

    /// A fresh environment-random word (hash seeds, `rand`, shuffles): a function of the run's seed.
    pub fn env_word(&mut self) -> u64 {
        self.env_ctr += 1;
        let mut r = Rng::new(self.env_seed ^ self.env_ctr.wrapping_mul(0x9E3779B97F4A7C15));
        r.u64()
    }
}

pub fn kind_name(k: u32) -> &'static str {
    match k {
        1 => "try_send",
        2 => "send",
        3 => "send_deadline",
        4 => "drop(Sender)",
        5 => "try_recv",
        6 => "recv",
        7 => "recv_deadline",
        8 => "drop(Receiver)",
        9 => "select",
        10 => "ready",
        K_SPAWN => "spawn",
        K_FUTEX_WAIT => "futex-wait",
        K_FUTEX_WAKE => "futex-wake",
        K_JOIN => "join",
        K_EXIT => "exit",
        K_CLOCK => "clock",
        K_SLEEP => "sleep",
        K_YIELD => "yield",
        K_USER => "user",
        K_NET => "net",
        K_FS => "fs",
        _ => "?",
    }
}

fn handoff(id: u32) {
    let s = sim();
    s.cur = id;
    let t = &s.tasks[id as usize];
    let p = &*t.token as *const AtomicU32;
    t.token.store(1, Ordering::Release);
    unsafe { raw::futex_wake(p as *const u32, 1) };
}

fn wait_token(id: u32) {
    let p = &*sim_task_token(id) as *const AtomicU32;
    let a = unsafe { &*p };
    while a.swap(0, Ordering::Acquire) == 0 {
        unsafe { raw::futex_wait(p as *const u32, 0, None) };
    }
}

fn sim_task_token(id: u32) -> &'static AtomicU32 {
    let p: *const AtomicU32 = &*sim().tasks[id as usize].token;
    unsafe { &*p }
}

/// A scheduling point: the current task stays runnable.
pub fn point(kind: u32) {
    let m = me();
    if m == NONE {
        return;
    }
    let s = sim();
    s.tasks[m as usize].steps += 1;
    let keep = s.tasks[m as usize].last_kind;
    s.tasks[m as usize].last_kind = kind;
    let next = s.pick(kind, kind == K_YIELD);
    if next != m {
        let tok = sim_task_token(m);
        handoff(next);
        wait_tok(tok);
    }
    if kind != K_CLOCK {
        let _ = keep;
    }
}

fn wait_tok(a: &'static AtomicU32) {
    while a.swap(0, Ordering::Acquire) == 0 {
        unsafe { raw::futex_wait(a as *const AtomicU32 as *const u32, 0, None) };
    }
}

/// Blocks the current task on `key` until `wake_key` or the deadline (absolute sim time).
pub fn block_on(kind: u32, key: u64, deadline: Option<u64>) -> Wake {
    let m = me();
    let s = sim();
    let t = &mut s.tasks[m as usize];
    t.st = St::Blocked { key, deadline: deadline.unwrap_or(u64::MAX) };
    // keep the channel operation as the reported reason for futex waits
    if kind != K_FUTEX_WAIT || t.last_kind >= 20 {
        t.last_kind = kind;
    }
    t.steps += 1;
    let tok = sim_task_token(m);
    let next = s.pick(kind, false);
    if next != m {
        handoff(next);
        wait_tok(tok);
    }
    sim().tasks[m as usize].wake
}

/// Makes up to `n` tasks blocked on `key` runnable; which ones is the scheduler's choice.
pub fn wake_key(key: u64, n: usize) -> usize {
    let s = sim();
    let mut ids: Vec<usize> = s
        .tasks
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t.st, St::Blocked { key: k, .. } if k == key))
        .map(|(i, _)| i)
        .collect();
    let mut woken = 0;
    while woken < n && !ids.is_empty() {
        let i = if ids.len() > 1 && n < ids.len() {
            let l = ids.len() as u64;
            s.streams[SCHED].put(|r| r.below(l), l) as usize
        } else {
            0
        };
        let id = ids.remove(i);
        s.tasks[id].st = St::Ready;
        s.tasks[id].wake = Wake::Notified;
        woken += 1;
    }
    woken
}

pub const JOIN_KEY: u64 = 1 << 62;
pub const SLEEP_KEY: u64 = 1 << 61;
pub const NET_KEY: u64 = 1 << 60;

pub fn new_task() -> u32 {
    let s = sim();
    let id = s.tasks.len() as u32;
    let prio = s.streams[SCHED].rng.below(1_000_000) as i64;
    s.tasks.push(Task {
        st: St::Ready,
        wake: Wake::Notified,
        token: Box::new(AtomicU32::new(0)),
        pthread: 0,
        prio,
        steps: 0,
        last_kind: 0,
    });
    id
}

/// First thing on a simulated thread: adopt the task and wait to be scheduled.
pub fn task_start(id: u32, token: &'static AtomicU32) {
    wait_tok(token);
    CUR.with(|c| c.set(id));
}

pub fn token_of(id: u32) -> &'static AtomicU32 {
    sim_task_token(id)
}

pub fn task_exit(id: u32) {
    let s = sim();
    s.tasks[id as usize].st = St::Done;
    s.tasks[id as usize].last_kind = K_EXIT;
    wake_key(JOIN_KEY | id as u64, usize::MAX);
    CUR.with(|c| c.set(NONE));
    if s.tasks.iter().all(|t| t.st == St::Done) {
        finish(1);
        return;
    }
    let next = s.pick(K_EXIT, false);
    handoff(next);
}

fn finish(v: u32) {
    DONE.store(v, Ordering::Release);
    unsafe { raw::futex_wake(&DONE as *const AtomicU32 as *const u32, 1) };
}

/// Ends the run from inside: records the outcome and parks this thread for ever.
pub fn abort_run(class: &str, msg: String) -> ! {
    let s = sim();
    if s.violation.is_none() {
        s.violation = Some((class.to_string(), msg));
    }
    finish(2);
    let w = AtomicU32::new(0);
    loop {
        unsafe { raw::futex_wait(&w as *const AtomicU32 as *const u32, 0, None) };
    }
}

#[derive(Clone, Default)]
pub struct Replay {
    pub streams: [Vec<(u32, u64)>; 3],
}

pub struct RunResult {
    pub seed: u64,
    pub violation: Option<(String, String)>,
    pub aborted: bool,
    pub steps: u64,
    pub max_gap: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub hash: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub events: Vec<Ev>,
    pub notes: Vec<String>,
    pub rec: Replay,
    pub tasks: usize,
}

extern "C" fn root_start(arg: *mut libc::c_void) -> *mut libc::c_void {
    let f = unsafe { *Box::from_raw(arg as *mut fn()) };
    task_start(0, token_of(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if let Err(e) = r {
        violate("unexpected-panic", panic_text(&*e));
    }
    task_exit(0);
    std::ptr::null_mut()
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Executes one simulated run. `None` replay: generate from the seed.
pub fn run(seed: u64, replay: Option<&Replay>, cap: u64, verbose: bool, watchdog_s: u64, f: fn()) -> RunResult {
    let mk = |i: usize| Stream {
        rng: Rng::new(seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(i as u64 * 7919 + 1)),
        idx: 0,
        rec: vec![],
        replay: replay.map(|r| r.streams[i].iter().copied().collect()),
    };
    let mut streams = [mk(0), mk(1), mk(2)];
    let policy = {
        let r = &mut streams[SCHED].rng;
        match r.below(20) {
            0..=7 => Policy::Random { stick_ppm: [0, 300_000, 700_000, 900_000][r.below(4) as usize] },
            8 => Policy::Random { stick_ppm: 980_000 },
            9..=13 => {
                let d = 1 + r.below(6);
                let len = [40, 150, 600][r.below(3) as usize];
                Policy::Pct { points: (0..d).map(|_| 1 + r.below(len)).collect() }
            }
            14 | 15 => Policy::RunToBlock,
            16 | 17 => Policy::Starve { victim: r.below(6) as u32 },
            18 => Policy::Lowest,
            _ => Policy::Highest,
        }
    };
    let env_seed = streams[ENV].put(|r| r.u64(), 0);
    let s = Box::new(Sim {
        tasks: vec![],
        cur: 0,
        now: 0,
        steps: 0,
        cap,
        last_ev: 0,
        max_gap: 0,
        seed,
        streams,
        policy,
        last_task: 0,
        consec: 0,
        low_prio: 0,
        env: EnvCfg::default(),
        sched_hash: 0xcbf29ce484222325,
        ev_hash: 0xcbf29ce484222325,
        events: Vec::with_capacity(256),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        violation: None,
        notes: vec![],
        env_seed,
        env_ctr: 0,
        since_advance: 0,
        switches: 0,
        verbose,
        net: Default::default(),
        fs: Default::default(),
        active: true,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    DONE.store(0, Ordering::Release);
    new_task();
    let arg = Box::into_raw(Box::new(f)) as *mut libc::c_void;
    let mut th: libc::pthread_t = 0;
    unsafe {
        let rc = crate::interpose::real_pthread_create(&mut th, std::ptr::null(), root_start, arg);
        if rc != 0 {
            raw::write_all(2, b"HARNESS: cannot create the root thread\n");
            libc::_exit(9);
        }
    }
    handoff(0);
    let t0 = raw::real_now();
    let mut last_steps = u64::MAX;
    let mut last_change = t0;
    loop {
        let d = DONE.load(Ordering::Acquire);
        if d != 0 {
            break;
        }
        let ts = libc::timespec { tv_sec: 1, tv_nsec: 0 };
        unsafe { raw::futex_wait(&DONE as *const AtomicU32 as *const u32, 0, Some(&ts)) };
        // Watchdog: a thread that runs for ever without reaching any interception point.
        let st = unsafe { std::ptr::read_volatile(&(*SIM).steps) };
        let n = raw::real_now();
        if st != last_steps {
            last_steps = st;
            last_change = n;
        } else if n - last_change > watchdog_s * 1_000_000_000 && DONE.load(Ordering::Acquire) == 0 {
            let s = sim();
            s.violation = Some(("stuck".into(), format!("task {} ran for {} s of real time without reaching a scheduling point", s.cur, watchdog_s)));
            DONE.store(2, Ordering::Release);
        }
    }
    let aborted = DONE.load(Ordering::Acquire) == 2;
    if !aborted {
        unsafe { crate::interpose::real_pthread_join(th, std::ptr::null_mut()) };
    }
    let s = sim();
    let res = RunResult {
        seed,
        violation: s.violation.take(),
        aborted,
        steps: s.steps,
        max_gap: s.max_gap.max(s.steps - s.last_ev),
        sim_ns: s.now,
        switches: s.switches,
        hash: fnv(s.sched_hash, s.ev_hash),
        faults: std::mem::take(&mut s.faults),
        probes: std::mem::take(&mut s.probes),
        events: std::mem::take(&mut s.events),
        notes: std::mem::take(&mut s.notes),
        rec: Replay {
            streams: [
                std::mem::take(&mut s.streams[0].rec),
                std::mem::take(&mut s.streams[1].rec),
                std::mem::take(&mut s.streams[2].rec),
            ],
        },
        tasks: s.tasks.len(),
    };
    if !aborted {
        unsafe {
            drop(Box::from_raw(SIM));
            SIM = std::ptr::null_mut();
        }
    }
    res
}

// ---------------------------------------------------------------- harness API

/// Uniform choice in `0..n` from the workload/fault stream; 0 is the simplest choice.
pub fn draw(n: u64) -> u64 {
    sim().streams[PLAN].put(|r| r.below(n), n)
}
/// 0 with probability 1 - ppm/1e6, otherwise uniform in `1..n`.
pub fn draw_p(ppm: u64, n: u64) -> u64 {
    sim().streams[PLAN].put(|r| if r.chance(ppm) { 1 + r.below(n - 1) } else { 0 }, n)
}
pub fn draw_env(ppm: u64, n: u64) -> u64 {
    sim().streams[ENV].put(|r| if r.chance(ppm) { 1 + r.below(n - 1) } else { 0 }, n)
}
/// Appends to the recorded history (and its hash). Never draws and never reads a clock.
pub fn ev(tag: &'static str, a: i64, b: i64, c: i64) {
    let m = me();
    let s = sim();
    let mut h = s.ev_hash;
    for x in tag.bytes() {
        h = fnv(h, x as u64);
    }
    h = fnv(h, a as u64);
    h = fnv(h, b as u64);
    h = fnv(h, c as u64);
    h = fnv(h, s.now);
    h = fnv(h, m as u64);
    s.ev_hash = h;
    s.max_gap = s.max_gap.max(s.steps - s.last_ev);
    s.last_ev = s.steps;
    s.events.push(Ev { step: s.steps, task: m, now: s.now, tag, a, b, c });
}
pub fn note(f: impl FnOnce() -> String) {
    if sim().verbose {
        let t = f();
        let s = sim();
        let line = format!("[step {:5} t={:>12}ns task {}] {}", s.steps, s.now, me() as i32, t);
        s.notes.push(line);
    }
}
pub fn violate(class: &str, msg: String) {
    let s = sim();
    if s.violation.is_none() {
        s.violation = Some((class.to_string(), msg));
    }
}
pub fn violated() -> bool {
    sim().violation.is_some()
}
pub fn fault(k: &str) {
    sim().note_fault(k);
}
pub fn probe(k: &str) {
    *sim().probes.entry(k.to_string()).or_default() += 1;
}
pub fn now() -> u64 {
    sim().now
}
/// Moves the clock forward without letting anyone else run (a stalled CPU, a suspended machine).
pub fn advance(ns: u64) {
    sim().now += ns;
}
pub fn env() -> &'static mut EnvCfg {
    &mut sim().env
}
pub fn user_point() {
    point(K_USER)
}
pub fn set_faults_active(b: bool) {
    sim().active = b;
}
