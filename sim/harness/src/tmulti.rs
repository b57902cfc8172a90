//! Timed multiparty protocols: who did what, when, on which clock, and what must follow.
//!
//! Simulated time stands still while threads run and moves only when everybody waits (or when a
//! stall is injected), so without stalls the instant of every success and every failure is exact.
use crate::model::{Crash, End as Fin};
use crate::pay::Pay;
use crate::win::{Win, S};
use crate::{checked, mix, R};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

pub type Clocks = HashMap<char, Instant>;
pub type Ws = &'static [(usize, Win)];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Send,
    Recv,
    Choose,
    Offer,
    Close,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub k: K,
    /// Partner (addressee or origin) and window; several for a choice.
    pub ws: Vec<(usize, Win)>,
    /// Which message between these two, per window.
    pub nth: Vec<usize>,
    pub t0: u64,
    pub t1: u64,
    /// Value of each window's clock at t0.
    pub x0: Vec<u64>,
    pub ok: bool,
    pub ended: bool,
    pub val: u64,
    /// An addressee's endpoint was certainly gone when the operation began.
    pub gone: Option<usize>,
}

pub struct Side {
    pub ops: Vec<Rec>,
    pub clocks: BTreeMap<char, u64>,
    pub crash: Option<(usize, Crash)>,
    pub crashed: bool,
    pub leaving: Option<u64>,
    pub dead: Option<u64>,
    pub end: Option<Fin>,
    pub started: u32,
    pub thread: Option<std::thread::ThreadId>,
    /// Messages sent to / received from each participant so far.
    pub out: Vec<usize>,
    pub inn: Vec<usize>,
    pub choices: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Exact,
    Tick,
    Stall,
}

pub struct Run {
    pub side: Vec<Side>,
    pub mode: Mode,
    pub tick: u64,
    pub nonce: u64,
    pub odd: u64,
    pub punctual: bool,
    pub tree: bool,
    pub rounds: u64,
    pub base_i: Instant,
    pub base_t: u64,
    /// Only so many threads can be created.
    pub spawn_fault: Option<usize>,
    /// Participants wait until the fork has returned.
    pub gate: bool,
    pub forked: bool,
}

static mut RUN: Option<Run> = None;
pub fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().expect("no run") }
}

fn when(i: Instant) -> u64 {
    let r = run();
    match i.checked_duration_since(r.base_i) {
        Some(d) => r.base_t + d.as_nanos() as u64,
        None => r.base_t - r.base_i.duration_since(i).as_nanos() as u64,
    }
}

#[allow(non_camel_case_types)]
pub struct P_ {
    pub name: &'static str,
    pub n: usize,
    /// No recursion: feasible by construction when everybody is punctual.
    pub tree: bool,
    pub max: usize,
    pub go: fn(),
}

#[derive(Clone, Copy)]
pub struct T {
    pub me: usize,
}

pub enum Act {
    Go,
    Err,
    Cancel,
}

#[macro_export]
macro_rules! tpre {
    ($h:expr, $s:expr, $w:expr) => {
        match $h.pre($w) {
            $crate::tmulti::Act::Go => {}
            $crate::tmulti::Act::Err => return $crate::injected(),
            $crate::tmulti::Act::Cancel => {
                $s.cancel();
                return $h.cancelled();
            }
        }
    };
}

impl T {
    fn st(&self) -> &'static mut Side {
        &mut run().side[self.me]
    }
    fn value(&self, w: &Win) -> u64 {
        self.st().clocks.get(&w.clock).map_or(0, |c| simrt::now() - c)
    }
    fn aim(&self, ws: &[(usize, Win)]) {
        // The wait that opens the window (of a choice: every window).
        let first = |w: &Win| if w.s < 0 { 0 } else { (w.s + !w.is as i128) as u64 * S };
        let open = ws.iter().map(|(_, w)| first(w).saturating_sub(self.value(w))).max().unwrap_or(0);
        let mut d = open;
        if !run().punctual {
            if let Some((_, w)) = ws.get(simrt::draw(ws.len().max(1) as u64) as usize) {
                let x = self.value(w);
                let e = if w.e < 0 { x + open + 4 * S } else { w.e as u64 * S };
                let last = if w.e < 0 || w.ie { e } else { e.saturating_sub(1) };
                let room = last.saturating_sub(x + open).min(20 * S);
                if simrt::draw(1000) < run().odd {
                    let s = if w.s < 0 { 0 } else { w.s as u64 * S };
                    let k = [0i64, -1, 1, 500_000_000, 1_000_000_000, 999_999_999, -1_000_000_000, 2_000_000_000, 3_000_000_000][simrt::draw(9) as usize];
                    let b = if simrt::draw(2) == 0 { e } else { s };
                    d = ((b as i128 + k as i128) - x as i128).max(0) as u64;
                } else {
                    d = open
                        + match simrt::draw(10) {
                            0 => room / 2,
                            1 if run().mode == Mode::Exact => room,
                            2 => simrt::draw(1000) * (room / 1000),
                            3 => room.min(S),
                            4 => room.min(1),
                            _ => 0,
                        };
                }
            } else if simrt::draw(10) == 0 {
                d = [1, S, 7 * S][simrt::draw(3) as usize];
            }
        }
        if d > 0 {
            simrt::note(|| format!("{} waits {} ns", self.me, d));
            std::thread::sleep(Duration::from_nanos(d));
        }
    }
    pub fn pre(&self, ws: &[(usize, Win)]) -> Act {
        self.aim(ws);
        let st = self.st();
        if let Some((at, how)) = st.crash {
            if at == st.ops.len() && !st.crashed {
                st.crashed = true;
                st.leaving = Some(simrt::now());
                simrt::ev("crash", self.me as i64, at as i64, how as i64);
                simrt::note(|| format!("FAULT: {} crashes before operation {}: {:?}", self.me, at, how));
                match how {
                    Crash::Panic => {
                        simrt::fault("participant-panic");
                        crate::blow_up()
                    }
                    Crash::Err => {
                        simrt::fault("participant-error-return");
                        return Act::Err;
                    }
                    _ => {
                        simrt::fault("participant-cancel");
                        return Act::Cancel;
                    }
                }
            }
        }
        Act::Go
    }
    pub fn cancelled(&self) -> R {
        let st = self.st();
        st.dead = Some(simrt::now());
        simrt::ev("cancelled", self.me as i64, 0, 0);
        match st.crash {
            Some((_, Crash::CancelLinger)) => {
                simrt::fault("linger-after-cancel");
                std::thread::sleep(Duration::from_secs(3600));
                Ok(())
            }
            Some((_, Crash::CancelErr)) => Err(crate::failure()),
            _ => Ok(()),
        }
    }
    fn begin(&self, k: K, ws: &[(usize, Win)], val: u64) {
        let t0 = simrt::now();
        let x0 = ws.iter().map(|(_, w)| self.value(w)).collect();
        let r = run();
        let mut nth = vec![];
        let mut gone = None;
        // Endpoints inside a choice that is being handed out still exist, whoever is gone.
        let handing = r.side.iter().any(|s| s.ops.last().is_some_and(|o| o.k == K::Choose && !o.ended));
        for (q, _) in ws {
            let st = self.st();
            let c = if matches!(k, K::Send | K::Choose) { &mut st.out[*q] } else { &mut st.inn[*q] };
            nth.push(*c);
            *c += 1;
            if matches!(k, K::Send | K::Choose) && !handing && r.side[*q].dead.is_some() {
                gone = Some(*q);
            }
        }
        simrt::ev("op", self.me as i64, k as i64, (t0 - r.base_t) as i64);
        simrt::note(|| format!("{} op {}: {:?} {:?} at {} ns, clock values {:?}", self.me, self.st().ops.len(), k, ws, t0 - run().base_t, x0));
        self.st().ops.push(Rec { k, ws: ws.to_vec(), nth, t0, t1: t0, x0, ok: false, ended: false, val, gone });
    }
    fn end(&self, ok: bool, clocks: Option<&Clocks>) {
        let t1 = simrt::now();
        let r = self.st().ops.last_mut().unwrap();
        r.t1 = t1;
        r.ok = ok;
        r.ended = true;
        let r = r.clone();
        simrt::ev("ret", self.me as i64, ok as i64, (t1 - run().base_t) as i64);
        simrt::note(|| format!("{} op returned at {} ns: {}", self.me, t1 - run().base_t, if ok { "success" } else { "FAILURE" }));
        let i = self.st().ops.len() - 1;
        let Some(cl) = clocks else { return };
        checked();
        let now: BTreeMap<char, u64> = cl.iter().map(|(c, v)| (*c, when(*v))).collect();
        let old = std::mem::replace(&mut self.st().clocks, now.clone());
        let resets: Vec<char> = r.ws.iter().map(|w| w.1.reset).filter(|c| *c != ' ').collect();
        for (c, o) in &old {
            let mine = resets.contains(c);
            match now.get(c) {
                None => simrt::violate("clock-lost", format!("{} operation {}: clock {} vanished", self.me, i, c)),
                Some(n) if ok && mine => {
                    // An operation that receives is complete only once its message was sent.
                    let sent = match r.k {
                        K::Recv | K::Offer => find(self.me, r.ws[0].0, r.nth[0]).map_or(r.t0, |s| s.t0),
                        _ => r.t0,
                    };
                    if *n < r.t0.max(sent) || *n > t1 {
                        simrt::violate("reset-missed", format!("{} operation {} {:?} {:?} succeeded at {} ns but clock {} reads as restarted at {} ns", self.me, i, r.k, r.ws, t1 - run().base_t, c, *n as i128 - run().base_t as i128));
                    }
                }
                Some(n) if n != o && !(mine && r.k == K::Choose && *n >= r.t0) => simrt::violate("clock-disturbed", format!("{} operation {} {:?} {:?} ({}) changed clock {}", self.me, i, r.k, r.ws, if ok { "success" } else { "failure" }, c)),
                _ => {}
            }
        }
        if now.len() > old.len() {
            simrt::violate("clock-disturbed", format!("{} operation {} added a clock", self.me, i));
        }
    }
    pub fn op<X>(&self, cl: &mut Clocks, f: impl FnOnce(&mut Clocks) -> Result<X, Box<dyn std::error::Error>>) -> Result<X, Box<dyn std::error::Error>> {
        let r = crate::catch(|| f(&mut *cl));
        self.end(matches!(r, Ok(Ok(_))), Some(cl));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    pub fn opc(&self, f: impl FnOnce() -> R) -> R {
        let r = crate::catch(f);
        self.end(matches!(r, Ok(Ok(_))), None);
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    pub fn mk<M: Pay>(&self, q: usize, ws: Ws) -> M {
        let key = mix(run().nonce, ((self.me * 8 + q) * 4096 + self.st().out[q]) as u64);
        self.begin(K::Send, ws, key);
        M::make(key)
    }
    pub fn rx(&self, _p: usize, ws: Ws) {
        self.begin(K::Recv, ws, 0)
    }
    pub fn got<M: Pay>(&self, p: usize, x: &M) {
        self.received(p, x.key(), K::Send)
    }
    pub fn choice(&self, ws: Ws, n: u64, exit: u64) -> u64 {
        let st = self.st();
        st.choices += 1;
        let l = if st.choices > run().rounds { exit } else { simrt::draw(n) };
        self.begin(K::Choose, ws, l);
        l
    }
    pub fn offer(&self, _p: usize, ws: Ws) {
        self.begin(K::Offer, ws, 0)
    }
    pub fn offered(&self, p: usize, l: u64, taken: &std::cell::Cell<bool>, cl: &Clocks) {
        taken.set(true);
        self.end(true, Some(cl));
        self.received(p, Ok(l), K::Choose);
    }
    pub fn settle(&self, r: Result<R, Box<dyn std::any::Any + Send>>, taken: &std::cell::Cell<bool>, cl: &Clocks) -> R {
        if !taken.get() {
            self.end(false, Some(cl));
        }
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    pub fn closing(&self) {
        self.begin(K::Close, &[], 0)
    }
    fn received(&self, p: usize, k: Result<u64, String>, want: K) {
        checked();
        let st = self.st();
        let i = st.ops.len() - 1;
        let nth = st.ops[i].nth[0];
        match k {
            Err(e) => simrt::violate("corrupt-message", format!("{} operation {}: {}", self.me, i, e)),
            Ok(k) => {
                st.ops[i].val = k;
                match find(self.me, p, nth) {
                    None => simrt::violate("wrong-message", format!("{} operation {} received something {} did not send", self.me, i, p)),
                    Some(r) if r.k != want || r.val != k => simrt::violate(if want == K::Send { "wrong-message" } else { "wrong-branch" }, format!("{} operation {} received {:x} but {} sent {:?} {:x}", self.me, i, k, p, r.k, r.val)),
                    Some(r) if r.k == K::Send && r.ended && !r.ok => simrt::violate("delivered-though-failed", format!("{} operation {} received the message of a send that failed", self.me, i)),
                    _ => {}
                }
            }
        }
    }
    pub fn participant(self, cl: &mut Clocks, f: impl FnOnce(T, &mut Clocks) -> R) -> R {
        let st = self.st();
        st.started += 1;
        if st.started > 1 {
            simrt::violate("fork", format!("participant {} was started twice", self.me));
        }
        simrt::ev("start", self.me as i64, 0, 0);
        let id = std::thread::current().id();
        st.thread = Some(id);
        if run().side.iter().enumerate().any(|(i, s)| i != self.me && s.thread == Some(id)) {
            simrt::violate("fork", format!("participant {} shares its thread with another one", self.me));
        }
        if run().gate && !run().forked {
            simrt::probe("waited-for-fork-to-return");
            simrt::engine::block_on(simrt::engine::K_USER, GATE_KEY, None);
        }
        if !cl.is_empty() {
            simrt::violate("clock-disturbed", "a forked participant does not start with an empty clock table".into());
        }
        for c in ['a', 'b'] {
            if !run().punctual && simrt::draw_p(100_000, 2) == 1 {
                std::thread::sleep(Duration::from_nanos([1, S, S / 3][simrt::draw(3) as usize]));
            }
            cl.insert(c, Instant::now());
        }
        self.st().clocks = cl.iter().map(|(c, v)| (*c, when(*v))).collect();
        let r = crate::catch(|| f(self, &mut *cl));
        let st = self.st();
        st.end = Some(match &r {
            Ok(Ok(())) => Fin::Ok,
            Ok(Err(e)) => Fin::Err(e.to_string()),
            Err(p) => Fin::Panic(simrt::panic_text(&**p)),
        });
        if st.dead.is_none() {
            st.dead = Some(simrt::now());
        }
        simrt::ev("end", self.me as i64, matches!(st.end, Some(Fin::Ok)) as i64, 0);
        simrt::note(|| format!("{} ends: {:?}", self.me, self.st().end));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

/// The operation by which `p` sent its `nth` message to `q`.
fn find(q: usize, p: usize, nth: usize) -> Option<&'static Rec> {
    run().side[p].ops.iter().find(|o| matches!(o.k, K::Send | K::Choose) && o.ws.iter().zip(&o.nth).any(|(w, n)| w.0 == q && *n == nth))
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub crash_ppm: u64,
    pub odd: u64,
    pub punctual: bool,
    pub spawn_ppm: u64,
}

pub fn scenario(all: &[&P_], m: Mix) {
    let p = all[simrt::draw(all.len() as u64) as usize];
    simrt::note(|| format!("protocol {}", p.name));
    simrt::probe(p.name);
    let mode = if m.punctual { Mode::Exact } else { [Mode::Exact, Mode::Exact, Mode::Exact, Mode::Tick, Mode::Stall][simrt::draw(5) as usize] };
    let mut tick = 0;
    match mode {
        Mode::Exact => {}
        Mode::Tick => {
            tick = [1, 1000, 50_000_000][simrt::draw(3) as usize];
            simrt::env().clock_tick = tick;
        }
        Mode::Stall => {
            simrt::env().stall_ppm = 10_000;
            simrt::env().stall_sizes = vec![1, 1000, S / 2, S, 5 * S, 3600 * S];
        }
    }
    let odd = if simrt::draw(3) == 0 { 0 } else { m.odd };
    let n = p.n;
    let mut side: Vec<Side> = (0..n)
        .map(|_| Side { ops: vec![], clocks: BTreeMap::new(), crash: None, crashed: false, leaving: None, dead: None, end: None, started: 0, thread: None, out: vec![0; n], inn: vec![0; n], choices: 0 })
        .collect();
    for _ in 0..2 {
        if m.crash_ppm > 0 && simrt::draw_p(m.crash_ppm, 2) == 1 {
            let who = simrt::draw(n as u64) as usize;
            let how = [Crash::Panic, Crash::Err, Crash::CancelOk, Crash::CancelLinger, Crash::CancelErr][simrt::draw(5) as usize];
            side[who].crash = Some((simrt::draw(2 * p.max as u64) as usize, how));
        }
    }
    let rounds = simrt::draw(5);
    let nonce = 0x71ed + simrt::draw(4);
    let base_i = Instant::now();
    let base_t = simrt::now();
    let mut spawn_fault = None;
    if m.spawn_ppm > 0 && simrt::draw_p(m.spawn_ppm, 2) == 1 {
        let k = simrt::draw(n as u64) as usize;
        simrt::env().spawn_fail_in = 1 + k as u32;
        spawn_fault = Some(k);
    }
    let gate = m.spawn_ppm > 0 && simrt::draw_p(200_000, 2) == 1;
    unsafe { RUN = Some(Run { side, mode, tick, nonce, odd, punctual: m.punctual, tree: p.tree, rounds, base_i, base_t, spawn_fault, gate, forked: false }) }
    simrt::note(|| format!("mode {:?} tick {}", mode, tick));
    (p.go)();
}

const GATE_KEY: u64 = 1 << 59;
fn open_gate() {
    run().forked = true;
    if run().gate {
        simrt::engine::wake_key(GATE_KEY, usize::MAX);
    }
}

pub fn not_forked(e: Box<dyn std::any::Any + Send>) {
    checked();
    let Some(from) = run().spawn_fault else {
        simrt::violate("spurious-failure", format!("fork failed: {}", simrt::panic_text(&*e)));
        return;
    };
    simrt::probe("fork-failed");
    let now = simrt::now();
    open_gate();
    for k in 0..21 {
        std::thread::sleep(Duration::from_secs(3600 << k));
        let ran = run().side.iter().filter(|s| s.started > 0).count();
        if (ran >= from || k > 8) && run().side.iter().all(|r| r.started == 0 || r.end.is_some()) {
            break;
        }
    }
    let ran = run().side.iter().filter(|s| s.started > 0).count();
    if ran > from {
        simrt::violate("fork", format!("{} threads could be created but {} participants ran", from, ran));
    }
    if ran < from {
        return;
    }
    for (i, s) in run().side.iter_mut().enumerate() {
        checked();
        if s.started == 0 {
            s.dead = Some(now);
        } else if s.end.is_none() {
            simrt::violate("hang", format!("participant {} does not end though another one could not be started", i));
        }
    }
    judge_all();
}

pub fn joined(js: Vec<std::thread::JoinHandle<()>>) {
    if run().spawn_fault.is_some() {
        simrt::violate("hidden-failure", "the fork succeeded although a thread could not be created".into());
        return;
    }
    open_gate();
    for (i, j) in js.into_iter().enumerate() {
        let ok = j.join().is_ok();
        checked();
        match &run().side[i].end {
            None => simrt::violate("join", format!("joining participant {} returned before it ended", i)),
            Some(e) if (*e == Fin::Ok) != ok => simrt::violate("join", format!("participant {} ended with {:?} but joining it reported {}", i, e, ok)),
            _ => {}
        }
    }
    judge_all();
}

fn judge_all() {
    let run = run();
    for me in 0..run.side.len() {
        for i in 0..run.side[me].ops.len() {
            judge(run, me, i);
        }
        let st = &run.side[me];
        if st.end == Some(Fin::Ok) {
            simrt::probe(if st.crashed { "cancelled" } else { "completed" });
            if !st.crashed && st.ops.iter().any(|o| !o.ok) {
                simrt::violate("wrong-path", format!("{} returned success though an operation failed", me));
            }
        } else if !st.crashed && st.started > 0 {
            simrt::probe("failed");
            if st.ops.iter().all(|o| o.ok) {
                simrt::violate("spurious-failure", format!("{} ended with {:?} though every operation succeeded", me, st.end));
            }
            if run.punctual && run.tree && run.side.iter().all(|s| s.crash.is_none()) {
                simrt::violate("spurious-failure", format!("everybody was punctual but {} ended with {:?}", me, st.end));
            }
        }
    }
}

fn judge(run: &Run, me: usize, i: usize) {
    checked();
    let o = &run.side[me].ops[i];
    let b = run.base_t;
    let at = |t: u64| t as i128 - b as i128;
    if !o.ended {
        simrt::violate("hang", format!("{} operation {} never returned", me, i));
        return;
    }
    if o.k == K::Close {
        let all = (0..run.side.len()).filter(|p| *p != me).all(|p| run.side[p].ops.last().is_some_and(|x| x.k == K::Close && x.t0 <= o.t1));
        if o.ok && !all {
            simrt::violate("early-close", format!("{} closed successfully although not everybody did", me));
        }
        if !o.ok && (0..run.side.len()).all(|p| run.side[p].ops.last().is_some_and(|x| x.k == K::Close)) {
            simrt::violate("spurious-failure", format!("{} failed to close although everybody closed", me));
        }
        return;
    }
    let desc = || format!("{} operation {} {:?} {:?} started at {} ns with clock values {:?} and {} at {} ns", me, i, o.k, o.ws, at(o.t0), o.x0, if o.ok { "succeeded" } else { "failed" }, at(o.t1));
    let dt = o.t1 - o.t0;
    let slack = match run.mode {
        Mode::Exact => 0,
        Mode::Tick => 80 * run.tick,
        Mode::Stall => u64::MAX / 4,
    };
    let meets = o.ws.iter().zip(&o.x0).all(|((_, w), x)| w.meets(*x, x + dt));
    let holds = o.ws.iter().zip(&o.x0).all(|((_, w), x)| w.holds(*x, x + dt));
    simrt::probe(if holds { "op-inside-window" } else if meets { "op-on-the-edge" } else { "op-outside-window" });
    if o.ok && !meets {
        simrt::violate(if matches!(o.k, K::Send | K::Choose) { "sent-outside-window" } else { "received-outside-window" }, desc());
    }
    if matches!(o.k, K::Send | K::Choose) {
        if o.ok {
            if let Some(q) = o.gone {
                simrt::violate("missed-failure", format!("{} although {} was already gone", desc(), q));
            }
        } else if holds && !o.ws.iter().any(|(q, _)| may_be_gone_for(run, *q, o, me)) {
            simrt::violate("spurious-failure", format!("{} inside its window with its partners present", desc()));
        }
        if dt > slack {
            simrt::violate("send-waited", desc());
        }
        return;
    }
    let (p, w) = o.ws[0];
    let x0 = o.x0[0];
    let sent = find(me, p, o.nth[0]);
    if o.ok {
        match sent {
            Some(p) if p.t0 <= o.t1 => {}
            _ => simrt::violate("wrong-message", format!("{} though nothing was sent", desc())),
        }
    }
    let ts = sent.filter(|p| p.ok).map(|p| p.t1);
    let gone = run.side[p].dead;
    let d: u64 = if w.e < 0 { u64::MAX } else { (o.t0 - x0).saturating_add((w.e as u64).saturating_mul(S)) };
    if !o.ok && w.lower_strong(x0) && w.upper(x0) && o.t1 < d && !may_be_gone_for(run, p, o, me) {
        simrt::violate("early-failure", format!("{}: its window ends at {} ns and its partner is present", desc(), at(d)));
    }
    if run.mode == Mode::Stall {
        return;
    }
    if o.t1 > d.saturating_add(slack) && !(o.t0 > d && dt <= slack) {
        simrt::violate("late-return", format!("{}: its window ended at {} ns", desc(), at(d)));
    }
    if w.lower_strong(x0) && w.upper(x0) {
        let due = ts.map(|t| t.max(o.t0));
        if let Some(due) = due.filter(|t| t.saturating_add(slack) < d) {
            if !o.ok {
                simrt::violate("missed-message", format!("{} although its message was available at {} ns", desc(), at(due)));
            } else if o.t1 > due.saturating_add(slack) {
                simrt::violate("late-return", format!("{} although its message was available at {} ns", desc(), at(due)));
            }
        } else if due.is_none() {
            let lim = gone.unwrap_or(u64::MAX).max(o.t0).min(d);
            if o.t1 > lim.saturating_add(slack) {
                simrt::violate("late-failure", format!("{} although its partner was gone or the window over at {} ns", desc(), at(lim)));
            }
        }
    } else if !w.upper(x0) && dt > slack {
        simrt::violate("late-failure", format!("{} although the window was over from the start", desc()));
    }
}

/// The endpoint of `p` that its partner `me` sees may have been gone before the operation ended: its thread
/// had ended, or was inside an operation that failed, or a choice was not handed out completely.
fn may_be_gone_for(run: &Run, p: usize, o: &Rec, me: usize) -> bool {
    let t = o.t1;
    let s = &run.side[p];
    s.dead.is_some_and(|d| d <= t)
        || (run.spawn_fault.is_some() && s.started == 0)
        || s.leaving.is_some_and(|d| d <= t)
        || s.ops.last().is_some_and(|x| !x.ok && x.t0 <= t)
        || run.side.iter().enumerate().any(|(q, s)| q != me && s.ops.last().is_some_and(|x| x.k == K::Choose && !x.ok && x.t0 <= t))
}
