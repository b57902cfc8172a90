//! Timed two-party sessions: a workload driven by the session types themselves, and the oracle over
//! what happened, when, and to which clocks.
//!
//! Simulated time stands still while threads run and moves only when everybody waits (or when a
//! stall is injected), so without stalls the instant of every success and every failure is exact.
use harness::model::{Crash, End as Fin};
use harness::pay::{Big, Pay, Tok};
use harness::win::{Win, S};
use harness::{checked, mix, R};
use either::Either;
use mpstthree::binary::cancel::cancel;
use mpstthree::binary::close::close;
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use std::collections::{BTreeMap, HashMap};
use std::time::{Duration, Instant};

pub type Clocks = HashMap<char, Instant>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Send,
    Recv,
    Close,
}

/// One performed operation.
#[derive(Clone, Debug)]
pub struct Rec {
    pub k: K,
    pub w: Option<Win>,
    pub t0: u64,
    pub t1: u64,
    /// Value of the named clock at t0, if it exists.
    pub x0: Option<u64>,
    pub ok: bool,
    pub ended: bool,
    /// What was sent (or chosen) / received.
    pub val: u64,
    pub peer_gone: bool,
}

pub struct Side {
    /// When it began to leave on its own account.
    pub leaving: Option<u64>,
    pub ops: Vec<Rec>,
    pub clocks: BTreeMap<char, u64>,
    pub crash: Option<(usize, Crash)>,
    pub crashed: bool,
    pub dead: Option<u64>,
    pub end: Option<Fin>,
    pub started: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Time moves only when everybody waits.
    Exact,
    /// Every clock read takes time.
    Tick,
    /// The whole process is held up at arbitrary points.
    Stall,
}

pub struct Run {
    pub side: [Side; 2],
    pub mode: Mode,
    pub tick: u64,
    pub nonce: u64,
    /// Per mille of operations that are not aimed at the inside of their window.
    pub odd: u64,
    pub cautious: bool,
    pub base_i: Instant,
    pub base_t: u64,
    pub faulty: bool,
    pub spawn_fault: bool,
    pub gate: Gate,
    pub expect: &'static [&'static str],
}

static mut RUN: Option<Run> = None;
pub fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().expect("no run") }
}

/// Simulated time of a clock value.
pub fn when(i: Instant) -> u64 {
    let r = run();
    match i.checked_duration_since(r.base_i) {
        Some(d) => r.base_t + d.as_nanos() as u64,
        None => r.base_t - r.base_i.duration_since(i).as_nanos() as u64,
    }
}

pub struct P {
    pub name: &'static str,
    pub clocks: &'static str,
    pub max: usize,
    pub go: fn(),
}

#[derive(Clone, Copy)]
pub struct T {
    pub me: usize,
}

pub enum Act {
    Go,
    Err,
    Cancel,
}

impl T {
    fn st(&self) -> &'static mut Side {
        &mut run().side[self.me]
    }
    fn peer(&self) -> &'static mut Side {
        &mut run().side[1 - self.me]
    }
    /// Waits before an operation: towards an edge, the inside, or the outside of its window.
    fn aim(&self, w: Option<Win>) {
        let x = w.and_then(|w| self.st().clocks.get(&w.clock).map(|c| simrt::now() - c));
        let target: u64 = match (w, x) {
            (Some(w), Some(x)) => {
                let s = if w.s < 0 { 0 } else { w.s as u64 * S };
                let far = s + 4 * S;
                let e = if w.e < 0 { far } else { (w.e as u64).saturating_mul(S).min(1 << 62) };
                let first = if w.s >= 0 && !w.is { s + S } else { s };
                let last = if w.e < 0 || w.ie { e } else { e.saturating_sub(1) };
                let span = last.saturating_sub(first).min(1000 * S);
                if simrt::draw(1000) < run().odd {
                    let d = [0i64, -1, 1, 500_000_000, 1_000_000_000, 999_999_999, -1_000_000_000, 2_000_000_000, 3_000_000_000][simrt::draw(9) as usize];
                    let b = if simrt::draw(2) == 0 { e } else { s };
                    (b as i128 + d as i128).max(0) as u64
                } else {
                    match simrt::draw(6) {
                        0 => first,
                        1 => 0,
                        2 => first + span / 2,
                        3 if !run().cautious => first + span,
                        4 => first + simrt::draw(1000) * (span / 1000),
                        _ => first + S.min(span),
                    }
                    .max(if x >= first { 0 } else { first })
                }
            }
            _ => 0,
        };
        if let Some(x) = x {
            if target > x {
                let d = target - x;
                simrt::note(|| format!("{} waits {} ns, until clock value {}", self.me, d, target));
                std::thread::sleep(Duration::from_nanos(d));
            }
        }
        if simrt::draw_p(30_000, 2) == 1 {
            std::thread::sleep(Duration::from_nanos([1, S / 2, S, 3 * S][simrt::draw(4) as usize]));
        }
    }
    fn pre(&self, w: Option<Win>) -> Act {
        self.aim(w);
        let st = self.st();
        if let Some((at, how)) = st.crash {
            if at == st.ops.len() && !st.crashed {
                st.crashed = true;
                simrt::ev("crash", self.me as i64, at as i64, how as i64);
                self.st().leaving = Some(simrt::now());
                simrt::note(|| format!("FAULT: {} crashes before operation {}: {:?}", self.me, at, how));
                match how {
                    Crash::Panic => {
                        simrt::fault("participant-panic");
                        harness::blow_up()
                    }
                    Crash::Err => {
                        simrt::fault("participant-error-return");
                        return Act::Err;
                    }
                    _ => {
                        simrt::fault("participant-cancel");
                        return Act::Cancel;
                    }
                }
            }
        }
        Act::Go
    }
    fn cancelled(&self) -> R {
        let st = self.st();
        st.dead = Some(simrt::now());
        simrt::ev("cancelled", self.me as i64, 0, 0);
        match st.crash {
            Some((_, Crash::CancelLinger)) => {
                simrt::fault("linger-after-cancel");
                std::thread::sleep(Duration::from_secs(3600));
                Ok(())
            }
            Some((_, Crash::CancelErr)) => Err(harness::failure()),
            _ => Ok(()),
        }
    }
    pub fn begin(&self, k: K, w: Option<Win>, val: u64) {
        let peer_gone = self.peer().dead.is_some();
        let t0 = simrt::now();
        let st = self.st();
        let x0 = w.and_then(|w| st.clocks.get(&w.clock).map(|c| t0 - c));
        simrt::ev("op", self.me as i64, k as i64, (t0 - run().base_t) as i64);
        simrt::note(|| format!("{} op {}: {:?} {:?} at {} ns, clock value {:?}", self.me, self.st().ops.len(), k, w, t0 - run().base_t, x0));
        self.st().ops.push(Rec { k, w, t0, t1: t0, x0, ok: false, ended: false, val, peer_gone });
    }
    /// The operation returned or panicked; the clock table is judged here.
    fn end(&self, ok: bool, clocks: Option<&Clocks>) {
        let t1 = simrt::now();
        let r = self.st().ops.last_mut().unwrap();
        r.t1 = t1;
        r.ok = ok;
        r.ended = true;
        let r = r.clone();
        simrt::ev("ret", self.me as i64, ok as i64, (t1 - run().base_t) as i64);
        simrt::note(|| format!("{} op returned at {} ns: {}", self.me, t1 - run().base_t, if ok { "success" } else { "FAILURE" }));
        let i = self.st().ops.len() - 1;
        let Some(cl) = clocks else { return };
        checked();
        let now: BTreeMap<char, u64> = cl.iter().map(|(c, v)| (*c, when(*v))).collect();
        let old = std::mem::replace(&mut self.st().clocks, now.clone());
        let reset = r.w.filter(|w| w.reset != ' ').map(|w| w.reset);
        for (c, o) in &old {
            match now.get(c) {
                None => simrt::violate("clock-lost", format!("{} operation {}: clock {} vanished", self.me, i, c)),
                Some(n) if ok && reset == Some(*c) => {
                    // An operation that receives is complete only once its message was sent.
                    let sent = match (r.k, self.peer().ops.get(i)) {
                        (K::Recv, Some(p)) if p.k == K::Send => p.t0,
                        _ => r.t0,
                    };
                    if *n < r.t0.max(sent) || *n > t1 {
                        let w = r.w.unwrap();
                        simrt::violate("reset-missed", format!("{} operation {} ({:?}{}) succeeded at {} ns but clock {} reads as restarted at {} ns", self.me, i, w, if w.unbounded() { ", unbounded" } else { "" }, t1 - run().base_t, c, *n as i128 - run().base_t as i128));
                    }
                }
                Some(n) if n != o => simrt::violate("clock-disturbed", format!("{} operation {} ({:?}, {}) changed clock {} from {} to {}", self.me, i, r.w, if ok { "success" } else { "failure" }, c, o, n)),
                _ => {}
            }
        }
        for c in now.keys() {
            if !old.contains_key(c) && !(ok && reset == Some(*c)) {
                simrt::violate("clock-disturbed", format!("{} operation {} added a clock {}", self.me, i, c));
            }
        }
    }
    pub fn participant(self, cl: &mut Clocks, f: impl FnOnce(T, &mut Clocks) -> R) -> R {
        let st = self.st();
        st.started += 1;
        if st.started > 1 {
            simrt::violate("fork", format!("participant {} was started twice", self.me));
        }
        simrt::ev("start", self.me as i64, 0, 0);
        if self.me == 1 && run().gate == Gate::Closed {
            simrt::probe("waited-for-fork-to-return");
            simrt::engine::block_on(simrt::engine::K_USER, GATE_KEY, None);
        }
        if self.me == 1 && simrt::engine::me() == 0 {
            simrt::violate("fork", "the forked participant runs on the thread that forked it".into());
        }
        if !cl.is_empty() {
            simrt::violate("clock-disturbed", "a forked participant does not start with an empty clock table".into());
        }
        // The participant's own clocks, started one after the other.
        for c in "abcd".chars().filter(|c| self.has(*c)) {
            if simrt::draw_p(150_000, 2) == 1 {
                std::thread::sleep(Duration::from_nanos([1, S, S / 3][simrt::draw(3) as usize]));
            }
            cl.insert(c, Instant::now());
        }
        self.st().clocks = cl.iter().map(|(c, v)| (*c, when(*v))).collect();
        let r = harness::catch(|| f(self, &mut *cl));
        let st = self.st();
        st.end = Some(match &r {
            Ok(Ok(())) => Fin::Ok,
            Ok(Err(e)) => Fin::Err(e.to_string()),
            Err(p) => Fin::Panic(simrt::panic_text(&**p)),
        });
        if st.dead.is_none() {
            st.dead = Some(simrt::now());
        }
        simrt::ev("end", self.me as i64, matches!(st.end, Some(Fin::Ok)) as i64, 0);
        simrt::note(|| format!("{} ends: {:?}", self.me, self.st().end));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    fn has(&self, c: char) -> bool {
        // a missing clock is a fault of the plan
        run().expect[self.me].contains(c)
    }
    fn key(&self) -> u64 {
        mix(run().nonce, self.st().ops.len() as u64)
    }
    /// Runs one timed operation; failures are recorded, then travel on as the library reported them.
    pub fn op<X>(&self, cl: &mut Clocks, f: impl FnOnce(&mut Clocks) -> Result<X, Box<dyn std::error::Error>>) -> Result<X, Box<dyn std::error::Error>> {
        let r = harness::catch(|| f(&mut *cl));
        self.end(matches!(r, Ok(Ok(_))), Some(cl));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    fn got(&self, from: K, k: Result<u64, String>) {
        checked();
        let i = self.st().ops.len() - 1;
        let _ = from;
        match k {
            Err(e) => simrt::violate("corrupt-message", format!("{} operation {}: {}", self.me, i, e)),
            Ok(k) => {
                self.st().ops[i].val = k;
                match self.peer().ops.get(i) {
                    None => simrt::violate("wrong-message", format!("{} operation {} received a message that was not sent", self.me, i)),
                    Some(r) if r.k != K::Send || r.val != k => simrt::violate("wrong-message", format!("{} operation {} received {:x} but {:x} was sent", self.me, i, k, r.val)),
                    Some(r) if r.ended && !r.ok && !r.w.is_some_and(|w| w.reset != ' ' && !run().expect[1 - self.me].contains(w.reset)) => simrt::violate("delivered-though-failed", format!("{} operation {} received the message of a send that failed", self.me, i)),
                    _ => {}
                }
            }
        }
    }
}

macro_rules! pre {
    ($h:expr, $s:expr, $w:expr) => {
        match $h.pre($w) {
            Act::Go => {}
            Act::Err => return Err(harness::failure()),
            Act::Cancel => {
                cancel($s);
                return $h.cancelled();
            }
        }
    };
}

/// A session type that can play itself.
pub trait Drive: Session + Sized {
    fn drive(self, h: T, cl: &mut Clocks) -> R;
}

impl Drive for End {
    fn drive(self, h: T, _cl: &mut Clocks) -> R {
        pre!(h, self, None);
        h.begin(K::Close, None, 0);
        let r = harness::catch(|| close(self));
        h.end(matches!(r, Ok(Ok(_))), None);
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

macro_rules! plain {
    ($m:ty) => {
impl<const C: char, const A: i128, const IA: bool, const B: i128, const IB: bool, const X: char, N: Drive> Drive for SendTimed<$m, C, A, IA, B, IB, X, N>
where
    N::Dual: Session,
{
    fn drive(self, h: T, cl: &mut Clocks) -> R {
        let w = Win { clock: C, s: A, is: IA, e: B, ie: IB, reset: X };
        pre!(h, self, Some(w));
        let key = h.key();
        h.begin(K::Send, Some(w), key);
        let s = h.op(cl, |cl| mpstthree::binary_atmp::send::send(<$m as Pay>::make(key), cl, self))?;
        s.drive(h, cl)
    }
}

impl<const C: char, const A: i128, const IA: bool, const B: i128, const IB: bool, const X: char, N: Drive> Drive for RecvTimed<$m, C, A, IA, B, IB, X, N>
where
    N::Dual: Session,
{
    fn drive(self, h: T, cl: &mut Clocks) -> R {
        let w = Win { clock: C, s: A, is: IA, e: B, ie: IB, reset: X };
        pre!(h, self, Some(w));
        h.begin(K::Recv, Some(w), 0);
        let (m, s) = h.op(cl, |cl| mpstthree::binary_atmp::recv::recv(cl, self))?;
        h.got(K::Send, m.key());
        s.drive(h, cl)
    }
}
    };
}
plain!(u64);
plain!(i64);
plain!(String);
plain!(Tok);
plain!((u64, Box<Tok>));
plain!(Big);
plain!(Option<Vec<u64>>);

impl<D1: Session, D2: Session, const C: char, const A: i128, const IA: bool, const B: i128, const IB: bool, const X: char> Drive for SendTimed<Either<D1, D2>, C, A, IA, B, IB, X, End>
where
    D1::Dual: Drive,
    D2::Dual: Drive,
{
    fn drive(self, h: T, cl: &mut Clocks) -> R {
        use mpstthree::binary_atmp::choose::{choose_left, choose_right};
        let w = Win { clock: C, s: A, is: IA, e: B, ie: IB, reset: X };
        pre!(h, self, Some(w));
        let l = simrt::draw(2);
        h.begin(K::Send, Some(w), l);
        if l == 0 {
            let s = h.op(cl, |cl| choose_left::<D1::Dual, D2::Dual, C, A, IA, B, IB, X>(cl, self))?;
            s.drive(h, cl)
        } else {
            let s = h.op(cl, |cl| choose_right::<D1::Dual, D2::Dual, C, A, IA, B, IB, X>(cl, self))?;
            s.drive(h, cl)
        }
    }
}

impl<S1: Drive, S2: Drive, const C: char, const A: i128, const IA: bool, const B: i128, const IB: bool, const X: char> Drive for RecvTimed<Either<S1, S2>, C, A, IA, B, IB, X, End> {
    fn drive(self, h: T, cl: &mut Clocks) -> R {
        use mpstthree::binary_atmp::offer::offer_either;
        let w = Win { clock: C, s: A, is: IA, e: B, ie: IB, reset: X };
        pre!(h, self, Some(w));
        h.begin(K::Recv, Some(w), 0);
        let taken = std::cell::Cell::new(false);
        let r = harness::catch(|| {
            offer_either(
                &mut *cl,
                self,
                |cl: &mut Clocks, s: S1| {
                    taken.set(true);
                    h.end(true, Some(cl));
                    h.got(K::Send, Ok(0));
                    s.drive(h, cl)
                },
                |cl: &mut Clocks, s: S2| {
                    taken.set(true);
                    h.end(true, Some(cl));
                    h.got(K::Send, Ok(1));
                    s.drive(h, cl)
                },
            )
        });
        if !taken.get() {
            h.end(false, Some(cl));
        }
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

/// Plays an enum branch: `h.end`/`h.got` for an offer made with the library's macro.
pub fn branch<X: Drive>(h: T, cl: &mut Clocks, label: u64, taken: &std::cell::Cell<bool>, s: X) -> R {
    taken.set(true);
    h.end(true, Some(cl));
    h.got(K::Send, Ok(label));
    s.drive(h, cl)
}

#[macro_export]
macro_rules! timed_enum {
    ($name:ident, $sel:ident, $off:ident, { $($v:ident ($t:ty) = $i:literal),+ }, $c:literal, $a:literal, $ia:literal, $b:literal, $ib:literal, $x:literal) => {
        pub enum $name { $($v($t)),+ }
        pub type $sel = SendTimed<$name, $c, $a, $ia, $b, $ib, $x, End>;
        pub type $off = RecvTimed<$name, $c, $a, $ia, $b, $ib, $x, End>;
        impl Drive for $sel {
            fn drive(self, h: T, cl: &mut Clocks) -> R {
                let w = Win { clock: $c, s: $a, is: $ia, e: $b, ie: $ib, reset: $x };
                $crate::timed_pre!(h, self, Some(w));
                const N: u64 = [$($i),+].len() as u64;
                match simrt::draw(N) {
                    $($i => {
                        h.begin(K::Send, Some(w), $i);
                        let s: <$t as Session>::Dual = h.op(cl, |cl| Ok(mpstthree::choose_atmp!($name::$v, cl, self)))?;
                        s.drive(h, cl)
                    })+
                    _ => unreachable!(),
                }
            }
        }
        impl Drive for $off {
            fn drive(self, h: T, cl: &mut Clocks) -> R {
                let w = Win { clock: $c, s: $a, is: $ia, e: $b, ie: $ib, reset: $x };
                $crate::timed_pre!(h, self, Some(w));
                h.begin(K::Recv, Some(w), 0);
                let taken = std::cell::Cell::new(false);
                let r = harness::catch(|| {
                    let cl = &mut *cl;
                    let taken = &taken;
                    mpstthree::offer_atmp!(cl, self, { $($name::$v(s) => branch(h, cl, $i, taken, s),)+ })
                });
                h.settle_offer(r, &taken, cl)
            }
        }
    };
}
#[macro_export]
macro_rules! timed_pre {
    ($h:expr, $s:expr, $w:expr) => {
        match $h.pre_($w) {
            Act::Go => {}
            Act::Err => return Err(harness::failure()),
            Act::Cancel => {
                mpstthree::binary::cancel::cancel($s);
                return $h.cancelled_();
            }
        }
    };
}
impl T {
    pub fn settle_offer(&self, r: Result<R, Box<dyn std::any::Any + Send>>, taken: &std::cell::Cell<bool>, cl: &Clocks) -> R {
        if !taken.get() {
            self.end(false, Some(cl));
        }
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    pub fn pre_(&self, w: Option<Win>) -> Act {
        self.pre(w)
    }
    pub fn cancelled_(&self) -> R {
        self.cancelled()
    }
}

#[derive(Clone, Copy)]
pub struct Mix {
    pub crash_ppm: u64,
    pub odd: u64,
    pub missing_ppm: u64,
    pub exact_only: bool,
    pub spawn_ppm: u64,
}

pub fn scenario(all: &[P], m: Mix) {
    let p = &all[simrt::draw(all.len() as u64) as usize];
    simrt::note(|| format!("program {}", p.name));
    simrt::probe(p.name);
    let mode = if m.exact_only { Mode::Exact } else { [Mode::Exact, Mode::Exact, Mode::Exact, Mode::Tick, Mode::Stall][simrt::draw(5) as usize] };
    let mut tick = 0;
    match mode {
        Mode::Exact => {}
        Mode::Tick => {
            tick = [1, 1000, 50_000_000][simrt::draw(3) as usize];
            simrt::env().clock_tick = tick;
        }
        Mode::Stall => {
            simrt::env().stall_ppm = 30_000;
            simrt::env().stall_sizes = vec![1, 1000, S / 2, S, 5 * S, 3600 * S];
        }
    }
    let odd = if simrt::draw(3) == 0 { 0 } else { m.odd };
    let mut side = [0, 1].map(|_| Side { ops: vec![], clocks: BTreeMap::new(), crash: None, crashed: false, dead: None, leaving: None, end: None, started: 0 });
    let mut faulty = false;
    if m.crash_ppm > 0 && simrt::draw_p(m.crash_ppm, 2) == 1 {
        let who = simrt::draw(2) as usize;
        let how = [Crash::Panic, Crash::Err, Crash::CancelOk, Crash::CancelLinger, Crash::CancelErr][simrt::draw(5) as usize];
        side[who].crash = Some((simrt::draw(p.max as u64) as usize, how));
        faulty = true;
    }
    static CL: [&str; 5] = ["abcd", "abc", "abd", "acd", "bcd"];
    static mut EXPECT: [&str; 2] = ["abcd", "abcd"];
    let mut expect = ["abcd", "abcd"];
    if m.missing_ppm > 0 && simrt::draw_p(m.missing_ppm, 2) == 1 {
        expect[simrt::draw(2) as usize] = CL[simrt::draw(5) as usize];
        simrt::fault("clock-missing");
    }
    let nonce = 0x71ed + simrt::draw(4);
    let spawn_fault = m.spawn_ppm > 0 && simrt::draw_p(m.spawn_ppm, 2) == 1;
    if spawn_fault {
        simrt::env().spawn_fail_in = 1;
    }
    let gate = if m.spawn_ppm == 0 { Gate::Off } else if simrt::draw_p(300_000, 2) == 1 { Gate::Closed } else { Gate::Open };
    let base_i = Instant::now();
    let base_t = simrt::now();
    unsafe {
        EXPECT = expect;
        RUN = Some(Run { side, mode, tick, nonce, odd, cautious: odd == 0 && mode != Mode::Exact, base_i, base_t, faulty, spawn_fault, gate, expect: &*std::ptr::addr_of!(EXPECT) })
    }
    simrt::note(|| format!("mode {:?} tick {}", mode, tick));
    (p.go)();
}

/// Forks side 1 as `S`, plays side 0 on this thread, joins, judges.
pub fn go<X: Drive + 'static>()
where
    X::Dual: Drive,
{
    use mpstthree::binary_atmp::fork::{fork, fork_with_thread_id};
    if run().gate != Gate::Off && simrt::draw_p(300_000, 2) == 1 {
        // Without a handle to join
        match harness::catch(|| fork(|s: X, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| s.drive(h, cl)))) {
            Ok(s) => {
                simrt::probe("not-joined");
                open_gate();
                let mut cl = Clocks::new();
                let _ = harness::catch(|| T { me: 0 }.participant(&mut cl, |h, cl| s.drive(h, cl)));
                // a window may be open for centuries
                for k in 0..21 {
                    if run().side[1].end.is_some() {
                        break;
                    }
                    std::thread::sleep(Duration::from_secs(3600 << k));
                }
                checked();
                match (run().side[1].started, &run().side[1].end) {
                    (0, _) => simrt::violate("fork", "the forked participant never ran".into()),
                    (_, None) => simrt::violate("hang", "the forked participant never ended".into()),
                    _ => {}
                }
                verify();
            }
            Err(e) => not_forked(e),
        }
        return;
    }
    match harness::catch(|| fork_with_thread_id(|s: X, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| s.drive(h, cl)))) {
        Ok((j, s)) => {
            if run().spawn_fault {
                simrt::violate("hidden-failure", "the fork succeeded although no thread could be created".into());
            }
            open_gate();
            let mut cl = Clocks::new();
            let r = harness::catch(|| T { me: 0 }.participant(&mut cl, |h, cl| s.drive(h, cl)));
            let _ = r;
            let ok = j.join().is_ok();
            checked();
            match &run().side[1].end {
                None => simrt::violate("join", "joining the forked participant returned before it ended".into()),
                Some(e) if (*e == Fin::Ok) != ok => simrt::violate("join", format!("the participant ended with {:?} but joining it reported {}", e, ok)),
                _ => {}
            }
            verify();
        }
        Err(e) => not_forked(e),
    }
}

fn not_forked(e: Box<dyn std::any::Any + Send>) {
    checked();
    if !run().spawn_fault {
        simrt::violate("spurious-failure", format!("fork failed: {}", simrt::panic_text(&*e)));
    }
    simrt::probe("fork-failed");
    open_gate();
    std::thread::sleep(Duration::from_secs(7200));
    if run().side[1].started > 0 {
        simrt::violate("fork", "a failed fork started its participant".into());
    }
}

const GATE_KEY: u64 = 1 << 59;
#[derive(Clone, Copy, PartialEq)]
pub enum Gate {
    Off,
    /// Nobody waits, but the ways to fork vary.
    Open,
    /// The participant waits until the fork has returned.
    Closed,
}
fn open_gate() {
    if run().gate == Gate::Closed {
        run().gate = Gate::Open;
        simrt::engine::wake_key(GATE_KEY, usize::MAX);
    }
}

pub fn verify() {
    let run = run();
    for me in 0..2 {
        for i in 0..run.side[me].ops.len() {
            judge(run, me, i);
        }
        let st = &run.side[me];
        if st.end == Some(Fin::Ok) {
            simrt::probe(if st.crashed { "cancelled" } else { "completed" });
            if !st.crashed && st.ops.iter().any(|o| !o.ok) {
                simrt::violate("wrong-path", format!("{} returned success though an operation failed", me));
            }
        } else if !st.crashed {
            simrt::probe("failed");
            if st.ops.iter().all(|o| o.ok) {
                simrt::violate("spurious-failure", format!("{} ended with {:?} though every operation succeeded", me, st.end));
            }
        }
    }
}

/// The partner's endpoint may have been gone at that time: its thread had ended, or was inside an
/// operation that failed (which drops the endpoint some time before it returns).
fn may_be_gone(p: &Side, t: u64) -> bool {
    p.dead.is_some_and(|d| d <= t) || p.leaving.is_some_and(|d| d <= t) || p.ops.last().is_some_and(|o| !o.ok && o.t0 <= t)
}

fn judge(run: &Run, me: usize, i: usize) {
    checked();
    let o = &run.side[me].ops[i];
    let (st, peer) = (&run.side[me], &run.side[1 - me]);
    let _ = st;
    let b = run.base_t;
    let at = |t: u64| t as i128 - b as i128;
    if !o.ended {
        simrt::violate("hang", format!("{} operation {} never returned", me, i));
        return;
    }
    let other = peer.ops.get(i);
    if o.k == K::Close {
        if o.ok && !other.is_some_and(|p| p.k == K::Close && p.t0 <= o.t1) {
            simrt::violate("early-close", format!("{} closed successfully although its partner did not", me));
        }
        if !o.ok && other.is_some_and(|p| p.k == K::Close) {
            simrt::violate("spurious-failure", format!("{} failed to close although both closed", me));
        }
        return;
    }
    let w = o.w.unwrap();
    let desc = || format!("{} operation {} {:?} {:?} started at {} ns with clock value {:?} and {} at {} ns", me, i, o.k, w, at(o.t0), o.x0, if o.ok { "succeeded" } else { "failed" }, at(o.t1));
    let dt = o.t1 - o.t0;
    let slack = match run.mode {
        Mode::Exact => 0,
        Mode::Tick => 40 * run.tick,
        Mode::Stall => u64::MAX / 4,
    };
    // An operation whose clock is not known, unless it needs none.
    if o.x0.is_none() && !w.unbounded() {
        simrt::probe("op-without-clock");
        if o.ok {
            simrt::violate("unknown-clock", format!("{} although the clock does not exist", desc()));
        }
        if dt > slack {
            simrt::violate("late-failure", format!("{} although the clock does not exist", desc()));
        }
        return;
    }
    // A reset of an unknown clock cannot be performed; what the operation does then is not specified.
    if w.reset != ' ' && !run.expect[me].contains(w.reset) {
        return;
    }
    let x0 = o.x0.unwrap_or(0);
    let x1 = x0 + dt;
    simrt::probe(if w.holds(x0, x1) { "op-inside-window" } else if w.meets(x0, x1) { "op-on-the-edge" } else { "op-outside-window" });
    if o.k == K::Send {
        if o.ok {
            if !w.meets(x0, x1) {
                simrt::violate("sent-outside-window", desc());
            }
            if o.peer_gone {
                simrt::violate("missed-failure", format!("{} although the receiver's endpoint was already gone", desc()));
            }
        } else if w.holds(x0, x1) && !may_be_gone(peer, o.t1) {
            simrt::violate("spurious-failure", format!("{} inside its window with its partner present", desc()));
        }
        if dt > slack {
            simrt::violate("send-waited", desc());
        }
        return;
    }
    // receive
    let sent = other.filter(|p| p.k == K::Send);
    if o.ok {
        if !w.meets(x0, x1) {
            simrt::violate("received-outside-window", desc());
        }
        match sent {
            Some(p) if p.t0 <= o.t1 => {}
            _ => simrt::violate("wrong-message", format!("{} though nothing was sent", desc())),
        }
    }
    let ts = sent.filter(|p| p.ok).map(|p| p.t1);
    let gone = peer.dead;
    // The end of the window on the simulated clock.
    let d: u64 = if w.e < 0 { u64::MAX } else { (o.t0 - x0).saturating_add((w.e as u64).saturating_mul(S)) };
    if !o.ok && w.lower_strong(x0) && w.upper(x0) && o.t1 < d && !may_be_gone(peer, o.t1) {
        simrt::violate("early-failure", format!("{}: its window ends at {} ns and its partner is present", desc(), at(d)));
    }
    if run.mode == Mode::Stall {
        return;
    }
    // Without stalls: never later than the window's end, and as soon as its message is there.
    if o.t1 > d.saturating_add(slack) && !(o.t0 > d && dt <= slack) {
        simrt::violate("late-return", format!("{}: its window ended at {} ns", desc(), at(d)));
    }
    if o.ok && o.t1 > d && run.mode == Mode::Exact {
        simrt::violate("received-outside-window", format!("{}: its window ended at {} ns", desc(), at(d)));
    }
    if w.lower_strong(x0) && w.upper(x0) {
        let due = ts.map(|t| t.max(o.t0));
        // available strictly before the end
        if let Some(due) = due.filter(|t| t.saturating_add(slack) < d) {
            if !o.ok {
                simrt::violate("missed-message", format!("{} although its message was available at {} ns", desc(), at(due)));
            } else if o.t1 > due + slack {
                simrt::violate("late-return", format!("{} although its message was available at {} ns", desc(), at(due)));
            }
        } else if due.is_none() {
            // Nobody sends: fails when the partner stops or the window ends, whichever is first.
            let lim = gone.unwrap_or(u64::MAX).max(o.t0).min(d);
            if o.t1 > lim.saturating_add(slack) {
                simrt::violate("late-failure", format!("{} although its partner was gone or the window over at {} ns", desc(), at(lim)));
            }
        }
    } else if !w.upper(x0) && dt > slack {
        simrt::violate("late-failure", format!("{} although the window was over from the start", desc()));
    }
}
