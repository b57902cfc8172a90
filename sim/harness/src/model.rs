//! Reference model of a multiparty protocol run and the oracle over what really happened.
//!
//! A protocol run is a linear sequence of global steps (message p->q, choice at p, close of all).
//! Projecting it gives each participant the exact list of operations it must perform with the exact
//! messages it must see. Each participant reports the begin and the end of every operation; crashes
//! are injected in between. Afterwards `verify` demands that every participant performed a prefix of
//! its list, that every failure has a cause, that every cause has its effect, and that nobody waits.
use crate::pay::Pay;
use crate::{checked, mix, R};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    Msg(u8, u8),
    Choice(u8, u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    Send { to: u8, key: u64 },
    Recv { from: u8, key: u64 },
    Choose { label: u32 },
    Offer { from: u8, label: u32 },
    Close,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Crash {
    Panic,
    Err,
    /// Drop the session explicitly, then return Ok.
    CancelOk,
    /// Drop the session explicitly, stay alive for an hour, then return Ok.
    CancelLinger,
    /// Drop the session explicitly, then return an error.
    CancelErr,
    Broadcast,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Err(String),
    Panic(String),
}

#[derive(Default)]
pub struct Role {
    pub proj: Vec<L>,
    pub begun: usize,
    pub done: usize,
    pub started: u32,
    pub end: Option<End>,
    pub dead: bool,
    pub crash: Option<(usize, Crash)>,
    pub crashed: bool,
    pub must_fail: bool,
    pub thread: Option<(String, std::thread::ThreadId)>,
    pub slow_ppm: u64,
    /// The simulated task that plays it.
    pub task: Option<usize>,
    /// Which protocol of the run this role belongs to.
    pub mesh: u8,
    /// The role of the other protocol that the same thread plays.
    pub twin: Option<usize>,
}

pub struct Run {
    pub roles: Vec<Role>,
    /// Sends report a dead addressee.
    pub cancel_sends: bool,
    /// Choices report a dead addressee.
    pub cancel_choices: bool,
    /// Choices to roles in `silent` etc. are not modelled: every choice is broadcast.
    pub faulty: bool,
    pub spawn_fault: bool,
    /// Participants wait until the fork has returned to its caller.
    pub gate: bool,
    /// Receivers look only when their message has been sent, or never will be: no sender may need
    /// its receiver's help.
    pub patient: bool,
    pub forked: bool,
    /// Role 0 only watches the others and relays cancellations.
    pub watched: bool,
    /// Per choice of the protocol: the watcher's steps when everybody had taken it.
    pub taken_at: Vec<u64>,
    /// The watcher's steps when it ended.
    pub watch_end: u64,
}

static mut RUN: Option<Run> = None;

pub fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().expect("no run") }
}

/// What this property wants from the workload.
#[derive(Clone, Copy)]
pub struct Mix {
    /// Probability (ppm) that the run has crashes.
    pub crash_ppm: u64,
    /// Probability (ppm) that a crash hits the last operations.
    pub late_ppm: u64,
    /// Probability (ppm) that the run has slow participants.
    pub slow_ppm: u64,
    /// Probability (ppm) that a thread cannot be created.
    pub spawn_ppm: u64,
    /// Longest choice path.
    pub max_choices: u64,
    /// Only protocols with choices.
    pub choices_only: bool,
    /// Only API styles whose sends report a dead partner (with this probability, ppm).
    pub cancel_ppm: u64,
}

pub const CALM: Mix = Mix { crash_ppm: 0, late_ppm: 0, slow_ppm: 500_000, spawn_ppm: 0, max_choices: 6, choices_only: false, cancel_ppm: 0 };
pub const CRASHY: Mix = Mix { crash_ppm: 850_000, late_ppm: 200_000, slow_ppm: 400_000, spawn_ppm: 0, max_choices: 4, choices_only: false, cancel_ppm: 0 };

pub const END: usize = usize::MAX;
pub type Body = (&'static [(u8, u8)], usize);
/// A choice state of a protocol.
pub struct State {
    pub chooser: u8,
    /// The branch that ends the protocol soonest.
    pub exit: usize,
    pub branches: &'static [Body],
}
pub struct Proto {
    pub name: &'static str,
    pub n: usize,
    pub cancel_sends: bool,
    pub cancel_choices: bool,
    pub start: Body,
    pub states: &'static [State],
    /// Forks the participants and joins them.
    pub go: fn(),
}

impl Proto {
    /// Draws one path through the protocol.
    pub fn walk(&self, max_choices: u64) -> Vec<G> {
        let mut g: Vec<G> = self.start.0.iter().map(|&(p, q)| G::Msg(p, q)).collect();
        let mut at = self.start.1;
        // Now and then a long run, which leaves the protocol's loops only when it must.
        let long = at != END && max_choices > 2 && simrt::draw_p(20_000, 2) == 1;
        let budget = match at {
            END => 0,
            _ if long => 8 + simrt::draw(32),
            _ => 1 + simrt::draw(max_choices),
        };
        let mut k = 0;
        while at != END {
            let st = &self.states[at];
            let stay: Vec<usize> = (0..st.branches.len()).filter(|&l| st.branches[l].1 != END).collect();
            let label = if long && k < budget && !stay.is_empty() {
                stay[simrt::draw(stay.len() as u64) as usize]
            } else if k < budget {
                // choice 0 of the draw is the exit branch, the simplest
                (simrt::draw(st.branches.len() as u64) as usize + st.exit) % st.branches.len()
            } else {
                st.exit
            };
            k += 1;
            g.push(G::Choice(st.chooser, label as u32));
            g.extend(st.branches[label].0.iter().map(|&(p, q)| G::Msg(p, q)));
            at = st.branches[label].1;
        }
        g
    }
}

/// One run: picks a protocol, a path through it and a fault plan, executes it, judges it.
pub fn scenario(all: &[&'static Proto], m: Mix) {
    let cancel = m.cancel_ppm > 0 && simrt::draw_p(m.cancel_ppm, 2) == 1;
    let c: Vec<&'static Proto> = all
        .iter()
        .copied()
        .filter(|p| (!m.choices_only || !p.states.is_empty()) && (!cancel || p.cancel_sends))
        .collect();
    let c = if c.is_empty() { all.to_vec() } else { c };
    let p = c[simrt::draw(c.len() as u64) as usize];
    simrt::note(|| format!("protocol {} with {} participants", p.name, p.n));
    simrt::probe(p.name);
    let g = p.walk(m.max_choices);
    simrt::note(|| format!("path: {:?}", g));
    setup(&g, p.n, p.cancel_sends, p.cancel_choices, m);
    (p.go)();
}

pub type J = std::thread::JoinHandle<()>;

/// The fork returned: wait for everybody (in some order) and judge.
pub fn joined(js: Vec<J>) {
    let n = js.len();
    simrt::ev("forked", n as i64, 0, 0);
    open_gate();
    let back = simrt::draw(2) == 1;
    let mut ok = vec![false; n];
    let mut js: Vec<Option<J>> = js.into_iter().map(Some).collect();
    for k in 0..n {
        let i = if back { n - 1 - k } else { k };
        let r = js[i].take().unwrap().join();
        if run().roles[i].started > 0 && run().roles[i].end.is_none() {
            simrt::violate("join", format!("joining participant {} returned before it ended", i));
        }
        ok[i] = r.is_ok();
    }
    verify(Some(&ok));
}

/// Participant `me` runs on the root thread, the other one was forked.
pub fn root_joined(me: usize, f: impl FnOnce() -> R, j: J) {
    open_gate();
    let r = crate::catch(f);
    let o = j.join();
    let mut ok = [false; 2];
    ok[me] = matches!(r, Ok(Ok(())));
    ok[1 - me] = o.is_ok();
    verify(Some(&ok));
}

/// Whether to fork without keeping a handle to join.
pub fn alone() -> bool {
    simrt::draw_p(150_000, 2) == 1
}
/// Participant `me` runs on the root thread, the other one was forked and cannot be joined.
pub fn root_alone(me: usize, f: impl FnOnce() -> R) {
    simrt::probe("not-joined");
    open_gate();
    let _ = crate::catch(f);
    let n = run().roles.len();
    for k in 0..21 {
        if (0..n).all(|i| run().roles[i].end.is_some()) {
            break;
        }
        std::thread::sleep(Duration::from_secs(3600 << k));
    }
    for i in 0..n {
        if run().roles[i].started == 0 {
            simrt::violate("fork", format!("participant {} never ran", i));
        }
    }
    verify(None);
}

/// The fork panicked.
pub fn not_forked(e: Box<dyn std::any::Any + Send>) {
    let t = simrt::panic_text(&*e);
    simrt::note(|| format!("fork failed: {}", t));
    simrt::probe("fork-failed");
    open_gate();
    checked();
    if !run().spawn_fault {
        simrt::violate("spurious-failure", format!("fork failed although every thread could be created: {}", t));
    }
    settle();
    verify(None);
}

const PATIENT_KEY: u64 = 1 << 58;
/// Something a patient receiver may be waiting for has happened.
fn progress() {
    if run().patient {
        simrt::engine::wake_key(PATIENT_KEY, usize::MAX);
    }
}

const GATE_KEY: u64 = 1 << 59;
fn open_gate() {
    let r = run();
    r.forked = true;
    if r.gate {
        simrt::engine::wake_key(GATE_KEY, usize::MAX);
    }
}

pub fn project(g: &[G], n: usize, nonce: u64) -> Vec<Vec<L>> {
    let mut v = vec![vec![]; n];
    let mut cnt = vec![0u64; n * n];
    for e in g {
        match *e {
            G::Msg(p, q) => {
                let c = &mut cnt[p as usize * n + q as usize];
                let key = mix(nonce, ((p as u64) << 40) | ((q as u64) << 32) | *c);
                *c += 1;
                v[p as usize].push(L::Send { to: q, key });
                v[q as usize].push(L::Recv { from: p, key });
            }
            G::Choice(p, label) => {
                for (r, l) in v.iter_mut().enumerate() {
                    l.push(if r as u8 == p { L::Choose { label } } else { L::Offer { from: p, label } });
                }
            }
        }
    }
    for l in v.iter_mut() {
        l.push(L::Close);
    }
    v
}

/// Draws the fault plan of one run and installs the model.
pub fn setup(g: &[G], n: usize, cancel_sends: bool, cancel_choices: bool, mixp: Mix) {
    let nonce = 0x5eed + simrt::draw(4);
    let roles: Vec<Role> = project(g, n, nonce).into_iter().map(|proj| Role { proj, ..Role::default() }).collect();
    install(roles, cancel_sends, cancel_choices, mixp)
}

/// Two protocols at once; role `t.0` of the first and `t.1` of the second are played by one thread.
pub fn setup_two(ga: &[G], na: usize, gb: &[G], nb: usize, t: (usize, usize), cancel_sends: bool, cancel_choices: bool, mixp: Mix) {
    let nonce = 0x5eed + simrt::draw(4);
    let mut roles: Vec<Role> = project(ga, na, nonce).into_iter().map(|proj| Role { proj, ..Role::default() }).collect();
    for mut proj in project(gb, nb, nonce ^ 0xb00b) {
        for l in proj.iter_mut() {
            match l {
                L::Send { to, .. } => *to += na as u8,
                L::Recv { from, .. } | L::Offer { from, .. } => *from += na as u8,
                _ => {}
            }
        }
        roles.push(Role { proj, mesh: 1, ..Role::default() });
    }
    roles[t.0].twin = Some(na + t.1);
    roles[na + t.1].twin = Some(t.0);
    install(roles, cancel_sends, cancel_choices, mixp)
}

fn install(mut roles: Vec<Role>, cancel_sends: bool, cancel_choices: bool, mixp: Mix) {
    let n = roles.len();
    let mut faulty = false;
    if mixp.crash_ppm > 0 && simrt::draw_p(mixp.crash_ppm, 2) == 1 {
        let k = 1 + simrt::draw_p(250_000, 3);
        for _ in 0..k {
            let r = simrt::draw(n as u64) as usize;
            let len = roles[r].proj.len();
            let at = if mixp.late_ppm > 0 && simrt::draw_p(mixp.late_ppm, 2) == 1 {
                len - 1 - simrt::draw(2.min(len as u64)) as usize
            } else {
                simrt::draw(len as u64) as usize
            };
            let how = [Crash::Panic, Crash::Err, Crash::CancelOk, Crash::CancelLinger, Crash::CancelErr][simrt::draw(5) as usize];
            roles[r].crash = Some((at, how));
            faulty = true;
        }
    }
    if mixp.slow_ppm > 0 && simrt::draw_p(mixp.slow_ppm, 2) == 1 {
        let all = simrt::draw(2);
        let one = simrt::draw(n as u64) as usize;
        for (i, r) in roles.iter_mut().enumerate() {
            if all == 1 || i == one {
                r.slow_ppm = 400_000;
            }
        }
    }
    let mut spawn_fault = false;
    if mixp.spawn_ppm > 0 && simrt::draw_p(mixp.spawn_ppm, 2) == 1 {
        simrt::env().spawn_fail_in = 1 + simrt::draw(n as u64) as u32;
        faulty = true;
        spawn_fault = true;
    }
    let gate = simrt::draw_p(80_000, 2) == 1;
    let patient = !spawn_fault && simrt::draw_p(100_000, 2) == 1;
    unsafe { RUN = Some(Run { roles, cancel_sends, cancel_choices, faulty, spawn_fault, gate, patient, forked: false, watched: false, taken_at: vec![], watch_end: 0 }) }
}

#[derive(Clone, Copy)]
pub struct H {
    pub me: u8,
    /// Number of the first role of its protocol.
    pub off: u8,
}

pub enum Act {
    Go,
    Err,
    Cancel,
    /// Cancel explicitly and let the monitor tell everybody.
    Broadcast,
}

impl H {
    pub fn new(me: u8) -> H {
        H { me, off: 0 }
    }
    pub fn at(me: u8, off: u8) -> H {
        H { me: me + off, off }
    }
    fn st(&self) -> &'static mut Role {
        &mut run().roles[self.me as usize]
    }

    /// Runs a participant: the closure given to the library's fork.
    pub fn participant(self, f: impl FnOnce(H) -> R) -> R {
        let st = self.st();
        st.started += 1;
        if st.started > 1 {
            simrt::violate("fork", format!("participant {} was started twice", self.me));
        }
        let t = std::thread::current();
        st.thread = Some((t.name().unwrap_or("").to_string(), t.id()));
        st.task = Some(simrt::engine::me() as usize);
        simrt::ev("start", self.me as i64, 0, 0);
        simrt::note(|| format!("participant {} starts", self.me));
        if run().gate && !run().forked {
            simrt::probe("waited-for-fork-to-return");
            simrt::engine::block_on(simrt::engine::K_USER, GATE_KEY, None);
        }
        let r = crate::catch(|| f(self));
        let st = self.st();
        st.end = Some(match &r {
            Ok(Ok(())) => End::Ok,
            Ok(Err(e)) => End::Err(e.to_string()),
            Err(p) => End::Panic(simrt::panic_text(&**p)),
        });
        st.dead = true;
        if run().watched {
            if self.me == 0 {
                run().watch_end = simrt::engine::sim().tasks[simrt::engine::me() as usize].steps;
            }
            if !matches!(self.st().end, Some(End::Ok)) && !run().roles.iter().any(|r| r.crashed) {
                simrt::violate("spurious-failure", format!("participant {} ended with {:?} although nobody cancelled", self.me, self.st().end));
            }
        }
        progress();
        let st = self.st();
        simrt::ev("end", self.me as i64, st.done as i64, matches!(st.end, Some(End::Ok)) as i64);
        simrt::note(|| format!("participant {} ends after {} operations: {:?}", self.me, self.st().done, self.st().end));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }

    /// Runs the thread that plays `self` in one protocol and `other` in the other.
    pub fn participants(self, other: H, f: impl FnOnce() -> R) -> R {
        let o = other.st();
        o.started += 1;
        let t = std::thread::current();
        o.thread = Some((t.name().unwrap_or("").to_string(), t.id()));
        self.participant(|h| {
            let r = crate::catch(f);
            let o = other.st();
            o.end = Some(match &r {
                Ok(Ok(())) => End::Ok,
                Ok(Err(e)) => End::Err(e.to_string()),
                Err(p) => End::Panic(simrt::panic_text(&**p)),
            });
            o.dead = true;
            h.st().dead = true;
            progress();
            match r {
                Ok(x) => x,
                Err(p) => std::panic::resume_unwind(p),
            }
        })
    }

    /// A fault point before the next operation.
    pub fn pre(&self) -> Act {
        let st = self.st();
        if st.slow_ppm > 0 && simrt::draw_p(st.slow_ppm, 2) == 1 {
            let d = [1u64, 50_000, 5_000_000, 1_000_000_000, 3_600_000_000_000][simrt::draw(5) as usize];
            simrt::fault("slow-participant");
            simrt::note(|| format!("participant {} is slow for {} ns", self.me, d));
            std::thread::sleep(Duration::from_nanos(d));
        }
        let st = self.st();
        if let Some((at, how)) = st.crash {
            if at == st.done && !st.crashed {
                st.crashed = true;
                simrt::ev("crash", self.me as i64, at as i64, how as i64);
                simrt::note(|| format!("FAULT: participant {} crashes before operation {}: {:?}", self.me, at, how));
                match how {
                    Crash::Panic => {
                        simrt::fault("participant-panic");
                        crate::blow_up()
                    }
                    Crash::Err => {
                        simrt::fault("participant-error-return");
                        return Act::Err;
                    }
                    Crash::Broadcast => {
                        simrt::fault("participant-broadcasts-cancel");
                        return Act::Broadcast;
                    }
                    _ => {
                        simrt::fault("participant-cancel");
                        return Act::Cancel;
                    }
                }
            }
        }
        Act::Go
    }
    pub fn injected() -> Box<dyn std::error::Error> {
        crate::failure()
    }
    /// After an explicit cancel of the session.
    pub fn after_cancel(&self) -> R {
        let st = self.st();
        st.dead = true;
        progress();
        let st = self.st();
        simrt::ev("cancelled", self.me as i64, 0, 0);
        match st.crash {
            Some((_, Crash::CancelLinger)) => {
                simrt::fault("linger-after-cancel");
                std::thread::sleep(Duration::from_secs(3600));
                Ok(())
            }
            Some((_, Crash::CancelErr)) => Err(H::injected()),
            _ => Ok(()),
        }
    }

    fn begin(&self) -> L {
        let st = self.st();
        let op = *st.proj.get(st.done).unwrap_or(&L::Close);
        st.begun = st.done + 1;
        op
    }
    fn finish(&self) {
        let st = self.st();
        st.done += 1;
        if st.must_fail {
            st.must_fail = false;
            let d = st.done;
            simrt::violate("missed-failure", format!("participant {}: operation {} succeeded although its partner's endpoint was already gone (or a cancellation had reached it)", self.me, d - 1));
        }
        self.note_choices();
        progress();
    }
    /// A patient receiver looks only when the message has been sent or its sender has stopped.
    fn patience(&self, from: u8) {
        if run().patient {
            let m = self.matching(from);
            let mut waited = false;
            while run().roles[from as usize].done <= m && !run().roles[from as usize].dead {
                waited = true;
                simrt::engine::block_on(simrt::engine::K_USER, PATIENT_KEY, None);
            }
            if waited {
                simrt::probe("receiver-looked-after-the-send");
            }
        }
    }
    fn bad(&self, op: L, doing: &str) -> ! {
        // The workload and the model disagree on what to do next: either a wrong branch was taken
        // or the library delivered something that changed the course of the protocol.
        simrt::violate("wrong-path", format!("participant {} does {} but the protocol says {:?}", self.me, doing, op));
        simrt::engine::abort_run("wrong-path", String::new())
    }

    pub fn mk<T: Pay>(&self, to: u8) -> T {
        let to = to + self.off;
        let op = self.begin();
        match op {
            L::Send { to: t, key } if t == to => {
                if run().cancel_sends && self.gone(to) {
                    self.st().must_fail = true;
                    simrt::probe("send-to-dead-partner");
                }
                if run().watched && self.told() {
                    self.st().must_fail = true;
                    simrt::probe("checked-send-after-the-broadcast");
                }
                simrt::ev("send", self.me as i64, to as i64, self.st().done as i64);
                simrt::note(|| format!("{} -> {}: sending {:x}", self.me, to, key));
                T::make(key)
            }
            op => self.bad(op, &format!("a send to {}", to)),
        }
    }
    pub fn sent(&self) {
        self.finish();
    }
    pub fn rx(&self, from: u8) {
        let from = from + self.off;
        match self.begin() {
            L::Recv { from: f, .. } if f == from => self.patience(from),
            op => self.bad(op, &format!("a receive from {}", from)),
        }
    }
    pub fn got<T: Pay>(&self, from: u8, x: &T) {
        let from = from + self.off;
        checked();
        let L::Recv { key, .. } = self.st().proj[self.st().done] else { unreachable!() };
        let k = x.key();
        simrt::ev("recv", self.me as i64, from as i64, self.st().done as i64);
        simrt::note(|| format!("{} <- {}: received {:x?}", self.me, from, k));
        match k {
            Err(e) => simrt::violate("corrupt-message", format!("participant {} from {}: {}", self.me, from, e)),
            Ok(k) if k != key & T::MASK => simrt::violate("wrong-message", format!("participant {} expected message {:x} from {} at operation {} but received {:x}", self.me, key, from, self.st().done, k)),
            _ => {}
        }
        // The sender must have begun that very send.
        let r = &run().roles[from as usize];
        if r.begun <= self.matching(from) {
            simrt::violate("wrong-message", format!("participant {} received a message {} has not sent", self.me, from));
        }
        self.finish();
    }
    /// Index, in `from`'s list, of the operation that produces my current receive.
    fn matching(&self, from: u8) -> usize {
        let st = self.st();
        matching(&run().roles, self.me, from, st.done)
    }
    /// Whether `to` holds no endpoint any more, nor is one still on its way to it: the endpoints a
    /// choice creates exist until its chooser, and those of earlier choices, have handed all of them out.
    fn gone(&self, to: u8) -> bool {
        let st = self.st();
        if !run().roles[to as usize].dead {
            return false;
        }
        st.proj[..st.done].iter().enumerate().all(|(k, o)| match *o {
            L::Offer { from, .. } => {
                let c = &run().roles[from as usize];
                c.dead || c.done > matching(&run().roles, self.me, from, k)
            }
            _ => true,
        })
    }
    pub fn choice(&self) -> u32 {
        match self.begin() {
            L::Choose { label } => {
                let me = self.me as usize;
                if run().cancel_choices && run().roles.iter().enumerate().any(|(i, o)| i != me && (i > 0 || !run().watched) && o.mesh == self.st().mesh && self.gone(i as u8)) {
                    self.st().must_fail = true;
                    simrt::probe("choose-with-dead-partner");
                }
                simrt::ev("choose", self.me as i64, label as i64, self.st().done as i64);
                simrt::note(|| format!("{} chooses branch {}", self.me, label));
                label
            }
            op => self.bad(op, "a choice"),
        }
    }
    pub fn chosen(&self) {
        self.finish();
    }
    pub fn offer(&self, from: u8) {
        let from = from + self.off;
        match self.begin() {
            L::Offer { from: f, .. } if f == from => self.patience(from),
            op => self.bad(op, &format!("an offer from {}", from)),
        }
    }
    pub fn offered(&self, from: u8, label: u32) {
        let from = from + self.off;
        checked();
        let L::Offer { label: want, .. } = self.st().proj[self.st().done] else { unreachable!() };
        simrt::ev("offer", self.me as i64, from as i64, label as i64);
        simrt::note(|| format!("{} is told branch {} by {}", self.me, label, from));
        if want != label {
            simrt::violate("wrong-branch", format!("participant {} took branch {} where {} chose {}", self.me, label, from, want));
            simrt::engine::abort_run("wrong-branch", String::new());
        }
        if run().roles[from as usize].begun <= self.matching(from) {
            simrt::violate("wrong-branch", format!("participant {} took a branch {} has not chosen", self.me, from));
        }
        self.finish();
    }
    pub fn closing(&self) {
        match self.begin() {
            L::Close => {
                simrt::ev("close", self.me as i64, 0, 0);
                simrt::note(|| format!("{} closes", self.me));
            }
            op => self.bad(op, "a close"),
        }
    }
    pub fn closed(&self, r: R) -> R {
        checked();
        simrt::ev("closed", self.me as i64, r.is_ok() as i64, 0);
        simrt::note(|| format!("{} close returned {:?}", self.me, r.as_ref().map_err(|e| e.to_string())));
        if r.is_ok() {
            for (i, o) in run().roles.iter().enumerate().filter(|(_, o)| o.mesh == self.st().mesh) {
                if o.begun < o.proj.len() {
                    simrt::violate("early-close", format!("participant {} closed successfully while {} was only at operation {} of {}", self.me, i, o.begun, o.proj.len()));
                }
            }
            self.st().done += 1;
        }
        r
    }
}

fn directed(op: &L, to: u8) -> bool {
    match op {
        L::Send { to: t, .. } => *t == to,
        L::Choose { .. } => true,
        _ => false,
    }
}
fn from_of(op: &L, f: u8) -> bool {
    match op {
        L::Recv { from, .. } | L::Offer { from, .. } => *from == f,
        _ => false,
    }
}
fn matching(roles: &[Role], me: u8, from: u8, at: usize) -> usize {
    let n = roles[me as usize].proj[..at].iter().filter(|o| from_of(o, from)).count();
    roles[from as usize]
        .proj
        .iter()
        .enumerate()
        .filter(|(_, o)| directed(o, me))
        .nth(n)
        .map(|(i, _)| i)
        .expect("unmatched receive in the model")
}

#[macro_export]
macro_rules! pre {
    ($h:expr, $s:ident) => {
        match $h.pre() {
            $crate::model::Act::Go | $crate::model::Act::Broadcast => {}
            $crate::model::Act::Err => return Err($crate::model::H::injected()),
            $crate::model::Act::Cancel => {
                mpstthree::binary::cancel::cancel($s);
                return $h.after_cancel();
            }
        }
    };
    // the generated cancel method
    ($h:expr, $s:ident, m) => {
        match $h.pre() {
            $crate::model::Act::Go | $crate::model::Act::Broadcast => {}
            $crate::model::Act::Err => return Err($crate::model::H::injected()),
            $crate::model::Act::Cancel => {
                $s.cancel();
                return $h.after_cancel();
            }
        }
    };
}

/// Waits (simulated time) until every started participant has ended; for runs whose handles were lost.
pub fn settle() {
    for k in 0..21 {
        std::thread::sleep(Duration::from_secs(3600 << k));
        if run().roles.iter().all(|r| r.started == 0 || r.end.is_some()) {
            return;
        }
    }
}

/// `joins[i]`: whether joining participant i's thread reported success.
pub fn verify(joins: Option<&[bool]>) {
    let run = run();
    let n = run.roles.len();
    if let Some(j) = joins {
        for (i, ok) in j.iter().enumerate() {
            checked();
            let r = &run.roles[i];
            match &r.end {
                Some(e) if (*e == End::Ok) != *ok => {
                    simrt::violate("join", format!("participant {} ended with {:?} but joining it reported {}", i, e, if *ok { "success" } else { "failure" }));
                }
                None => simrt::violate("fork", format!("participant {} never ran", i)),
                _ => {}
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            if let (Some(a), Some(b)) = (&run.roles[i].thread, &run.roles[j].thread) {
                if a.1 == b.1 && run.roles[i].twin != Some(j) {
                    simrt::violate("fork", format!("participants {} and {} ran on the same thread", j, i));
                }
            }
        }
    }
    let stopped = |i: usize| run.roles[i].crashed || run.roles[i].twin.is_some_and(|t| run.roles[t].crashed);
    let reached = |mesh: u8| run.roles.iter().filter(|r| r.mesh == mesh).all(|r| r.begun >= r.proj.len());
    for i in 0..n {
        checked();
        let r = &run.roles[i];
        let Some(end) = &r.end else {
            if r.started > 0 {
                simrt::violate("hang", format!("participant {} never ended", i));
            }
            continue;
        };
        let twin = r.twin.map(|t| &run.roles[t]);
        if r.crashed || twin.is_some_and(|t| t.crashed) {
            continue;
        }
        if run.watched && *end != End::Ok {
            // Whoever fails only knows that somebody, somewhere, gave up; checked when it ended.
            continue;
        }
        if *end == End::Ok {
            if r.done != r.proj.len() {
                simrt::violate("wrong-path", format!("participant {} returned Ok after {} of {} operations", i, r.done, r.proj.len()));
            }
            continue;
        }
        if r.begun == r.done {
            if twin.is_some_and(|t| t.begun != t.done) {
                // the thread failed in its other protocol
                continue;
            }
            simrt::violate("spurious-failure", format!("participant {} ended with {:?} between operations {} and {}", i, end, r.done, r.done + 1));
            continue;
        }
        let op = r.proj[r.done];
        let justified = match op {
            L::Recv { from, .. } | L::Offer { from, .. } => {
                let m = matching(&run.roles, i as u8, from, r.done);
                run.roles[from as usize].done <= m
            }
            L::Send { to, .. } => run.cancel_sends && run.roles[to as usize].end != Some(End::Ok),
            L::Choose { .. } => run.cancel_choices && run.roles.iter().enumerate().any(|(k, o)| k != i && o.mesh == r.mesh && (o.end != Some(End::Ok) || stopped(k))),
            L::Close => !reached(r.mesh),
        };
        // A cancelled participant returns Ok although it failed the protocol.
        let justified = justified || matches!(op, L::Send { to, .. } if run.cancel_sends && stopped(to as usize));
        if !justified {
            simrt::violate("spurious-failure", format!("participant {}: operation {} ({:?}) failed with {:?} although its partner did its part", i, r.done, op, end));
        }
    }
    for i in 0..n {
        for k in 0..run.roles[i].done {
            if let L::Recv { from, .. } = run.roles[i].proj[k] {
                let m = matching(&run.roles, i as u8, from, k);
                let o = &run.roles[from as usize];
                if o.end.is_some() && o.done <= m {
                    simrt::violate("delivered-though-failed", format!("participant {}: operation {} received the message of operation {} of {}, which failed with {:?}", i, k, m, from, o.end));
                }
            }
        }
    }
    if run.watched {
        // The broadcast: the initiator fails, and nobody completes without it.
        let gave_up = run.roles.iter().any(|r| r.crashed && r.begun < r.proj.len());
        for (i, r) in run.roles.iter().enumerate() {
            checked();
            if gave_up && !r.crashed && r.end == Some(End::Ok) {
                simrt::violate("missed-cancel", format!("participant {} ended successfully although another had given up", i));
            }
            if let (true, Some((_, Crash::Broadcast)), Some(End::Ok)) = (r.crashed, r.crash, &r.end) {
                simrt::violate("missed-cancel", format!("participant {} cancelled but ended successfully", i));
            }
        }
    }
    // Everybody who reached the end must have succeeded when all did.
    for (i, r) in run.roles.iter().enumerate() {
        if reached(r.mesh) && !r.twin.is_some_and(|t| run.roles[t].crashed || !reached(run.roles[t].mesh)) {
            if !r.crashed && r.end != Some(End::Ok) {
                simrt::violate("spurious-failure", format!("every participant reached its close, yet {} ended with {:?}", i, r.end));
            }
        }
    }
    if !run.faulty && !simrt::violated() {
        for (i, r) in run.roles.iter().enumerate() {
            if r.end != Some(End::Ok) {
                simrt::violate("spurious-failure", format!("no fault was injected, yet participant {} ended with {:?} at operation {}", i, r.end, r.done));
            }
        }
    }
    for r in &run.roles {
        if r.end == Some(End::Ok) && !r.crashed {
            simrt::probe("participants-completed");
        } else if !r.crashed {
            simrt::probe("participants-failed-by-propagation");
        }
    }
}

/// What a thread that plays in two protocols does next in one of them.
pub enum Next {
    More(Box<dyn FnOnce() -> N>),
    Done,
    /// It cancelled and gives up on both.
    Stop,
}
pub type N = Result<Next, Box<dyn std::error::Error>>;
pub fn more(f: impl FnOnce() -> N + 'static) -> Next {
    Next::More(Box::new(f))
}

/// Plays two protocols on this thread, in an order drawn at each step.
pub fn alternate(mut a: Next, mut b: Next) -> R {
    // Mostly the first, mostly the second, or evenly.
    let bias = [1, 9, 5][simrt::draw(3) as usize];
    let mut switches = 0u64;
    let mut last = 2;
    loop {
        let pick = match (&a, &b) {
            (Next::Stop, _) | (_, Next::Stop) => return Ok(()),
            (Next::Done, Next::Done) => break,
            (Next::More(_), Next::Done) => 0,
            (Next::Done, Next::More(_)) => 1,
            _ => (simrt::draw(10) < bias) as u64,
        };
        if last != 2 && last != pick {
            switches += 1;
        }
        last = pick;
        let x = if pick == 0 { &mut a } else { &mut b };
        let Next::More(f) = std::mem::replace(x, Next::Done) else { unreachable!() };
        *x = f()?;
    }
    if switches > 2 {
        simrt::probe("alternated-more-than-twice");
    }
    Ok(())
}

#[macro_export]
macro_rules! ipre {
    ($h:expr, $s:ident) => {
        match $h.pre() {
            $crate::model::Act::Go | $crate::model::Act::Broadcast => {}
            $crate::model::Act::Err => return Err($crate::model::H::injected()),
            $crate::model::Act::Cancel => {
                $s.cancel();
                return $h.after_cancel().map(|_| $crate::model::Next::Stop);
            }
        }
    };
}

/// Two protocols sharing a thread.
pub struct Pair {
    pub name: &'static str,
    pub a: &'static Proto,
    pub b: &'static Proto,
    pub twin: (usize, usize),
    pub go: fn(),
}

pub fn scenario_two(all: &[&'static Pair], m: Mix) {
    let p = all[simrt::draw(all.len() as u64) as usize];
    simrt::note(|| format!("protocols {} sharing roles {:?}", p.name, p.twin));
    simrt::probe(p.name);
    let (ga, gb) = (p.a.walk(m.max_choices), p.b.walk(m.max_choices));
    simrt::note(|| format!("paths: {:?} and {:?}", ga, gb));
    setup_two(&ga, p.a.n, &gb, p.b.n, p.twin, p.a.cancel_sends, p.a.cancel_choices, m);
    (p.go)();
}

/// The fork of two protocols returned. `js`: the first one's, the second one's, then the shared thread.
pub fn joined_two(js: Vec<J>, na: usize, nb: usize, t: (usize, usize)) {
    simrt::ev("forked", js.len() as i64, 0, 0);
    open_gate();
    let mut who: Vec<usize> = (0..na).filter(|i| *i != t.0).collect();
    who.extend((0..nb).filter(|i| *i != t.1).map(|i| na + i));
    who.push(t.0);
    let mut ok = vec![false; na + nb];
    let n = js.len();
    let back = simrt::draw(2) == 1;
    let mut js: Vec<Option<J>> = js.into_iter().map(Some).collect();
    for k in 0..n {
        let k = if back { n - 1 - k } else { k };
        let r = js[k].take().unwrap().join();
        let i = who[k];
        if run().roles[i].started > 0 && run().roles[i].end.is_none() {
            simrt::violate("join", format!("joining participant {} returned before it ended", i));
        }
        ok[i] = r.is_ok();
    }
    ok[na + t.1] = ok[t.0];
    verify(Some(&ok));
}

impl H {
    /// The watcher returned.
    pub fn watching(&self, r: R) -> R {
        self.closed(r)
    }
    fn choices_done(r: &Role) -> usize {
        r.proj[..r.done].iter().filter(|o| matches!(o, L::Offer { .. } | L::Choose { .. })).count()
    }
    /// Notes when everybody has taken the next choice.
    fn note_choices(&self) {
        let run = run();
        if run.watched {
            let min = run.roles[1..].iter().map(H::choices_done).min().unwrap_or(0);
            while run.taken_at.len() < min {
                run.taken_at.push(run.roles[0].task.map_or(0, |t| simrt::engine::sim().tasks[t].steps));
            }
        }
    }
    /// Whether the watcher must have told this participant of a cancellation: it relayed one and knew of
    /// everybody's endpoint at that time.
    fn told(&self) -> bool {
        let run = run();
        let watcher = &run.roles[0];
        if !watcher.dead || watcher.crashed || watcher.end == Some(End::Ok) {
            return false;
        }
        let k = H::choices_done(self.st());
        let slack = (k as u64 + 2) * run.roles.len() as u64 * 4 + 20;
        // the cancellation may have come in a later generation than mine: then mine is long gone
        k == 0 && run.taken_at.is_empty() || k > 0 && run.taken_at.len() == k && run.watch_end > run.taken_at[k - 1] + slack
    }
}

/// Picks a protocol with a watcher, a path through it and a plan of cancellations, executes it, judges it.
pub fn scenario_watched(all: &[&'static Proto], m: Mix, only_cancel: bool) {
    let p = all[simrt::draw(all.len() as u64) as usize];
    simrt::note(|| format!("protocol {} with {} participants, 0 watching", p.name, p.n));
    simrt::probe(p.name);
    let g = p.walk(m.max_choices);
    simrt::note(|| format!("path: {:?}", g));
    setup(&g, p.n, p.cancel_sends, p.cancel_choices, Mix { crash_ppm: 0, ..m });
    let run = run();
    run.watched = true;
    simrt::env().polling = true;
    run.roles[0].proj.retain(|o| *o == L::Close);
    run.roles[0].slow_ppm = 0;
    if m.crash_ppm > 0 && simrt::draw_p(m.crash_ppm, 2) == 1 {
        for _ in 0..1 + simrt::draw_p(250_000, 3) {
            let first = if only_cancel { 1 } else { 0 };
            let r = (first + simrt::draw(p.n as u64 - first)) as usize;
            let at = simrt::draw(run.roles[r].proj.len() as u64) as usize;
            let how = if r > 0 && (only_cancel || simrt::draw(2) == 0) {
                Crash::Broadcast
            } else {
                [Crash::Panic, Crash::Err, Crash::CancelOk, Crash::CancelLinger, Crash::CancelErr][simrt::draw(5) as usize]
            };
            run.roles[r].crash = Some((at, how));
            run.faulty = true;
        }
    }
    (p.go)();
}

/// Before an operation of a participant of a watched protocol.
#[macro_export]
macro_rules! bpre {
    ($h:expr, $s:ident $(, $cancel:ident)?) => {
        match $h.pre() {
            $crate::model::Act::Go => {}
            $crate::model::Act::Err => return Err($crate::model::H::injected()),
            $crate::model::Act::Cancel => {
                mpstthree::binary::cancel::cancel($s);
                return $h.after_cancel();
            }
            $crate::model::Act::Broadcast => {
                $( return $cancel($s); )?
                #[allow(unreachable_code)]
                { unreachable!() }
            }
        }
    };
}

pub fn h(me: u8) -> H {
    H::new(me)
}

/// Runs a thread that plays all `n` roles of a protocol.
pub fn solo(n: usize, f: impl FnOnce() -> R) {
    for r in run().roles.iter_mut() {
        r.started = 1;
    }
    let r = crate::catch(f);
    for i in 0..n {
        let st = h(i as u8).st();
        st.end = Some(match &r {
            Ok(Ok(())) => End::Ok,
            Ok(Err(e)) => End::Err(e.to_string()),
            Err(p) => End::Panic(simrt::panic_text(&**p)),
        });
        st.dead = true;
    }
    verify(None);
}

/// Closes all the roles of a protocol played by one thread.
pub fn solo_close(n: usize, f: impl FnOnce() -> R) -> R {
    for i in 0..n as u8 {
        h(i).pre();
        h(i).closing();
    }
    let r = f();
    for i in 0..n as u8 {
        let _ = h(i).closed(match &r {
            Ok(()) => Ok(()),
            Err(e) => Err(e.to_string().into()),
        });
    }
    r
}
