//! Two-party sessions over TCP and UDP: real `mpstthree::transport`, simulated sockets.
#![allow(static_mut_refs)]
use harness::model::{Crash, End as Fin};
use harness::pay::*;
use harness::{catch, checked, mix, R};
use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
use mpstthree::transport::tcp::{cancel::cancel_tcp, close::close_tcp, fork::fork_tcp, recv::recv_tcp, send::send_tcp};
use mpstthree::transport::udp::{cancel::cancel_udp, fork::fork_udp, recv::recv_udp, send::send_udp};
use mpstthree::{choose_tcp, choose_udp, offer_tcp, offer_udp};
use simrt::net::{net, NetCfg};
use simrt::worker::{main as wmain, Prop};
use std::error::Error;
use std::net::{TcpStream, UdpSocket};
use std::time::Duration;

type D = [u8; 128];
type Res<T> = Result<T, Box<dyn Error>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Send,
    Recv,
    Choose,
    Offer,
    Close,
}

#[derive(Clone, Debug)]
struct Rec {
    k: K,
    key: u64,
    flag: bool,
    t0: u64,
    t1: u64,
    ok: bool,
    ended: bool,
    e0: u64,
    s0: u64,
    errs: u64,
    soft: u64,
    peer_gone: bool,
}

struct Side {
    ops: Vec<Rec>,
    crash: Option<(usize, Crash)>,
    leaving: Option<u64>,
    dead: Option<u64>,
    crashed: bool,
    end: Option<Fin>,
    started: u32,
    reads: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// No message uses the network.
    Local,
    /// Both ends of each flagged message use the network.
    Both,
    /// Only this side talks to the network, its partner never does.
    Ext(usize),
}

struct Run {
    side: [Side; 2],
    mode: Mode,
    flags: u64,
    nonce: u64,
    odd: u64,
    udp: bool,
    /// Datagrams arrive exactly once, whole and in order.
    clean: bool,
    rounds: u64,
    preload: Vec<u8>,
    /// The forked participant waits until the fork has returned.
    gate: bool,
    forks: bool,
}
static mut RUN: Option<Run> = None;
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().expect("no run") }
}

/// The bytes of message `key`.
fn bytes(key: u64) -> D {
    let mut d = [0; 128];
    for (i, x) in d.iter_mut().enumerate() {
        *x = mix(key, 5000 + i as u64) as u8;
    }
    if key % 5 == 0 {
        // trailing zeros are data too
        d[100..].fill(0);
    }
    d
}

trait Tp: 'static {
    type Sock: std::marker::Send + 'static;
    fn send<T: std::marker::Send, S: Session>(x: T, d: &D, s: Send<(T, D), S>, k: Self::Sock, f: bool) -> Res<(S, Option<usize>, Self::Sock)>;
    fn recv<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: Self::Sock, f: bool) -> Res<(T, S, D, Option<usize>, Self::Sock)>;
    fn close(s: End, k: Self::Sock, f: bool) -> R;
    fn cancel<S>(s: S, k: Self::Sock);
    fn fork<S: Session + 'static, P: FnOnce(S, Self::Sock) -> R + std::marker::Send + 'static>(p: P) -> Res<(std::thread::JoinHandle<()>, S::Dual, Self::Sock)>;
    const UDP: bool;
}
struct Tcp;
struct Udp;
impl Tp for Tcp {
    type Sock = TcpStream;
    fn send<T: std::marker::Send, S: Session>(x: T, d: &D, s: Send<(T, D), S>, k: TcpStream, f: bool) -> Res<(S, Option<usize>, TcpStream)> {
        send_tcp(x, d, s, k, f).map(|(s, k)| (s, None, k))
    }
    fn recv<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: TcpStream, f: bool) -> Res<(T, S, D, Option<usize>, TcpStream)> {
        recv_tcp(s, k, f).map(|(v, s, d, k)| (v, s, d, None, k))
    }
    fn close(s: End, k: TcpStream, f: bool) -> R {
        close_tcp(s, k, f)
    }
    fn cancel<S>(s: S, k: TcpStream) {
        cancel_tcp(s, k)
    }
    fn fork<S: Session + 'static, P: FnOnce(S, TcpStream) -> R + std::marker::Send + 'static>(p: P) -> Res<(std::thread::JoinHandle<()>, S::Dual, TcpStream)> {
        fork_tcp(p, "127.0.0.1:3333")
    }
    const UDP: bool = false;
}
impl Tp for Udp {
    type Sock = UdpSocket;
    fn send<T: std::marker::Send, S: Session>(x: T, d: &D, s: Send<(T, D), S>, k: UdpSocket, f: bool) -> Res<(S, Option<usize>, UdpSocket)> {
        send_udp(x, d, s, k, f).map(|(s, n, k)| (s, Some(n), k))
    }
    fn recv<T: std::marker::Send, S: Session>(s: Recv<(T, D), S>, k: UdpSocket, f: bool) -> Res<(T, S, D, Option<usize>, UdpSocket)> {
        recv_udp(s, k, f).map(|(v, s, d, n, k)| (v, s, d, Some(n), k))
    }
    fn close(s: End, _k: UdpSocket, _f: bool) -> R {
        mpstthree::binary::close::close(s)
    }
    fn cancel<S>(s: S, k: UdpSocket) {
        cancel_udp(s, k)
    }
    fn fork<S: Session + 'static, P: FnOnce(S, UdpSocket) -> R + std::marker::Send + 'static>(p: P) -> Res<(std::thread::JoinHandle<()>, S::Dual, UdpSocket)> {
        fork_udp(p, "127.0.0.1:8081", "127.0.0.1:8080")
    }
    const UDP: bool = true;
}

#[derive(Clone, Copy)]
struct T {
    me: usize,
}
enum Act {
    Go,
    Err,
    Cancel,
    Drop,
}
impl T {
    fn st(&self) -> &'static mut Side {
        &mut run().side[self.me]
    }
    fn peer(&self) -> &'static mut Side {
        &mut run().side[1 - self.me]
    }
    fn flag(&self) -> bool {
        match run().mode {
            Mode::Local => false,
            Mode::Both => run().flags >> (self.st().ops.len() % 60) & 1 == 1,
            Mode::Ext(s) => s == self.me,
        }
    }
    fn pre(&self) -> Act {
        let at = self.st().ops.len();
        if run().odd > 0 && simrt::draw_p(run().odd, 5) > 0 {
            std::thread::sleep(Duration::from_nanos([1u64, 1_000_000, 1_000_000_000, 3_600_000_000_000][simrt::draw(4) as usize]));
        }
        if let Some((c, how)) = self.st().crash {
            if c == at && self.st().end.is_none() {
                self.st().leaving = Some(simrt::now());
                self.st().crashed = true;
                simrt::ev("crash", self.me as i64, at as i64, how as i64);
                simrt::note(|| format!("FAULT: {} stops before operation {}: {:?}", self.me, at, how));
                match how {
                    Crash::Panic => {
                        simrt::fault("participant-panic");
                        harness::blow_up()
                    }
                    Crash::Err => {
                        simrt::fault("participant-error-return");
                        return Act::Err;
                    }
                    Crash::CancelErr | Crash::CancelLinger => {
                        simrt::fault("participant-cancel");
                        return Act::Cancel;
                    }
                    _ => {
                        simrt::fault("participant-drop");
                        return Act::Drop;
                    }
                }
            }
        }
        Act::Go
    }
    fn gone(&self) {
        self.st().dead = Some(simrt::now());
        simrt::ev("gone", self.me as i64, 0, 0);
        if simrt::draw(2) == 1 {
            std::thread::sleep(Duration::from_secs(7200));
        }
    }
    fn begin(&self, k: K, flag: bool, key: u64) {
        let peer_gone = self.peer().dead.is_some();
        let t0 = simrt::now();
        simrt::ev("op", self.me as i64, k as i64, flag as i64);
        simrt::note(|| format!("{} op {}: {:?} {:x} network {}", self.me, self.st().ops.len(), k, key, flag));
        self.st().ops.push(Rec { k, key, flag, t0, t1: t0, ok: false, ended: false, e0: simrt::net::errs(), s0: simrt::net::soft_errs(), errs: 0, soft: 0, peer_gone });
    }
    fn end(&self, ok: bool) {
        let r = self.st().ops.last_mut().unwrap();
        r.t1 = simrt::now();
        r.ok = ok;
        r.ended = true;
        r.errs = simrt::net::errs() - r.e0;
        r.soft = simrt::net::soft_errs() - r.s0;
        simrt::ev("ret", self.me as i64, ok as i64, r.errs as i64);
        simrt::note(|| format!("{} op returned: {} ({} socket failures)", self.me, if ok { "success" } else { "FAILURE" }, r.errs));
    }
    fn op<X>(&self, f: impl FnOnce() -> Res<X>) -> Res<X> {
        let r = catch(f);
        self.end(matches!(r, Ok(Ok(_))));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    fn key(&self) -> u64 {
        mix(run().nonce, self.st().ops.len() as u64)
    }
    fn got(&self, from: K, k: Result<u64, String>) {
        checked();
        let i = self.st().ops.len() - 1;
        match k {
            Err(e) => simrt::violate("corrupt-message", format!("{} operation {}: {}", self.me, i, e)),
            Ok(k) => {
                self.st().ops[i].key = k;
                match self.peer().ops.get(i) {
                    None => simrt::violate("wrong-message", format!("{} operation {} received something that was not sent", self.me, i)),
                    Some(r) if r.k != from || r.key != k => simrt::violate("wrong-message", format!("{} operation {} received {:x} but the partner's operation was {:?} {:x}", self.me, i, k, r.k, r.key)),
                    _ => {}
                }
            }
        }
    }
    fn data(&self, d: &D, n: Option<usize>) {
        let i = self.st().ops.len() - 1;
        if !self.st().ops[i].flag {
            return;
        }
        checked();
        let k = self.st().reads;
        self.st().reads += 1;
        if let Some(n) = n {
            let got = simrt::net::last_dgram();
            if n != got.len() || n > 128 || d[..n] != got[..] || d[n..].iter().any(|x| *x != 0) {
                simrt::violate("wrong-bytes", format!("{} operation {} reports {} bytes that differ from the datagram of {} bytes it received", self.me, i, n, got.len()));
            }
            if !run().clean {
                return;
            }
            if n != 128 {
                simrt::violate("wrong-bytes", format!("{} operation {} reports {} bytes of an intact datagram of 128", self.me, i, n));
            }
        }
        let want: Vec<u8> = match run().mode {
            Mode::Ext(_) => {
                let s = &net().socks[0];
                let mut stream = run().preload.clone();
                if run().udp {
                    stream.extend(s.sent_dgrams.iter().flatten());
                } else {
                    stream.extend(&s.wire);
                }
                stream.get(k * 128..k * 128 + 128).unwrap_or(&[]).to_vec()
            }
            _ => bytes(self.st().ops[i].key).to_vec(),
        };
        if d[..] != want[..] {
            simrt::violate("wrong-bytes", format!("{} operation {} received bytes {:?}.. instead of {:?}..", self.me, i, &d[..8], &want[..want.len().min(8)]));
        }
    }
    fn participant(self, f: impl FnOnce(T) -> R) -> R {
        let st = self.st();
        st.started += 1;
        if st.started > 1 {
            simrt::violate("fork", format!("participant {} was started twice", self.me));
        }
        if self.me == 1 && run().gate {
            simrt::probe("waited-for-fork-to-return");
            simrt::engine::block_on(simrt::engine::K_USER, GATE_KEY, None);
        }
        if self.me == 1 && simrt::engine::me() == 0 {
            simrt::violate("fork", "the forked participant runs on the thread that forked it".into());
        }
        let r = catch(|| f(self));
        let st = self.st();
        st.end = Some(match &r {
            Ok(Ok(())) => Fin::Ok,
            Ok(Err(e)) => Fin::Err(e.to_string()),
            Err(p) => Fin::Panic(simrt::panic_text(&**p)),
        });
        if st.dead.is_none() {
            st.dead = Some(simrt::now());
        }
        simrt::ev("end", self.me as i64, matches!(st.end, Some(Fin::Ok)) as i64, 0);
        simrt::note(|| format!("{} ends: {:?}", self.me, self.st().end));
        match r {
            Ok(x) => x,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

macro_rules! pre {
    ($h:expr, $s:expr, $k:expr, $p:ty) => {
        match $h.pre() {
            Act::Go => {}
            Act::Err => return Err(harness::failure()),
            Act::Cancel => {
                <$p>::cancel($s, $k);
                $h.gone();
                return Ok(());
            }
            Act::Drop => {
                drop($s);
                drop($k);
                $h.gone();
                return Ok(());
            }
        }
    };
}

trait Drive<P: Tp>: Session + Sized {
    fn drive(self, h: T, k: P::Sock) -> R;
}
impl<P: Tp> Drive<P> for End {
    fn drive(self, h: T, k: P::Sock) -> R {
        pre!(h, self, k, P);
        let f = h.flag();
        h.begin(K::Close, f, 0);
        h.op(|| P::close(self, k, f))
    }
}
macro_rules! plain {
    ($m:ty) => {
        impl<P: Tp, N: Drive<P>> Drive<P> for Send<($m, D), N>
        where
            N::Dual: Session,
        {
            fn drive(self, h: T, k: P::Sock) -> R {
                pre!(h, self, k, P);
                let (f, key) = (h.flag(), h.key());
                h.begin(K::Send, f, key);
                let (s, n, k) = h.op(|| P::send(<$m as Pay>::make(key), &bytes(key), self, k, f))?;
                if let Some(n) = n {
                    if n != if f { 128 } else { 0 } {
                        simrt::violate("wrong-length", format!("{} sent 128 bytes over the network ({}) but the send reports {}", h.me, f, n));
                    }
                }
                s.drive(h, k)
            }
        }
        impl<P: Tp, N: Drive<P>> Drive<P> for Recv<($m, D), N>
        where
            N::Dual: Session,
        {
            fn drive(self, h: T, k: P::Sock) -> R {
                pre!(h, self, k, P);
                let f = h.flag();
                h.begin(K::Recv, f, 0);
                let (v, s, d, n, k) = h.op(|| P::recv(self, k, f))?;
                h.got(K::Send, v.key());
                h.data(&d, n);
                s.drive(h, k)
            }
        }
    };
}
plain!(u64);
plain!(Tok);
plain!(String);
plain!(Big);

fn branch<P: Tp, X: Drive<P>>(h: T, label: u64, taken: &std::cell::Cell<bool>, s: X, k: P::Sock) -> R {
    taken.set(true);
    h.end(true);
    h.got(K::Choose, Ok(label));
    s.drive(h, k)
}
fn settle(h: T, r: Result<R, Box<dyn std::any::Any + std::marker::Send>>, taken: bool) -> R {
    if !taken {
        h.end(false);
    }
    match r {
        Ok(x) => x,
        Err(p) => std::panic::resume_unwind(p),
    }
}

macro_rules! drive_enum {
    ($p:ty, $choose:ident, $offer:ident, $name:ident, { $($v:ident ($t:ty) = $i:literal),+ }) => {
        impl Drive<$p> for Send<(D, $name), End> {
            fn drive(self, h: T, k: <$p as Tp>::Sock) -> R {
                pre!(h, self, k, $p);
                const N: u64 = [$($i),+].len() as u64;
                run().rounds += 1;
                let label = if run().rounds > 5 { N - 1 } else { simrt::draw(N) };
                h.begin(K::Choose, false, label);
                match label {
                    $($i => {
                        let s: <$t as Session>::Dual = h.op(|| Ok($choose!($name::$v, self, bytes(label))))?;
                        Drive::<$p>::drive(s, h, k)
                    })+
                    _ => unreachable!(),
                }
            }
        }
        impl Drive<$p> for Recv<(D, $name), End> {
            fn drive(self, h: T, k: <$p as Tp>::Sock) -> R {
                pre!(h, self, k, $p);
                h.begin(K::Offer, false, 0);
                let taken = std::cell::Cell::new(false);
                let r = catch(|| {
                    let taken = &taken;
                    $offer!(self, { $($name::$v(s) => branch::<$p, _>(h, $i, taken, s, k),)+ })
                });
                settle(h, r, taken.get())
            }
        }
    };
}
macro_rules! net_enum {
    ($name:ident, { $($v:ident ($t:ty) = $i:literal),+ }) => {
        enum $name { $($v($t)),+ }
        drive_enum!(Tcp, choose_tcp, offer_tcp, $name, { $($v ($t) = $i),+ });
        drive_enum!(Udp, choose_udp, offer_udp, $name, { $($v ($t) = $i),+ });
    };
}

type S<M, N> = Send<(M, D), N>;
type V<M, N> = Recv<(M, D), N>;
type Offer<E> = Recv<(D, E), End>;
type Choose<E> = Send<(D, E), End>;

net_enum!(E0, { More(V<u64, S<u64, Offer<E0>>>) = 0, Done(End) = 1 });
net_enum!(E1, { Up(V<Tok, V<String, Offer<E1>>>) = 0, Down(S<Tok, S<u64, Offer<E1>>>) = 1, Nothing(Offer<E1>) = 2, Done(V<u64, End>) = 3 });
// The chooser changes at each round.
net_enum!(E2, { Ping(V<String, Choose<E3>>) = 0, Stop(S<u64, End>) = 1 });
net_enum!(E3, { Pong(V<Big, Choose<E2>>) = 0, Back(Choose<E2>) = 1, Stop(End) = 2 });

type P0 = S<u64, V<u64, End>>;
type P1 = S<u64, S<Tok, S<String, V<Tok, V<u64, V<u64, End>>>>>>;
type P2 = V<Big, S<Big, V<Big, S<Big, End>>>>;
type P3 = S<u64, S<u64, S<u64, S<u64, S<u64, S<u64, S<u64, S<u64, End>>>>>>>>;
type P4 = S<String, Offer<E0>>;
type P5 = Offer<E1>;
type P6 = V<u64, Choose<E1>>;
type P7 = Choose<E2>;
type P8 = Offer<E2>;
type P9 = Choose<E0>;
type P10 = End;

fn go<P: Tp, X: Drive<P> + 'static>()
where
    X::Dual: Drive<P>,
{
    if simrt::draw_p(if run().forks { 200_000 } else { 30_000 }, 2) == 1 {
        simrt::env().spawn_fail_in = 1;
    }
    let e0 = simrt::net::errs();
    let spawn_fail = simrt::env().spawn_fail_in > 0;
    let r = catch(|| P::fork(|s: X, k| T { me: 1 }.participant(|h| s.drive(h, k))));
    let errs = simrt::net::errs() - e0;
    simrt::env().spawn_fail_in = 0;
    checked();
    match r {
        Ok(Ok((th, s, k))) => {
            if errs > 0 {
                simrt::violate("hidden-failure", format!("the fork succeeded although {} of its socket calls failed", errs));
            }
            if spawn_fail {
                simrt::violate("hidden-failure", "the fork succeeded although no thread could be created".into());
            }
            open_gate();
            let r = catch(|| T { me: 0 }.participant(|h| s.drive(h, k)));
            let _ = r;
            let j = th.join();
            checked();
            let e = run().side[1].end.clone();
            if j.is_ok() != (e == Some(Fin::Ok)) {
                simrt::violate("join", format!("the join reports {} but the participant ended with {:?}", if j.is_ok() { "success" } else { "failure" }, e));
            }
        }
        Ok(Err(_)) | Err(_) => {
            simrt::probe("fork-failed");
            open_gate();
            if errs == 0 && !spawn_fail {
                simrt::violate("spurious-failure", "the fork failed although nothing went wrong".into());
            }
            if run().side[1].started > 0 {
                simrt::violate("fork", "a failed fork started its participant".into());
            }
            if run().side.iter().all(|s| s.ops.is_empty()) {
                return;
            }
        }
    }
    verify();
}

fn may_be_gone(p: &Side, t: u64) -> bool {
    p.dead.is_some_and(|d| d <= t) || p.leaving.is_some_and(|d| d <= t) || p.ops.last().is_some_and(|o| !o.ok && o.t0 <= t)
}

fn verify() {
    let run = run();
    for me in 0..2 {
        let (st, peer) = (&run.side[me], &run.side[1 - me]);
        for (i, o) in st.ops.iter().enumerate() {
            checked();
            let d = || format!("{} operation {} {:?} (network {}, {} socket failures) {}", me, i, o.k, o.flag, o.errs, if o.ok { "succeeded" } else { "failed" });
            if !o.ended {
                simrt::violate("hang", format!("{} operation {} never returned", me, i));
                return;
            }
            let other = peer.ops.get(i);
            let excused = o.errs > 0 || o.soft > 0 || may_be_gone(peer, o.t1);
            if o.ok && o.errs > 0 && o.k != K::Close {
                simrt::violate("hidden-failure", d());
            }
            match o.k {
                K::Send => {
                    if o.ok && o.peer_gone {
                        simrt::violate("missed-failure", format!("{} although the partner was already gone", d()));
                    }
                    if !o.ok && !excused {
                        simrt::violate("spurious-failure", d());
                    }
                }
                K::Choose => {
                    if !o.ok {
                        simrt::violate("spurious-failure", d());
                    }
                }
                K::Recv | K::Offer => {
                    let from = if o.k == K::Recv { K::Send } else { K::Choose };
                    if o.ok && !other.is_some_and(|p| p.k == from && p.t0 <= o.t1) {
                        simrt::violate("wrong-message", format!("{} though nothing was sent", d()));
                    }
                    let there = other.is_some_and(|p| p.k == from && p.ok && p.t1 <= o.t1);
                    if !o.ok && o.errs == 0 && o.soft == 0 && (there || !may_be_gone(peer, o.t1)) {
                        simrt::violate("spurious-failure", d());
                    }
                }
                K::Close => {
                    if o.ok && !other.is_some_and(|p| p.k == K::Close && p.t0 <= o.t1) {
                        simrt::violate("early-close", d());
                    }
                    if !o.ok && other.is_some_and(|p| p.k == K::Close) {
                        simrt::violate("spurious-failure", format!("{} although both closed", d()));
                    }
                }
            }
        }
        if st.end == Some(Fin::Ok) {
            simrt::probe(if st.crashed { "cancelled" } else { "completed" });
            if !st.crashed && st.ops.iter().any(|o| !o.ok) {
                simrt::violate("wrong-path", format!("{} returned success though an operation failed", me));
            }
        } else if !st.crashed {
            simrt::probe("failed");
            if st.ops.iter().all(|o| o.ok) {
                simrt::violate("spurious-failure", format!("{} ended with {:?} though every operation succeeded", me, st.end));
            }
        }
    }
    // What reached the network: the bytes of every flagged send, in order, and nothing else.
    let n = run.side[0].ops.len().max(run.side[1].ops.len());
    let mut want: Vec<u8> = vec![];
    let mut last: Option<D> = None;
    'o: for i in 0..n {
        for s in 0..2 {
            if let Some(o) = run.side[s].ops.get(i) {
                if o.k == K::Send && o.flag {
                    if o.ok {
                        want.extend(bytes(o.key));
                    } else if run.clean {
                        last = Some(bytes(o.key));
                        break 'o;
                    }
                }
            }
        }
    }
    checked();
    if let Some(s) = net().socks.first() {
        let mut got: Vec<u8> = if run.udp { s.sent_dgrams.concat() } else { s.wire.clone() };
        if !run.clean {
            // A duplicated datagram lets a receiver overtake its sender's call.
            let mut a: Vec<&Vec<u8>> = s.sent_dgrams.iter().collect();
            a.sort();
            got = a.into_iter().flatten().copied().collect();
            let mut w: Vec<&[u8]> = want.chunks(128).collect();
            w.sort();
            want = w.concat();
            last = None;
        }
        let ok = got.len() >= want.len() && got[..want.len()] == want[..] && {
            let rest = &got[want.len()..];
            rest.is_empty() || last.is_some_and(|l| rest.len() <= 128 && l[..rest.len()] == *rest)
        };
        if !ok {
            simrt::violate("wrong-bytes", format!("{} bytes reached the network, {} were sent", got.len(), want.len()));
        }
        if run.udp && s.sent_dgrams.iter().any(|d| d.len() != 128) {
            simrt::violate("wrong-bytes", "a message was sent as several datagrams".into());
        }
    } else if !want.is_empty() {
        simrt::violate("wrong-bytes", "nothing reached the network".into());
    }
}

#[derive(Clone, Copy)]
struct Mix {
    crash_ppm: u64,
    fault_ppm: u64,
    only_local_ppm: u64,
    forks: bool,
}

const GATE_KEY: u64 = 1 << 59;
fn open_gate() {
    if run().gate {
        run().gate = false;
        simrt::engine::wake_key(GATE_KEY, usize::MAX);
    }
}

fn scenario<P: Tp>(m: Mix) {
    harness::quiet_panics();
    const MS: u64 = 1_000_000;
    let all: [(&str, fn()); 17] = [
        ("send-recv", go::<P, P0> as fn()),
        ("3-3", go::<P, P1> as fn()),
        ("alternate", go::<P, P2> as fn()),
        ("8-sends", go::<P, P3> as fn()),
        ("loop", d4::<P>()),
        ("4-labels", d5::<P>()),
        ("4-labels-dual", d6::<P>()),
        ("alternating-chooser", d7::<P>()),
        ("alternating-chooser-dual", d8::<P>()),
        ("loop-dual", d9::<P>()),
        ("only-close", go::<P, P10> as fn()),
        ("recv-send", go::<P, <P0 as Session>::Dual> as fn()),
        ("3-3-dual", go::<P, <P1 as Session>::Dual> as fn()),
        ("alternate-dual", go::<P, <P2 as Session>::Dual> as fn()),
        ("8-recvs", go::<P, <P3 as Session>::Dual> as fn()),
        ("loop", d4::<P>()),
        ("loop-dual", d9::<P>()),
    ];
    let which = simrt::draw(all.len() as u64) as usize;
    let mode = if simrt::draw_p(m.only_local_ppm, 2) == 1 {
        Mode::Local
    } else {
        match simrt::draw(6) {
            0..=3 => Mode::Both,
            4 => Mode::Ext(0),
            _ => Mode::Ext(1),
        }
    };
    let flags = match simrt::draw(3) {
        0 | 1 => u64::MAX,
        _ => simrt::draw(1 << 60),
    };
    let nonce = simrt::draw(1 << 50) + 1;
    let odd = [0, 100_000, 500_000][simrt::draw(3) as usize];
    let mut crash = [None, None];
    let crashing = simrt::draw_p(m.crash_ppm, 2) == 1;
    if crashing {
        let c = [Crash::Panic, Crash::Err, Crash::CancelErr, Crash::CancelOk][simrt::draw(4) as usize];
        crash[simrt::draw(2) as usize] = Some((simrt::draw(9) as usize, c));
    }
    let faulty = simrt::draw_p(m.fault_ppm, 2) == 1;
    let calm = !crashing && !faulty && mode == Mode::Both;
    let mut c = NetCfg {
        delay_ppm: [0, 200_000, 700_000][simrt::draw(3) as usize],
        delays: vec![1, 1000, MS, 40 * MS, 1000 * MS, 3_600_000 * MS],
        piece: [0, 128, 7][simrt::draw(3) as usize],
        short_ppm: [0, 200_000, 900_000][simrt::draw(3) as usize],
        eintr_ppm: [0, 0, 100_000, 400_000][simrt::draw(4) as usize],
        window: if calm { [1 << 20, 256, 128, 100, 1][simrt::draw(5) as usize] } else { 1 << 20 },
        ..Default::default()
    };
    let mut preload = vec![];
    if let Mode::Ext(_) = mode {
        if !P::UDP {
            for i in 0..40 {
                preload.extend(bytes(mix(nonce, 0x9999 + i)));
            }
        }
    }
    c.preload = preload.clone();
    c.shutdown_excuses = crashing;
    let mut clean = true;
    if P::UDP {
        c.eintr_ppm = 0;
        c.delay_ppm = 0;
        // Nothing answers beyond the echo: receives that wait too long report it.
        c.recv_limit = Some(3_600_000 * MS);
        if faulty {
            if simrt::draw(2) == 1 {
                clean = false;
                c.delay_ppm = [0, 300_000][simrt::draw(2) as usize];
                c.delays = vec![1000, 100 * MS, 2000 * MS];
                c.loss_ppm = [0, 150_000][simrt::draw(2) as usize];
                c.dup_ppm = [0, 200_000][simrt::draw(2) as usize];
                c.trunc_ppm = [0, 200_000][simrt::draw(2) as usize];
            }
            c.dgram_err_ppm = [0, 80_000][simrt::draw(2) as usize];
            c.eintr_ppm = [0, 50_000][simrt::draw(2) as usize];
            match simrt::draw(8) {
                0 => c.connect = 3,
                1 => c.addr_in_use = true,
                2 => c.emfile_in = 1 + simrt::draw(2) as u32,
                _ => {}
            }
        }
    } else if faulty {
        match simrt::draw(5) {
            0 => c.reset_ppm = [30_000, 150_000][simrt::draw(2) as usize],
            1 => c.crash_at = Some([1, 500, 10_000][simrt::draw(3) as usize] * MS),
            2 => c.close_after = Some(simrt::draw(900) as usize),
            3 => c.connect = 1 + simrt::draw(3),
            _ => c.emfile_in = 1 + simrt::draw(2) as u32,
        }
    }
    net().cfg = c;
    if simrt::draw(4) == 1 {
        let e = simrt::env();
        e.stall_ppm = 30_000;
        e.stall_sizes = vec![1, MS, 1000 * MS, 1_000_000 * MS, 3_600_000 * MS];
    }
    simrt::note(|| format!("{} {} mode {:?} flags {:x} crash {:?} faulty {}", if P::UDP { "udp" } else { "tcp" }, all[which].0, mode, flags, crash, faulty));
    simrt::probe(&format!("{}/{}", if P::UDP { "udp" } else { "tcp" }, all[which].0));
    let mut i = 0;
    let side = [(); 2].map(|_| {
        let s = Side { ops: vec![], crash: crash[i], leaving: None, dead: None, crashed: false, end: None, started: 0, reads: 0 };
        i += 1;
        s
    });
    unsafe {
        RUN = Some(Run { side, mode, flags, nonce, odd, udp: P::UDP, clean, rounds: 0, preload, gate: m.forks && simrt::draw_p(300_000, 2) == 1, forks: m.forks });
    }
    all[which].1();
    // Receives outrun the datagrams in the one-sided mode: then the failure is a socket's.
}

// Programs with enums are driven through concrete transports only.
macro_rules! by_tp {
    ($($f:ident $t:ty),+) => { $(fn $f<P: Tp>() -> fn() {
        if P::UDP { go::<Udp, $t> } else { go::<Tcp, $t> }
    })+ };
}
by_tp!(d4 P4, d5 P5, d6 P6, d7 P7, d8 P8, d9 P9);

fn tcp_exact() {
    scenario::<Tcp>(Mix { crash_ppm: 0, fault_ppm: 0, only_local_ppm: 50_000, forks: false })
}
fn tcp_faults() {
    scenario::<Tcp>(Mix { crash_ppm: 350_000, fault_ppm: 600_000, only_local_ppm: 100_000, forks: false })
}
fn udp_exact() {
    scenario::<Udp>(Mix { crash_ppm: 0, fault_ppm: 0, only_local_ppm: 50_000, forks: false })
}
fn udp_faults() {
    scenario::<Udp>(Mix { crash_ppm: 250_000, fault_ppm: 700_000, only_local_ppm: 100_000, forks: false })
}
fn forks() {
    let m = Mix { crash_ppm: 500_000, fault_ppm: 300_000, only_local_ppm: 500_000, forks: true };
    if simrt::draw(2) == 0 {
        scenario::<Tcp>(m)
    } else {
        scenario::<Udp>(m)
    }
}

fn main() {
    wmain(&[
        Prop { id: "tcp_exact", f: tcp_exact, cap: 200_000 },
        Prop { id: "tcp_faults", f: tcp_faults, cap: 200_000 },
        Prop { id: "udp_exact", f: udp_exact, cap: 200_000 },
        Prop { id: "udp_faults", f: udp_faults, cap: 200_000 },
        Prop { id: "forks", f: forks, cap: 200_000 },
    ])
}
