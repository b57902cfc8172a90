//! Simulated sockets. Descriptors from `FIRST_FD` on exist only here; every other descriptor goes to
//! the kernel untouched. The remote end of every connection (and of every connected datagram socket)
//! is an echo service inside the simulated network: what a socket sends comes back to it, later, in
//! pieces, or not at all, as the seeded environment decides.
use crate::engine::*;
use crate::interpose::{ret, set_errno};
use crate::raw::sys6;
use libc::{c_int, c_long, c_void, sockaddr, sockaddr_in, socklen_t};
use std::collections::{BTreeMap, VecDeque};

pub const FIRST_FD: i32 = 100_000;

#[derive(Clone, Default)]
pub struct NetCfg {
    /// Probability (ppm) that a segment or datagram is delayed, by one of `delays` (ns).
    pub delay_ppm: u64,
    pub delays: Vec<u64>,
    /// Segments are cut into pieces of at most this many bytes on the way back (0: never cut).
    pub piece: usize,
    /// Probability that one call moves fewer bytes than it could.
    pub short_ppm: u64,
    /// Probability that a call is interrupted by a signal.
    pub eintr_ppm: u64,
    /// Bytes a connection holds before a writer blocks.
    pub window: usize,
    /// Probability (per call) that the connection is reset.
    pub reset_ppm: u64,
    /// The service crashes at this time.
    pub crash_at: Option<u64>,
    /// The service closes in an orderly way after echoing that many bytes.
    pub close_after: Option<usize>,
    /// The n-th descriptor created from now on cannot be created (EMFILE).
    pub emfile_in: u32,
    /// 0: connections are accepted, 1: refused, 2: time out, 3: unreachable.
    pub connect: u64,
    /// The address of a datagram socket is already in use.
    pub addr_in_use: bool,
    pub loss_ppm: u64,
    pub dup_ppm: u64,
    /// Probability that the service answers with fewer bytes than it was sent.
    pub trunc_ppm: u64,
    /// Probability that a datagram call reports an asynchronous error.
    pub dgram_err_ppm: u64,
    /// Whether a participant may shut the connection down before everybody is done (it cancels).
    pub shutdown_excuses: bool,
    /// A datagram receive that waits this long reports that the service is gone.
    pub recv_limit: Option<u64>,
    /// What the service sends first, unasked.
    pub preload: Vec<u8>,
}

struct Seg {
    at: u64,
    data: Vec<u8>,
    off: usize,
}

pub struct Sock {
    udp: bool,
    refs: u32,
    bound: Option<(u32, u16)>,
    remote: Option<(u32, u16)>,
    connected: bool,
    rx: VecDeque<Seg>,
    last_at: u64,
    /// When the service's FIN arrives (after all data).
    eof: Option<u64>,
    rd_shut: bool,
    wr_shut: bool,
    dead: bool,
    pending: i32,
    held: usize,
    echoed: usize,
    rcv_timeo: Option<u64>,
    snd_timeo: Option<u64>,
    nonblock: bool,
    /// Everything the program wrote.
    pub wire: Vec<u8>,
    pub sent_dgrams: Vec<Vec<u8>>,
    /// Everything the program read.
    pub read: Vec<u8>,
}

pub struct Net {
    pub cfg: NetCfg,
    fds: BTreeMap<i32, usize>,
    pub socks: Vec<Sock>,
    next: i32,
    errs: BTreeMap<u32, u64>,
    soft: BTreeMap<u32, u64>,
    /// The datagram each thread received last.
    dgram: BTreeMap<u32, Vec<u8>>,
}
impl Default for Net {
    fn default() -> Net {
        Net { cfg: NetCfg::default(), fds: BTreeMap::new(), socks: vec![], next: FIRST_FD, errs: BTreeMap::new(), soft: BTreeMap::new(), dgram: BTreeMap::new() }
    }
}

pub fn net() -> &'static mut Net {
    &mut sim().net
}
/// Failures (including end of stream) this thread's socket calls have reported so far.
pub fn errs() -> u64 {
    net().errs.get(&me()).copied().unwrap_or(0)
}
/// Interruptions this thread's datagram calls have reported so far (a caller may retry or fail).
pub fn soft_errs() -> u64 {
    net().soft.get(&me()).copied().unwrap_or(0)
}
/// The datagram this thread received last.
pub fn last_dgram() -> Vec<u8> {
    net().dgram.get(&me()).cloned().unwrap_or_default()
}
/// Descriptors still open.
pub fn open_fds() -> usize {
    net().fds.len()
}

fn is_sim(fd: c_int) -> bool {
    fd >= FIRST_FD
}
fn hit() {
    *net().errs.entry(me()).or_default() += 1;
}
fn err(e: i32) -> i64 {
    hit();
    set_errno(e);
    -1
}
/// A failure the code under test brought on itself (shutting down, setting a timeout, not blocking):
/// no excuse for a failed operation, unless the run lets a participant shut the connection down early.
fn own() {
    if net().cfg.shutdown_excuses {
        hit();
    }
}
fn own_err(e: i32) -> i64 {
    own();
    set_errno(e);
    -1
}
fn intr(udp: bool) -> Option<i64> {
    let p = net().cfg.eintr_ppm;
    if p > 0 && sim().active && draw_env(p, 2) == 1 {
        fault("interrupted-call");
        if udp {
            *net().soft.entry(me()).or_default() += 1;
        }
        set_errno(libc::EINTR);
        return Some(-1);
    }
    None
}
fn sock(fd: c_int) -> Option<usize> {
    net().fds.get(&fd).copied()
}
fn key(i: usize) -> u64 {
    NET_KEY | i as u64
}
fn wake(i: usize) {
    wake_key(key(i), usize::MAX);
}
fn new_fd(i: usize) -> c_int {
    let n = net();
    let fd = n.next;
    n.next += 1;
    n.fds.insert(fd, i);
    n.socks[i].refs += 1;
    fd
}
fn no_fd() -> bool {
    let c = &mut net().cfg;
    if c.emfile_in > 0 {
        c.emfile_in -= 1;
        if c.emfile_in == 0 {
            fault("no-descriptor-left");
            return true;
        }
    }
    false
}
fn reset(i: usize, what: &str) {
    let now = sim().now;
    let s = &mut net().socks[i];
    if s.dead {
        return;
    }
    s.dead = true;
    s.pending = libc::ECONNRESET;
    s.rx.retain(|g| g.at <= now);
    fault(what);
    wake(i);
}
fn tick(i: usize) {
    let now = sim().now;
    if let Some(t) = net().cfg.crash_at {
        let s = &net().socks[i];
        if t <= now && s.connected && !s.udp && !s.dead {
            reset(i, "service-crash");
        }
    }
}
fn delay() -> u64 {
    let c = &net().cfg;
    if c.delay_ppm > 0 && !c.delays.is_empty() && sim().active {
        let n = c.delays.len() as u64;
        let d = draw_env(c.delay_ppm, n + 1);
        if d > 0 {
            fault("network-delay");
            return net().cfg.delays[d as usize - 1];
        }
    }
    0
}

unsafe fn addr_of(a: *const sockaddr) -> (u32, u16) {
    let a = &*(a as *const sockaddr_in);
    (u32::from_be(a.sin_addr.s_addr), u16::from_be(a.sin_port))
}
unsafe fn put_addr(a: (u32, u16), out: *mut sockaddr, len: *mut socklen_t) {
    let mut s: sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = a.1.to_be();
    s.sin_addr.s_addr = a.0.to_be();
    let n = (*len as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n);
    *len = std::mem::size_of::<sockaddr_in>() as u32;
}

// ------------------------------------------------------------------ descriptors

#[no_mangle]
pub unsafe extern "C" fn socket(fam: c_int, ty: c_int, proto: c_int) -> c_int {
    if !in_sim() || fam != libc::AF_INET {
        return ret(sys6(libc::SYS_socket, fam as i64, ty as i64, proto as i64, 0, 0, 0)) as c_int;
    }
    point(K_NET);
    if no_fd() {
        return err(libc::EMFILE) as c_int;
    }
    let n = net();
    n.socks.push(Sock {
        udp: ty & 0xf == libc::SOCK_DGRAM,
        refs: 0,
        bound: None,
        remote: None,
        connected: false,
        rx: VecDeque::new(),
        last_at: 0,
        eof: None,
        rd_shut: false,
        wr_shut: false,
        dead: false,
        pending: 0,
        held: 0,
        echoed: 0,
        rcv_timeo: None,
        snd_timeo: None,
        nonblock: ty & libc::SOCK_NONBLOCK != 0,
        wire: vec![],
        sent_dgrams: vec![],
        read: vec![],
    });
    let i = n.socks.len() - 1;
    new_fd(i)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if crate::fs::is_fs(fd) {
        return crate::fs::fs_close(fd) as c_int;
    }
    if is_sim(fd) {
        if in_sim() {
            point(K_NET);
            if let Some(i) = net().fds.remove(&fd) {
                let s = &mut net().socks[i];
                s.refs -= 1;
                if s.refs == 0 {
                    s.wr_shut = true;
                    s.rd_shut = true;
                    wake(i);
                }
            } else {
                violate("descriptor", format!("descriptor {} is closed twice", fd));
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if crate::fs::is_fs(fd) && in_sim() {
        return crate::fs::fs_fcntl(fd, cmd) as c_int;
    }
    if is_sim(fd) && in_sim() {
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        return match cmd {
            libc::F_DUPFD_CLOEXEC | libc::F_DUPFD => {
                point(K_NET);
                if no_fd() {
                    return err(libc::EMFILE) as c_int;
                }
                new_fd(i)
            }
            libc::F_GETFL => libc::O_RDWR | if net().socks[i].nonblock { libc::O_NONBLOCK } else { 0 },
            libc::F_SETFL => {
                net().socks[i].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
                0
            }
            _ => 0,
        };
    }
    ret(sys6(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if is_sim(fd) && in_sim() {
        if req == libc::FIONBIO as libc::c_ulong {
            if let Some(i) = sock(fd) {
                net().socks[i].nonblock = *(arg as *const c_int) != 0;
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        if let Some(i) = sock(fd) {
            if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
                let tv = &*(val as *const libc::timeval);
                let ns = (tv.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(tv.tv_usec as u64 * 1000);
                let t = (ns > 0).then_some(ns);
                if opt == libc::SO_RCVTIMEO {
                    net().socks[i].rcv_timeo = t;
                } else {
                    net().socks[i].snd_timeo = t;
                }
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_setsockopt, fd as i64, lvl as i64, opt as i64, val as i64, len as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        std::ptr::write_bytes(val as *mut u8, 0, *len as usize);
        if let Some(i) = sock(fd) {
            if lvl == libc::SOL_SOCKET && opt == libc::SO_ERROR {
                *(val as *mut c_int) = std::mem::take(&mut net().socks[i].pending);
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_getsockopt, fd as i64, lvl as i64, opt as i64, val as i64, len as i64, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        point(K_NET);
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        if net().cfg.addr_in_use {
            fault("address-in-use");
            return err(libc::EADDRINUSE) as c_int;
        }
        net().socks[i].bound = Some(addr_of(a));
        return 0;
    }
    ret(sys6(libc::SYS_bind, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        put_addr(net().socks[i].bound.unwrap_or((0x7f000001, 40000 + i as u16)), a, len);
        return 0;
    }
    ret(sys6(libc::SYS_getsockname, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        let Some(r) = net().socks[i].remote else {
            return err(libc::ENOTCONN) as c_int;
        };
        put_addr(r, a, len);
        return 0;
    }
    ret(sys6(libc::SYS_getpeername, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    if is_sim(fd) && in_sim() {
        point(K_NET);
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        let to = addr_of(a);
        if net().socks[i].udp {
            if net().cfg.connect == 3 {
                fault("network-unreachable");
                return err(libc::ENETUNREACH) as c_int;
            }
            net().socks[i].remote = Some(to);
            net().socks[i].connected = true;
            return 0;
        }
        if let Some(r) = intr(false) {
            return r as c_int;
        }
        let d = delay();
        if d > 0 {
            let until = sim().now + d;
            while sim().now < until {
                block_on(K_NET, key(i), Some(until));
            }
        }
        match net().cfg.connect {
            1 => {
                fault("connection-refused");
                return err(libc::ECONNREFUSED) as c_int;
            }
            2 => {
                fault("connection-timeout");
                let until = sim().now + 130_000_000_000;
                while sim().now < until {
                    block_on(K_NET, key(i), Some(until));
                }
                return err(libc::ETIMEDOUT) as c_int;
            }
            3 => {
                fault("network-unreachable");
                return err(libc::ENETUNREACH) as c_int;
            }
            _ => {}
        }
        let data = net().cfg.preload.clone();
        let mut rest = &data[..];
        while !rest.is_empty() {
            let k = rest.len().min(if net().cfg.piece > 0 { 100 } else { 4096 });
            let at = (sim().now + delay()).max(net().socks[i].last_at);
            let s = &mut net().socks[i];
            s.last_at = at;
            s.rx.push_back(Seg { at, data: rest[..k].to_vec(), off: 0 });
            rest = &rest[k..];
        }
        let s = &mut net().socks[i];
        s.remote = Some(to);
        s.connected = true;
        return 0;
    }
    ret(sys6(libc::SYS_connect, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if is_sim(fd) && in_sim() {
        point(K_NET);
        let Some(i) = sock(fd) else {
            return err(libc::EBADF) as c_int;
        };
        tick(i);
        let now = sim().now;
        let s = &mut net().socks[i];
        if !s.connected || s.dead || (s.wr_shut && s.rd_shut) {
            fault("shutdown-of-a-finished-connection");
            return err(libc::ENOTCONN) as c_int;
        }
        if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
            s.rd_shut = true;
        }
        if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
            s.wr_shut = true;
            // The service answers with its own end of stream once it has echoed everything.
            let t = now.max(s.last_at);
            s.eof.get_or_insert(t);
        }
        wake(i);
        return 0;
    }
    ret(sys6(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}

// ------------------------------------------------------------------ data

unsafe fn do_send(fd: c_int, buf: *const u8, len: usize) -> i64 {
    point(K_NET);
    let Some(i) = sock(fd) else {
        return err(libc::EBADF);
    };
    let data = std::slice::from_raw_parts(buf, len);
    if net().socks[i].udp {
        return send_dgram(i, data);
    }
    if let Some(r) = intr(false) {
        return r;
    }
    let p = net().cfg.reset_ppm;
    if p > 0 && net().socks[i].connected && sim().active && draw_env(p, 2) == 1 {
        reset(i, "connection-reset");
    }
    let snd_limit = net().socks[i].snd_timeo.map(|t| sim().now.saturating_add(t));
    loop {
        tick(i);
        let window = net().cfg.window.max(1);
        let s = &mut net().socks[i];
        if s.dead {
            let e = std::mem::take(&mut s.pending);
            return err(if e != 0 { e } else { libc::EPIPE });
        }
        if !s.connected {
            return err(libc::ENOTCONN);
        }
        if s.wr_shut {
            return own_err(libc::EPIPE);
        }
        if len == 0 {
            return 0;
        }
        if s.eof.is_some() {
            // The service has closed: it answers what it is sent with a reset.
            s.wire.extend_from_slice(data);
            reset(i, "write-after-close");
            return len as i64;
        }
        let room = window.saturating_sub(s.held);
        if room == 0 {
            if s.nonblock {
                return own_err(libc::EAGAIN);
            }
            probe("writer-waits-for-window");
            let d = [net().cfg.crash_at, snd_limit].into_iter().flatten().filter(|t| *t > sim().now).min();
            block_on(K_NET, key(i), d);
            if snd_limit.is_some_and(|t| t <= sim().now) && net().socks[i].held >= window {
                return own_err(libc::EAGAIN);
            }
            continue;
        }
        let mut n = room.min(len);
        let short = net().cfg.short_ppm;
        if n > 1 && short > 0 && sim().active {
            let d = draw_env(short, n as u64);
            if d > 0 {
                fault("short-write");
                n = d as usize;
            }
        }
        let now = sim().now;
        s.wire.extend_from_slice(&data[..n]);
        let mut rest = &data[..n];
        if let Some(c) = net().cfg.close_after {
            let left = c.saturating_sub(s.echoed);
            if rest.len() >= left {
                rest = &rest[..left];
            }
        }
        while !rest.is_empty() {
            let piece = net().cfg.piece;
            let mut k = rest.len();
            if piece > 0 && sim().active {
                let m = piece.min(rest.len());
                let d = draw_env(700_000, m as u64 + 1) as usize;
                if d > 0 && d < rest.len() {
                    fault("split-segment");
                    k = d;
                }
            }
            let at = (now + delay()).max(net().socks[i].last_at);
            let s = &mut net().socks[i];
            s.last_at = at;
            s.held += k;
            s.echoed += k;
            s.rx.push_back(Seg { at, data: rest[..k].to_vec(), off: 0 });
            rest = &rest[k..];
        }
        let s = &mut net().socks[i];
        if let Some(c) = net().cfg.close_after {
            if s.echoed >= c && s.eof.is_none() {
                s.eof = Some(s.last_at.max(now));
                fault("service-closes");
            }
        }
        wake(i);
        return n as i64;
    }
}

fn send_dgram(i: usize, data: &[u8]) -> i64 {
    if let Some(r) = intr(true) {
        return r;
    }
    if let Some(e) = dgram_err(i) {
        return e;
    }
    let now = sim().now;
    let s = &mut net().socks[i];
    if !s.connected {
        return err(libc::EDESTADDRREQ);
    }
    s.sent_dgrams.push(data.to_vec());
    let c = &net().cfg;
    let on = sim().active;
    if on && c.loss_ppm > 0 && draw_env(c.loss_ppm, 2) == 1 {
        fault("datagram-lost");
        return data.len() as i64;
    }
    let copies = if on && c.dup_ppm > 0 { 1 + draw_env(c.dup_ppm, 3) } else { 1 };
    if copies > 1 {
        fault("datagram-duplicated");
    }
    for _ in 0..copies {
        let mut d = data.to_vec();
        if on && c.trunc_ppm > 0 {
            let t = draw_env(c.trunc_ppm, d.len() as u64 + 1);
            if t > 0 {
                fault("short-datagram");
                d.truncate(t as usize - 1);
            }
        }
        let at = now + delay();
        let s = &mut net().socks[i];
        let pos = s.rx.iter().position(|g| g.at > at).unwrap_or(s.rx.len());
        if pos < s.rx.len() {
            fault("datagram-reordered");
        }
        s.rx.insert(pos, Seg { at, data: d, off: 0 });
    }
    wake(i);
    data.len() as i64
}

fn dgram_err(i: usize) -> Option<i64> {
    let p = net().cfg.dgram_err_ppm;
    if p > 0 && net().socks[i].connected && sim().active {
        let d = draw_env(p, 4);
        if d > 0 {
            fault("datagram-error");
            return Some(err([libc::ECONNREFUSED, libc::ENETUNREACH, libc::ENOBUFS][d as usize - 1]));
        }
    }
    None
}

unsafe fn do_recv(fd: c_int, buf: *mut u8, len: usize, flags: c_int) -> i64 {
    let peek = flags & libc::MSG_PEEK != 0;
    point(K_NET);
    let Some(i) = sock(fd) else {
        return err(libc::EBADF);
    };
    let udp = net().socks[i].udp;
    if let Some(r) = intr(udp) {
        return r;
    }
    if udp {
        if let Some(e) = dgram_err(i) {
            return e;
        }
    } else {
        let p = net().cfg.reset_ppm;
        if p > 0 && net().socks[i].connected && sim().active && draw_env(p, 2) == 1 {
            reset(i, "connection-reset");
        }
    }
    let timeo = net().socks[i].rcv_timeo.map(|t| sim().now.saturating_add(t));
    let limit = if udp { net().cfg.recv_limit.map(|t| sim().now + t) } else { None };
    loop {
        tick(i);
        let now = sim().now;
        let short = net().cfg.short_ppm;
        let s = &mut net().socks[i];
        if !s.connected && !udp {
            return err(libc::ENOTCONN);
        }
        if let Some(g) = s.rx.front_mut() {
            if g.at <= now {
                let out = std::slice::from_raw_parts_mut(buf, len);
                if udp {
                    let n = len.min(g.data.len());
                    out[..n].copy_from_slice(&g.data[..n]);
                    let whole = g.data.len();
                    if !peek {
                        s.rx.pop_front();
                    }
                    net().dgram.insert(me(), out[..n].to_vec());
                    return if flags & libc::MSG_TRUNC != 0 { whole } else { n } as i64;
                }
                if len == 0 {
                    return 0;
                }
                let mut got = 0;
                if peek {
                    for g in s.rx.iter().take_while(|g| g.at <= now) {
                        let n = (len - got).min(g.data.len() - g.off);
                        out[got..got + n].copy_from_slice(&g.data[g.off..g.off + n]);
                        got += n;
                    }
                    if got > 1 && short > 0 && sim().active {
                        let d = draw_env(short, got as u64) as usize;
                        if d > 0 {
                            fault("short-read");
                            got = d;
                        }
                    }
                    return got as i64;
                }
                while got < len {
                    let Some(g) = s.rx.front_mut() else { break };
                    if g.at > now {
                        break;
                    }
                    let n = (len - got).min(g.data.len() - g.off);
                    out[got..got + n].copy_from_slice(&g.data[g.off..g.off + n]);
                    g.off += n;
                    got += n;
                    if g.off == g.data.len() {
                        s.rx.pop_front();
                    }
                }
                if got > 1 && short > 0 && sim().active {
                    let d = draw_env(short, got as u64) as usize;
                    if d > 0 {
                        fault("short-read");
                        // put the tail back
                        let tail = out[d..got].to_vec();
                        s.rx.push_front(Seg { at: now, data: tail, off: 0 });
                        got = d;
                    }
                }
                s.held = s.held.saturating_sub(got);
                s.read.extend_from_slice(&out[..got]);
                wake(i);
                return got as i64;
            }
        }
        if s.dead {
            let e = std::mem::take(&mut s.pending);
            if e != 0 {
                return err(e);
            }
            hit();
            return 0;
        }
        // What has arrived stays readable after the reading side was shut down.
        if s.rd_shut && !udp {
            own();
            return 0;
        }
        let next = s.rx.front().map(|g| g.at);
        if !udp && next.is_none() {
            if let Some(t) = s.eof {
                if t <= now {
                    if s.wr_shut {
                        own();
                    } else {
                        hit();
                    }
                    return 0;
                }
            }
        }
        if s.nonblock || flags & libc::MSG_DONTWAIT != 0 {
            return own_err(libc::EAGAIN);
        }
        let crash = if udp { None } else { net().cfg.crash_at };
        let eof = net().socks[i].eof;
        let d = [next, eof, crash, timeo, limit].into_iter().flatten().filter(|t| *t > now).min();
        block_on(K_NET, key(i), d);
        let now = sim().now;
        if timeo.is_some_and(|t| t <= now) && next.is_none_or(|t| t > now) {
            return own_err(libc::EAGAIN);
        }
        if limit.is_some_and(|t| t <= now) && net().socks[i].rx.front().is_none_or(|g| g.at > now) {
            fault("datagram-service-gone");
            return err(libc::ECONNREFUSED);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: usize, flags: c_int) -> isize {
    if is_sim(fd) && in_sim() {
        return do_send(fd, buf as *const u8, len) as isize;
    }
    ret(sys6(libc::SYS_sendto, fd as i64, buf as i64, len as i64, flags as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: usize, flags: c_int) -> isize {
    if is_sim(fd) && in_sim() {
        return do_recv(fd, buf as *mut u8, len, flags) as isize;
    }
    ret(sys6(libc::SYS_recvfrom, fd as i64, buf as i64, len as i64, flags as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, len: usize, flags: c_int, a: *const sockaddr, al: socklen_t) -> isize {
    if is_sim(fd) && in_sim() {
        if !a.is_null() {
            if let Some(i) = sock(fd) {
                // Addressed datagrams reach the same service.
                net().socks[i].connected = true;
                net().socks[i].remote = Some(addr_of(a));
            }
        }
        return do_send(fd, buf as *const u8, len) as isize;
    }
    ret(sys6(libc::SYS_sendto, fd as i64, buf as i64, len as i64, flags as i64, a as i64, al as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, len: usize, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> isize {
    if is_sim(fd) && in_sim() {
        let r = do_recv(fd, buf as *mut u8, len, flags);
        if r >= 0 && !a.is_null() {
            if let Some(i) = sock(fd) {
                put_addr(net().socks[i].remote.unwrap_or((0x7f000001, 1)), a, al);
            }
        }
        return r as isize;
    }
    ret(sys6(libc::SYS_recvfrom, fd as i64, buf as i64, len as i64, flags as i64, a as i64, al as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if in_sim() && n > 0 && is_sim((*fds).fd) {
        point(K_NET);
        for k in 0..n as usize {
            let p = &mut *fds.add(k);
            p.revents = p.events;
        }
        return n as c_int;
    }
    ret(sys6(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize {
    if crate::fs::is_fs(fd) && in_sim() {
        return crate::fs::fs_read(fd, buf as *mut u8, len) as isize;
    }
    if is_sim(fd) && in_sim() {
        return do_recv(fd, buf as *mut u8, len, 0) as isize;
    }
    ret(sys6(libc::SYS_read, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    if crate::fs::is_fs(fd) && in_sim() {
        return crate::fs::fs_write(fd, buf as *const u8, len) as isize;
    }
    if is_sim(fd) && in_sim() {
        return do_send(fd, buf as *const u8, len) as isize;
    }
    ret(sys6(libc::SYS_write, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if crate::fs::is_fs(fd) && in_sim() {
        for k in 0..n as usize {
            let x = &*v.add(k);
            if x.iov_len > 0 {
                return crate::fs::fs_read(fd, x.iov_base as *mut u8, x.iov_len) as isize;
            }
        }
        return 0;
    }
    if is_sim(fd) && in_sim() {
        for k in 0..n as usize {
            let x = &*v.add(k);
            if x.iov_len > 0 {
                return do_recv(fd, x.iov_base as *mut u8, x.iov_len, 0) as isize;
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if crate::fs::is_fs(fd) && in_sim() {
        for k in 0..n as usize {
            let x = &*v.add(k);
            if x.iov_len > 0 {
                return crate::fs::fs_write(fd, x.iov_base as *const u8, x.iov_len) as isize;
            }
        }
        return 0;
    }
    if is_sim(fd) && in_sim() {
        for k in 0..n as usize {
            let x = &*v.add(k);
            if x.iov_len > 0 {
                return do_send(fd, x.iov_base as *const u8, x.iov_len) as isize;
            }
        }
        return 0;
    }
    ret(sys6(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
