//! libc symbols the Rust standard library (and everything built on it) reaches the system through.
//! Defining them in the executable overrides the shared libc. On a thread that is not simulated
//! they behave exactly like the originals.
use crate::engine::*;
use crate::raw::sys6;
use libc::{c_char, c_int, c_long, c_void, timespec};
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! real {
    ($cell:ident, $name:literal, $ty:ty) => {{
        static $cell: AtomicUsize = AtomicUsize::new(0);
        let mut p = $cell.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            $cell.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $ty>(p)
    }};
}
pub(crate) use real;

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;

pub unsafe fn real_pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    real!(PC, "pthread_create", CreateFn)(t, a, f, arg)
}
pub unsafe fn real_pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    real!(PJ, "pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int)(t, r)
}

struct StartArg {
    id: u32,
    token: &'static std::sync::atomic::AtomicU32,
    f: Start,
    arg: *mut c_void,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let a = unsafe { Box::from_raw(p as *mut StartArg) };
    let StartArg { id, token, f, arg } = *a;
    task_start(id, token);
    let r = f(arg);
    task_exit(id);
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    if !in_sim() {
        return real_pthread_create(t, a, f, arg);
    }
    {
        let e = &mut sim().env;
        if e.spawn_fail_in > 0 {
            e.spawn_fail_in -= 1;
            if e.spawn_fail_in == 0 {
                fault("thread-creation-failure");
                return libc::EAGAIN;
            }
        }
    }
    let id = new_task();
    let b = Box::into_raw(Box::new(StartArg { id, token: token_of(id), f, arg }));
    let rc = real_pthread_create(t, a, trampoline, b as *mut c_void);
    if rc != 0 {
        crate::raw::write_all(2, b"HARNESS: real pthread_create failed\n");
        libc::_exit(9);
    }
    sim().tasks[id as usize].pthread = *t as usize;
    point(K_SPAWN);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, r: *mut *mut c_void) -> c_int {
    if in_sim() {
        // The newest task with this pthread id (ids are reused once joined).
        let id = sim().tasks.iter().rposition(|x| x.pthread == t as usize);
        if let Some(id) = id {
            point(K_JOIN);
            while sim().tasks[id].st != St::Done {
                block_on(K_JOIN, JOIN_KEY | id as u64, None);
            }
        }
    }
    real_pthread_join(t, r)
}

fn ts_ns(t: &timespec) -> u64 {
    (t.tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return futex(a, b, c, d, f);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

unsafe fn futex(addr: c_long, op: c_long, val: c_long, timeout: c_long, _bits: c_long) -> c_long {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            let cur = std::ptr::read_volatile(addr as *const u32);
            if cur != val as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            let spur = sim().env.spurious_ppm;
            if spur > 0 && sim().active && draw_env(spur, 2) == 1 {
                fault("spurious-wakeup");
                point(K_FUTEX_WAIT);
                return 0;
            }
            let deadline = if timeout == 0 {
                None
            } else {
                let t = ts_ns(&*(timeout as *const timespec));
                Some(if cmd == 0 {
                    sim().now.saturating_add(t)
                } else if op & 256 != 0 {
                    t.saturating_sub(BASE_REAL)
                } else {
                    t.saturating_sub(BASE_MONO)
                })
            };
            match block_on(K_FUTEX_WAIT, addr as u64, deadline) {
                Wake::Notified => 0,
                Wake::TimedOut => {
                    set_errno(libc::ETIMEDOUT);
                    -1
                }
            }
        }
        1 | 10 => {
            let n = if val < 0 || val > i32::MAX as i64 { usize::MAX } else { val as usize };
            let w = wake_key(addr as u64, n);
            w as c_long
        }
        _ => {
            crate::raw::write_all(2, b"HARNESS: unsupported futex operation\n");
            libc::_exit(9);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    if !in_sim() {
        return ret(sys6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in out.chunks_mut(8) {
        let w = sim().env_word().to_le_bytes();
        ch.copy_from_slice(&w[..ch.len()]);
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if in_sim() {
        let base = match clk {
            libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE => Some(BASE_MONO),
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(BASE_REAL),
            _ => None,
        };
        if let Some(b) = base {
            point(K_CLOCK);
            let s = sim();
            s.now += s.env.clock_tick;
            let t = b + s.now;
            (*ts).tv_sec = (t / 1_000_000_000) as i64;
            (*ts).tv_nsec = (t % 1_000_000_000) as i64;
            return 0;
        }
    }
    ret(sys6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_sleep(until: u64) {
    let s = sim();
    if until <= s.now {
        point(K_SLEEP);
    } else {
        block_on(K_SLEEP, SLEEP_KEY | me() as u64, Some(until));
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        let t = ts_ns(&*req);
        let until = if flags & libc::TIMER_ABSTIME != 0 {
            t.saturating_sub(if clk == libc::CLOCK_REALTIME { BASE_REAL } else { BASE_MONO })
        } else {
            sim().now.saturating_add(t)
        };
        sim_sleep(until);
        return 0;
    }
    -(sys6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if in_sim() {
        sim_sleep(sim().now.saturating_add(ts_ns(&*req)));
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        point(K_YIELD);
        return 0;
    }
    ret(sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

fn cb_point(k: u32) {
    if in_sim() {
        point(k)
    }
}
fn cb_seed() -> u32 {
    if in_sim() {
        sim().env_word() as u32
    } else {
        1_406_868_647
    }
}
pub fn install() {
    crossbeam_channel::hook::install(cb_point, cb_seed);
}
