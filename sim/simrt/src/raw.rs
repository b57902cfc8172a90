//! Raw system calls that never go through the interposed libc symbols.
use core::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn futex_wait(addr: *const u32, val: u32, timeout: Option<&libc::timespec>) -> i64 {
    let t = timeout.map_or(0, |t| t as *const _ as i64);
    sys6(libc::SYS_futex, addr as i64, 128, val as i64, t, 0, 0)
}

pub unsafe fn futex_wake(addr: *const u32, n: i64) {
    sys6(libc::SYS_futex, addr as i64, 129, n, 0, 0, 0);
}

/// Real monotonic nanoseconds (wall-clock accounting only, never seen by the code under test).
pub fn real_now() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
