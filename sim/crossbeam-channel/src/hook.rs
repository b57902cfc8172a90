//! Scheduling hook added for the deterministic simulator in /verif/sim (the only difference from
//! the released crossbeam-channel 0.5.17): every channel operation first calls the installed
//! function, which lets the simulator preempt the calling thread. No hook installed: no effect.
use core::sync::atomic::{AtomicPtr, Ordering};

static POINT: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());
static SEED: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());

/// Installs the scheduling hook and the seed source of `Select`'s shuffle.
pub fn install(point: fn(u32), seed: fn() -> u32) {
    POINT.store(point as *mut (), Ordering::SeqCst);
    SEED.store(seed as *mut (), Ordering::SeqCst);
}

#[inline]
pub(crate) fn point(kind: u32) {
    let p = POINT.load(Ordering::Relaxed);
    if !p.is_null() {
        let f: fn(u32) = unsafe { core::mem::transmute(p) };
        f(kind)
    }
}

#[inline]
pub(crate) fn shuffle_seed() -> Option<u32> {
    let p = SEED.load(Ordering::Relaxed);
    if p.is_null() {
        return None;
    }
    let f: fn() -> u32 = unsafe { core::mem::transmute(p) };
    Some(f())
}
