//! Shared workload / oracle code of the simulated harnesses.
#![allow(static_mut_refs)]
pub mod model;
pub mod pay;
pub mod tmulti;
pub mod win;

use std::any::Any;

pub use model::END;

pub type R = Result<(), Box<dyn std::error::Error>>;

#[derive(Debug)]
pub struct Injected(pub &'static str);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected: {}", self.0)
    }
}
impl std::error::Error for Injected {}

/// Counts one oracle comparison.
pub fn checked() {
    simrt::probe("checks");
}

pub fn ensure(cond: bool, class: &str, msg: impl FnOnce() -> String) {
    checked();
    if !cond {
        simrt::violate(class, msg());
    }
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

/// Suppresses panic output (stderr is /dev/null in a batch; this also saves the formatting time).
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub mod prelude {
    pub use crate::model::*;
    pub use crate::pay::*;
    pub use crate::{catch, pre, R};
    pub use either::Either;
    pub use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    pub use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};
}

pub fn injected() -> R {
    Err(failure())
}

/// The error a failing participant returns: of several types, texts and kinds (a function of the seed).
pub fn failure() -> Box<dyn std::error::Error> {
    use std::io::{Error, ErrorKind::*};
    let k = mix(simrt::engine::sim().seed, 0xfa11);
    match k % 24 {
        0 => Box::new(std::fmt::Error),
        1 => "".into(),
        2 => "x".repeat(5000).into(),
        3 => "injected\nerror {} {:?} %s \u{0}".into(),
        4 => Box::new(crossbeam_channel::RecvError),
        5 => Box::new(crossbeam_channel::RecvTimeoutError::Timeout),
        6 => Box::new(crossbeam_channel::SendError("Stop")),
        7 => Box::new(std::sync::mpsc::RecvError),
        8 => {
            let kinds = [UnexpectedEof, TimedOut, WouldBlock, Interrupted, ConnectionReset, ConnectionAborted, BrokenPipe, NotConnected];
            Box::new(Error::from(kinds[(k >> 32) as usize % kinds.len()]))
        }
        9 => {
            let words = ["Stop", "Cancel", "cancelled", "Timeout", "end", "closed", "disconnected", "Ok(())"];
            words[(k >> 32) as usize % words.len()].into()
        }
        _ => Box::new(Injected("error return")),
    }
}

/// The panic of a failing participant: payloads of several types (a function of the seed).
pub fn blow_up() -> ! {
    let k = mix(simrt::engine::sim().seed, 0xb10);
    match k % 12 {
        0 => panic!(""),
        1 => panic!("{}", "x".repeat(5000)),
        2 => std::panic::panic_any(k),
        3 => std::panic::resume_unwind(Box::new(())),
        4 => std::panic::panic_any(Injected("payload")),
        5 => {
            let r: Result<(), _> = Err(failure());
            r.unwrap();
            unreachable!()
        }
        _ => panic!("injected panic"),
    }
}
