#![allow(warnings)]
use harness::model::*;
use simrt::worker::{main as wmain, Prop};

mod pre {
    pub use harness::ipre;
    pub use harness::prelude::*;
}
mod tpre {
    pub use either::Either;
    pub use harness::ipre;
    pub use harness::model::*;
    pub use harness::pay::*;
    pub use harness::{catch, pre, R};
    pub use mpstthree::binary::struct_trait::{end::End, session::Session};
    pub use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
    pub use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};
    pub type Clocks = std::collections::HashMap<char, std::time::Instant>;
    /// The clocks live as long as their thread's participant.
    pub fn ck(c: *mut Clocks) -> &'static mut Clocks { unsafe { &mut *c } }
    pub fn ticking(c: &mut Clocks) -> *mut Clocks {
        c.insert('a', std::time::Instant::now());
        c as *mut Clocks
    }
}
include!("../gen/inter.rs");
include!("../gen/solo.rs");

fn together() { scenario_two(ALL, CALM) }
fn failures() { scenario_two(ALL, CRASHY) }
fn timed() { scenario_two(TIMED, CALM) }
fn timed_failures() { scenario_two(TIMED, CRASHY) }
fn solos() { scenario(SOLO, CALM) }
fn forks() { scenario_two(if simrt::draw(2) == 0 { ALL } else { TIMED }, Mix { spawn_ppm: 500_000, crash_ppm: 300_000, max_choices: 2, ..CRASHY }) }

fn main() {
    wmain(&[
        Prop { id: "together", f: together, cap: 200_000 },
        Prop { id: "failures", f: failures, cap: 200_000 },
        Prop { id: "forks", f: forks, cap: 200_000 },
        Prop { id: "timed", f: timed, cap: 200_000 },
        Prop { id: "timed_failures", f: timed_failures, cap: 200_000 },
        Prop { id: "solos", f: solos, cap: 200_000 },
    ])
}
