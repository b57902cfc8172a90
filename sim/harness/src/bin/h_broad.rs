#![allow(warnings)]
use harness::model::*;
use simrt::worker::{main as wmain, Prop};

mod bpre {
    pub use harness::bpre;
    pub use harness::model::*;
    pub use harness::pay::*;
    pub use harness::{catch, R};
    pub use mpstthree::binary::struct_trait::{end::End, recv::Recv, send::Send, session::Session};
    pub use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};
}
include!("../gen/broad.rs");

const SLOW: u64 = 200_000;
fn watched() { scenario_watched(ALL, Mix { slow_ppm: SLOW, ..CALM }, true) }
fn cancelled() { scenario_watched(ALL, Mix { slow_ppm: SLOW, ..CRASHY }, true) }
fn lost() { scenario_watched(ALL, Mix { slow_ppm: SLOW, ..CRASHY }, false) }

fn main() {
    wmain(&[
        Prop { id: "watched", f: watched, cap: 400_000 },
        Prop { id: "cancelled", f: cancelled, cap: 400_000 },
        Prop { id: "lost", f: lost, cap: 400_000 },
    ])
}
