#![allow(warnings)]
use simrt::worker::{main as wmain, Prop};
use harness::tmulti::*;

mod pre {
    pub use either::Either;
    pub use harness::pay::*;
    pub use harness::tmulti::*;
    pub use harness::win::Win;
    pub use harness::{catch, tpre, R};
    pub use mpstthree::binary::struct_trait::{end::End, session::Session};
    pub use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
    pub use mpstthree::role::{broadcast::RoleBroadcast, end::RoleEnd, Role};
}
include!("../gen/tmulti.rs");

fn punctual() { scenario(ALL, Mix { crash_ppm: 0, odd: 0, punctual: true, spawn_ppm: 0 }) }
fn late() { scenario(ALL, Mix { crash_ppm: 0, odd: 60, punctual: false, spawn_ppm: 0 }) }
fn crashes() { scenario(ALL, Mix { crash_ppm: 500_000, odd: 20, punctual: false, spawn_ppm: 0 }) }
fn forks() { scenario(ALL, Mix { crash_ppm: 300_000, odd: 10, punctual: false, spawn_ppm: 500_000 }) }

fn main() {
    wmain(&[
        Prop { id: "punctual", f: punctual, cap: 200_000 },
        Prop { id: "late", f: late, cap: 200_000 },
        Prop { id: "crashes", f: crashes, cap: 200_000 },
        Prop { id: "forks", f: forks, cap: 200_000 },
    ])
}
