#![allow(warnings)]
use harness::prelude::{Either, End, Session};
use harness::pay::*;
#[path = "../timed.rs"]
#[macro_use]
mod timed;
use timed::*;
use harness::win::Win;

use harness::R;
use mpstthree::binary_atmp::struct_trait::{recv::RecvTimed, send::SendTimed};
use simrt::worker::{main as wmain, Prop};

include!("../gen/timed.rs");

fn sends() { scenario(ALL, Mix { crash_ppm: 200_000, odd: 300, missing_ppm: 60_000, exact_only: false, spawn_ppm: 0 }) }
fn recvs() { scenario(ALL, Mix { crash_ppm: 250_000, odd: 250, missing_ppm: 60_000, exact_only: false, spawn_ppm: 0 }) }
fn resets() { scenario(ALL, Mix { crash_ppm: 50_000, odd: 120, missing_ppm: 30_000, exact_only: false, spawn_ppm: 0 }) }
fn forks() { scenario(ALL, Mix { crash_ppm: 500_000, odd: 60, missing_ppm: 30_000, exact_only: false, spawn_ppm: 200_000 }) }

fn main() {
    wmain(&[
        Prop { id: "sends", f: sends, cap: 200_000 },
        Prop { id: "recvs", f: recvs, cap: 200_000 },
        Prop { id: "resets", f: resets, cap: 200_000 },
        Prop { id: "forks", f: forks, cap: 200_000 },
    ])
}
