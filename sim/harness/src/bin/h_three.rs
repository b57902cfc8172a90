#![allow(warnings)]
use harness::model::*;
use harness::prelude;
use simrt::worker::{main as wmain, Prop};

include!("../gen/three.rs");

fn fidelity() { scenario(ALL, CALM) }
fn choices() { scenario(ALL, Mix { choices_only: true, max_choices: 12, ..CALM }) }
fn crashes() { scenario(ALL, CRASHY) }
fn closes() { scenario(ALL, Mix { crash_ppm: 600_000, late_ppm: 700_000, max_choices: 2, ..CRASHY }) }
fn dead_sends() { scenario(ALL, Mix { cancel_ppm: 900_000, ..CRASHY }) }
fn forks() { scenario(ALL, Mix { spawn_ppm: 500_000, crash_ppm: 400_000, max_choices: 2, ..CRASHY }) }

fn main() {
    wmain(&[
        Prop { id: "fidelity", f: fidelity, cap: 200_000 },
        Prop { id: "choices", f: choices, cap: 200_000 },
        Prop { id: "crashes", f: crashes, cap: 200_000 },
        Prop { id: "closes", f: closes, cap: 200_000 },
        Prop { id: "dead_sends", f: dead_sends, cap: 200_000 },
        Prop { id: "forks", f: forks, cap: 200_000 },
    ])
}
