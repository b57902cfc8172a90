//! The free-standing close functions: one mesh of any size, or several meshes at once.
//! The thread under test closes; every session it holds has its partner in a thread of its own,
//! which closes sooner or later, or fails instead.
#![allow(warnings)]
use harness::{catch, checked, R};
use mpstthree::binary::close::close;
use mpstthree::binary::struct_trait::{end::End, session::Session};
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::name::{a::NameA, b::NameB, c::NameC, Name};
use mpstthree::role::{end::RoleEnd, Role};
use simrt::worker::{main as wmain, Prop};
use std::time::Duration;

mpstthree::create_meshedchannels!(M2, 2);
mpstthree::create_meshedchannels!(M3, 3);
mpstthree::create_meshedchannels!(M4, 4);
mpstthree::create_meshedchannels!(M5, 5);
mpstthree::create_meshedchannels!(M6, 6);
mpstthree::close_mpst!(plain2, M2, 2);
mpstthree::close_mpst!(plain3, M3, 3);
mpstthree::close_mpst!(plain4, M4, 4);
mpstthree::close_mpst!(plain5, M5, 5);
mpstthree::close_mpst!(plain6, M6, 6);
mpstthree::close_mpst_cancel!(cancel2, M2, 2);
mpstthree::close_mpst_cancel!(cancel3, M3, 3);
mpstthree::close_mpst_cancel!(cancel4, M4, 4);
mpstthree::close_mpst_cancel!(cancel5, M5, 5);
mpstthree::close_mpst_cancel!(cancel6, M6, 6);
mpstthree::close_mpst_check_cancel!(check2, M2, 2);
mpstthree::close_mpst_check_cancel!(check3, M3, 3);
mpstthree::close_mpst_check_cancel!(check4, M4, 4);
mpstthree::close_mpst_check_cancel!(check5, M5, 5);
mpstthree::close_mpst_check_cancel!(check6, M6, 6);
mpstthree::close_mpst_interleaved!(inter2, M2, 2);
mpstthree::close_mpst_interleaved!(inter3, M3, 3);
mpstthree::close_mpst_interleaved!(inter4, M4, 4);

fn stack() -> RoleEnd {
    <RoleEnd as Role>::new().0
}
fn na() -> NameA {
    <NameA as Name>::new().0
}
macro_rules! mesh {
    ($m:ident, $e:expr, $($s:ident)*) => { $m { $($s: $e.next().unwrap(),)* stack: stack(), name: na() } };
}
type Ends = std::vec::IntoIter<End>;
fn m2(e: &mut Ends) -> M2<End, RoleEnd, NameA> {
    mesh!(M2, e, session1)
}
fn m3(e: &mut Ends) -> M3<End, End, RoleEnd, NameA> {
    mesh!(M3, e, session1 session2)
}
fn m4(e: &mut Ends) -> M4<End, End, End, RoleEnd, NameA> {
    mesh!(M4, e, session1 session2 session3)
}
fn m5(e: &mut Ends) -> M5<End, End, End, End, RoleEnd, NameA> {
    mesh!(M5, e, session1 session2 session3 session4)
}
fn m6(e: &mut Ends) -> M6<End, End, End, End, End, RoleEnd, NameA> {
    mesh!(M6, e, session1 session2 session3 session4 session5)
}

struct Way {
    name: &'static str,
    /// Sessions it closes.
    ends: usize,
    go: fn(&mut Ends) -> R,
}
macro_rules! ways {
    ($($n:literal $k:literal $f:expr;)*) => { &[$(Way { name: $n, ends: $k, go: $f }),*] };
}
const WAYS: &[Way] = ways! {
    "plain/2" 1 |e| plain2(m2(e)); "plain/3" 2 |e| plain3(m3(e)); "plain/4" 3 |e| plain4(m4(e)); "plain/5" 4 |e| plain5(m5(e)); "plain/6" 5 |e| plain6(m6(e));
    "cancel/2" 1 |e| cancel2(m2(e)); "cancel/3" 2 |e| cancel3(m3(e)); "cancel/4" 3 |e| cancel4(m4(e)); "cancel/5" 4 |e| cancel5(m5(e)); "cancel/6" 5 |e| cancel6(m6(e));
    "check/2" 1 |e| check2(m2(e)); "check/3" 2 |e| check3(m3(e)); "check/4" 3 |e| check4(m4(e)); "check/5" 4 |e| check5(m5(e)); "check/6" 5 |e| check6(m6(e));
    "three" 2 |e| mpstthree::functionmpst::close::close_mpst(MeshedChannels { session1: e.next().unwrap(), session2: e.next().unwrap(), stack: stack(), name: na() });
};
const MANY: &[Way] = ways! {
    "interleaved/2" 2 |e| { let (a, b) = (m2(e), m2(e)); inter2(a, b) };
    "interleaved/3" 6 |e| { let (a, b, c) = (m3(e), m3(e), m3(e)); inter3(a, b, c) };
    "interleaved/4" 12 |e| { let (a, b, c, d) = (m4(e), m4(e), m4(e), m4(e)); inter4(a, b, c, d) };
    "interleaved/three" 6 |e| {
        let mut m = || MeshedChannels { session1: e.next().unwrap(), session2: e.next().unwrap(), stack: stack(), name: na() };
        let (a, b, c) = (m(), m(), m());
        mpstthree::interleaved::close::close_mpst_interleaved(a, b, c)
    };
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Do {
    Close,
    Drop,
    Panic,
    Err,
}
struct Partner {
    what: Do,
    began: bool,
    gone: bool,
    result: Option<bool>,
}
struct Run {
    p: Vec<Partner>,
    began: bool,
    left: bool,
}
static mut RUN: Option<Run> = None;
#[allow(static_mut_refs)]
fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().unwrap() }
}
fn nap() {
    if simrt::draw(3) > 0 {
        std::thread::sleep(Duration::from_nanos([1u64, 1_000, 1_000_000_000, 60_000_000_000, 7_200_000_000_000][simrt::draw(5) as usize]));
    }
}

fn partner(i: usize, s: End) -> R {
    nap();
    let me = &mut run().p[i];
    match me.what {
        Do::Close => {
            me.began = true;
            simrt::note(|| format!("partner {} begins to close", i));
            let r = close(s);
            checked();
            me.result = Some(r.is_ok());
            simrt::note(|| format!("partner {} closed: {}", i, r.is_ok()));
            if r.is_ok() && !run().began {
                simrt::violate("early-close", format!("partner {} closed before the other side began to", i));
            }
            if r.is_err() && !run().left && !run().p.iter().any(|p| p.gone) {
                simrt::violate("spurious-failure", format!("partner {} could not close: {}", i, r.as_ref().err().unwrap()));
            }
            r
        }
        d => {
            simrt::note(|| format!("FAULT: partner {} does not close: {:?}", i, d));
            me.gone = true;
            match d {
                Do::Panic => {
                    simrt::fault("participant-panic");
                    harness::blow_up()
                }
                Do::Err => {
                    simrt::fault("participant-error-return");
                    Err(harness::failure())
                }
                _ => {
                    simrt::fault("participant-cancel");
                    mpstthree::binary::cancel::cancel(s);
                    nap();
                    Ok(())
                }
            }
        }
    }
}

fn scenario(ways: &'static [Way], fail: u64) {
    let w = &ways[simrt::draw(ways.len() as u64) as usize];
    simrt::probe(w.name);
    let failing = fail > 0 && simrt::draw_p(fail, 2) == 1;
    let bad = if failing { simrt::draw(w.ends as u64) as usize } else { usize::MAX };
    let leave = fail > 0 && simrt::draw_p(150_000, 2) == 1;
    let p: Vec<Partner> = (0..w.ends)
        .map(|i| {
            let what = if i == bad || (failing && simrt::draw(5) == 1) { [Do::Drop, Do::Panic, Do::Err][simrt::draw(3) as usize] } else { Do::Close };
            Partner { what, began: false, gone: false, result: None }
        })
        .collect();
    unsafe { RUN = Some(Run { p, began: false, left: false }) }
    let mut mine = vec![];
    let mut js = vec![];
    for i in 0..w.ends {
        let (a, b) = End::new();
        mine.push(a);
        js.push(std::thread::spawn(move || {
            let _ = catch(|| partner(i, b));
        }));
    }
    nap();
    if leave {
        simrt::fault("participant-cancel");
        simrt::note(|| "FAULT: nobody closes here".into());
        run().left = true;
        drop(mine);
    } else {
        run().began = true;
        simrt::note(|| format!("{} begins", w.name));
        let r = catch(|| (w.go)(&mut mine.into_iter()));
        run().left = true;
        checked();
        let ok = matches!(r, Ok(Ok(())));
        simrt::note(|| format!("{} ends: {}", w.name, ok));
        let missing: Vec<usize> = (0..w.ends).filter(|i| !run().p[*i].began).collect();
        let gone: Vec<usize> = (0..w.ends).filter(|i| run().p[*i].gone).collect();
        if ok && !missing.is_empty() {
            simrt::violate("early-close", format!("{}: closing succeeded although the partners {:?} did not begin to close (stopped: {:?})", w.name, missing, gone));
        }
        if !ok && gone.is_empty() {
            simrt::violate("spurious-failure", format!("{}: closing failed although no partner failed", w.name));
        }
    }
    for j in js {
        let _ = j.join();
    }
    simrt::probe("closed");
}

fn single() { scenario(WAYS, 500_000) }
fn several() { scenario(MANY, 500_000) }

fn main() {
    wmain(&[
        Prop { id: "single", f: single, cap: 200_000 },
        Prop { id: "several", f: several, cap: 200_000 },
    ])
}
