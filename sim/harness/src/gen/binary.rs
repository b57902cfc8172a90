// Generated by sim/gen/gen.py. Do not edit.
pub mod binary_ping {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type S_0 = Send<Tok, Recv<(), End>>;
type S_1 = Recv<Tok, Send<(), End>>;
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
  pre!(h, s); h.closing(); h.closed(close(s))
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close(s))
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/ping", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 0)], END), states: &[], go };
}
pub mod binary_burst {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type S_0 = Send<u64, Send<Big, Send<(), Send<(u64, Box<Tok>), Send<u64, Recv<u8, Recv<(), Recv<(u64, Box<Tok>), End>>>>>>>>;
type S_1 = Recv<u64, Recv<Big, Recv<(), Recv<(u64, Box<Tok>), Recv<u64, Send<u8, Send<(), Send<(u64, Box<Tok>), End>>>>>>>>;
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u8>(1, &x);
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
  pre!(h, s); h.closing(); h.closed(close(s))
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
  pre!(h, s); let x = h.mk::<u8>(0); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close(s))
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/burst", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 1), (0, 1), (0, 1), (0, 1), (1, 0), (1, 0), (1, 0)], END), states: &[], go };
}
pub mod binary_cross {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type S_0 = Send<i64, Recv<String, Send<(), Send<u64, Recv<Option<Vec<u64>>, Recv<Option<Vec<u64>>, Send<u64, Recv<String, End>>>>>>>>;
type S_1 = Recv<i64, Send<String, Recv<(), Recv<u64, Send<Option<Vec<u64>>, Send<Option<Vec<u64>>, Recv<u64, Send<String, End>>>>>>>>;
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<i64>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
  pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
  pre!(h, s); h.closing(); h.closed(close(s))
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<i64>(0, &x);
  pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
  pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close(s))
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/cross", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 0), (0, 1), (0, 1), (1, 0), (1, 0), (0, 1), (1, 0)], END), states: &[], go };
}
pub mod binary_loop {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Send<i64, Recv<(), C0_0>>;
type B0_0_1 = Recv<i64, Send<(), C0_1>>;
type B0_1_0 = End;
type B0_1_1 = End;
pub enum Br0 { L0(B0_0_1), L1(B0_1_1) } unsafe impl std::marker::Send for Br0 {}
type C0_0 = Send<Br0, End>; type C0_1 = Recv<Br0, End>;
type S_0 = C0_0;
type S_1 = C0_1;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_0 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
      c0_0(s, h)
    }
    _ => { let s: B0_1_0 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<i64>(0, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
      c0_1(s, h)
    },
    Br0::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/loop", n: 2, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1), (1, 0)], 0), (&[], END)] }], go };
}
pub mod binary_server {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Recv<u64, Send<(u64, Box<Tok>), C0_0>>;
type B0_0_1 = Send<u64, Recv<(u64, Box<Tok>), C0_1>>;
type B0_1_0 = Recv<u8, Recv<i64, C1_0>>;
type B0_1_1 = Send<u8, Send<i64, C1_1>>;
type B0_2_0 = Send<Tok, End>;
type B0_2_1 = Recv<Tok, End>;
pub enum Br0 { L0(B0_0_0), L1(B0_1_0), L2(B0_2_0) } unsafe impl std::marker::Send for Br0 {}
type C0_1 = Send<Br0, End>; type C0_0 = Recv<Br0, End>;
type B1_0_0 = Send<(), C0_0>;
type B1_0_1 = Recv<(), C0_1>;
type B1_1_0 = End;
type B1_1_1 = End;
type B1_2_0 = Send<(u64, Box<Tok>), Send<u8, C1_0>>;
type B1_2_1 = Recv<(u64, Box<Tok>), Recv<u8, C1_1>>;
pub enum Br1 { L0(B1_0_1), L1(B1_1_1), L2(B1_2_1) } unsafe impl std::marker::Send for Br1 {}
type C1_0 = Send<Br1, End>; type C1_1 = Recv<Br1, End>;
type S_0 = Recv<u64, C0_0>;
type S_1 = Send<u64, C0_1>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u64>(1, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    },
    Br0::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u8>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<i64>(1, &x);
      c1_0(s, h)
    },
    Br0::L2(s) => { h.offered(1, 2);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_1 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_1(s, h)
    }
    1 => { let s: B0_1_1 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<i64>(0); let s = send(x, s); h.sent();
      c1_1(s, h)
    }
    _ => { let s: B0_2_1 = mpstthree::choose!(Br0::L2, s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c1_0(s: C1_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_0 = mpstthree::choose!(Br1::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    }
    1 => { let s: B1_1_0 = mpstthree::choose!(Br1::L1, s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B1_2_0 = mpstthree::choose!(Br1::L2, s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      c1_0(s, h)
    }
  }
}
fn c1_1(s: C1_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br1::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
      c0_1(s, h)
    },
    Br1::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br1::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      c1_1(s, h)
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u64>(1, &x);
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); let x = h.mk::<u64>(0); let s = send(x, s); h.sent();
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/server", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(1, 0)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(1, 0), (0, 1)], 0), (&[(1, 0), (1, 0)], 1), (&[(0, 1)], END)] }, State { chooser: 0, exit: 1, branches: &[(&[(0, 1)], 0), (&[], END), (&[(0, 1), (0, 1)], 1)] }], go };
}
pub mod binary_stream {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Send<Tok, Send<u64, Send<(), C0_0>>>;
type B0_0_1 = Recv<Tok, Recv<u64, Recv<(), C0_1>>>;
type B0_1_0 = Recv<Big, End>;
type B0_1_1 = Send<Big, End>;
pub enum Br0 { L0(B0_0_1), L1(B0_1_1) } unsafe impl std::marker::Send for Br0 {}
type C0_0 = Send<Br0, End>; type C0_1 = Recv<Br0, End>;
type S_0 = C0_0;
type S_1 = C0_1;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_0 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    }
    _ => { let s: B0_1_0 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
      c0_1(s, h)
    },
    Br0::L1(s) => { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/stream", n: 2, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1), (0, 1), (0, 1)], 0), (&[(1, 0)], END)] }], go };
}
pub mod binary_four {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Send<u8, C1_0>;
type B0_0_1 = Recv<u8, C1_1>;
type B0_1_0 = Recv<Option<Vec<u64>>, End>;
type B0_1_1 = Send<Option<Vec<u64>>, End>;
type B0_2_0 = Recv<String, Recv<(u64, Box<Tok>), C0_0>>;
type B0_2_1 = Send<String, Send<(u64, Box<Tok>), C0_1>>;
type B0_3_0 = Send<u8, End>;
type B0_3_1 = Recv<u8, End>;
pub enum Br0 { L0(B0_0_1), L1(B0_1_1), L2(B0_2_1), L3(B0_3_1) } unsafe impl std::marker::Send for Br0 {}
type C0_0 = Send<Br0, End>; type C0_1 = Recv<Br0, End>;
type B1_0_0 = Recv<(u64, Box<Tok>), C0_0>;
type B1_0_1 = Send<(u64, Box<Tok>), C0_1>;
type B1_1_0 = Send<(), C1_0>;
type B1_1_1 = Recv<(), C1_1>;
type B1_2_0 = End;
type B1_2_1 = End;
pub enum Br1 { L0(B1_0_0), L1(B1_1_0), L2(B1_2_0) } unsafe impl std::marker::Send for Br1 {}
type C1_1 = Send<Br1, End>; type C1_0 = Recv<Br1, End>;
type S_0 = Send<(u64, Box<Tok>), C0_0>;
type S_1 = Recv<(u64, Box<Tok>), C0_1>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_0 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      c1_0(s, h)
    }
    1 => { let s: B0_1_0 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    2 => { let s: B0_2_0 = mpstthree::choose!(Br0::L2, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_0(s, h)
    }
    _ => { let s: B0_3_0 = mpstthree::choose!(Br0::L3, s); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      c1_1(s, h)
    },
    Br0::L1(s) => { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br0::L2(s) => { h.offered(0, 2);
      pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
      c0_1(s, h)
    },
    Br0::L3(s) => { h.offered(0, 3);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c1_0(s: C1_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer!(s, {
    Br1::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_0(s, h)
    },
    Br1::L1(s) => { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
      c1_0(s, h)
    },
    Br1::L2(s) => { h.offered(1, 2);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c1_1(s: C1_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_1 = mpstthree::choose!(Br1::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
      c0_1(s, h)
    }
    1 => { let s: B1_1_1 = mpstthree::choose!(Br1::L1, s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
      c1_1(s, h)
    }
    _ => { let s: B1_2_1 = mpstthree::choose!(Br1::L2, s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/four", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1)], 1), (&[(1, 0)], END), (&[(1, 0), (1, 0)], 0), (&[(0, 1)], END)] }, State { chooser: 1, exit: 2, branches: &[(&[(1, 0)], 0), (&[(0, 1)], 1), (&[], END)] }], go };
}
pub mod binary_r0 {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Send<Tok, C1_0>;
type B0_0_1 = Recv<Tok, C1_1>;
type B0_1_0 = Send<u8, Send<String, C0_0>>;
type B0_1_1 = Recv<u8, Recv<String, C0_1>>;
type B0_2_0 = Recv<u8, Send<(), End>>;
type B0_2_1 = Send<u8, Recv<(), End>>;
type B0_3_0 = Recv<String, Recv<String, Send<(u64, Box<Tok>), Recv<Option<Vec<u64>>, End>>>>;
type B0_3_1 = Send<String, Send<String, Recv<(u64, Box<Tok>), Send<Option<Vec<u64>>, End>>>>;
pub enum Br0 { L0(B0_0_0), L1(B0_1_0), L2(B0_2_0), L3(B0_3_0) } unsafe impl std::marker::Send for Br0 {}
type C0_1 = Send<Br0, End>; type C0_0 = Recv<Br0, End>;
type B1_0_0 = Send<i64, End>;
type B1_0_1 = Recv<i64, End>;
type B1_1_0 = Send<u64, Send<Big, Recv<(u64, Box<Tok>), Send<u64, C0_0>>>>;
type B1_1_1 = Recv<u64, Recv<Big, Send<(u64, Box<Tok>), Recv<u64, C0_1>>>>;
pub enum Br1 { L0(B1_0_1), L1(B1_1_1) } unsafe impl std::marker::Send for Br1 {}
type C1_0 = Send<Br1, End>; type C1_1 = Recv<Br1, End>;
type S_0 = Recv<String, C0_0>;
type S_1 = Send<String, C0_1>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      c1_0(s, h)
    },
    Br0::L1(s) => { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<String>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    },
    Br0::L2(s) => { h.offered(1, 2);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u8>(1, &x);
      pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br0::L3(s) => { h.offered(1, 3);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_1 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      c1_1(s, h)
    }
    1 => { let s: B0_1_1 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<String>(0, &x);
      c0_1(s, h)
    }
    2 => { let s: B0_2_1 = mpstthree::choose!(Br0::L2, s); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B0_3_1 = mpstthree::choose!(Br0::L3, s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c1_0(s: C1_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_0 = mpstthree::choose!(Br1::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B1_1_0 = mpstthree::choose!(Br1::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    }
  }
}
fn c1_1(s: C1_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br1::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<i64>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br1::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      c0_1(s, h)
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/r0", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(1, 0)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(0, 1)], 1), (&[(0, 1), (0, 1)], 0), (&[(1, 0), (0, 1)], END), (&[(1, 0), (1, 0), (0, 1), (1, 0)], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 1), (0, 1), (1, 0), (0, 1)], 0)] }], go };
}
pub mod binary_r1 {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = End;
type B0_0_1 = End;
type B0_1_0 = Recv<Big, Send<Big, End>>;
type B0_1_1 = Send<Big, Recv<Big, End>>;
pub enum Br0 { L0(B0_0_1), L1(B0_1_1) } unsafe impl std::marker::Send for Br0 {}
type C0_0 = Send<Br0, End>; type C0_1 = Recv<Br0, End>;
type S_0 = Recv<u64, Send<(), C0_0>>;
type S_1 = Send<u64, Recv<(), C0_1>>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_0 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B0_1_0 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br0::L1(s) => { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u64>(1, &x);
  pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); let x = h.mk::<u64>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/r1", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(1, 0), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[], END), (&[(1, 0), (0, 1)], END)] }], go };
}
pub mod binary_r2 {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Send<u64, Recv<i64, Recv<Big, Send<u8, C0_0>>>>;
type B0_0_1 = Recv<u64, Send<i64, Send<Big, Recv<u8, C0_1>>>>;
type B0_1_0 = Recv<i64, Send<u64, Send<u8, End>>>;
type B0_1_1 = Send<i64, Recv<u64, Recv<u8, End>>>;
pub enum Br0 { L0(B0_0_0), L1(B0_1_0) } unsafe impl std::marker::Send for Br0 {}
type C0_1 = Send<Br0, End>; type C0_0 = Recv<Br0, End>;
type S_0 = Send<(u64, Box<Tok>), Send<Tok, C0_0>>;
type S_1 = Recv<(u64, Box<Tok>), Recv<Tok, C0_1>>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<i64>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      c0_0(s, h)
    },
    Br0::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<i64>(1, &x);
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_1 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); let x = h.mk::<i64>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      c0_1(s, h)
    }
    _ => { let s: B0_1_1 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/r2", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(0, 1), (1, 0), (1, 0), (0, 1)], 0), (&[(1, 0), (0, 1), (0, 1)], END)] }], go };
}
pub mod binary_r3 {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
type B0_0_0 = Recv<Option<Vec<u64>>, End>;
type B0_0_1 = Send<Option<Vec<u64>>, End>;
type B0_1_0 = Recv<i64, Send<u64, Recv<u64, C1_0>>>;
type B0_1_1 = Send<i64, Recv<u64, Send<u64, C1_1>>>;
type B0_2_0 = C0_0;
type B0_2_1 = C0_1;
type B0_3_0 = End;
type B0_3_1 = End;
pub enum Br0 { L0(B0_0_0), L1(B0_1_0), L2(B0_2_0), L3(B0_3_0) } unsafe impl std::marker::Send for Br0 {}
type C0_1 = Send<Br0, End>; type C0_0 = Recv<Br0, End>;
type B1_0_0 = Recv<Big, C2_0>;
type B1_0_1 = Send<Big, C2_1>;
type B1_1_0 = Send<Tok, Send<u64, Send<(), Recv<(u64, Box<Tok>), End>>>>;
type B1_1_1 = Recv<Tok, Recv<u64, Recv<(), Send<(u64, Box<Tok>), End>>>>;
type B1_2_0 = Send<i64, Recv<Option<Vec<u64>>, Recv<i64, C1_0>>>;
type B1_2_1 = Recv<i64, Send<Option<Vec<u64>>, Send<i64, C1_1>>>;
type B1_3_0 = Send<Big, Recv<Big, C1_0>>;
type B1_3_1 = Recv<Big, Send<Big, C1_1>>;
pub enum Br1 { L0(B1_0_1), L1(B1_1_1), L2(B1_2_1), L3(B1_3_1) } unsafe impl std::marker::Send for Br1 {}
type C1_0 = Send<Br1, End>; type C1_1 = Recv<Br1, End>;
type B2_0_0 = Recv<Big, Recv<(), Send<String, Send<u8, C2_0>>>>;
type B2_0_1 = Send<Big, Send<(), Recv<String, Recv<u8, C2_1>>>>;
type B2_1_0 = Send<u64, Send<(u64, Box<Tok>), Recv<Tok, Send<Big, End>>>>;
type B2_1_1 = Recv<u64, Recv<(u64, Box<Tok>), Send<Tok, Recv<Big, End>>>>;
type B2_2_0 = Recv<(u64, Box<Tok>), Send<i64, End>>;
type B2_2_1 = Send<(u64, Box<Tok>), Recv<i64, End>>;
pub enum Br2 { L0(B2_0_1), L1(B2_1_1), L2(B2_2_1) } unsafe impl std::marker::Send for Br2 {}
type C2_0 = Send<Br2, End>; type C2_1 = Recv<Br2, End>;
type S_0 = Send<(), Recv<(), Send<u64, Send<Big, C0_0>>>>;
type S_1 = Recv<(), Send<(), Recv<u64, Recv<Big, C0_1>>>>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer!(s, {
    Br0::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br0::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<i64>(1, &x);
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<u64>(1, &x);
      c1_0(s, h)
    },
    Br0::L2(s) => { h.offered(1, 2);
      c0_0(s, h)
    },
    Br0::L3(s) => { h.offered(1, 3);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_1 = mpstthree::choose!(Br0::L0, s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    1 => { let s: B0_1_1 = mpstthree::choose!(Br0::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); let x = h.mk::<u64>(0); let s = send(x, s); h.sent();
      c1_1(s, h)
    }
    2 => { let s: B0_2_1 = mpstthree::choose!(Br0::L2, s); h.chosen();
      c0_1(s, h)
    }
    _ => { let s: B0_3_1 = mpstthree::choose!(Br0::L3, s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c1_0(s: C1_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_0 = mpstthree::choose!(Br1::L0, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      c2_0(s, h)
    }
    1 => { let s: B1_1_0 = mpstthree::choose!(Br1::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    2 => { let s: B1_2_0 = mpstthree::choose!(Br1::L2, s); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<i64>(1, &x);
      c1_0(s, h)
    }
    _ => { let s: B1_3_0 = mpstthree::choose!(Br1::L3, s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      c1_0(s, h)
    }
  }
}
fn c1_1(s: C1_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br1::L0(s) => { h.offered(0, 0);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      c2_1(s, h)
    },
    Br1::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br1::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<i64>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<i64>(0); let s = send(x, s); h.sent();
      c1_1(s, h)
    },
    Br1::L3(s) => { h.offered(0, 3);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      c1_1(s, h)
    },
  })
}
fn c2_0(s: C2_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B2_0_0 = mpstthree::choose!(Br2::L0, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
      pre!(h, s); let x = h.mk::<String>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u8>(1); let s = send(x, s); h.sent();
      c2_0(s, h)
    }
    1 => { let s: B2_1_0 = mpstthree::choose!(Br2::L1, s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Tok>(1, &x);
      pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B2_2_0 = mpstthree::choose!(Br2::L2, s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s); let x = h.mk::<i64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c2_1(s: C2_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer!(s, {
    Br2::L0(s) => { h.offered(0, 0);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<String>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u8>(0, &x);
      c2_1(s, h)
    },
    Br2::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); let x = h.mk::<Tok>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    Br2::L2(s) => { h.offered(0, 2);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<i64>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  })
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<()>(1); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
  pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<()>(0, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/r3", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 0), (0, 1), (0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[(1, 0), (0, 1), (1, 0)], 1), (&[], 0), (&[], END)] }, State { chooser: 0, exit: 1, branches: &[(&[(1, 0)], 2), (&[(0, 1), (0, 1), (0, 1), (1, 0)], END), (&[(0, 1), (1, 0), (1, 0)], 1), (&[(0, 1), (1, 0)], 1)] }, State { chooser: 0, exit: 1, branches: &[(&[(1, 0), (1, 0), (0, 1), (0, 1)], 2), (&[(0, 1), (0, 1), (1, 0), (0, 1)], END), (&[(1, 0), (0, 1)], END)] }], go };
}
pub mod binary_eeither {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
use mpstthree::binary::{choose::*, offer::*};
type B0_0_0 = Send<u64, Recv<(), End>>;
type B0_0_1 = Recv<u64, Send<(), End>>;
type B0_1_0 = Recv<(), End>;
type B0_1_1 = Send<(), End>;
type C0_0 = Send<Either<B0_0_1, B0_1_1>, End>; type C0_1 = Recv<Either<B0_0_1, B0_1_1>, End>;
type S_0 = Send<Big, C0_0>;
type S_1 = Recv<Big, C0_1>;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_0 = choose_left::<B0_0_0, B0_1_0>(s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B0_1_0 = choose_right::<B0_0_0, B0_1_0>(s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<()>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_either(s,
    move |s: B0_0_1| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<u64>(0, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    move |s: B0_1_1| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<()>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  )
}
fn start_0(s: S_0, h: H) -> R {
  pre!(h, s); let x = h.mk::<Big>(1); let s = send(x, s); h.sent();
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Big>(0, &x);
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/eeither", n: 2, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 0)], END), (&[(1, 0)], END)] }], go };
}
pub mod binary_enested {
use crate::prelude::*; use mpstthree::binary::{send::send, recv::recv, close::close, fork::{fork, fork_with_thread_id}};
use mpstthree::binary::{choose::*, offer::*};
type B0_0_0 = Send<Option<Vec<u64>>, C1_0>;
type B0_0_1 = Recv<Option<Vec<u64>>, C1_1>;
type B0_1_0 = Recv<Big, End>;
type B0_1_1 = Send<Big, End>;
type C0_1 = Send<Either<B0_0_0, B0_1_0>, End>; type C0_0 = Recv<Either<B0_0_0, B0_1_0>, End>;
type B1_0_0 = Send<Tok, End>;
type B1_0_1 = Recv<Tok, End>;
type B1_1_0 = Send<Tok, Recv<Tok, C2_0>>;
type B1_1_1 = Recv<Tok, Send<Tok, C2_1>>;
type C1_0 = Send<Either<B1_0_1, B1_1_1>, End>; type C1_1 = Recv<Either<B1_0_1, B1_1_1>, End>;
type B2_0_0 = Recv<String, End>;
type B2_0_1 = Send<String, End>;
type B2_1_0 = End;
type B2_1_1 = End;
type C2_1 = Send<Either<B2_0_0, B2_1_0>, End>; type C2_0 = Recv<Either<B2_0_0, B2_1_0>, End>;
type S_0 = C0_0;
type S_1 = C0_1;
fn c0_0(s: C0_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_either(s,
    move |s: B0_0_0| -> R { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send(x, s); h.sent();
      c1_0(s, h)
    },
    move |s: B0_1_0| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  )
}
fn c0_1(s: C0_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_1 = choose_left::<B0_0_1, B0_1_1>(s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      c1_1(s, h)
    }
    _ => { let s: B0_1_1 = choose_right::<B0_0_1, B0_1_1>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn c1_0(s: C1_0, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_0 = choose_left::<B1_0_0, B1_1_0>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B1_1_0 = choose_right::<B1_0_0, B1_1_0>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<Tok>(1, &x);
      c2_0(s, h)
    }
  }
}
fn c1_1(s: C1_1, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_either(s,
    move |s: B1_0_1| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    move |s: B1_1_1| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); let x = h.mk::<Tok>(0); let s = send(x, s); h.sent();
      c2_1(s, h)
    },
  )
}
fn c2_0(s: C2_0, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_either(s,
    move |s: B2_0_0| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv(s)?; h.got::<String>(1, &x);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
    move |s: B2_1_0| -> R { h.offered(1, 1);
      pre!(h, s); h.closing(); h.closed(close(s))
    },
  )
}
fn c2_1(s: C2_1, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B2_0_1 = choose_left::<B2_0_1, B2_1_1>(s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(0); let s = send(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
    _ => { let s: B2_1_1 = choose_right::<B2_0_1, B2_1_1>(s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close(s))
    }
  }
}
fn start_0(s: S_0, h: H) -> R {
  c0_0(s, h)
}
fn start_1(s: S_1, h: H) -> R {
  c0_1(s, h)
}
pub fn go() {
  if alone() { match catch(|| fork(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok(s) => root_alone(0, move || H::new(0).participant(move |h| start_0(s, h))),
    Err(e) => not_forked(e) } } else {
  match catch(|| fork_with_thread_id(move |s: S_1| H::new(1).participant(move |h| start_1(s, h)))) {
    Ok((j, s)) => root_joined(0, move || H::new(0).participant(move |h| start_0(s, h)), j),
    Err(e) => not_forked(e) } }
}
pub static P: Proto = Proto { name: "binary/enested", n: 2, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(0, 1)], 1), (&[(1, 0)], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 1), (1, 0)], 2)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[], END)] }], go };
}
pub static ALL: &[&harness::model::Proto] = &[&binary_ping::P, &binary_burst::P, &binary_cross::P, &binary_loop::P, &binary_server::P, &binary_stream::P, &binary_four::P, &binary_r0::P, &binary_r1::P, &binary_r2::P, &binary_r3::P, &binary_eeither::P, &binary_enested::P];
