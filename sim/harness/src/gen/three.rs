// Generated by sim/gen/gen.py. Do not edit.
pub mod simple_loop3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Option<Vec<u64>>, End>>, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Option<Vec<u64>>, End>>, Recv<Br0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_a_from_c, {
    Br0A::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Tok>(2, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_c, {
    Br0B::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_to_all!(s, Br0A::L0, Br0B::L0, => NameC); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_c(s, h)
    }
    _ => { let s: B0_1_C = mpstthree::choose_mpst_to_all!(s, Br0A::L1, Br0B::L1, => NameC); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/loop3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go };
}
pub mod simple_ring3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
type B0_0_A = MeshedChannels<Send<i64, Send<Br0B, End>>, Recv<Big, Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<Recv<i64, Recv<Br0B, End>>, Send<Big, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Big, Recv<Br0C, End>>, Recv<Big, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Recv<u64, Send<Br0B, End>>, Send<u8, Send<Br0C, End>>, RoleC<RoleB<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Send<u64, Recv<Br0B, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<u8, Recv<Br0C, End>>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<u8, Send<Br0B, End>>, Recv<(), Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<Recv<u8, Recv<Br0B, End>>, Send<String, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<Send<(), Recv<Br0C, End>>, Recv<String, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = mpstthree::choose_mpst_multi_to_all!(s, Br0B::L0, Br0C::L0, => NameA, MeshedChannels, 1); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Big>(2, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = mpstthree::choose_mpst_multi_to_all!(s, Br0B::L1, Br0C::L1, => NameA, MeshedChannels, 1); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<u64>(1, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = mpstthree::choose_mpst_multi_to_all!(s, Br0B::L2, Br0C::L2, => NameA, MeshedChannels, 1); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_a, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<i64>(0, &x);
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); let x = h.mk::<u64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, recv_mpst_c_from_a, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u8>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<u8>(0, &x);
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_b_to_c(x, s); h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<String>(1, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/ring3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(0, 1), (1, 2), (2, 0)], 0), (&[(0, 2), (2, 1), (1, 0)], 0), (&[], END)] }], go };
}
pub mod simple_two3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
type B0_0_A = MeshedChannels<Recv<(), End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, Send<Option<Vec<u64>>, Recv<(), Send<Br0C, End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Send<(), Recv<Br0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<Recv<Big, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, Recv<i64, End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, Send<i64, End>, RoleB<RoleEnd>, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Send<u8, Recv<Br1B, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Recv<u8, Send<Br1B, End>>, RoleB<RoleBroadcast>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Recv<String, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst!(s, recv_mpst_a_from_b, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<()>(1, &x);
      c1_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      c0_a(s, h)
    },
    Br0A::L2(s) => { h.offered(1, 2);
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L0, Br0C::L0, => NameB, MeshedChannels, 2); h.chosen();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    }
    1 => { let s: B0_1_B = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L1, Br0C::L1, => NameB, MeshedChannels, 2); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<()>(2, &x);
      c0_b(s, h)
    }
    _ => { let s: B0_2_B = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L2, Br0C::L2, => NameB, MeshedChannels, 2); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst!(s, recv_mpst_c_from_b, {
    Br0C::L0(s) => { h.offered(1, 0);
      c1_c(s, h)
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<()>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(1, 2);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_a_from_c, {
    Br1A::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      c0_a(s, h)
    },
    Br1A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br1A::L2(s) => { h.offered(2, 2);
      c1_a(s, h)
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_c, {
    Br1B::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_b(s, h)
    },
    Br1B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<i64>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br1B::L2(s) => { h.offered(2, 2);
      pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c1_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_C = mpstthree::choose_mpst_to_all!(s, Br1A::L0, Br1B::L0, => NameC); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      c0_c(s, h)
    }
    1 => { let s: B1_1_C = mpstthree::choose_mpst_to_all!(s, Br1A::L1, Br1B::L1, => NameC); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_2_C = mpstthree::choose_mpst_to_all!(s, Br1A::L2, Br1B::L2, => NameC); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<u8>(1, &x);
      c1_c(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<String>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/two3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 2)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(1, 0)], 1), (&[(1, 2), (2, 1)], 0), (&[(0, 2)], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1)], 0), (&[(2, 1)], END), (&[(1, 2)], 1)] }], go };
}
pub mod simple_split3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Tok>(1, &x);
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<i64>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
  pre!(h, s); let x = h.mk::<Tok>(0); let s = send_mpst_b_to_a(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<String>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/split3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 2), (1, 0), (2, 0)], END), states: &[], go };
}
pub mod simple_r0 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
type B0_0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Send<Big, End>, Send<(), End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<Recv<Big, End>, Send<Big, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), End>, Recv<Big, End>, RoleA<RoleB<RoleEnd>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_a_from_c, {
    Br0A::L0(s) => { h.offered(2, 0);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_c, {
    Br0B::L0(s) => { h.offered(2, 0);
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_to_all!(s, Br0A::L0, Br0B::L0, => NameC); h.chosen();
      c0_c(s, h)
    }
    _ => { let s: B0_1_C = mpstthree::choose_mpst_to_all!(s, Br0A::L1, Br0B::L1, => NameC); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<()>(0, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/r0", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[], 0), (&[(0, 2), (0, 1), (1, 2)], END)] }], go };
}
pub mod simple_r1 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
type B0_0_A = MeshedChannels<Recv<u8, End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Send<u8, End>, Recv<u64, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, Send<u64, End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<Recv<(u64, Box<Tok>), End>, Recv<(), Recv<(u64, Box<Tok>), End>>, RoleC<RoleC<RoleB<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<(u64, Box<Tok>), End>, Recv<u64, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<Send<(), Send<(u64, Box<Tok>), End>>, Send<u64, End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Send<i64, Recv<Br0A, End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<i64, Send<Br0A, End>>, Send<Br0B, End>, RoleA<RoleBroadcast>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_a_from_c, {
    Br0A::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<u8>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_c, {
    Br0B::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<u64>(2, &x);
      pre!(h, s); let x = h.mk::<u8>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<u64>(2, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_to_all!(s, Br0A::L0, Br0B::L0, => NameC); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_C = mpstthree::choose_mpst_to_all!(s, Br0A::L1, Br0B::L1, => NameC); h.chosen();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<u64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<i64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<i64>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/r1", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 2)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(2, 1), (1, 0)], END), (&[(2, 0), (2, 1), (2, 0), (1, 0)], END)] }], go };
}
pub mod simple_r2 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
type B0_0_A = MeshedChannels<End, Send<u8, End>, RoleC<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_0_C = MeshedChannels<Recv<u8, End>, End, RoleA<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type B0_1_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = mpstthree::choose_mpst_multi_to_all!(s, Br0B::L0, Br0C::L0, => NameA, MeshedChannels, 1); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_A = mpstthree::choose_mpst_multi_to_all!(s, Br0B::L1, Br0C::L1, => NameA, MeshedChannels, 1); h.chosen();
      c0_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, recv_mpst_b_from_a, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0B::L1(s) => { h.offered(0, 1);
      c0_b(s, h)
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, recv_mpst_c_from_a, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u8>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0C::L1(s) => { h.offered(0, 1);
      c0_c(s, h)
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/r2", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 2)], END), (&[], 0)] }], go };
}
pub mod simple_ec3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
use mpstthree::functionmpst::OfferMpst;
mpstthree::create_broadcast_role!(RoleAlltoA, RoleAtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_b_to_a, RoleAlltoA, NameB);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_c_to_a, RoleAlltoA, NameC);
mpstthree::create_choose_both_from_1_to_2_and_3!(choose_right_mpst_session_a_to_all, choose_left_mpst_session_a_to_all, NameB, NameC, RoleAtoAll, NameA);
mpstthree::create_broadcast_role!(RoleAlltoC, RoleCtoAll);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_a_to_c, RoleAlltoC, NameA);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_b_to_c, RoleAlltoC, NameB);
mpstthree::create_choose_both_from_3_to_1_and_2!(choose_right_mpst_session_c_to_all, choose_left_mpst_session_c_to_all, NameA, NameB, RoleCtoAll, NameC);
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, Send<Either<B1_0_B, B1_1_B>, End>>>, Recv<(u64, Box<Tok>), Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>>, RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Send<i64, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<End, Recv<Either<B0_0_A, B0_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_B, B0_1_B>, End>, RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>, NameA>;
type C1_B = MeshedChannels<Recv<Either<B1_0_B, B1_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Either<B1_0_C, B1_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, Recv<u8, Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>>, RoleC<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<u8, Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>>, Send<Either<B0_0_B, B0_1_B>, End>, RoleA<RoleA<RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_a_to_c(s,
    move |s: B0_0_A| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<u64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_b_to_c(s,
    move |s: B0_0_B| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    },
    move |s: B0_1_B| -> R { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = choose_left_mpst_session_c_to_all::<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, End, End, <RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>> as Role>::Dual, <RoleEnd as Role>::Dual, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>(s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u64>(0, &x);
      c1_c(s, h)
    }
    _ => { let s: B0_1_C = choose_right_mpst_session_c_to_all::<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, End, End, <RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>> as Role>::Dual, <RoleEnd as Role>::Dual, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>(s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_A = choose_left_mpst_session_a_to_all::<Recv<(), End>, Send<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), End>, End, Recv<i64, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_A = choose_right_mpst_session_a_to_all::<Recv<(), End>, Send<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), End>, End, Recv<i64, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_b_to_a(s,
    move |s: B1_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_B| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_c_to_a(s,
    move |s: B1_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_C| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<u8>(2, &x);
  pre!(h, s); let x = h.mk::<Tok>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Tok>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/ec3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2)], END), (&[(1, 0), (2, 1)], END)] }], go };
}
pub mod simple_eb3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
use mpstthree::functionmpst::OfferMpst;
mpstthree::create_broadcast_role!(RoleAlltoB, RoleBtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_a_to_b, RoleAlltoB, NameA);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_c_to_b, RoleAlltoB, NameC);
mpstthree::create_choose_both_from_2_to_1_and_3!(choose_right_mpst_session_b_to_all, choose_left_mpst_session_b_to_all, NameA, NameC, RoleBtoAll, NameB);
mpstthree::create_broadcast_role!(RoleAlltoC, RoleCtoAll);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_a_to_c, RoleAlltoC, NameA);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_b_to_c, RoleAlltoC, NameB);
mpstthree::create_choose_both_from_3_to_1_and_2!(choose_right_mpst_session_c_to_all, choose_left_mpst_session_c_to_all, NameA, NameB, RoleCtoAll, NameC);
type B0_0_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<(), Recv<Either<B1_0_A, B1_1_A>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Either<B1_0_B, B1_1_B>, End>, RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_a_to_b(s,
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = choose_left_mpst_session_b_to_all::<Send<(), End>, Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, Send<(), End>, End, Recv<Either<B1_0_B, B1_1_B>, End>, <RoleB<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleAlltoC<RoleEnd, RoleEnd>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = choose_right_mpst_session_b_to_all::<Send<(), End>, Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, Send<(), End>, End, Recv<Either<B1_0_B, B1_1_B>, End>, <RoleB<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleAlltoC<RoleEnd, RoleEnd>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>(s); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_c_to_b(s,
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_a_to_c(s,
    move |s: B1_0_A| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_A| -> R { h.offered(2, 1);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_b_to_c(s,
    move |s: B1_0_B| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_B| -> R { h.offered(2, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_C = choose_left_mpst_session_c_to_all::<End, Recv<String, End>, Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, End, End, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleA<RoleB<RoleEnd>>, RoleEnd>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_C = choose_right_mpst_session_c_to_all::<End, Recv<String, End>, Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, End, End, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleA<RoleB<RoleEnd>>, RoleEnd>(s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/eb3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 2), (2, 0)], END), (&[(0, 2)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (2, 1)], END), (&[(0, 1)], END)] }], go };
}
pub mod simple_ea3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
use mpstthree::functionmpst::OfferMpst;
mpstthree::create_broadcast_role!(RoleAlltoA, RoleAtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_b_to_a, RoleAlltoA, NameB);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_c_to_a, RoleAlltoA, NameC);
mpstthree::create_choose_both_from_1_to_2_and_3!(choose_right_mpst_session_a_to_all, choose_left_mpst_session_a_to_all, NameB, NameC, RoleAtoAll, NameA);
mpstthree::create_broadcast_role!(RoleAlltoB, RoleBtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_a_to_b, RoleAlltoB, NameA);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_c_to_b, RoleAlltoB, NameC);
mpstthree::create_choose_both_from_2_to_1_and_3!(choose_right_mpst_session_b_to_all, choose_left_mpst_session_b_to_all, NameA, NameC, RoleBtoAll, NameB);
type B0_0_A = MeshedChannels<Send<String, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<String, End>, Send<String, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<String, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<i64, Send<Either<B1_0_A, B1_1_A>, End>>, Recv<String, Send<Either<B1_0_C, B1_1_C>, End>>, RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Big, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
type B1_0_A = MeshedChannels<Recv<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, Recv<(), End>, RoleB<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
type B2_0_A = MeshedChannels<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, Send<u64, End>, RoleC<RoleEnd>, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<Recv<u64, End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Recv<Either<B1_0_A, B1_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type C1_C = MeshedChannels<End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type C2_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = choose_left_mpst_session_a_to_all::<Recv<String, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, Send<String, End>, Recv<(), End>, Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>> as Role>::Dual, RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_A = choose_right_mpst_session_a_to_all::<Recv<String, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, Send<String, End>, Recv<(), End>, Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>> as Role>::Dual, RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
      c1_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_b_to_a(s,
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
      pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<String>(2, &x);
      pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_c_to_a(s,
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<String>(1, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_a_to_b(s,
    move |s: B1_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<String>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_A| -> R { h.offered(1, 1);
      c2_a(s, h)
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_B = choose_left_mpst_session_b_to_all::<End, Recv<Either<B2_0_C, B2_1_C>, End>, Send<String, End>, End, Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleAlltoA<RoleEnd, RoleEnd>> as Role>::Dual, RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_B = choose_right_mpst_session_b_to_all::<End, Recv<Either<B2_0_C, B2_1_C>, End>, Send<String, End>, End, Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleAlltoA<RoleEnd, RoleEnd>> as Role>::Dual, RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c2_b(s, h)
    }
  }
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_c_to_b(s,
    move |s: B1_0_C| -> R { h.offered(1, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      c2_c(s, h)
    },
  )
}
fn c2_a(s: C2_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B2_0_A = choose_left_mpst_session_a_to_all::<End, End, Send<Option<Vec<u64>>, End>, End, End, Send<u64, End>, <RoleA<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleC<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B2_1_A = choose_right_mpst_session_a_to_all::<End, End, Send<Option<Vec<u64>>, End>, End, End, Send<u64, End>, <RoleA<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleC<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c2_b(s: C2_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_b_to_a(s,
    move |s: B2_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B2_1_B| -> R { h.offered(0, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c2_c(s: C2_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_c_to_a(s,
    move |s: B2_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B2_1_C| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/ea3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2), (2, 0)], END), (&[(0, 2), (2, 1), (1, 0)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[(1, 2)], 2)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub mod simple_re0 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_b_to_c, RoleC, NameB);
mpstthree::create_send_mpst_session_1!(send_mpst_c_to_a, RoleA, NameC);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_2!(recv_mpst_c_from_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_2!(recv_mpst_a_from_c, RoleC, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
use mpstthree::functionmpst::OfferMpst;
mpstthree::create_broadcast_role!(RoleAlltoB, RoleBtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_a_to_b, RoleAlltoB, NameA);
mpstthree::create_offer_mpst_session_2!(offer_mpst_session_c_to_b, RoleAlltoB, NameC);
mpstthree::create_choose_both_from_2_to_1_and_3!(choose_right_mpst_session_b_to_all, choose_left_mpst_session_b_to_all, NameA, NameC, RoleBtoAll, NameB);
type B0_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, Recv<(), End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, Send<(), End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, Recv<(), End>, RoleC<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<String, Recv<Big, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<Send<(), End>, Send<String, Send<Big, End>>, RoleB<RoleA<RoleB<RoleEnd>>>, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleC<RoleEnd>, RoleC<RoleC<RoleEnd>>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Big, Recv<Either<B0_0_A, B0_1_A>, End>>, Recv<(u64, Box<Tok>), End>, RoleB<RoleC<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<Big, Send<Either<B0_0_A, B0_1_A>, End>>, Send<u8, Send<Either<B0_0_C, B0_1_C>, End>>, RoleA<RoleC<RoleBtoAll<RoleC<RoleEnd>, RoleC<RoleC<RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), End>, Recv<u8, Recv<Either<B0_0_C, B0_1_C>, End>>, RoleB<RoleA<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_a_to_b(s,
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = choose_left_mpst_session_b_to_all::<End, Send<(), End>, End, Recv<(), End>, End, Recv<String, Recv<Big, End>>, <RoleEnd as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleA<RoleB<RoleEnd>>> as Role>::Dual, RoleC<RoleEnd>, RoleC<RoleC<RoleEnd>>>(s); h.chosen();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = choose_right_mpst_session_b_to_all::<End, Send<(), End>, End, Recv<(), End>, End, Recv<String, Recv<Big, End>>, <RoleEnd as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleA<RoleB<RoleEnd>>> as Role>::Dual, RoleC<RoleEnd>, RoleC<RoleC<RoleEnd>>>(s); h.chosen();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<String>(2, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Big>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_c_to_b(s,
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<()>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Big>(0, &x);
  pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_b_to_c(x, s); h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<u8>(1, &x);
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/re0", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(2, 1)], END), (&[(2, 1), (2, 0), (2, 1)], END)] }], go };
}
pub mod simple_re1 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::{close::close_mpst, fork::fork_mpst};
mpstthree::create_multiple_normal_role!(RoleA, RoleADual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameA, NameB, NameC);
mpstthree::create_send_mpst_session_1!(send_mpst_a_to_b, RoleB, NameA);
mpstthree::create_send_mpst_session_2!(send_mpst_a_to_c, RoleC, NameA);
mpstthree::create_send_mpst_session_1!(send_mpst_b_to_a, RoleA, NameB);
mpstthree::create_send_mpst_session_2!(send_mpst_c_to_b, RoleB, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_b_from_a, RoleA, NameB);
mpstthree::create_recv_mpst_session_1!(recv_mpst_c_from_a, RoleA, NameC);
mpstthree::create_recv_mpst_session_1!(recv_mpst_a_from_b, RoleB, NameA);
mpstthree::create_recv_mpst_session_2!(recv_mpst_b_from_c, RoleC, NameB);
use mpstthree::functionmpst::OfferMpst;
mpstthree::create_broadcast_role!(RoleAlltoA, RoleAtoAll);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_b_to_a, RoleAlltoA, NameB);
mpstthree::create_offer_mpst_session_1!(offer_mpst_session_c_to_a, RoleAlltoA, NameC);
mpstthree::create_choose_both_from_1_to_2_and_3!(choose_right_mpst_session_a_to_all, choose_left_mpst_session_a_to_all, NameB, NameC, RoleAtoAll, NameA);
type B0_0_A = MeshedChannels<Send<Big, End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Recv<Big, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<Recv<Big, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Big, End>, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Recv<Big, Send<u64, Recv<i64, Send<Either<B0_0_B, B0_1_B>, End>>>>, Send<u64, Send<Either<B0_0_C, B0_1_C>, End>>, RoleB<RoleC<RoleB<RoleB<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type S_B = MeshedChannels<Send<Big, Recv<u64, Send<i64, Recv<Either<B0_0_B, B0_1_B>, End>>>>, Recv<Tok, End>, RoleA<RoleC<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<Recv<u64, Recv<Either<B0_0_C, B0_1_C>, End>>, Send<Tok, End>, RoleA<RoleB<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = choose_left_mpst_session_a_to_all::<Send<(u64, Box<Tok>), End>, End, Send<Big, End>, End, Recv<Big, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_A = choose_right_mpst_session_a_to_all::<Send<(u64, Box<Tok>), End>, End, Send<Big, End>, End, Recv<Big, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_b_to_a(s,
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_c_to_a(s,
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Big>(1, &x);
  pre!(h, s); let x = h.mk::<u64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); let x = h.mk::<u64>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_b_to_a(x, s); h.sent();
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Tok>(2, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<u64>(0, &x);
  pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u64>(0, &x);
  pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_c_to_b(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "simple/re1", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(1, 0), (0, 2), (2, 1), (0, 1), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (2, 1)], END), (&[(1, 0)], END)] }], go };
}
pub mod func_loop3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Option<Vec<u64>>, End>>, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Option<Vec<u64>>, End>>, Recv<Br0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_a_to_c!(s, {
    Br0A::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Tok>(2, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_b_to_c!(s, {
    Br0B::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_c_to_all!(s, Br0A::L0, Br0B::L0); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_c(s, h)
    }
    _ => { let s: B0_1_C = mpstthree::choose_mpst_c_to_all!(s, Br0A::L1, Br0B::L1); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/loop3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go };
}
pub mod func_ring3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<i64, Send<Br0B, End>>, Recv<Big, Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<Recv<i64, Recv<Br0B, End>>, Send<Big, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Big, Recv<Br0C, End>>, Recv<Big, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Recv<u64, Send<Br0B, End>>, Send<u8, Send<Br0C, End>>, RoleC<RoleB<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Send<u64, Recv<Br0B, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<u8, Recv<Br0C, End>>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<u8, Send<Br0B, End>>, Recv<(), Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<Recv<u8, Recv<Br0B, End>>, Send<String, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<Send<(), Recv<Br0C, End>>, Recv<String, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Big>(2, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<u64>(1, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L2, Br0C::L2); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst_b_to_a!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<i64>(0, &x);
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); let x = h.mk::<u64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst_c_to_a!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u8>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<u8>(0, &x);
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_b_to_c(x, s); h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<String>(1, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/ring3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(0, 1), (1, 2), (2, 0)], 0), (&[(0, 2), (2, 1), (1, 0)], 0), (&[], END)] }], go };
}
pub mod func_two3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Recv<(), End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, Send<Option<Vec<u64>>, Recv<(), Send<Br0C, End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Send<(), Recv<Br0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<Recv<Big, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, Recv<i64, End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, Send<i64, End>, RoleB<RoleEnd>, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Send<u8, Recv<Br1B, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Recv<u8, Send<Br1B, End>>, RoleB<RoleBroadcast>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Recv<String, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst_a_to_b!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<()>(1, &x);
      c1_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      c0_a(s, h)
    },
    Br0A::L2(s) => { h.offered(1, 2);
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = mpstthree::choose_mpst_b_to_all!(s, Br0A::L0, Br0C::L0); h.chosen();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    }
    1 => { let s: B0_1_B = mpstthree::choose_mpst_b_to_all!(s, Br0A::L1, Br0C::L1); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<()>(2, &x);
      c0_b(s, h)
    }
    _ => { let s: B0_2_B = mpstthree::choose_mpst_b_to_all!(s, Br0A::L2, Br0C::L2); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst_c_to_b!(s, {
    Br0C::L0(s) => { h.offered(1, 0);
      c1_c(s, h)
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<()>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(1, 2);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_a_to_c!(s, {
    Br1A::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      c0_a(s, h)
    },
    Br1A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br1A::L2(s) => { h.offered(2, 2);
      c1_a(s, h)
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_b_to_c!(s, {
    Br1B::L0(s) => { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_b(s, h)
    },
    Br1B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<i64>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br1B::L2(s) => { h.offered(2, 2);
      pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c1_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_C = mpstthree::choose_mpst_c_to_all!(s, Br1A::L0, Br1B::L0); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      c0_c(s, h)
    }
    1 => { let s: B1_1_C = mpstthree::choose_mpst_c_to_all!(s, Br1A::L1, Br1B::L1); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_2_C = mpstthree::choose_mpst_c_to_all!(s, Br1A::L2, Br1B::L2); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<u8>(1, &x);
      c1_c(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<String>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/two3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 2)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(1, 0)], 1), (&[(1, 2), (2, 1)], 0), (&[(0, 2)], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1)], 0), (&[(2, 1)], END), (&[(1, 2)], 1)] }], go };
}
pub mod func_split3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Tok>(1, &x);
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<i64>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
  pre!(h, s); let x = h.mk::<Tok>(0); let s = send_mpst_b_to_a(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<String>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.closing(); h.closed(close_mpst(s))
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/split3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 2), (1, 0), (2, 0)], END), states: &[], go };
}
pub mod func_r0 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Send<String, End>, Recv<(), End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<Recv<String, End>, Recv<i64, Recv<i64, End>>, RoleC<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Send<(), End>, Send<i64, Send<i64, End>>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type B0_2_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Recv<i64, End>, Send<u8, Recv<Big, Recv<i64, Recv<Br0A, End>>>>, RoleC<RoleB<RoleC<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type S_B = MeshedChannels<Send<i64, End>, Recv<Big, Recv<Br0B, End>>, RoleA<RoleC<RoleC<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<Recv<u8, Send<Big, Send<i64, Send<Br0A, End>>>>, Send<Big, Send<Br0B, End>>, RoleA<RoleB<RoleA<RoleA<RoleBroadcast>>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_a_to_c!(s, {
    Br0A::L0(s) => { h.offered(2, 0);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0A::L2(s) => { h.offered(2, 2);
      c0_a(s, h)
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst_b_to_c!(s, {
    Br0B::L0(s) => { h.offered(2, 0);
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<i64>(2, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<i64>(2, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0B::L2(s) => { h.offered(2, 2);
      c0_b(s, h)
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_c_to_all!(s, Br0A::L0, Br0B::L0); h.chosen();
      c0_c(s, h)
    }
    1 => { let s: B0_1_C = mpstthree::choose_mpst_c_to_all!(s, Br0A::L1, Br0B::L1); h.chosen();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); let x = h.mk::<i64>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_2_C = mpstthree::choose_mpst_c_to_all!(s, Br0A::L2, Br0B::L2); h.chosen();
      c0_c(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Big>(2, &x);
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<i64>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Big>(2, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u8>(0, &x);
  pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_c_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/r0", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 2), (1, 0), (2, 1), (2, 0), (2, 0)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[], 0), (&[(2, 1), (2, 1), (2, 0), (0, 1)], END), (&[], 0)] }], go };
}
pub mod func_r1 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<End, Recv<u8, Recv<(), Send<i64, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<Send<u8, Send<(), Recv<i64, End>>>, Recv<Big, End>, RoleA<RoleA<RoleB<RoleA<RoleEnd>>>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<Tok, Send<(), Recv<(), End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<Recv<Tok, Recv<(), Send<(), End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<Recv<Br0A, End>, Recv<u8, End>, RoleC<RoleB<RoleEnd>>, NameA>;
type S_B = MeshedChannels<Send<Br0A, End>, Recv<u8, Send<Br0C, End>>, RoleC<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Send<u8, End>, Send<u8, Recv<Br0C, End>>, RoleB<RoleA<RoleB<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst_a_to_b!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<u8>(2, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); let x = h.mk::<i64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0A::L1(s) => { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<Tok>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = mpstthree::choose_mpst_b_to_all!(s, Br0A::L0, Br0C::L0); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = mpstthree::choose_mpst_b_to_all!(s, Br0A::L1, Br0C::L1); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst_c_to_b!(s, {
    Br0C::L0(s) => { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<u8>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<i64>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<()>(0, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<u8>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<u8>(2, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(1); let s = send_mpst_c_to_b(x, s); h.sent();
  pre!(h, s); let x = h.mk::<u8>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/r1", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 1), (2, 0)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(2, 0), (2, 0), (1, 2), (0, 2)], END), (&[(0, 2), (0, 2), (2, 0)], END)] }], go };
}
pub mod func_r2 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Recv<Option<Vec<u64>>, End>, Recv<Option<Vec<u64>>, Send<i64, End>>, RoleC<RoleB<RoleC<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<Big, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Option<Vec<u64>>, Recv<i64, End>>, Recv<Big, End>, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Send<(u64, Box<Tok>), Send<Big, Recv<(u64, Box<Tok>), Send<Br0B, End>>>>, Send<Br0C, End>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type B0_1_B = MeshedChannels<Recv<(u64, Box<Tok>), Recv<Big, Send<(u64, Box<Tok>), Recv<Br0B, End>>>>, Recv<Option<Vec<u64>>, End>, RoleA<RoleA<RoleC<RoleA<RoleA<RoleEnd>>>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br0C, End>, Send<Option<Vec<u64>>, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_2_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type B0_2_B = MeshedChannels<Recv<Br0B, End>, Recv<Tok, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<Recv<Br0C, End>, Send<Tok, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_3_A = MeshedChannels<Send<Tok, End>, End, RoleB<RoleEnd>, NameA>;
type B0_3_B = MeshedChannels<Recv<Tok, End>, End, RoleA<RoleEnd>, NameB>;
type B0_3_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B), L3(B0_3_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C), L3(B0_3_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<i64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    1 => { let s: B0_1_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_a(s, h)
    }
    2 => { let s: B0_2_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L2, Br0C::L2); h.chosen();
      c0_a(s, h)
    }
    _ => { let s: B0_3_A = mpstthree::choose_mpst_a_to_all!(s, Br0B::L3, Br0C::L3); h.chosen();
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst_b_to_a!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Tok>(2, &x);
      c0_b(s, h)
    },
    Br0B::L3(s) => { h.offered(0, 3);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst_c_to_a!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<i64>(0, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c0_c(s, h)
    },
    Br0C::L3(s) => { h.offered(0, 3);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/r2", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 0), (1, 0), (0, 2), (1, 2)], END), (&[(0, 1), (0, 1), (2, 1), (1, 0)], 0), (&[(2, 1)], 0), (&[(0, 1)], END)] }], go };
}
pub mod func_ec3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, Send<Either<B1_0_B, B1_1_B>, End>>>, Recv<(u64, Box<Tok>), Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>>, RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Send<i64, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<End, Recv<Either<B0_0_A, B0_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_B, B0_1_B>, End>, RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>, NameA>;
type C1_B = MeshedChannels<Recv<Either<B1_0_B, B1_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Either<B1_0_C, B1_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, Recv<u8, Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>>, RoleC<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<u8, Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>>, Send<Either<B0_0_B, B0_1_B>, End>, RoleA<RoleA<RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_to_a_from_c(s,
    move |s: B0_0_A| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<u64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_to_b_from_c(s,
    move |s: B0_0_B| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    },
    move |s: B0_1_B| -> R { h.offered(2, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_C = choose_left_mpst_session_c_to_all::<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, End, End, <RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>> as Role>::Dual, <RoleEnd as Role>::Dual, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>(s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u64>(0, &x);
      c1_c(s, h)
    }
    _ => { let s: B0_1_C = choose_right_mpst_session_c_to_all::<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, End, End, <RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>> as Role>::Dual, <RoleEnd as Role>::Dual, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>(s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_A = choose_left_mpst_session_a_to_all::<Recv<(), End>, Send<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), End>, End, Recv<i64, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_A = choose_right_mpst_session_a_to_all::<Recv<(), End>, Send<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), End>, End, Recv<i64, End>, End, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleB<RoleEnd>>(s); h.chosen();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_b_from_a(s,
    move |s: B1_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_B| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_c_from_a(s,
    move |s: B1_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_C| -> R { h.offered(0, 1);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<u8>(2, &x);
  pre!(h, s); let x = h.mk::<Tok>(2); let s = send_mpst_a_to_c(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s); let x = h.mk::<u8>(0); let s = send_mpst_c_to_a(x, s); h.sent();
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Tok>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/ec3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2)], END), (&[(1, 0), (2, 1)], END)] }], go };
}
pub mod func_eb3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<(), Recv<Either<B1_0_A, B1_1_A>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Either<B1_0_B, B1_1_B>, End>, RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_a_from_b(s,
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<Big>(1, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = choose_left_mpst_session_b_to_all::<Send<(), End>, Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, Send<(), End>, End, Recv<Either<B1_0_B, B1_1_B>, End>, <RoleB<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleAlltoC<RoleEnd, RoleEnd>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = choose_right_mpst_session_b_to_all::<Send<(), End>, Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, Send<(), End>, End, Recv<Either<B1_0_B, B1_1_B>, End>, <RoleB<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleAlltoC<RoleEnd, RoleEnd>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>(s); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_c_from_b(s,
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_to_a_from_c(s,
    move |s: B1_0_A| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_A| -> R { h.offered(2, 1);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  h.offer(2);
  offer_mpst_session_to_b_from_c(s,
    move |s: B1_0_B| -> R { h.offered(2, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_B| -> R { h.offered(2, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_C = choose_left_mpst_session_c_to_all::<End, Recv<String, End>, Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, End, End, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleA<RoleB<RoleEnd>>, RoleEnd>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_C = choose_right_mpst_session_c_to_all::<End, Recv<String, End>, Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, End, End, <RoleC<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleC<RoleEnd> as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleA<RoleB<RoleEnd>>, RoleEnd>(s); h.chosen();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/eb3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 2), (2, 0)], END), (&[(0, 2)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (2, 1)], END), (&[(0, 1)], END)] }], go };
}
pub mod func_ea3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<String, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<String, End>, Send<String, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<String, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<i64, Send<Either<B1_0_A, B1_1_A>, End>>, Recv<String, Send<Either<B1_0_C, B1_1_C>, End>>, RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Big, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
type B1_0_A = MeshedChannels<Recv<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, Recv<(), End>, RoleB<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
type B2_0_A = MeshedChannels<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, Send<u64, End>, RoleC<RoleEnd>, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<Recv<u64, End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Recv<Either<B1_0_A, B1_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type C1_C = MeshedChannels<End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type C2_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_A = choose_left_mpst_session_a_to_all::<Recv<String, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, Send<String, End>, Recv<(), End>, Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>> as Role>::Dual, RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<()>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_A = choose_right_mpst_session_a_to_all::<Recv<String, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, Send<String, End>, Recv<(), End>, Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, <RoleA<RoleC<RoleEnd>> as Role>::Dual, <RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>> as Role>::Dual, <RoleB<RoleA<RoleEnd>> as Role>::Dual, <RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>> as Role>::Dual, RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Big>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<i64>(1, &x);
      c1_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_b_from_a(s,
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<String>(0, &x);
      pre!(h, s); let x = h.mk::<String>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<String>(2, &x);
      pre!(h, s); let x = h.mk::<i64>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      c1_b(s, h)
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_c_from_a(s,
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<String>(1, &x);
      pre!(h, s); let x = h.mk::<()>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<Big>(0, &x);
      pre!(h, s); let x = h.mk::<String>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_a_from_b(s,
    move |s: B1_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_a_from_b(s)?; h.got::<String>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_A| -> R { h.offered(1, 1);
      c2_a(s, h)
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B1_0_B = choose_left_mpst_session_b_to_all::<End, Recv<Either<B2_0_C, B2_1_C>, End>, Send<String, End>, End, Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleAlltoA<RoleEnd, RoleEnd>> as Role>::Dual, RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<String>(0); let s = send_mpst_b_to_a(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B1_1_B = choose_right_mpst_session_b_to_all::<End, Recv<Either<B2_0_C, B2_1_C>, End>, Send<String, End>, End, Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleAlltoA<RoleEnd, RoleEnd>> as Role>::Dual, RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      c2_b(s, h)
    }
  }
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_c_from_b(s,
    move |s: B1_0_C| -> R { h.offered(1, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B1_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      c2_c(s, h)
    },
  )
}
fn c2_a(s: C2_A, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B2_0_A = choose_left_mpst_session_a_to_all::<End, End, Send<Option<Vec<u64>>, End>, End, End, Send<u64, End>, <RoleA<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleC<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B2_1_A = choose_right_mpst_session_a_to_all::<End, End, Send<Option<Vec<u64>>, End>, End, End, Send<u64, End>, <RoleA<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleEnd as Role>::Dual, <RoleA<RoleEnd> as Role>::Dual, RoleB<RoleEnd>, RoleC<RoleEnd>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<u64>(2); let s = send_mpst_a_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c2_b(s: C2_B, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_b_from_a(s,
    move |s: B2_0_B| -> R { h.offered(0, 0);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B2_1_B| -> R { h.offered(0, 1);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c2_c(s: C2_C, h: H) -> R {
  pre!(h, s);
  h.offer(0);
  offer_mpst_session_to_c_from_a(s,
    move |s: B2_0_C| -> R { h.offered(0, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B2_1_C| -> R { h.offered(0, 1);
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_c_from_a(s)?; h.got::<u64>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/ea3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2), (2, 0)], END), (&[(0, 2), (2, 1), (1, 0)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[(1, 2)], 2)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub mod func_re0 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleA<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<Send<Tok, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Recv<Tok, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleEnd>, RoleA<RoleC<RoleEnd>>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Big, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Big, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleA<RoleC<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_a_from_b(s,
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<Tok>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = choose_left_mpst_session_b_to_all::<End, End, Recv<Option<Vec<u64>>, End>, End, Recv<Tok, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleA<RoleEnd>, RoleA<RoleC<RoleEnd>>>(s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = choose_right_mpst_session_b_to_all::<End, End, Recv<Option<Vec<u64>>, End>, End, Recv<Tok, End>, Send<(), End>, <RoleB<RoleEnd> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleEnd as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, RoleA<RoleEnd>, RoleA<RoleC<RoleEnd>>>(s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Tok>(0, &x);
      pre!(h, s); let x = h.mk::<()>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_c_from_b(s,
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<()>(1, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_a_to_b(x, s); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<Big>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/re0", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 1), (1, 2)], END)] }], go };
}
pub mod func_re1 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
use mpstthree::functionmpst::{close::close_mpst, send::*, recv::*, choose::*, offer::*};
type B0_0_A = MeshedChannels<Send<(), End>, Recv<(u64, Box<Tok>), End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<(), End>, Recv<Big, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), End>, Send<Big, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Send<(), End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Recv<(), End>, Send<Option<Vec<u64>>, Send<Option<Vec<u64>>, Recv<Big, End>>>, RoleC<RoleA<RoleC<RoleC<RoleEnd>>>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Recv<Option<Vec<u64>>, Send<Big, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleC<RoleA<RoleC<RoleC<RoleEnd>>>>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type S_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleC<RoleA<RoleC<RoleC<RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_a_from_b(s,
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_a_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s); let x = h.mk::<()>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s); let x = h.mk::<()>(1); let s = send_mpst_a_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s);
  match h.choice() {
    0 => { let s: B0_0_B = choose_left_mpst_session_b_to_all::<Send<(u64, Box<Tok>), End>, End, Recv<(), End>, Recv<Big, End>, Recv<(), End>, Send<Option<Vec<u64>>, Send<Option<Vec<u64>>, Recv<Big, End>>>, <RoleC<RoleB<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleA<RoleB<RoleEnd>> as Role>::Dual, <RoleB<RoleB<RoleB<RoleEnd>>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleC<RoleA<RoleC<RoleC<RoleEnd>>>>>(s); h.chosen();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<()>(0, &x);
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Big>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
    _ => { let s: B0_1_B = choose_right_mpst_session_b_to_all::<Send<(u64, Box<Tok>), End>, End, Recv<(), End>, Recv<Big, End>, Recv<(), End>, Send<Option<Vec<u64>>, Send<Option<Vec<u64>>, Recv<Big, End>>>, <RoleC<RoleB<RoleEnd>> as Role>::Dual, <RoleB<RoleEnd> as Role>::Dual, <RoleA<RoleB<RoleEnd>> as Role>::Dual, <RoleB<RoleB<RoleB<RoleEnd>>> as Role>::Dual, RoleA<RoleC<RoleEnd>>, RoleC<RoleA<RoleC<RoleC<RoleEnd>>>>>(s); h.chosen();
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.rx(0); let (x, s) = recv_mpst_b_from_a(s)?; h.got::<()>(0, &x);
      pre!(h, s); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_mpst_b_to_c(x, s); h.sent();
      pre!(h, s); h.rx(2); let (x, s) = recv_mpst_b_from_c(s)?; h.got::<Big>(2, &x);
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s);
  h.offer(1);
  offer_mpst_session_to_c_from_b(s,
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = send_mpst_c_to_a(x, s); h.sent();
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); h.rx(1); let (x, s) = recv_mpst_c_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s); let x = h.mk::<Big>(1); let s = send_mpst_c_to_b(x, s); h.sent();
      pre!(h, s); h.closing(); h.closed(close_mpst(s))
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "func/re1", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(2, 0), (0, 1), (2, 1)], END), (&[(1, 2), (0, 1), (1, 2), (2, 1)], END)] }], go };
}
pub mod lib_split3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x); h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x); h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/split3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 2), (1, 0), (2, 0)], END), states: &[], go };
}
pub mod lib_ec3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, Send<Either<B1_0_B, B1_1_B>, End>>>, Recv<(u64, Box<Tok>), Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>>, RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Send<i64, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<End, Recv<Either<B0_0_A, B0_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_B, B0_1_B>, End>, RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>, NameA>;
type C1_B = MeshedChannels<Recv<Either<B1_0_B, B1_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Either<B1_0_C, B1_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, Recv<u8, Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>>, RoleC<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<u8, Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>>, Send<Either<B0_0_B, B0_1_B>, End>, RoleA<RoleA<RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x); h.sent();
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B0_0_B| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x); h.sent();
      c1_b(s, h)
    },
    move |s: B0_1_B| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      c1_c(s, h)
    }
    _ => { let s: B0_1_C = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x); h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/ec3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2)], END), (&[(1, 0), (2, 1)], END)] }], go };
}
pub mod lib_eb3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<(), Recv<Either<B1_0_A, B1_1_A>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Either<B1_0_B, B1_1_B>, End>, RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(2, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_C = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/eb3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 2), (2, 0)], END), (&[(0, 2)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (2, 1)], END), (&[(0, 1)], END)] }], go };
}
pub mod lib_ea3 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Send<String, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<String, End>, Send<String, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<String, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<i64, Send<Either<B1_0_A, B1_1_A>, End>>, Recv<String, Send<Either<B1_0_C, B1_1_C>, End>>, RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Big, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
type B1_0_A = MeshedChannels<Recv<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, Recv<(), End>, RoleB<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
type B2_0_A = MeshedChannels<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, Send<u64, End>, RoleC<RoleEnd>, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<Recv<u64, End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Recv<Either<B1_0_A, B1_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type C1_C = MeshedChannels<End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type C2_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      c1_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x); h.sent();
      c1_b(s, h)
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x); h.sent();
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(1, 1);
      c2_a(s, h)
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
      c2_b(s, h)
    }
  }
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      c2_c(s, h)
    },
  )
}
fn c2_a(s: C2_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B2_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B2_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c2_b(s: C2_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B2_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B2_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c2_c(s: C2_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B2_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B2_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/ea3", n: 3, cancel_sends: false, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2), (2, 0)], END), (&[(0, 2), (2, 1), (1, 0)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[(1, 2)], 2)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub mod lib_re0 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Recv<String, End>, Recv<Big, Recv<Big, Send<i64, End>>>, RoleC<RoleC<RoleA<RoleC<RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<End, Send<Big, Send<Big, Recv<i64, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Send<Tok, Send<Big, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Recv<Tok, Recv<Big, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleC<RoleB<RoleEnd>>>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Recv<Option<Vec<u64>>, Send<(u64, Box<Tok>), Send<Either<B0_0_B, B0_1_B>, End>>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleB<RoleB<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleC<RoleB<RoleEnd>>>>>>, NameA>;
type S_B = MeshedChannels<Send<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Recv<Either<B0_0_B, B0_1_B>, End>>>, Send<i64, Recv<Tok, End>>, RoleC<RoleC<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, Recv<i64, Send<Tok, End>>, RoleB<RoleB<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x); h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x); h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x); h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/re0", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(1, 2), (2, 1), (1, 0), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 1), (2, 1), (0, 1), (1, 2)], END), (&[(0, 1), (0, 2), (0, 1)], END)] }], go };
}
pub mod lib_re1 {
use crate::prelude::*;
use mpstthree::meshedchannels::MeshedChannels; use mpstthree::functionmpst::fork::fork_mpst;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, End>>, Send<(u64, Box<Tok>), Send<(u64, Box<Tok>), End>>, RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<(u64, Box<Tok>), Recv<(u64, Box<Tok>), End>>, RoleB<RoleB<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Send<u64, Recv<Big, Recv<Either<B1_0_A, B1_1_A>, End>>>, Send<(), End>, RoleB<RoleB<RoleC<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type B0_1_B = MeshedChannels<Recv<u64, Send<Big, Send<Either<B1_0_A, B1_1_A>, End>>>, Send<Either<B1_0_C, B1_1_C>, End>, RoleA<RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), End>, Recv<Either<B1_0_C, B1_1_C>, End>, RoleA<RoleAlltoB<RoleEnd, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<(), Recv<Tok, End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<(), Send<Tok, End>>, Send<(u64, Box<Tok>), End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, RoleA<RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Recv<Either<B1_0_A, B1_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleBtoAll<RoleC<RoleEnd>, RoleEnd>, NameB>;
type C1_C = MeshedChannels<End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Recv<(u64, Box<Tok>), Recv<Either<B0_0_A, B0_1_A>, End>>, Send<(), End>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Send<(u64, Box<Tok>), Send<Either<B0_0_A, B0_1_A>, End>>, Send<(u64, Box<Tok>), Send<Big, Send<Either<B0_0_C, B0_1_C>, End>>>, RoleA<RoleC<RoleC<RoleBtoAll<RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, RoleA<RoleA<RoleBtoAll<RoleC<RoleEnd>, RoleEnd>>>>>>>, NameB>;
type S_C = MeshedChannels<Recv<(), End>, Recv<(u64, Box<Tok>), Recv<Big, Recv<Either<B0_0_C, B0_1_C>, End>>>, RoleA<RoleB<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x); h.sent();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x); h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x); h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x); h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "lib/re1", n: 3, cancel_sends: false, cancel_choices: false, start: (&[(0, 2), (1, 0), (1, 2), (1, 2)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 2), (0, 1), (1, 0), (1, 2)], END), (&[(0, 1), (1, 0), (0, 2)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[(2, 1), (2, 0), (2, 0)], END), (&[], END)] }], go };
}
pub static ALL: &[&harness::model::Proto] = &[&simple_loop3::P, &simple_ring3::P, &simple_two3::P, &simple_split3::P, &simple_r0::P, &simple_r1::P, &simple_r2::P, &simple_ec3::P, &simple_eb3::P, &simple_ea3::P, &simple_re0::P, &simple_re1::P, &func_loop3::P, &func_ring3::P, &func_two3::P, &func_split3::P, &func_r0::P, &func_r1::P, &func_r2::P, &func_ec3::P, &func_eb3::P, &func_ea3::P, &func_re0::P, &func_re1::P, &lib_split3::P, &lib_ec3::P, &lib_eb3::P, &lib_ea3::P, &lib_re0::P, &lib_re1::P];
