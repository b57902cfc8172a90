// Generated by sim/gen/gen_broad.py. Do not edit.
pub mod b0 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi!(close_all, fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<(u64, Box<Tok>), Send<u64, End>>, Recv<u8, Recv<(u64, Box<Tok>), End>>, RoleC<RoleD<RoleC<RoleD<RoleEnd>>>>, NameB>;
type AS_C = Mesh<End, Recv<(u64, Box<Tok>), Recv<u64, End>>, Send<(u64, Box<Tok>), Send<Option<Vec<u64>>, End>>, RoleB<RoleD<RoleB<RoleD<RoleEnd>>>>, NameC>;
type AS_D = Mesh<End, Send<u8, Send<(u64, Box<Tok>), End>>, Recv<(u64, Box<Tok>), Recv<Option<Vec<u64>>, End>>, RoleC<RoleB<RoleC<RoleB<RoleEnd>>>>, NameD>;
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<u8>(3, &x);
  bpre!(h, s, cancel_b); let x = h.mk::<u64>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
  bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_c_to_d(x, s)?; h.sent();
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<u64>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(3); let s = send_c_to_d(x, s)?; h.sent();
  bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
  bpre!(h, s, cancel_d); let x = h.mk::<u8>(1); let s = send_d_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
  bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_d_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/ring", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 2), (2, 3), (3, 1), (1, 2), (2, 3), (3, 1)], END), states: &[], go };
}
pub mod b1 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi_cancel!(close_all, fork_mpst, Mesh, 3);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | => NameB, Mesh, 3);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | => NameB, Mesh, 3);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 3, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | => NameC, Mesh, 3);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | => NameC, Mesh, 3);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 3, "C gives up");
type AS_Z = Mesh<End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<String, Recv<i64, Send<i64, Recv<Tok, End>>>>, RoleC<RoleC<RoleC<RoleC<RoleEnd>>>>, NameB>;
type AS_C = Mesh<End, Recv<String, Send<i64, Recv<i64, Send<Tok, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameC>;
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 3)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<String>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
  bpre!(h, s, cancel_b); let x = h.mk::<i64>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Tok>(2, &x);
  bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<String>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<i64>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<Tok>(1); let s = send_c_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/pair", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(1, 2), (2, 1), (1, 2), (2, 1)], END), states: &[], go };
}
pub mod b2 {
use super::bpre::*;
mpstthree::create_meshedchannels!(Mesh, 4);
mpstthree::close_mpst_check_cancel!(close_all, Mesh, 4);
mpstthree::fork_mpst_multi!(fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AB0_0_B = Mesh<End, Send<Big, Recv<String, End>>, Recv<i64, Send<(), Recv<(End, ABr0B), End>>>, RoleD<RoleD<RoleC<RoleC<RoleD<RoleEnd>>>>>, NameB>;
type AB0_0_C = Mesh<End, Recv<Big, Send<String, End>>, Recv<Tok, Send<Option<Vec<u64>>, Recv<(End, ABr0C), End>>>, RoleB<RoleB<RoleD<RoleD<RoleD<RoleEnd>>>>>, NameC>;
type AB0_0_D = Mesh<End, Send<i64, Recv<(), Send<(End, ABr0B), End>>>, Send<Tok, Recv<Option<Vec<u64>>, Send<(End, ABr0C), End>>>, RoleB<RoleB<RoleC<RoleC<RoleBroadcast>>>>, NameD>;
type AB0_1_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, End, RoleEnd, NameC>;
type AB0_1_D = Mesh<End, End, End, RoleEnd, NameD>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
type AC0_B = Mesh<End, End, Recv<(End, ABr0B), End>, RoleD<RoleEnd>, NameB>;
type AC0_C = Mesh<End, End, Recv<(End, ABr0C), End>, RoleD<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, RoleBroadcast, NameD>;
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, End, Recv<(End, ABr0B), End>, RoleD<RoleEnd>, NameB>;
type AS_C = Mesh<End, End, Recv<(End, ABr0C), End>, RoleD<RoleEnd>, NameC>;
type AS_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, RoleBroadcast, NameD>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, => L0, L1, => AB0_0_D, AB0_1_D, => ABr0B, ABr0C, => NameB, NameC, => NameZ, NameD, Mesh, 4);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
    ABr0B::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<i64>(3, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<()>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<Big>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<String>(2, &x);
      c0_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
    ABr0C::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Big>(1, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<String>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<Tok>(3, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(3); let s = send_c_to_d(x, s)?; h.sent();
      c0_c(s, h)
    },
    ABr0C::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  match h.choice() {
    0 => { let s: AB0_0_D = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<i64>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<()>(1, &x);
      bpre!(h, s, cancel_d); let x = h.mk::<Tok>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      c0_d(s, h)
    }
    _ => { let s: AB0_1_D = choose_0_1(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
  }
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/loop", n: 4, cancel_sends: true, cancel_choices: true, start: (&[], 0), states: &[State { chooser: 3, exit: 1, branches: &[(&[(3, 1), (1, 3), (1, 2), (2, 1), (3, 2), (2, 3)], 0), (&[], END)] }], go };
}
pub mod b3 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi_cancel!(close_all, fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AB0_0_B = Mesh<End, Recv<(End, ABr1B), End>, Send<Big, End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<End, Send<(End, ABr1B), End>, Recv<Big, Send<(End, ABr1D), End>>, RoleD<RoleBroadcast>, NameC>;
type AB0_0_D = Mesh<End, Recv<Big, End>, Send<Big, Recv<(End, ABr1D), End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameD>;
type AB0_1_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, Send<Big, End>, RoleD<RoleEnd>, NameC>;
type AB0_1_D = Mesh<End, End, Recv<Big, End>, RoleC<RoleEnd>, NameD>;
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_B = Mesh<End, Send<(End, ABr0C), End>, Send<(End, ABr0D), End>, RoleBroadcast, NameB>;
type AC0_C = Mesh<End, Recv<(End, ABr0C), End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Recv<(End, ABr0D), End>, End, RoleB<RoleEnd>, NameD>;
type AB1_0_B = Mesh<End, Recv<Option<Vec<u64>>, Send<(End, ABr0C), End>>, Send<(End, ABr0D), End>, RoleC<RoleBroadcast>, NameB>;
type AB1_0_C = Mesh<End, Send<Option<Vec<u64>>, Recv<(End, ABr0C), End>>, End, RoleB<RoleB<RoleEnd>>, NameC>;
type AB1_0_D = Mesh<End, Recv<(End, ABr0D), End>, End, RoleB<RoleEnd>, NameD>;
type AB1_1_B = Mesh<End, Send<String, End>, Recv<u64, End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB1_1_C = Mesh<End, Recv<String, End>, End, RoleB<RoleEnd>, NameC>;
type AB1_1_D = Mesh<End, Send<u64, End>, End, RoleB<RoleEnd>, NameD>;
pub enum ABr1B { L0(AB1_0_B), L1(AB1_1_B) } unsafe impl std::marker::Send for ABr1B {}
pub enum ABr1D { L0(AB1_0_D), L1(AB1_1_D) } unsafe impl std::marker::Send for ABr1D {}
type AC1_B = Mesh<End, Recv<(End, ABr1B), End>, End, RoleC<RoleEnd>, NameB>;
type AC1_C = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1D), End>, RoleBroadcast, NameC>;
type AC1_D = Mesh<End, End, Recv<(End, ABr1D), End>, RoleC<RoleEnd>, NameD>;
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<(u64, Box<Tok>), Send<(End, ABr0C), End>>, Send<(End, ABr0D), End>, RoleC<RoleBroadcast>, NameB>;
type AS_C = Mesh<End, Recv<(u64, Box<Tok>), Recv<(End, ABr0C), End>>, End, RoleB<RoleB<RoleEnd>>, NameC>;
type AS_D = Mesh<End, Recv<(End, ABr0D), End>, End, RoleB<RoleEnd>, NameD>;
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  match h.choice() {
    0 => { let s: AB0_0_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0C::L0, ABr0D::L0, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      bpre!(h, s, cancel_b); let x = h.mk::<Big>(3); let s = send_b_to_d(x, s)?; h.sent();
      c1_b(s, h)
    }
    _ => { let s: AB0_1_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0C::L1, ABr0D::L1, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_b, {
    ABr0C::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<Big>(3, &x);
      c1_c(s, h)
    },
    ABr0C::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_c); let x = h.mk::<Big>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_b, {
    ABr0D::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<Big>(1, &x);
      bpre!(h, s, cancel_d); let x = h.mk::<Big>(2); let s = send_d_to_c(x, s)?; h.sent();
      c1_d(s, h)
    },
    ABr0D::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Big>(2, &x);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_b(s: AC1_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_c, {
    ABr1B::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      c0_b(s, h)
    },
    ABr1B::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<u64>(3, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<String>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_c(s: AC1_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  match h.choice() {
    0 => { let s: AB1_0_C = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1B::L0, ABr1D::L0, => NameB, NameD, => NameZ, NameC, Mesh, 3); h.chosen();
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_c_to_b(x, s)?; h.sent();
      c0_c(s, h)
    }
    _ => { let s: AB1_1_C = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1B::L1, ABr1D::L1, => NameB, NameD, => NameZ, NameC, Mesh, 3); h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<String>(1, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c1_d(s: AC1_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_c, {
    ABr1D::L0(s) => { h.offered(2, 0);
      c0_d(s, h)
    },
    ABr1D::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_d); let x = h.mk::<u64>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
  })
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_b_to_c(x, s)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/relay", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 2)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 3), (3, 2)], 1), (&[(2, 3)], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 1)], 0), (&[(3, 1), (1, 2)], END)] }], go };
}
pub mod b4 {
use super::bpre::*;
mpstthree::create_meshedchannels!(Mesh, 5);
mpstthree::close_mpst_check_cancel!(close_all, Mesh, 5);
mpstthree::fork_mpst_multi!(fork_mpst, Mesh, 5);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual | RoleE, RoleEDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD, NameE);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | send_b_to_e, RoleE, 4 | => NameB, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | recv_b_from_e, RoleE, 4 | => NameB, Mesh, 5);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 5, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | send_c_to_e, RoleE, 4 | => NameC, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | recv_c_from_e, RoleE, 4 | => NameC, Mesh, 5);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 5, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | send_d_to_e, RoleE, 4 | => NameD, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | recv_d_from_e, RoleE, 4 | => NameD, Mesh, 5);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 5, "D gives up");
mpstthree::create_send_check_cancel_bundle!(send_e_to_b, RoleB, 2 | send_e_to_c, RoleC, 3 | send_e_to_d, RoleD, 4 | => NameE, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_e_from_b, RoleB, 2 | recv_e_from_c, RoleC, 3 | recv_e_from_d, RoleD, 4 | => NameE, Mesh, 5);
mpstthree::send_cancel!(cancel_e, NameE, Mesh, 5, "E gives up");
type AB0_0_B = Mesh<End, Recv<i64, Recv<(End, ABr0B), End>>, Send<u8, End>, End, RoleC<RoleD<RoleC<RoleEnd>>>, NameB>;
type AB0_0_C = Mesh<End, Send<i64, Send<(End, ABr0B), End>>, Send<(End, ABr0D), End>, Send<(), Send<(End, ABr0E), End>>, RoleB<RoleE<RoleBroadcast>>, NameC>;
type AB0_0_D = Mesh<End, Recv<u8, End>, Recv<(End, ABr0D), End>, Recv<Big, End>, RoleE<RoleB<RoleC<RoleEnd>>>, NameD>;
type AB0_0_E = Mesh<End, End, Recv<(), Recv<(End, ABr0E), End>>, Send<Big, End>, RoleC<RoleD<RoleC<RoleEnd>>>, NameE>;
type AB0_1_B = Mesh<End, Send<Big, End>, Recv<String, End>, End, RoleC<RoleD<RoleEnd>>, NameB>;
type AB0_1_C = Mesh<End, Recv<Big, End>, End, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = Mesh<End, Send<String, End>, End, End, RoleB<RoleEnd>, NameD>;
type AB0_1_E = Mesh<End, End, End, End, RoleEnd, NameE>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
pub enum ABr0E { L0(AB0_0_E), L1(AB0_1_E) } unsafe impl std::marker::Send for ABr0E {}
type AC0_B = Mesh<End, Recv<(End, ABr0B), End>, End, End, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0D), End>, Send<(End, ABr0E), End>, RoleBroadcast, NameC>;
type AC0_D = Mesh<End, End, Recv<(End, ABr0D), End>, End, RoleC<RoleEnd>, NameD>;
type AC0_E = Mesh<End, End, Recv<(End, ABr0E), End>, End, RoleC<RoleEnd>, NameE>;
type AS_Z = Mesh<End, End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<String, Recv<(End, ABr0B), End>>, End, Recv<(u64, Box<Tok>), End>, RoleC<RoleE<RoleC<RoleEnd>>>, NameB>;
type AS_C = Mesh<End, Recv<String, Send<(End, ABr0B), End>>, Send<Option<Vec<u64>>, Send<(End, ABr0D), End>>, Send<(End, ABr0E), End>, RoleB<RoleD<RoleBroadcast>>, NameC>;
type AS_D = Mesh<End, End, Recv<Option<Vec<u64>>, Recv<(End, ABr0D), End>>, Send<i64, End>, RoleC<RoleE<RoleC<RoleEnd>>>, NameD>;
type AS_E = Mesh<End, Send<(u64, Box<Tok>), End>, Recv<(End, ABr0E), End>, Recv<i64, End>, RoleD<RoleB<RoleC<RoleEnd>>>, NameE>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, => L0, L1, => AB0_0_C, AB0_1_C, => ABr0B, ABr0D, ABr0E, => NameB, NameD, NameE, => NameZ, NameC, Mesh, 3);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_c, {
    ABr0B::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<u8>(3); let s = send_b_to_d(x, s)?; h.sent();
      c0_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_b); let x = h.mk::<Big>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<String>(3, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<()>(4); let s = send_c_to_e(x, s)?; h.sent();
      c0_c(s, h)
    }
    _ => { let s: AB0_1_C = choose_0_1(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Big>(1, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_c, {
    ABr0D::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_d); h.rx(4); let (x, s) = recv_d_from_e(s)?; h.got::<Big>(4, &x);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<u8>(1, &x);
      c0_d(s, h)
    },
    ABr0D::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_d); let x = h.mk::<String>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_e(s: AC0_E, h: H) -> R {
  bpre!(h, s, cancel_e);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_e_from_c, {
    ABr0E::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_e); h.rx(2); let (x, s) = recv_e_from_c(s)?; h.got::<()>(2, &x);
      bpre!(h, s, cancel_e); let x = h.mk::<Big>(3); let s = send_e_to_d(x, s)?; h.sent();
      c0_e(s, h)
    },
    ABr0E::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_e); h.closing(); h.closed(close_all(s))
    },
  })
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 5)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<String>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(4); let (x, s) = recv_b_from_e(s)?; h.got::<(u64, Box<Tok>)>(4, &x);
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<String>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(3); let s = send_c_to_d(x, s)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
  bpre!(h, s, cancel_d); let x = h.mk::<i64>(4); let s = send_d_to_e(x, s)?; h.sent();
  c0_d(s, h)
}
fn start_e(s: AS_E, h: H) -> R {
  bpre!(h, s, cancel_e); h.rx(3); let (x, s) = recv_e_from_d(s)?; h.got::<i64>(3, &x);
  bpre!(h, s, cancel_e); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_e_to_b(x, s)?; h.sent();
  c0_e(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h)), move |s: AS_E| H::new(4).participant(move |h| start_e(s, h))));
  match f { Ok((j0, j1, j2, j3, j4,)) => joined(vec![j0, j1, j2, j3, j4]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/five", n: 5, cancel_sends: true, cancel_choices: true, start: (&[(1, 2), (2, 3), (3, 4), (4, 1)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 1), (2, 4), (4, 3), (1, 3)], 0), (&[(1, 2), (3, 1)], END)] }], go };
}
pub mod b5 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi_cancel!(close_all, fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AB0_0_B = Mesh<End, Recv<Option<Vec<u64>>, Send<(), End>>, Recv<(u64, Box<Tok>), Recv<(End, ABr1B), End>>, RoleC<RoleD<RoleC<RoleD<RoleEnd>>>>, NameB>;
type AB0_0_C = Mesh<End, Send<Option<Vec<u64>>, Recv<(), End>>, Recv<u64, Recv<(End, ABr1C), End>>, RoleD<RoleB<RoleB<RoleD<RoleEnd>>>>, NameC>;
type AB0_0_D = Mesh<End, Send<(u64, Box<Tok>), Send<(End, ABr1B), End>>, Send<u64, Send<(End, ABr1C), End>>, RoleC<RoleB<RoleBroadcast>>, NameD>;
type AB0_1_B = Mesh<End, Send<(u64, Box<Tok>), End>, Recv<String, Recv<(), End>>, RoleC<RoleD<RoleD<RoleEnd>>>, NameB>;
type AB0_1_C = Mesh<End, Recv<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = Mesh<End, Send<String, Send<(), End>>, End, RoleB<RoleB<RoleEnd>>, NameD>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_B = Mesh<End, Recv<(End, ABr0B), End>, End, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0D), End>, RoleBroadcast, NameC>;
type AC0_D = Mesh<End, End, Recv<(End, ABr0D), End>, RoleC<RoleEnd>, NameD>;
type AB1_0_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB1_0_C = Mesh<End, End, End, RoleEnd, NameC>;
type AB1_0_D = Mesh<End, End, End, RoleEnd, NameD>;
type AB1_1_B = Mesh<End, End, Recv<i64, Recv<(End, ABr1B), End>>, RoleD<RoleD<RoleEnd>>, NameB>;
type AB1_1_C = Mesh<End, End, Send<Tok, Send<Option<Vec<u64>>, Recv<(End, ABr1C), End>>>, RoleD<RoleD<RoleD<RoleEnd>>>, NameC>;
type AB1_1_D = Mesh<End, Send<i64, Send<(End, ABr1B), End>>, Recv<Tok, Recv<Option<Vec<u64>>, Send<(End, ABr1C), End>>>, RoleB<RoleC<RoleC<RoleBroadcast>>>, NameD>;
type AB1_2_B = Mesh<End, Recv<i64, End>, End, RoleC<RoleEnd>, NameB>;
type AB1_2_C = Mesh<End, Send<i64, End>, Send<(u64, Box<Tok>), End>, RoleB<RoleD<RoleEnd>>, NameC>;
type AB1_2_D = Mesh<End, End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameD>;
type AB1_3_B = Mesh<End, Recv<Option<Vec<u64>>, End>, Send<Big, Recv<(End, ABr1B), End>>, RoleC<RoleD<RoleD<RoleEnd>>>, NameB>;
type AB1_3_C = Mesh<End, Send<Option<Vec<u64>>, End>, Recv<u64, Recv<(End, ABr1C), End>>, RoleB<RoleD<RoleD<RoleEnd>>>, NameC>;
type AB1_3_D = Mesh<End, Recv<Big, Send<(End, ABr1B), End>>, Send<u64, Send<(End, ABr1C), End>>, RoleC<RoleB<RoleBroadcast>>, NameD>;
pub enum ABr1B { L0(AB1_0_B), L1(AB1_1_B), L2(AB1_2_B), L3(AB1_3_B) } unsafe impl std::marker::Send for ABr1B {}
pub enum ABr1C { L0(AB1_0_C), L1(AB1_1_C), L2(AB1_2_C), L3(AB1_3_C) } unsafe impl std::marker::Send for ABr1C {}
type AC1_B = Mesh<End, End, Recv<(End, ABr1B), End>, RoleD<RoleEnd>, NameB>;
type AC1_C = Mesh<End, End, Recv<(End, ABr1C), End>, RoleD<RoleEnd>, NameC>;
type AC1_D = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1C), End>, RoleBroadcast, NameD>;
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<Option<Vec<u64>>, Send<Tok, Recv<i64, Recv<(End, ABr0B), End>>>>, End, RoleC<RoleC<RoleC<RoleC<RoleEnd>>>>, NameB>;
type AS_C = Mesh<End, Recv<Option<Vec<u64>>, Recv<Tok, Send<i64, Send<(End, ABr0B), End>>>>, Recv<(u64, Box<Tok>), Send<(End, ABr0D), End>>, RoleB<RoleD<RoleB<RoleB<RoleBroadcast>>>>, NameC>;
type AS_D = Mesh<End, End, Send<(u64, Box<Tok>), Recv<(End, ABr0D), End>>, RoleC<RoleC<RoleEnd>>, NameD>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, => L0, L1, => AB0_0_C, AB0_1_C, => ABr0B, ABr0D, => NameB, NameD, => NameZ, NameC, Mesh, 3);
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_1_0, choose_1_1, choose_1_2, choose_1_3, => L0, L1, L2, L3, => AB1_0_D, AB1_1_D, AB1_2_D, AB1_3_D, => ABr1B, ABr1C, => NameB, NameC, => NameZ, NameD, Mesh, 4);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_c, {
    ABr0B::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<()>(2); let s = send_b_to_c(x, s)?; h.sent();
      c1_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<String>(3, &x);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<()>(3, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<u64>(3, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<()>(1, &x);
      c1_c(s, h)
    }
    _ => { let s: AB0_1_C = choose_0_1(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_c, {
    ABr0D::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_d); let x = h.mk::<u64>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_d_to_b(x, s)?; h.sent();
      c1_d(s, h)
    },
    ABr0D::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_d); let x = h.mk::<String>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); let x = h.mk::<()>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_b(s: AC1_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
    ABr1B::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr1B::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<i64>(3, &x);
      c1_b(s, h)
    },
    ABr1B::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr1B::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<Big>(3); let s = send_b_to_d(x, s)?; h.sent();
      c1_b(s, h)
    },
  })
}
fn c1_c(s: AC1_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
    ABr1C::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr1C::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_c); let x = h.mk::<Tok>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(3); let s = send_c_to_d(x, s)?; h.sent();
      c1_c(s, h)
    },
    ABr1C::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr1C::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<u64>(3, &x);
      c1_c(s, h)
    },
  })
}
fn c1_d(s: AC1_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  match h.choice() {
    0 => { let s: AB1_0_D = choose_1_0(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB1_1_D = choose_1_1(s)?; h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<i64>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Tok>(2, &x);
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      c1_d(s, h)
    }
    2 => { let s: AB1_2_D = choose_1_2(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
    _ => { let s: AB1_3_D = choose_1_3(s)?; h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<u64>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<Big>(1, &x);
      c1_d(s, h)
    }
  }
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<Option<Vec<u64>>>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); let x = h.mk::<Tok>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
  bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Tok>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_d_to_c(x, s)?; h.sent();
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r0", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 2), (3, 2), (1, 2), (2, 1)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(3, 2), (2, 1), (3, 1), (1, 2)], 1), (&[(1, 2), (3, 1), (3, 1)], END)] }, State { chooser: 3, exit: 0, branches: &[(&[], END), (&[(3, 1), (2, 3), (2, 3)], 1), (&[(2, 1), (2, 3)], END), (&[(2, 1), (3, 2), (1, 3)], 1)] }], go };
}
pub mod b6 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi!(close_all, fork_mpst, Mesh, 3);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | => NameB, Mesh, 3);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | => NameB, Mesh, 3);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 3, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | => NameC, Mesh, 3);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | => NameC, Mesh, 3);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 3, "C gives up");
type AB0_0_B = Mesh<End, Recv<(), Send<u8, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<End, Send<(), Recv<u8, End>>, RoleB<RoleB<RoleEnd>>, NameC>;
type AB0_1_B = Mesh<End, Send<Big, Recv<i64, Send<String, Send<Tok, End>>>>, RoleC<RoleC<RoleC<RoleC<RoleEnd>>>>, NameB>;
type AB0_1_C = Mesh<End, Recv<Big, Send<i64, Recv<String, Recv<Tok, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameC>;
type AB0_2_B = Mesh<End, Send<String, Recv<(), Recv<(u64, Box<Tok>), Recv<String, End>>>>, RoleC<RoleC<RoleC<RoleC<RoleEnd>>>>, NameB>;
type AB0_2_C = Mesh<End, Recv<String, Send<(), Send<(u64, Box<Tok>), Send<String, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameC>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_B = Mesh<End, Recv<(End, ABr0B), End>, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<End, Send<(End, ABr0B), End>, RoleBroadcast, NameC>;
type AS_Z = Mesh<End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<i64, Recv<(), Recv<u8, Recv<(), Recv<(), Recv<(End, ABr0B), End>>>>>>, RoleC<RoleC<RoleC<RoleC<RoleC<RoleC<RoleEnd>>>>>>, NameB>;
type AS_C = Mesh<End, Recv<i64, Send<(), Send<u8, Send<(), Send<(), Send<(End, ABr0B), End>>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>>, NameC>;
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_c, {
    ABr0B::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<()>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<u8>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_b); let x = h.mk::<Big>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<String>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<Tok>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr0B::L2(s) => { h.offered(2, 2);
      bpre!(h, s, cancel_b); let x = h.mk::<String>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<()>(2, &x);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<String>(2, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  match h.choice() {
    0 => { let s: AB0_0_C = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L0, => NameB, => NameZ, NameC, Mesh, 3); h.chosen();
      bpre!(h, s, cancel_c); let x = h.mk::<()>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<u8>(1, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB0_1_C = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L1, => NameB, => NameZ, NameC, Mesh, 3); h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Big>(1, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<String>(1, &x);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Tok>(1, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
    _ => { let s: AB0_2_C = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L2, => NameB, => NameZ, NameC, Mesh, 3); h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<String>(1, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<()>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<String>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
  }
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 3)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<i64>(2); let s = send_b_to_c(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<()>(2, &x);
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<u8>(2, &x);
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<()>(2, &x);
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<()>(2, &x);
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<i64>(1, &x);
  bpre!(h, s, cancel_c); let x = h.mk::<()>(1); let s = send_c_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_c); let x = h.mk::<u8>(1); let s = send_c_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_c); let x = h.mk::<()>(1); let s = send_c_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_c); let x = h.mk::<()>(1); let s = send_c_to_b(x, s)?; h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r1", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(1, 2), (2, 1), (2, 1), (2, 1), (2, 1)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(2, 1), (1, 2)], END), (&[(1, 2), (2, 1), (1, 2), (1, 2)], END), (&[(1, 2), (2, 1), (2, 1), (2, 1)], END)] }], go };
}
pub mod b7 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi_cancel!(close_all, fork_mpst, Mesh, 5);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual | RoleE, RoleEDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD, NameE);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | send_b_to_e, RoleE, 4 | => NameB, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | recv_b_from_e, RoleE, 4 | => NameB, Mesh, 5);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 5, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | send_c_to_e, RoleE, 4 | => NameC, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | recv_c_from_e, RoleE, 4 | => NameC, Mesh, 5);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 5, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | send_d_to_e, RoleE, 4 | => NameD, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | recv_d_from_e, RoleE, 4 | => NameD, Mesh, 5);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 5, "D gives up");
mpstthree::create_send_check_cancel_bundle!(send_e_to_b, RoleB, 2 | send_e_to_c, RoleC, 3 | send_e_to_d, RoleD, 4 | => NameE, Mesh, 5);
mpstthree::create_recv_mpst_session_bundle!(recv_e_from_b, RoleB, 2 | recv_e_from_c, RoleC, 3 | recv_e_from_d, RoleD, 4 | => NameE, Mesh, 5);
mpstthree::send_cancel!(cancel_e, NameE, Mesh, 5, "E gives up");
type AB0_0_B = Mesh<End, Recv<(End, ABr0B), End>, End, End, RoleC<RoleEnd>, NameB>;
type AB0_0_C = Mesh<End, Send<(End, ABr0B), End>, Send<(u64, Box<Tok>), Send<(End, ABr0D), End>>, Recv<(), Send<(End, ABr0E), End>>, RoleE<RoleD<RoleBroadcast>>, NameC>;
type AB0_0_D = Mesh<End, End, Recv<(u64, Box<Tok>), Recv<(End, ABr0D), End>>, End, RoleC<RoleC<RoleEnd>>, NameD>;
type AB0_0_E = Mesh<End, End, Send<(), Recv<(End, ABr0E), End>>, End, RoleC<RoleC<RoleEnd>>, NameE>;
type AB0_1_B = Mesh<End, End, End, Recv<(), End>, RoleE<RoleEnd>, NameB>;
type AB0_1_C = Mesh<End, End, End, End, RoleEnd, NameC>;
type AB0_1_D = Mesh<End, End, End, End, RoleEnd, NameD>;
type AB0_1_E = Mesh<End, Send<(), End>, End, End, RoleB<RoleEnd>, NameE>;
type AB0_2_B = Mesh<End, Send<u8, Recv<(End, ABr0B), End>>, End, Recv<i64, Send<(u64, Box<Tok>), End>>, RoleE<RoleC<RoleE<RoleC<RoleEnd>>>>, NameB>;
type AB0_2_C = Mesh<End, Recv<u8, Send<(End, ABr0B), End>>, Send<(End, ABr0D), End>, Send<(End, ABr0E), End>, RoleB<RoleBroadcast>, NameC>;
type AB0_2_D = Mesh<End, End, Recv<(End, ABr0D), End>, Recv<u8, End>, RoleE<RoleC<RoleEnd>>, NameD>;
type AB0_2_E = Mesh<End, Send<i64, Recv<(u64, Box<Tok>), End>>, Recv<(End, ABr0E), End>, Send<u8, End>, RoleD<RoleB<RoleB<RoleC<RoleEnd>>>>, NameE>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D), L2(AB0_2_D) } unsafe impl std::marker::Send for ABr0D {}
pub enum ABr0E { L0(AB0_0_E), L1(AB0_1_E), L2(AB0_2_E) } unsafe impl std::marker::Send for ABr0E {}
type AC0_B = Mesh<End, Recv<(End, ABr0B), End>, End, End, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0D), End>, Send<(End, ABr0E), End>, RoleBroadcast, NameC>;
type AC0_D = Mesh<End, End, Recv<(End, ABr0D), End>, End, RoleC<RoleEnd>, NameD>;
type AC0_E = Mesh<End, End, Recv<(End, ABr0E), End>, End, RoleC<RoleEnd>, NameE>;
type AS_Z = Mesh<End, End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Recv<(End, ABr0B), End>, Recv<Option<Vec<u64>>, End>, Send<Option<Vec<u64>>, End>, RoleD<RoleE<RoleC<RoleEnd>>>, NameB>;
type AS_C = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0D), End>, Send<String, Recv<String, Send<(End, ABr0E), End>>>, RoleE<RoleE<RoleBroadcast>>, NameC>;
type AS_D = Mesh<End, Send<Option<Vec<u64>>, End>, Recv<(End, ABr0D), End>, Send<(u64, Box<Tok>), End>, RoleB<RoleE<RoleC<RoleEnd>>>, NameD>;
type AS_E = Mesh<End, Recv<Option<Vec<u64>>, End>, Recv<String, Send<String, Recv<(End, ABr0E), End>>>, Recv<(u64, Box<Tok>), End>, RoleC<RoleB<RoleD<RoleC<RoleC<RoleEnd>>>>>, NameE>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, choose_0_2, => L0, L1, L2, => AB0_0_C, AB0_1_C, AB0_2_C, => ABr0B, ABr0D, ABr0E, => NameB, NameD, NameE, => NameZ, NameC, Mesh, 3);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_c, {
    ABr0B::L0(s) => { h.offered(2, 0);
      c0_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_b); h.rx(4); let (x, s) = recv_b_from_e(s)?; h.got::<()>(4, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr0B::L2(s) => { h.offered(2, 2);
      bpre!(h, s, cancel_b); h.rx(4); let (x, s) = recv_b_from_e(s)?; h.got::<i64>(4, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<u8>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(4); let s = send_b_to_e(x, s)?; h.sent();
      c0_b(s, h)
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.rx(4); let (x, s) = recv_c_from_e(s)?; h.got::<()>(4, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_c_to_d(x, s)?; h.sent();
      c0_c(s, h)
    }
    1 => { let s: AB0_1_C = choose_0_1(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    }
    _ => { let s: AB0_2_C = choose_0_2(s)?; h.chosen();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<u8>(1, &x);
      c0_c(s, h)
    }
  }
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_c, {
    ABr0D::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      c0_d(s, h)
    },
    ABr0D::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
    ABr0D::L2(s) => { h.offered(2, 2);
      bpre!(h, s, cancel_d); h.rx(4); let (x, s) = recv_d_from_e(s)?; h.got::<u8>(4, &x);
      c0_d(s, h)
    },
  })
}
fn c0_e(s: AC0_E, h: H) -> R {
  bpre!(h, s, cancel_e);
  h.offer(2);
  mpstthree::offer_cancel_mpst!(s, recv_e_from_c, {
    ABr0E::L0(s) => { h.offered(2, 0);
      bpre!(h, s, cancel_e); let x = h.mk::<()>(2); let s = send_e_to_c(x, s)?; h.sent();
      c0_e(s, h)
    },
    ABr0E::L1(s) => { h.offered(2, 1);
      bpre!(h, s, cancel_e); let x = h.mk::<()>(1); let s = send_e_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_e); h.closing(); h.closed(close_all(s))
    },
    ABr0E::L2(s) => { h.offered(2, 2);
      bpre!(h, s, cancel_e); let x = h.mk::<u8>(3); let s = send_e_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_e); let x = h.mk::<i64>(1); let s = send_e_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_e); h.rx(1); let (x, s) = recv_e_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_e(s, h)
    },
  })
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 5)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<Option<Vec<u64>>>(3, &x);
  bpre!(h, s, cancel_b); let x = h.mk::<Option<Vec<u64>>>(4); let s = send_b_to_e(x, s)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); let x = h.mk::<String>(4); let s = send_c_to_e(x, s)?; h.sent();
  bpre!(h, s, cancel_c); h.rx(4); let (x, s) = recv_c_from_e(s)?; h.got::<String>(4, &x);
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_d_to_b(x, s)?; h.sent();
  bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(4); let s = send_d_to_e(x, s)?; h.sent();
  c0_d(s, h)
}
fn start_e(s: AS_E, h: H) -> R {
  bpre!(h, s, cancel_e); h.rx(2); let (x, s) = recv_e_from_c(s)?; h.got::<String>(2, &x);
  bpre!(h, s, cancel_e); h.rx(1); let (x, s) = recv_e_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
  bpre!(h, s, cancel_e); h.rx(3); let (x, s) = recv_e_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
  bpre!(h, s, cancel_e); let x = h.mk::<String>(2); let s = send_e_to_c(x, s)?; h.sent();
  c0_e(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h)), move |s: AS_E| H::new(4).participant(move |h| start_e(s, h))));
  match f { Ok((j0, j1, j2, j3, j4,)) => joined(vec![j0, j1, j2, j3, j4]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r2", n: 5, cancel_sends: true, cancel_choices: true, start: (&[(3, 1), (2, 4), (1, 4), (3, 4), (4, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(4, 2), (2, 3)], 0), (&[(4, 1)], END), (&[(4, 3), (4, 1), (1, 2), (1, 4)], 0)] }], go };
}
pub mod b8 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi!(close_all, fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AB0_0_B = Mesh<End, End, Recv<(u64, Box<Tok>), Send<u8, Recv<i64, End>>>, RoleD<RoleD<RoleD<RoleEnd>>>, NameB>;
type AB0_0_C = Mesh<End, End, Send<Tok, End>, RoleD<RoleEnd>, NameC>;
type AB0_0_D = Mesh<End, Send<(u64, Box<Tok>), Recv<u8, Send<i64, End>>>, Recv<Tok, End>, RoleB<RoleC<RoleB<RoleB<RoleEnd>>>>, NameD>;
type AB0_1_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, End, RoleEnd, NameC>;
type AB0_1_D = Mesh<End, End, End, RoleEnd, NameD>;
type AB0_2_B = Mesh<End, End, Recv<(End, ABr1B), End>, RoleD<RoleEnd>, NameB>;
type AB0_2_C = Mesh<End, End, Recv<(End, ABr1C), End>, RoleD<RoleEnd>, NameC>;
type AB0_2_D = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1C), End>, RoleBroadcast, NameD>;
type AB0_3_B = Mesh<End, Send<i64, End>, End, RoleC<RoleEnd>, NameB>;
type AB0_3_C = Mesh<End, Recv<i64, End>, Recv<u8, End>, RoleB<RoleD<RoleEnd>>, NameC>;
type AB0_3_D = Mesh<End, End, Send<u8, End>, RoleC<RoleEnd>, NameD>;
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C), L3(AB0_3_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D), L2(AB0_2_D), L3(AB0_3_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_B = Mesh<End, Send<(End, ABr0C), End>, Send<(End, ABr0D), End>, RoleBroadcast, NameB>;
type AC0_C = Mesh<End, Recv<(End, ABr0C), End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Recv<(End, ABr0D), End>, End, RoleB<RoleEnd>, NameD>;
type AB1_0_B = Mesh<End, Recv<String, Send<(u64, Box<Tok>), Send<(End, ABr0C), End>>>, Send<(End, ABr0D), End>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type AB1_0_C = Mesh<End, Send<String, Recv<(u64, Box<Tok>), Recv<(End, ABr0C), End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type AB1_0_D = Mesh<End, Recv<(End, ABr0D), End>, End, RoleB<RoleEnd>, NameD>;
type AB1_1_B = Mesh<End, Send<(), Send<u64, Recv<(u64, Box<Tok>), End>>>, Recv<(End, ABr1B), End>, RoleC<RoleC<RoleC<RoleD<RoleEnd>>>>, NameB>;
type AB1_1_C = Mesh<End, Recv<(), Recv<u64, Send<(u64, Box<Tok>), End>>>, Recv<(End, ABr1C), End>, RoleB<RoleB<RoleB<RoleD<RoleEnd>>>>, NameC>;
type AB1_1_D = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1C), End>, RoleBroadcast, NameD>;
type AB1_2_B = Mesh<End, End, Recv<(End, ABr1B), End>, RoleD<RoleEnd>, NameB>;
type AB1_2_C = Mesh<End, End, Recv<(End, ABr1C), End>, RoleD<RoleEnd>, NameC>;
type AB1_2_D = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1C), End>, RoleBroadcast, NameD>;
type AB1_3_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB1_3_C = Mesh<End, End, Send<(u64, Box<Tok>), Recv<u8, End>>, RoleD<RoleD<RoleEnd>>, NameC>;
type AB1_3_D = Mesh<End, End, Recv<(u64, Box<Tok>), Send<u8, End>>, RoleC<RoleC<RoleEnd>>, NameD>;
pub enum ABr1B { L0(AB1_0_B), L1(AB1_1_B), L2(AB1_2_B), L3(AB1_3_B) } unsafe impl std::marker::Send for ABr1B {}
pub enum ABr1C { L0(AB1_0_C), L1(AB1_1_C), L2(AB1_2_C), L3(AB1_3_C) } unsafe impl std::marker::Send for ABr1C {}
type AC1_B = Mesh<End, End, Recv<(End, ABr1B), End>, RoleD<RoleEnd>, NameB>;
type AC1_C = Mesh<End, End, Recv<(End, ABr1C), End>, RoleD<RoleEnd>, NameC>;
type AC1_D = Mesh<End, Send<(End, ABr1B), End>, Send<(End, ABr1C), End>, RoleBroadcast, NameD>;
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Recv<String, Send<(End, ABr0C), End>>, Send<i64, Send<(End, ABr0D), End>>, RoleD<RoleC<RoleBroadcast>>, NameB>;
type AS_C = Mesh<End, Send<String, Recv<(End, ABr0C), End>>, End, RoleB<RoleB<RoleEnd>>, NameC>;
type AS_D = Mesh<End, Recv<i64, Recv<(End, ABr0D), End>>, End, RoleB<RoleB<RoleEnd>>, NameD>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, choose_0_2, choose_0_3, => L0, L1, L2, L3, => AB0_0_B, AB0_1_B, AB0_2_B, AB0_3_B, => ABr0C, ABr0D, => NameC, NameD, => NameZ, NameB, Mesh, 2);
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_1_0, choose_1_1, choose_1_2, choose_1_3, => L0, L1, L2, L3, => AB1_0_D, AB1_1_D, AB1_2_D, AB1_3_D, => ABr1B, ABr1C, => NameB, NameC, => NameZ, NameD, Mesh, 4);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  match h.choice() {
    0 => { let s: AB0_0_B = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<u8>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<i64>(3, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB0_1_B = choose_0_1(s)?; h.chosen();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
    2 => { let s: AB0_2_B = choose_0_2(s)?; h.chosen();
      c1_b(s, h)
    }
    _ => { let s: AB0_3_B = choose_0_3(s)?; h.chosen();
      bpre!(h, s, cancel_b); let x = h.mk::<i64>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_b, {
    ABr0C::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_c); let x = h.mk::<Tok>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr0C::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr0C::L2(s) => { h.offered(1, 2);
      c1_c(s, h)
    },
    ABr0C::L3(s) => { h.offered(1, 3);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<i64>(1, &x);
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<u8>(3, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_b, {
    ABr0D::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Tok>(2, &x);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<u8>(1, &x);
      bpre!(h, s, cancel_d); let x = h.mk::<i64>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
    ABr0D::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
    ABr0D::L2(s) => { h.offered(1, 2);
      c1_d(s, h)
    },
    ABr0D::L3(s) => { h.offered(1, 3);
      bpre!(h, s, cancel_d); let x = h.mk::<u8>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_b(s: AC1_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
    ABr1B::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<String>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_b_to_c(x, s)?; h.sent();
      c0_b(s, h)
    },
    ABr1B::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_b); let x = h.mk::<()>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<u64>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      c1_b(s, h)
    },
    ABr1B::L2(s) => { h.offered(3, 2);
      c1_b(s, h)
    },
    ABr1B::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_c(s: AC1_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
    ABr1C::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_c); let x = h.mk::<String>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_c(s, h)
    },
    ABr1C::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<()>(1, &x);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<u64>(1, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_c_to_b(x, s)?; h.sent();
      c1_c(s, h)
    },
    ABr1C::L2(s) => { h.offered(3, 2);
      c1_c(s, h)
    },
    ABr1C::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<u8>(3, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c1_d(s: AC1_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  match h.choice() {
    0 => { let s: AB1_0_D = choose_1_0(s)?; h.chosen();
      c0_d(s, h)
    }
    1 => { let s: AB1_1_D = choose_1_1(s)?; h.chosen();
      c1_d(s, h)
    }
    2 => { let s: AB1_2_D = choose_1_2(s)?; h.chosen();
      c1_d(s, h)
    }
    _ => { let s: AB1_3_D = choose_1_3(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      bpre!(h, s, cancel_d); let x = h.mk::<u8>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
  }
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<i64>(3); let s = send_b_to_d(x, s)?; h.sent();
  bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<String>(2, &x);
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); let x = h.mk::<String>(1); let s = send_c_to_b(x, s)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<i64>(1, &x);
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r3", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 3), (2, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(3, 1), (2, 3), (1, 3), (3, 1)], END), (&[], END), (&[], 1), (&[(1, 2), (3, 2)], END)] }, State { chooser: 3, exit: 3, branches: &[(&[(2, 1), (1, 2)], 0), (&[(1, 2), (1, 2), (2, 1)], 1), (&[], 1), (&[(2, 3), (3, 2)], END)] }], go };
}
pub mod b9 {
use super::bpre::*;
mpstthree::bundle_struct_fork_close_multi_cancel!(close_all, fork_mpst, Mesh, 4);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | => NameB, Mesh, 4);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 4, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | => NameC, Mesh, 4);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 4, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | => NameD, Mesh, 4);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 4, "D gives up");
type AB0_0_B = Mesh<End, Recv<Tok, End>, Recv<(u64, Box<Tok>), End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<End, Send<Tok, End>, Send<Tok, End>, RoleD<RoleB<RoleEnd>>, NameC>;
type AB0_0_D = Mesh<End, Send<(u64, Box<Tok>), End>, Recv<Tok, End>, RoleB<RoleC<RoleEnd>>, NameD>;
type AB0_1_B = Mesh<End, Recv<Option<Vec<u64>>, Send<(End, ABr1C), End>>, Send<(), Send<(u64, Box<Tok>), Send<(End, ABr1D), End>>>, RoleD<RoleC<RoleD<RoleBroadcast>>>, NameB>;
type AB0_1_C = Mesh<End, Send<Option<Vec<u64>>, Recv<(End, ABr1C), End>>, Send<u8, End>, RoleB<RoleD<RoleB<RoleEnd>>>, NameC>;
type AB0_1_D = Mesh<End, Recv<(), Recv<(u64, Box<Tok>), Recv<(End, ABr1D), End>>>, Recv<u8, End>, RoleB<RoleC<RoleB<RoleB<RoleEnd>>>>, NameD>;
type AB0_2_B = Mesh<End, End, Recv<Tok, Recv<i64, Recv<i64, Recv<(End, ABr0B), End>>>>, RoleD<RoleD<RoleD<RoleD<RoleEnd>>>>, NameB>;
type AB0_2_C = Mesh<End, End, Recv<(u64, Box<Tok>), Recv<(End, ABr0C), End>>, RoleD<RoleD<RoleEnd>>, NameC>;
type AB0_2_D = Mesh<End, Send<Tok, Send<i64, Send<i64, Send<(End, ABr0B), End>>>>, Send<(u64, Box<Tok>), Send<(End, ABr0C), End>>, RoleB<RoleB<RoleC<RoleB<RoleBroadcast>>>>, NameD>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C) } unsafe impl std::marker::Send for ABr0C {}
type AC0_B = Mesh<End, End, Recv<(End, ABr0B), End>, RoleD<RoleEnd>, NameB>;
type AC0_C = Mesh<End, End, Recv<(End, ABr0C), End>, RoleD<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, RoleBroadcast, NameD>;
type AB1_0_B = Mesh<End, End, Recv<(u64, Box<Tok>), Send<String, Recv<(), End>>>, RoleD<RoleD<RoleD<RoleEnd>>>, NameB>;
type AB1_0_C = Mesh<End, End, Send<i64, End>, RoleD<RoleEnd>, NameC>;
type AB1_0_D = Mesh<End, Send<(u64, Box<Tok>), Recv<String, Send<(), End>>>, Recv<i64, End>, RoleB<RoleB<RoleB<RoleC<RoleEnd>>>>, NameD>;
type AB1_1_B = Mesh<End, Send<Tok, Send<(End, ABr1C), End>>, Send<i64, Send<(End, ABr1D), End>>, RoleC<RoleD<RoleBroadcast>>, NameB>;
type AB1_1_C = Mesh<End, Recv<Tok, Recv<(End, ABr1C), End>>, Send<u8, End>, RoleB<RoleD<RoleB<RoleEnd>>>, NameC>;
type AB1_1_D = Mesh<End, Recv<i64, Recv<(End, ABr1D), End>>, Recv<u8, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameD>;
type AB1_2_B = Mesh<End, Recv<i64, End>, Send<(), Send<u8, End>>, RoleC<RoleD<RoleD<RoleEnd>>>, NameB>;
type AB1_2_C = Mesh<End, Send<i64, End>, Recv<Big, End>, RoleD<RoleB<RoleEnd>>, NameC>;
type AB1_2_D = Mesh<End, Recv<(), Recv<u8, End>>, Send<Big, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameD>;
type AB1_3_B = Mesh<End, Send<(End, ABr1C), End>, Send<(End, ABr1D), End>, RoleBroadcast, NameB>;
type AB1_3_C = Mesh<End, Recv<(End, ABr1C), End>, End, RoleB<RoleEnd>, NameC>;
type AB1_3_D = Mesh<End, Recv<(End, ABr1D), End>, End, RoleB<RoleEnd>, NameD>;
pub enum ABr1C { L0(AB1_0_C), L1(AB1_1_C), L2(AB1_2_C), L3(AB1_3_C) } unsafe impl std::marker::Send for ABr1C {}
pub enum ABr1D { L0(AB1_0_D), L1(AB1_1_D), L2(AB1_2_D), L3(AB1_3_D) } unsafe impl std::marker::Send for ABr1D {}
type AC1_B = Mesh<End, Send<(End, ABr1C), End>, Send<(End, ABr1D), End>, RoleBroadcast, NameB>;
type AC1_C = Mesh<End, Recv<(End, ABr1C), End>, End, RoleB<RoleEnd>, NameC>;
type AC1_D = Mesh<End, Recv<(End, ABr1D), End>, End, RoleB<RoleEnd>, NameD>;
type AS_Z = Mesh<End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, Send<(u64, Box<Tok>), End>, Send<Big, Recv<(End, ABr0B), End>>, RoleD<RoleC<RoleD<RoleEnd>>>, NameB>;
type AS_C = Mesh<End, Recv<(u64, Box<Tok>), End>, Recv<(End, ABr0C), End>, RoleB<RoleD<RoleEnd>>, NameC>;
type AS_D = Mesh<End, Recv<Big, Send<(End, ABr0B), End>>, Send<(End, ABr0C), End>, RoleB<RoleBroadcast>, NameD>;
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
    ABr0B::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Tok>(2, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr0B::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_b); let x = h.mk::<()>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_b_to_d(x, s)?; h.sent();
      c1_b(s, h)
    },
    ABr0B::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<Tok>(3, &x);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<i64>(3, &x);
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<i64>(3, &x);
      c0_b(s, h)
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
    ABr0C::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_c); let x = h.mk::<Tok>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<Tok>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr0C::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<u8>(3); let s = send_c_to_d(x, s)?; h.sent();
      c1_c(s, h)
    },
    ABr0C::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
      c0_c(s, h)
    },
  })
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  match h.choice() {
    0 => { let s: AB0_0_D = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L0, ABr0C::L0, => NameB, NameC, => NameZ, NameD, Mesh, 4); h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<Tok>(2, &x);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB0_1_D = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L1, ABr0C::L1, => NameB, NameC, => NameZ, NameD, Mesh, 4); h.chosen();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<()>(1, &x);
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<u8>(2, &x);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c1_d(s, h)
    }
    _ => { let s: AB0_2_D = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr0B::L2, ABr0C::L2, => NameB, NameC, => NameZ, NameD, Mesh, 4); h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<Tok>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); let x = h.mk::<i64>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); let x = h.mk::<i64>(1); let s = send_d_to_b(x, s)?; h.sent();
      c0_d(s, h)
    }
  }
}
fn c1_b(s: AC1_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  match h.choice() {
    0 => { let s: AB1_0_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1C::L0, ABr1D::L0, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<(u64, Box<Tok>)>(3, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<String>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.rx(3); let (x, s) = recv_b_from_d(s)?; h.got::<()>(3, &x);
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB1_1_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1C::L1, ABr1D::L1, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      bpre!(h, s, cancel_b); let x = h.mk::<Tok>(2); let s = send_b_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<i64>(3); let s = send_b_to_d(x, s)?; h.sent();
      c1_b(s, h)
    }
    2 => { let s: AB1_2_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1C::L2, ABr1D::L2, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<()>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); let x = h.mk::<u8>(3); let s = send_b_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    }
    _ => { let s: AB1_3_B = mpstthree::choose_mpst_multi_cancel_to_all!(s, ABr1C::L3, ABr1D::L3, => NameC, NameD, => NameZ, NameB, Mesh, 2); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c1_c(s: AC1_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_b, {
    ABr1C::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(3); let s = send_c_to_d(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr1C::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<Tok>(1, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<u8>(3); let s = send_c_to_d(x, s)?; h.sent();
      c1_c(s, h)
    },
    ABr1C::L2(s) => { h.offered(1, 2);
      bpre!(h, s, cancel_c); h.rx(3); let (x, s) = recv_c_from_d(s)?; h.got::<Big>(3, &x);
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr1C::L3(s) => { h.offered(1, 3);
      c1_c(s, h)
    },
  })
}
fn c1_d(s: AC1_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  h.offer(1);
  mpstthree::offer_cancel_mpst!(s, recv_d_from_b, {
    ABr1D::L0(s) => { h.offered(1, 0);
      bpre!(h, s, cancel_d); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<String>(1, &x);
      bpre!(h, s, cancel_d); let x = h.mk::<()>(1); let s = send_d_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
    ABr1D::L1(s) => { h.offered(1, 1);
      bpre!(h, s, cancel_d); h.rx(2); let (x, s) = recv_d_from_c(s)?; h.got::<u8>(2, &x);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<i64>(1, &x);
      c1_d(s, h)
    },
    ABr1D::L2(s) => { h.offered(1, 2);
      bpre!(h, s, cancel_d); let x = h.mk::<Big>(2); let s = send_d_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<()>(1, &x);
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<u8>(1, &x);
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    },
    ABr1D::L3(s) => { h.offered(1, 3);
      c1_d(s, h)
    },
  })
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 4)) }
fn start_b(s: AS_B, h: H) -> R {
  bpre!(h, s, cancel_b); let x = h.mk::<Big>(3); let s = send_b_to_d(x, s)?; h.sent();
  bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(2); let s = send_b_to_c(x, s)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); h.rx(1); let (x, s) = recv_c_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<Big>(1, &x);
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r4", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 3), (1, 2)], 0), states: &[State { chooser: 3, exit: 0, branches: &[(&[(3, 1), (2, 3), (2, 1)], END), (&[(1, 3), (2, 1), (2, 3), (1, 3)], 1), (&[(3, 1), (3, 1), (3, 2), (3, 1)], 0)] }, State { chooser: 1, exit: 0, branches: &[(&[(3, 1), (1, 3), (3, 1), (2, 3)], END), (&[(1, 2), (2, 3), (1, 3)], 1), (&[(3, 2), (2, 1), (1, 3), (1, 3)], END), (&[], 1)] }], go };
}
pub mod b10 {
use super::bpre::*;
mpstthree::create_meshedchannels!(Mesh, 6);
mpstthree::close_mpst_check_cancel!(close_all, Mesh, 6);
mpstthree::fork_mpst_multi!(fork_mpst, Mesh, 6);
mpstthree::create_multiple_normal_role!(RoleZ, RoleZDual | RoleB, RoleBDual | RoleC, RoleCDual | RoleD, RoleDDual | RoleE, RoleEDual | RoleF, RoleFDual |);
mpstthree::create_multiple_normal_name!(NameZ, NameB, NameC, NameD, NameE, NameF);
mpstthree::create_send_check_cancel_bundle!(send_b_to_c, RoleC, 2 | send_b_to_d, RoleD, 3 | send_b_to_e, RoleE, 4 | send_b_to_f, RoleF, 5 | => NameB, Mesh, 6);
mpstthree::create_recv_mpst_session_bundle!(recv_b_from_c, RoleC, 2 | recv_b_from_d, RoleD, 3 | recv_b_from_e, RoleE, 4 | recv_b_from_f, RoleF, 5 | => NameB, Mesh, 6);
mpstthree::send_cancel!(cancel_b, NameB, Mesh, 6, "B gives up");
mpstthree::create_send_check_cancel_bundle!(send_c_to_b, RoleB, 2 | send_c_to_d, RoleD, 3 | send_c_to_e, RoleE, 4 | send_c_to_f, RoleF, 5 | => NameC, Mesh, 6);
mpstthree::create_recv_mpst_session_bundle!(recv_c_from_b, RoleB, 2 | recv_c_from_d, RoleD, 3 | recv_c_from_e, RoleE, 4 | recv_c_from_f, RoleF, 5 | => NameC, Mesh, 6);
mpstthree::send_cancel!(cancel_c, NameC, Mesh, 6, "C gives up");
mpstthree::create_send_check_cancel_bundle!(send_d_to_b, RoleB, 2 | send_d_to_c, RoleC, 3 | send_d_to_e, RoleE, 4 | send_d_to_f, RoleF, 5 | => NameD, Mesh, 6);
mpstthree::create_recv_mpst_session_bundle!(recv_d_from_b, RoleB, 2 | recv_d_from_c, RoleC, 3 | recv_d_from_e, RoleE, 4 | recv_d_from_f, RoleF, 5 | => NameD, Mesh, 6);
mpstthree::send_cancel!(cancel_d, NameD, Mesh, 6, "D gives up");
mpstthree::create_send_check_cancel_bundle!(send_e_to_b, RoleB, 2 | send_e_to_c, RoleC, 3 | send_e_to_d, RoleD, 4 | send_e_to_f, RoleF, 5 | => NameE, Mesh, 6);
mpstthree::create_recv_mpst_session_bundle!(recv_e_from_b, RoleB, 2 | recv_e_from_c, RoleC, 3 | recv_e_from_d, RoleD, 4 | recv_e_from_f, RoleF, 5 | => NameE, Mesh, 6);
mpstthree::send_cancel!(cancel_e, NameE, Mesh, 6, "E gives up");
mpstthree::create_send_check_cancel_bundle!(send_f_to_b, RoleB, 2 | send_f_to_c, RoleC, 3 | send_f_to_d, RoleD, 4 | send_f_to_e, RoleE, 5 | => NameF, Mesh, 6);
mpstthree::create_recv_mpst_session_bundle!(recv_f_from_b, RoleB, 2 | recv_f_from_c, RoleC, 3 | recv_f_from_d, RoleD, 4 | recv_f_from_e, RoleE, 5 | => NameF, Mesh, 6);
mpstthree::send_cancel!(cancel_f, NameF, Mesh, 6, "F gives up");
type AB0_0_B = Mesh<End, End, End, Send<Option<Vec<u64>>, End>, End, RoleE<RoleEnd>, NameB>;
type AB0_0_C = Mesh<End, End, End, Recv<u8, End>, End, RoleE<RoleEnd>, NameC>;
type AB0_0_D = Mesh<End, End, End, End, End, RoleEnd, NameD>;
type AB0_0_E = Mesh<End, Recv<Option<Vec<u64>>, End>, Send<u8, End>, End, End, RoleB<RoleC<RoleEnd>>, NameE>;
type AB0_0_F = Mesh<End, End, End, End, End, RoleEnd, NameF>;
type AB0_1_B = Mesh<End, End, Recv<(End, ABr0B), End>, End, End, RoleD<RoleEnd>, NameB>;
type AB0_1_C = Mesh<End, End, Recv<(End, ABr0C), End>, Send<i64, End>, End, RoleE<RoleD<RoleEnd>>, NameC>;
type AB0_1_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, Send<(End, ABr0E), End>, Send<(End, ABr0F), End>, RoleBroadcast, NameD>;
type AB0_1_E = Mesh<End, End, Recv<i64, End>, Recv<(End, ABr0E), End>, End, RoleC<RoleD<RoleEnd>>, NameE>;
type AB0_1_F = Mesh<End, End, End, Recv<(End, ABr0F), End>, End, RoleD<RoleEnd>, NameF>;
type AB0_2_B = Mesh<End, Recv<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), Recv<(End, ABr0B), End>>, End, Recv<u64, End>, RoleC<RoleF<RoleD<RoleD<RoleEnd>>>>, NameB>;
type AB0_2_C = Mesh<End, Send<(u64, Box<Tok>), End>, Recv<(End, ABr0C), End>, End, End, RoleB<RoleD<RoleEnd>>, NameC>;
type AB0_2_D = Mesh<End, Recv<(u64, Box<Tok>), Send<(End, ABr0B), End>>, Send<(End, ABr0C), End>, Send<(End, ABr0E), End>, Send<Big, Send<(End, ABr0F), End>>, RoleF<RoleB<RoleBroadcast>>, NameD>;
type AB0_2_E = Mesh<End, End, End, Recv<(End, ABr0E), End>, End, RoleD<RoleEnd>, NameE>;
type AB0_2_F = Mesh<End, Send<u64, End>, End, Recv<Big, Recv<(End, ABr0F), End>>, End, RoleD<RoleB<RoleD<RoleEnd>>>, NameF>;
type AB0_3_B = Mesh<End, Recv<Option<Vec<u64>>, End>, End, End, Send<i64, End>, RoleC<RoleF<RoleEnd>>, NameB>;
type AB0_3_C = Mesh<End, Send<Option<Vec<u64>>, End>, End, End, Send<i64, End>, RoleB<RoleF<RoleEnd>>, NameC>;
type AB0_3_D = Mesh<End, End, End, End, End, RoleEnd, NameD>;
type AB0_3_E = Mesh<End, End, End, End, End, RoleEnd, NameE>;
type AB0_3_F = Mesh<End, Recv<i64, End>, Recv<i64, End>, End, End, RoleB<RoleC<RoleEnd>>, NameF>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B), L3(AB0_3_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C), L3(AB0_3_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0E { L0(AB0_0_E), L1(AB0_1_E), L2(AB0_2_E), L3(AB0_3_E) } unsafe impl std::marker::Send for ABr0E {}
pub enum ABr0F { L0(AB0_0_F), L1(AB0_1_F), L2(AB0_2_F), L3(AB0_3_F) } unsafe impl std::marker::Send for ABr0F {}
type AC0_B = Mesh<End, End, Recv<(End, ABr0B), End>, End, End, RoleD<RoleEnd>, NameB>;
type AC0_C = Mesh<End, End, Recv<(End, ABr0C), End>, End, End, RoleD<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, Send<(End, ABr0E), End>, Send<(End, ABr0F), End>, RoleBroadcast, NameD>;
type AC0_E = Mesh<End, End, End, Recv<(End, ABr0E), End>, End, RoleD<RoleEnd>, NameE>;
type AC0_F = Mesh<End, End, End, Recv<(End, ABr0F), End>, End, RoleD<RoleEnd>, NameF>;
type AS_Z = Mesh<End, End, End, End, End, RoleEnd, NameZ>;
type AS_B = Mesh<End, End, Recv<(End, ABr0B), End>, End, End, RoleD<RoleEnd>, NameB>;
type AS_C = Mesh<End, End, Recv<(End, ABr0C), End>, Send<Option<Vec<u64>>, End>, End, RoleE<RoleD<RoleEnd>>, NameC>;
type AS_D = Mesh<End, Send<(End, ABr0B), End>, Send<(End, ABr0C), End>, Send<(End, ABr0E), End>, Send<(End, ABr0F), End>, RoleBroadcast, NameD>;
type AS_E = Mesh<End, End, Recv<Option<Vec<u64>>, End>, Recv<(End, ABr0E), End>, End, RoleC<RoleD<RoleEnd>>, NameE>;
type AS_F = Mesh<End, End, End, Recv<(End, ABr0F), End>, End, RoleD<RoleEnd>, NameF>;
mpstthree::create_fn_choose_mpst_cancel_multi_to_all_bundle!(choose_0_0, choose_0_1, choose_0_2, choose_0_3, => L0, L1, L2, L3, => AB0_0_D, AB0_1_D, AB0_2_D, AB0_3_D, => ABr0B, ABr0C, ABr0E, ABr0F, => NameB, NameC, NameE, NameF, => NameZ, NameD, Mesh, 4);
fn c0_b(s: AC0_B, h: H) -> R {
  bpre!(h, s, cancel_b);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_b_from_d, {
    ABr0B::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_b); let x = h.mk::<Option<Vec<u64>>>(4); let s = send_b_to_e(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
    ABr0B::L1(s) => { h.offered(3, 1);
      c0_b(s, h)
    },
    ABr0B::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<(u64, Box<Tok>)>(2, &x);
      bpre!(h, s, cancel_b); h.rx(5); let (x, s) = recv_b_from_f(s)?; h.got::<u64>(5, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<(u64, Box<Tok>)>(3); let s = send_b_to_d(x, s)?; h.sent();
      c0_b(s, h)
    },
    ABr0B::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_b); h.rx(2); let (x, s) = recv_b_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
      bpre!(h, s, cancel_b); let x = h.mk::<i64>(5); let s = send_b_to_f(x, s)?; h.sent();
      bpre!(h, s, cancel_b); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_c(s: AC0_C, h: H) -> R {
  bpre!(h, s, cancel_c);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_c_from_d, {
    ABr0C::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_c); h.rx(4); let (x, s) = recv_c_from_e(s)?; h.got::<u8>(4, &x);
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
    ABr0C::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(4); let s = send_c_to_e(x, s)?; h.sent();
      c0_c(s, h)
    },
    ABr0C::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_c); let x = h.mk::<(u64, Box<Tok>)>(1); let s = send_c_to_b(x, s)?; h.sent();
      c0_c(s, h)
    },
    ABr0C::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(1); let s = send_c_to_b(x, s)?; h.sent();
      bpre!(h, s, cancel_c); let x = h.mk::<i64>(5); let s = send_c_to_f(x, s)?; h.sent();
      bpre!(h, s, cancel_c); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_d(s: AC0_D, h: H) -> R {
  bpre!(h, s, cancel_d);
  match h.choice() {
    0 => { let s: AB0_0_D = choose_0_0(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
    1 => { let s: AB0_1_D = choose_0_1(s)?; h.chosen();
      c0_d(s, h)
    }
    2 => { let s: AB0_2_D = choose_0_2(s)?; h.chosen();
      bpre!(h, s, cancel_d); let x = h.mk::<Big>(5); let s = send_d_to_f(x, s)?; h.sent();
      bpre!(h, s, cancel_d); h.rx(1); let (x, s) = recv_d_from_b(s)?; h.got::<(u64, Box<Tok>)>(1, &x);
      c0_d(s, h)
    }
    _ => { let s: AB0_3_D = choose_0_3(s)?; h.chosen();
      bpre!(h, s, cancel_d); h.closing(); h.closed(close_all(s))
    }
  }
}
fn c0_e(s: AC0_E, h: H) -> R {
  bpre!(h, s, cancel_e);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_e_from_d, {
    ABr0E::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_e); h.rx(1); let (x, s) = recv_e_from_b(s)?; h.got::<Option<Vec<u64>>>(1, &x);
      bpre!(h, s, cancel_e); let x = h.mk::<u8>(2); let s = send_e_to_c(x, s)?; h.sent();
      bpre!(h, s, cancel_e); h.closing(); h.closed(close_all(s))
    },
    ABr0E::L1(s) => { h.offered(3, 1);
      bpre!(h, s, cancel_e); h.rx(2); let (x, s) = recv_e_from_c(s)?; h.got::<i64>(2, &x);
      c0_e(s, h)
    },
    ABr0E::L2(s) => { h.offered(3, 2);
      c0_e(s, h)
    },
    ABr0E::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_e); h.closing(); h.closed(close_all(s))
    },
  })
}
fn c0_f(s: AC0_F, h: H) -> R {
  bpre!(h, s, cancel_f);
  h.offer(3);
  mpstthree::offer_cancel_mpst!(s, recv_f_from_d, {
    ABr0F::L0(s) => { h.offered(3, 0);
      bpre!(h, s, cancel_f); h.closing(); h.closed(close_all(s))
    },
    ABr0F::L1(s) => { h.offered(3, 1);
      c0_f(s, h)
    },
    ABr0F::L2(s) => { h.offered(3, 2);
      bpre!(h, s, cancel_f); h.rx(3); let (x, s) = recv_f_from_d(s)?; h.got::<Big>(3, &x);
      bpre!(h, s, cancel_f); let x = h.mk::<u64>(1); let s = send_f_to_b(x, s)?; h.sent();
      c0_f(s, h)
    },
    ABr0F::L3(s) => { h.offered(3, 3);
      bpre!(h, s, cancel_f); h.rx(1); let (x, s) = recv_f_from_b(s)?; h.got::<i64>(1, &x);
      bpre!(h, s, cancel_f); h.rx(2); let (x, s) = recv_f_from_c(s)?; h.got::<i64>(2, &x);
      bpre!(h, s, cancel_f); h.closing(); h.closed(close_all(s))
    },
  })
}
fn start_z(s: AS_Z, h: H) -> R { bpre!(h, s); h.closing(); h.watching(mpstthree::broadcast_cancel!(s, 6)) }
fn start_b(s: AS_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: AS_C, h: H) -> R {
  bpre!(h, s, cancel_c); let x = h.mk::<Option<Vec<u64>>>(4); let s = send_c_to_e(x, s)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: AS_D, h: H) -> R {
  c0_d(s, h)
}
fn start_e(s: AS_E, h: H) -> R {
  bpre!(h, s, cancel_e); h.rx(2); let (x, s) = recv_e_from_c(s)?; h.got::<Option<Vec<u64>>>(2, &x);
  c0_e(s, h)
}
fn start_f(s: AS_F, h: H) -> R {
  c0_f(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: AS_Z| H::new(0).participant(move |h| start_z(s, h)), move |s: AS_B| H::new(1).participant(move |h| start_b(s, h)), move |s: AS_C| H::new(2).participant(move |h| start_c(s, h)), move |s: AS_D| H::new(3).participant(move |h| start_d(s, h)), move |s: AS_E| H::new(4).participant(move |h| start_e(s, h)), move |s: AS_F| H::new(5).participant(move |h| start_f(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5,)) => joined(vec![j0, j1, j2, j3, j4, j5]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "broadcast/r5", n: 6, cancel_sends: true, cancel_choices: true, start: (&[(2, 4)], 0), states: &[State { chooser: 3, exit: 0, branches: &[(&[(1, 4), (4, 2)], END), (&[(2, 4)], 0), (&[(2, 1), (3, 5), (5, 1), (1, 3)], 0), (&[(2, 1), (1, 5), (2, 5)], END)] }], go };
}
pub static ALL: &[&Proto] = &[&b0::P, &b1::P, &b2::P, &b3::P, &b4::P, &b5::P, &b6::P, &b7::P, &b8::P, &b9::P, &b10::P];
