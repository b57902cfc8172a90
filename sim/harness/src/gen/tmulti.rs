// Generated by sim/gen/gen_tmulti.py. Do not edit.
pub mod p0 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 61, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, false, 1003, true, 'b', End>>, RecvTimed<Big, 'a', 0, false, 1002, false, 'a', SendTimed<Big, 'a', 0, false, 62, true, 'a', RecvTimed<Br0A, 'a', -1, false, 104, true, 'a', End>>>, RoleB<RoleC<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', 0, true, 61, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, false, 1003, true, 'b', End>>, RecvTimed<Br0B, 'a', -1, false, 104, true, 'a', End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<SendTimed<Big, 'a', 0, false, 1002, false, 'a', RecvTimed<Big, 'a', 0, false, 62, true, 'a', SendTimed<Br0A, 'a', -1, false, 104, true, 'a', End>>>, SendTimed<Br0B, 'a', -1, false, 104, true, 'a', End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, RecvTimed<Br0A, 'b', 1, true, 1002, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, RecvTimed<Br0B, 'b', 1, true, 1002, true, 'a', End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<SendTimed<Br0A, 'b', 1, true, 1002, true, 'a', End>, SendTimed<Br0B, 'b', 1, true, 1002, true, 'a', End>, RoleBroadcast, NameC>;
type C1_A = MeshedChannels<End, RecvTimed<Br0A, 'a', -1, false, 104, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, RecvTimed<Br0B, 'a', -1, false, 104, true, 'a', End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<SendTimed<Br0A, 'a', -1, false, 104, true, 'a', End>, SendTimed<Br0B, 'a', -1, false, 104, true, 'a', End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, RecvTimed<String, 'a', 0, true, 1001, false, 'a', SendTimed<Tok, 'a', 1, true, 62, false, ' ', RecvTimed<Br0A, 'b', 1, true, 1002, true, 'a', End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, RecvTimed<Br0B, 'b', 1, true, 1002, true, 'a', End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<SendTimed<String, 'a', 0, true, 1001, false, 'a', RecvTimed<Tok, 'a', 1, true, 62, false, ' ', SendTimed<Br0A, 'b', 1, true, 1002, true, 'a', End>>>, SendTimed<Br0B, 'b', 1, true, 1002, true, 'a', End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1003, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1003, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: true, e: 1002, ie: true, reset: 'a' }), (1, Win { clock: 'b', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      c1_c(s, h, cl)
    }
    _ => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -1, is: false, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1003, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -1, is: false, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1003, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: 104, ie: true, reset: 'a' }), (1, Win { clock: 'a', s: -1, is: false, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      c1_c(s, h, cl)
    }
    _ => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
  let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/auth", n: 3, tree: false, max: 7, go };
}
pub mod p1 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<SendTimed<String, 'a', 0, false, 102, false, ' ', RecvTimed<Br1A, 'a', -1, true, 162, true, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<String, 'a', 0, false, 102, false, ' ', SendTimed<Br1A, 'a', -1, true, 162, true, 'a', End>>, SendTimed<Br1C, 'a', 3, true, 124, false, 'a', End>, RoleA<RoleBroadcast>, NameB>;
type B0_0_C = MeshedChannels<End, RecvTimed<Br1C, 'a', 3, true, 124, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, SendTimed<Big, 'a', 0, false, -1, false, 'a', End>, RoleC<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<Big, 'a', 0, false, -1, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_0_B = MeshedChannels<End, SendTimed<String, 'a', -2, false, -1, false, 'a', RecvTimed<Big, 'a', 2, true, 63, true, 'a', End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, RecvTimed<String, 'a', -2, false, -1, false, 'a', SendTimed<Big, 'a', 2, true, 63, true, 'a', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<RecvTimed<String, 'a', 2, false, 104, true, 'a', SendTimed<Br0B, 'a', 2, true, -1, true, 'a', End>>, SendTimed<Br0C, 'a', 2, true, -1, true, 'a', End>, RoleB<RoleBroadcast>, NameA>;
type B1_1_B = MeshedChannels<SendTimed<String, 'a', 2, false, 104, true, 'a', RecvTimed<Br0B, 'a', 2, true, -1, true, 'a', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, true, -1, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', -1, true, 1004, true, 'a', End>, SendTimed<Br0C, 'a', -1, true, 1004, true, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', -1, true, 1004, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', -1, true, 1004, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C1_A = MeshedChannels<RecvTimed<Br1A, 'a', -1, true, 162, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C1_B = MeshedChannels<SendTimed<Br1A, 'a', -1, true, 162, true, 'a', End>, SendTimed<Br1C, 'a', 3, true, 124, false, 'a', End>, RoleBroadcast, NameB>;
type C1_C = MeshedChannels<End, RecvTimed<Br1C, 'a', 3, true, 124, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type C3_A = MeshedChannels<SendTimed<Br0B, 'a', 2, true, -1, true, 'a', End>, SendTimed<Br0C, 'a', 2, true, -1, true, 'a', End>, RoleBroadcast, NameA>;
type C3_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, true, -1, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C3_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, true, -1, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<(u64, Box<Tok>), 'b', 0, false, 102, false, 'b', SendTimed<Br0B, 'a', -1, true, 1004, true, 'a', End>>, RecvTimed<Big, 'b', 0, true, 101, false, ' ', SendTimed<Br0C, 'a', -1, true, 1004, true, 'a', End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 0, false, 102, false, 'b', RecvTimed<Br0B, 'a', -1, true, 1004, true, 'a', End>>, SendTimed<Tok, 'b', 0, true, -1, false, 'b', End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<SendTimed<Big, 'b', 0, true, 101, false, ' ', RecvTimed<Br0C, 'a', -1, true, 1004, true, 'a', End>>, RecvTimed<Tok, 'b', 0, true, -1, false, 'b', End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 1004, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: -1, is: true, e: 1004, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1004, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1004, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 162, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      c3_a(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 162, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 3, is: true, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_b(s, h, cl)
    }
  }
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 3, is: true, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      c3_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/relay", n: 3, tree: false, max: 6, go };
}
pub mod p2 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type S_A = MeshedChannels<SendTimed<String, 'a', -1, false, 2, true, 'a', End>, End, RecvTimed<i64, 'a', 1, true, 3, true, ' ', End>, RoleB<RoleD<RoleEnd>>, NameA>;
type S_B = MeshedChannels<RecvTimed<String, 'a', -1, false, 2, true, 'a', End>, SendTimed<Big, 'b', 1, true, -1, true, ' ', End>, End, RoleA<RoleC<RoleEnd>>, NameB>;
type S_C = MeshedChannels<End, RecvTimed<Big, 'b', 1, true, -1, true, ' ', End>, SendTimed<Big, 'a', -1, false, 4, false, 'b', End>, RoleB<RoleD<RoleEnd>>, NameC>;
type S_D = MeshedChannels<SendTimed<i64, 'a', 1, true, 3, true, ' ', End>, End, RecvTimed<Big, 'a', -1, false, 4, false, 'b', End>, RoleC<RoleA<RoleEnd>>, NameD>;
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: false, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(3, Win { clock: 'a', s: 1, is: true, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(3, &x);
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
  let w = &[(2, Win { clock: 'b', s: 1, is: true, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: true, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
  let w = &[(3, Win { clock: 'a', s: -1, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -1, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/line", n: 4, tree: true, max: 7, go };
}
pub mod p3 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<SendTimed<String, 'a', 0, true, 1001, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', 2, true, 63, false, 'a', SendTimed<Br0B, 'a', 0, false, 162, false, 'a', End>>>, SendTimed<Br0C, 'a', 3, true, 166, true, 'a', End>, SendTimed<Br0D, 'a', 0, true, 166, true, 'a', End>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<String, 'a', 0, true, 1001, false, 'a', SendTimed<Option<Vec<u64>>, 'a', 2, true, 63, false, 'a', RecvTimed<Br0B, 'a', 0, false, 162, false, 'a', End>>>, End, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Br0C, 'a', 3, true, 166, true, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<RecvTimed<Br0D, 'a', 0, true, 166, true, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, SendTimed<(u64, Box<Tok>), 'a', 0, false, 102, true, 'a', End>, End, RoleC<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<End, RecvTimed<(u64, Box<Tok>), 'a', 0, false, 102, true, 'a', End>, SendTimed<Tok, 'a', 0, true, 102, true, 'b', End>, RoleB<RoleD<RoleEnd>>, NameC>;
type B0_1_D = MeshedChannels<End, End, RecvTimed<Tok, 'a', 0, true, 102, true, 'b', End>, RoleC<RoleEnd>, NameD>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D) } unsafe impl std::marker::Send for Br0D {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', 2, true, 1003, true, 'a', End>, SendTimed<Br0C, 'a', 2, true, 1003, true, 'a', End>, SendTimed<Br0D, 'a', 2, true, 1003, true, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, true, 1003, true, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, true, 1003, true, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C0_D = MeshedChannels<RecvTimed<Br0D, 'a', 2, true, 1003, true, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type C1_A = MeshedChannels<SendTimed<Br0B, 'a', 0, false, 162, false, 'a', End>, SendTimed<Br0C, 'a', 3, true, 166, true, 'a', End>, SendTimed<Br0D, 'a', 0, true, 166, true, 'a', End>, RoleBroadcast, NameA>;
type C1_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, false, 162, false, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C1_C = MeshedChannels<RecvTimed<Br0C, 'a', 3, true, 166, true, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C1_D = MeshedChannels<RecvTimed<Br0D, 'a', 0, true, 166, true, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type S_A = MeshedChannels<SendTimed<(u64, Box<Tok>), 'b', 1, true, 62, true, ' ', SendTimed<Br0B, 'a', 2, true, 1003, true, 'a', End>>, SendTimed<Big, 'a', 0, true, 1002, true, ' ', SendTimed<Br0C, 'a', 2, true, 1003, true, 'a', End>>, SendTimed<Big, 'a', -1, true, 1002, true, ' ', SendTimed<Br0D, 'a', 2, true, 1003, true, 'a', End>>, RoleB<RoleC<RoleD<RoleBroadcast>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 1, true, 62, true, ' ', RecvTimed<Br0B, 'a', 2, true, 1003, true, 'a', End>>, End, SendTimed<Option<Vec<u64>>, 'b', 1, false, -1, false, 'a', End>, RoleA<RoleD<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Big, 'a', 0, true, 1002, true, ' ', RecvTimed<Br0C, 'a', 2, true, 1003, true, 'a', End>>, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type S_D = MeshedChannels<RecvTimed<Big, 'a', -1, true, 1002, true, ' ', RecvTimed<Br0D, 'a', 2, true, 1003, true, 'a', End>>, RecvTimed<Option<Vec<u64>>, 'b', 1, false, -1, false, 'a', End>, End, RoleA<RoleB<RoleA<RoleEnd>>>, NameD>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' }), (3, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(3, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_d(s: C0_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      c1_d(s, h, cl)
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 162, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 3, is: true, e: 166, ie: true, reset: 'a' }), (3, Win { clock: 'a', s: 0, is: true, e: 166, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 162, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 3, is: true, e: 166, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(3, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_d(s: C1_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 166, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      c1_d(s, h, cl)
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: true, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1002, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(3, Win { clock: 'a', s: -1, is: true, e: 1002, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: true, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
  let w = &[(3, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1002, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
  c0_c(s, h, cl)
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1002, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
  let w = &[(1, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
  c0_d(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/fan", n: 4, tree: false, max: 7, go };
}
pub mod p4 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type S_A = MeshedChannels<End, End, RoleEnd, NameA>;
type S_B = MeshedChannels<End, End, RoleEnd, NameB>;
type S_C = MeshedChannels<End, End, RoleEnd, NameC>;
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/end", n: 3, tree: true, max: 3, go };
}
pub mod p5 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, false, 1002, false, 'a', SendTimed<Big, 'a', 1, true, 62, true, 'b', SendTimed<Br1B, 'a', -1, false, 106, false, 'a', End>>>, SendTimed<Br1C, 'a', -1, false, 106, false, 'a', End>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 0, false, 1002, false, 'a', RecvTimed<Big, 'a', 1, true, 62, true, 'b', RecvTimed<Br1B, 'a', -1, false, 106, false, 'a', End>>>, SendTimed<u64, 'a', 3, false, 106, true, ' ', End>, RoleA<RoleA<RoleC<RoleA<RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Br1C, 'a', -1, false, 106, false, 'a', End>, RecvTimed<u64, 'a', 3, false, 106, true, ' ', End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, RecvTimed<String, 'a', 0, true, 101, false, ' ', SendTimed<Big, 'a', 0, true, 101, false, 'a', End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<End, SendTimed<String, 'a', 0, true, 101, false, ' ', RecvTimed<Big, 'a', 0, true, 101, false, 'a', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<SendTimed<String, 'a', 1, false, 63, false, ' ', End>, RecvTimed<(u64, Box<Tok>), 'a', -1, true, 63, true, 'b', End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<RecvTimed<String, 'a', 1, false, 63, false, ' ', End>, SendTimed<String, 'a', 2, true, 63, false, ' ', SendTimed<String, 'a', 1, true, 1003, true, 'a', End>>, RoleA<RoleC<RoleC<RoleEnd>>>, NameB>;
type B1_0_C = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', -1, true, 63, true, 'b', End>, RecvTimed<String, 'a', 2, true, 63, false, ' ', RecvTimed<String, 'a', 1, true, 1003, true, 'a', End>>, RoleA<RoleB<RoleB<RoleEnd>>>, NameC>;
type B1_1_A = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 0, true, 61, false, 'a', SendTimed<Br2B, 'a', 2, true, 123, true, 'a', End>>, SendTimed<Br2C, 'a', 0, false, 163, true, 'a', End>, RoleB<RoleBroadcast>, NameA>;
type B1_1_B = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 61, false, 'a', RecvTimed<Br2B, 'a', 2, true, 123, true, 'a', End>>, SendTimed<Big, 'a', 0, true, 61, true, 'a', RecvTimed<Big, 'a', 1, true, 1002, true, 'a', RecvTimed<i64, 'a', 1, true, 102, true, 'a', End>>>, RoleC<RoleC<RoleC<RoleA<RoleA<RoleEnd>>>>>, NameB>;
type B1_1_C = MeshedChannels<RecvTimed<Br2C, 'a', 0, false, 163, true, 'a', End>, RecvTimed<Big, 'a', 0, true, 61, true, 'a', SendTimed<Big, 'a', 1, true, 1002, true, 'a', SendTimed<i64, 'a', 1, true, 102, true, 'a', End>>>, RoleB<RoleB<RoleB<RoleA<RoleEnd>>>>, NameC>;
type B1_2_A = MeshedChannels<SendTimed<Br1B, 'a', 2, false, 1004, false, 'a', End>, SendTimed<Br1C, 'a', 2, false, 1004, false, 'a', End>, RoleBroadcast, NameA>;
type B1_2_B = MeshedChannels<RecvTimed<Br1B, 'a', 2, false, 1004, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type B1_2_C = MeshedChannels<RecvTimed<Br1C, 'a', 2, false, 1004, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C), L2(B1_2_C) } unsafe impl std::marker::Send for Br1C {}
type B2_0_A = MeshedChannels<SendTimed<Br1B, 'a', 1, false, 63, false, 'a', End>, SendTimed<Br1C, 'a', 1, false, 63, false, 'a', End>, RoleBroadcast, NameA>;
type B2_0_B = MeshedChannels<RecvTimed<Br1B, 'a', 1, false, 63, false, 'a', End>, SendTimed<(u64, Box<Tok>), 'a', -2, false, -1, false, 'a', RecvTimed<i64, 'a', 1, true, 62, true, ' ', End>>, RoleC<RoleC<RoleA<RoleEnd>>>, NameB>;
type B2_0_C = MeshedChannels<RecvTimed<Br1C, 'a', 1, false, 63, false, 'a', End>, RecvTimed<(u64, Box<Tok>), 'a', -2, false, -1, false, 'a', SendTimed<i64, 'a', 1, true, 62, true, ' ', End>>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>;
type B2_1_A = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 0, true, 1001, true, 'a', SendTimed<String, 'a', 0, false, 102, false, 'a', SendTimed<u64, 'a', 2, true, -1, false, ' ', End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B2_1_B = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 1001, true, 'a', RecvTimed<String, 'a', 0, false, 102, false, 'a', RecvTimed<u64, 'a', 2, true, -1, false, ' ', End>>>, RecvTimed<(u64, Box<Tok>), 'a', 1, false, 1003, true, 'a', End>, RoleA<RoleA<RoleC<RoleA<RoleEnd>>>>, NameB>;
type B2_1_C = MeshedChannels<End, SendTimed<(u64, Box<Tok>), 'a', 1, false, 1003, true, 'a', End>, RoleB<RoleEnd>, NameC>;
type B2_2_A = MeshedChannels<RecvTimed<u64, 'a', 2, false, 1007, true, ' ', SendTimed<Tok, 'a', 8, true, 69, true, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B2_2_B = MeshedChannels<SendTimed<u64, 'a', 2, false, 1007, true, ' ', RecvTimed<Tok, 'a', 8, true, 69, true, 'a', End>>, SendTimed<i64, 'a', 2, false, 1004, true, 'a', SendTimed<i64, 'a', 0, true, 61, false, ' ', End>>, RoleC<RoleC<RoleA<RoleA<RoleEnd>>>>, NameB>;
type B2_2_C = MeshedChannels<End, RecvTimed<i64, 'a', 2, false, 1004, true, 'a', RecvTimed<i64, 'a', 0, true, 61, false, ' ', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br2B { L0(B2_0_B), L1(B2_1_B), L2(B2_2_B) } unsafe impl std::marker::Send for Br2B {}
pub enum Br2C { L0(B2_0_C), L1(B2_1_C), L2(B2_2_C) } unsafe impl std::marker::Send for Br2C {}
type C0_A = MeshedChannels<RecvTimed<Br0A, 'b', 2, true, 1063, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Br0A, 'b', 2, true, 1063, true, 'a', End>, SendTimed<Br0C, 'b', 3, true, 124, false, 'a', End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Br0C, 'b', 3, true, 124, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<SendTimed<Br1B, 'a', -1, false, 106, false, 'a', End>, SendTimed<Br1C, 'a', -1, false, 106, false, 'a', End>, RoleBroadcast, NameA>;
type C1_B = MeshedChannels<RecvTimed<Br1B, 'a', -1, false, 106, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C1_C = MeshedChannels<RecvTimed<Br1C, 'a', -1, false, 106, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C3_A = MeshedChannels<SendTimed<Br2B, 'a', 2, true, 123, true, 'a', End>, SendTimed<Br2C, 'a', 0, false, 163, true, 'a', End>, RoleBroadcast, NameA>;
type C3_B = MeshedChannels<RecvTimed<Br2B, 'a', 2, true, 123, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C3_C = MeshedChannels<RecvTimed<Br2C, 'a', 0, false, 163, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C4_A = MeshedChannels<SendTimed<Br1B, 'a', 1, false, 63, false, 'a', End>, SendTimed<Br1C, 'a', 1, false, 63, false, 'a', End>, RoleBroadcast, NameA>;
type C4_B = MeshedChannels<RecvTimed<Br1B, 'a', 1, false, 63, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C4_C = MeshedChannels<RecvTimed<Br1C, 'a', 1, false, 63, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C5_A = MeshedChannels<SendTimed<Br1B, 'a', 2, false, 1004, false, 'a', End>, SendTimed<Br1C, 'a', 2, false, 1004, false, 'a', End>, RoleBroadcast, NameA>;
type C5_B = MeshedChannels<RecvTimed<Br1B, 'a', 2, false, 1004, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C5_C = MeshedChannels<RecvTimed<Br1C, 'a', 2, false, 1004, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<String, 'a', -1, true, 1001, true, ' ', RecvTimed<Br0A, 'b', 2, true, 1063, true, 'a', End>>, RecvTimed<i64, 'b', -1, false, 62, false, ' ', RecvTimed<u64, 'a', -2, false, -1, false, ' ', End>>, RoleC<RoleC<RoleB<RoleB<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<String, 'a', -1, true, 1001, true, ' ', SendTimed<Br0A, 'b', 2, true, 1063, true, 'a', End>>, SendTimed<Tok, 'a', 0, true, -1, false, ' ', SendTimed<Br0C, 'b', 3, true, 124, false, 'a', End>>, RoleC<RoleA<RoleBroadcast>>, NameB>;
type S_C = MeshedChannels<SendTimed<i64, 'b', -1, false, 62, false, ' ', SendTimed<u64, 'a', -2, false, -1, false, ' ', End>>, RecvTimed<Tok, 'a', 0, true, -1, false, ' ', RecvTimed<Br0C, 'b', 3, true, 124, false, 'a', End>>, RoleA<RoleA<RoleB<RoleB<RoleEnd>>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 2, is: true, e: 1063, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 62, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    },
    Br0A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: 1063, ie: true, reset: 'a' }), (2, Win { clock: 'b', s: 3, is: true, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L0, Br0C::L0)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 62, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 3, is: false, e: 106, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_b(s, h, cl)
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L1, Br0C::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 3, is: true, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 3, is: false, e: 106, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: false, e: 106, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: -1, is: false, e: 106, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B1_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L0, Br1C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B1_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L1, Br1C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_a(s, h, cl)
    }
    _ => { let s: B1_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L2, Br1C::L2)))?;
      c5_a(s, h, cl)
    }
  }
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: 106, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      c3_b(s, h, cl)
    },
    Br1B::L2(s) => { h.offered(0, 2, taken, cl);
      c5_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: 106, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_c(s, h, cl)
    },
    Br1C::L2(s) => { h.offered(0, 2, taken, cl);
      c5_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 123, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 0, is: false, e: 163, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 1) {
    0 => { let s: B2_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L0, Br2C::L0)))?;
      c4_a(s, h, cl)
    }
    1 => { let s: B2_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L1, Br2C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B2_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L2, Br2C::L2)))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 1007, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 8, is: true, e: 69, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 123, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      c4_b(s, h, cl)
    },
    Br2B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 1, is: false, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2B::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 2, is: false, e: 1004, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 1007, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 8, is: true, e: 69, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 163, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c4_c(s, h, cl)
    },
    Br2C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 1, is: false, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2C::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 1004, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_a(s: C4_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B1_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L0, Br1C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B1_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L1, Br1C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_a(s, h, cl)
    }
    _ => { let s: B1_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L2, Br1C::L2)))?;
      c5_a(s, h, cl)
    }
  }
}
fn c4_b(s: C4_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      c3_b(s, h, cl)
    },
    Br1B::L2(s) => { h.offered(0, 2, taken, cl);
      c5_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_c(s: C4_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_c(s, h, cl)
    },
    Br1C::L2(s) => { h.offered(0, 2, taken, cl);
      c5_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_a(s: C5_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 1004, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: false, e: 1004, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B1_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L0, Br1C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B1_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L1, Br1C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_a(s, h, cl)
    }
    _ => { let s: B1_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br1B::L2, Br1C::L2)))?;
      c5_a(s, h, cl)
    }
  }
}
fn c5_b(s: C5_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 1004, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      c3_b(s, h, cl)
    },
    Br1B::L2(s) => { h.offered(0, 2, taken, cl);
      c5_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_c(s: C5_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 1004, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 63, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1003, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_c(s, h, cl)
    },
    Br1C::L2(s) => { h.offered(0, 2, taken, cl);
      c5_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: false, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
  let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
  let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_0", n: 3, tree: false, max: 7, go };
}
pub mod p6 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<String, 'b', 0, true, 2, true, ' ', End>, SendTimed<Option<Vec<u64>>, 'b', 10, false, 20, true, ' ', End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<String, 'b', 0, true, 2, true, ' ', End>, RecvTimed<u64, 'a', -1, true, 20, true, ' ', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'b', 10, false, 20, true, ' ', End>, SendTimed<u64, 'a', -1, true, 20, true, ' ', End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<SendTimed<Big, 'b', 2, true, 4, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<RecvTimed<Big, 'b', 2, true, 4, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'b', 0, false, 167, true, 'b', End>, SendTimed<Br0C, 'a', -1, true, 162, false, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'b', 0, false, 167, true, 'b', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', -1, true, 162, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 4, true, 'b', SendTimed<Br0B, 'b', 0, false, 167, true, 'b', End>>, RecvTimed<String, 'a', 0, true, 2, true, 'a', RecvTimed<Tok, 'a', 4, false, 6, true, 'a', SendTimed<u64, 'b', 7, true, 13, false, 'a', SendTimed<Br0C, 'a', -1, true, 162, false, 'a', End>>>>, RoleC<RoleC<RoleC<RoleB<RoleBroadcast>>>>, NameA>;
type S_B = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 0, true, 4, true, 'b', RecvTimed<Br0B, 'b', 0, false, 167, true, 'b', End>>, SendTimed<Big, 'a', 2, true, 4, true, ' ', End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<SendTimed<String, 'a', 0, true, 2, true, 'a', SendTimed<Tok, 'a', 4, false, 6, true, 'a', RecvTimed<u64, 'b', 7, true, 13, false, 'a', RecvTimed<Br0C, 'a', -1, true, 162, false, 'a', End>>>>, RecvTimed<Big, 'a', 2, true, 4, true, ' ', End>, RoleA<RoleB<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 167, ie: true, reset: 'b' }), (2, Win { clock: 'a', s: -1, is: true, e: 162, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 2, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      let w = &[(2, Win { clock: 'b', s: 10, is: false, e: 20, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      let w = &[(1, Win { clock: 'b', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 167, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 2, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: -1, is: true, e: 20, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 162, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 10, is: false, e: 20, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 20, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
  let w = &[(2, Win { clock: 'a', s: 4, is: false, e: 6, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
  let w = &[(2, Win { clock: 'b', s: 7, is: true, e: 13, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 4, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 4, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 4, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 4, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
  let w = &[(0, Win { clock: 'a', s: 4, is: false, e: 6, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 7, is: true, e: 13, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_1", n: 3, tree: true, max: 8, go };
}
pub mod p7 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<SendTimed<i64, 'a', 0, false, 102, false, 'b', SendTimed<Br0B, 'a', 0, true, 1002, false, 'a', End>>, SendTimed<Br0C, 'a', 0, true, 1002, false, 'a', End>, RoleB<RoleBroadcast>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<i64, 'a', 0, false, 102, false, 'b', RecvTimed<Br0B, 'a', 0, true, 1002, false, 'a', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Br0C, 'a', 0, true, 1002, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<u64, 'a', 0, false, 1002, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<u64, 'a', 0, false, 1002, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_2_A = MeshedChannels<End, SendTimed<Big, 'a', 1, true, 102, false, ' ', RecvTimed<Option<Vec<u64>>, 'a', 2, true, 63, false, ' ', End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type B0_2_B = MeshedChannels<End, SendTimed<Option<Vec<u64>>, 'a', 0, true, 1002, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type B0_2_C = MeshedChannels<RecvTimed<Big, 'a', 1, true, 102, false, ' ', SendTimed<Option<Vec<u64>>, 'a', 2, true, 63, false, ' ', End>>, RecvTimed<Option<Vec<u64>>, 'a', 0, true, 1002, false, ' ', End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_3_A = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', 0, true, 101, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type B0_3_B = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 101, true, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type B0_3_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B), L3(B0_3_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C), L3(B0_3_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', 0, true, 65, false, 'a', End>, SendTimed<Br0C, 'a', 0, true, 65, false, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, true, 65, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', 0, true, 65, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C1_A = MeshedChannels<SendTimed<Br0B, 'a', 0, true, 1002, false, 'a', End>, SendTimed<Br0C, 'a', 0, true, 1002, false, 'a', End>, RoleBroadcast, NameA>;
type C1_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, true, 1002, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C1_C = MeshedChannels<RecvTimed<Br0C, 'a', 0, true, 1002, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<i64, 'b', 0, true, 1003, false, 'b', RecvTimed<i64, 'b', 0, true, 101, false, 'b', SendTimed<Big, 'b', 0, true, 103, true, 'b', SendTimed<Br0B, 'a', 0, true, 65, false, 'a', End>>>>, RecvTimed<Tok, 'a', 2, true, 103, false, ' ', SendTimed<Tok, 'a', 4, true, 1005, true, 'a', SendTimed<Br0C, 'a', 0, true, 65, false, 'a', End>>>, RoleC<RoleB<RoleB<RoleB<RoleC<RoleBroadcast>>>>>, NameA>;
type S_B = MeshedChannels<SendTimed<i64, 'b', 0, true, 1003, false, 'b', SendTimed<i64, 'b', 0, true, 101, false, 'b', RecvTimed<Big, 'b', 0, true, 103, true, 'b', RecvTimed<Br0B, 'a', 0, true, 65, false, 'a', End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<SendTimed<Tok, 'a', 2, true, 103, false, ' ', RecvTimed<Tok, 'a', 4, true, 1005, true, 'a', RecvTimed<Br0C, 'a', 0, true, 65, false, 'a', End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 65, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 0, is: true, e: 65, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    2 => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2)))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_3_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L3, Br0C::L3)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 65, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L3(s) => { h.offered(0, 3, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 101, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 65, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L3(s) => { h.offered(0, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c1_a(s, h, cl)
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    2 => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2)))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_3_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L3, Br0C::L3)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 102, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1002, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L3(s) => { h.offered(0, 3, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 101, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 102, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1002, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 63, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L3(s) => { h.offered(0, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 103, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 1003, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 101, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 103, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'a', s: 4, is: true, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 1003, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 101, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 103, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 103, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 4, is: true, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_2", n: 3, tree: false, max: 8, go };
}
pub mod p8 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<i64, 'b', 6, false, 9, false, 'b', End>, RecvTimed<Big, 'a', 0, false, 4, true, 'a', End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<i64, 'b', 6, false, 9, false, 'b', End>, SendTimed<i64, 'a', 6, true, 12, true, 'a', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<SendTimed<Big, 'a', 0, false, 4, true, 'a', End>, RecvTimed<i64, 'a', 6, true, 12, true, 'a', End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<Br1A, 'a', 0, false, 1062, true, 'a', End>, RecvTimed<String, 'b', 3, true, 5, true, ' ', End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<Br1A, 'a', 0, false, 1062, true, 'a', End>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 2, false, ' ', RecvTimed<String, 'a', -1, false, 3, true, ' ', SendTimed<Br1C, 'a', 3, false, 125, false, ' ', End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<SendTimed<String, 'b', 3, true, 5, true, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 0, true, 2, false, ' ', SendTimed<String, 'a', -1, false, 3, true, ' ', RecvTimed<Br1C, 'a', 3, false, 125, false, ' ', End>>>, RoleA<RoleB<RoleB<RoleB<RoleEnd>>>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
type C0_A = MeshedChannels<RecvTimed<Br0A, 'a', 2, false, 5, false, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Br0A, 'a', 2, false, 5, false, 'a', End>, SendTimed<Br0C, 'a', 2, false, 5, false, 'a', End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Br0C, 'a', 2, false, 5, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type C2_A = MeshedChannels<RecvTimed<Br1A, 'a', 0, false, 1062, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C2_B = MeshedChannels<SendTimed<Br1A, 'a', 0, false, 1062, true, 'a', End>, SendTimed<Br1C, 'a', 3, false, 125, false, ' ', End>, RoleBroadcast, NameB>;
type C2_C = MeshedChannels<End, RecvTimed<Br1C, 'a', 3, false, 125, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<Br0A, 'a', 2, false, 5, false, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type S_B = MeshedChannels<SendTimed<Br0A, 'a', 2, false, 5, false, 'a', End>, SendTimed<Br0C, 'a', 2, false, 5, false, 'a', End>, RoleBroadcast, NameB>;
type S_C = MeshedChannels<End, RecvTimed<Br0C, 'a', 2, false, 5, false, 'a', End>, RoleB<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      let w = &[(1, Win { clock: 'b', s: 6, is: false, e: 9, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 3, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      c2_a(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 5, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: false, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L0, Br0C::L0)))?;
      let w = &[(0, Win { clock: 'b', s: 6, is: false, e: 9, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 6, is: true, e: 12, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L1, Br0C::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      let w = &[(2, Win { clock: 'a', s: -1, is: false, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      c2_b(s, h, cl)
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 6, is: true, e: 12, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 3, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -1, is: false, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 3, is: false, e: 125, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 3, is: false, e: 125, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_3", n: 3, tree: true, max: 6, go };
}
pub mod p9 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, SendTimed<String, 'a', 0, false, 102, true, ' ', End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, RecvTimed<String, 'a', 0, false, 102, true, ' ', End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<Tok, 'a', 1, true, 62, false, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 2, false, 104, true, ' ', RecvTimed<String, 'a', 3, false, 1005, true, 'a', RecvTimed<Br0A, 'a', 2, true, 123, true, 'a', End>>>, RoleB<RoleC<RoleC<RoleC<RoleEnd>>>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<Tok, 'a', 1, true, 62, false, ' ', End>, SendTimed<Option<Vec<u64>>, 'a', 0, true, 102, true, 'a', RecvTimed<Br0B, 'a', 4, false, 129, false, 'a', End>>, RoleA<RoleC<RoleC<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'a', 2, false, 104, true, ' ', SendTimed<String, 'a', 3, false, 1005, true, 'a', SendTimed<Br0A, 'a', 2, true, 123, true, 'a', End>>>, RecvTimed<Option<Vec<u64>>, 'a', 0, true, 102, true, 'a', SendTimed<Br0B, 'a', 4, false, 129, false, 'a', End>>, RoleA<RoleA<RoleB<RoleBroadcast>>>, NameC>;
type B0_2_A = MeshedChannels<RecvTimed<i64, 'a', 0, true, 101, false, ' ', RecvTimed<Br1A, 'a', -2, false, -1, false, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_2_B = MeshedChannels<SendTimed<i64, 'a', 0, true, 101, false, ' ', SendTimed<Br1A, 'a', -2, false, -1, false, 'a', End>>, SendTimed<Br1C, 'a', -2, false, -1, false, 'a', End>, RoleA<RoleBroadcast>, NameB>;
type B0_2_C = MeshedChannels<End, RecvTimed<Br1C, 'a', -2, false, -1, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type B0_3_A = MeshedChannels<SendTimed<Tok, 'a', 3, true, 104, true, 'a', RecvTimed<String, 'a', -2, false, -1, false, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_3_B = MeshedChannels<RecvTimed<Tok, 'a', 3, true, 104, true, 'a', SendTimed<String, 'a', -2, false, -1, false, 'a', End>>, SendTimed<(u64, Box<Tok>), 'a', 1, true, 102, true, 'b', RecvTimed<i64, 'b', 0, false, 63, true, ' ', End>>, RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type B0_3_C = MeshedChannels<End, RecvTimed<(u64, Box<Tok>), 'a', 1, true, 102, true, 'b', SendTimed<i64, 'b', 0, false, 63, true, ' ', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A), L3(B0_3_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B), L3(B0_3_B) } unsafe impl std::marker::Send for Br0B {}
type B1_0_A = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1001, true, 'b', SendTimed<Big, 'a', 1, true, 102, true, 'b', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1001, true, 'b', RecvTimed<Big, 'a', 1, true, 102, true, 'b', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<SendTimed<i64, 'a', 1, true, 102, true, 'a', RecvTimed<Br2A, 'a', 2, false, 1064, true, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<RecvTimed<i64, 'a', 1, true, 102, true, 'a', SendTimed<Br2A, 'a', 2, false, 1064, true, 'a', End>>, RecvTimed<u64, 'a', 0, true, 61, false, ' ', SendTimed<Br2C, 'a', 3, true, 165, true, 'a', End>>, RoleA<RoleC<RoleBroadcast>>, NameB>;
type B1_1_C = MeshedChannels<End, SendTimed<u64, 'a', 0, true, 61, false, ' ', RecvTimed<Br2C, 'a', 3, true, 165, true, 'a', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
type B2_0_A = MeshedChannels<RecvTimed<Br2A, 'a', 0, false, -1, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<SendTimed<Br2A, 'a', 0, false, -1, true, 'a', End>, SendTimed<Br2C, 'a', 0, false, -1, true, 'a', End>, RoleBroadcast, NameB>;
type B2_0_C = MeshedChannels<End, RecvTimed<Br2C, 'a', 0, false, -1, true, 'a', End>, RoleB<RoleEnd>, NameC>;
type B2_1_A = MeshedChannels<SendTimed<String, 'a', 1, true, 1002, false, 'a', End>, RecvTimed<String, 'a', 0, true, 1001, false, 'a', End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B2_1_B = MeshedChannels<RecvTimed<String, 'a', 1, true, 1002, false, 'a', End>, RecvTimed<u64, 'a', -2, false, -1, false, ' ', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B2_1_C = MeshedChannels<SendTimed<String, 'a', 0, true, 1001, false, 'a', End>, SendTimed<u64, 'a', -2, false, -1, false, ' ', End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B2_2_A = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 61, true, 'b', End>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1001, true, ' ', RecvTimed<Br0A, 'a', 1, true, 122, true, 'a', End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B2_2_B = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 0, true, 61, true, 'b', End>, RecvTimed<Br0B, 'a', 0, true, 122, false, 'a', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B2_2_C = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1001, true, ' ', SendTimed<Br0A, 'a', 1, true, 122, true, 'a', End>>, SendTimed<Br0B, 'a', 0, true, 122, false, 'a', End>, RoleA<RoleBroadcast>, NameC>;
type B2_3_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_3_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_3_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br2A { L0(B2_0_A), L1(B2_1_A), L2(B2_2_A), L3(B2_3_A) } unsafe impl std::marker::Send for Br2A {}
pub enum Br2C { L0(B2_0_C), L1(B2_1_C), L2(B2_2_C), L3(B2_3_C) } unsafe impl std::marker::Send for Br2C {}
type C0_A = MeshedChannels<End, RecvTimed<Br0A, 'a', -2, false, -1, false, 'a', End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, RecvTimed<Br0B, 'b', 0, false, 1062, false, 'a', End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<SendTimed<Br0A, 'a', -2, false, -1, false, 'a', End>, SendTimed<Br0B, 'b', 0, false, 1062, false, 'a', End>, RoleBroadcast, NameC>;
type C2_A = MeshedChannels<End, RecvTimed<Br0A, 'a', 2, true, 123, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C2_B = MeshedChannels<End, RecvTimed<Br0B, 'a', 4, false, 129, false, 'a', End>, RoleC<RoleEnd>, NameB>;
type C2_C = MeshedChannels<SendTimed<Br0A, 'a', 2, true, 123, true, 'a', End>, SendTimed<Br0B, 'a', 4, false, 129, false, 'a', End>, RoleBroadcast, NameC>;
type C3_A = MeshedChannels<RecvTimed<Br1A, 'a', -2, false, -1, false, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C3_B = MeshedChannels<SendTimed<Br1A, 'a', -2, false, -1, false, 'a', End>, SendTimed<Br1C, 'a', -2, false, -1, false, 'a', End>, RoleBroadcast, NameB>;
type C3_C = MeshedChannels<End, RecvTimed<Br1C, 'a', -2, false, -1, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type C5_A = MeshedChannels<RecvTimed<Br2A, 'a', 2, false, 1064, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C5_B = MeshedChannels<SendTimed<Br2A, 'a', 2, false, 1064, true, 'a', End>, SendTimed<Br2C, 'a', 3, true, 165, true, 'a', End>, RoleBroadcast, NameB>;
type C5_C = MeshedChannels<End, RecvTimed<Br2C, 'a', 3, true, 165, true, 'a', End>, RoleB<RoleEnd>, NameC>;
type C6_A = MeshedChannels<RecvTimed<Br2A, 'a', 0, false, -1, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C6_B = MeshedChannels<SendTimed<Br2A, 'a', 0, false, -1, true, 'a', End>, SendTimed<Br2C, 'a', 0, false, -1, true, 'a', End>, RoleBroadcast, NameB>;
type C6_C = MeshedChannels<End, RecvTimed<Br2C, 'a', 0, false, -1, true, 'a', End>, RoleB<RoleEnd>, NameC>;
type C8_A = MeshedChannels<End, RecvTimed<Br0A, 'a', 1, true, 122, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C8_B = MeshedChannels<End, RecvTimed<Br0B, 'a', 0, true, 122, false, 'a', End>, RoleC<RoleEnd>, NameB>;
type C8_C = MeshedChannels<SendTimed<Br0A, 'a', 1, true, 122, true, 'a', End>, SendTimed<Br0B, 'a', 0, true, 122, false, 'a', End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, RecvTimed<Br0A, 'a', -2, false, -1, false, 'a', End>, RoleC<RoleEnd>, NameA>;
type S_B = MeshedChannels<End, RecvTimed<Br0B, 'b', 0, false, 1062, false, 'a', End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<SendTimed<Br0A, 'a', -2, false, -1, false, 'a', End>, SendTimed<Br0B, 'b', 0, false, 1062, false, 'a', End>, RoleBroadcast, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      c2_a(s, h, cl)
    },
    Br0A::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      c3_a(s, h, cl)
    },
    Br0A::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 1062, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_b(s, h, cl)
    },
    Br0B::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' }), (1, Win { clock: 'b', s: 0, is: false, e: 1062, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 0) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c2_c(s, h, cl)
    }
    2 => { let s: B0_2_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L2, Br0B::L2)))?;
      c3_c(s, h, cl)
    }
    _ => { let s: B0_3_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L3, Br0B::L3)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 123, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      c2_a(s, h, cl)
    },
    Br0A::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      c3_a(s, h, cl)
    },
    Br0A::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 4, is: false, e: 129, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_b(s, h, cl)
    },
    Br0B::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 123, ie: true, reset: 'a' }), (1, Win { clock: 'a', s: 4, is: false, e: 129, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 0) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c2_c(s, h, cl)
    }
    2 => { let s: B0_2_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L2, Br0B::L2)))?;
      c3_c(s, h, cl)
    }
    _ => { let s: B0_3_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L3, Br0B::L3)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c5_a(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      c5_b(s, h, cl)
    }
  }
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c5_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_a(s: C5_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 1064, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2A::L0(s) => { h.offered(1, 0, taken, cl);
      c6_a(s, h, cl)
    },
    Br2A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2A::L2(s) => { h.offered(1, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      c8_a(s, h, cl)
    },
    Br2A::L3(s) => { h.offered(1, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_b(s: C5_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 1064, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 3, is: true, e: 165, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 1) {
    0 => { let s: B2_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L0, Br2C::L0)))?;
      c6_b(s, h, cl)
    }
    1 => { let s: B2_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L1, Br2C::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    2 => { let s: B2_2_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L2, Br2C::L2)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c8_b(s, h, cl)
    }
    _ => { let s: B2_3_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L3, Br2C::L3)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c5_c(s: C5_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 3, is: true, e: 165, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(1, 0, taken, cl);
      c6_c(s, h, cl)
    },
    Br2C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2C::L2(s) => { h.offered(1, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c8_c(s, h, cl)
    },
    Br2C::L3(s) => { h.offered(1, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c6_a(s: C6_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2A::L0(s) => { h.offered(1, 0, taken, cl);
      c6_a(s, h, cl)
    },
    Br2A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2A::L2(s) => { h.offered(1, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      c8_a(s, h, cl)
    },
    Br2A::L3(s) => { h.offered(1, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c6_b(s: C6_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: -1, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 0, is: false, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 1) {
    0 => { let s: B2_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L0, Br2C::L0)))?;
      c6_b(s, h, cl)
    }
    1 => { let s: B2_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L1, Br2C::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 1002, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    2 => { let s: B2_2_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L2, Br2C::L2)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 61, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c8_b(s, h, cl)
    }
    _ => { let s: B2_3_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L3, Br2C::L3)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c6_c(s: C6_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(1, 0, taken, cl);
      c6_c(s, h, cl)
    },
    Br2C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2C::L2(s) => { h.offered(1, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1001, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c8_c(s, h, cl)
    },
    Br2C::L3(s) => { h.offered(1, 3, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c8_a(s: C8_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 122, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      c2_a(s, h, cl)
    },
    Br0A::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      c3_a(s, h, cl)
    },
    Br0A::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c8_b(s: C8_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 122, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 62, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 101, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c3_b(s, h, cl)
    },
    Br0B::L3(s) => { h.offered(2, 3, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 3, is: true, e: 104, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c8_c(s: C8_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 122, ie: true, reset: 'a' }), (1, Win { clock: 'a', s: 0, is: true, e: 122, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 4, 0) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 104, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 3, is: false, e: 1005, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 102, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c2_c(s, h, cl)
    }
    2 => { let s: B0_2_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L2, Br0B::L2)))?;
      c3_c(s, h, cl)
    }
    _ => { let s: B0_3_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L3, Br0B::L3)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 102, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 63, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_4", n: 3, tree: false, max: 7, go };
}
pub mod p10 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<SendTimed<u64, 'a', 5, false, 7, false, 'a', RecvTimed<i64, 'b', 1, false, 8, true, ' ', End>>, RecvTimed<Option<Vec<u64>>, 'a', 6, true, 7, true, 'a', End>, RoleB<RoleB<RoleC<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<u64, 'a', 5, false, 7, false, 'a', SendTimed<i64, 'b', 1, false, 8, true, ' ', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 6, true, 7, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<Br1A, 'a', 7, true, 133, false, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<Br1A, 'a', 7, true, 133, false, 'a', End>, RecvTimed<u64, 'a', 5, true, 7, true, 'a', RecvTimed<(u64, Box<Tok>), 'b', 0, false, 8, false, 'b', SendTimed<Br1C, 'b', 0, true, 167, false, 'b', End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, SendTimed<u64, 'a', 5, true, 7, true, 'a', SendTimed<(u64, Box<Tok>), 'b', 0, false, 8, false, 'b', RecvTimed<Br1C, 'b', 0, true, 167, false, 'b', End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<SendTimed<Tok, 'b', 0, true, 8, true, 'b', SendTimed<String, 'b', 0, false, 4, false, ' ', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_2_B = MeshedChannels<RecvTimed<Tok, 'b', 0, true, 8, true, 'b', RecvTimed<String, 'b', 0, false, 4, false, ' ', End>>, SendTimed<Tok, 'b', 2, true, 4, false, ' ', SendTimed<Option<Vec<u64>>, 'a', 9, false, -1, false, ' ', End>>, RoleA<RoleA<RoleC<RoleC<RoleEnd>>>>, NameB>;
type B0_2_C = MeshedChannels<End, RecvTimed<Tok, 'b', 2, true, 4, false, ' ', RecvTimed<Option<Vec<u64>>, 'a', 9, false, -1, false, ' ', End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, SendTimed<(u64, Box<Tok>), 'b', 8, false, 11, false, ' ', SendTimed<Tok, 'a', 1, false, 18, true, 'a', RecvTimed<Option<Vec<u64>>, 'b', -1, false, 20, false, ' ', End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_0_C = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 8, false, 11, false, ' ', RecvTimed<Tok, 'a', 1, false, 18, true, 'a', SendTimed<Option<Vec<u64>>, 'b', -1, false, 20, false, ' ', End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameC>;
type B1_1_A = MeshedChannels<End, RecvTimed<String, 'a', 2, true, 8, true, ' ', End>, RoleC<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<End, SendTimed<Tok, 'a', 0, true, 9, true, 'a', End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<SendTimed<String, 'a', 2, true, 8, true, ' ', End>, RecvTimed<Tok, 'a', 0, true, 9, true, 'a', End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B1_2_A = MeshedChannels<RecvTimed<Br2A, 'b', 9, true, 18, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<SendTimed<Br2A, 'b', 9, true, 18, true, 'a', End>, SendTimed<Br2C, 'b', 9, true, 18, true, 'a', End>, RoleBroadcast, NameB>;
type B1_2_C = MeshedChannels<End, RecvTimed<Br2C, 'b', 9, true, 18, true, 'a', End>, RoleB<RoleEnd>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C), L2(B1_2_C) } unsafe impl std::marker::Send for Br1C {}
type B2_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<SendTimed<Tok, 'a', 0, true, 2, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type B2_1_B = MeshedChannels<RecvTimed<Tok, 'a', 0, true, 2, false, 'b', End>, SendTimed<(u64, Box<Tok>), 'b', 0, true, 10, false, 'b', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B2_1_C = MeshedChannels<End, RecvTimed<(u64, Box<Tok>), 'b', 0, true, 10, false, 'b', End>, RoleB<RoleEnd>, NameC>;
pub enum Br2A { L0(B2_0_A), L1(B2_1_A) } unsafe impl std::marker::Send for Br2A {}
pub enum Br2C { L0(B2_0_C), L1(B2_1_C) } unsafe impl std::marker::Send for Br2C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', 2, false, 1064, false, ' ', End>, SendTimed<Br0C, 'a', 4, false, 126, false, 'b', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, false, 1064, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', 4, false, 126, false, 'b', End>, End, RoleA<RoleEnd>, NameC>;
type C2_A = MeshedChannels<RecvTimed<Br1A, 'a', 7, true, 133, false, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C2_B = MeshedChannels<SendTimed<Br1A, 'a', 7, true, 133, false, 'a', End>, SendTimed<Br1C, 'b', 0, true, 167, false, 'b', End>, RoleBroadcast, NameB>;
type C2_C = MeshedChannels<End, RecvTimed<Br1C, 'b', 0, true, 167, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type C5_A = MeshedChannels<RecvTimed<Br2A, 'b', 9, true, 18, true, 'a', End>, End, RoleB<RoleEnd>, NameA>;
type C5_B = MeshedChannels<SendTimed<Br2A, 'b', 9, true, 18, true, 'a', End>, SendTimed<Br2C, 'b', 9, true, 18, true, 'a', End>, RoleBroadcast, NameB>;
type C5_C = MeshedChannels<End, RecvTimed<Br2C, 'b', 9, true, 18, true, 'a', End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<Br0B, 'a', 2, false, 1064, false, ' ', End>, RecvTimed<Option<Vec<u64>>, 'b', -1, false, 3, false, 'a', SendTimed<(u64, Box<Tok>), 'a', -2, false, -1, false, 'a', RecvTimed<String, 'a', 0, true, 6, true, ' ', SendTimed<Option<Vec<u64>>, 'b', 0, false, 4, false, 'b', SendTimed<Br0C, 'a', 4, false, 126, false, 'b', End>>>>>, RoleC<RoleC<RoleC<RoleC<RoleBroadcast>>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, false, 1064, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<SendTimed<Option<Vec<u64>>, 'b', -1, false, 3, false, 'a', RecvTimed<(u64, Box<Tok>), 'a', -2, false, -1, false, 'a', SendTimed<String, 'a', 0, true, 6, true, ' ', RecvTimed<Option<Vec<u64>>, 'b', 0, false, 4, false, 'b', RecvTimed<Br0C, 'a', 4, false, 126, false, 'b', End>>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 1064, ie: false, reset: ' ' }), (2, Win { clock: 'a', s: 4, is: false, e: 126, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 5, is: false, e: 7, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: 1, is: false, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 6, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2)))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 4, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 1064, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 5, is: false, e: 7, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
      let w = &[(0, Win { clock: 'b', s: 1, is: false, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 5, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 8, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 4, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(2, Win { clock: 'b', s: 2, is: true, e: 4, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 9, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 4, is: false, e: 126, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 6, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 5, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 8, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_c(s, h, cl)
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 2, is: true, e: 4, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 9, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 7, is: true, e: 133, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 8, is: false, e: 11, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: false, e: 18, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: -1, is: false, e: 20, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1A::L2(s) => { h.offered(1, 2, taken, cl);
      c5_a(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 7, is: true, e: 133, ie: false, reset: 'a' }), (2, Win { clock: 'b', s: 0, is: true, e: 167, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 9, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B1_2_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L2, Br1C::L2)))?;
      c5_b(s, h, cl)
    }
  }
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 167, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 8, is: false, e: 11, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 1, is: false, e: 18, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 20, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 9, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br1C::L2(s) => { h.offered(1, 2, taken, cl);
      c5_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_a(s: C5_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 9, is: true, e: 18, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2A::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2A::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 2, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c5_b(s: C5_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 9, is: true, e: 18, ie: true, reset: 'a' }), (2, Win { clock: 'b', s: 9, is: true, e: 18, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B2_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L0, Br2C::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B2_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br2A::L1, Br2C::L1)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 2, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 10, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c5_c(s: C5_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 9, is: true, e: 18, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br2C::L1(s) => { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 10, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: false, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
  let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
  let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_5", n: 3, tree: true, max: 7, go };
}
pub mod p11 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'a', 0, false, -1, false, ' ', End>, SendTimed<Option<Vec<u64>>, 'a', 0, true, 3, true, 'a', SendTimed<u64, 'a', 2, false, -1, true, ' ', End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<(u64, Box<Tok>), 'a', 0, false, -1, false, ' ', End>, RecvTimed<Tok, 'b', 0, true, 2, true, 'b', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 3, true, 'a', RecvTimed<u64, 'a', 2, false, -1, true, ' ', End>>, SendTimed<Tok, 'b', 0, true, 2, true, 'b', End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<SendTimed<Option<Vec<u64>>, 'b', 3, true, 6, false, 'b', End>, SendTimed<Tok, 'a', 0, true, 5, true, ' ', End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_2_B = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'b', 3, true, 6, false, 'b', End>, RecvTimed<Option<Vec<u64>>, 'b', 3, true, 5, true, 'a', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<RecvTimed<Tok, 'a', 0, true, 5, true, ' ', End>, SendTimed<Option<Vec<u64>>, 'b', 3, true, 5, true, 'a', End>, RoleA<RoleB<RoleEnd>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, RecvTimed<Br0A, 'b', 0, true, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, RecvTimed<Br0B, 'b', 0, true, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<SendTimed<Br0A, 'b', 0, true, -1, false, ' ', End>, SendTimed<Br0B, 'b', 0, true, -1, false, ' ', End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, SendTimed<Option<Vec<u64>>, 'a', 0, false, 3, true, 'a', RecvTimed<Br0A, 'b', 0, true, -1, false, ' ', End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type S_B = MeshedChannels<End, SendTimed<String, 'a', -1, false, 3, true, ' ', RecvTimed<Br0B, 'b', 0, true, -1, false, ' ', End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 0, false, 3, true, 'a', SendTimed<Br0A, 'b', 0, true, -1, false, ' ', End>>, RecvTimed<String, 'a', -1, false, 3, true, ' ', SendTimed<Br0B, 'b', 0, true, -1, false, ' ', End>>, RoleA<RoleB<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 2, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 3, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(2, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 2, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L2(s) => { h.offered(2, 2, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 3, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      let w = &[(2, Win { clock: 'b', s: 3, is: true, e: 5, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' }), (1, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B0_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L0, Br0B::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L1, Br0B::L1)))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 2, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_2_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br0A::L2, Br0B::L2)))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(1, Win { clock: 'b', s: 3, is: true, e: 5, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -1, is: false, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
  let w = &[(1, Win { clock: 'a', s: -1, is: false, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r3_6", n: 3, tree: true, max: 7, go };
}
pub mod p12 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, SendTimed<i64, 'b', 0, false, 7, true, ' ', End>, SendTimed<Option<Vec<u64>>, 'a', -2, false, -1, false, 'a', End>, RoleC<RoleD<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<End, End, SendTimed<i64, 'b', -1, true, 9, false, ' ', End>, RoleD<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<i64, 'b', 0, false, 7, true, ' ', End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', -2, false, -1, false, 'a', End>, RecvTimed<i64, 'b', -1, true, 9, false, ' ', End>, End, RoleB<RoleA<RoleEnd>>, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, End, RoleEnd, NameC>;
type B0_1_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D) } unsafe impl std::marker::Send for Br0D {}
type C0_A = MeshedChannels<RecvTimed<Br0A, 'a', -1, true, 162, true, 'b', End>, End, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Br0A, 'a', -1, true, 162, true, 'b', End>, SendTimed<Br0C, 'a', 0, false, 1062, true, 'b', End>, SendTimed<Br0D, 'b', 3, true, 164, false, ' ', End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Br0C, 'a', 0, false, 1062, true, 'b', End>, End, RoleB<RoleEnd>, NameC>;
type C0_D = MeshedChannels<End, RecvTimed<Br0D, 'b', 3, true, 164, false, ' ', End>, End, RoleB<RoleEnd>, NameD>;
type S_A = MeshedChannels<RecvTimed<Br0A, 'a', -1, true, 162, true, 'b', End>, SendTimed<Option<Vec<u64>>, 'b', -1, true, 3, true, 'b', SendTimed<String, 'b', -1, true, 2, false, ' ', End>>, RecvTimed<String, 'a', -1, true, 1, false, ' ', End>, RoleC<RoleD<RoleC<RoleB<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<SendTimed<Br0A, 'a', -1, true, 162, true, 'b', End>, SendTimed<Br0C, 'a', 0, false, 1062, true, 'b', End>, SendTimed<i64, 'b', 0, true, -1, true, 'b', SendTimed<Br0D, 'b', 3, true, 164, false, ' ', End>>, RoleD<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'b', -1, true, 3, true, 'b', RecvTimed<String, 'b', -1, true, 2, false, ' ', End>>, RecvTimed<Br0C, 'a', 0, false, 1062, true, 'b', End>, End, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type S_D = MeshedChannels<SendTimed<String, 'a', -1, true, 1, false, ' ', End>, RecvTimed<i64, 'b', 0, true, -1, true, 'b', RecvTimed<Br0D, 'b', 3, true, 164, false, ' ', End>>, End, RoleB<RoleA<RoleB<RoleEnd>>>, NameD>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 162, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: 7, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(3, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 162, ie: true, reset: 'b' }), (2, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'b' }), (3, Win { clock: 'b', s: 3, is: true, e: 164, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L0, Br0C::L0, Br0D::L0)))?;
      let w = &[(3, Win { clock: 'b', s: -1, is: true, e: 9, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L1, Br0C::L1, Br0D::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 7, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_d(s: C0_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 3, is: true, e: 164, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: -1, is: true, e: 9, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0D::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 3, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(3, Win { clock: 'a', s: -1, is: true, e: 1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(3, &x);
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(3, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 3, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
  let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
  c0_c(s, h, cl)
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_d(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r4_0", n: 4, tree: true, max: 7, go };
}
pub mod p13 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, End, SendTimed<(u64, Box<Tok>), 'b', 5, true, 8, true, 'b', SendTimed<i64, 'a', 5, false, 8, true, ' ', End>>, RoleD<RoleD<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<End, SendTimed<String, 'a', -2, false, -1, false, 'b', End>, RecvTimed<u64, 'b', 2, true, -1, true, 'b', End>, RoleD<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, RecvTimed<String, 'a', -2, false, -1, false, 'b', End>, End, RoleB<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 5, true, 8, true, 'b', RecvTimed<i64, 'a', 5, false, 8, true, ' ', End>>, SendTimed<u64, 'b', 2, true, -1, true, 'b', End>, End, RoleB<RoleA<RoleA<RoleEnd>>>, NameD>;
type B0_1_A = MeshedChannels<RecvTimed<u64, 'b', -1, false, 12, true, ' ', RecvTimed<i64, 'a', 2, true, 3, true, 'a', End>>, SendTimed<i64, 'a', 1, true, 7, true, 'a', End>, RecvTimed<String, 'a', 0, true, 1, true, ' ', End>, RoleC<RoleB<RoleB<RoleD<RoleEnd>>>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<u64, 'b', -1, false, 12, true, ' ', SendTimed<i64, 'a', 2, true, 3, true, 'a', End>>, End, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<i64, 'a', 1, true, 7, true, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_1_D = MeshedChannels<SendTimed<String, 'a', 0, true, 1, true, ' ', End>, End, End, RoleA<RoleEnd>, NameD>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D) } unsafe impl std::marker::Send for Br0D {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', 2, true, 9, false, 'a', End>, SendTimed<Br0C, 'a', 2, true, 9, false, 'a', End>, SendTimed<Br0D, 'a', 2, true, 9, false, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, true, 9, false, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, true, 9, false, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C0_D = MeshedChannels<RecvTimed<Br0D, 'a', 2, true, 9, false, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type S_A = MeshedChannels<RecvTimed<u64, 'a', 0, true, 4, false, 'a', SendTimed<Br0B, 'a', 2, true, 9, false, 'a', End>>, SendTimed<Br0C, 'a', 2, true, 9, false, 'a', End>, SendTimed<i64, 'a', 0, false, 2, false, 'a', SendTimed<Br0D, 'a', 2, true, 9, false, 'a', End>>, RoleB<RoleD<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<SendTimed<u64, 'a', 0, true, 4, false, 'a', RecvTimed<Br0B, 'a', 2, true, 9, false, 'a', End>>, RecvTimed<Option<Vec<u64>>, 'b', 2, true, -1, false, 'b', End>, End, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, true, 9, false, 'a', End>, SendTimed<Option<Vec<u64>>, 'b', 2, true, -1, false, 'b', End>, SendTimed<u64, 'a', 4, true, 6, false, 'a', End>, RoleB<RoleD<RoleA<RoleEnd>>>, NameC>;
type S_D = MeshedChannels<RecvTimed<i64, 'a', 0, false, 2, false, 'a', RecvTimed<Br0D, 'a', 2, true, 9, false, 'a', End>>, End, RecvTimed<u64, 'a', 4, true, 6, false, 'a', End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameD>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' }), (3, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      let w = &[(3, Win { clock: 'b', s: 5, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(3, Win { clock: 'a', s: 5, is: false, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      let w = &[(2, Win { clock: 'a', s: 1, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: -1, is: false, e: 12, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      let w = &[(3, Win { clock: 'a', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(3, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(3, Win { clock: 'b', s: 2, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(3, &x);
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 12, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_d(s: C0_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 9, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 2, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'b', s: 5, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      let w = &[(0, Win { clock: 'a', s: 5, is: false, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 4, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
  let w = &[(3, Win { clock: 'a', s: 0, is: false, e: 2, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 4, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(3, Win { clock: 'a', s: 4, is: true, e: 6, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_c(s, h, cl)
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 4, is: true, e: 6, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 2, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
  c0_d(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r4_1", n: 4, tree: true, max: 7, go };
}
pub mod p14 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, RecvTimed<(u64, Box<Tok>), 'a', 0, false, 62, true, ' ', End>, End, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, SendTimed<(u64, Box<Tok>), 'a', 0, false, 62, true, ' ', End>, End, RoleB<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type B0_1_A = MeshedChannels<SendTimed<Br0B, 'a', 2, false, 64, false, 'a', End>, SendTimed<Br0C, 'a', 2, false, 64, false, 'a', End>, SendTimed<Br0D, 'a', 2, false, 64, false, 'a', End>, RoleBroadcast, NameA>;
type B0_1_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_1_D = MeshedChannels<RecvTimed<Br0D, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type B0_2_A = MeshedChannels<SendTimed<Br0B, 'a', 0, false, 1062, true, 'a', End>, SendTimed<Br0C, 'a', 1, true, 122, false, 'a', End>, SendTimed<Br0D, 'a', 0, true, 1062, false, 'a', End>, RoleBroadcast, NameA>;
type B0_2_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, false, 1062, true, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type B0_2_C = MeshedChannels<RecvTimed<Br0C, 'a', 1, true, 122, false, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_2_D = MeshedChannels<RecvTimed<Br0D, 'a', 0, true, 1062, false, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'b', 0, true, 162, true, 'a', End>, SendTimed<Br0C, 'a', 2, false, 124, true, 'a', End>, SendTimed<Br0D, 'b', 2, true, 1063, true, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'b', 0, true, 162, true, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, false, 124, true, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C0_D = MeshedChannels<RecvTimed<Br0D, 'b', 2, true, 1063, true, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type C2_A = MeshedChannels<SendTimed<Br0B, 'a', 2, false, 64, false, 'a', End>, SendTimed<Br0C, 'a', 2, false, 64, false, 'a', End>, SendTimed<Br0D, 'a', 2, false, 64, false, 'a', End>, RoleBroadcast, NameA>;
type C2_B = MeshedChannels<RecvTimed<Br0B, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C2_C = MeshedChannels<RecvTimed<Br0C, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C2_D = MeshedChannels<RecvTimed<Br0D, 'a', 2, false, 64, false, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type C3_A = MeshedChannels<SendTimed<Br0B, 'a', 0, false, 1062, true, 'a', End>, SendTimed<Br0C, 'a', 1, true, 122, false, 'a', End>, SendTimed<Br0D, 'a', 0, true, 1062, false, 'a', End>, RoleBroadcast, NameA>;
type C3_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, false, 1062, true, 'a', End>, End, End, RoleA<RoleEnd>, NameB>;
type C3_C = MeshedChannels<RecvTimed<Br0C, 'a', 1, true, 122, false, 'a', End>, End, End, RoleA<RoleEnd>, NameC>;
type C3_D = MeshedChannels<RecvTimed<Br0D, 'a', 0, true, 1062, false, 'a', End>, End, End, RoleA<RoleEnd>, NameD>;
type S_A = MeshedChannels<SendTimed<Br0B, 'b', 0, true, 162, true, 'a', End>, RecvTimed<Option<Vec<u64>>, 'b', -1, false, 102, true, ' ', SendTimed<Br0C, 'a', 2, false, 124, true, 'a', End>>, SendTimed<u64, 'b', 0, false, 62, true, 'b', SendTimed<Br0D, 'b', 2, true, 1063, true, 'a', End>>, RoleD<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<RecvTimed<Br0B, 'b', 0, true, 162, true, 'a', End>, End, RecvTimed<Option<Vec<u64>>, 'b', -1, false, 104, false, 'a', End>, RoleD<RoleA<RoleEnd>>, NameB>;
type S_C = MeshedChannels<SendTimed<Option<Vec<u64>>, 'b', -1, false, 102, true, ' ', RecvTimed<Br0C, 'a', 2, false, 124, true, 'a', End>>, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type S_D = MeshedChannels<RecvTimed<u64, 'b', 0, false, 62, true, 'b', RecvTimed<Br0D, 'b', 2, true, 1063, true, 'a', End>>, SendTimed<Option<Vec<u64>>, 'b', -1, false, 104, false, 'a', End>, End, RoleB<RoleA<RoleA<RoleEnd>>>, NameD>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 162, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: false, e: 124, ie: true, reset: 'a' }), (3, Win { clock: 'b', s: 2, is: true, e: 1063, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2, Br0D::L2)))?;
      c3_a(s, h, cl)
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 162, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      c3_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 124, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      c2_c(s, h, cl)
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      c3_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_d(s: C0_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: 1063, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      c2_d(s, h, cl)
    },
    Br0D::L2(s) => { h.offered(0, 2, taken, cl);
      c3_d(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' }), (3, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2, Br0D::L2)))?;
      c3_a(s, h, cl)
    }
  }
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      c3_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      c2_c(s, h, cl)
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      c3_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_d(s: C2_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 64, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      c2_d(s, h, cl)
    },
    Br0D::L2(s) => { h.offered(0, 2, taken, cl);
      c3_d(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 1, is: true, e: 122, ie: false, reset: 'a' }), (3, Win { clock: 'a', s: 0, is: true, e: 1062, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 3, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0, Br0D::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    1 => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1, Br0D::L1)))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B0_2_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L2, Br0C::L2, Br0D::L2)))?;
      c3_a(s, h, cl)
    }
  }
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 1062, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      c2_b(s, h, cl)
    },
    Br0B::L2(s) => { h.offered(0, 2, taken, cl);
      c3_b(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 122, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 62, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      c2_c(s, h, cl)
    },
    Br0C::L2(s) => { h.offered(0, 2, taken, cl);
      c3_c(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_d(s: C3_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 1062, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0D::L0(s) => { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0D::L1(s) => { h.offered(0, 1, taken, cl);
      c2_d(s, h, cl)
    },
    Br0D::L2(s) => { h.offered(0, 2, taken, cl);
      c3_d(s, h, cl)
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(3, Win { clock: 'b', s: 0, is: false, e: 62, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<u64>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'b', s: -1, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(2, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(3, Win { clock: 'b', s: -1, is: false, e: 104, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(3, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 102, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_c(s, h, cl)
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: false, e: 104, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: 62, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
  c0_d(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r4_2", n: 4, tree: false, max: 6, go };
}
pub mod p15 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B);
type B0_0_A = MeshedChannels<End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, RoleEnd, NameB>;
type B0_1_A = MeshedChannels<SendTimed<String, 'a', 1, true, 3, false, 'a', SendTimed<i64, 'b', -1, true, 7, false, ' ', SendTimed<Big, 'b', 3, true, -1, true, 'b', End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<RecvTimed<String, 'a', 1, true, 3, false, 'a', RecvTimed<i64, 'b', -1, true, 7, false, ' ', RecvTimed<Big, 'b', 3, true, -1, true, 'b', End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', 0, true, -1, false, ' ', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', 0, true, -1, false, ' ', End>, RoleA<RoleEnd>, NameB>;
type S_A = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'b', 0, true, 1, true, ' ', RecvTimed<Option<Vec<u64>>, 'a', 0, true, 3, false, 'a', RecvTimed<i64, 'a', 2, true, 3, true, 'a', SendTimed<Br0B, 'a', 0, true, -1, false, ' ', End>>>>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type S_B = MeshedChannels<SendTimed<Option<Vec<u64>>, 'b', 0, true, 1, true, ' ', SendTimed<Option<Vec<u64>>, 'a', 0, true, 3, false, 'a', SendTimed<i64, 'a', 2, true, 3, true, 'a', RecvTimed<Br0B, 'a', 0, true, -1, false, ' ', End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1)))?;
      let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: -1, is: true, e: 7, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: 3, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 7, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
      let w = &[(0, Win { clock: 'b', s: 3, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl))));
  match f { Ok((j0, j1,)) => joined(vec![j0, j1]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/r2_0", n: 2, tree: true, max: 6, go };
}
pub mod p16 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<i64, 'a', 0, false, 7, true, 'a', End>, RecvTimed<Tok, 'a', 2, true, 8, true, 'a', SendTimed<Tok, 'b', 5, true, 13, true, 'b', End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<i64, 'a', 0, false, 7, true, 'a', End>, RecvTimed<String, 'a', 0, false, 2, true, 'a', End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<SendTimed<Tok, 'a', 2, true, 8, true, 'a', RecvTimed<Tok, 'b', 5, true, 13, true, 'b', End>>, SendTimed<String, 'a', 0, false, 2, true, 'a', End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type C0_A = MeshedChannels<RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, true, 5, true, ' ', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, true, 5, true, ' ', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, 5, true, ' ', End>, RoleBtoAll<RoleEnd, RoleC<RoleA<RoleEnd>>>, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, 5, true, ' ', End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, true, 5, true, ' ', End>, SendTimed<i64, 'b', 0, true, 3, true, 'b', End>, RoleC<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, true, 5, true, ' ', End>, SendTimed<u64, 'b', 2, false, -1, false, 'a', SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, 5, true, ' ', End>>, RoleC<RoleBtoAll<RoleEnd, RoleC<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<i64, 'b', 0, true, 3, true, 'b', End>, RecvTimed<u64, 'b', 2, false, -1, false, 'a', RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, 5, true, ' ', End>>, RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_A| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_A| -> R { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 8, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(2, &x);
      let w = &[(2, Win { clock: 'b', s: 5, is: true, e: 13, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' }), (2, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_B = h.op(cl, |cl| s.choose_left(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| s.choose_right(cl))?;
      let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(1, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 2, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 8, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'b', s: 5, is: true, e: 13, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 3, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 3, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
  let w = &[(1, Win { clock: 'b', s: 2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e3_0", n: 3, tree: true, max: 7, go };
}
pub mod p17 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, RecvTimed<u64, 'b', 1, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<End, SendTimed<u64, 'b', 1, false, -1, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<SendTimed<Either<B0_0_B, B0_1_B>, 'a', 14, true, 15, true, 'a', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 14, true, 15, true, 'a', End>, RoleAtoAll<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 14, true, 15, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 14, true, 15, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<String, 'a', 5, true, 8, true, ' ', RecvTimed<Tok, 'b', 7, false, -1, false, 'b', RecvTimed<u64, 'a', 12, true, 13, false, 'b', SendTimed<Either<B0_0_B, B0_1_B>, 'a', 14, true, 15, true, 'a', End>>>>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 14, true, 15, true, 'a', End>, RoleB<RoleB<RoleB<RoleAtoAll<RoleEnd, RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<String, 'a', 5, true, 8, true, ' ', SendTimed<Tok, 'b', 7, false, -1, false, 'b', SendTimed<u64, 'a', 12, true, 13, false, 'b', RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 14, true, 15, true, 'a', End>>>>, RecvTimed<(u64, Box<Tok>), 'b', 2, false, 5, false, 'b', End>, RoleC<RoleA<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 14, true, 15, true, 'a', End>, SendTimed<(u64, Box<Tok>), 'b', 2, false, 5, false, 'b', End>, RoleB<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 14, is: true, e: 15, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 14, is: true, e: 15, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 14, is: true, e: 15, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 14, is: true, e: 15, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 5, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'b', s: 7, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
  let w = &[(1, Win { clock: 'a', s: 12, is: true, e: 13, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 2, is: false, e: 5, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(2, &x);
  let w = &[(0, Win { clock: 'a', s: 5, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
  let w = &[(0, Win { clock: 'b', s: 7, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 12, is: true, e: 13, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 2, is: false, e: 5, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e3_1", n: 3, tree: true, max: 7, go };
}
pub mod p18 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<i64, 'b', -1, true, 9, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<i64, 'b', -1, true, 9, false, 'b', End>, End, RoleA<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<RecvTimed<Tok, 'a', -2, false, -1, false, 'a', SendTimed<(u64, Box<Tok>), 'a', 2, false, 6, false, 'a', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<Tok, 'a', -2, false, -1, false, 'a', RecvTimed<(u64, Box<Tok>), 'a', 2, false, 6, false, 'a', End>>, RecvTimed<String, 'b', 3, false, 5, false, 'b', End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<End, SendTimed<String, 'b', 3, false, 5, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<SendTimed<Either<B0_0_B, B0_1_B>, 'a', 0, true, -1, true, 'a', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, -1, true, 'a', End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleB<RoleEnd>>>, NameA>;
type C0_B = MeshedChannels<RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 0, true, -1, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, -1, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<Big, 'a', 1, true, 3, false, 'a', SendTimed<Either<B0_0_B, B0_1_B>, 'a', 0, true, -1, true, 'a', End>>, SendTimed<Tok, 'a', 2, true, 8, false, 'a', SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, -1, true, 'a', End>>, RoleC<RoleB<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleB<RoleEnd>>>>>, NameA>;
type S_B = MeshedChannels<SendTimed<Big, 'a', 1, true, 3, false, 'a', RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 0, true, -1, true, 'a', End>>, End, RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Tok, 'a', 2, true, 8, false, 'a', RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, true, -1, true, 'a', End>>, End, RoleA<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: -1, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 0, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      let w = &[(1, Win { clock: 'b', s: -1, is: true, e: 9, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 6, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 9, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(0, 1, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 3, is: false, e: 5, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 6, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 3, is: false, e: 5, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 8, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 1, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: 3, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 8, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e3_2", n: 3, tree: true, max: 6, go };
}
pub mod p19 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<u64, 'b', 0, true, 6, true, 'b', RecvTimed<(u64, Box<Tok>), 'a', 0, false, 7, false, ' ', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<u64, 'b', 0, true, 6, true, 'b', SendTimed<(u64, Box<Tok>), 'a', 0, false, 7, false, ' ', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<End, SendTimed<Option<Vec<u64>>, 'a', 3, true, 5, true, ' ', RecvTimed<Either<B1_0_A, B1_1_A>, 'b', 4, true, 6, true, ' ', End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, RecvTimed<Either<B1_0_B, B1_1_B>, 'b', 4, true, 6, true, ' ', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 3, true, 5, true, ' ', SendTimed<Either<B1_0_A, B1_1_A>, 'b', 4, true, 6, true, ' ', End>>, SendTimed<Either<B1_0_B, B1_1_B>, 'b', 4, true, 6, true, ' ', End>, RoleA<RoleCtoAll<RoleEnd, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<SendTimed<u64, 'b', 4, true, 6, false, 'b', RecvTimed<i64, 'b', 0, true, -1, false, ' ', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<RecvTimed<u64, 'b', 4, true, 6, false, 'b', SendTimed<i64, 'b', 0, true, -1, false, ' ', End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 4, false, 'b', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 4, false, 'b', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, false, 4, false, 'b', End>, RoleBtoAll<RoleA<RoleA<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, false, 4, false, 'b', End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<End, RecvTimed<Either<B1_0_A, B1_1_A>, 'b', 4, true, 6, true, ' ', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C2_B = MeshedChannels<End, RecvTimed<Either<B1_0_B, B1_1_B>, 'b', 4, true, 6, true, ' ', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<SendTimed<Either<B1_0_A, B1_1_A>, 'b', 4, true, 6, true, ' ', End>, SendTimed<Either<B1_0_B, B1_1_B>, 'b', 4, true, 6, true, ' ', End>, RoleCtoAll<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 4, false, 'b', End>, SendTimed<i64, 'a', -2, false, -1, false, 'a', End>, RoleC<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 4, false, 'b', End>, RecvTimed<Big, 'b', 0, true, 1, true, ' ', SendTimed<Either<B0_0_C, B0_1_C>, 'a', 0, false, 4, false, 'b', End>>, RoleC<RoleBtoAll<RoleA<RoleA<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<i64, 'a', -2, false, -1, false, 'a', End>, SendTimed<Big, 'b', 0, true, 1, true, ' ', RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 0, false, 4, false, 'b', End>>, RoleB<RoleA<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_A| -> R { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 6, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 7, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_A| -> R { h.offered(1, 1, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 3, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_a(s, h, cl)
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 4, ie: false, reset: 'b' }), (2, Win { clock: 'a', s: 0, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_B = h.op(cl, |cl| s.choose_left(cl))?;
      let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 6, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 7, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| s.choose_right(cl))?;
      c2_b(s, h, cl)
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 4, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(1, 1, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 3, is: true, e: 5, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      c2_c(s, h, cl)
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 4, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_A| -> R { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B1_1_A| -> R { h.offered(2, 1, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 4, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<u64>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 4, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_B| -> R { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B1_1_B| -> R { h.offered(2, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 4, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(0, &x);
      let w = &[(0, Win { clock: 'b', s: 0, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 4, is: true, e: 6, ie: true, reset: ' ' }), (1, Win { clock: 'b', s: 4, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B1_0_C = h.op(cl, |cl| s.choose_left(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B1_1_C = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<i64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 1, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(0, &x);
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e3_3", n: 3, tree: true, max: 5, go };
}
pub mod p20 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<Big, 'b', 4, true, 5, true, 'a', RecvTimed<Big, 'a', -2, false, -1, false, ' ', SendTimed<String, 'a', 0, false, 7, true, 'a', End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<Big, 'b', 4, true, 5, true, 'a', SendTimed<Big, 'a', -2, false, -1, false, ' ', RecvTimed<String, 'a', 0, false, 7, true, 'a', End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_1_A = MeshedChannels<End, RecvTimed<Big, 'b', 4, false, 11, false, 'a', End>, RoleC<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<SendTimed<Big, 'b', 4, false, 11, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<SendTimed<Either<B0_0_B, B0_1_B>, 'a', 1, true, -1, true, 'a', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 1, true, -1, true, 'a', End>, RoleAtoAll<RoleB<RoleB<RoleB<RoleEnd>>>, RoleC<RoleEnd>>, NameA>;
type C0_B = MeshedChannels<RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 1, true, -1, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 1, true, -1, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<Big, 'b', 0, true, -1, true, 'b', RecvTimed<u64, 'a', 2, true, 4, true, 'a', RecvTimed<Big, 'a', 0, false, 7, true, 'a', SendTimed<Tok, 'b', 2, true, 4, true, 'a', SendTimed<Either<B0_0_B, B0_1_B>, 'a', 1, true, -1, true, 'a', End>>>>>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 1, true, -1, true, 'a', End>, RoleB<RoleB<RoleB<RoleB<RoleAtoAll<RoleB<RoleB<RoleB<RoleEnd>>>, RoleC<RoleEnd>>>>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<Big, 'b', 0, true, -1, true, 'b', SendTimed<u64, 'a', 2, true, 4, true, 'a', SendTimed<Big, 'a', 0, false, 7, true, 'a', RecvTimed<Tok, 'b', 2, true, 4, true, 'a', RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 1, true, -1, true, 'a', End>>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 1, true, -1, true, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 1, is: true, e: -1, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 1, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      let w = &[(1, Win { clock: 'b', s: 4, is: true, e: 5, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<String>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      let w = &[(2, Win { clock: 'b', s: 4, is: false, e: 11, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 4, is: true, e: 5, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(0, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 1, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(0, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 4, is: false, e: 11, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
  let w = &[(1, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(1, &x);
  let w = &[(1, Win { clock: 'b', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: 4, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e3_4", n: 3, tree: true, max: 7, go };
}
pub mod p21 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, SendTimed<Tok, 'a', -2, false, -1, false, 'a', RecvTimed<i64, 'b', 5, true, 7, false, 'b', End>>, End, RoleC<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<End, End, SendTimed<Option<Vec<u64>>, 'a', 5, false, 12, false, ' ', SendTimed<Tok, 'a', 5, true, 8, true, ' ', End>>, RoleD<RoleD<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Tok, 'a', -2, false, -1, false, 'a', SendTimed<i64, 'b', 5, true, 7, false, 'b', End>>, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<End, RecvTimed<Option<Vec<u64>>, 'a', 5, false, 12, false, ' ', RecvTimed<Tok, 'a', 5, true, 8, true, ' ', End>>, End, RoleB<RoleB<RoleEnd>>, NameD>;
type B0_1_A = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 2, false, -1, false, ' ', End>, RecvTimed<String, 'a', 8, false, 20, true, 'b', End>, End, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<SendTimed<(u64, Box<Tok>), 'b', 2, false, -1, false, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 7, true, 14, true, 'a', End>, End, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<SendTimed<String, 'a', 8, false, 20, true, 'b', End>, RecvTimed<(u64, Box<Tok>), 'a', 7, true, 14, true, 'a', End>, End, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type C0_A = MeshedChannels<SendTimed<Either<B0_0_B, B0_1_B>, 'a', 5, true, 8, false, ' ', End>, SendTimed<Either<B0_0_C, B0_1_C>, 'a', 5, true, 8, false, ' ', End>, SendTimed<Either<B0_0_D, B0_1_D>, 'a', 5, true, 8, false, ' ', End>, RoleAtoAll<RoleC<RoleC<RoleEnd>>, RoleB<RoleC<RoleEnd>>>, NameA>;
type C0_B = MeshedChannels<RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 5, true, 8, false, ' ', End>, End, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 5, true, 8, false, ' ', End>, End, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C0_D = MeshedChannels<RecvTimed<Either<B0_0_D, B0_1_D>, 'a', 5, true, 8, false, ' ', End>, End, End, RoleAlltoA<RoleEnd, RoleEnd>, NameD>;
type S_A = MeshedChannels<SendTimed<Either<B0_0_B, B0_1_B>, 'a', 5, true, 8, false, ' ', End>, SendTimed<Tok, 'b', 2, true, 8, true, 'b', SendTimed<Either<B0_0_C, B0_1_C>, 'a', 5, true, 8, false, ' ', End>>, SendTimed<Either<B0_0_D, B0_1_D>, 'a', 5, true, 8, false, ' ', End>, RoleC<RoleAtoAll<RoleC<RoleC<RoleEnd>>, RoleB<RoleC<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 5, true, 8, false, ' ', End>, End, RecvTimed<Option<Vec<u64>>, 'b', 0, false, 2, false, 'a', RecvTimed<(u64, Box<Tok>), 'a', 0, true, 6, true, 'b', End>>, RoleD<RoleD<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<RecvTimed<Tok, 'b', 2, true, 8, true, 'b', RecvTimed<Either<B0_0_C, B0_1_C>, 'a', 5, true, 8, false, ' ', End>>, End, RecvTimed<Big, 'a', 2, true, 6, false, ' ', End>, RoleA<RoleD<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type S_D = MeshedChannels<RecvTimed<Either<B0_0_D, B0_1_D>, 'a', 5, true, 8, false, ' ', End>, SendTimed<Option<Vec<u64>>, 'b', 0, false, 2, false, 'a', SendTimed<(u64, Box<Tok>), 'a', 0, true, 6, true, 'b', End>>, SendTimed<Big, 'a', 2, true, 6, false, ' ', End>, RoleB<RoleB<RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>, NameD>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' }), (2, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' }), (3, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B0_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'b', s: 5, is: true, e: 7, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<i64>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      let w = &[(1, Win { clock: 'b', s: 2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(2, Win { clock: 'a', s: 8, is: false, e: 20, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(2, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(2, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(0, 0, taken, cl);
      let w = &[(3, Win { clock: 'a', s: 5, is: false, e: 12, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(3, Win { clock: 'a', s: 5, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Tok>(3, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(0, 1, taken, cl);
      let w = &[(0, Win { clock: 'b', s: 2, is: false, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      let w = &[(2, Win { clock: 'a', s: 7, is: true, e: 14, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_C| -> R { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
      let w = &[(0, Win { clock: 'b', s: 5, is: true, e: 7, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<i64>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_C| -> R { h.offered(0, 1, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 7, is: true, e: 14, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      let w = &[(0, Win { clock: 'a', s: 8, is: false, e: 20, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<String>(0, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_d(s: C0_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 5, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_D| -> R { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 5, is: false, e: 12, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      let w = &[(1, Win { clock: 'a', s: 5, is: true, e: 8, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(1, &x);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B0_1_D| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 2, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Tok>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(3, Win { clock: 'b', s: 0, is: false, e: 2, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(3, &x);
  let w = &[(3, Win { clock: 'a', s: 0, is: true, e: 6, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(3, &x);
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: 8, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Tok>(0, &x);
  let w = &[(3, Win { clock: 'a', s: 2, is: true, e: 6, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(3, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(3, &x);
  c0_c(s, h, cl)
}
fn start_d(s: S_D, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: false, e: 2, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(1, Win { clock: 'a', s: 0, is: true, e: 6, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  let w = &[(2, Win { clock: 'a', s: 2, is: true, e: 6, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
  c0_d(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl)), move |s: S_D, cl: &mut Clocks| T { me: 3 }.participant(cl, |h, cl| start_d(s, h, cl))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/e4_0", n: 4, tree: true, max: 7, go };
}
pub mod p22 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<Br1A, 'b', 1, true, 2, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<Br1A, 'b', 1, true, 2, true, ' ', End>, SendTimed<Br1C, 'b', 1, true, 2, true, ' ', End>, RoleBroadcast, NameB>;
type B0_0_C = MeshedChannels<End, RecvTimed<Br1C, 'b', 1, true, 2, true, ' ', End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, RecvTimed<Br2A, 'a', 2, false, 124, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, SendTimed<String, 'b', 1, true, 3, true, ' ', RecvTimed<Br2B, 'b', -1, true, 125, true, 'b', End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<SendTimed<Br2A, 'a', 2, false, 124, false, ' ', End>, RecvTimed<String, 'b', 1, true, 3, true, ' ', SendTimed<Br2B, 'b', -1, true, 125, true, 'b', End>>, RoleB<RoleBroadcast>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
type B2_0_A = MeshedChannels<SendTimed<Br3B, 'a', 4, true, 125, false, ' ', End>, SendTimed<Br3C, 'a', 5, false, -1, true, ' ', End>, RoleBroadcast, NameA>;
type B2_0_B = MeshedChannels<RecvTimed<Br3B, 'a', 4, true, 125, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<RecvTimed<Br3C, 'a', 5, false, -1, true, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br2A { L0(B2_0_A), L1(B2_1_A) } unsafe impl std::marker::Send for Br2A {}
pub enum Br2B { L0(B2_0_B), L1(B2_1_B) } unsafe impl std::marker::Send for Br2B {}
type B3_0_A = MeshedChannels<SendTimed<Big, 'a', -1, true, 8, false, ' ', RecvTimed<Br4A, 'b', 6, true, -1, false, 'b', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B3_0_B = MeshedChannels<RecvTimed<Big, 'a', -1, true, 8, false, ' ', SendTimed<Br4A, 'b', 6, true, -1, false, 'b', End>>, SendTimed<Br4C, 'b', 6, true, -1, false, 'b', End>, RoleA<RoleBroadcast>, NameB>;
type B3_0_C = MeshedChannels<End, RecvTimed<Br4C, 'b', 6, true, -1, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type B3_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B3_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B3_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br3B { L0(B3_0_B), L1(B3_1_B) } unsafe impl std::marker::Send for Br3B {}
pub enum Br3C { L0(B3_0_C), L1(B3_1_C) } unsafe impl std::marker::Send for Br3C {}
type B4_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B4_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br4A { L0(B4_0_A), L1(B4_1_A) } unsafe impl std::marker::Send for Br4A {}
pub enum Br4C { L0(B4_0_C), L1(B4_1_C) } unsafe impl std::marker::Send for Br4C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'a', -1, false, -1, false, 'a', End>, SendTimed<Br0C, 'a', -1, false, -1, false, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'a', -1, false, -1, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'a', -1, false, -1, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C1_A = MeshedChannels<RecvTimed<Br1A, 'b', 1, true, 2, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type C1_B = MeshedChannels<SendTimed<Br1A, 'b', 1, true, 2, true, ' ', End>, SendTimed<Br1C, 'b', 1, true, 2, true, ' ', End>, RoleBroadcast, NameB>;
type C1_C = MeshedChannels<End, RecvTimed<Br1C, 'b', 1, true, 2, true, ' ', End>, RoleB<RoleEnd>, NameC>;
type C2_A = MeshedChannels<End, RecvTimed<Br2A, 'a', 2, false, 124, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type C2_B = MeshedChannels<End, RecvTimed<Br2B, 'b', -1, true, 125, true, 'b', End>, RoleC<RoleEnd>, NameB>;
type C2_C = MeshedChannels<SendTimed<Br2A, 'a', 2, false, 124, false, ' ', End>, SendTimed<Br2B, 'b', -1, true, 125, true, 'b', End>, RoleBroadcast, NameC>;
type C3_A = MeshedChannels<SendTimed<Br3B, 'a', 4, true, 125, false, ' ', End>, SendTimed<Br3C, 'a', 5, false, -1, true, ' ', End>, RoleBroadcast, NameA>;
type C3_B = MeshedChannels<RecvTimed<Br3B, 'a', 4, true, 125, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type C3_C = MeshedChannels<RecvTimed<Br3C, 'a', 5, false, -1, true, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type C4_A = MeshedChannels<RecvTimed<Br4A, 'b', 6, true, -1, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type C4_B = MeshedChannels<SendTimed<Br4A, 'b', 6, true, -1, false, 'b', End>, SendTimed<Br4C, 'b', 6, true, -1, false, 'b', End>, RoleBroadcast, NameB>;
type C4_C = MeshedChannels<End, RecvTimed<Br4C, 'b', 6, true, -1, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<Br0B, 'a', -1, false, -1, false, 'a', End>, SendTimed<Br0C, 'a', -1, false, -1, false, 'a', End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<RecvTimed<Br0B, 'a', -1, false, -1, false, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<RecvTimed<Br0C, 'a', -1, false, -1, false, 'a', End>, End, RoleA<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: false, e: -1, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: -1, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: true, e: 2, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      c2_a(s, h, cl)
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: true, e: 2, ie: true, reset: ' ' }), (2, Win { clock: 'b', s: 1, is: true, e: 2, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      let w = &[(2, Win { clock: 'b', s: 1, is: true, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    }
    _ => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: true, e: 2, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 1, is: true, e: 3, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      c2_c(s, h, cl)
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 2, is: false, e: 124, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2A::L0(s) => { h.offered(2, 0, taken, cl);
      c3_a(s, h, cl)
    },
    Br2A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 125, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2B::L0(s) => { h.offered(2, 0, taken, cl);
      c3_b(s, h, cl)
    },
    Br2B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: false, e: 124, ie: false, reset: ' ' }), (1, Win { clock: 'b', s: -1, is: true, e: 125, ie: true, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B2_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br2A::L0, Br2B::L0)))?;
      c3_c(s, h, cl)
    }
    _ => { let s: B2_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br2A::L1, Br2B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 4, is: true, e: 125, ie: false, reset: ' ' }), (2, Win { clock: 'a', s: 5, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B3_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br3B::L0, Br3C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c4_a(s, h, cl)
    }
    _ => { let s: B3_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br3B::L1, Br3C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 4, is: true, e: 125, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 8, ie: false, reset: ' ' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      c4_b(s, h, cl)
    },
    Br3B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 5, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3C::L0(s) => { h.offered(0, 0, taken, cl);
      c4_c(s, h, cl)
    },
    Br3C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_a(s: C4_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 6, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4A::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_b(s: C4_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 6, is: true, e: -1, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: 6, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B4_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br4A::L0, Br4C::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B4_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br4A::L1, Br4C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c4_c(s: C4_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 6, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4C::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds0", n: 3, tree: true, max: 4, go };
}
pub mod p23 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, RecvTimed<Br1A, 'b', 1, false, 163, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, RecvTimed<Br1B, 'b', -1, false, -1, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<SendTimed<Br1A, 'b', 1, false, 163, true, 'a', End>, SendTimed<Br1B, 'b', -1, false, -1, false, 'b', End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<SendTimed<Br2B, 'b', 6, true, 9, true, ' ', End>, SendTimed<Br2C, 'b', 6, true, 9, true, ' ', End>, RoleBroadcast, NameA>;
type B1_0_B = MeshedChannels<RecvTimed<Br2B, 'b', 6, true, 9, true, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 4, false, -1, false, 'a', End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<RecvTimed<Br2C, 'b', 6, true, 9, true, ' ', End>, RecvTimed<(u64, Box<Tok>), 'a', 4, false, -1, false, 'a', End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B) } unsafe impl std::marker::Send for Br1B {}
type B2_0_A = MeshedChannels<RecvTimed<Br3A, 'b', 8, false, 17, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<SendTimed<Br3A, 'b', 8, false, 17, false, 'b', End>, SendTimed<Br3C, 'b', 8, false, 17, false, 'b', End>, RoleBroadcast, NameB>;
type B2_0_C = MeshedChannels<End, RecvTimed<Br3C, 'b', 8, false, 17, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br2B { L0(B2_0_B), L1(B2_1_B) } unsafe impl std::marker::Send for Br2B {}
pub enum Br2C { L0(B2_0_C), L1(B2_1_C) } unsafe impl std::marker::Send for Br2C {}
type B3_0_A = MeshedChannels<SendTimed<Option<Vec<u64>>, 'a', 6, false, 10, false, 'b', End>, RecvTimed<Br4A, 'a', -1, true, 1075, true, 'a', End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B3_0_B = MeshedChannels<RecvTimed<Option<Vec<u64>>, 'a', 6, false, 10, false, 'b', End>, RecvTimed<Br4B, 'b', 2, true, 1063, false, 'b', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B3_0_C = MeshedChannels<SendTimed<Br4A, 'a', -1, true, 1075, true, 'a', End>, SendTimed<Br4B, 'b', 2, true, 1063, false, 'b', End>, RoleBroadcast, NameC>;
type B3_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B3_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B3_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br3A { L0(B3_0_A), L1(B3_1_A) } unsafe impl std::marker::Send for Br3A {}
pub enum Br3C { L0(B3_0_C), L1(B3_1_C) } unsafe impl std::marker::Send for Br3C {}
type B4_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B4_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br4A { L0(B4_0_A), L1(B4_1_A) } unsafe impl std::marker::Send for Br4A {}
pub enum Br4B { L0(B4_0_B), L1(B4_1_B) } unsafe impl std::marker::Send for Br4B {}
type C0_A = MeshedChannels<RecvTimed<Br0A, 'b', 0, true, -1, true, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Br0A, 'b', 0, true, -1, true, 'b', End>, SendTimed<Br0C, 'b', 0, true, -1, true, 'b', End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Br0C, 'b', 0, true, -1, true, 'b', End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, RecvTimed<Br1A, 'b', 1, false, 163, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, RecvTimed<Br1B, 'b', -1, false, -1, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<SendTimed<Br1A, 'b', 1, false, 163, true, 'a', End>, SendTimed<Br1B, 'b', -1, false, -1, false, 'b', End>, RoleBroadcast, NameC>;
type C2_A = MeshedChannels<SendTimed<Br2B, 'b', 6, true, 9, true, ' ', End>, SendTimed<Br2C, 'b', 6, true, 9, true, ' ', End>, RoleBroadcast, NameA>;
type C2_B = MeshedChannels<RecvTimed<Br2B, 'b', 6, true, 9, true, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type C2_C = MeshedChannels<RecvTimed<Br2C, 'b', 6, true, 9, true, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type C3_A = MeshedChannels<RecvTimed<Br3A, 'b', 8, false, 17, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type C3_B = MeshedChannels<SendTimed<Br3A, 'b', 8, false, 17, false, 'b', End>, SendTimed<Br3C, 'b', 8, false, 17, false, 'b', End>, RoleBroadcast, NameB>;
type C3_C = MeshedChannels<End, RecvTimed<Br3C, 'b', 8, false, 17, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type C4_A = MeshedChannels<End, RecvTimed<Br4A, 'a', -1, true, 1075, true, 'a', End>, RoleC<RoleEnd>, NameA>;
type C4_B = MeshedChannels<End, RecvTimed<Br4B, 'b', 2, true, 1063, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type C4_C = MeshedChannels<SendTimed<Br4A, 'a', -1, true, 1075, true, 'a', End>, SendTimed<Br4B, 'b', 2, true, 1063, false, 'b', End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<RecvTimed<Br0A, 'b', 0, true, -1, true, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type S_B = MeshedChannels<SendTimed<Br0A, 'b', 0, true, -1, true, 'b', End>, SendTimed<Br0C, 'b', 0, true, -1, true, 'b', End>, RoleBroadcast, NameB>;
type S_C = MeshedChannels<End, RecvTimed<Br0C, 'b', 0, true, -1, true, 'b', End>, RoleB<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(1, 0, taken, cl);
      c1_a(s, h, cl)
    },
    Br0A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' }), (2, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L0, Br0C::L0)))?;
      c1_b(s, h, cl)
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L1, Br0C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(1, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: false, e: 163, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(2, 0, taken, cl);
      c2_a(s, h, cl)
    },
    Br1A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: 4, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    Br1B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: false, e: 163, ie: true, reset: 'a' }), (1, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br1A::L0, Br1B::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 4, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(1, &x);
      c2_c(s, h, cl)
    }
    _ => { let s: B1_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br1A::L1, Br1B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 6, is: true, e: 9, ie: true, reset: ' ' }), (2, Win { clock: 'b', s: 6, is: true, e: 9, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B2_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L0, Br2C::L0)))?;
      c3_a(s, h, cl)
    }
    _ => { let s: B2_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L1, Br2C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 6, is: true, e: 9, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2B::L0(s) => { h.offered(0, 0, taken, cl);
      c3_b(s, h, cl)
    },
    Br2B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 6, is: true, e: 9, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(0, 0, taken, cl);
      c3_c(s, h, cl)
    },
    Br2C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 8, is: false, e: 17, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'a', s: 6, is: false, e: 10, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c4_a(s, h, cl)
    },
    Br3A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 8, is: false, e: 17, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: 8, is: false, e: 17, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B3_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br3A::L0, Br3C::L0)))?;
      let w = &[(0, Win { clock: 'a', s: 6, is: false, e: 10, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(0, &x);
      c4_b(s, h, cl)
    }
    _ => { let s: B3_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br3A::L1, Br3C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 8, is: false, e: 17, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3C::L0(s) => { h.offered(1, 0, taken, cl);
      c4_c(s, h, cl)
    },
    Br3C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_a(s: C4_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: -1, is: true, e: 1075, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_b(s: C4_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 2, is: true, e: 1063, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4B::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_c(s: C4_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 1075, ie: true, reset: 'a' }), (1, Win { clock: 'b', s: 2, is: true, e: 1063, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B4_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br4A::L0, Br4B::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B4_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br4A::L1, Br4B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds1", n: 3, tree: true, max: 4, go };
}
pub mod p24 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<SendTimed<Either<B1_0_B, B1_1_B>, 'a', -1, true, 5, false, 'a', End>, SendTimed<Either<B1_0_C, B1_1_C>, 'a', -1, true, 5, false, 'a', End>, RoleAtoAll<RoleAlltoB<RoleEnd, RoleEnd>, RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<Either<B1_0_B, B1_1_B>, 'a', -1, true, 5, false, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Either<B1_0_C, B1_1_C>, 'a', -1, true, 5, false, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<RecvTimed<Either<B2_0_A, B2_1_A>, 'a', 2, true, -1, true, 'a', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<SendTimed<Either<B2_0_A, B2_1_A>, 'a', 2, true, -1, true, 'a', End>, SendTimed<String, 'b', 0, true, 2, false, 'b', SendTimed<Either<B2_0_C, B2_1_C>, 'a', 2, true, -1, true, 'a', End>>, RoleC<RoleBtoAll<RoleEnd, RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, RecvTimed<String, 'b', 0, true, 2, false, 'b', RecvTimed<Either<B2_0_C, B2_1_C>, 'a', 2, true, -1, true, 'a', End>>, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<End, RecvTimed<Either<B0_0_A, B0_1_A>, 'b', 1, false, -1, false, 'b', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, RecvTimed<Either<B0_0_B, B0_1_B>, 'b', 1, false, -1, false, 'b', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'b', 1, false, -1, false, 'b', End>, SendTimed<Either<B0_0_B, B0_1_B>, 'b', 1, false, -1, false, 'b', End>, RoleCtoAll<RoleAlltoA<RoleEnd, RoleEnd>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<SendTimed<Either<B1_0_B, B1_1_B>, 'a', -1, true, 5, false, 'a', End>, SendTimed<Either<B1_0_C, B1_1_C>, 'a', -1, true, 5, false, 'a', End>, RoleAtoAll<RoleAlltoB<RoleEnd, RoleEnd>, RoleEnd>, NameA>;
type C1_B = MeshedChannels<RecvTimed<Either<B1_0_B, B1_1_B>, 'a', -1, true, 5, false, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<RecvTimed<Either<B1_0_C, B1_1_C>, 'a', -1, true, 5, false, 'a', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<RecvTimed<Either<B2_0_A, B2_1_A>, 'a', 2, true, -1, true, 'a', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C2_B = MeshedChannels<SendTimed<Either<B2_0_A, B2_1_A>, 'a', 2, true, -1, true, 'a', End>, SendTimed<Either<B2_0_C, B2_1_C>, 'a', 2, true, -1, true, 'a', End>, RoleBtoAll<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<End, RecvTimed<Either<B2_0_C, B2_1_C>, 'a', 2, true, -1, true, 'a', End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, RecvTimed<Either<B0_0_A, B0_1_A>, 'b', 1, false, -1, false, 'b', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type S_B = MeshedChannels<End, RecvTimed<Either<B0_0_B, B0_1_B>, 'b', 1, false, -1, false, 'b', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'b', 1, false, -1, false, 'b', End>, SendTimed<Either<B0_0_B, B0_1_B>, 'b', 1, false, -1, false, 'b', End>, RoleCtoAll<RoleAlltoA<RoleEnd, RoleEnd>, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_A| -> R { h.offered(2, 0, taken, cl);
      c1_a(s, h, cl)
    },
    |cl: &mut Clocks, s: B0_1_A| -> R { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(2, 0, taken, cl);
      c1_b(s, h, cl)
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'b' }), (1, Win { clock: 'b', s: 1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_C = h.op(cl, |cl| s.choose_left(cl))?;
      c1_c(s, h, cl)
    }
    _ => { let s: B0_1_C = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: -1, is: true, e: 5, ie: false, reset: 'a' }), (2, Win { clock: 'a', s: -1, is: true, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B1_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_B| -> R { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    |cl: &mut Clocks, s: B1_1_B| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: -1, is: true, e: 5, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_C| -> R { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: 'b' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      c2_c(s, h, cl)
    },
    |cl: &mut Clocks, s: B1_1_C| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B2_0_A| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B2_1_A| -> R { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' }), (2, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B2_0_B = h.op(cl, |cl| s.choose_left(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B2_1_B = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B2_0_C| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B2_1_C| -> R { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds2", n: 3, tree: true, max: 4, go };
}
pub mod p25 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<RecvTimed<Br1A, 'b', 0, true, 2, false, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<SendTimed<Br1A, 'b', 0, true, 2, false, ' ', End>, SendTimed<Br1C, 'b', 0, true, 2, false, ' ', End>, RoleBroadcast, NameB>;
type B0_0_C = MeshedChannels<End, RecvTimed<Br1C, 'b', 0, true, 2, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, RecvTimed<Br2A, 'b', -1, true, 8, false, 'b', End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, SendTimed<u64, 'b', 0, false, -1, true, 'a', RecvTimed<Br2B, 'b', -1, true, 8, false, 'b', End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<SendTimed<Br2A, 'b', -1, true, 8, false, 'b', End>, RecvTimed<u64, 'b', 0, false, -1, true, 'a', SendTimed<Br2B, 'b', -1, true, 8, false, 'b', End>>, RoleB<RoleBroadcast>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
type B2_0_A = MeshedChannels<SendTimed<Br3B, 'b', 2, true, -1, false, ' ', End>, SendTimed<Br3C, 'b', 2, true, -1, false, ' ', End>, RoleBroadcast, NameA>;
type B2_0_B = MeshedChannels<RecvTimed<Br3B, 'b', 2, true, -1, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<RecvTimed<Br3C, 'b', 2, true, -1, false, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br2A { L0(B2_0_A), L1(B2_1_A) } unsafe impl std::marker::Send for Br2A {}
pub enum Br2B { L0(B2_0_B), L1(B2_1_B) } unsafe impl std::marker::Send for Br2B {}
type B3_0_A = MeshedChannels<SendTimed<Big, 'a', 3, false, 7, true, 'a', RecvTimed<Br4A, 'b', -1, false, -1, false, 'b', End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B3_0_B = MeshedChannels<RecvTimed<Big, 'a', 3, false, 7, true, 'a', SendTimed<Br4A, 'b', -1, false, -1, false, 'b', End>>, SendTimed<Br4C, 'b', -1, false, -1, false, 'b', End>, RoleA<RoleBroadcast>, NameB>;
type B3_0_C = MeshedChannels<End, RecvTimed<Br4C, 'b', -1, false, -1, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type B3_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B3_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B3_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br3B { L0(B3_0_B), L1(B3_1_B) } unsafe impl std::marker::Send for Br3B {}
pub enum Br3C { L0(B3_0_C), L1(B3_1_C) } unsafe impl std::marker::Send for Br3C {}
type B4_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B4_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br4A { L0(B4_0_A), L1(B4_1_A) } unsafe impl std::marker::Send for Br4A {}
pub enum Br4C { L0(B4_0_C), L1(B4_1_C) } unsafe impl std::marker::Send for Br4C {}
type C0_A = MeshedChannels<SendTimed<Br0B, 'b', -1, false, 7, true, 'a', End>, SendTimed<Br0C, 'b', -1, false, 7, true, 'a', End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<RecvTimed<Br0B, 'b', -1, false, 7, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<RecvTimed<Br0C, 'b', -1, false, 7, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
type C1_A = MeshedChannels<RecvTimed<Br1A, 'b', 0, true, 2, false, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type C1_B = MeshedChannels<SendTimed<Br1A, 'b', 0, true, 2, false, ' ', End>, SendTimed<Br1C, 'b', 0, true, 2, false, ' ', End>, RoleBroadcast, NameB>;
type C1_C = MeshedChannels<End, RecvTimed<Br1C, 'b', 0, true, 2, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type C2_A = MeshedChannels<End, RecvTimed<Br2A, 'b', -1, true, 8, false, 'b', End>, RoleC<RoleEnd>, NameA>;
type C2_B = MeshedChannels<End, RecvTimed<Br2B, 'b', -1, true, 8, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type C2_C = MeshedChannels<SendTimed<Br2A, 'b', -1, true, 8, false, 'b', End>, SendTimed<Br2B, 'b', -1, true, 8, false, 'b', End>, RoleBroadcast, NameC>;
type C3_A = MeshedChannels<SendTimed<Br3B, 'b', 2, true, -1, false, ' ', End>, SendTimed<Br3C, 'b', 2, true, -1, false, ' ', End>, RoleBroadcast, NameA>;
type C3_B = MeshedChannels<RecvTimed<Br3B, 'b', 2, true, -1, false, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type C3_C = MeshedChannels<RecvTimed<Br3C, 'b', 2, true, -1, false, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type C4_A = MeshedChannels<RecvTimed<Br4A, 'b', -1, false, -1, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type C4_B = MeshedChannels<SendTimed<Br4A, 'b', -1, false, -1, false, 'b', End>, SendTimed<Br4C, 'b', -1, false, -1, false, 'b', End>, RoleBroadcast, NameB>;
type C4_C = MeshedChannels<End, RecvTimed<Br4C, 'b', -1, false, -1, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<SendTimed<Br0B, 'b', -1, false, 7, true, 'a', End>, SendTimed<Br0C, 'b', -1, false, 7, true, 'a', End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<RecvTimed<Br0B, 'b', -1, false, 7, true, 'a', End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<RecvTimed<Br0C, 'b', -1, false, 7, true, 'a', End>, End, RoleA<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: false, e: 7, ie: true, reset: 'a' }), (2, Win { clock: 'b', s: -1, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L0, Br0C::L0)))?;
      c1_a(s, h, cl)
    }
    _ => { let s: B0_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br0B::L1, Br0C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0B::L0(s) => { h.offered(0, 0, taken, cl);
      c1_b(s, h, cl)
    },
    Br0B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(0, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(1, 0, taken, cl);
      c2_a(s, h, cl)
    },
    Br1A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: ' ' }), (2, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L0, Br1C::L0)))?;
      let w = &[(2, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<u64>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    }
    _ => { let s: B1_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br1A::L1, Br1C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 2, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1C::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<u64>(1, &x);
      c2_c(s, h, cl)
    },
    Br1C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 8, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2A::L0(s) => { h.offered(2, 0, taken, cl);
      c3_a(s, h, cl)
    },
    Br2A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 8, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2B::L0(s) => { h.offered(2, 0, taken, cl);
      c3_b(s, h, cl)
    },
    Br2B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 8, ie: false, reset: 'b' }), (1, Win { clock: 'b', s: -1, is: true, e: 8, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B2_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br2A::L0, Br2B::L0)))?;
      c3_c(s, h, cl)
    }
    _ => { let s: B2_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br2A::L1, Br2B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: ' ' }), (2, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B3_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br3B::L0, Br3C::L0)))?;
      let w = &[(1, Win { clock: 'a', s: 3, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Big>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c4_a(s, h, cl)
    }
    _ => { let s: B3_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br3B::L1, Br3C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3B::L0(s) => { h.offered(0, 0, taken, cl);
      let w = &[(0, Win { clock: 'a', s: 3, is: false, e: 7, ie: true, reset: 'a' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Big>(0, &x);
      c4_b(s, h, cl)
    },
    Br3B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 2, is: true, e: -1, ie: false, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3C::L0(s) => { h.offered(0, 0, taken, cl);
      c4_c(s, h, cl)
    },
    Br3C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_a(s: C4_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4A::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_b(s: C4_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B4_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br4A::L0, Br4C::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B4_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br4A::L1, Br4C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c4_c(s: C4_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4C::L0(s) => { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds3", n: 3, tree: true, max: 4, go };
}
pub mod p26 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, RecvTimed<Br1A, 'b', -1, true, 125, true, 'b', End>, RoleC<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, RecvTimed<Br1B, 'b', 5, true, 1066, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<SendTimed<Br1A, 'b', -1, true, 125, true, 'b', End>, SendTimed<Br1B, 'b', 5, true, 1066, false, 'b', End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<SendTimed<Br2B, 'b', 0, false, -1, true, ' ', End>, SendTimed<Br2C, 'b', 0, false, -1, true, ' ', End>, RoleBroadcast, NameA>;
type B1_0_B = MeshedChannels<RecvTimed<Br2B, 'b', 0, false, -1, true, ' ', End>, SendTimed<Option<Vec<u64>>, 'a', -2, false, -1, false, 'a', End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<RecvTimed<Br2C, 'b', 0, false, -1, true, ' ', End>, RecvTimed<Option<Vec<u64>>, 'a', -2, false, -1, false, 'a', End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B) } unsafe impl std::marker::Send for Br1B {}
type B2_0_A = MeshedChannels<RecvTimed<Br3A, 'b', -1, true, 6, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<SendTimed<Br3A, 'b', -1, true, 6, false, 'b', End>, SendTimed<Br3C, 'b', -1, true, 6, false, 'b', End>, RoleBroadcast, NameB>;
type B2_0_C = MeshedChannels<End, RecvTimed<Br3C, 'b', -1, true, 6, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br2B { L0(B2_0_B), L1(B2_1_B) } unsafe impl std::marker::Send for Br2B {}
pub enum Br2C { L0(B2_0_C), L1(B2_1_C) } unsafe impl std::marker::Send for Br2C {}
type B3_0_A = MeshedChannels<SendTimed<(u64, Box<Tok>), 'b', 1, false, -1, true, 'b', End>, RecvTimed<Br4A, 'b', 1, true, -1, false, 'b', End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B3_0_B = MeshedChannels<RecvTimed<(u64, Box<Tok>), 'b', 1, false, -1, true, 'b', End>, RecvTimed<Br4B, 'b', 1, true, -1, false, 'b', End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B3_0_C = MeshedChannels<SendTimed<Br4A, 'b', 1, true, -1, false, 'b', End>, SendTimed<Br4B, 'b', 1, true, -1, false, 'b', End>, RoleBroadcast, NameC>;
type B3_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B3_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B3_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br3A { L0(B3_0_A), L1(B3_1_A) } unsafe impl std::marker::Send for Br3A {}
pub enum Br3C { L0(B3_0_C), L1(B3_1_C) } unsafe impl std::marker::Send for Br3C {}
type B4_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B4_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B4_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B4_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br4A { L0(B4_0_A), L1(B4_1_A) } unsafe impl std::marker::Send for Br4A {}
pub enum Br4B { L0(B4_0_B), L1(B4_1_B) } unsafe impl std::marker::Send for Br4B {}
type C0_A = MeshedChannels<RecvTimed<Br0A, 'a', 2, true, 163, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<SendTimed<Br0A, 'a', 2, true, 163, true, ' ', End>, SendTimed<Br0C, 'a', 2, false, 124, false, 'a', End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, RecvTimed<Br0C, 'a', 2, false, 124, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, RecvTimed<Br1A, 'b', -1, true, 125, true, 'b', End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, RecvTimed<Br1B, 'b', 5, true, 1066, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<SendTimed<Br1A, 'b', -1, true, 125, true, 'b', End>, SendTimed<Br1B, 'b', 5, true, 1066, false, 'b', End>, RoleBroadcast, NameC>;
type C2_A = MeshedChannels<SendTimed<Br2B, 'b', 0, false, -1, true, ' ', End>, SendTimed<Br2C, 'b', 0, false, -1, true, ' ', End>, RoleBroadcast, NameA>;
type C2_B = MeshedChannels<RecvTimed<Br2B, 'b', 0, false, -1, true, ' ', End>, End, RoleA<RoleEnd>, NameB>;
type C2_C = MeshedChannels<RecvTimed<Br2C, 'b', 0, false, -1, true, ' ', End>, End, RoleA<RoleEnd>, NameC>;
type C3_A = MeshedChannels<RecvTimed<Br3A, 'b', -1, true, 6, false, 'b', End>, End, RoleB<RoleEnd>, NameA>;
type C3_B = MeshedChannels<SendTimed<Br3A, 'b', -1, true, 6, false, 'b', End>, SendTimed<Br3C, 'b', -1, true, 6, false, 'b', End>, RoleBroadcast, NameB>;
type C3_C = MeshedChannels<End, RecvTimed<Br3C, 'b', -1, true, 6, false, 'b', End>, RoleB<RoleEnd>, NameC>;
type C4_A = MeshedChannels<End, RecvTimed<Br4A, 'b', 1, true, -1, false, 'b', End>, RoleC<RoleEnd>, NameA>;
type C4_B = MeshedChannels<End, RecvTimed<Br4B, 'b', 1, true, -1, false, 'b', End>, RoleC<RoleEnd>, NameB>;
type C4_C = MeshedChannels<SendTimed<Br4A, 'b', 1, true, -1, false, 'b', End>, SendTimed<Br4B, 'b', 1, true, -1, false, 'b', End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<RecvTimed<Br0A, 'a', 2, true, 163, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type S_B = MeshedChannels<SendTimed<Br0A, 'a', 2, true, 163, true, ' ', End>, SendTimed<Br0C, 'a', 2, false, 124, false, 'a', End>, RoleBroadcast, NameB>;
type S_C = MeshedChannels<End, RecvTimed<Br0C, 'a', 2, false, 124, false, 'a', End>, RoleB<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: true, e: 163, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0A::L0(s) => { h.offered(1, 0, taken, cl);
      c1_a(s, h, cl)
    },
    Br0A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 2, is: true, e: 163, ie: true, reset: ' ' }), (2, Win { clock: 'a', s: 2, is: false, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L0, Br0C::L0)))?;
      c1_b(s, h, cl)
    }
    _ => { let s: B0_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br0A::L1, Br0C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'a', s: 2, is: false, e: 124, ie: false, reset: 'a' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br0C::L0(s) => { h.offered(1, 0, taken, cl);
      c1_c(s, h, cl)
    },
    Br0C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: -1, is: true, e: 125, ie: true, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1A::L0(s) => { h.offered(2, 0, taken, cl);
      c2_a(s, h, cl)
    },
    Br1A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 5, is: true, e: 1066, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br1B::L0(s) => { h.offered(2, 0, taken, cl);
      let w = &[(2, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); let x = h.mk::<Option<Vec<u64>>>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    Br1B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 125, ie: true, reset: 'b' }), (1, Win { clock: 'b', s: 5, is: true, e: 1066, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br1A::L0, Br1B::L0)))?;
      let w = &[(1, Win { clock: 'a', s: -2, is: false, e: -1, ie: false, reset: 'a' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<Option<Vec<u64>>>(1, &x);
      c2_c(s, h, cl)
    }
    _ => { let s: B1_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br1A::L1, Br1B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: ' ' }), (2, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B2_0_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L0, Br2C::L0)))?;
      c3_a(s, h, cl)
    }
    _ => { let s: B2_1_A = h.op(cl, |cl| Ok(choose_mpst_a_to_all!(s, cl, Br2B::L1, Br2C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2B::L0(s) => { h.offered(0, 0, taken, cl);
      c3_b(s, h, cl)
    },
    Br2B::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 0, is: false, e: -1, ie: true, reset: ' ' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br2C::L0(s) => { h.offered(0, 0, taken, cl);
      c3_c(s, h, cl)
    },
    Br2C::L1(s) => { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_a(s: C3_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3A::L0(s) => { h.offered(1, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 1, is: false, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); let x = h.mk::<(u64, Box<Tok>)>(1, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c4_a(s, h, cl)
    },
    Br3A::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c3_b(s: C3_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: true, e: 6, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: -1, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B3_0_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br3A::L0, Br3C::L0)))?;
      let w = &[(0, Win { clock: 'b', s: 1, is: false, e: -1, ie: true, reset: 'b' })]; tpre!(h, s, w); h.rx(0, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<(u64, Box<Tok>)>(0, &x);
      c4_b(s, h, cl)
    }
    _ => { let s: B3_1_B = h.op(cl, |cl| Ok(choose_mpst_b_to_all!(s, cl, Br3A::L1, Br3C::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c3_c(s: C3_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: true, e: 6, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br3C::L0(s) => { h.offered(1, 0, taken, cl);
      c4_c(s, h, cl)
    },
    Br3C::L1(s) => { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_a(s: C4_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4A::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4A::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_b(s: C4_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'b', s: 1, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| { let cl = &mut *cl; offer_mpst!(s, cl, {
    Br4B::L0(s) => { h.offered(2, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    Br4B::L1(s) => { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  }) });
  h.settle(r, taken, cl)
}
fn c4_c(s: C4_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: true, e: -1, ie: false, reset: 'b' }), (1, Win { clock: 'b', s: 1, is: true, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B4_0_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br4A::L0, Br4B::L0)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B4_1_C = h.op(cl, |cl| Ok(choose_mpst_c_to_all!(s, cl, Br4A::L1, Br4B::L1)))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds4", n: 3, tree: true, max: 4, go };
}
pub mod p27 {
use super::pre::*;
mpstthree::generate_atmp!(MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<SendTimed<Either<B1_0_B, B1_1_B>, 'b', -1, false, -1, false, 'b', End>, SendTimed<Either<B1_0_C, B1_1_C>, 'b', -1, false, -1, false, 'b', End>, RoleAtoAll<RoleAlltoB<RoleEnd, RoleEnd>, RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<RecvTimed<Either<B1_0_B, B1_1_B>, 'b', -1, false, -1, false, 'b', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<RecvTimed<Either<B1_0_C, B1_1_C>, 'b', -1, false, -1, false, 'b', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<RecvTimed<Either<B2_0_A, B2_1_A>, 'b', 1, false, 3, false, 'b', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<SendTimed<Either<B2_0_A, B2_1_A>, 'b', 1, false, 3, false, 'b', End>, SendTimed<String, 'b', 0, true, 6, true, ' ', SendTimed<Either<B2_0_C, B2_1_C>, 'b', 1, false, 3, false, 'b', End>>, RoleC<RoleBtoAll<RoleEnd, RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, RecvTimed<String, 'b', 0, true, 6, true, ' ', RecvTimed<Either<B2_0_C, B2_1_C>, 'b', 1, false, 3, false, 'b', End>>, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<End, RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 3, true, 'a', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 0, false, 3, true, 'a', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 3, true, 'a', End>, SendTimed<Either<B0_0_B, B0_1_B>, 'a', 0, false, 3, true, 'a', End>, RoleCtoAll<RoleAlltoA<RoleEnd, RoleEnd>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<SendTimed<Either<B1_0_B, B1_1_B>, 'b', -1, false, -1, false, 'b', End>, SendTimed<Either<B1_0_C, B1_1_C>, 'b', -1, false, -1, false, 'b', End>, RoleAtoAll<RoleAlltoB<RoleEnd, RoleEnd>, RoleEnd>, NameA>;
type C1_B = MeshedChannels<RecvTimed<Either<B1_0_B, B1_1_B>, 'b', -1, false, -1, false, 'b', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<RecvTimed<Either<B1_0_C, B1_1_C>, 'b', -1, false, -1, false, 'b', End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<RecvTimed<Either<B2_0_A, B2_1_A>, 'b', 1, false, 3, false, 'b', End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C2_B = MeshedChannels<SendTimed<Either<B2_0_A, B2_1_A>, 'b', 1, false, 3, false, 'b', End>, SendTimed<Either<B2_0_C, B2_1_C>, 'b', 1, false, 3, false, 'b', End>, RoleBtoAll<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<End, RecvTimed<Either<B2_0_C, B2_1_C>, 'b', 1, false, 3, false, 'b', End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, RecvTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 3, true, 'a', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type S_B = MeshedChannels<End, RecvTimed<Either<B0_0_B, B0_1_B>, 'a', 0, false, 3, true, 'a', End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<SendTimed<Either<B0_0_A, B0_1_A>, 'a', 0, false, 3, true, 'a', End>, SendTimed<Either<B0_0_B, B0_1_B>, 'a', 0, false, 3, true, 'a', End>, RoleCtoAll<RoleAlltoA<RoleEnd, RoleEnd>, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_A| -> R { h.offered(2, 0, taken, cl);
      c1_a(s, h, cl)
    },
    |cl: &mut Clocks, s: B0_1_A| -> R { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_b(s: C0_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(2, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w);
  h.offer(2, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B0_0_B| -> R { h.offered(2, 0, taken, cl);
      c1_b(s, h, cl)
    },
    |cl: &mut Clocks, s: B0_1_B| -> R { h.offered(2, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c0_c(s: C0_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' }), (1, Win { clock: 'a', s: 0, is: false, e: 3, ie: true, reset: 'a' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B0_0_C = h.op(cl, |cl| s.choose_left(cl))?;
      c1_c(s, h, cl)
    }
    _ => { let s: B0_1_C = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_a(s: C1_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 1) {
    0 => { let s: B1_0_A = h.op(cl, |cl| s.choose_left(cl))?;
      c2_a(s, h, cl)
    }
    _ => { let s: B1_1_A = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c1_b(s: C1_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_B| -> R { h.offered(0, 0, taken, cl);
      let w = &[(2, Win { clock: 'b', s: 0, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w); let x = h.mk::<String>(2, w); let s = h.op(cl, |cl| s.send(x, cl))?;
      c2_b(s, h, cl)
    },
    |cl: &mut Clocks, s: B1_1_B| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c1_c(s: C1_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: -1, is: false, e: -1, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(0, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B1_0_C| -> R { h.offered(0, 0, taken, cl);
      let w = &[(1, Win { clock: 'b', s: 0, is: true, e: 6, ie: true, reset: ' ' })]; tpre!(h, s, w); h.rx(1, w); let (x, s) = h.op(cl, |cl| s.recv(cl))?; h.got::<String>(1, &x);
      c2_c(s, h, cl)
    },
    |cl: &mut Clocks, s: B1_1_C| -> R { h.offered(0, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_a(s: C2_A, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: false, e: 3, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B2_0_A| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B2_1_A| -> R { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn c2_b(s: C2_B, h: T, cl: &mut Clocks) -> R {
  let w = &[(0, Win { clock: 'b', s: 1, is: false, e: 3, ie: false, reset: 'b' }), (2, Win { clock: 'b', s: 1, is: false, e: 3, ie: false, reset: 'b' })]; tpre!(h, s, w);
  match h.choice(w, 2, 0) {
    0 => { let s: B2_0_B = h.op(cl, |cl| s.choose_left(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
    _ => { let s: B2_1_B = h.op(cl, |cl| s.choose_right(cl))?;
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    }
  }
}
fn c2_c(s: C2_C, h: T, cl: &mut Clocks) -> R {
  let w = &[(1, Win { clock: 'b', s: 1, is: false, e: 3, ie: false, reset: 'b' })]; tpre!(h, s, w);
  h.offer(1, w); let taken = std::cell::Cell::new(false); let taken = &taken;
  let r = catch(|| s.offer(&mut *cl,
    |cl: &mut Clocks, s: B2_0_C| -> R { h.offered(1, 0, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
    |cl: &mut Clocks, s: B2_1_C| -> R { h.offered(1, 1, taken, cl);
      tpre!(h, s, &[]); h.closing(); h.opc(|| s.close())
    },
  ));
  h.settle(r, taken, cl)
}
fn start_a(s: S_A, h: T, cl: &mut Clocks) -> R {
  c0_a(s, h, cl)
}
fn start_b(s: S_B, h: T, cl: &mut Clocks) -> R {
  c0_b(s, h, cl)
}
fn start_c(s: S_C, h: T, cl: &mut Clocks) -> R {
  c0_c(s, h, cl)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A, cl: &mut Clocks| T { me: 0 }.participant(cl, |h, cl| start_a(s, h, cl)), move |s: S_B, cl: &mut Clocks| T { me: 1 }.participant(cl, |h, cl| start_b(s, h, cl)), move |s: S_C, cl: &mut Clocks| T { me: 2 }.participant(cl, |h, cl| start_c(s, h, cl))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: P_ = P_ { name: "timed/kinds5", n: 3, tree: true, max: 4, go };
}
pub static ALL: &[&P_] = &[&p0::P, &p1::P, &p2::P, &p3::P, &p4::P, &p5::P, &p6::P, &p7::P, &p8::P, &p9::P, &p10::P, &p11::P, &p12::P, &p13::P, &p14::P, &p15::P, &p16::P, &p17::P, &p18::P, &p19::P, &p20::P, &p21::P, &p22::P, &p23::P, &p24::P, &p25::P, &p26::P, &p27::P];
