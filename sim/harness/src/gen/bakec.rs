// Generated by sim/gen/gen.py. Do not edit.
pub mod cancel_loop3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Option<Vec<u64>>, End>>, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Option<Vec<u64>>, End>>, Recv<Br0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameC, MeshedChannels, 3);
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = choose_c0!(s, Br0A::L0, Br0B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_c(s, h)
    }
    _ => { let s: B0_1_C = choose_c0!(s, Br0A::L1, Br0B::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/loop3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go };
}
pub mod cancel_ring3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<i64, Send<Br0B, End>>, Recv<Big, Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<Recv<i64, Recv<Br0B, End>>, Send<Big, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Big, Recv<Br0C, End>>, Recv<Big, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Recv<u64, Send<Br0B, End>>, Send<u8, Send<Br0C, End>>, RoleC<RoleB<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Send<u64, Recv<Br0B, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<u8, Recv<Br0C, End>>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameA, MeshedChannels, 1);
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<u8, Send<Br0B, End>>, Recv<(), Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<Recv<u8, Recv<Br0B, End>>, Send<String, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<Send<(), Recv<Br0C, End>>, Recv<String, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_c0!(s, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = choose_c0!(s, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u8>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = choose_c0!(s, Br0B::L2, Br0C::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/ring3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(0, 1), (1, 2), (2, 0)], 0), (&[(0, 2), (2, 1), (1, 0)], 0), (&[], END)] }], go };
}
pub mod cancel_two3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<(), End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, Send<Option<Vec<u64>>, Recv<(), Send<Br0C, End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Send<(), Recv<Br0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<Recv<Big, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, Recv<i64, End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, Send<i64, End>, RoleB<RoleEnd>, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Send<u8, Recv<Br1B, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Recv<u8, Send<Br1B, End>>, RoleB<RoleBroadcast>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
mpstthree::create_fn_choose_mpst_multi_to_all_bundle!(ch0_0, ch0_1, ch0_2, => L0, L1, L2, => B0_0_B, B0_1_B, B0_2_B, => Br0A, Br0C, => NameA, NameC, => NameB, MeshedChannels, 2);
mpstthree::choose_mpst_create_multi_to_all!(choose_c1, NameC, MeshedChannels, 3);
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Recv<String, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      c1_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      c0_a(s, h)
    },
    Br0A::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = ch0_0(s); h.chosen();
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    }
    1 => { let s: B0_1_B = ch0_1(s); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      c0_b(s, h)
    }
    _ => { let s: B0_2_B = ch0_2(s); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(1, 0);
      c1_c(s, h)
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    },
    Br1A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1A::L2(s) => { h.offered(2, 2);
      c1_a(s, h)
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_b(s, h)
    },
    Br1B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); let x = h.mk::<u8>(2); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = choose_c1!(s, Br1A::L0, Br1B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    }
    1 => { let s: B1_1_C = choose_c1!(s, Br1A::L1, Br1B::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_2_C = choose_c1!(s, Br1A::L2, Br1B::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      c1_c(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/two3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(1, 0)], 1), (&[(1, 2), (2, 1)], 0), (&[(0, 2)], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1)], 0), (&[(2, 1)], END), (&[(1, 2)], 1)] }], go };
}
pub mod cancel_split3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/split3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 2), (1, 0), (2, 0)], END), states: &[], go };
}
pub mod cancel_loop4 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, M, B, Zed, Alpha);
type B0_0_M = MeshedChannels<Send<Big, End>, End, Recv<String, Recv<Br0M, End>>, RoleAlpha<RoleB<RoleAlpha<RoleEnd>>>, NameM>;
type B0_0_B = MeshedChannels<Recv<Big, End>, Send<(u64, Box<Tok>), End>, Recv<Br0B, End>, RoleM<RoleZed<RoleAlpha<RoleEnd>>>, NameB>;
type B0_0_Zed = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), Recv<Br0Zed, End>>, RoleB<RoleAlpha<RoleAlpha<RoleEnd>>>, NameZed>;
type B0_0_Alpha = MeshedChannels<Send<String, Send<Br0M, End>>, Send<Br0B, End>, Recv<(u64, Box<Tok>), Send<Br0Zed, End>>, RoleM<RoleZed<RoleBroadcast>>, NameAlpha>;
type B0_1_M = MeshedChannels<Recv<i64, Recv<Br1M, End>>, Recv<u8, End>, Recv<Tok, End>, RoleB<RoleZed<RoleAlpha<RoleB<RoleEnd>>>>, NameM>;
type B0_1_B = MeshedChannels<Send<i64, Send<Br1M, End>>, Send<Br1Zed, End>, Send<Br1Alpha, End>, RoleM<RoleBroadcast>, NameB>;
type B0_1_Zed = MeshedChannels<Send<u8, End>, Recv<Br1Zed, End>, End, RoleM<RoleB<RoleEnd>>, NameZed>;
type B0_1_Alpha = MeshedChannels<Send<Tok, End>, Recv<Br1Alpha, End>, End, RoleM<RoleB<RoleEnd>>, NameAlpha>;
type B0_2_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B0_2_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_2_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
type B0_2_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
pub enum Br0M { L0(B0_0_M), L1(B0_1_M), L2(B0_2_M) } unsafe impl std::marker::Send for Br0M {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0Zed { L0(B0_0_Zed), L1(B0_1_Zed), L2(B0_2_Zed) } unsafe impl std::marker::Send for Br0Zed {}
type B1_0_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleAlpha<RoleEnd>, NameM>;
type B1_0_B = MeshedChannels<End, End, Send<String, Recv<Br0B, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameB>;
type B1_0_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type B1_0_Alpha = MeshedChannels<Send<Br0M, End>, Recv<String, Send<Br0B, End>>, Send<Br0Zed, End>, RoleB<RoleBroadcast>, NameAlpha>;
type B1_1_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B1_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B1_1_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
type B1_1_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
pub enum Br1M { L0(B1_0_M), L1(B1_1_M) } unsafe impl std::marker::Send for Br1M {}
pub enum Br1Zed { L0(B1_0_Zed), L1(B1_1_Zed) } unsafe impl std::marker::Send for Br1Zed {}
pub enum Br1Alpha { L0(B1_0_Alpha), L1(B1_1_Alpha) } unsafe impl std::marker::Send for Br1Alpha {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameAlpha, MeshedChannels, 4);
type C0_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleAlpha<RoleEnd>, NameM>;
type C0_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleAlpha<RoleEnd>, NameB>;
type C0_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type C0_Alpha = MeshedChannels<Send<Br0M, End>, Send<Br0B, End>, Send<Br0Zed, End>, RoleBroadcast, NameAlpha>;
type C1_M = MeshedChannels<Recv<Br1M, End>, End, End, RoleB<RoleEnd>, NameM>;
type C1_B = MeshedChannels<Send<Br1M, End>, Send<Br1Zed, End>, Send<Br1Alpha, End>, RoleBroadcast, NameB>;
type C1_Zed = MeshedChannels<End, Recv<Br1Zed, End>, End, RoleB<RoleEnd>, NameZed>;
type C1_Alpha = MeshedChannels<End, Recv<Br1Alpha, End>, End, RoleB<RoleEnd>, NameAlpha>;
type S_M = MeshedChannels<End, End, Send<String, Recv<Br0M, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameM>;
type S_B = MeshedChannels<End, End, Recv<i64, Recv<Br0B, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameB>;
type S_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type S_Alpha = MeshedChannels<Recv<String, Send<Br0M, End>>, Send<i64, Send<Br0B, End>>, Send<Br0Zed, End>, RoleM<RoleB<RoleBroadcast>>, NameAlpha>;
fn c0_m(s: C0_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0M::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<String>(3, &x);
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
      c0_m(s, h)
    },
    Br0M::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Tok>(3, &x);
      c1_m(s, h)
    },
    Br0M::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
    Br0B::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_zed(s: C0_Zed, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0Zed::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      c0_zed(s, h)
    },
    Br0Zed::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
      c1_zed(s, h)
    },
    Br0Zed::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_alpha(s: C0_Alpha, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_Alpha = choose_c0!(s, Br0M::L0, Br0B::L0, Br0Zed::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      c0_alpha(s, h)
    }
    1 => { let s: B0_1_Alpha = choose_c0!(s, Br0M::L1, Br0B::L1, Br0Zed::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c1_alpha(s, h)
    }
    _ => { let s: B0_2_Alpha = choose_c0!(s, Br0M::L2, Br0B::L2, Br0Zed::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_m(s: C1_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br1M::L0(s) => { h.offered(1, 0);
      c0_m(s, h)
    },
    Br1M::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_B = mpstthree::choose_mpst_multi_to_all!(s, Br1M::L0, Br1Zed::L0, Br1Alpha::L0, => NameB, MeshedChannels, 2); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    }
    _ => { let s: B1_1_B = mpstthree::choose_mpst_multi_to_all!(s, Br1M::L1, Br1Zed::L1, Br1Alpha::L1, => NameB, MeshedChannels, 2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_zed(s: C1_Zed, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br1Zed::L0(s) => { h.offered(1, 0);
      c0_zed(s, h)
    },
    Br1Zed::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_alpha(s: C1_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br1Alpha::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      c0_alpha(s, h)
    },
    Br1Alpha::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_m(s: S_M, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
  c0_m(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<i64>(3, &x);
  c0_b(s, h)
}
fn start_zed(s: S_Zed, h: H) -> R {
  c0_zed(s, h)
}
fn start_alpha(s: S_Alpha, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  c0_alpha(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_M| H::new(0).participant(move |h| start_m(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_Zed| H::new(2).participant(move |h| start_zed(s, h)), move |s: S_Alpha| H::new(3).participant(move |h| start_alpha(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/loop4", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(0, 3), (3, 1)], 0), states: &[State { chooser: 3, exit: 2, branches: &[(&[(3, 0), (0, 1), (1, 2), (2, 3)], 0), (&[(1, 0), (2, 0), (3, 0)], 1), (&[], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 3)], 0), (&[], END)] }], go };
}
pub mod cancel_star5 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C, D, E);
type B0_0_A = MeshedChannels<Recv<Big, Send<Br0B, End>>, Recv<Tok, Send<Br0C, End>>, Recv<u64, Send<Br0D, End>>, Recv<Tok, Send<Br0E, End>>, RoleB<RoleC<RoleD<RoleE<RoleBroadcast>>>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, Recv<Br0B, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<Br0C, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<Send<u64, Recv<Br0D, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameD>;
type B0_0_E = MeshedChannels<Send<Tok, Recv<Br0E, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameE>;
type B0_1_A = MeshedChannels<Send<u64, Send<Br0B, End>>, Send<Br0C, End>, Send<Br0D, End>, Recv<(u64, Box<Tok>), Send<Br0E, End>>, RoleB<RoleE<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Recv<u64, Recv<Br0B, End>>, Send<(u64, Box<Tok>), End>, End, End, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br0C, End>, Recv<(u64, Box<Tok>), End>, Send<u8, End>, End, RoleB<RoleD<RoleA<RoleEnd>>>, NameC>;
type B0_1_D = MeshedChannels<Recv<Br0D, End>, End, Recv<u8, End>, Send<Big, End>, RoleC<RoleE<RoleA<RoleEnd>>>, NameD>;
type B0_1_E = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0E, End>>, End, End, Recv<Big, End>, RoleD<RoleA<RoleA<RoleEnd>>>, NameE>;
type B0_2_A = MeshedChannels<End, End, End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, End, End, RoleEnd, NameC>;
type B0_2_D = MeshedChannels<End, End, End, End, RoleEnd, NameD>;
type B0_2_E = MeshedChannels<End, End, End, End, RoleEnd, NameE>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
pub enum Br0E { L0(B0_0_E), L1(B0_1_E), L2(B0_2_E) } unsafe impl std::marker::Send for Br0E {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameA, MeshedChannels, 1);
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, End, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, End, End, RoleA<RoleEnd>, NameC>;
type C0_D = MeshedChannels<Recv<Br0D, End>, End, End, End, RoleA<RoleEnd>, NameD>;
type C0_E = MeshedChannels<Recv<Br0E, End>, End, End, End, RoleA<RoleEnd>, NameE>;
type S_A = MeshedChannels<Send<String, Send<Br0B, End>>, Send<Big, Send<Br0C, End>>, Send<(u64, Box<Tok>), Send<Br0D, End>>, Send<Tok, Send<Br0E, End>>, RoleB<RoleC<RoleD<RoleE<RoleBroadcast>>>>, NameA>;
type S_B = MeshedChannels<Recv<String, Recv<Br0B, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameB>;
type S_C = MeshedChannels<Recv<Big, Recv<Br0C, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type S_D = MeshedChannels<Recv<(u64, Box<Tok>), Recv<Br0D, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameD>;
type S_E = MeshedChannels<Recv<Tok, Recv<Br0E, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameE>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_c0!(s, Br0B::L0, Br0C::L0, Br0D::L0, Br0E::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u64>(3, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<Tok>(4, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = choose_c0!(s, Br0B::L1, Br0C::L1, Br0D::L1, Br0E::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(4, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = choose_c0!(s, Br0B::L2, Br0C::L2, Br0D::L2, Br0E::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0D::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
    Br0D::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); let x = h.mk::<Big>(4); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
    Br0D::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_e(s: C0_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0E::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
    Br0E::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
    Br0E::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Tok>(4); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_d(s, h)
}
fn start_e(s: S_E, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_e(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h)), move |s: S_E| H::new(4).participant(move |h| start_e(s, h))));
  match f { Ok((j0, j1, j2, j3, j4,)) => joined(vec![j0, j1, j2, j3, j4]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/star5", n: 5, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 3), (0, 4)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(1, 0), (2, 0), (3, 0), (4, 0)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], 0), (&[], END)] }], go };
}
pub mod cancel_wheel6 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, Q, Bob, Zulu, Alpha, Y1, C);
type B0_0_Q = MeshedChannels<End, End, End, End, Recv<Tok, Send<Tok, Recv<Br0Q, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameQ>;
type B0_0_Bob = MeshedChannels<End, End, End, End, Recv<u64, Send<u8, Recv<Br0Bob, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameBob>;
type B0_0_Zulu = MeshedChannels<End, End, End, End, Recv<i64, Send<Big, Recv<Br0Zulu, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameZulu>;
type B0_0_Alpha = MeshedChannels<End, End, End, End, Recv<Option<Vec<u64>>, Send<Big, Recv<Br0Alpha, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameAlpha>;
type B0_0_Y1 = MeshedChannels<End, End, End, End, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0Y1, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameY1>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<Tok, Send<Br0Q, End>>>, Send<u64, Recv<u8, Send<Br0Bob, End>>>, Send<i64, Recv<Big, Send<Br0Zulu, End>>>, Send<Option<Vec<u64>>, Recv<Big, Send<Br0Alpha, End>>>, Send<Tok, Recv<(u64, Box<Tok>), Send<Br0Y1, End>>>, RoleQ<RoleBob<RoleZulu<RoleAlpha<RoleY1<RoleQ<RoleBob<RoleZulu<RoleAlpha<RoleY1<RoleBroadcast>>>>>>>>>>, NameC>;
type B0_1_Q = MeshedChannels<Send<u64, End>, Recv<Br1Q, End>, End, End, Recv<String, End>, RoleBob<RoleC<RoleZulu<RoleEnd>>>, NameQ>;
type B0_1_Bob = MeshedChannels<Recv<u64, End>, Send<(u64, Box<Tok>), Recv<Br1Bob, End>>, End, End, End, RoleQ<RoleZulu<RoleZulu<RoleEnd>>>, NameBob>;
type B0_1_Zulu = MeshedChannels<Send<Br1Q, End>, Recv<(u64, Box<Tok>), Send<Br1Bob, End>>, Send<Option<Vec<u64>>, Send<Br1Alpha, End>>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBob<RoleAlpha<RoleBroadcast>>, NameZulu>;
type B0_1_Alpha = MeshedChannels<End, End, Recv<Option<Vec<u64>>, Recv<Br1Alpha, End>>, Send<u8, End>, End, RoleZulu<RoleY1<RoleZulu<RoleEnd>>>, NameAlpha>;
type B0_1_Y1 = MeshedChannels<End, End, Recv<Br1Y1, End>, Recv<u8, End>, Send<Big, End>, RoleAlpha<RoleC<RoleZulu<RoleEnd>>>, NameY1>;
type B0_1_C = MeshedChannels<Send<String, End>, End, Recv<Br1C, End>, End, Recv<Big, End>, RoleY1<RoleQ<RoleZulu<RoleEnd>>>, NameC>;
type B0_2_Q = MeshedChannels<End, End, End, End, End, RoleEnd, NameQ>;
type B0_2_Bob = MeshedChannels<End, End, End, End, End, RoleEnd, NameBob>;
type B0_2_Zulu = MeshedChannels<End, End, End, End, End, RoleEnd, NameZulu>;
type B0_2_Alpha = MeshedChannels<End, End, End, End, End, RoleEnd, NameAlpha>;
type B0_2_Y1 = MeshedChannels<End, End, End, End, End, RoleEnd, NameY1>;
type B0_2_C = MeshedChannels<End, End, End, End, End, RoleEnd, NameC>;
pub enum Br0Q { L0(B0_0_Q), L1(B0_1_Q), L2(B0_2_Q) } unsafe impl std::marker::Send for Br0Q {}
pub enum Br0Bob { L0(B0_0_Bob), L1(B0_1_Bob), L2(B0_2_Bob) } unsafe impl std::marker::Send for Br0Bob {}
pub enum Br0Zulu { L0(B0_0_Zulu), L1(B0_1_Zulu), L2(B0_2_Zulu) } unsafe impl std::marker::Send for Br0Zulu {}
pub enum Br0Alpha { L0(B0_0_Alpha), L1(B0_1_Alpha), L2(B0_2_Alpha) } unsafe impl std::marker::Send for Br0Alpha {}
pub enum Br0Y1 { L0(B0_0_Y1), L1(B0_1_Y1), L2(B0_2_Y1) } unsafe impl std::marker::Send for Br0Y1 {}
type B1_0_Q = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), End>>, End, End, Recv<Br0Q, End>, RoleZulu<RoleZulu<RoleC<RoleEnd>>>, NameQ>;
type B1_0_Bob = MeshedChannels<End, End, End, End, Recv<Br0Bob, End>, RoleC<RoleEnd>, NameBob>;
type B1_0_Zulu = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), End>>, End, End, Send<i64, End>, Recv<Br0Zulu, End>, RoleQ<RoleY1<RoleQ<RoleC<RoleEnd>>>>, NameZulu>;
type B1_0_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type B1_0_Y1 = MeshedChannels<End, End, Recv<i64, End>, End, Recv<Br0Y1, End>, RoleZulu<RoleC<RoleEnd>>, NameY1>;
type B1_0_C = MeshedChannels<Send<Br0Q, End>, Send<Br0Bob, End>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleBroadcast, NameC>;
type B1_1_Q = MeshedChannels<End, End, End, End, End, RoleEnd, NameQ>;
type B1_1_Bob = MeshedChannels<End, End, End, End, End, RoleEnd, NameBob>;
type B1_1_Zulu = MeshedChannels<End, End, End, End, Send<u64, End>, RoleC<RoleEnd>, NameZulu>;
type B1_1_Alpha = MeshedChannels<End, End, End, End, Recv<Tok, Send<Option<Vec<u64>>, End>>, RoleC<RoleC<RoleEnd>>, NameAlpha>;
type B1_1_Y1 = MeshedChannels<End, End, End, End, End, RoleEnd, NameY1>;
type B1_1_C = MeshedChannels<End, End, Recv<u64, End>, Send<Tok, Recv<Option<Vec<u64>>, End>>, End, RoleAlpha<RoleAlpha<RoleZulu<RoleEnd>>>, NameC>;
type B1_2_Q = MeshedChannels<End, Recv<Br1Q, End>, End, End, End, RoleZulu<RoleEnd>, NameQ>;
type B1_2_Bob = MeshedChannels<End, Recv<Br1Bob, End>, End, Recv<String, Send<u64, End>>, End, RoleY1<RoleY1<RoleZulu<RoleEnd>>>, NameBob>;
type B1_2_Zulu = MeshedChannels<Send<Br1Q, End>, Send<Br1Bob, End>, Send<Br1Alpha, End>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBroadcast, NameZulu>;
type B1_2_Alpha = MeshedChannels<End, End, Recv<Br1Alpha, End>, End, End, RoleZulu<RoleEnd>, NameAlpha>;
type B1_2_Y1 = MeshedChannels<End, Send<String, Recv<u64, End>>, Recv<Br1Y1, End>, End, End, RoleBob<RoleBob<RoleZulu<RoleEnd>>>, NameY1>;
type B1_2_C = MeshedChannels<End, End, Recv<Br1C, End>, End, End, RoleZulu<RoleEnd>, NameC>;
pub enum Br1Q { L0(B1_0_Q), L1(B1_1_Q), L2(B1_2_Q) } unsafe impl std::marker::Send for Br1Q {}
pub enum Br1Bob { L0(B1_0_Bob), L1(B1_1_Bob), L2(B1_2_Bob) } unsafe impl std::marker::Send for Br1Bob {}
pub enum Br1Alpha { L0(B1_0_Alpha), L1(B1_1_Alpha), L2(B1_2_Alpha) } unsafe impl std::marker::Send for Br1Alpha {}
pub enum Br1Y1 { L0(B1_0_Y1), L1(B1_1_Y1), L2(B1_2_Y1) } unsafe impl std::marker::Send for Br1Y1 {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C), L2(B1_2_C) } unsafe impl std::marker::Send for Br1C {}
mpstthree::create_fn_choose_mpst_multi_to_all_bundle!(ch1_0, ch1_1, ch1_2, => L0, L1, L2, => B1_0_Zulu, B1_1_Zulu, B1_2_Zulu, => Br1Q, Br1Bob, Br1Alpha, Br1Y1, Br1C, => NameQ, NameBob, NameAlpha, NameY1, NameC, => NameZulu, MeshedChannels, 3);
type C0_Q = MeshedChannels<End, End, End, End, Recv<Br0Q, End>, RoleC<RoleEnd>, NameQ>;
type C0_Bob = MeshedChannels<End, End, End, End, Recv<Br0Bob, End>, RoleC<RoleEnd>, NameBob>;
type C0_Zulu = MeshedChannels<End, End, End, End, Recv<Br0Zulu, End>, RoleC<RoleEnd>, NameZulu>;
type C0_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type C0_Y1 = MeshedChannels<End, End, End, End, Recv<Br0Y1, End>, RoleC<RoleEnd>, NameY1>;
type C0_C = MeshedChannels<Send<Br0Q, End>, Send<Br0Bob, End>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleBroadcast, NameC>;
type C1_Q = MeshedChannels<End, Recv<Br1Q, End>, End, End, End, RoleZulu<RoleEnd>, NameQ>;
type C1_Bob = MeshedChannels<End, Recv<Br1Bob, End>, End, End, End, RoleZulu<RoleEnd>, NameBob>;
type C1_Zulu = MeshedChannels<Send<Br1Q, End>, Send<Br1Bob, End>, Send<Br1Alpha, End>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBroadcast, NameZulu>;
type C1_Alpha = MeshedChannels<End, End, Recv<Br1Alpha, End>, End, End, RoleZulu<RoleEnd>, NameAlpha>;
type C1_Y1 = MeshedChannels<End, End, Recv<Br1Y1, End>, End, End, RoleZulu<RoleEnd>, NameY1>;
type C1_C = MeshedChannels<End, End, Recv<Br1C, End>, End, End, RoleZulu<RoleEnd>, NameC>;
type S_Q = MeshedChannels<Send<Tok, End>, End, End, End, Recv<u8, Recv<Br0Q, End>>, RoleC<RoleBob<RoleC<RoleEnd>>>, NameQ>;
type S_Bob = MeshedChannels<Recv<Tok, End>, End, End, End, Send<(), Recv<Br0Bob, End>>, RoleQ<RoleC<RoleC<RoleEnd>>>, NameBob>;
type S_Zulu = MeshedChannels<End, End, End, End, Recv<Br0Zulu, End>, RoleC<RoleEnd>, NameZulu>;
type S_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type S_Y1 = MeshedChannels<End, End, End, End, Recv<Br0Y1, End>, RoleC<RoleEnd>, NameY1>;
type S_C = MeshedChannels<Send<u8, Send<Br0Q, End>>, Recv<(), Send<Br0Bob, End>>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleQ<RoleBob<RoleBroadcast>>, NameC>;
fn c0_q(s: C0_Q, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  mpstthree::offer_mpst!(s, {
    Br0Q::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(5); let s = s.send(x)?; h.sent();
      c0_q(s, h)
    },
    Br0Q::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<String>(5, &x);
      c1_q(s, h)
    },
    Br0Q::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_bob(s: C0_Bob, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  mpstthree::offer_mpst!(s, {
    Br0Bob::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u64>(5, &x);
      pre!(h, s, m); let x = h.mk::<u8>(5); let s = s.send(x)?; h.sent();
      c0_bob(s, h)
    },
    Br0Bob::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c1_bob(s, h)
    },
    Br0Bob::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_zulu(s: C0_Zulu, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  mpstthree::offer_mpst!(s, {
    Br0Zulu::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<i64>(5, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c0_zulu(s, h)
    },
    Br0Zulu::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(3); let s = s.send(x)?; h.sent();
      c1_zulu(s, h)
    },
    Br0Zulu::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_alpha(s: C0_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  mpstthree::offer_mpst!(s, {
    Br0Alpha::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(5, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c0_alpha(s, h)
    },
    Br0Alpha::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<u8>(4); let s = s.send(x)?; h.sent();
      c1_alpha(s, h)
    },
    Br0Alpha::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_y1(s: C0_Y1, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  mpstthree::offer_mpst!(s, {
    Br0Y1::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
      c0_y1(s, h)
    },
    Br0Y1::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u8>(3, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c1_y1(s, h)
    },
    Br0Y1::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = mpstthree::choose_mpst_multi_to_all!(s, Br0Q::L0, Br0Bob::L0, Br0Zulu::L0, Br0Alpha::L0, Br0Y1::L0, => NameC, MeshedChannels, 6); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(4, &x);
      c0_c(s, h)
    }
    1 => { let s: B0_1_C = mpstthree::choose_mpst_multi_to_all!(s, Br0Q::L1, Br0Bob::L1, Br0Zulu::L1, Br0Alpha::L1, Br0Y1::L1, => NameC, MeshedChannels, 6); h.chosen();
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<Big>(4, &x);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c1_c(s, h)
    }
    _ => { let s: B0_2_C = mpstthree::choose_mpst_multi_to_all!(s, Br0Q::L2, Br0Bob::L2, Br0Zulu::L2, Br0Alpha::L2, Br0Y1::L2, => NameC, MeshedChannels, 6); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_q(s: C1_Q, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1Q::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_q(s, h)
    },
    Br1Q::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Q::L2(s) => { h.offered(2, 2);
      c1_q(s, h)
    },
  })
}
fn c1_bob(s: C1_Bob, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1Bob::L0(s) => { h.offered(2, 0);
      c0_bob(s, h)
    },
    Br1Bob::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Bob::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<String>(4, &x);
      pre!(h, s, m); let x = h.mk::<u64>(4); let s = s.send(x)?; h.sent();
      c1_bob(s, h)
    },
  })
}
fn c1_zulu(s: C1_Zulu, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_Zulu = ch1_0(s); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_zulu(s, h)
    }
    1 => { let s: B1_1_Zulu = ch1_1(s); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_2_Zulu = ch1_2(s); h.chosen();
      c1_zulu(s, h)
    }
  }
}
fn c1_alpha(s: C1_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1Alpha::L0(s) => { h.offered(2, 0);
      c0_alpha(s, h)
    },
    Br1Alpha::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Alpha::L2(s) => { h.offered(2, 2);
      c1_alpha(s, h)
    },
  })
}
fn c1_y1(s: C1_Y1, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1Y1::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      c0_y1(s, h)
    },
    Br1Y1::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Y1::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      c1_y1(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    Br1C::L0(s) => { h.offered(2, 0);
      c0_c(s, h)
    },
    Br1C::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<Tok>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1C::L2(s) => { h.offered(2, 2);
      c1_c(s, h)
    },
  })
}
fn start_q(s: S_Q, h: H) -> R {
  pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u8>(5, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  c0_q(s, h)
}
fn start_bob(s: S_Bob, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(5); let s = s.send(x)?; h.sent();
  c0_bob(s, h)
}
fn start_zulu(s: S_Zulu, h: H) -> R {
  c0_zulu(s, h)
}
fn start_alpha(s: S_Alpha, h: H) -> R {
  c0_alpha(s, h)
}
fn start_y1(s: S_Y1, h: H) -> R {
  c0_y1(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_Q| H::new(0).participant(move |h| start_q(s, h)), move |s: S_Bob| H::new(1).participant(move |h| start_bob(s, h)), move |s: S_Zulu| H::new(2).participant(move |h| start_zulu(s, h)), move |s: S_Alpha| H::new(3).participant(move |h| start_alpha(s, h)), move |s: S_Y1| H::new(4).participant(move |h| start_y1(s, h)), move |s: S_C| H::new(5).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5,)) => joined(vec![j0, j1, j2, j3, j4, j5]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/wheel6", n: 6, cancel_sends: true, cancel_choices: false, start: (&[(5, 0), (0, 1), (1, 5)], 0), states: &[State { chooser: 5, exit: 2, branches: &[(&[(5, 0), (5, 1), (5, 2), (5, 3), (5, 4), (0, 5), (1, 5), (2, 5), (3, 5), (4, 5)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)], 1), (&[], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (2, 4), (0, 2)], 0), (&[(5, 3), (3, 5), (2, 5)], END), (&[(4, 1), (1, 4)], 1)] }], go };
}
pub mod cancel_wheel8 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C, D, E, F, G, H);
type B0_0_A = MeshedChannels<End, End, End, End, End, End, Recv<u64, Recv<Br0A, End>>, RoleH<RoleH<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<End, End, End, End, End, End, Recv<String, Recv<Br0B, End>>, RoleH<RoleH<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, End, End, End, End, End, Recv<String, Recv<Br0C, End>>, RoleH<RoleH<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0D, End>>, RoleH<RoleH<RoleEnd>>, NameD>;
type B0_0_E = MeshedChannels<End, End, End, End, End, End, Recv<Option<Vec<u64>>, Recv<Br0E, End>>, RoleH<RoleH<RoleEnd>>, NameE>;
type B0_0_F = MeshedChannels<End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0F, End>>, RoleH<RoleH<RoleEnd>>, NameF>;
type B0_0_G = MeshedChannels<End, End, End, End, End, End, Recv<Big, Recv<Br0G, End>>, RoleH<RoleH<RoleEnd>>, NameG>;
type B0_0_H = MeshedChannels<Send<u64, Send<Br0A, End>>, Send<String, Send<Br0B, End>>, Send<String, Send<Br0C, End>>, Send<(u64, Box<Tok>), Send<Br0D, End>>, Send<Option<Vec<u64>>, Send<Br0E, End>>, Send<(u64, Box<Tok>), Send<Br0F, End>>, Send<Big, Send<Br0G, End>>, RoleA<RoleB<RoleC<RoleD<RoleE<RoleF<RoleG<RoleBroadcast>>>>>>>, NameH>;
type B0_1_A = MeshedChannels<Send<i64, Send<Br1B, End>>, Send<Br1C, End>, Send<Br1D, End>, Send<Br1E, End>, Send<Br1F, End>, Send<Br1G, End>, Send<Br1H, End>, RoleB<RoleBroadcast>, NameA>;
type B0_1_B = MeshedChannels<Recv<i64, Recv<Br1B, End>>, Send<Option<Vec<u64>>, End>, End, End, End, End, End, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br1C, End>, Recv<Option<Vec<u64>>, End>, Send<u8, End>, End, End, End, End, RoleB<RoleD<RoleA<RoleEnd>>>, NameC>;
type B0_1_D = MeshedChannels<Recv<Br1D, End>, End, Recv<u8, End>, Send<(u64, Box<Tok>), End>, End, End, End, RoleC<RoleE<RoleA<RoleEnd>>>, NameD>;
type B0_1_E = MeshedChannels<Recv<Br1E, End>, End, End, Recv<(u64, Box<Tok>), End>, Send<(), End>, End, End, RoleD<RoleF<RoleA<RoleEnd>>>, NameE>;
type B0_1_F = MeshedChannels<Recv<Br1F, End>, End, End, End, Recv<(), End>, Send<Big, End>, End, RoleE<RoleG<RoleA<RoleEnd>>>, NameF>;
type B0_1_G = MeshedChannels<Recv<Br1G, End>, End, End, End, End, Recv<Big, End>, Send<u8, End>, RoleF<RoleH<RoleA<RoleEnd>>>, NameG>;
type B0_1_H = MeshedChannels<Recv<Br1H, End>, End, End, End, End, End, Recv<u8, End>, RoleG<RoleA<RoleEnd>>, NameH>;
type B0_2_A = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameC>;
type B0_2_D = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameD>;
type B0_2_E = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameE>;
type B0_2_F = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameF>;
type B0_2_G = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameG>;
type B0_2_H = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameH>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
pub enum Br0E { L0(B0_0_E), L1(B0_1_E), L2(B0_2_E) } unsafe impl std::marker::Send for Br0E {}
pub enum Br0F { L0(B0_0_F), L1(B0_1_F), L2(B0_2_F) } unsafe impl std::marker::Send for Br0F {}
pub enum Br0G { L0(B0_0_G), L1(B0_1_G), L2(B0_2_G) } unsafe impl std::marker::Send for Br0G {}
type B1_0_A = MeshedChannels<Send<u64, End>, Send<Option<Vec<u64>>, End>, Send<i64, End>, Send<(), End>, Send<Option<Vec<u64>>, End>, Send<Option<Vec<u64>>, End>, Send<Big, End>, RoleB<RoleC<RoleD<RoleE<RoleF<RoleG<RoleH<RoleEnd>>>>>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<u64, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameC>;
type B1_0_D = MeshedChannels<Recv<i64, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameD>;
type B1_0_E = MeshedChannels<Recv<(), End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameE>;
type B1_0_F = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameF>;
type B1_0_G = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameG>;
type B1_0_H = MeshedChannels<Recv<Big, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameH>;
type B1_1_A = MeshedChannels<Recv<String, End>, Recv<String, End>, Recv<Big, End>, Recv<(), End>, Recv<String, End>, Recv<Tok, End>, Recv<i64, Recv<Br0A, End>>, RoleH<RoleG<RoleF<RoleE<RoleD<RoleC<RoleB<RoleH<RoleEnd>>>>>>>>, NameA>;
type B1_1_B = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0B, End>, RoleA<RoleH<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0C, End>, RoleA<RoleH<RoleEnd>>, NameC>;
type B1_1_D = MeshedChannels<Send<Big, End>, End, End, End, End, End, Recv<Br0D, End>, RoleA<RoleH<RoleEnd>>, NameD>;
type B1_1_E = MeshedChannels<Send<(), End>, End, End, End, End, End, Recv<Br0E, End>, RoleA<RoleH<RoleEnd>>, NameE>;
type B1_1_F = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0F, End>, RoleA<RoleH<RoleEnd>>, NameF>;
type B1_1_G = MeshedChannels<Send<Tok, End>, End, End, End, End, End, Recv<Br0G, End>, RoleA<RoleH<RoleEnd>>, NameG>;
type B1_1_H = MeshedChannels<Send<i64, Send<Br0A, End>>, Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleA<RoleBroadcast>, NameH>;
pub enum Br1B { L0(B1_0_B), L1(B1_1_B) } unsafe impl std::marker::Send for Br1B {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
pub enum Br1D { L0(B1_0_D), L1(B1_1_D) } unsafe impl std::marker::Send for Br1D {}
pub enum Br1E { L0(B1_0_E), L1(B1_1_E) } unsafe impl std::marker::Send for Br1E {}
pub enum Br1F { L0(B1_0_F), L1(B1_1_F) } unsafe impl std::marker::Send for Br1F {}
pub enum Br1G { L0(B1_0_G), L1(B1_1_G) } unsafe impl std::marker::Send for Br1G {}
pub enum Br1H { L0(B1_0_H), L1(B1_1_H) } unsafe impl std::marker::Send for Br1H {}
mpstthree::create_fn_choose_mpst_multi_to_all_bundle!(ch1_0, ch1_1, => L0, L1, => B1_0_A, B1_1_A, => Br1B, Br1C, Br1D, Br1E, Br1F, Br1G, Br1H, => NameB, NameC, NameD, NameE, NameF, NameG, NameH, => NameA, MeshedChannels, 1);
type C0_A = MeshedChannels<End, End, End, End, End, End, Recv<Br0A, End>, RoleH<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, End, End, End, End, End, Recv<Br0B, End>, RoleH<RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, End, End, End, End, End, Recv<Br0C, End>, RoleH<RoleEnd>, NameC>;
type C0_D = MeshedChannels<End, End, End, End, End, End, Recv<Br0D, End>, RoleH<RoleEnd>, NameD>;
type C0_E = MeshedChannels<End, End, End, End, End, End, Recv<Br0E, End>, RoleH<RoleEnd>, NameE>;
type C0_F = MeshedChannels<End, End, End, End, End, End, Recv<Br0F, End>, RoleH<RoleEnd>, NameF>;
type C0_G = MeshedChannels<End, End, End, End, End, End, Recv<Br0G, End>, RoleH<RoleEnd>, NameG>;
type C0_H = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleBroadcast, NameH>;
type C1_A = MeshedChannels<Send<Br1B, End>, Send<Br1C, End>, Send<Br1D, End>, Send<Br1E, End>, Send<Br1F, End>, Send<Br1G, End>, Send<Br1H, End>, RoleBroadcast, NameA>;
type C1_B = MeshedChannels<Recv<Br1B, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Br1C, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameC>;
type C1_D = MeshedChannels<Recv<Br1D, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameD>;
type C1_E = MeshedChannels<Recv<Br1E, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameE>;
type C1_F = MeshedChannels<Recv<Br1F, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameF>;
type C1_G = MeshedChannels<Recv<Br1G, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameG>;
type C1_H = MeshedChannels<Recv<Br1H, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameH>;
type S_A = MeshedChannels<End, End, End, End, End, End, Send<Option<Vec<u64>>, Recv<Br0A, End>>, RoleH<RoleH<RoleEnd>>, NameA>;
type S_B = MeshedChannels<End, End, End, End, End, Send<Option<Vec<u64>>, End>, Recv<u8, Recv<Br0B, End>>, RoleH<RoleG<RoleH<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, End, End, End, Send<(u64, Box<Tok>), End>, Recv<Big, End>, Recv<Br0C, End>, RoleG<RoleF<RoleH<RoleEnd>>>, NameC>;
type S_D = MeshedChannels<End, End, End, Send<Option<Vec<u64>>, End>, Recv<u64, End>, End, Recv<Br0D, End>, RoleF<RoleE<RoleH<RoleEnd>>>, NameD>;
type S_E = MeshedChannels<End, End, End, Recv<Option<Vec<u64>>, End>, End, End, Recv<Br0E, End>, RoleD<RoleH<RoleEnd>>, NameE>;
type S_F = MeshedChannels<End, End, Recv<(u64, Box<Tok>), End>, Send<u64, End>, End, End, Recv<Br0F, End>, RoleC<RoleD<RoleH<RoleEnd>>>, NameF>;
type S_G = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, Send<Big, End>, End, End, End, Recv<Br0G, End>, RoleB<RoleC<RoleH<RoleEnd>>>, NameG>;
type S_H = MeshedChannels<Recv<Option<Vec<u64>>, Send<Br0A, End>>, Send<u8, Send<Br0B, End>>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleA<RoleB<RoleBroadcast>>, NameH>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<u64>(7, &x);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      c1_a(s, h)
    },
    Br0A::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<String>(7, &x);
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
    Br0B::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<String>(7, &x);
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
      c1_c(s, h)
    },
    Br0C::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0D::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(7, &x);
      c0_d(s, h)
    },
    Br0D::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(4); let s = s.send(x)?; h.sent();
      c1_d(s, h)
    },
    Br0D::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_e(s: C0_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0E::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(7, &x);
      c0_e(s, h)
    },
    Br0E::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(3, &x);
      pre!(h, s, m); let x = h.mk::<()>(5); let s = s.send(x)?; h.sent();
      c1_e(s, h)
    },
    Br0E::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_f(s: C0_F, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0F::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(7, &x);
      c0_f(s, h)
    },
    Br0F::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<()>(4, &x);
      pre!(h, s, m); let x = h.mk::<Big>(6); let s = s.send(x)?; h.sent();
      c1_f(s, h)
    },
    Br0F::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_g(s: C0_G, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  mpstthree::offer_mpst!(s, {
    Br0G::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<Big>(7, &x);
      c0_g(s, h)
    },
    Br0G::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Big>(5, &x);
      pre!(h, s, m); let x = h.mk::<u8>(7); let s = s.send(x)?; h.sent();
      c1_g(s, h)
    },
    Br0G::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_h(s: C0_H, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_H = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L0, Br0B::L0, Br0C::L0, Br0D::L0, Br0E::L0, Br0F::L0, Br0G::L0, => NameH, MeshedChannels, 8); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(6); let s = s.send(x)?; h.sent();
      c0_h(s, h)
    }
    1 => { let s: B0_1_H = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L1, Br0B::L1, Br0C::L1, Br0D::L1, Br0E::L1, Br0F::L1, Br0G::L1, => NameH, MeshedChannels, 8); h.chosen();
      pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<u8>(6, &x);
      c1_h(s, h)
    }
    _ => { let s: B0_2_H = mpstthree::choose_mpst_multi_to_all!(s, Br0A::L2, Br0B::L2, Br0C::L2, Br0D::L2, Br0E::L2, Br0F::L2, Br0G::L2, => NameH, MeshedChannels, 8); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_A = ch1_0(s); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(6); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(7); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_A = ch1_1(s); h.chosen();
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<i64>(7, &x);
      pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<Tok>(6, &x);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<String>(5, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<()>(4, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      c0_a(s, h)
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
  })
}
fn c1_d(s: C1_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1D::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1D::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
  })
}
fn c1_e(s: C1_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1E::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1E::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
  })
}
fn c1_f(s: C1_F, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1F::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1F::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_f(s, h)
    },
  })
}
fn c1_g(s: C1_G, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1G::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1G::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_g(s, h)
    },
  })
}
fn c1_h(s: C1_H, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br1H::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1H::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c0_h(s, h)
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(7); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<u8>(7, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(6); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<Big>(6, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u64>(5, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(4); let s = s.send(x)?; h.sent();
  c0_d(s, h)
}
fn start_e(s: S_E, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
  c0_e(s, h)
}
fn start_f(s: S_F, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(3); let s = s.send(x)?; h.sent();
  c0_f(s, h)
}
fn start_g(s: S_G, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  c0_g(s, h)
}
fn start_h(s: S_H, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
  c0_h(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h)), move |s: S_E| H::new(4).participant(move |h| start_e(s, h)), move |s: S_F| H::new(5).participant(move |h| start_f(s, h)), move |s: S_G| H::new(6).participant(move |h| start_g(s, h)), move |s: S_H| H::new(7).participant(move |h| start_h(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5, j6, j7,)) => joined(vec![j0, j1, j2, j3, j4, j5, j6, j7]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/wheel8", n: 8, cancel_sends: true, cancel_choices: false, start: (&[(0, 7), (7, 1), (1, 6), (6, 2), (2, 5), (5, 3), (3, 4)], 0), states: &[State { chooser: 7, exit: 2, branches: &[(&[(7, 0), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7)], END), (&[(7, 0), (6, 0), (5, 0), (4, 0), (3, 0), (2, 0), (1, 0)], 0)] }], go };
}
pub mod cancel_r0 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B);
type B0_0_A = MeshedChannels<Recv<i64, Recv<(), Recv<Big, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<Send<i64, Send<(), Send<Big, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_A = MeshedChannels<Send<String, End>, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Recv<String, End>, RoleA<RoleEnd>, NameB>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameA, MeshedChannels, 1);
type C0_A = MeshedChannels<Send<Br0B, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, RoleA<RoleEnd>, NameB>;
type S_A = MeshedChannels<Send<i64, Recv<Tok, Send<(u64, Box<Tok>), Recv<(), Send<u8, Send<Br0B, End>>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Send<Tok, Recv<(u64, Box<Tok>), Send<(), Recv<u8, Recv<Br0B, End>>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>>, NameB>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_c0!(s, Br0B::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = choose_c0!(s, Br0B::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
  pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
  c0_b(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h))));
  match f { Ok((j0, j1,)) => joined(vec![j0, j1]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/r0", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 0), (0, 1), (1, 0), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(1, 0), (1, 0), (1, 0)], END), (&[(0, 1)], END)] }], go };
}
pub mod cancel_r1 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<(u64, Box<Tok>), End>, Recv<Big, Recv<Big, End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<Send<(u64, Box<Tok>), End>, Recv<String, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Big, Send<Big, End>>, Send<String, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Recv<Option<Vec<u64>>, Send<(), End>>, Send<(), End>, RoleB<RoleB<RoleC<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<Option<Vec<u64>>, Recv<(), End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), End>, End, RoleA<RoleEnd>, NameC>;
type B0_2_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type B0_2_B = MeshedChannels<Recv<Br0B, End>, Recv<Tok, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<Recv<Br0C, End>, Send<Tok, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_3_A = MeshedChannels<Send<Br0B, End>, Send<u64, Send<Br0C, End>>, RoleC<RoleBroadcast>, NameA>;
type B0_3_B = MeshedChannels<Recv<Br0B, End>, Recv<Tok, Send<Tok, Recv<(u64, Box<Tok>), End>>>, RoleC<RoleC<RoleC<RoleA<RoleEnd>>>>, NameB>;
type B0_3_C = MeshedChannels<Recv<u64, Recv<Br0C, End>>, Send<Tok, Recv<Tok, Send<(u64, Box<Tok>), End>>>, RoleB<RoleA<RoleB<RoleB<RoleA<RoleEnd>>>>>, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B), L3(B0_3_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C), L3(B0_3_C) } unsafe impl std::marker::Send for Br0C {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameA, MeshedChannels, 1);
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<String, Send<String, Send<Br0B, End>>>, Recv<u64, Send<Br0C, End>>, RoleB<RoleC<RoleB<RoleBroadcast>>>, NameA>;
type S_B = MeshedChannels<Recv<String, Recv<String, Recv<Br0B, End>>>, Send<Big, Send<(u64, Box<Tok>), End>>, RoleA<RoleC<RoleC<RoleA<RoleA<RoleEnd>>>>>, NameB>;
type S_C = MeshedChannels<Send<u64, Recv<Br0C, End>>, Recv<Big, Recv<(u64, Box<Tok>), End>>, RoleA<RoleB<RoleB<RoleA<RoleEnd>>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_c0!(s, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: B0_1_A = choose_c0!(s, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    2 => { let s: B0_2_A = choose_c0!(s, Br0B::L2, Br0C::L2); h.chosen();
      c0_a(s, h)
    }
    _ => { let s: B0_3_A = choose_c0!(s, Br0B::L3, Br0C::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      c0_b(s, h)
    },
    Br0B::L3(s) => { h.offered(0, 3);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      c0_b(s, h)
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L3(s) => { h.offered(0, 3);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/r1", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (2, 0), (1, 2), (1, 2), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 1), (1, 0), (2, 0), (2, 0)], END), (&[(1, 0), (0, 1), (0, 2)], END), (&[(2, 1)], 0), (&[(2, 1), (0, 2), (1, 2), (2, 1)], 0)] }], go };
}
pub mod cancel_r2 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, End, Recv<Br0A, End>, RoleD<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleD<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<End, End, Recv<Br0C, End>, RoleD<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, End, RoleEnd, NameC>;
type B0_1_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type B0_2_A = MeshedChannels<Send<String, End>, Send<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), End>, RoleC<RoleB<RoleD<RoleEnd>>>, NameA>;
type B0_2_B = MeshedChannels<Recv<String, End>, End, Recv<Option<Vec<u64>>, End>, RoleD<RoleA<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<Recv<(u64, Box<Tok>), End>, End, End, RoleA<RoleEnd>, NameC>;
type B0_2_D = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<Option<Vec<u64>>, End>, End, RoleB<RoleA<RoleEnd>>, NameD>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameD, MeshedChannels, 4);
type C0_A = MeshedChannels<End, End, Recv<Br0A, End>, RoleD<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleD<RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, End, Recv<Br0C, End>, RoleD<RoleEnd>, NameC>;
type C0_D = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameD>;
type S_A = MeshedChannels<End, End, Recv<Br0A, End>, RoleD<RoleEnd>, NameA>;
type S_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleD<RoleEnd>, NameB>;
type S_C = MeshedChannels<End, End, Recv<Br0C, End>, RoleD<RoleEnd>, NameC>;
type S_D = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameD>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(3, 0);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0A::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(3, 0);
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  mpstthree::offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(3, 0);
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0C::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_D = choose_c0!(s, Br0A::L0, Br0B::L0, Br0C::L0); h.chosen();
      c0_d(s, h)
    }
    1 => { let s: B0_1_D = choose_c0!(s, Br0A::L1, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_2_D = choose_c0!(s, Br0A::L2, Br0B::L2, Br0C::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/r2", n: 4, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 3, exit: 1, branches: &[(&[], 0), (&[], END), (&[(3, 1), (0, 2), (0, 1), (0, 3)], END)] }], go };
}
pub mod cancel_r3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B);
type B0_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Option<Vec<u64>>, Recv<Br0A, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Option<Vec<u64>>, Send<Br0A, End>>>, RoleA<RoleA<RoleBroadcast>>, NameB>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, RoleBroadcast, NameB>;
type B0_2_A = MeshedChannels<Send<Tok, Recv<i64, Recv<Big, Recv<u64, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type B0_2_B = MeshedChannels<Recv<Tok, Send<i64, Send<Big, Send<u64, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type B0_3_A = MeshedChannels<Recv<String, Send<String, Send<Option<Vec<u64>>, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type B0_3_B = MeshedChannels<Send<String, Recv<String, Recv<Option<Vec<u64>>, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A), L3(B0_3_A) } unsafe impl std::marker::Send for Br0A {}
mpstthree::choose_mpst_create_multi_to_all!(choose_c0, NameB, MeshedChannels, 2);
type C0_A = MeshedChannels<Recv<Br0A, End>, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, RoleBroadcast, NameB>;
type S_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Big, Send<String, Recv<Br0A, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Big, Recv<String, Send<Br0A, End>>>>, RoleA<RoleA<RoleA<RoleBroadcast>>>, NameB>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      c0_a(s, h)
    },
    Br0A::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0A::L3(s) => { h.offered(1, 3);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = choose_c0!(s, Br0A::L0); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    }
    1 => { let s: B0_1_B = choose_c0!(s, Br0A::L1); h.chosen();
      c0_b(s, h)
    }
    2 => { let s: B0_2_B = choose_c0!(s, Br0A::L2); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_3_B = choose_c0!(s, Br0A::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_b(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h))));
  match f { Ok((j0, j1,)) => joined(vec![j0, j1]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/r3", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 0), (0, 1)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(0, 1), (1, 0)], 0), (&[], 0), (&[(0, 1), (1, 0), (1, 0), (1, 0)], END), (&[(1, 0), (0, 1), (0, 1)], END)] }], go };
}
pub mod cancel_ec3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, Send<Either<B1_0_B, B1_1_B>, End>>>, Recv<(u64, Box<Tok>), Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>>, RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Send<i64, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type C0_A = MeshedChannels<End, Recv<Either<B0_0_A, B0_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_B, B0_1_B>, End>, RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>, NameA>;
type C1_B = MeshedChannels<Recv<Either<B1_0_B, B1_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Either<B1_0_C, B1_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<End, Recv<u8, Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>>, RoleC<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<u8, Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>>, Send<Either<B0_0_B, B0_1_B>, End>, RoleA<RoleA<RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B0_0_B| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
    move |s: B0_1_B| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      c1_c(s, h)
    }
    _ => { let s: B0_1_C = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/ec3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2)], END), (&[(1, 0), (2, 1)], END)] }], go };
}
pub mod cancel_eb3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<(), Recv<Either<B1_0_A, B1_1_A>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Either<B1_0_B, B1_1_B>, End>, RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(2, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_C = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/eb3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 2), (2, 0)], END), (&[(0, 2)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (2, 1)], END), (&[(0, 1)], END)] }], go };
}
pub mod cancel_ea3 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<String, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<String, End>, Send<String, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<String, End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<Recv<i64, Recv<Either<B1_0_A, B1_1_A>, End>>, Send<Big, End>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Send<i64, Send<Either<B1_0_A, B1_1_A>, End>>, Recv<String, Send<Either<B1_0_C, B1_1_C>, End>>, RoleC<RoleA<RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Big, End>, Send<String, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleA<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>, NameC>;
type B1_0_A = MeshedChannels<Recv<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Send<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, Send<(), End>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, Recv<(), End>, RoleB<RoleAlltoA<RoleEnd, RoleEnd>>, NameC>;
type B2_0_A = MeshedChannels<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B2_0_B = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleA<RoleEnd>, NameB>;
type B2_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B2_1_A = MeshedChannels<End, Send<u64, End>, RoleC<RoleEnd>, NameA>;
type B2_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B2_1_C = MeshedChannels<Recv<u64, End>, End, RoleA<RoleEnd>, NameC>;
type C0_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type C0_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<Recv<Either<B1_0_A, B1_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleBtoAll<RoleA<RoleEnd>, RoleC<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type C1_C = MeshedChannels<End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C2_A = MeshedChannels<Send<Either<B2_0_B, B2_1_B>, End>, Send<Either<B2_0_C, B2_1_C>, End>, RoleAtoAll<RoleB<RoleEnd>, RoleC<RoleEnd>>, NameA>;
type C2_B = MeshedChannels<Recv<Either<B2_0_B, B2_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type C2_C = MeshedChannels<Recv<Either<B2_0_C, B2_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Either<B0_0_B, B0_1_B>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleAtoAll<RoleB<RoleC<RoleEnd>>, RoleC<RoleB<RoleAlltoB<RoleEnd, RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Either<B0_0_B, B0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      c1_a(s, h)
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
  )
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(1, 1);
      c2_a(s, h)
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      c2_b(s, h)
    }
  }
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      c2_c(s, h)
    },
  )
}
fn c2_a(s: C2_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B2_0_A = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B2_1_A = s.choose_right(); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c2_b(s: C2_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B2_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B2_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c2_c(s: C2_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: B2_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B2_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/ea3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 2), (2, 0)], END), (&[(0, 2), (2, 1), (1, 0)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 0)], END), (&[(1, 2)], 2)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub mod cancel_e4 {
use crate::prelude::*;
mpstthree::generate!("cancel", MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleB<RoleAlltoD<RoleEnd, RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<String, End>, Send<Big, Recv<Either<B1_0_B, B1_1_B>, End>>, RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<String, End>, Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleB<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>, NameC>;
type B0_0_D = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Recv<Big, Send<Either<B1_0_B, B1_1_B>, End>>, Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>, RoleB<RoleC<RoleDtoAll<RoleA<RoleB<RoleC<RoleEnd>>>, RoleEnd>>>, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, Send<String, End>, RoleD<RoleEnd>, NameC>;
type B0_1_D = MeshedChannels<End, End, Recv<String, End>, RoleC<RoleEnd>, NameD>;
type B1_0_A = MeshedChannels<Send<u8, End>, End, Recv<Big, End>, RoleD<RoleB<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<Recv<u8, End>, End, Recv<i64, End>, RoleD<RoleA<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, End, Recv<Option<Vec<u64>>, End>, RoleD<RoleEnd>, NameC>;
type B1_0_D = MeshedChannels<Send<Big, End>, Send<i64, End>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleC<RoleEnd>>>, NameD>;
type B1_1_A = MeshedChannels<End, Send<Option<Vec<u64>>, End>, End, RoleC<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, RoleA<RoleEnd>, NameC>;
type B1_1_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, Send<Either<B0_0_D, B0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C0_D = MeshedChannels<End, Recv<Either<B0_0_D, B0_1_D>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameD>;
type C1_A = MeshedChannels<End, End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<End, End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameC>;
type C1_D = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleDtoAll<RoleA<RoleB<RoleC<RoleEnd>>>, RoleEnd>, NameD>;
type S_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, Send<u8, End>, RoleD<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, Send<Either<B0_0_D, B0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, RoleEnd>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_D = MeshedChannels<Recv<u8, End>, Recv<Either<B0_0_D, B0_1_D>, End>, End, RoleA<RoleAlltoB<RoleEnd, RoleEnd>>, NameD>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u64>(3, &x);
      c1_c(s, h)
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_D| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      c1_d(s, h)
    },
    move |s: B0_1_D| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<i64>(3, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(3, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_d(s: C1_D, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_D = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_D = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "cancel/e4", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(0, 3)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (1, 2), (1, 3), (3, 2)], 1), (&[(2, 3)], END)] }, State { chooser: 3, exit: 0, branches: &[(&[(3, 0), (3, 1), (3, 2), (0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub mod rec_and_cancel_loop3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Option<Vec<u64>>, End>>, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Option<Vec<u64>>, End>>, Recv<Br0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<End, Recv<Br0A, End>, RoleC<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = choose_mpst_c_to_all!(s, Br0A::L0, Br0B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_c(s, h)
    }
    _ => { let s: B0_1_C = choose_mpst_c_to_all!(s, Br0A::L1, Br0B::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/loop3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go };
}
pub mod rec_and_cancel_ring3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<i64, Send<Br0B, End>>, Recv<Big, Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type B0_0_B = MeshedChannels<Recv<i64, Recv<Br0B, End>>, Send<Big, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Big, Recv<Br0C, End>>, Recv<Big, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<Recv<u64, Send<Br0B, End>>, Send<u8, Send<Br0C, End>>, RoleC<RoleB<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Send<u64, Recv<Br0B, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleA<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<u8, Recv<Br0C, End>>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleA<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<u8, Send<Br0B, End>>, Recv<(), Send<Br0C, End>>, RoleB<RoleC<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<Recv<u8, Recv<Br0B, End>>, Send<String, End>, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<Send<(), Recv<Br0C, End>>, Recv<String, End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_mpst_a_to_all!(s, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = choose_mpst_a_to_all!(s, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u8>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = choose_mpst_a_to_all!(s, Br0B::L2, Br0C::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/ring3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(0, 1), (1, 2), (2, 0)], 0), (&[(0, 2), (2, 1), (1, 0)], 0), (&[], END)] }], go };
}
pub mod rec_and_cancel_two3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<(), End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, Send<Option<Vec<u64>>, Recv<(), Send<Br0C, End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Send<(), Recv<Br0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<Recv<Big, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, Recv<i64, End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, Send<i64, End>, RoleB<RoleEnd>, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Send<u8, Recv<Br1B, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Recv<u8, Send<Br1B, End>>, RoleB<RoleBroadcast>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Recv<String, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      c1_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      c0_a(s, h)
    },
    Br0A::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = choose_mpst_b_to_all!(s, Br0A::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    }
    1 => { let s: B0_1_B = choose_mpst_b_to_all!(s, Br0A::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      c0_b(s, h)
    }
    _ => { let s: B0_2_B = choose_mpst_b_to_all!(s, Br0A::L2, Br0C::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(1, 0);
      c1_c(s, h)
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(1); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    },
    Br1A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1A::L2(s) => { h.offered(2, 2);
      c1_a(s, h)
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_b(s, h)
    },
    Br1B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); let x = h.mk::<u8>(2); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = choose_mpst_c_to_all!(s, Br1A::L0, Br1B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    }
    1 => { let s: B1_1_C = choose_mpst_c_to_all!(s, Br1A::L1, Br1B::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_2_C = choose_mpst_c_to_all!(s, Br1A::L2, Br1B::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      c1_c(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/two3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2)], 0), states: &[State { chooser: 1, exit: 2, branches: &[(&[(1, 0)], 1), (&[(1, 2), (2, 1)], 0), (&[(0, 2)], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1)], 0), (&[(2, 1)], END), (&[(1, 2)], 1)] }], go };
}
pub mod rec_and_cancel_split3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/split3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 1), (0, 2), (0, 1), (0, 2), (1, 0), (2, 0)], END), states: &[], go };
}
pub mod rec_and_cancel_loop4 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, M, B, Zed, Alpha);
type B0_0_M = MeshedChannels<Send<Big, End>, End, Recv<String, Recv<Br0M, End>>, RoleAlpha<RoleB<RoleAlpha<RoleEnd>>>, NameM>;
type B0_0_B = MeshedChannels<Recv<Big, End>, Send<(u64, Box<Tok>), End>, Recv<Br0B, End>, RoleM<RoleZed<RoleAlpha<RoleEnd>>>, NameB>;
type B0_0_Zed = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), Recv<Br0Zed, End>>, RoleB<RoleAlpha<RoleAlpha<RoleEnd>>>, NameZed>;
type B0_0_Alpha = MeshedChannels<Send<String, Send<Br0M, End>>, Send<Br0B, End>, Recv<(u64, Box<Tok>), Send<Br0Zed, End>>, RoleM<RoleZed<RoleBroadcast>>, NameAlpha>;
type B0_1_M = MeshedChannels<Recv<i64, Recv<Br1M, End>>, Recv<u8, End>, Recv<Tok, End>, RoleB<RoleZed<RoleAlpha<RoleB<RoleEnd>>>>, NameM>;
type B0_1_B = MeshedChannels<Send<i64, Send<Br1M, End>>, Send<Br1Zed, End>, Send<Br1Alpha, End>, RoleM<RoleBroadcast>, NameB>;
type B0_1_Zed = MeshedChannels<Send<u8, End>, Recv<Br1Zed, End>, End, RoleM<RoleB<RoleEnd>>, NameZed>;
type B0_1_Alpha = MeshedChannels<Send<Tok, End>, Recv<Br1Alpha, End>, End, RoleM<RoleB<RoleEnd>>, NameAlpha>;
type B0_2_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B0_2_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_2_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
type B0_2_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
pub enum Br0M { L0(B0_0_M), L1(B0_1_M), L2(B0_2_M) } unsafe impl std::marker::Send for Br0M {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0Zed { L0(B0_0_Zed), L1(B0_1_Zed), L2(B0_2_Zed) } unsafe impl std::marker::Send for Br0Zed {}
type B1_0_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleAlpha<RoleEnd>, NameM>;
type B1_0_B = MeshedChannels<End, End, Send<String, Recv<Br0B, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameB>;
type B1_0_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type B1_0_Alpha = MeshedChannels<Send<Br0M, End>, Recv<String, Send<Br0B, End>>, Send<Br0Zed, End>, RoleB<RoleBroadcast>, NameAlpha>;
type B1_1_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B1_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B1_1_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
type B1_1_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
pub enum Br1M { L0(B1_0_M), L1(B1_1_M) } unsafe impl std::marker::Send for Br1M {}
pub enum Br1Zed { L0(B1_0_Zed), L1(B1_1_Zed) } unsafe impl std::marker::Send for Br1Zed {}
pub enum Br1Alpha { L0(B1_0_Alpha), L1(B1_1_Alpha) } unsafe impl std::marker::Send for Br1Alpha {}
type C0_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleAlpha<RoleEnd>, NameM>;
type C0_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleAlpha<RoleEnd>, NameB>;
type C0_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type C0_Alpha = MeshedChannels<Send<Br0M, End>, Send<Br0B, End>, Send<Br0Zed, End>, RoleBroadcast, NameAlpha>;
type C1_M = MeshedChannels<Recv<Br1M, End>, End, End, RoleB<RoleEnd>, NameM>;
type C1_B = MeshedChannels<Send<Br1M, End>, Send<Br1Zed, End>, Send<Br1Alpha, End>, RoleBroadcast, NameB>;
type C1_Zed = MeshedChannels<End, Recv<Br1Zed, End>, End, RoleB<RoleEnd>, NameZed>;
type C1_Alpha = MeshedChannels<End, Recv<Br1Alpha, End>, End, RoleB<RoleEnd>, NameAlpha>;
type S_M = MeshedChannels<End, End, Send<String, Recv<Br0M, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameM>;
type S_B = MeshedChannels<End, End, Recv<i64, Recv<Br0B, End>>, RoleAlpha<RoleAlpha<RoleEnd>>, NameB>;
type S_Zed = MeshedChannels<End, End, Recv<Br0Zed, End>, RoleAlpha<RoleEnd>, NameZed>;
type S_Alpha = MeshedChannels<Recv<String, Send<Br0M, End>>, Send<i64, Send<Br0B, End>>, Send<Br0Zed, End>, RoleM<RoleB<RoleBroadcast>>, NameAlpha>;
fn c0_m(s: C0_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0M::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<String>(3, &x);
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
      c0_m(s, h)
    },
    Br0M::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Tok>(3, &x);
      c1_m(s, h)
    },
    Br0M::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
    Br0B::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_zed(s: C0_Zed, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0Zed::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      c0_zed(s, h)
    },
    Br0Zed::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
      c1_zed(s, h)
    },
    Br0Zed::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_alpha(s: C0_Alpha, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_Alpha = choose_mpst_alpha_to_all!(s, Br0M::L0, Br0B::L0, Br0Zed::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      c0_alpha(s, h)
    }
    1 => { let s: B0_1_Alpha = choose_mpst_alpha_to_all!(s, Br0M::L1, Br0B::L1, Br0Zed::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c1_alpha(s, h)
    }
    _ => { let s: B0_2_Alpha = choose_mpst_alpha_to_all!(s, Br0M::L2, Br0B::L2, Br0Zed::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_m(s: C1_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1M::L0(s) => { h.offered(1, 0);
      c0_m(s, h)
    },
    Br1M::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_B = choose_mpst_b_to_all!(s, Br1M::L0, Br1Zed::L0, Br1Alpha::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    }
    _ => { let s: B1_1_B = choose_mpst_b_to_all!(s, Br1M::L1, Br1Zed::L1, Br1Alpha::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_zed(s: C1_Zed, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1Zed::L0(s) => { h.offered(1, 0);
      c0_zed(s, h)
    },
    Br1Zed::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_alpha(s: C1_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1Alpha::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      c0_alpha(s, h)
    },
    Br1Alpha::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_m(s: S_M, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
  c0_m(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<i64>(3, &x);
  c0_b(s, h)
}
fn start_zed(s: S_Zed, h: H) -> R {
  c0_zed(s, h)
}
fn start_alpha(s: S_Alpha, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  c0_alpha(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_M| H::new(0).participant(move |h| start_m(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_Zed| H::new(2).participant(move |h| start_zed(s, h)), move |s: S_Alpha| H::new(3).participant(move |h| start_alpha(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/loop4", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(0, 3), (3, 1)], 0), states: &[State { chooser: 3, exit: 2, branches: &[(&[(3, 0), (0, 1), (1, 2), (2, 3)], 0), (&[(1, 0), (2, 0), (3, 0)], 1), (&[], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 3)], 0), (&[], END)] }], go };
}
pub mod rec_and_cancel_star5 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C, D, E);
type B0_0_A = MeshedChannels<Recv<Big, Send<Br0B, End>>, Recv<Tok, Send<Br0C, End>>, Recv<u64, Send<Br0D, End>>, Recv<Tok, Send<Br0E, End>>, RoleB<RoleC<RoleD<RoleE<RoleBroadcast>>>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, Recv<Br0B, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<Br0C, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<Send<u64, Recv<Br0D, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameD>;
type B0_0_E = MeshedChannels<Send<Tok, Recv<Br0E, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameE>;
type B0_1_A = MeshedChannels<Send<u64, Send<Br0B, End>>, Send<Br0C, End>, Send<Br0D, End>, Recv<(u64, Box<Tok>), Send<Br0E, End>>, RoleB<RoleE<RoleBroadcast>>, NameA>;
type B0_1_B = MeshedChannels<Recv<u64, Recv<Br0B, End>>, Send<(u64, Box<Tok>), End>, End, End, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br0C, End>, Recv<(u64, Box<Tok>), End>, Send<u8, End>, End, RoleB<RoleD<RoleA<RoleEnd>>>, NameC>;
type B0_1_D = MeshedChannels<Recv<Br0D, End>, End, Recv<u8, End>, Send<Big, End>, RoleC<RoleE<RoleA<RoleEnd>>>, NameD>;
type B0_1_E = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0E, End>>, End, End, Recv<Big, End>, RoleD<RoleA<RoleA<RoleEnd>>>, NameE>;
type B0_2_A = MeshedChannels<End, End, End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, End, End, RoleEnd, NameC>;
type B0_2_D = MeshedChannels<End, End, End, End, RoleEnd, NameD>;
type B0_2_E = MeshedChannels<End, End, End, End, RoleEnd, NameE>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
pub enum Br0E { L0(B0_0_E), L1(B0_1_E), L2(B0_2_E) } unsafe impl std::marker::Send for Br0E {}
type C0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, End, End, End, RoleA<RoleEnd>, NameB>;
type C0_C = MeshedChannels<Recv<Br0C, End>, End, End, End, RoleA<RoleEnd>, NameC>;
type C0_D = MeshedChannels<Recv<Br0D, End>, End, End, End, RoleA<RoleEnd>, NameD>;
type C0_E = MeshedChannels<Recv<Br0E, End>, End, End, End, RoleA<RoleEnd>, NameE>;
type S_A = MeshedChannels<Send<String, Send<Br0B, End>>, Send<Big, Send<Br0C, End>>, Send<(u64, Box<Tok>), Send<Br0D, End>>, Send<Tok, Send<Br0E, End>>, RoleB<RoleC<RoleD<RoleE<RoleBroadcast>>>>, NameA>;
type S_B = MeshedChannels<Recv<String, Recv<Br0B, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameB>;
type S_C = MeshedChannels<Recv<Big, Recv<Br0C, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameC>;
type S_D = MeshedChannels<Recv<(u64, Box<Tok>), Recv<Br0D, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameD>;
type S_E = MeshedChannels<Recv<Tok, Recv<Br0E, End>>, End, End, End, RoleA<RoleA<RoleEnd>>, NameE>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_mpst_a_to_all!(s, Br0B::L0, Br0C::L0, Br0D::L0, Br0E::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u64>(3, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<Tok>(4, &x);
      c0_a(s, h)
    }
    1 => { let s: B0_1_A = choose_mpst_a_to_all!(s, Br0B::L1, Br0C::L1, Br0D::L1, Br0E::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(4, &x);
      c0_a(s, h)
    }
    _ => { let s: B0_2_A = choose_mpst_a_to_all!(s, Br0B::L2, Br0C::L2, Br0D::L2, Br0E::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
    Br0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
    Br0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0D::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
    Br0D::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); let x = h.mk::<Big>(4); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
    Br0D::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_e(s: C0_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0E::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
    Br0E::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
    Br0E::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Tok>(4); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  c0_d(s, h)
}
fn start_e(s: S_E, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_e(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h)), move |s: S_E| H::new(4).participant(move |h| start_e(s, h))));
  match f { Ok((j0, j1, j2, j3, j4,)) => joined(vec![j0, j1, j2, j3, j4]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/star5", n: 5, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 3), (0, 4)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(1, 0), (2, 0), (3, 0), (4, 0)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], 0), (&[], END)] }], go };
}
pub mod rec_and_cancel_wheel6 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, Q, Bob, Zulu, Alpha, Y1, C);
type B0_0_Q = MeshedChannels<End, End, End, End, Recv<Tok, Send<Tok, Recv<Br0Q, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameQ>;
type B0_0_Bob = MeshedChannels<End, End, End, End, Recv<u64, Send<u8, Recv<Br0Bob, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameBob>;
type B0_0_Zulu = MeshedChannels<End, End, End, End, Recv<i64, Send<Big, Recv<Br0Zulu, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameZulu>;
type B0_0_Alpha = MeshedChannels<End, End, End, End, Recv<Option<Vec<u64>>, Send<Big, Recv<Br0Alpha, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameAlpha>;
type B0_0_Y1 = MeshedChannels<End, End, End, End, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0Y1, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameY1>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<Tok, Send<Br0Q, End>>>, Send<u64, Recv<u8, Send<Br0Bob, End>>>, Send<i64, Recv<Big, Send<Br0Zulu, End>>>, Send<Option<Vec<u64>>, Recv<Big, Send<Br0Alpha, End>>>, Send<Tok, Recv<(u64, Box<Tok>), Send<Br0Y1, End>>>, RoleQ<RoleBob<RoleZulu<RoleAlpha<RoleY1<RoleQ<RoleBob<RoleZulu<RoleAlpha<RoleY1<RoleBroadcast>>>>>>>>>>, NameC>;
type B0_1_Q = MeshedChannels<Send<u64, End>, Recv<Br1Q, End>, End, End, Recv<String, End>, RoleBob<RoleC<RoleZulu<RoleEnd>>>, NameQ>;
type B0_1_Bob = MeshedChannels<Recv<u64, End>, Send<(u64, Box<Tok>), Recv<Br1Bob, End>>, End, End, End, RoleQ<RoleZulu<RoleZulu<RoleEnd>>>, NameBob>;
type B0_1_Zulu = MeshedChannels<Send<Br1Q, End>, Recv<(u64, Box<Tok>), Send<Br1Bob, End>>, Send<Option<Vec<u64>>, Send<Br1Alpha, End>>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBob<RoleAlpha<RoleBroadcast>>, NameZulu>;
type B0_1_Alpha = MeshedChannels<End, End, Recv<Option<Vec<u64>>, Recv<Br1Alpha, End>>, Send<u8, End>, End, RoleZulu<RoleY1<RoleZulu<RoleEnd>>>, NameAlpha>;
type B0_1_Y1 = MeshedChannels<End, End, Recv<Br1Y1, End>, Recv<u8, End>, Send<Big, End>, RoleAlpha<RoleC<RoleZulu<RoleEnd>>>, NameY1>;
type B0_1_C = MeshedChannels<Send<String, End>, End, Recv<Br1C, End>, End, Recv<Big, End>, RoleY1<RoleQ<RoleZulu<RoleEnd>>>, NameC>;
type B0_2_Q = MeshedChannels<End, End, End, End, End, RoleEnd, NameQ>;
type B0_2_Bob = MeshedChannels<End, End, End, End, End, RoleEnd, NameBob>;
type B0_2_Zulu = MeshedChannels<End, End, End, End, End, RoleEnd, NameZulu>;
type B0_2_Alpha = MeshedChannels<End, End, End, End, End, RoleEnd, NameAlpha>;
type B0_2_Y1 = MeshedChannels<End, End, End, End, End, RoleEnd, NameY1>;
type B0_2_C = MeshedChannels<End, End, End, End, End, RoleEnd, NameC>;
pub enum Br0Q { L0(B0_0_Q), L1(B0_1_Q), L2(B0_2_Q) } unsafe impl std::marker::Send for Br0Q {}
pub enum Br0Bob { L0(B0_0_Bob), L1(B0_1_Bob), L2(B0_2_Bob) } unsafe impl std::marker::Send for Br0Bob {}
pub enum Br0Zulu { L0(B0_0_Zulu), L1(B0_1_Zulu), L2(B0_2_Zulu) } unsafe impl std::marker::Send for Br0Zulu {}
pub enum Br0Alpha { L0(B0_0_Alpha), L1(B0_1_Alpha), L2(B0_2_Alpha) } unsafe impl std::marker::Send for Br0Alpha {}
pub enum Br0Y1 { L0(B0_0_Y1), L1(B0_1_Y1), L2(B0_2_Y1) } unsafe impl std::marker::Send for Br0Y1 {}
type B1_0_Q = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), End>>, End, End, Recv<Br0Q, End>, RoleZulu<RoleZulu<RoleC<RoleEnd>>>, NameQ>;
type B1_0_Bob = MeshedChannels<End, End, End, End, Recv<Br0Bob, End>, RoleC<RoleEnd>, NameBob>;
type B1_0_Zulu = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), End>>, End, End, Send<i64, End>, Recv<Br0Zulu, End>, RoleQ<RoleY1<RoleQ<RoleC<RoleEnd>>>>, NameZulu>;
type B1_0_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type B1_0_Y1 = MeshedChannels<End, End, Recv<i64, End>, End, Recv<Br0Y1, End>, RoleZulu<RoleC<RoleEnd>>, NameY1>;
type B1_0_C = MeshedChannels<Send<Br0Q, End>, Send<Br0Bob, End>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleBroadcast, NameC>;
type B1_1_Q = MeshedChannels<End, End, End, End, End, RoleEnd, NameQ>;
type B1_1_Bob = MeshedChannels<End, End, End, End, End, RoleEnd, NameBob>;
type B1_1_Zulu = MeshedChannels<End, End, End, End, Send<u64, End>, RoleC<RoleEnd>, NameZulu>;
type B1_1_Alpha = MeshedChannels<End, End, End, End, Recv<Tok, Send<Option<Vec<u64>>, End>>, RoleC<RoleC<RoleEnd>>, NameAlpha>;
type B1_1_Y1 = MeshedChannels<End, End, End, End, End, RoleEnd, NameY1>;
type B1_1_C = MeshedChannels<End, End, Recv<u64, End>, Send<Tok, Recv<Option<Vec<u64>>, End>>, End, RoleAlpha<RoleAlpha<RoleZulu<RoleEnd>>>, NameC>;
type B1_2_Q = MeshedChannels<End, Recv<Br1Q, End>, End, End, End, RoleZulu<RoleEnd>, NameQ>;
type B1_2_Bob = MeshedChannels<End, Recv<Br1Bob, End>, End, Recv<String, Send<u64, End>>, End, RoleY1<RoleY1<RoleZulu<RoleEnd>>>, NameBob>;
type B1_2_Zulu = MeshedChannels<Send<Br1Q, End>, Send<Br1Bob, End>, Send<Br1Alpha, End>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBroadcast, NameZulu>;
type B1_2_Alpha = MeshedChannels<End, End, Recv<Br1Alpha, End>, End, End, RoleZulu<RoleEnd>, NameAlpha>;
type B1_2_Y1 = MeshedChannels<End, Send<String, Recv<u64, End>>, Recv<Br1Y1, End>, End, End, RoleBob<RoleBob<RoleZulu<RoleEnd>>>, NameY1>;
type B1_2_C = MeshedChannels<End, End, Recv<Br1C, End>, End, End, RoleZulu<RoleEnd>, NameC>;
pub enum Br1Q { L0(B1_0_Q), L1(B1_1_Q), L2(B1_2_Q) } unsafe impl std::marker::Send for Br1Q {}
pub enum Br1Bob { L0(B1_0_Bob), L1(B1_1_Bob), L2(B1_2_Bob) } unsafe impl std::marker::Send for Br1Bob {}
pub enum Br1Alpha { L0(B1_0_Alpha), L1(B1_1_Alpha), L2(B1_2_Alpha) } unsafe impl std::marker::Send for Br1Alpha {}
pub enum Br1Y1 { L0(B1_0_Y1), L1(B1_1_Y1), L2(B1_2_Y1) } unsafe impl std::marker::Send for Br1Y1 {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C), L2(B1_2_C) } unsafe impl std::marker::Send for Br1C {}
type C0_Q = MeshedChannels<End, End, End, End, Recv<Br0Q, End>, RoleC<RoleEnd>, NameQ>;
type C0_Bob = MeshedChannels<End, End, End, End, Recv<Br0Bob, End>, RoleC<RoleEnd>, NameBob>;
type C0_Zulu = MeshedChannels<End, End, End, End, Recv<Br0Zulu, End>, RoleC<RoleEnd>, NameZulu>;
type C0_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type C0_Y1 = MeshedChannels<End, End, End, End, Recv<Br0Y1, End>, RoleC<RoleEnd>, NameY1>;
type C0_C = MeshedChannels<Send<Br0Q, End>, Send<Br0Bob, End>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleBroadcast, NameC>;
type C1_Q = MeshedChannels<End, Recv<Br1Q, End>, End, End, End, RoleZulu<RoleEnd>, NameQ>;
type C1_Bob = MeshedChannels<End, Recv<Br1Bob, End>, End, End, End, RoleZulu<RoleEnd>, NameBob>;
type C1_Zulu = MeshedChannels<Send<Br1Q, End>, Send<Br1Bob, End>, Send<Br1Alpha, End>, Send<Br1Y1, End>, Send<Br1C, End>, RoleBroadcast, NameZulu>;
type C1_Alpha = MeshedChannels<End, End, Recv<Br1Alpha, End>, End, End, RoleZulu<RoleEnd>, NameAlpha>;
type C1_Y1 = MeshedChannels<End, End, Recv<Br1Y1, End>, End, End, RoleZulu<RoleEnd>, NameY1>;
type C1_C = MeshedChannels<End, End, Recv<Br1C, End>, End, End, RoleZulu<RoleEnd>, NameC>;
type S_Q = MeshedChannels<Send<Tok, End>, End, End, End, Recv<u8, Recv<Br0Q, End>>, RoleC<RoleBob<RoleC<RoleEnd>>>, NameQ>;
type S_Bob = MeshedChannels<Recv<Tok, End>, End, End, End, Send<(), Recv<Br0Bob, End>>, RoleQ<RoleC<RoleC<RoleEnd>>>, NameBob>;
type S_Zulu = MeshedChannels<End, End, End, End, Recv<Br0Zulu, End>, RoleC<RoleEnd>, NameZulu>;
type S_Alpha = MeshedChannels<End, End, End, End, Recv<Br0Alpha, End>, RoleC<RoleEnd>, NameAlpha>;
type S_Y1 = MeshedChannels<End, End, End, End, Recv<Br0Y1, End>, RoleC<RoleEnd>, NameY1>;
type S_C = MeshedChannels<Send<u8, Send<Br0Q, End>>, Recv<(), Send<Br0Bob, End>>, Send<Br0Zulu, End>, Send<Br0Alpha, End>, Send<Br0Y1, End>, RoleQ<RoleBob<RoleBroadcast>>, NameC>;
fn c0_q(s: C0_Q, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  offer_mpst!(s, {
    Br0Q::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(5); let s = s.send(x)?; h.sent();
      c0_q(s, h)
    },
    Br0Q::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<String>(5, &x);
      c1_q(s, h)
    },
    Br0Q::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_bob(s: C0_Bob, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  offer_mpst!(s, {
    Br0Bob::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u64>(5, &x);
      pre!(h, s, m); let x = h.mk::<u8>(5); let s = s.send(x)?; h.sent();
      c0_bob(s, h)
    },
    Br0Bob::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c1_bob(s, h)
    },
    Br0Bob::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_zulu(s: C0_Zulu, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  offer_mpst!(s, {
    Br0Zulu::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<i64>(5, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c0_zulu(s, h)
    },
    Br0Zulu::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(3); let s = s.send(x)?; h.sent();
      c1_zulu(s, h)
    },
    Br0Zulu::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_alpha(s: C0_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  offer_mpst!(s, {
    Br0Alpha::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(5, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c0_alpha(s, h)
    },
    Br0Alpha::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<u8>(4); let s = s.send(x)?; h.sent();
      c1_alpha(s, h)
    },
    Br0Alpha::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_y1(s: C0_Y1, h: H) -> R {
  pre!(h, s, m);
  h.offer(5);
  offer_mpst!(s, {
    Br0Y1::L0(s) => { h.offered(5, 0);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
      c0_y1(s, h)
    },
    Br0Y1::L1(s) => { h.offered(5, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u8>(3, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c1_y1(s, h)
    },
    Br0Y1::L2(s) => { h.offered(5, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_C = choose_mpst_c_to_all!(s, Br0Q::L0, Br0Bob::L0, Br0Zulu::L0, Br0Alpha::L0, Br0Y1::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(4, &x);
      c0_c(s, h)
    }
    1 => { let s: B0_1_C = choose_mpst_c_to_all!(s, Br0Q::L1, Br0Bob::L1, Br0Zulu::L1, Br0Alpha::L1, Br0Y1::L1); h.chosen();
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<Big>(4, &x);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c1_c(s, h)
    }
    _ => { let s: B0_2_C = choose_mpst_c_to_all!(s, Br0Q::L2, Br0Bob::L2, Br0Zulu::L2, Br0Alpha::L2, Br0Y1::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_q(s: C1_Q, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1Q::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c0_q(s, h)
    },
    Br1Q::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Q::L2(s) => { h.offered(2, 2);
      c1_q(s, h)
    },
  })
}
fn c1_bob(s: C1_Bob, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1Bob::L0(s) => { h.offered(2, 0);
      c0_bob(s, h)
    },
    Br1Bob::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Bob::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<String>(4, &x);
      pre!(h, s, m); let x = h.mk::<u64>(4); let s = s.send(x)?; h.sent();
      c1_bob(s, h)
    },
  })
}
fn c1_zulu(s: C1_Zulu, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_Zulu = choose_mpst_zulu_to_all!(s, Br1Q::L0, Br1Bob::L0, Br1Alpha::L0, Br1Y1::L0, Br1C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      c0_zulu(s, h)
    }
    1 => { let s: B1_1_Zulu = choose_mpst_zulu_to_all!(s, Br1Q::L1, Br1Bob::L1, Br1Alpha::L1, Br1Y1::L1, Br1C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_2_Zulu = choose_mpst_zulu_to_all!(s, Br1Q::L2, Br1Bob::L2, Br1Alpha::L2, Br1Y1::L2, Br1C::L2); h.chosen();
      c1_zulu(s, h)
    }
  }
}
fn c1_alpha(s: C1_Alpha, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1Alpha::L0(s) => { h.offered(2, 0);
      c0_alpha(s, h)
    },
    Br1Alpha::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Tok>(5, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Alpha::L2(s) => { h.offered(2, 2);
      c1_alpha(s, h)
    },
  })
}
fn c1_y1(s: C1_Y1, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1Y1::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      c0_y1(s, h)
    },
    Br1Y1::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1Y1::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      c1_y1(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1C::L0(s) => { h.offered(2, 0);
      c0_c(s, h)
    },
    Br1C::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<Tok>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1C::L2(s) => { h.offered(2, 2);
      c1_c(s, h)
    },
  })
}
fn start_q(s: S_Q, h: H) -> R {
  pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u8>(5, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  c0_q(s, h)
}
fn start_bob(s: S_Bob, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); let x = h.mk::<()>(5); let s = s.send(x)?; h.sent();
  c0_bob(s, h)
}
fn start_zulu(s: S_Zulu, h: H) -> R {
  c0_zulu(s, h)
}
fn start_alpha(s: S_Alpha, h: H) -> R {
  c0_alpha(s, h)
}
fn start_y1(s: S_Y1, h: H) -> R {
  c0_y1(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_Q| H::new(0).participant(move |h| start_q(s, h)), move |s: S_Bob| H::new(1).participant(move |h| start_bob(s, h)), move |s: S_Zulu| H::new(2).participant(move |h| start_zulu(s, h)), move |s: S_Alpha| H::new(3).participant(move |h| start_alpha(s, h)), move |s: S_Y1| H::new(4).participant(move |h| start_y1(s, h)), move |s: S_C| H::new(5).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5,)) => joined(vec![j0, j1, j2, j3, j4, j5]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/wheel6", n: 6, cancel_sends: true, cancel_choices: false, start: (&[(5, 0), (0, 1), (1, 5)], 0), states: &[State { chooser: 5, exit: 2, branches: &[(&[(5, 0), (5, 1), (5, 2), (5, 3), (5, 4), (0, 5), (1, 5), (2, 5), (3, 5), (4, 5)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0)], 1), (&[], END)] }, State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (2, 4), (0, 2)], 0), (&[(5, 3), (3, 5), (2, 5)], END), (&[(4, 1), (1, 4)], 1)] }], go };
}
pub mod rec_and_cancel_wheel8 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C, D, E, F, G, H);
type B0_0_A = MeshedChannels<End, End, End, End, End, End, Recv<u64, Recv<Br0A, End>>, RoleH<RoleH<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<End, End, End, End, End, End, Recv<String, Recv<Br0B, End>>, RoleH<RoleH<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, End, End, End, End, End, Recv<String, Recv<Br0C, End>>, RoleH<RoleH<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0D, End>>, RoleH<RoleH<RoleEnd>>, NameD>;
type B0_0_E = MeshedChannels<End, End, End, End, End, End, Recv<Option<Vec<u64>>, Recv<Br0E, End>>, RoleH<RoleH<RoleEnd>>, NameE>;
type B0_0_F = MeshedChannels<End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0F, End>>, RoleH<RoleH<RoleEnd>>, NameF>;
type B0_0_G = MeshedChannels<End, End, End, End, End, End, Recv<Big, Recv<Br0G, End>>, RoleH<RoleH<RoleEnd>>, NameG>;
type B0_0_H = MeshedChannels<Send<u64, Send<Br0A, End>>, Send<String, Send<Br0B, End>>, Send<String, Send<Br0C, End>>, Send<(u64, Box<Tok>), Send<Br0D, End>>, Send<Option<Vec<u64>>, Send<Br0E, End>>, Send<(u64, Box<Tok>), Send<Br0F, End>>, Send<Big, Send<Br0G, End>>, RoleA<RoleB<RoleC<RoleD<RoleE<RoleF<RoleG<RoleBroadcast>>>>>>>, NameH>;
type B0_1_A = MeshedChannels<Send<i64, Send<Br1B, End>>, Send<Br1C, End>, Send<Br1D, End>, Send<Br1E, End>, Send<Br1F, End>, Send<Br1G, End>, Send<Br1H, End>, RoleB<RoleBroadcast>, NameA>;
type B0_1_B = MeshedChannels<Recv<i64, Recv<Br1B, End>>, Send<Option<Vec<u64>>, End>, End, End, End, End, End, RoleA<RoleC<RoleA<RoleEnd>>>, NameB>;
type B0_1_C = MeshedChannels<Recv<Br1C, End>, Recv<Option<Vec<u64>>, End>, Send<u8, End>, End, End, End, End, RoleB<RoleD<RoleA<RoleEnd>>>, NameC>;
type B0_1_D = MeshedChannels<Recv<Br1D, End>, End, Recv<u8, End>, Send<(u64, Box<Tok>), End>, End, End, End, RoleC<RoleE<RoleA<RoleEnd>>>, NameD>;
type B0_1_E = MeshedChannels<Recv<Br1E, End>, End, End, Recv<(u64, Box<Tok>), End>, Send<(), End>, End, End, RoleD<RoleF<RoleA<RoleEnd>>>, NameE>;
type B0_1_F = MeshedChannels<Recv<Br1F, End>, End, End, End, Recv<(), End>, Send<Big, End>, End, RoleE<RoleG<RoleA<RoleEnd>>>, NameF>;
type B0_1_G = MeshedChannels<Recv<Br1G, End>, End, End, End, End, Recv<Big, End>, Send<u8, End>, RoleF<RoleH<RoleA<RoleEnd>>>, NameG>;
type B0_1_H = MeshedChannels<Recv<Br1H, End>, End, End, End, End, End, Recv<u8, End>, RoleG<RoleA<RoleEnd>>, NameH>;
type B0_2_A = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameC>;
type B0_2_D = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameD>;
type B0_2_E = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameE>;
type B0_2_F = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameF>;
type B0_2_G = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameG>;
type B0_2_H = MeshedChannels<End, End, End, End, End, End, End, RoleEnd, NameH>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
pub enum Br0E { L0(B0_0_E), L1(B0_1_E), L2(B0_2_E) } unsafe impl std::marker::Send for Br0E {}
pub enum Br0F { L0(B0_0_F), L1(B0_1_F), L2(B0_2_F) } unsafe impl std::marker::Send for Br0F {}
pub enum Br0G { L0(B0_0_G), L1(B0_1_G), L2(B0_2_G) } unsafe impl std::marker::Send for Br0G {}
type B1_0_A = MeshedChannels<Send<u64, End>, Send<Option<Vec<u64>>, End>, Send<i64, End>, Send<(), End>, Send<Option<Vec<u64>>, End>, Send<Option<Vec<u64>>, End>, Send<Big, End>, RoleB<RoleC<RoleD<RoleE<RoleF<RoleG<RoleH<RoleEnd>>>>>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<u64, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameC>;
type B1_0_D = MeshedChannels<Recv<i64, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameD>;
type B1_0_E = MeshedChannels<Recv<(), End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameE>;
type B1_0_F = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameF>;
type B1_0_G = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameG>;
type B1_0_H = MeshedChannels<Recv<Big, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameH>;
type B1_1_A = MeshedChannels<Recv<String, End>, Recv<String, End>, Recv<Big, End>, Recv<(), End>, Recv<String, End>, Recv<Tok, End>, Recv<i64, Recv<Br0A, End>>, RoleH<RoleG<RoleF<RoleE<RoleD<RoleC<RoleB<RoleH<RoleEnd>>>>>>>>, NameA>;
type B1_1_B = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0B, End>, RoleA<RoleH<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0C, End>, RoleA<RoleH<RoleEnd>>, NameC>;
type B1_1_D = MeshedChannels<Send<Big, End>, End, End, End, End, End, Recv<Br0D, End>, RoleA<RoleH<RoleEnd>>, NameD>;
type B1_1_E = MeshedChannels<Send<(), End>, End, End, End, End, End, Recv<Br0E, End>, RoleA<RoleH<RoleEnd>>, NameE>;
type B1_1_F = MeshedChannels<Send<String, End>, End, End, End, End, End, Recv<Br0F, End>, RoleA<RoleH<RoleEnd>>, NameF>;
type B1_1_G = MeshedChannels<Send<Tok, End>, End, End, End, End, End, Recv<Br0G, End>, RoleA<RoleH<RoleEnd>>, NameG>;
type B1_1_H = MeshedChannels<Send<i64, Send<Br0A, End>>, Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleA<RoleBroadcast>, NameH>;
pub enum Br1B { L0(B1_0_B), L1(B1_1_B) } unsafe impl std::marker::Send for Br1B {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C) } unsafe impl std::marker::Send for Br1C {}
pub enum Br1D { L0(B1_0_D), L1(B1_1_D) } unsafe impl std::marker::Send for Br1D {}
pub enum Br1E { L0(B1_0_E), L1(B1_1_E) } unsafe impl std::marker::Send for Br1E {}
pub enum Br1F { L0(B1_0_F), L1(B1_1_F) } unsafe impl std::marker::Send for Br1F {}
pub enum Br1G { L0(B1_0_G), L1(B1_1_G) } unsafe impl std::marker::Send for Br1G {}
pub enum Br1H { L0(B1_0_H), L1(B1_1_H) } unsafe impl std::marker::Send for Br1H {}
type C0_A = MeshedChannels<End, End, End, End, End, End, Recv<Br0A, End>, RoleH<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, End, End, End, End, End, Recv<Br0B, End>, RoleH<RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, End, End, End, End, End, Recv<Br0C, End>, RoleH<RoleEnd>, NameC>;
type C0_D = MeshedChannels<End, End, End, End, End, End, Recv<Br0D, End>, RoleH<RoleEnd>, NameD>;
type C0_E = MeshedChannels<End, End, End, End, End, End, Recv<Br0E, End>, RoleH<RoleEnd>, NameE>;
type C0_F = MeshedChannels<End, End, End, End, End, End, Recv<Br0F, End>, RoleH<RoleEnd>, NameF>;
type C0_G = MeshedChannels<End, End, End, End, End, End, Recv<Br0G, End>, RoleH<RoleEnd>, NameG>;
type C0_H = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleBroadcast, NameH>;
type C1_A = MeshedChannels<Send<Br1B, End>, Send<Br1C, End>, Send<Br1D, End>, Send<Br1E, End>, Send<Br1F, End>, Send<Br1G, End>, Send<Br1H, End>, RoleBroadcast, NameA>;
type C1_B = MeshedChannels<Recv<Br1B, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Recv<Br1C, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameC>;
type C1_D = MeshedChannels<Recv<Br1D, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameD>;
type C1_E = MeshedChannels<Recv<Br1E, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameE>;
type C1_F = MeshedChannels<Recv<Br1F, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameF>;
type C1_G = MeshedChannels<Recv<Br1G, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameG>;
type C1_H = MeshedChannels<Recv<Br1H, End>, End, End, End, End, End, End, RoleA<RoleEnd>, NameH>;
type S_A = MeshedChannels<End, End, End, End, End, End, Send<Option<Vec<u64>>, Recv<Br0A, End>>, RoleH<RoleH<RoleEnd>>, NameA>;
type S_B = MeshedChannels<End, End, End, End, End, Send<Option<Vec<u64>>, End>, Recv<u8, Recv<Br0B, End>>, RoleH<RoleG<RoleH<RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, End, End, End, Send<(u64, Box<Tok>), End>, Recv<Big, End>, Recv<Br0C, End>, RoleG<RoleF<RoleH<RoleEnd>>>, NameC>;
type S_D = MeshedChannels<End, End, End, Send<Option<Vec<u64>>, End>, Recv<u64, End>, End, Recv<Br0D, End>, RoleF<RoleE<RoleH<RoleEnd>>>, NameD>;
type S_E = MeshedChannels<End, End, End, Recv<Option<Vec<u64>>, End>, End, End, Recv<Br0E, End>, RoleD<RoleH<RoleEnd>>, NameE>;
type S_F = MeshedChannels<End, End, Recv<(u64, Box<Tok>), End>, Send<u64, End>, End, End, Recv<Br0F, End>, RoleC<RoleD<RoleH<RoleEnd>>>, NameF>;
type S_G = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, Send<Big, End>, End, End, End, Recv<Br0G, End>, RoleB<RoleC<RoleH<RoleEnd>>>, NameG>;
type S_H = MeshedChannels<Recv<Option<Vec<u64>>, Send<Br0A, End>>, Send<u8, Send<Br0B, End>>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, Send<Br0F, End>, Send<Br0G, End>, RoleA<RoleB<RoleBroadcast>>, NameH>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<u64>(7, &x);
      c0_a(s, h)
    },
    Br0A::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      c1_a(s, h)
    },
    Br0A::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<String>(7, &x);
      c0_b(s, h)
    },
    Br0B::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    },
    Br0B::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<String>(7, &x);
      c0_c(s, h)
    },
    Br0C::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
      c1_c(s, h)
    },
    Br0C::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0D::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(7, &x);
      c0_d(s, h)
    },
    Br0D::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u8>(2, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(4); let s = s.send(x)?; h.sent();
      c1_d(s, h)
    },
    Br0D::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_e(s: C0_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0E::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(7, &x);
      c0_e(s, h)
    },
    Br0E::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(3, &x);
      pre!(h, s, m); let x = h.mk::<()>(5); let s = s.send(x)?; h.sent();
      c1_e(s, h)
    },
    Br0E::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_f(s: C0_F, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0F::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(7, &x);
      c0_f(s, h)
    },
    Br0F::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<()>(4, &x);
      pre!(h, s, m); let x = h.mk::<Big>(6); let s = s.send(x)?; h.sent();
      c1_f(s, h)
    },
    Br0F::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_g(s: C0_G, h: H) -> R {
  pre!(h, s, m);
  h.offer(7);
  offer_mpst!(s, {
    Br0G::L0(s) => { h.offered(7, 0);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<Big>(7, &x);
      c0_g(s, h)
    },
    Br0G::L1(s) => { h.offered(7, 1);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<Big>(5, &x);
      pre!(h, s, m); let x = h.mk::<u8>(7); let s = s.send(x)?; h.sent();
      c1_g(s, h)
    },
    Br0G::L2(s) => { h.offered(7, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_h(s: C0_H, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_H = choose_mpst_h_to_all!(s, Br0A::L0, Br0B::L0, Br0C::L0, Br0D::L0, Br0E::L0, Br0F::L0, Br0G::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(6); let s = s.send(x)?; h.sent();
      c0_h(s, h)
    }
    1 => { let s: B0_1_H = choose_mpst_h_to_all!(s, Br0A::L1, Br0B::L1, Br0C::L1, Br0D::L1, Br0E::L1, Br0F::L1, Br0G::L1); h.chosen();
      pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<u8>(6, &x);
      c1_h(s, h)
    }
    _ => { let s: B0_2_H = choose_mpst_h_to_all!(s, Br0A::L2, Br0B::L2, Br0C::L2, Br0D::L2, Br0E::L2, Br0F::L2, Br0G::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_A = choose_mpst_a_to_all!(s, Br1B::L0, Br1C::L0, Br1D::L0, Br1E::L0, Br1F::L0, Br1G::L0, Br1H::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(6); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(7); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_A = choose_mpst_a_to_all!(s, Br1B::L1, Br1C::L1, Br1D::L1, Br1E::L1, Br1F::L1, Br1G::L1, Br1H::L1); h.chosen();
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<i64>(7, &x);
      pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<Tok>(6, &x);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<String>(5, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<()>(4, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      c0_a(s, h)
    }
  }
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_c(s, h)
    },
  })
}
fn c1_d(s: C1_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1D::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1D::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    },
  })
}
fn c1_e(s: C1_E, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1E::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1E::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      c0_e(s, h)
    },
  })
}
fn c1_f(s: C1_F, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1F::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1F::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c0_f(s, h)
    },
  })
}
fn c1_g(s: C1_G, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1G::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1G::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      c0_g(s, h)
    },
  })
}
fn c1_h(s: C1_H, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br1H::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1H::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c0_h(s, h)
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(7); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<u8>(7, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(6); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<Big>(6, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(5); let s = s.send(x)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u64>(5, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(4); let s = s.send(x)?; h.sent();
  c0_d(s, h)
}
fn start_e(s: S_E, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
  c0_e(s, h)
}
fn start_f(s: S_F, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(3); let s = s.send(x)?; h.sent();
  c0_f(s, h)
}
fn start_g(s: S_G, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  c0_g(s, h)
}
fn start_h(s: S_H, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
  c0_h(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h)), move |s: S_E| H::new(4).participant(move |h| start_e(s, h)), move |s: S_F| H::new(5).participant(move |h| start_f(s, h)), move |s: S_G| H::new(6).participant(move |h| start_g(s, h)), move |s: S_H| H::new(7).participant(move |h| start_h(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5, j6, j7,)) => joined(vec![j0, j1, j2, j3, j4, j5, j6, j7]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/wheel8", n: 8, cancel_sends: true, cancel_choices: false, start: (&[(0, 7), (7, 1), (1, 6), (6, 2), (2, 5), (5, 3), (3, 4)], 0), states: &[State { chooser: 7, exit: 2, branches: &[(&[(7, 0), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7)], 1), (&[], END)] }, State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7)], END), (&[(7, 0), (6, 0), (5, 0), (4, 0), (3, 0), (2, 0), (1, 0)], 0)] }], go };
}
pub mod rec_and_cancel_wheel11 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, R1, R2, R3, R4, R5, R6, R7, R8, R9, R10, R11);
type B0_0_R1 = MeshedChannels<End, End, End, End, End, End, End, Send<String, End>, Recv<Option<Vec<u64>>, Recv<Br0R1, End>>, End, RoleR10<RoleR9<RoleR10<RoleEnd>>>, NameR1>;
type B0_0_R2 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0R2, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR2>;
type B0_0_R3 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Big, Recv<Br0R3, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR3>;
type B0_0_R4 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<i64, Recv<Br0R4, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR4>;
type B0_0_R5 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<u64, Recv<Br0R5, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR5>;
type B0_0_R6 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<String, Recv<Br0R6, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR6>;
type B0_0_R7 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Option<Vec<u64>>, Recv<Br0R7, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR7>;
type B0_0_R8 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<(u64, Box<Tok>), Recv<Br0R8, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR8>;
type B0_0_R9 = MeshedChannels<Recv<String, End>, End, End, End, End, End, End, End, Recv<(u64, Box<Tok>), Send<i64, Recv<Br0R9, End>>>, End, RoleR10<RoleR10<RoleR1<RoleR10<RoleEnd>>>>, NameR9>;
type B0_0_R10 = MeshedChannels<Send<Option<Vec<u64>>, Send<Br0R1, End>>, Send<(u64, Box<Tok>), Send<Br0R2, End>>, Send<Big, Send<Br0R3, End>>, Send<i64, Send<Br0R4, End>>, Send<u64, Send<Br0R5, End>>, Send<String, Send<Br0R6, End>>, Send<Option<Vec<u64>>, Send<Br0R7, End>>, Send<(u64, Box<Tok>), Send<Br0R8, End>>, Send<(u64, Box<Tok>), Recv<i64, Send<Br0R9, End>>>, Send<u8, Recv<Option<Vec<u64>>, Send<Br0R11, End>>>, RoleR1<RoleR2<RoleR3<RoleR4<RoleR5<RoleR6<RoleR7<RoleR8<RoleR9<RoleR11<RoleR11<RoleR9<RoleBroadcast>>>>>>>>>>>>, NameR10>;
type B0_0_R11 = MeshedChannels<End, End, End, End, End, End, End, End, End, Recv<u8, Send<Option<Vec<u64>>, Recv<Br0R11, End>>>, RoleR10<RoleR10<RoleR10<RoleEnd>>>, NameR11>;
type B0_1_R1 = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br1R1, End>>, End, End, End, End, End, End, End, End, Recv<(u64, Box<Tok>), End>, RoleR2<RoleR11<RoleR2<RoleEnd>>>, NameR1>;
type B0_1_R2 = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br1R1, End>>, Send<(u64, Box<Tok>), Send<Br1R3, End>>, Send<Br1R4, End>, Send<Br1R5, End>, Send<Br1R6, End>, Send<Br1R7, End>, Send<Br1R8, End>, Send<Br1R9, End>, Send<Br1R10, End>, Send<Br1R11, End>, RoleR1<RoleR3<RoleBroadcast>>, NameR2>;
type B0_1_R3 = MeshedChannels<End, Recv<(u64, Box<Tok>), Recv<Br1R3, End>>, Send<Tok, End>, End, End, End, End, End, End, End, RoleR2<RoleR4<RoleR2<RoleEnd>>>, NameR3>;
type B0_1_R4 = MeshedChannels<End, Recv<Br1R4, End>, Recv<Tok, End>, Send<u64, End>, End, End, End, End, End, End, RoleR3<RoleR5<RoleR2<RoleEnd>>>, NameR4>;
type B0_1_R5 = MeshedChannels<End, Recv<Br1R5, End>, End, Recv<u64, End>, Send<Big, End>, End, End, End, End, End, RoleR4<RoleR6<RoleR2<RoleEnd>>>, NameR5>;
type B0_1_R6 = MeshedChannels<End, Recv<Br1R6, End>, End, End, Recv<Big, End>, Send<u64, End>, End, End, End, End, RoleR5<RoleR7<RoleR2<RoleEnd>>>, NameR6>;
type B0_1_R7 = MeshedChannels<End, Recv<Br1R7, End>, End, End, End, Recv<u64, End>, Send<String, End>, End, End, End, RoleR6<RoleR8<RoleR2<RoleEnd>>>, NameR7>;
type B0_1_R8 = MeshedChannels<End, Recv<Br1R8, End>, End, End, End, End, Recv<String, End>, Send<u8, End>, End, End, RoleR7<RoleR9<RoleR2<RoleEnd>>>, NameR8>;
type B0_1_R9 = MeshedChannels<End, Recv<Br1R9, End>, End, End, End, End, End, Recv<u8, End>, Send<u64, End>, End, RoleR8<RoleR10<RoleR2<RoleEnd>>>, NameR9>;
type B0_1_R10 = MeshedChannels<End, Recv<Br1R10, End>, End, End, End, End, End, End, Recv<u64, End>, Send<i64, End>, RoleR9<RoleR11<RoleR2<RoleEnd>>>, NameR10>;
type B0_1_R11 = MeshedChannels<Send<(u64, Box<Tok>), End>, Recv<Br1R11, End>, End, End, End, End, End, End, End, Recv<i64, End>, RoleR10<RoleR1<RoleR2<RoleEnd>>>, NameR11>;
type B0_2_R1 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR1>;
type B0_2_R2 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR2>;
type B0_2_R3 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR3>;
type B0_2_R4 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR4>;
type B0_2_R5 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR5>;
type B0_2_R6 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR6>;
type B0_2_R7 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR7>;
type B0_2_R8 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR8>;
type B0_2_R9 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR9>;
type B0_2_R10 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR10>;
type B0_2_R11 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR11>;
pub enum Br0R1 { L0(B0_0_R1), L1(B0_1_R1), L2(B0_2_R1) } unsafe impl std::marker::Send for Br0R1 {}
pub enum Br0R2 { L0(B0_0_R2), L1(B0_1_R2), L2(B0_2_R2) } unsafe impl std::marker::Send for Br0R2 {}
pub enum Br0R3 { L0(B0_0_R3), L1(B0_1_R3), L2(B0_2_R3) } unsafe impl std::marker::Send for Br0R3 {}
pub enum Br0R4 { L0(B0_0_R4), L1(B0_1_R4), L2(B0_2_R4) } unsafe impl std::marker::Send for Br0R4 {}
pub enum Br0R5 { L0(B0_0_R5), L1(B0_1_R5), L2(B0_2_R5) } unsafe impl std::marker::Send for Br0R5 {}
pub enum Br0R6 { L0(B0_0_R6), L1(B0_1_R6), L2(B0_2_R6) } unsafe impl std::marker::Send for Br0R6 {}
pub enum Br0R7 { L0(B0_0_R7), L1(B0_1_R7), L2(B0_2_R7) } unsafe impl std::marker::Send for Br0R7 {}
pub enum Br0R8 { L0(B0_0_R8), L1(B0_1_R8), L2(B0_2_R8) } unsafe impl std::marker::Send for Br0R8 {}
pub enum Br0R9 { L0(B0_0_R9), L1(B0_1_R9), L2(B0_2_R9) } unsafe impl std::marker::Send for Br0R9 {}
pub enum Br0R11 { L0(B0_0_R11), L1(B0_1_R11), L2(B0_2_R11) } unsafe impl std::marker::Send for Br0R11 {}
type B1_0_R1 = MeshedChannels<Recv<String, End>, End, End, End, End, End, End, End, Recv<Br0R1, End>, Recv<i64, End>, RoleR2<RoleR11<RoleR10<RoleEnd>>>, NameR1>;
type B1_0_R2 = MeshedChannels<Send<String, End>, End, End, End, End, End, End, End, Send<u64, Recv<i64, Recv<Br0R2, End>>>, Send<u8, Recv<u8, End>>, RoleR1<RoleR11<RoleR10<RoleR11<RoleR10<RoleR10<RoleEnd>>>>>>, NameR2>;
type B1_0_R3 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R3, End>, End, RoleR10<RoleEnd>, NameR3>;
type B1_0_R4 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R4, End>, End, RoleR10<RoleEnd>, NameR4>;
type B1_0_R5 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R5, End>, End, RoleR10<RoleEnd>, NameR5>;
type B1_0_R6 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R6, End>, End, RoleR10<RoleEnd>, NameR6>;
type B1_0_R7 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R7, End>, End, RoleR10<RoleEnd>, NameR7>;
type B1_0_R8 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R8, End>, End, RoleR10<RoleEnd>, NameR8>;
type B1_0_R9 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<(u64, Box<Tok>), Send<u64, Recv<Br0R9, End>>>, End, RoleR10<RoleR10<RoleR10<RoleEnd>>>, NameR9>;
type B1_0_R10 = MeshedChannels<Send<Br0R1, End>, Recv<u64, Send<i64, Send<Br0R2, End>>>, Send<Br0R3, End>, Send<Br0R4, End>, Send<Br0R5, End>, Send<Br0R6, End>, Send<Br0R7, End>, Send<Br0R8, End>, Send<(u64, Box<Tok>), Recv<u64, Send<Br0R9, End>>>, Send<Br0R11, End>, RoleR2<RoleR2<RoleR9<RoleR9<RoleBroadcast>>>>, NameR10>;
type B1_0_R11 = MeshedChannels<Send<i64, End>, Recv<u8, Send<u8, End>>, End, End, End, End, End, End, End, Recv<Br0R11, End>, RoleR2<RoleR2<RoleR1<RoleR10<RoleEnd>>>>, NameR11>;
type B1_1_R1 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Big, End>, Send<Tok, Recv<u64, End>>, RoleR11<RoleR10<RoleR11<RoleEnd>>>, NameR1>;
type B1_1_R2 = MeshedChannels<End, End, End, End, End, End, End, End, End, Send<i64, End>, RoleR11<RoleEnd>, NameR2>;
type B1_1_R3 = MeshedChannels<End, End, End, End, End, End, End, End, End, Send<(), End>, RoleR11<RoleEnd>, NameR3>;
type B1_1_R4 = MeshedChannels<End, End, End, End, End, End, End, End, End, Send<String, End>, RoleR11<RoleEnd>, NameR4>;
type B1_1_R5 = MeshedChannels<End, End, End, End, End, End, End, End, End, Send<(u64, Box<Tok>), End>, RoleR11<RoleEnd>, NameR5>;
type B1_1_R6 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR6>;
type B1_1_R7 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR7>;
type B1_1_R8 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR8>;
type B1_1_R9 = MeshedChannels<End, End, End, End, End, End, End, End, End, End, RoleEnd, NameR9>;
type B1_1_R10 = MeshedChannels<Send<Big, End>, End, End, End, End, End, End, End, End, End, RoleR1<RoleEnd>, NameR10>;
type B1_1_R11 = MeshedChannels<Recv<Tok, Send<u64, End>>, Recv<i64, End>, Recv<(), End>, Recv<String, End>, Recv<(u64, Box<Tok>), End>, End, End, End, End, End, RoleR1<RoleR2<RoleR3<RoleR4<RoleR5<RoleR1<RoleEnd>>>>>>, NameR11>;
pub enum Br1R1 { L0(B1_0_R1), L1(B1_1_R1) } unsafe impl std::marker::Send for Br1R1 {}
pub enum Br1R3 { L0(B1_0_R3), L1(B1_1_R3) } unsafe impl std::marker::Send for Br1R3 {}
pub enum Br1R4 { L0(B1_0_R4), L1(B1_1_R4) } unsafe impl std::marker::Send for Br1R4 {}
pub enum Br1R5 { L0(B1_0_R5), L1(B1_1_R5) } unsafe impl std::marker::Send for Br1R5 {}
pub enum Br1R6 { L0(B1_0_R6), L1(B1_1_R6) } unsafe impl std::marker::Send for Br1R6 {}
pub enum Br1R7 { L0(B1_0_R7), L1(B1_1_R7) } unsafe impl std::marker::Send for Br1R7 {}
pub enum Br1R8 { L0(B1_0_R8), L1(B1_1_R8) } unsafe impl std::marker::Send for Br1R8 {}
pub enum Br1R9 { L0(B1_0_R9), L1(B1_1_R9) } unsafe impl std::marker::Send for Br1R9 {}
pub enum Br1R10 { L0(B1_0_R10), L1(B1_1_R10) } unsafe impl std::marker::Send for Br1R10 {}
pub enum Br1R11 { L0(B1_0_R11), L1(B1_1_R11) } unsafe impl std::marker::Send for Br1R11 {}
type C0_R1 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R1, End>, End, RoleR10<RoleEnd>, NameR1>;
type C0_R2 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R2, End>, End, RoleR10<RoleEnd>, NameR2>;
type C0_R3 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R3, End>, End, RoleR10<RoleEnd>, NameR3>;
type C0_R4 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R4, End>, End, RoleR10<RoleEnd>, NameR4>;
type C0_R5 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R5, End>, End, RoleR10<RoleEnd>, NameR5>;
type C0_R6 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R6, End>, End, RoleR10<RoleEnd>, NameR6>;
type C0_R7 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R7, End>, End, RoleR10<RoleEnd>, NameR7>;
type C0_R8 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R8, End>, End, RoleR10<RoleEnd>, NameR8>;
type C0_R9 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R9, End>, End, RoleR10<RoleEnd>, NameR9>;
type C0_R10 = MeshedChannels<Send<Br0R1, End>, Send<Br0R2, End>, Send<Br0R3, End>, Send<Br0R4, End>, Send<Br0R5, End>, Send<Br0R6, End>, Send<Br0R7, End>, Send<Br0R8, End>, Send<Br0R9, End>, Send<Br0R11, End>, RoleBroadcast, NameR10>;
type C0_R11 = MeshedChannels<End, End, End, End, End, End, End, End, End, Recv<Br0R11, End>, RoleR10<RoleEnd>, NameR11>;
type C1_R1 = MeshedChannels<Recv<Br1R1, End>, End, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR1>;
type C1_R2 = MeshedChannels<Send<Br1R1, End>, Send<Br1R3, End>, Send<Br1R4, End>, Send<Br1R5, End>, Send<Br1R6, End>, Send<Br1R7, End>, Send<Br1R8, End>, Send<Br1R9, End>, Send<Br1R10, End>, Send<Br1R11, End>, RoleBroadcast, NameR2>;
type C1_R3 = MeshedChannels<End, Recv<Br1R3, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR3>;
type C1_R4 = MeshedChannels<End, Recv<Br1R4, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR4>;
type C1_R5 = MeshedChannels<End, Recv<Br1R5, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR5>;
type C1_R6 = MeshedChannels<End, Recv<Br1R6, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR6>;
type C1_R7 = MeshedChannels<End, Recv<Br1R7, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR7>;
type C1_R8 = MeshedChannels<End, Recv<Br1R8, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR8>;
type C1_R9 = MeshedChannels<End, Recv<Br1R9, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR9>;
type C1_R10 = MeshedChannels<End, Recv<Br1R10, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR10>;
type C1_R11 = MeshedChannels<End, Recv<Br1R11, End>, End, End, End, End, End, End, End, End, RoleR2<RoleEnd>, NameR11>;
type S_R1 = MeshedChannels<End, End, End, End, End, End, End, End, Send<String, Recv<String, Recv<Br0R1, End>>>, Recv<(), End>, RoleR11<RoleR10<RoleR10<RoleR10<RoleEnd>>>>, NameR1>;
type S_R2 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R2, End>, Send<(), Recv<Big, End>>, RoleR11<RoleR11<RoleR10<RoleEnd>>>, NameR2>;
type S_R3 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R3, End>, End, RoleR10<RoleEnd>, NameR3>;
type S_R4 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R4, End>, End, RoleR10<RoleEnd>, NameR4>;
type S_R5 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R5, End>, End, RoleR10<RoleEnd>, NameR5>;
type S_R6 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R6, End>, End, RoleR10<RoleEnd>, NameR6>;
type S_R7 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R7, End>, End, RoleR10<RoleEnd>, NameR7>;
type S_R8 = MeshedChannels<End, End, End, End, End, End, End, End, Recv<Br0R8, End>, End, RoleR10<RoleEnd>, NameR8>;
type S_R9 = MeshedChannels<End, End, End, End, End, End, End, End, Send<Big, Recv<Br0R9, End>>, End, RoleR10<RoleR10<RoleEnd>>, NameR9>;
type S_R10 = MeshedChannels<Recv<String, Send<String, Send<Br0R1, End>>>, Send<Br0R2, End>, Send<Br0R3, End>, Send<Br0R4, End>, Send<Br0R5, End>, Send<Br0R6, End>, Send<Br0R7, End>, Send<Br0R8, End>, Recv<Big, Send<Br0R9, End>>, Send<u64, Send<Br0R11, End>>, RoleR11<RoleR1<RoleR9<RoleR1<RoleBroadcast>>>>, NameR10>;
type S_R11 = MeshedChannels<Send<(), End>, Recv<(), Send<Big, End>>, End, End, End, End, End, End, End, Recv<u64, Recv<Br0R11, End>>, RoleR10<RoleR1<RoleR2<RoleR2<RoleR10<RoleEnd>>>>>, NameR11>;
fn c0_r1(s: C0_R1, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R1::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(9, &x);
      pre!(h, s, m); let x = h.mk::<String>(8); let s = s.send(x)?; h.sent();
      c0_r1(s, h)
    },
    Br0R1::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(10, &x);
      c1_r1(s, h)
    },
    Br0R1::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r2(s: C0_R2, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R2::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(9, &x);
      c0_r2(s, h)
    },
    Br0R2::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      c1_r2(s, h)
    },
    Br0R2::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r3(s: C0_R3, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R3::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<Big>(9, &x);
      c0_r3(s, h)
    },
    Br0R3::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(3); let s = s.send(x)?; h.sent();
      c1_r3(s, h)
    },
    Br0R3::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r4(s: C0_R4, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R4::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<i64>(9, &x);
      c0_r4(s, h)
    },
    Br0R4::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      pre!(h, s, m); let x = h.mk::<u64>(4); let s = s.send(x)?; h.sent();
      c1_r4(s, h)
    },
    Br0R4::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r5(s: C0_R5, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R5::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<u64>(9, &x);
      c0_r5(s, h)
    },
    Br0R5::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u64>(3, &x);
      pre!(h, s, m); let x = h.mk::<Big>(5); let s = s.send(x)?; h.sent();
      c1_r5(s, h)
    },
    Br0R5::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r6(s: C0_R6, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R6::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<String>(9, &x);
      c0_r6(s, h)
    },
    Br0R6::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<Big>(4, &x);
      pre!(h, s, m); let x = h.mk::<u64>(6); let s = s.send(x)?; h.sent();
      c1_r6(s, h)
    },
    Br0R6::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r7(s: C0_R7, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R7::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(9, &x);
      c0_r7(s, h)
    },
    Br0R7::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(5); let (x, s) = s.recv()?; h.got::<u64>(5, &x);
      pre!(h, s, m); let x = h.mk::<String>(7); let s = s.send(x)?; h.sent();
      c1_r7(s, h)
    },
    Br0R7::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r8(s: C0_R8, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R8::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(9, &x);
      c0_r8(s, h)
    },
    Br0R8::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(6); let (x, s) = s.recv()?; h.got::<String>(6, &x);
      pre!(h, s, m); let x = h.mk::<u8>(8); let s = s.send(x)?; h.sent();
      c1_r8(s, h)
    },
    Br0R8::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r9(s: C0_R9, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R9::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(9, &x);
      pre!(h, s, m); let x = h.mk::<i64>(9); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      c0_r9(s, h)
    },
    Br0R9::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(7); let (x, s) = s.recv()?; h.got::<u8>(7, &x);
      pre!(h, s, m); let x = h.mk::<u64>(9); let s = s.send(x)?; h.sent();
      c1_r9(s, h)
    },
    Br0R9::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_r10(s: C0_R10, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_R10 = choose_mpst_r10_to_all!(s, Br0R1::L0, Br0R2::L0, Br0R3::L0, Br0R4::L0, Br0R5::L0, Br0R6::L0, Br0R7::L0, Br0R8::L0, Br0R9::L0, Br0R11::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(4); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(5); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(6); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(7); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(8); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u8>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(10, &x);
      pre!(h, s, m); h.rx(8); let (x, s) = s.recv()?; h.got::<i64>(8, &x);
      c0_r10(s, h)
    }
    1 => { let s: B0_1_R10 = choose_mpst_r10_to_all!(s, Br0R1::L1, Br0R2::L1, Br0R3::L1, Br0R4::L1, Br0R5::L1, Br0R6::L1, Br0R7::L1, Br0R8::L1, Br0R9::L1, Br0R11::L1); h.chosen();
      pre!(h, s, m); h.rx(8); let (x, s) = s.recv()?; h.got::<u64>(8, &x);
      pre!(h, s, m); let x = h.mk::<i64>(10); let s = s.send(x)?; h.sent();
      c1_r10(s, h)
    }
    _ => { let s: B0_2_R10 = choose_mpst_r10_to_all!(s, Br0R1::L2, Br0R2::L2, Br0R3::L2, Br0R4::L2, Br0R5::L2, Br0R6::L2, Br0R7::L2, Br0R8::L2, Br0R9::L2, Br0R11::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_r11(s: C0_R11, h: H) -> R {
  pre!(h, s, m);
  h.offer(9);
  offer_mpst!(s, {
    Br0R11::L0(s) => { h.offered(9, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<u8>(9, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(9); let s = s.send(x)?; h.sent();
      c0_r11(s, h)
    },
    Br0R11::L1(s) => { h.offered(9, 1);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<i64>(9, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      c1_r11(s, h)
    },
    Br0R11::L2(s) => { h.offered(9, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r1(s: C1_R1, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R1::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<i64>(10, &x);
      c0_r1(s, h)
    },
    Br1R1::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<Tok>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<Big>(9, &x);
      pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<u64>(10, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r2(s: C1_R2, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_R2 = choose_mpst_r2_to_all!(s, Br1R1::L0, Br1R3::L0, Br1R4::L0, Br1R5::L0, Br1R6::L0, Br1R7::L0, Br1R8::L0, Br1R9::L0, Br1R10::L0, Br1R11::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u8>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(9); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<u8>(10, &x);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<i64>(9, &x);
      c0_r2(s, h)
    }
    _ => { let s: B1_1_R2 = choose_mpst_r2_to_all!(s, Br1R1::L1, Br1R3::L1, Br1R4::L1, Br1R5::L1, Br1R6::L1, Br1R7::L1, Br1R8::L1, Br1R9::L1, Br1R10::L1, Br1R11::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c1_r3(s: C1_R3, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R3::L0(s) => { h.offered(1, 0);
      c0_r3(s, h)
    },
    Br1R3::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<()>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r4(s: C1_R4, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R4::L0(s) => { h.offered(1, 0);
      c0_r4(s, h)
    },
    Br1R4::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<String>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r5(s: C1_R5, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R5::L0(s) => { h.offered(1, 0);
      c0_r5(s, h)
    },
    Br1R5::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(10); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r6(s: C1_R6, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R6::L0(s) => { h.offered(1, 0);
      c0_r6(s, h)
    },
    Br1R6::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r7(s: C1_R7, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R7::L0(s) => { h.offered(1, 0);
      c0_r7(s, h)
    },
    Br1R7::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r8(s: C1_R8, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R8::L0(s) => { h.offered(1, 0);
      c0_r8(s, h)
    },
    Br1R8::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r9(s: C1_R9, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R9::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(9, &x);
      pre!(h, s, m); let x = h.mk::<u64>(9); let s = s.send(x)?; h.sent();
      c0_r9(s, h)
    },
    Br1R9::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r10(s: C1_R10, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R10::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(8); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(8); let (x, s) = s.recv()?; h.got::<u64>(8, &x);
      c0_r10(s, h)
    },
    Br1R10::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_r11(s: C1_R11, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br1R11::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c0_r11(s, h)
    },
    Br1R11::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<String>(3, &x);
      pre!(h, s, m); h.rx(4); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(4, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_r1(s: S_R1, h: H) -> R {
  pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<()>(10, &x);
  pre!(h, s, m); let x = h.mk::<String>(9); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<String>(9, &x);
  c0_r1(s, h)
}
fn start_r2(s: S_R2, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<()>(10); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(10); let (x, s) = s.recv()?; h.got::<Big>(10, &x);
  c0_r2(s, h)
}
fn start_r3(s: S_R3, h: H) -> R {
  c0_r3(s, h)
}
fn start_r4(s: S_R4, h: H) -> R {
  c0_r4(s, h)
}
fn start_r5(s: S_R5, h: H) -> R {
  c0_r5(s, h)
}
fn start_r6(s: S_R6, h: H) -> R {
  c0_r6(s, h)
}
fn start_r7(s: S_R7, h: H) -> R {
  c0_r7(s, h)
}
fn start_r8(s: S_R8, h: H) -> R {
  c0_r8(s, h)
}
fn start_r9(s: S_R9, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(9); let s = s.send(x)?; h.sent();
  c0_r9(s, h)
}
fn start_r10(s: S_R10, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(10); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); h.rx(8); let (x, s) = s.recv()?; h.got::<Big>(8, &x);
  pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
  c0_r10(s, h)
}
fn start_r11(s: S_R11, h: H) -> R {
  pre!(h, s, m); h.rx(9); let (x, s) = s.recv()?; h.got::<u64>(9, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  c0_r11(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_R1| H::new(0).participant(move |h| start_r1(s, h)), move |s: S_R2| H::new(1).participant(move |h| start_r2(s, h)), move |s: S_R3| H::new(2).participant(move |h| start_r3(s, h)), move |s: S_R4| H::new(3).participant(move |h| start_r4(s, h)), move |s: S_R5| H::new(4).participant(move |h| start_r5(s, h)), move |s: S_R6| H::new(5).participant(move |h| start_r6(s, h)), move |s: S_R7| H::new(6).participant(move |h| start_r7(s, h)), move |s: S_R8| H::new(7).participant(move |h| start_r8(s, h)), move |s: S_R9| H::new(8).participant(move |h| start_r9(s, h)), move |s: S_R10| H::new(9).participant(move |h| start_r10(s, h)), move |s: S_R11| H::new(10).participant(move |h| start_r11(s, h))));
  match f { Ok((j0, j1, j2, j3, j4, j5, j6, j7, j8, j9, j10,)) => joined(vec![j0, j1, j2, j3, j4, j5, j6, j7, j8, j9, j10]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/wheel11", n: 11, cancel_sends: true, cancel_choices: false, start: (&[(9, 10), (10, 0), (0, 9), (1, 10), (10, 1), (8, 9), (9, 0)], 0), states: &[State { chooser: 9, exit: 2, branches: &[(&[(9, 0), (9, 1), (9, 2), (9, 3), (9, 4), (9, 5), (9, 6), (9, 7), (9, 8), (9, 10), (10, 9), (8, 9), (0, 8)], 0), (&[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (6, 7), (7, 8), (8, 9), (9, 10), (10, 0)], 1), (&[], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (1, 10), (1, 9), (10, 1), (10, 0), (9, 1), (9, 8), (8, 9)], 0), (&[(0, 10), (1, 10), (2, 10), (3, 10), (4, 10), (9, 0), (10, 0)], END)] }], go };
}
pub mod rec_and_cancel_r0 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B);
type B0_0_A = MeshedChannels<End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, RoleEnd, NameB>;
type B0_1_A = MeshedChannels<Recv<Option<Vec<u64>>, Recv<u64, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<Send<Option<Vec<u64>>, Send<u64, End>>, RoleA<RoleA<RoleEnd>>, NameB>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<Send<Br0B, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, RoleA<RoleEnd>, NameB>;
type S_A = MeshedChannels<Recv<u64, Recv<u64, Send<String, Recv<Big, Recv<(u64, Box<Tok>), Send<Br0B, End>>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>>, NameA>;
type S_B = MeshedChannels<Send<u64, Send<u64, Recv<String, Send<Big, Send<(u64, Box<Tok>), Recv<Br0B, End>>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>>, NameB>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_mpst_a_to_all!(s, Br0B::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = choose_mpst_a_to_all!(s, Br0B::L1); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h))));
  match f { Ok((j0, j1,)) => joined(vec![j0, j1]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/r0", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (1, 0), (0, 1), (1, 0), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[], END), (&[(1, 0), (1, 0)], END)] }], go };
}
pub mod rec_and_cancel_r1 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<String, End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<String, End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Send<u8, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Recv<u8, End>, Send<String, End>, RoleC<RoleA<RoleEnd>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<String, End>, RoleB<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<Tok, End>, Send<String, End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<Recv<Tok, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<u8, Recv<Br0A, End>>, Recv<Big, Send<Option<Vec<u64>>, End>>, RoleB<RoleC<RoleC<RoleB<RoleEnd>>>>, NameA>;
type B1_1_B = MeshedChannels<Send<u8, Send<Br0A, End>>, Recv<Tok, Send<Br0C, End>>, RoleA<RoleC<RoleBroadcast>>, NameB>;
type B1_1_C = MeshedChannels<Send<Big, Recv<Option<Vec<u64>>, End>>, Send<Tok, Recv<Br0C, End>>, RoleB<RoleA<RoleA<RoleB<RoleEnd>>>>, NameC>;
type B1_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_2_B = MeshedChannels<End, Send<u64, End>, RoleC<RoleEnd>, NameB>;
type B1_2_C = MeshedChannels<End, Recv<u64, End>, RoleB<RoleEnd>, NameC>;
type B1_3_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_3_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_3_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A), L3(B1_3_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B), L3(B1_3_B) } unsafe impl std::marker::Send for Br1B {}
type C0_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type C0_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type S_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type S_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, RoleBroadcast, NameB>;
type S_C = MeshedChannels<End, Recv<Br0C, End>, RoleB<RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      c1_a(s, h)
    },
    Br0A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = choose_mpst_b_to_all!(s, Br0A::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    }
    _ => { let s: B0_1_B = choose_mpst_b_to_all!(s, Br0A::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(1, 0);
      c1_c(s, h)
    },
    Br0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u8>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      c0_a(s, h)
    },
    Br1A::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1A::L3(s) => { h.offered(2, 3);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  offer_mpst!(s, {
    Br1B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<u8>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
      c0_b(s, h)
    },
    Br1B::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br1B::L3(s) => { h.offered(2, 3);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = choose_mpst_c_to_all!(s, Br1A::L0, Br1B::L0); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: B1_1_C = choose_mpst_c_to_all!(s, Br1A::L1, Br1B::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      c0_c(s, h)
    }
    2 => { let s: B1_2_C = choose_mpst_c_to_all!(s, Br1A::L2, Br1B::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_3_C = choose_mpst_c_to_all!(s, Br1A::L3, Br1B::L3); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/r1", n: 3, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 1), (&[(1, 2), (0, 1)], END)] }, State { chooser: 2, exit: 0, branches: &[(&[(0, 2), (0, 1)], END), (&[(1, 0), (2, 1), (2, 0), (0, 2)], 0), (&[(1, 2)], END), (&[], END)] }], go };
}
pub mod rec_and_cancel_r2 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_0_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_0_C = MeshedChannels<End, End, End, RoleEnd, NameC>;
type B0_0_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, Recv<String, End>, RoleD<RoleEnd>, NameC>;
type B0_1_D = MeshedChannels<End, End, Send<String, End>, RoleC<RoleEnd>, NameD>;
type B0_2_A = MeshedChannels<Recv<i64, End>, End, Recv<Br0A, End>, RoleB<RoleD<RoleEnd>>, NameA>;
type B0_2_B = MeshedChannels<Send<i64, End>, End, Recv<Br0B, End>, RoleA<RoleD<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<End, End, Recv<u8, Recv<Br0C, End>>, RoleD<RoleD<RoleEnd>>, NameC>;
type B0_2_D = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<u8, Send<Br0C, End>>, RoleC<RoleBroadcast>, NameD>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type C0_A = MeshedChannels<End, End, Recv<Br0A, End>, RoleD<RoleEnd>, NameA>;
type C0_B = MeshedChannels<End, End, Recv<Br0B, End>, RoleD<RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, End, Recv<Br0C, End>, RoleD<RoleEnd>, NameC>;
type C0_D = MeshedChannels<Send<Br0A, End>, Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameD>;
type S_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, Recv<(), Recv<Br0A, End>>, RoleD<RoleB<RoleC<RoleD<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Send<Big, End>, End, Recv<Br0B, End>, RoleA<RoleD<RoleEnd>>, NameB>;
type S_C = MeshedChannels<Send<(), End>, End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0C, End>>>, RoleD<RoleA<RoleD<RoleD<RoleEnd>>>>, NameC>;
type S_D = MeshedChannels<Send<(), Send<Br0A, End>>, Send<Br0B, End>, Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0C, End>>>, RoleA<RoleC<RoleC<RoleBroadcast>>>, NameD>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0A::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0A::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0A::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      c0_a(s, h)
    },
  })
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      c0_b(s, h)
    },
  })
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  offer_mpst!(s, {
    Br0C::L0(s) => { h.offered(3, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0C::L1(s) => { h.offered(3, 1);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<String>(3, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0C::L2(s) => { h.offered(3, 2);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u8>(3, &x);
      c0_c(s, h)
    },
  })
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_D = choose_mpst_d_to_all!(s, Br0A::L0, Br0B::L0, Br0C::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: B0_1_D = choose_mpst_d_to_all!(s, Br0A::L1, Br0B::L1, Br0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_2_D = choose_mpst_d_to_all!(s, Br0A::L2, Br0B::L2, Br0C::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<u8>(2); let s = s.send(x)?; h.sent();
      c0_d(s, h)
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<()>(3, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(3, &x);
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/r2", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(3, 0), (1, 0), (3, 2), (2, 0), (2, 3)], 0), states: &[State { chooser: 3, exit: 0, branches: &[(&[], END), (&[(3, 2)], END), (&[(1, 0), (3, 2)], 0)] }], go };
}
pub mod rec_and_cancel_r3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B);
type B0_0_A = MeshedChannels<Send<u64, Send<Tok, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<u64, Recv<Tok, End>>, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_1_A = MeshedChannels<End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, RoleEnd, NameB>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type C0_A = MeshedChannels<Send<Br0B, End>, RoleBroadcast, NameA>;
type C0_B = MeshedChannels<Recv<Br0B, End>, RoleA<RoleEnd>, NameB>;
type S_A = MeshedChannels<Recv<Tok, Send<u64, Recv<Big, Send<Br0B, End>>>>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type S_B = MeshedChannels<Send<Tok, Recv<u64, Send<Big, Recv<Br0B, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_A = choose_mpst_a_to_all!(s, Br0B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_A = choose_mpst_a_to_all!(s, Br0B::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  offer_mpst!(s, {
    Br0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    Br0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  c0_b(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h))));
  match f { Ok((j0, j1,)) => joined(vec![j0, j1]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/r3", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (0, 1), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (0, 1)], END), (&[], END)] }], go };
}
pub mod rec_and_cancel_eb3 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<Big, End>, Recv<(), End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Big, End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<(), End>, Recv<(), End>, RoleB<RoleA<RoleEnd>>, NameC>;
type B0_1_A = MeshedChannels<End, Send<(), Recv<Either<B1_0_A, B1_1_A>, End>>, RoleC<RoleAlltoC<RoleEnd, RoleEnd>>, NameA>;
type B0_1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Recv<(), Send<Either<B1_0_A, B1_1_A>, End>>, Send<Either<B1_0_B, B1_1_B>, End>, RoleA<RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>>, NameC>;
type B1_0_A = MeshedChannels<End, Recv<Option<Vec<u64>>, End>, RoleC<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleC<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<Send<String, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Recv<String, End>, End, RoleA<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C1_A = MeshedChannels<End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, RoleCtoAll<RoleA<RoleB<RoleEnd>>, RoleEnd>, NameC>;
type S_A = MeshedChannels<Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>, End, RoleB<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>, Send<Either<B0_0_C, B0_1_C>, End>, RoleA<RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleAlltoC<RoleEnd, RoleEnd>>>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<()>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      c1_a(s, h)
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<()>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      c1_b(s, h)
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<()>(1, &x);
      pre!(h, s, m); let x = h.mk::<()>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<()>(0, &x);
      c1_c(s, h)
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(2, 1);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(2, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_C = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_C = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h))));
  match f { Ok((j0, j1, j2,)) => joined(vec![j0, j1, j2]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/eb3", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 2), (2, 0)], END), (&[(0, 2)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (2, 1)], END), (&[(0, 1)], END)] }], go };
}
pub mod rec_and_cancel_e4 {
use crate::prelude::*;
mpstthree::generate!("rec_and_cancel", MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleB<RoleAlltoD<RoleEnd, RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<Option<Vec<u64>>, End>, Send<String, End>, Send<Big, Recv<Either<B1_0_B, B1_1_B>, End>>, RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<String, End>, Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>, RoleB<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>, NameC>;
type B0_0_D = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Recv<Big, Send<Either<B1_0_B, B1_1_B>, End>>, Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>, RoleB<RoleC<RoleDtoAll<RoleA<RoleB<RoleC<RoleEnd>>>, RoleEnd>>>, NameD>;
type B0_1_A = MeshedChannels<End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, Send<String, End>, RoleD<RoleEnd>, NameC>;
type B0_1_D = MeshedChannels<End, End, Recv<String, End>, RoleC<RoleEnd>, NameD>;
type B1_0_A = MeshedChannels<Send<u8, End>, End, Recv<Big, End>, RoleD<RoleB<RoleEnd>>, NameA>;
type B1_0_B = MeshedChannels<Recv<u8, End>, End, Recv<i64, End>, RoleD<RoleA<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, End, Recv<Option<Vec<u64>>, End>, RoleD<RoleEnd>, NameC>;
type B1_0_D = MeshedChannels<Send<Big, End>, Send<i64, End>, Send<Option<Vec<u64>>, End>, RoleA<RoleB<RoleC<RoleEnd>>>, NameD>;
type B1_1_A = MeshedChannels<End, Send<Option<Vec<u64>>, End>, End, RoleC<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B1_1_C = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, End, RoleA<RoleEnd>, NameC>;
type B1_1_D = MeshedChannels<End, End, End, RoleEnd, NameD>;
type C0_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type C0_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, Send<Either<B0_0_D, B0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, RoleEnd>, NameB>;
type C0_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type C0_D = MeshedChannels<End, Recv<Either<B0_0_D, B0_1_D>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameD>;
type C1_A = MeshedChannels<End, End, Recv<Either<B1_0_A, B1_1_A>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameA>;
type C1_B = MeshedChannels<End, End, Recv<Either<B1_0_B, B1_1_B>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameB>;
type C1_C = MeshedChannels<End, End, Recv<Either<B1_0_C, B1_1_C>, End>, RoleAlltoD<RoleEnd, RoleEnd>, NameC>;
type C1_D = MeshedChannels<Send<Either<B1_0_A, B1_1_A>, End>, Send<Either<B1_0_B, B1_1_B>, End>, Send<Either<B1_0_C, B1_1_C>, End>, RoleDtoAll<RoleA<RoleB<RoleC<RoleEnd>>>, RoleEnd>, NameD>;
type S_A = MeshedChannels<Recv<Either<B0_0_A, B0_1_A>, End>, End, Send<u8, End>, RoleD<RoleAlltoB<RoleEnd, RoleEnd>>, NameA>;
type S_B = MeshedChannels<Send<Either<B0_0_A, B0_1_A>, End>, Send<Either<B0_0_C, B0_1_C>, End>, Send<Either<B0_0_D, B0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleD<RoleAlltoD<RoleEnd, RoleEnd>>>>, RoleEnd>, NameB>;
type S_C = MeshedChannels<End, Recv<Either<B0_0_C, B0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type S_D = MeshedChannels<Recv<u8, End>, Recv<Either<B0_0_D, B0_1_D>, End>, End, RoleA<RoleAlltoB<RoleEnd, RoleEnd>>, NameD>;
fn c0_a(s: C0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_A| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
      c1_a(s, h)
    },
    move |s: B0_1_A| -> R { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_b(s: C0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
      c1_b(s, h)
    }
    _ => { let s: B0_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn c0_c(s: C0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<u64>(3, &x);
      c1_c(s, h)
    },
    move |s: B0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<String>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c0_d(s: C0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: B0_0_D| -> R { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      c1_d(s, h)
    },
    move |s: B0_1_D| -> R { h.offered(1, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_a(s: C1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_A| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
      pre!(h, s, m); let x = h.mk::<u8>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_A| -> R { h.offered(3, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_b(s: C1_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_B| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<i64>(3, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_B| -> R { h.offered(3, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_c(s: C1_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(3);
  s.offer(
    move |s: B1_0_C| -> R { h.offered(3, 0);
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: B1_1_C| -> R { h.offered(3, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
}
fn c1_d(s: C1_D, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: B1_0_D = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: B1_1_D = s.choose_right(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
}
fn start_a(s: S_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u8>(3); let s = s.send(x)?; h.sent();
  c0_a(s, h)
}
fn start_b(s: S_B, h: H) -> R {
  c0_b(s, h)
}
fn start_c(s: S_C, h: H) -> R {
  c0_c(s, h)
}
fn start_d(s: S_D, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u8>(0, &x);
  c0_d(s, h)
}
pub fn go() {
  let f = catch(|| fork_mpst(move |s: S_A| H::new(0).participant(move |h| start_a(s, h)), move |s: S_B| H::new(1).participant(move |h| start_b(s, h)), move |s: S_C| H::new(2).participant(move |h| start_c(s, h)), move |s: S_D| H::new(3).participant(move |h| start_d(s, h))));
  match f { Ok((j0, j1, j2, j3,)) => joined(vec![j0, j1, j2, j3]), Err(e) => not_forked(e) }
}
pub static P: Proto = Proto { name: "rec_and_cancel/e4", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(0, 3)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (1, 2), (1, 3), (3, 2)], 1), (&[(2, 3)], END)] }, State { chooser: 3, exit: 0, branches: &[(&[(3, 0), (3, 1), (3, 2), (0, 1)], END), (&[(0, 2)], END)] }], go };
}
pub static ALL: &[&harness::model::Proto] = &[&cancel_loop3::P, &cancel_ring3::P, &cancel_two3::P, &cancel_split3::P, &cancel_loop4::P, &cancel_star5::P, &cancel_wheel6::P, &cancel_wheel8::P, &cancel_r0::P, &cancel_r1::P, &cancel_r2::P, &cancel_r3::P, &cancel_ec3::P, &cancel_eb3::P, &cancel_ea3::P, &cancel_e4::P, &rec_and_cancel_loop3::P, &rec_and_cancel_ring3::P, &rec_and_cancel_two3::P, &rec_and_cancel_split3::P, &rec_and_cancel_loop4::P, &rec_and_cancel_star5::P, &rec_and_cancel_wheel6::P, &rec_and_cancel_wheel8::P, &rec_and_cancel_wheel11::P, &rec_and_cancel_r0::P, &rec_and_cancel_r1::P, &rec_and_cancel_r2::P, &rec_and_cancel_r3::P, &rec_and_cancel_eb3::P, &rec_and_cancel_e4::P];
