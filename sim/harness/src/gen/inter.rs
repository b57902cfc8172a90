// Generated by sim/gen/gen_inter.py. Do not edit.
pub mod i0 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, 2, MeshTwo, M, N, P, 3, fork_both);
type AS_A = MeshOne<Send<String, Send<u64, End>>, Recv<(u64, Box<Tok>), Recv<Option<Vec<u64>>, End>>, RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>, NameA>;
type AS_B = MeshOne<Recv<String, Recv<u64, End>>, Send<String, Send<Tok, End>>, RoleA<RoleC<RoleA<RoleC<RoleEnd>>>>, NameB>;
type AS_C = MeshOne<Send<(u64, Box<Tok>), Send<Option<Vec<u64>>, End>>, Recv<String, Recv<Tok, End>>, RoleB<RoleA<RoleB<RoleA<RoleEnd>>>>, NameC>;
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn astart_b(s: AS_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
}
fn astart_c(s: AS_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
type BS_M = MeshTwo<Send<String, Send<u64, End>>, Recv<(u64, Box<Tok>), Recv<Option<Vec<u64>>, End>>, RoleN<RoleP<RoleN<RoleP<RoleEnd>>>>, NameM>;
type BS_N = MeshTwo<Recv<String, Recv<u64, End>>, Send<String, Send<Tok, End>>, RoleM<RoleP<RoleM<RoleP<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<Send<(u64, Box<Tok>), Send<Option<Vec<u64>>, End>>, Recv<String, Recv<Tok, End>>, RoleN<RoleM<RoleN<RoleM<RoleEnd>>>>, NameP>;
fn bstart_m(s: BS_M, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn bstart_p(s: BS_P, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: BS_M| H::at(0, 3).participant(move |h| bstart_m(s, h)),
    move |s: BS_N| H::at(1, 3).participant(move |h| bstart_n(s, h)),
    move |s: AS_B, t: BS_P| { let (h, k) = (H::at(1, 0), H::at(2, 3)); h.participants(k, move || alternate(more(move || astart_b(s, h)), more(move || bstart_p(t, k)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 3, 3, (1, 2)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ring", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0), (0, 1), (1, 2), (2, 0)], END), states: &[], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/ring", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0), (0, 1), (1, 2), (2, 0)], END), states: &[], go: none };
pub static P: Pair = Pair { name: "i0", a: &PA, b: &PB, twin: (1, 2), go };
}
pub mod i1 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, 3, MeshTwo, M, N, 1, fork_both);
type AB0_0_A = MeshOne<Send<Tok, Recv<String, End>>, Recv<u64, Send<i64, Recv<ABr0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type AB0_0_B = MeshOne<Recv<Tok, Send<String, End>>, Recv<ABr0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type AB0_0_C = MeshOne<Send<u64, Recv<i64, Send<ABr0A, End>>>, Send<ABr0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type AB0_1_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_1_B = MeshOne<End, End, RoleEnd, NameB>;
type AB0_1_C = MeshOne<End, End, RoleEnd, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<End, Recv<ABr0A, End>, RoleC<RoleEnd>, NameA>;
type AC0_B = MeshOne<End, Recv<ABr0B, End>, RoleC<RoleEnd>, NameB>;
type AC0_C = MeshOne<Send<ABr0A, End>, Send<ABr0B, End>, RoleBroadcast, NameC>;
type AS_A = MeshOne<End, Recv<i64, Send<Big, Recv<ABr0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type AS_B = MeshOne<End, Recv<ABr0B, End>, RoleC<RoleEnd>, NameB>;
type AS_C = MeshOne<Send<i64, Recv<Big, Send<ABr0A, End>>>, Send<ABr0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    ABr0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    },
    ABr0A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      ac0_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_b(s: AS_B, h: H) -> R {
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_mpst_c_to_all!(s, ABr0A::L0, ABr0B::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      ac0_c(s, h)}))}))
    }
    _ => { let s: AB0_1_C = choose_mpst_c_to_all!(s, ABr0A::L1, ABr0B::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
  }
  }))}
fn astart_c(s: AS_C, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  ac0_c(s, h)}))}))
}
type BB0_0_M = MeshTwo<Recv<(u64, Box<Tok>), Recv<BBr0M, End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_0_N = MeshTwo<Send<(u64, Box<Tok>), Send<BBr0M, End>>, RoleM<RoleBroadcast>, NameN>;
type BB0_1_M = MeshTwo<Send<String, End>, RoleN<RoleEnd>, NameM>;
type BB0_1_N = MeshTwo<Recv<String, End>, RoleM<RoleEnd>, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<Recv<BBr0M, End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<Send<BBr0M, End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<Send<Big, Recv<BBr0M, End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BS_N = MeshTwo<Recv<Big, Send<BBr0M, End>>, RoleM<RoleBroadcast>, NameN>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    BBr0M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      bc0_m(s, h)}))
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  bc0_m(s, h)}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, BBr0M::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      bc0_n(s, h)
    }
    _ => { let s: BB0_1_N = choose_mpst_n_to_all!(s, BBr0M::L1); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  bc0_n(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: BS_N| H::at(1, 3).participant(move |h| bstart_n(s, h)),
    move |s: AS_C, t: BS_M| { let (h, k) = (H::at(2, 0), H::at(0, 3)); h.participants(k, move || alternate(more(move || astart_c(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 3, 2, (2, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/loop", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/log", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 0), (&[(0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "i1", a: &PA, b: &PB, twin: (2, 0), go };
}
pub mod i2 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, 1, MeshTwo, M, N, 1, fork_both);
type AB0_0_A = MeshOne<Send<Option<Vec<u64>>, Recv<Tok, Send<ABr0B, End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AB0_0_B = MeshOne<Recv<Option<Vec<u64>>, Send<Tok, Recv<ABr0B, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_1_A = MeshOne<Recv<i64, End>, RoleB<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<Send<i64, End>, RoleA<RoleEnd>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AS_A = MeshOne<Send<Tok, Recv<Option<Vec<u64>>, Send<ABr0B, End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AS_B = MeshOne<Recv<Tok, Send<Option<Vec<u64>>, Recv<ABr0B, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
fn ac0_a(s: AC0_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      ac0_a(s, h)}))}))
    }
    _ => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn astart_a(s: AS_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  ac0_a(s, h)}))}))
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      ac0_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_b(s: AS_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
  ac0_b(s, h)
}
type BB0_0_M = MeshTwo<Send<Option<Vec<u64>>, Recv<BBr0M, End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_0_N = MeshTwo<Recv<Option<Vec<u64>>, Send<BBr0M, End>>, RoleM<RoleBroadcast>, NameN>;
type BB0_1_M = MeshTwo<Recv<Tok, Send<i64, End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_1_N = MeshTwo<Send<Tok, Recv<i64, End>>, RoleM<RoleM<RoleEnd>>, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<Recv<BBr0M, End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<Send<BBr0M, End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<Recv<Tok, Send<Option<Vec<u64>>, Recv<BBr0M, End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameM>;
type BS_N = MeshTwo<Send<Tok, Recv<Option<Vec<u64>>, Send<BBr0M, End>>>, RoleM<RoleM<RoleBroadcast>>, NameN>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    BBr0M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      bc0_m(s, h)}))
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  bc0_m(s, h)}))}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, BBr0M::L0); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      bc0_n(s, h)
    }
    _ => { let s: BB0_1_N = choose_mpst_n_to_all!(s, BBr0M::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  bc0_n(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: BS_N| H::at(1, 2).participant(move |h| bstart_n(s, h)),
    move |s: AS_A, t: BS_M| { let (h, k) = (H::at(0, 0), H::at(0, 2)); h.participants(k, move || alternate(more(move || astart_a(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2,)) => joined_two(vec![j0, j1, j2], 2, 2, (0, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/two", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 0)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1), (1, 0)], 0), (&[(1, 0)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/two", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(0, 1)], 0), (&[(1, 0), (0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "i2", a: &PA, b: &PB, twin: (0, 0), go };
}
pub mod i3 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, D, 2, MeshTwo, M, N, P, 2, fork_both);
type AB0_0_A = MeshOne<Recv<String, Send<Option<Vec<u64>>, Recv<ABr0A, End>>>, Send<Tok, Recv<i64, End>>, Recv<Tok, End>, RoleB<RoleC<RoleC<RoleB<RoleD<RoleB<RoleEnd>>>>>>, NameA>;
type AB0_0_B = MeshOne<Send<String, Recv<Option<Vec<u64>>, Send<ABr0A, End>>>, Send<ABr0C, End>, Send<ABr0D, End>, RoleA<RoleA<RoleBroadcast>>, NameB>;
type AB0_0_C = MeshOne<Recv<Tok, Send<i64, End>>, Recv<ABr0C, End>, End, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type AB0_0_D = MeshOne<Send<Tok, End>, Recv<ABr0D, End>, End, RoleA<RoleB<RoleEnd>>, NameD>;
type AB0_1_A = MeshOne<End, End, End, RoleEnd, NameA>;
type AB0_1_B = MeshOne<End, Recv<u64, End>, Send<(u64, Box<Tok>), End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = MeshOne<End, Send<u64, End>, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = MeshOne<End, Recv<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = MeshOne<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AC0_B = MeshOne<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AC0_C = MeshOne<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = MeshOne<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
type AS_A = MeshOne<Recv<i64, Recv<ABr0A, End>>, End, End, RoleB<RoleB<RoleEnd>>, NameA>;
type AS_B = MeshOne<Send<i64, Send<ABr0A, End>>, Send<u64, Recv<Big, Send<ABr0C, End>>>, Send<ABr0D, End>, RoleA<RoleC<RoleC<RoleBroadcast>>>, NameB>;
type AS_C = MeshOne<End, Recv<u64, Send<Big, Recv<ABr0C, End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type AS_D = MeshOne<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Tok>(3, &x);
      ac0_a(s, h)
    },
    ABr0A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_B = choose_mpst_b_to_all!(s, ABr0A::L0, ABr0C::L0, ABr0D::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      ac0_b(s, h)}))}))
    }
    _ => { let s: AB0_1_B = choose_mpst_b_to_all!(s, ABr0A::L1, ABr0C::L1, ABr0D::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    }
  }
  }))}
fn astart_b(s: AS_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
  ac0_b(s, h)}))}))}))
}
fn ac0_c(s: AC0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0C::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      ac0_c(s, h)
    },
    ABr0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_c(s: AS_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  ac0_c(s, h)
}
fn ac0_d(s: AC0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0D::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      ac0_d(s, h)
    },
    ABr0D::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_d(s: AS_D, h: H) -> R {
  ac0_d(s, h)
}
type BB0_0_M = MeshTwo<Recv<BBr1M, End>, End, RoleN<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<Send<BBr1M, End>, Send<(u64, Box<Tok>), Recv<String, Send<BBr1P, End>>>, RoleP<RoleP<RoleBroadcast>>, NameN>;
type BB0_0_P = MeshTwo<End, Recv<(u64, Box<Tok>), Send<String, Recv<BBr1P, End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameP>;
type BB0_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_1_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_1_P = MeshTwo<End, End, RoleEnd, NameP>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P) } unsafe impl std::marker::Send for BBr0P {}
type BC0_M = MeshTwo<Send<BBr0N, End>, Send<BBr0P, End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<Recv<BBr0N, End>, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<Recv<BBr0P, End>, End, RoleM<RoleEnd>, NameP>;
type BB1_0_M = MeshTwo<Recv<Big, Send<BBr0N, End>>, Send<BBr0P, End>, RoleN<RoleBroadcast>, NameM>;
type BB1_0_N = MeshTwo<Send<Big, Recv<BBr0N, End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BB1_0_P = MeshTwo<Recv<BBr0P, End>, End, RoleM<RoleEnd>, NameP>;
type BB1_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB1_1_N = MeshTwo<End, Send<i64, End>, RoleP<RoleEnd>, NameN>;
type BB1_1_P = MeshTwo<End, Recv<i64, End>, RoleN<RoleEnd>, NameP>;
pub enum BBr1M { L0(BB1_0_M), L1(BB1_1_M) } unsafe impl std::marker::Send for BBr1M {}
pub enum BBr1P { L0(BB1_0_P), L1(BB1_1_P) } unsafe impl std::marker::Send for BBr1P {}
type BC1_M = MeshTwo<Recv<BBr1M, End>, End, RoleN<RoleEnd>, NameM>;
type BC1_N = MeshTwo<Send<BBr1M, End>, Send<BBr1P, End>, RoleBroadcast, NameN>;
type BC1_P = MeshTwo<End, Recv<BBr1P, End>, RoleN<RoleEnd>, NameP>;
type BS_M = MeshTwo<Send<u64, Send<BBr0N, End>>, Recv<Big, Send<BBr0P, End>>, RoleN<RoleP<RoleBroadcast>>, NameM>;
type BS_N = MeshTwo<Recv<u64, Recv<BBr0N, End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BS_P = MeshTwo<Send<Big, Recv<BBr0P, End>>, End, RoleM<RoleM<RoleEnd>>, NameP>;
fn bc0_m(s: BC0_M, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, BBr0N::L0, BBr0P::L0); h.chosen();
      bc1_m(s, h)
    }
    _ => { let s: BB0_1_M = choose_mpst_m_to_all!(s, BBr0N::L1, BBr0P::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bc1_m(s: BC1_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    BBr1M::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      bc0_m(s, h)
    },
    BBr1M::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_m(s: BS_M, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
  bc0_m(s, h)
}
fn bc0_n(s: BC0_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      bc1_n(s, h)}))}))
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bc1_n(s: BC1_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB1_0_N = choose_mpst_n_to_all!(s, BBr1M::L0, BBr1P::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      bc0_n(s, h)}))
    }
    _ => { let s: BB1_1_N = choose_mpst_n_to_all!(s, BBr1M::L1, BBr1P::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn bstart_n(s: BS_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  bc0_n(s, h)}))
}
fn bc0_p(s: BC0_P, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0P::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      bc1_p(s, h)
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bc1_p(s: BC1_P, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    BBr1P::L0(s) => { h.offered(1, 0);
      bc0_p(s, h)
    },
    BBr1P::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_p(s: BS_P, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  bc0_p(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: AS_D| H::at(3, 0).participant(move |h| astart_d(s, h)),
    move |s: BS_M| H::at(0, 4).participant(move |h| bstart_m(s, h)),
    move |s: BS_P| H::at(2, 4).participant(move |h| bstart_p(s, h)),
    move |s: AS_B, t: BS_N| { let (h, k) = (H::at(1, 0), H::at(1, 4)); h.participants(k, move || alternate(more(move || astart_b(s, h)), more(move || bstart_n(t, k)))) })) { Ok((j0, j1, j2, j3, j4, j5,)) => joined_two(vec![j0, j1, j2, j3, j4, j5], 4, 3, (1, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/cb", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (1, 2), (2, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (0, 2), (2, 0), (0, 1), (3, 0)], 0), (&[(1, 3), (2, 1)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/log", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (2, 0)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(1, 2), (2, 1)], 1), (&[], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 0), (&[(1, 2)], END)] }], go: none };
pub static P: Pair = Pair { name: "i3", a: &PA, b: &PB, twin: (1, 1), go };
}
pub mod i4 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, 1, MeshTwo, M, N, 1, fork_both);
type AB0_0_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_0_B = MeshOne<End, End, RoleEnd, NameB>;
type AB0_0_C = MeshOne<End, End, RoleEnd, NameC>;
type AB0_1_A = MeshOne<End, Recv<String, End>, RoleC<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<End, Send<i64, Recv<i64, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = MeshOne<Send<String, End>, Recv<i64, Send<i64, End>>, RoleB<RoleB<RoleA<RoleEnd>>>, NameC>;
type AB0_2_A = MeshOne<Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type AB0_2_B = MeshOne<Recv<Option<Vec<u64>>, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type AB0_2_C = MeshOne<End, Recv<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C) } unsafe impl std::marker::Send for ABr0C {}
type AC0_A = MeshOne<Send<ABr0B, End>, Send<ABr0C, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, End, RoleA<RoleEnd>, NameB>;
type AC0_C = MeshOne<Recv<ABr0C, End>, End, RoleA<RoleEnd>, NameC>;
type AS_A = MeshOne<Recv<i64, Send<Tok, Send<ABr0B, End>>>, Send<Big, Send<ABr0C, End>>, RoleC<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type AS_B = MeshOne<Send<i64, Recv<Tok, Recv<ABr0B, End>>>, Send<Tok, Recv<Option<Vec<u64>>, End>>, RoleC<RoleA<RoleA<RoleC<RoleA<RoleEnd>>>>>, NameB>;
type AS_C = MeshOne<Recv<Big, Recv<ABr0C, End>>, Recv<Tok, Send<Option<Vec<u64>>, End>>, RoleA<RoleB<RoleB<RoleA<RoleEnd>>>>, NameC>;
fn ac0_a(s: AC0_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0, ABr0C::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1, ABr0C::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
    _ => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ABr0B::L2, ABr0C::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn astart_a(s: AS_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  ac0_a(s, h)}))}))}))
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_b(s: AS_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0C::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0C::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0C::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_c(s: AS_C, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  ac0_c(s, h)
}
type BB0_0_M = MeshTwo<Send<(u64, Box<Tok>), Recv<u64, Recv<u64, Send<BBr0N, End>>>>, RoleN<RoleN<RoleN<RoleBroadcast>>>, NameM>;
type BB0_0_N = MeshTwo<Recv<(u64, Box<Tok>), Send<u64, Send<u64, Recv<BBr0N, End>>>>, RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>, NameN>;
type BB0_1_M = MeshTwo<Recv<(u64, Box<Tok>), End>, RoleN<RoleEnd>, NameM>;
type BB0_1_N = MeshTwo<Send<(u64, Box<Tok>), End>, RoleM<RoleEnd>, NameN>;
type BB0_2_M = MeshTwo<Send<BBr0N, End>, RoleBroadcast, NameM>;
type BB0_2_N = MeshTwo<Recv<BBr0N, End>, RoleM<RoleEnd>, NameN>;
type BB0_3_M = MeshTwo<Send<(u64, Box<Tok>), End>, RoleN<RoleEnd>, NameM>;
type BB0_3_N = MeshTwo<Recv<(u64, Box<Tok>), End>, RoleM<RoleEnd>, NameN>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N), L3(BB0_3_N) } unsafe impl std::marker::Send for BBr0N {}
type BC0_M = MeshTwo<Send<BBr0N, End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<Recv<BBr0N, End>, RoleM<RoleEnd>, NameN>;
type BS_M = MeshTwo<Recv<Tok, Send<String, Send<BBr0N, End>>>, RoleN<RoleN<RoleBroadcast>>, NameM>;
type BS_N = MeshTwo<Send<Tok, Recv<String, Recv<BBr0N, End>>>, RoleM<RoleM<RoleM<RoleEnd>>>, NameN>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, BBr0N::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      bc0_m(s, h)}))}))}))
    }
    1 => { let s: BB0_1_M = choose_mpst_m_to_all!(s, BBr0N::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
    2 => { let s: BB0_2_M = choose_mpst_m_to_all!(s, BBr0N::L2); h.chosen();
      bc0_m(s, h)
    }
    _ => { let s: BB0_3_M = choose_mpst_m_to_all!(s, BBr0N::L3); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
  bc0_m(s, h)}))}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      bc0_n(s, h)
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L2(s) => { h.offered(0, 2);
      bc0_n(s, h)
    },
    BBr0N::L3(s) => { h.offered(0, 3);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  bc0_n(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: BS_N| H::at(1, 3).participant(move |h| bstart_n(s, h)),
    move |s: AS_A, t: BS_M| { let (h, k) = (H::at(0, 0), H::at(0, 3)); h.participants(k, move || alternate(more(move || astart_a(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 3, 2, (0, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra0", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 2), (1, 2), (1, 0), (0, 1), (2, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[], END), (&[(1, 2), (2, 1), (2, 0)], END), (&[(0, 1), (1, 2)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb0", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (0, 1)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1), (1, 0), (1, 0)], 0), (&[(1, 0)], END), (&[], 0), (&[(0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "i4", a: &PA, b: &PB, twin: (0, 0), go };
}
pub mod i5 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, 2, MeshTwo, M, N, P, 1, fork_both);
type AB0_0_A = MeshOne<Recv<ABr1A, End>, RoleB<RoleEnd>, NameA>;
type AB0_0_B = MeshOne<Send<ABr1A, End>, RoleBroadcast, NameB>;
type AB0_1_A = MeshOne<Recv<(u64, Box<Tok>), Send<Option<Vec<u64>>, Send<u64, Send<(u64, Box<Tok>), Send<ABr0B, End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>, NameA>;
type AB0_1_B = MeshOne<Send<(u64, Box<Tok>), Recv<Option<Vec<u64>>, Recv<u64, Recv<(u64, Box<Tok>), Recv<ABr0B, End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameB>;
type AB0_2_A = MeshOne<Recv<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameA>;
type AB0_2_B = MeshOne<Send<(u64, Box<Tok>), End>, RoleA<RoleEnd>, NameB>;
type AB0_3_A = MeshOne<Recv<Big, End>, RoleB<RoleEnd>, NameA>;
type AB0_3_B = MeshOne<Send<Big, End>, RoleA<RoleEnd>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B), L3(AB0_3_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AB1_0_A = MeshOne<Send<u64, Recv<Big, Recv<Big, Recv<u64, Recv<ABr1A, End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>>, NameA>;
type AB1_0_B = MeshOne<Recv<u64, Send<Big, Send<Big, Send<u64, Send<ABr1A, End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleBroadcast>>>>, NameB>;
type AB1_1_A = MeshOne<Send<String, End>, RoleB<RoleEnd>, NameA>;
type AB1_1_B = MeshOne<Recv<String, End>, RoleA<RoleEnd>, NameB>;
type AB1_2_A = MeshOne<Send<i64, Recv<ABr1A, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type AB1_2_B = MeshOne<Recv<i64, Send<ABr1A, End>>, RoleA<RoleBroadcast>, NameB>;
pub enum ABr1A { L0(AB1_0_A), L1(AB1_1_A), L2(AB1_2_A) } unsafe impl std::marker::Send for ABr1A {}
type AC1_A = MeshOne<Recv<ABr1A, End>, RoleB<RoleEnd>, NameA>;
type AC1_B = MeshOne<Send<ABr1A, End>, RoleBroadcast, NameB>;
type AS_A = MeshOne<Send<Big, Send<Tok, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Send<ABr0B, End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>, NameA>;
type AS_B = MeshOne<Recv<Big, Recv<Tok, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Recv<ABr0B, End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameB>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0); h.chosen();
      ac1_a(s, h)
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    }
    2 => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ABr0B::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB0_3_A = choose_mpst_a_to_all!(s, ABr0B::L3); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn ac1_a(s: AC1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr1A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      ac1_a(s, h)
    },
    ABr1A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr1A::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      ac1_a(s, h)
    },
  })
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      ac1_b(s, h)
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      ac0_b(s, h)}))}))}))}))
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    ABr0B::L3(s) => { h.offered(0, 3);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
  })
  }))}
fn ac1_b(s: AC1_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB1_0_B = choose_mpst_b_to_all!(s, ABr1A::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      ac1_b(s, h)}))}))}))}))
    }
    1 => { let s: AB1_1_B = choose_mpst_b_to_all!(s, ABr1A::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
    _ => { let s: AB1_2_B = choose_mpst_b_to_all!(s, ABr1A::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      ac1_b(s, h)}))
    }
  }
  }))}
fn astart_b(s: AS_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  ac0_b(s, h)}))}))}))}))
}
type BB0_0_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_0_N = MeshTwo<End, Recv<(u64, Box<Tok>), End>, RoleP<RoleEnd>, NameN>;
type BB0_0_P = MeshTwo<End, Send<(u64, Box<Tok>), End>, RoleN<RoleEnd>, NameP>;
type BB0_1_M = MeshTwo<End, Send<i64, Recv<Big, End>>, RoleP<RoleP<RoleEnd>>, NameM>;
type BB0_1_N = MeshTwo<End, Send<(u64, Box<Tok>), Send<Tok, End>>, RoleP<RoleP<RoleEnd>>, NameN>;
type BB0_1_P = MeshTwo<Recv<i64, Send<Big, End>>, Recv<(u64, Box<Tok>), Recv<Tok, End>>, RoleN<RoleN<RoleM<RoleM<RoleEnd>>>>, NameP>;
type BB0_2_M = MeshTwo<End, Send<String, End>, RoleP<RoleEnd>, NameM>;
type BB0_2_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_2_P = MeshTwo<Recv<String, End>, End, RoleM<RoleEnd>, NameP>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P), L2(BB0_2_P) } unsafe impl std::marker::Send for BBr0P {}
type BC0_M = MeshTwo<Send<BBr0N, End>, Send<BBr0P, End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<Recv<BBr0N, End>, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<Recv<BBr0P, End>, End, RoleM<RoleEnd>, NameP>;
type BS_M = MeshTwo<Recv<u64, Send<BBr0N, End>>, Send<BBr0P, End>, RoleN<RoleBroadcast>, NameM>;
type BS_N = MeshTwo<Send<u64, Recv<BBr0N, End>>, Recv<(u64, Box<Tok>), Recv<Tok, End>>, RoleP<RoleM<RoleP<RoleM<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<Recv<BBr0P, End>, Send<(u64, Box<Tok>), Send<Tok, End>>, RoleN<RoleN<RoleM<RoleEnd>>>, NameP>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, BBr0N::L0, BBr0P::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
    1 => { let s: BB0_1_M = choose_mpst_m_to_all!(s, BBr0N::L1, BBr0P::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(2); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    }
    _ => { let s: BB0_2_M = choose_mpst_m_to_all!(s, BBr0N::L2, BBr0P::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
  bc0_m(s, h)}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
  bc0_n(s, h)
}
fn bc0_p(s: BC0_P, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0P::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0P::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_p(s: BS_P, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  bc0_p(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: BS_N| H::at(1, 2).participant(move |h| bstart_n(s, h)),
    move |s: BS_P| H::at(2, 2).participant(move |h| bstart_p(s, h)),
    move |s: AS_B, t: BS_M| { let (h, k) = (H::at(1, 0), H::at(0, 2)); h.participants(k, move || alternate(more(move || astart_b(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 2, 3, (1, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra1", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 1), (0, 1), (0, 1)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[], 1), (&[(1, 0), (0, 1), (0, 1), (0, 1)], 0), (&[(1, 0)], END), (&[(1, 0)], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(0, 1), (1, 0), (1, 0), (1, 0)], 1), (&[(0, 1)], END), (&[(0, 1)], 1)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb1", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 1), (1, 0), (2, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 1)], END), (&[(1, 2), (1, 2), (0, 2), (2, 0)], END), (&[(0, 2)], END)] }], go: none };
pub static P: Pair = Pair { name: "i5", a: &PA, b: &PB, twin: (1, 0), go };
}
pub mod i6 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, 3, MeshTwo, M, N, P, 2, fork_both);
type AB0_0_A = MeshOne<Recv<i64, Recv<u64, Recv<i64, End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_0_B = MeshOne<Send<i64, Send<u64, Send<i64, End>>>, Send<String, End>, RoleA<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type AB0_0_C = MeshOne<End, Recv<String, End>, RoleB<RoleEnd>, NameC>;
type AB0_1_A = MeshOne<Send<String, Send<Tok, Send<ABr0B, End>>>, Send<ABr0C, End>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AB0_1_B = MeshOne<Recv<String, Recv<Tok, Recv<ABr0B, End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_1_C = MeshOne<Recv<ABr0C, End>, End, RoleA<RoleEnd>, NameC>;
type AB0_2_A = MeshOne<Send<ABr0B, End>, Send<String, Send<ABr0C, End>>, RoleC<RoleBroadcast>, NameA>;
type AB0_2_B = MeshOne<Recv<ABr0B, End>, Send<(u64, Box<Tok>), End>, RoleC<RoleA<RoleEnd>>, NameB>;
type AB0_2_C = MeshOne<Recv<String, Recv<ABr0C, End>>, Recv<(u64, Box<Tok>), End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C) } unsafe impl std::marker::Send for ABr0C {}
type AC0_A = MeshOne<Send<ABr0B, End>, Send<ABr0C, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, End, RoleA<RoleEnd>, NameB>;
type AC0_C = MeshOne<Recv<ABr0C, End>, End, RoleA<RoleEnd>, NameC>;
type AS_A = MeshOne<Recv<i64, Send<ABr0B, End>>, Send<u64, Recv<(u64, Box<Tok>), Send<ABr0C, End>>>, RoleC<RoleC<RoleB<RoleBroadcast>>>, NameA>;
type AS_B = MeshOne<Send<i64, Recv<ABr0B, End>>, Send<Big, Recv<(u64, Box<Tok>), End>>, RoleC<RoleC<RoleA<RoleA<RoleEnd>>>>, NameB>;
type AS_C = MeshOne<Recv<u64, Send<(u64, Box<Tok>), Recv<ABr0C, End>>>, Recv<Big, Send<(u64, Box<Tok>), End>>, RoleB<RoleB<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameC>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0, ABr0C::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1, ABr0C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    }
    _ => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ABr0B::L2, ABr0C::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    }
  }
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      ac0_b(s, h)
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      ac0_b(s, h)
    },
  })
  }
fn astart_b(s: AS_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0C::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    ABr0C::L1(s) => { h.offered(0, 1);
      ac0_c(s, h)
    },
    ABr0C::L2(s) => { h.offered(0, 2);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      ac0_c(s, h)}))}))
    },
  })
  }))}
fn astart_c(s: AS_C, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  ac0_c(s, h)}))}))}))}))
}
type BB0_0_M = MeshTwo<End, Send<u64, End>, RoleP<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_0_P = MeshTwo<Recv<u64, End>, End, RoleM<RoleEnd>, NameP>;
type BB0_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_1_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_1_P = MeshTwo<End, End, RoleEnd, NameP>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P) } unsafe impl std::marker::Send for BBr0P {}
type BC0_M = MeshTwo<Send<BBr0N, End>, Send<BBr0P, End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<Recv<BBr0N, End>, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<Recv<BBr0P, End>, End, RoleM<RoleEnd>, NameP>;
type BS_M = MeshTwo<Recv<(u64, Box<Tok>), Send<BBr0N, End>>, Send<u64, Recv<Big, Recv<i64, Send<BBr0P, End>>>>, RoleP<RoleN<RoleP<RoleP<RoleBroadcast>>>>, NameM>;
type BS_N = MeshTwo<Send<(u64, Box<Tok>), Recv<BBr0N, End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BS_P = MeshTwo<Recv<u64, Send<Big, Send<i64, Recv<BBr0P, End>>>>, End, RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>, NameP>;
fn bc0_m(s: BC0_M, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, BBr0N::L0, BBr0P::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_1_M = choose_mpst_m_to_all!(s, BBr0N::L1, BBr0P::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_m(s: BS_M, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
  bc0_m(s, h)
}
fn bc0_n(s: BC0_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bstart_n(s: BS_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
  bc0_n(s, h)}))
}
fn bc0_p(s: BC0_P, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0P::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_p(s: BS_P, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  bc0_p(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: BS_M| H::at(0, 3).participant(move |h| bstart_m(s, h)),
    move |s: BS_P| H::at(2, 3).participant(move |h| bstart_p(s, h)),
    move |s: AS_C, t: BS_N| { let (h, k) = (H::at(2, 0), H::at(1, 3)); h.participants(k, move || alternate(more(move || astart_c(s, h)), more(move || bstart_n(t, k)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 3, 3, (2, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra2", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(1, 2), (2, 1), (0, 2), (2, 0), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(1, 0), (1, 0), (1, 0), (1, 2)], END), (&[(0, 1), (0, 1)], 0), (&[(1, 2), (0, 2)], 0)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb2", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 2), (1, 0), (2, 0), (2, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 2)], END), (&[], END)] }], go: none };
pub static P: Pair = Pair { name: "i6", a: &PA, b: &PB, twin: (2, 1), go };
}
pub mod i7 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, 2, MeshTwo, M, N, 2, fork_both);
type AB0_0_A = MeshOne<Send<Option<Vec<u64>>, Send<String, Send<Tok, Send<ABr0B, End>>>>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type AB0_0_B = MeshOne<Recv<Option<Vec<u64>>, Recv<String, Recv<Tok, Recv<ABr0B, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type AB0_1_A = MeshOne<Recv<(u64, Box<Tok>), Send<u64, Send<ABr0B, End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AB0_1_B = MeshOne<Send<(u64, Box<Tok>), Recv<u64, Recv<ABr0B, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_2_A = MeshOne<Recv<(u64, Box<Tok>), Send<Big, Send<u64, Recv<Tok, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type AB0_2_B = MeshOne<Send<(u64, Box<Tok>), Recv<Big, Recv<u64, Send<Tok, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type AB0_3_A = MeshOne<Recv<(u64, Box<Tok>), Recv<ABr1A, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type AB0_3_B = MeshOne<Send<(u64, Box<Tok>), Send<ABr1A, End>>, RoleA<RoleBroadcast>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B), L3(AB0_3_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AB1_0_A = MeshOne<End, RoleEnd, NameA>;
type AB1_0_B = MeshOne<End, RoleEnd, NameB>;
type AB1_1_A = MeshOne<End, RoleEnd, NameA>;
type AB1_1_B = MeshOne<End, RoleEnd, NameB>;
pub enum ABr1A { L0(AB1_0_A), L1(AB1_1_A) } unsafe impl std::marker::Send for ABr1A {}
type AC1_A = MeshOne<Recv<ABr1A, End>, RoleB<RoleEnd>, NameA>;
type AC1_B = MeshOne<Send<ABr1A, End>, RoleBroadcast, NameB>;
type AS_A = MeshOne<Send<Tok, Send<Big, Send<(u64, Box<Tok>), Send<ABr0B, End>>>>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type AS_B = MeshOne<Recv<Tok, Recv<Big, Recv<(u64, Box<Tok>), Recv<ABr0B, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      ac0_a(s, h)
    }
    2 => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ABr0B::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB0_3_A = choose_mpst_a_to_all!(s, ABr0B::L3); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      ac1_a(s, h)
    }
  }
  }
fn ac1_a(s: AC1_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr1A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr1A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      ac0_b(s, h)}))}))}))
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      ac0_b(s, h)}))}))
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
    },
    ABr0B::L3(s) => { h.offered(0, 3);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x)?; h.sent();
      ac1_b(s, h)}))
    },
  })
  }))}
fn ac1_b(s: AC1_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB1_0_B = choose_mpst_b_to_all!(s, ABr1A::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
    _ => { let s: AB1_1_B = choose_mpst_b_to_all!(s, ABr1A::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
  }
  }))}
fn astart_b(s: AS_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  ac0_b(s, h)}))}))}))
}
type BB0_0_M = MeshTwo<Recv<BBr0M, End>, RoleN<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<Send<BBr0M, End>, RoleBroadcast, NameN>;
type BB0_1_M = MeshTwo<Recv<i64, Recv<i64, End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_1_N = MeshTwo<Send<i64, Send<i64, End>>, RoleM<RoleM<RoleEnd>>, NameN>;
type BB0_2_M = MeshTwo<Send<Tok, End>, RoleN<RoleEnd>, NameM>;
type BB0_2_N = MeshTwo<Recv<Tok, End>, RoleM<RoleEnd>, NameN>;
type BB0_3_M = MeshTwo<Recv<i64, Recv<Big, Recv<BBr0M, End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameM>;
type BB0_3_N = MeshTwo<Send<i64, Send<Big, Send<BBr0M, End>>>, RoleM<RoleM<RoleBroadcast>>, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M), L2(BB0_2_M), L3(BB0_3_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<Recv<BBr0M, End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<Send<BBr0M, End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<Recv<BBr0M, End>, RoleN<RoleEnd>, NameM>;
type BS_N = MeshTwo<Send<BBr0M, End>, RoleBroadcast, NameN>;
fn bc0_m(s: BC0_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    BBr0M::L0(s) => { h.offered(1, 0);
      bc0_m(s, h)
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0M::L2(s) => { h.offered(1, 2);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0M::L3(s) => { h.offered(1, 3);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      bc0_m(s, h)
    },
  })
  }
fn bstart_m(s: BS_M, h: H) -> R {
  bc0_m(s, h)
}
fn bc0_n(s: BC0_N, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, BBr0M::L0); h.chosen();
      bc0_n(s, h)
    }
    1 => { let s: BB0_1_N = choose_mpst_n_to_all!(s, BBr0M::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    }
    2 => { let s: BB0_2_N = choose_mpst_n_to_all!(s, BBr0M::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
    _ => { let s: BB0_3_N = choose_mpst_n_to_all!(s, BBr0M::L3); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      bc0_n(s, h)}))}))
    }
  }
  }))}
fn bstart_n(s: BS_N, h: H) -> N {
  bc0_n(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: BS_M| H::at(0, 2).participant(move |h| bstart_m(s, h)),
    move |s: AS_B, t: BS_N| { let (h, k) = (H::at(1, 0), H::at(1, 2)); h.participants(k, move || alternate(more(move || astart_b(s, h)), more(move || bstart_n(t, k)))) })) { Ok((j0, j1, j2,)) => joined_two(vec![j0, j1, j2], 2, 2, (1, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra3", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 1), (0, 1)], 0), states: &[State { chooser: 0, exit: 2, branches: &[(&[(0, 1), (0, 1), (0, 1)], 0), (&[(1, 0), (0, 1)], 0), (&[(1, 0), (0, 1), (0, 1), (1, 0)], END), (&[(1, 0)], 1)] }, State { chooser: 1, exit: 0, branches: &[(&[], END), (&[], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb3", n: 2, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[], 0), (&[(1, 0), (1, 0)], END), (&[(0, 1)], END), (&[(1, 0), (1, 0)], 0)] }], go: none };
pub static P: Pair = Pair { name: "i7", a: &PA, b: &PB, twin: (1, 1), go };
}
pub mod i8 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, D, 1, MeshTwo, M, N, 1, fork_both);
type AB0_0_A = MeshOne<Recv<u64, End>, End, End, RoleB<RoleEnd>, NameA>;
type AB0_0_B = MeshOne<Send<u64, End>, Recv<String, End>, End, RoleA<RoleC<RoleEnd>>, NameB>;
type AB0_0_C = MeshOne<End, Send<String, End>, End, RoleB<RoleEnd>, NameC>;
type AB0_0_D = MeshOne<End, End, End, RoleEnd, NameD>;
type AB0_1_A = MeshOne<End, Recv<Option<Vec<u64>>, Recv<i64, End>>, End, RoleC<RoleC<RoleEnd>>, NameA>;
type AB0_1_B = MeshOne<End, Recv<i64, End>, Recv<Option<Vec<u64>>, End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = MeshOne<Send<Option<Vec<u64>>, Send<i64, End>>, Send<i64, End>, End, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type AB0_1_D = MeshOne<End, Send<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameD>;
type AC0_A = MeshOne<Recv<Either<AB0_0_A, AB0_1_A>, End>, End, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type AC0_B = MeshOne<Send<Either<AB0_0_A, AB0_1_A>, End>, Send<Either<AB0_0_C, AB0_1_C>, End>, Send<Either<AB0_0_D, AB0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleD<RoleC<RoleEnd>>>, NameB>;
type AC0_C = MeshOne<End, Recv<Either<AB0_0_C, AB0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type AC0_D = MeshOne<End, Recv<Either<AB0_0_D, AB0_1_D>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameD>;
type AS_A = MeshOne<Recv<Either<AB0_0_A, AB0_1_A>, End>, End, End, RoleAlltoB<RoleEnd, RoleEnd>, NameA>;
type AS_B = MeshOne<Send<Either<AB0_0_A, AB0_1_A>, End>, Send<Either<AB0_0_C, AB0_1_C>, End>, Send<Either<AB0_0_D, AB0_1_D>, End>, RoleBtoAll<RoleA<RoleC<RoleEnd>>, RoleD<RoleC<RoleEnd>>>, NameB>;
type AS_C = MeshOne<End, Recv<Either<AB0_0_C, AB0_1_C>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameC>;
type AS_D = MeshOne<End, Recv<Either<AB0_0_D, AB0_1_D>, End>, End, RoleAlltoB<RoleEnd, RoleEnd>, NameD>;
fn ac0_a(s: AC0_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  s.offer(
    move |s: AB0_0_A| -> N { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    move |s: AB0_1_A| -> N { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
  )
  }))}
fn astart_a(s: AS_A, h: H) -> N {
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_B = s.choose_left(); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<String>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB0_1_B = s.choose_right(); h.chosen();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn astart_b(s: AS_B, h: H) -> R {
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: AB0_0_C| -> R { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: AB0_1_C| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn astart_c(s: AS_C, h: H) -> R {
  ac0_c(s, h)
}
fn ac0_d(s: AC0_D, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  s.offer(
    move |s: AB0_0_D| -> R { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: AB0_1_D| -> R { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn astart_d(s: AS_D, h: H) -> R {
  ac0_d(s, h)
}
type BB0_0_M = MeshTwo<End, RoleEnd, NameM>;
type BB0_0_N = MeshTwo<End, RoleEnd, NameN>;
type BB0_1_M = MeshTwo<Send<i64, Send<BBr0N, End>>, RoleN<RoleBroadcast>, NameM>;
type BB0_1_N = MeshTwo<Recv<i64, Recv<BBr0N, End>>, RoleM<RoleM<RoleEnd>>, NameN>;
type BB0_2_M = MeshTwo<Recv<Big, Send<Big, Recv<Tok, Send<Option<Vec<u64>>, End>>>>, RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>, NameM>;
type BB0_2_N = MeshTwo<Send<Big, Recv<Big, Send<Tok, Recv<Option<Vec<u64>>, End>>>>, RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>, NameN>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N) } unsafe impl std::marker::Send for BBr0N {}
type BC0_M = MeshTwo<Send<BBr0N, End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<Recv<BBr0N, End>, RoleM<RoleEnd>, NameN>;
type BS_M = MeshTwo<Recv<String, Send<Tok, Send<u64, Recv<Tok, Recv<Option<Vec<u64>>, Send<BBr0N, End>>>>>>, RoleN<RoleN<RoleN<RoleN<RoleN<RoleBroadcast>>>>>, NameM>;
type BS_N = MeshTwo<Send<String, Recv<Tok, Recv<u64, Send<Tok, Send<Option<Vec<u64>>, Recv<BBr0N, End>>>>>>, RoleM<RoleM<RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>>>, NameN>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, BBr0N::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
    1 => { let s: BB0_1_M = choose_mpst_m_to_all!(s, BBr0N::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
      bc0_m(s, h)}))
    }
    _ => { let s: BB0_2_M = choose_mpst_m_to_all!(s, BBr0N::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
    }
  }
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<String>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  bc0_m(s, h)}))}))}))}))}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<i64>(0, &x);
      bc0_n(s, h)
    },
    BBr0N::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
  bc0_n(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: AS_D| H::at(3, 0).participant(move |h| astart_d(s, h)),
    move |s: BS_N| H::at(1, 4).participant(move |h| bstart_n(s, h)),
    move |s: AS_A, t: BS_M| { let (h, k) = (H::at(0, 0), H::at(0, 4)); h.participants(k, move || alternate(more(move || astart_a(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 4, 2, (0, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra4", n: 4, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (2, 1)], END), (&[(3, 1), (2, 0), (2, 0), (2, 1)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb4", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (0, 1), (0, 1), (1, 0), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[], END), (&[(0, 1)], 0), (&[(1, 0), (0, 1), (1, 0), (0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "i8", a: &PA, b: &PB, twin: (0, 0), go };
}
pub mod i9 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, 2, MeshTwo, M, N, P, Q, 3, fork_both);
type AB0_0_A = MeshOne<Recv<i64, Send<(u64, Box<Tok>), Send<Tok, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_0_B = MeshOne<Send<i64, Recv<(u64, Box<Tok>), Recv<Tok, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_1_A = MeshOne<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AB0_1_B = MeshOne<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AB0_2_A = MeshOne<Send<Big, Recv<Tok, Send<u64, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_2_B = MeshOne<Recv<Big, Send<Tok, Recv<u64, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AS_A = MeshOne<Recv<i64, Recv<i64, Send<ABr0B, End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AS_B = MeshOne<Send<i64, Send<i64, Recv<ABr0B, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ABr0B::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ABr0B::L1); h.chosen();
      ac0_a(s, h)
    }
    _ => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ABr0B::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<i64>(1, &x);
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  mpstthree::offer_mpst!(s, {
    ABr0B::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      ac0_b(s, h)
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(0); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))
    },
  })
  }))}
fn astart_b(s: AS_B, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  ac0_b(s, h)}))}))
}
type BB0_0_M = MeshTwo<Send<String, End>, Send<Option<Vec<u64>>, End>, Send<Big, Recv<Option<Vec<u64>>, End>>, RoleN<RoleP<RoleQ<RoleQ<RoleEnd>>>>, NameM>;
type BB0_0_N = MeshTwo<Recv<String, End>, End, End, RoleM<RoleEnd>, NameN>;
type BB0_0_P = MeshTwo<Recv<Option<Vec<u64>>, End>, End, End, RoleM<RoleEnd>, NameP>;
type BB0_0_Q = MeshTwo<Recv<Big, Send<Option<Vec<u64>>, End>>, End, End, RoleM<RoleM<RoleEnd>>, NameQ>;
type BB0_1_M = MeshTwo<End, End, End, RoleEnd, NameM>;
type BB0_1_N = MeshTwo<End, End, End, RoleEnd, NameN>;
type BB0_1_P = MeshTwo<End, End, End, RoleEnd, NameP>;
type BB0_1_Q = MeshTwo<End, End, End, RoleEnd, NameQ>;
type BC0_M = MeshTwo<End, Recv<Either<BB0_0_M, BB0_1_M>, End>, End, RoleAlltoP<RoleEnd, RoleEnd>, NameM>;
type BC0_N = MeshTwo<End, Recv<Either<BB0_0_N, BB0_1_N>, End>, End, RoleAlltoP<RoleEnd, RoleEnd>, NameN>;
type BC0_P = MeshTwo<Send<Either<BB0_0_M, BB0_1_M>, End>, Send<Either<BB0_0_N, BB0_1_N>, End>, Send<Either<BB0_0_Q, BB0_1_Q>, End>, RolePtoAll<RoleM<RoleEnd>, RoleEnd>, NameP>;
type BC0_Q = MeshTwo<End, End, Recv<Either<BB0_0_Q, BB0_1_Q>, End>, RoleAlltoP<RoleEnd, RoleEnd>, NameQ>;
type BS_M = MeshTwo<End, Recv<i64, Send<String, Recv<Either<BB0_0_M, BB0_1_M>, End>>>, End, RoleP<RoleP<RoleAlltoP<RoleEnd, RoleEnd>>>, NameM>;
type BS_N = MeshTwo<End, Recv<Either<BB0_0_N, BB0_1_N>, End>, Send<Big, End>, RoleQ<RoleAlltoP<RoleEnd, RoleEnd>>, NameN>;
type BS_P = MeshTwo<Send<i64, Recv<String, Send<Either<BB0_0_M, BB0_1_M>, End>>>, Send<Either<BB0_0_N, BB0_1_N>, End>, Send<Big, Send<Either<BB0_0_Q, BB0_1_Q>, End>>, RoleM<RoleM<RoleQ<RolePtoAll<RoleM<RoleEnd>, RoleEnd>>>>, NameP>;
type BS_Q = MeshTwo<End, Recv<Big, End>, Recv<Big, Recv<Either<BB0_0_Q, BB0_1_Q>, End>>, RoleP<RoleN<RoleAlltoP<RoleEnd, RoleEnd>>>, NameQ>;
fn bc0_m(s: BC0_M, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: BB0_0_M| -> R { h.offered(2, 0);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(3, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: BB0_1_M| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn bstart_m(s: BS_M, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x)?; h.sent();
  bc0_m(s, h)
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: BB0_0_N| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: BB0_1_N| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
  bc0_n(s, h)
}
fn bc0_p(s: BC0_P, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB0_0_P = s.choose_left(); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
    _ => { let s: BB0_1_P = s.choose_right(); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
  }
  }))}
fn bstart_p(s: BS_P, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<String>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
  bc0_p(s, h)}))}))}))
}
fn bc0_q(s: BC0_Q, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  s.offer(
    move |s: BB0_0_Q| -> R { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: BB0_1_Q| -> R { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn bstart_q(s: BS_Q, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
  bc0_q(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: BS_M| H::at(0, 2).participant(move |h| bstart_m(s, h)),
    move |s: BS_N| H::at(1, 2).participant(move |h| bstart_n(s, h)),
    move |s: BS_Q| H::at(3, 2).participant(move |h| bstart_q(s, h)),
    move |s: AS_B, t: BS_P| { let (h, k) = (H::at(1, 0), H::at(2, 2)); h.participants(k, move || alternate(more(move || astart_b(s, h)), more(move || bstart_p(t, k)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 2, 4, (1, 2)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra5", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (1, 0)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(1, 0), (0, 1), (0, 1)], END), (&[], 0), (&[(0, 1), (1, 0), (0, 1)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb5", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(2, 0), (0, 2), (2, 3), (1, 3)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(0, 1), (0, 2), (0, 3), (3, 0)], END), (&[], END)] }], go: none };
pub static P: Pair = Pair { name: "i9", a: &PA, b: &PB, twin: (1, 2), go };
}
pub mod i10 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, 1, MeshTwo, M, N, P, Q, 4, fork_both);
type AB0_0_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_0_B = MeshOne<End, Recv<u64, End>, RoleC<RoleEnd>, NameB>;
type AB0_0_C = MeshOne<End, Send<u64, End>, RoleB<RoleEnd>, NameC>;
type AB0_1_A = MeshOne<Recv<Big, End>, Recv<Big, Recv<i64, End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type AB0_1_B = MeshOne<Send<Big, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = MeshOne<Send<Big, Send<i64, End>>, Recv<(u64, Box<Tok>), End>, RoleB<RoleA<RoleA<RoleEnd>>>, NameC>;
type AC0_A = MeshOne<Send<Either<AB0_0_B, AB0_1_B>, End>, Send<Either<AB0_0_C, AB0_1_C>, End>, RoleAtoAll<RoleEnd, RoleB<RoleC<RoleC<RoleEnd>>>>, NameA>;
type AC0_B = MeshOne<Recv<Either<AB0_0_B, AB0_1_B>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type AC0_C = MeshOne<Recv<Either<AB0_0_C, AB0_1_C>, End>, End, RoleAlltoA<RoleEnd, RoleEnd>, NameC>;
type AS_A = MeshOne<Send<(u64, Box<Tok>), Send<Either<AB0_0_B, AB0_1_B>, End>>, Recv<i64, Send<Either<AB0_0_C, AB0_1_C>, End>>, RoleC<RoleB<RoleAtoAll<RoleEnd, RoleB<RoleC<RoleC<RoleEnd>>>>>>, NameA>;
type AS_B = MeshOne<Recv<(u64, Box<Tok>), Recv<Either<AB0_0_B, AB0_1_B>, End>>, Send<(u64, Box<Tok>), Send<Option<Vec<u64>>, Send<Tok, End>>>, RoleC<RoleC<RoleC<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameB>;
type AS_C = MeshOne<Send<i64, Recv<Either<AB0_0_C, AB0_1_C>, End>>, Recv<(u64, Box<Tok>), Recv<Option<Vec<u64>>, Recv<Tok, End>>>, RoleB<RoleA<RoleB<RoleB<RoleAlltoA<RoleEnd, RoleEnd>>>>>, NameC>;
fn ac0_a(s: AC0_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = s.choose_left(); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
    _ => { let s: AB0_1_A = s.choose_right(); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))
    }
  }
  }))}
fn astart_a(s: AS_A, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  ac0_a(s, h)}))}))
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: AB0_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<u64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: AB0_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn astart_b(s: AS_B, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(0, &x);
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: AB0_0_C| -> R { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: AB0_1_C| -> R { h.offered(0, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn astart_c(s: AS_C, h: H) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
  pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
  ac0_c(s, h)
}
type BB0_0_M = MeshTwo<End, End, End, RoleEnd, NameM>;
type BB0_0_N = MeshTwo<End, End, Send<Big, End>, RoleQ<RoleEnd>, NameN>;
type BB0_0_P = MeshTwo<End, End, End, RoleEnd, NameP>;
type BB0_0_Q = MeshTwo<End, Recv<Big, End>, End, RoleN<RoleEnd>, NameQ>;
type BB0_1_M = MeshTwo<Recv<u64, End>, Recv<Big, End>, End, RoleN<RoleP<RoleEnd>>, NameM>;
type BB0_1_N = MeshTwo<Send<u64, End>, Send<(u64, Box<Tok>), Send<Tok, End>>, End, RoleM<RoleP<RoleP<RoleEnd>>>, NameN>;
type BB0_1_P = MeshTwo<Send<Big, End>, Recv<(u64, Box<Tok>), Recv<Tok, End>>, End, RoleM<RoleN<RoleN<RoleEnd>>>, NameP>;
type BB0_1_Q = MeshTwo<End, End, End, RoleEnd, NameQ>;
type BC0_M = MeshTwo<Send<Either<BB0_0_N, BB0_1_N>, End>, Send<Either<BB0_0_P, BB0_1_P>, End>, Send<Either<BB0_0_Q, BB0_1_Q>, End>, RoleMtoAll<RoleEnd, RoleN<RoleP<RoleEnd>>>, NameM>;
type BC0_N = MeshTwo<Recv<Either<BB0_0_N, BB0_1_N>, End>, End, End, RoleAlltoM<RoleEnd, RoleEnd>, NameN>;
type BC0_P = MeshTwo<Recv<Either<BB0_0_P, BB0_1_P>, End>, End, End, RoleAlltoM<RoleEnd, RoleEnd>, NameP>;
type BC0_Q = MeshTwo<Recv<Either<BB0_0_Q, BB0_1_Q>, End>, End, End, RoleAlltoM<RoleEnd, RoleEnd>, NameQ>;
type BS_M = MeshTwo<Send<Big, Send<Either<BB0_0_N, BB0_1_N>, End>>, Send<Either<BB0_0_P, BB0_1_P>, End>, Recv<Big, Send<Either<BB0_0_Q, BB0_1_Q>, End>>, RoleQ<RoleN<RoleMtoAll<RoleEnd, RoleN<RoleP<RoleEnd>>>>>, NameM>;
type BS_N = MeshTwo<Recv<Big, Recv<Either<BB0_0_N, BB0_1_N>, End>>, End, End, RoleM<RoleAlltoM<RoleEnd, RoleEnd>>, NameN>;
type BS_P = MeshTwo<Recv<Either<BB0_0_P, BB0_1_P>, End>, End, Recv<Big, End>, RoleQ<RoleAlltoM<RoleEnd, RoleEnd>>, NameP>;
type BS_Q = MeshTwo<Send<Big, Recv<Either<BB0_0_Q, BB0_1_Q>, End>>, End, Send<Big, End>, RoleM<RoleP<RoleAlltoM<RoleEnd, RoleEnd>>>, NameQ>;
fn bc0_m(s: BC0_M, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = s.choose_left(); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_1_M = s.choose_right(); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_m(s: BS_M, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  bc0_m(s, h)
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: BB0_0_N| -> R { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Big>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: BB0_1_N| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  bc0_n(s, h)
}
fn bc0_p(s: BC0_P, h: H) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(
    move |s: BB0_0_P| -> R { h.offered(0, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |s: BB0_1_P| -> R { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn bstart_p(s: BS_P, h: H) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv()?; h.got::<Big>(3, &x);
  bc0_p(s, h)
}
fn bc0_q(s: BC0_Q, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  s.offer(
    move |s: BB0_0_Q| -> N { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv()?; h.got::<Big>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    move |s: BB0_1_Q| -> N { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  )
  }))}
fn bstart_q(s: BS_Q, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x)?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(2); let s = s.send(x)?; h.sent();
  bc0_q(s, h)}))}))
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: BS_M| H::at(0, 3).participant(move |h| bstart_m(s, h)),
    move |s: BS_N| H::at(1, 3).participant(move |h| bstart_n(s, h)),
    move |s: BS_P| H::at(2, 3).participant(move |h| bstart_p(s, h)),
    move |s: AS_A, t: BS_Q| { let (h, k) = (H::at(0, 0), H::at(3, 3)); h.participants(k, move || alternate(more(move || astart_a(s, h)), more(move || bstart_q(t, k)))) })) { Ok((j0, j1, j2, j3, j4, j5,)) => joined_two(vec![j0, j1, j2, j3, j4, j5], 3, 4, (0, 3)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra6", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(1, 2), (2, 0), (1, 2), (1, 2), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 1)], END), (&[(1, 0), (1, 2), (2, 0), (2, 0)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb6", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(3, 0), (0, 1), (3, 2)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(1, 3)], END), (&[(1, 0), (2, 0), (1, 2), (1, 2)], END)] }], go: none };
pub static P: Pair = Pair { name: "i10", a: &PA, b: &PB, twin: (0, 3), go };
}
pub mod i11 {
use super::pre::*;
mpstthree::generate!("interleaved", MeshOne, A, B, C, D, 4, MeshTwo, M, N, P, 1, fork_both);
type AB0_0_A = MeshOne<End, End, End, RoleEnd, NameA>;
type AB0_0_B = MeshOne<End, End, End, RoleEnd, NameB>;
type AB0_0_C = MeshOne<End, End, End, RoleEnd, NameC>;
type AB0_0_D = MeshOne<End, End, End, RoleEnd, NameD>;
type AB0_1_A = MeshOne<End, End, Send<u64, End>, RoleD<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<End, Send<Tok, End>, End, RoleC<RoleEnd>, NameB>;
type AB0_1_C = MeshOne<End, Recv<Tok, End>, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = MeshOne<Recv<u64, End>, End, End, RoleA<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = MeshOne<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AC0_B = MeshOne<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AC0_C = MeshOne<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = MeshOne<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
type AS_A = MeshOne<Send<Big, Send<Big, Recv<ABr0A, End>>>, End, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AS_B = MeshOne<Recv<Big, Recv<Big, Send<ABr0A, End>>>, Send<ABr0C, End>, Send<ABr0D, End>, RoleA<RoleA<RoleBroadcast>>, NameB>;
type AS_C = MeshOne<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AS_D = MeshOne<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
fn ac0_a(s: AC0_A, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<u64>(3); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x)?; h.sent();
  ac0_a(s, h)
}
fn ac0_b(s: AC0_B, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_B = choose_mpst_b_to_all!(s, ABr0A::L0, ABr0C::L0, ABr0D::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB0_1_B = choose_mpst_b_to_all!(s, ABr0A::L1, ABr0C::L1, ABr0D::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn astart_b(s: AS_B, h: H) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Big>(0, &x);
  ac0_b(s, h)
}
fn ac0_c(s: AC0_C, h: H) -> R {
  pre!(h, s, m);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0C::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv()?; h.got::<Tok>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_c(s: AS_C, h: H) -> R {
  ac0_c(s, h)
}
fn ac0_d(s: AC0_D, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  mpstthree::offer_mpst!(s, {
    ABr0D::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
    ABr0D::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv()?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
  })
  }))}
fn astart_d(s: AS_D, h: H) -> N {
  ac0_d(s, h)
}
type BB0_0_M = MeshTwo<Send<Option<Vec<u64>>, End>, End, RoleN<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<Recv<Option<Vec<u64>>, End>, End, RoleM<RoleEnd>, NameN>;
type BB0_0_P = MeshTwo<End, End, RoleEnd, NameP>;
type BB0_1_M = MeshTwo<End, Recv<BBr0M, End>, RoleP<RoleEnd>, NameM>;
type BB0_1_N = MeshTwo<End, Recv<BBr0N, End>, RoleP<RoleEnd>, NameN>;
type BB0_1_P = MeshTwo<Send<BBr0M, End>, Send<BBr0N, End>, RoleBroadcast, NameP>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M) } unsafe impl std::marker::Send for BBr0M {}
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N) } unsafe impl std::marker::Send for BBr0N {}
type BC0_M = MeshTwo<End, Recv<BBr0M, End>, RoleP<RoleEnd>, NameM>;
type BC0_N = MeshTwo<End, Recv<BBr0N, End>, RoleP<RoleEnd>, NameN>;
type BC0_P = MeshTwo<Send<BBr0M, End>, Send<BBr0N, End>, RoleBroadcast, NameP>;
type BS_M = MeshTwo<End, Send<Tok, Recv<BBr0M, End>>, RoleP<RoleP<RoleEnd>>, NameM>;
type BS_N = MeshTwo<End, Recv<i64, Recv<(u64, Box<Tok>), Recv<Tok, Recv<BBr0N, End>>>>, RoleP<RoleP<RoleP<RoleP<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<Recv<Tok, Send<BBr0M, End>>, Send<i64, Send<(u64, Box<Tok>), Send<Tok, Send<BBr0N, End>>>>, RoleN<RoleN<RoleM<RoleN<RoleBroadcast>>>>, NameP>;
fn bc0_m(s: BC0_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    BBr0M::L0(s) => { h.offered(2, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x)?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    BBr0M::L1(s) => { h.offered(2, 1);
      bc0_m(s, h)
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(2); let s = s.send(x)?; h.sent();
  bc0_m(s, h)}))
}
fn bc0_n(s: BC0_N, h: H) -> R {
  pre!(h, s, m);
  h.offer(2);
  mpstthree::offer_mpst!(s, {
    BBr0N::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L1(s) => { h.offered(2, 1);
      bc0_n(s, h)
    },
  })
  }
fn bstart_n(s: BS_N, h: H) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<i64>(2, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv()?; h.got::<Tok>(2, &x);
  bc0_n(s, h)
}
fn bc0_p(s: BC0_P, h: H) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_P = choose_mpst_p_to_all!(s, BBr0M::L0, BBr0N::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_1_P = choose_mpst_p_to_all!(s, BBr0M::L1, BBr0N::L1); h.chosen();
      bc0_p(s, h)
    }
  }
  }
fn bstart_p(s: BS_P, h: H) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x)?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv()?; h.got::<Tok>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x)?; h.sent();
  bc0_p(s, h)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A| H::at(0, 0).participant(move |h| astart_a(s, h)),
    move |s: AS_B| H::at(1, 0).participant(move |h| astart_b(s, h)),
    move |s: AS_C| H::at(2, 0).participant(move |h| astart_c(s, h)),
    move |s: BS_N| H::at(1, 4).participant(move |h| bstart_n(s, h)),
    move |s: BS_P| H::at(2, 4).participant(move |h| bstart_p(s, h)),
    move |s: AS_D, t: BS_M| { let (h, k) = (H::at(3, 0), H::at(0, 4)); h.participants(k, move || alternate(more(move || astart_d(s, h)), more(move || bstart_m(t, k)))) })) { Ok((j0, j1, j2, j3, j4, j5,)) => joined_two(vec![j0, j1, j2, j3, j4, j5], 4, 3, (3, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ra7", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 1)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[], END), (&[(1, 2), (0, 3)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/rb7", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 1), (2, 1), (0, 2), (2, 1)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(0, 1)], END), (&[], 0)] }], go: none };
pub static P: Pair = Pair { name: "i11", a: &PA, b: &PB, twin: (3, 0), go };
}
pub static ALL: &[&Pair] = &[&i0::P, &i1::P, &i2::P, &i3::P, &i4::P, &i5::P, &i6::P, &i7::P, &i8::P, &i9::P, &i10::P, &i11::P];
pub mod t0 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, 2, MeshTwo, M, N, P, 3, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AS_A = MeshOne<SendTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<u64, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', End>>, RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>, NameA>;
type AS_B = MeshOne<RecvTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<u64, ' ', -2, false, -1, false, ' ', End>>, SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RoleA<RoleC<RoleA<RoleC<RoleEnd>>>>, NameB>;
type AS_C = MeshOne<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', End>>, RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RoleB<RoleA<RoleB<RoleA<RoleEnd>>>>, NameC>;
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(2); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(2); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
}
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
type BS_M = MeshTwo<SendTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<u64, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', End>>, RoleN<RoleP<RoleN<RoleP<RoleEnd>>>>, NameM>;
type BS_N = MeshTwo<RecvTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<u64, ' ', -2, false, -1, false, ' ', End>>, SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RoleM<RoleP<RoleM<RoleP<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', End>>, RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RoleN<RoleM<RoleN<RoleM<RoleEnd>>>>, NameP>;
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(2, &x);
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(2, &x);
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
  pre!(h, s, m); let x = h.mk::<String>(2); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.closing(); h.closed(s.close())
}
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A, c: &mut Clocks| { let c = ticking(c); H::at(0, 0).participant(move |h| astart_a(s, h, c)) },
    move |s: AS_C, c: &mut Clocks| { let c = ticking(c); H::at(2, 0).participant(move |h| astart_c(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 3).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 3).participant(move |h| bstart_n(s, h, c)) },
    move |s: AS_B, c: &mut Clocks, t: BS_P, d: &mut Clocks| { let (h, k) = (H::at(1, 0), H::at(2, 3)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_b(s, h, c)), more(move || bstart_p(t, k, d)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 3, 3, (1, 2)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ring", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (1, 2), (2, 0), (0, 1), (1, 2), (2, 0)], END), states: &[], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/ring", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (1, 2), (2, 0), (0, 1), (1, 2), (2, 0)], END), states: &[], go: none };
pub static P: Pair = Pair { name: "t0", a: &PA, b: &PB, twin: (1, 2), go };
}
pub mod t1 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, 3, MeshTwo, M, N, 1, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', End>>, RecvTimed<u64, ' ', -2, false, -1, false, ' ', SendTimed<i64, 'a', 0, true, -1, true, ' ', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type AB0_0_B = MeshOne<RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', End>>, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type AB0_0_C = MeshOne<SendTimed<u64, ' ', -2, false, -1, false, ' ', RecvTimed<i64, 'a', 0, true, -1, true, ' ', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type AB0_1_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_1_B = MeshOne<End, End, RoleEnd, NameB>;
type AB0_1_C = MeshOne<End, End, RoleEnd, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type AC0_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AC0_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AS_A = MeshOne<End, RecvTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<Big, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type AS_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AS_C = MeshOne<SendTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<Big, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x, ck(c))?; h.sent();
      ac0_a(s, h, c)
    },
    ABr0A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
  pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x, ck(c))?; h.sent();
  ac0_a(s, h, c)
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> R {
  ac0_b(s, h, c)
}
fn ac0_c(s: AC0_C, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L0, ABr0B::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(0); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      ac0_c(s, h, c)}))}))
    }
    _ => { let s: AB0_1_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L1, ABr0B::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
  }
  }))}
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  ac0_c(s, h, c)}))}))
}
type BB0_0_M = MeshTwo<RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_0_N = MeshTwo<SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleM<RoleBroadcast>, NameN>;
type BB0_1_M = MeshTwo<SendTimed<String, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BB0_1_N = MeshTwo<RecvTimed<String, ' ', -2, false, -1, false, ' ', End>, RoleM<RoleEnd>, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BS_N = MeshTwo<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleM<RoleBroadcast>, NameN>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr0M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      bc0_m(s, h, c)}))
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  bc0_m(s, h, c)}))
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      bc0_n(s, h, c)
    }
    _ => { let s: BB0_1_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L1); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  bc0_n(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A, c: &mut Clocks| { let c = ticking(c); H::at(0, 0).participant(move |h| astart_a(s, h, c)) },
    move |s: AS_B, c: &mut Clocks| { let c = ticking(c); H::at(1, 0).participant(move |h| astart_b(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 3).participant(move |h| bstart_n(s, h, c)) },
    move |s: AS_C, c: &mut Clocks, t: BS_M, d: &mut Clocks| { let (h, k) = (H::at(2, 0), H::at(0, 3)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_c(s, h, c)), more(move || bstart_m(t, k, d)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 3, 2, (2, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/loop", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(2, 0), (0, 2)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (1, 0), (0, 2)], 0), (&[], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/log", n: 2, cancel_sends: true, cancel_choices: true, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 0), (&[(0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "t1", a: &PA, b: &PB, twin: (2, 0), go };
}
pub mod t2 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, 1, MeshTwo, M, N, 1, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AB0_0_B = MeshOne<RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_1_A = MeshOne<RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleB<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleA<RoleEnd>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleEnd>, NameB>;
type AS_A = MeshOne<SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AS_B = MeshOne<RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ck(c), ABr0B::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
      ac0_a(s, h, c)}))}))
    }
    _ => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ck(c), ABr0B::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
  ac0_a(s, h, c)}))}))
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
  ac0_b(s, h, c)
}
type BB0_0_M = MeshTwo<SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_0_N = MeshTwo<RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>, RoleM<RoleBroadcast>, NameN>;
type BB0_1_M = MeshTwo<RecvTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleN<RoleEnd>>, NameM>;
type BB0_1_N = MeshTwo<SendTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', End>>, RoleM<RoleM<RoleEnd>>, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<RecvTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameM>;
type BS_N = MeshTwo<SendTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>, RoleM<RoleM<RoleBroadcast>>, NameN>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr0M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      bc0_m(s, h, c)}))
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
  bc0_m(s, h, c)}))}))
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L0); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      bc0_n(s, h, c)
    }
    _ => { let s: BB0_1_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
  bc0_n(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B, c: &mut Clocks| { let c = ticking(c); H::at(1, 0).participant(move |h| astart_b(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 2).participant(move |h| bstart_n(s, h, c)) },
    move |s: AS_A, c: &mut Clocks, t: BS_M, d: &mut Clocks| { let (h, k) = (H::at(0, 0), H::at(0, 2)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_a(s, h, c)), more(move || bstart_m(t, k, d)))) })) { Ok((j0, j1, j2,)) => joined_two(vec![j0, j1, j2], 2, 2, (0, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/two", n: 2, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (1, 0)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(0, 1), (1, 0)], 0), (&[(1, 0)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/two", n: 2, cancel_sends: true, cancel_choices: true, start: (&[(1, 0), (0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(0, 1)], 0), (&[(1, 0), (0, 1)], END)] }], go: none };
pub static P: Pair = Pair { name: "t2", a: &PA, b: &PB, twin: (0, 0), go };
}
pub mod t3 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, D, 2, MeshTwo, M, N, P, 2, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<Tok, ' ', -2, false, -1, false, ' ', End>, RoleB<RoleC<RoleC<RoleB<RoleD<RoleB<RoleEnd>>>>>>, NameA>;
type AB0_0_B = MeshOne<SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleA<RoleBroadcast>>, NameB>;
type AB0_0_C = MeshOne<RecvTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>, End, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type AB0_0_D = MeshOne<SendTimed<Tok, ' ', -2, false, -1, false, ' ', End>, RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, End, RoleA<RoleB<RoleEnd>>, NameD>;
type AB0_1_A = MeshOne<End, End, End, RoleEnd, NameA>;
type AB0_1_B = MeshOne<End, RecvTimed<u64, 'a', 0, true, -1, true, ' ', End>, SendTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = MeshOne<End, SendTimed<u64, 'a', 0, true, -1, true, ' ', End>, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = MeshOne<End, RecvTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = MeshOne<RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, End, End, RoleB<RoleEnd>, NameA>;
type AC0_B = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameB>;
type AC0_C = MeshOne<End, RecvTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = MeshOne<End, RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameD>;
type AS_A = MeshOne<RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, End, End, RoleB<RoleB<RoleEnd>>, NameA>;
type AS_B = MeshOne<SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, SendTimed<u64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Big, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleC<RoleC<RoleBroadcast>>>, NameB>;
type AS_C = MeshOne<End, RecvTimed<u64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Big, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr0C, ' ', -2, false, -1, false, ' ', End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type AS_D = MeshOne<End, RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameD>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr0A::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(2); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(3, &x);
      ac0_a(s, h, c)
    },
    ABr0A::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
  ac0_a(s, h, c)
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_B = choose_mpst_b_to_all!(s, ck(c), ABr0A::L0, ABr0C::L0, ABr0D::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      ac0_b(s, h, c)}))}))
    }
    _ => { let s: AB0_1_B = choose_mpst_b_to_all!(s, ck(c), ABr0A::L1, ABr0C::L1, ABr0D::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    }
  }
  }))}
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(2); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
  ac0_b(s, h, c)}))}))}))
}
fn ac0_c(s: AC0_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr0C::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_c(s, h, c)
    },
    ABr0C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<u64>(1, &x);
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  ac0_c(s, h, c)
}
fn ac0_d(s: AC0_D, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr0D::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_d(s, h, c)
    },
    ABr0D::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_d(s: AS_D, h: H, c: *mut Clocks) -> R {
  ac0_d(s, h, c)
}
type BB0_0_M = MeshTwo<RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, End, RoleN<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<String, 'a', 0, true, -1, true, ' ', SendTimed<BBr1P, ' ', -2, false, -1, false, ' ', End>>>, RoleP<RoleP<RoleBroadcast>>, NameN>;
type BB0_0_P = MeshTwo<End, RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<String, 'a', 0, true, -1, true, ' ', RecvTimed<BBr1P, ' ', -2, false, -1, false, ' ', End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameP>;
type BB0_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_1_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_1_P = MeshTwo<End, End, RoleEnd, NameP>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P) } unsafe impl std::marker::Send for BBr0P {}
type BC0_M = MeshTwo<SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameP>;
type BB1_0_M = MeshTwo<RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleBroadcast>, NameM>;
type BB1_0_N = MeshTwo<SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BB1_0_P = MeshTwo<RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameP>;
type BB1_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB1_1_N = MeshTwo<End, SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleP<RoleEnd>, NameN>;
type BB1_1_P = MeshTwo<End, RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleN<RoleEnd>, NameP>;
pub enum BBr1M { L0(BB1_0_M), L1(BB1_1_M) } unsafe impl std::marker::Send for BBr1M {}
pub enum BBr1P { L0(BB1_0_P), L1(BB1_1_P) } unsafe impl std::marker::Send for BBr1P {}
type BC1_M = MeshTwo<RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, End, RoleN<RoleEnd>, NameM>;
type BC1_N = MeshTwo<SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr1P, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
type BC1_P = MeshTwo<End, RecvTimed<BBr1P, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameP>;
type BS_M = MeshTwo<SendTimed<u64, ' ', -2, false, -1, false, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleP<RoleBroadcast>>, NameM>;
type BS_N = MeshTwo<RecvTimed<u64, ' ', -2, false, -1, false, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BS_P = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, End, RoleM<RoleM<RoleEnd>>, NameP>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L0, BBr0P::L0); h.chosen();
      bc1_m(s, h, c)
    }
    _ => { let s: BB0_1_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L1, BBr0P::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bc1_m(s: BC1_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr1M::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      bc0_m(s, h, c)
    },
    BBr1M::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
  bc0_m(s, h, c)
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0N::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<String>(2, &x);
      bc1_n(s, h, c)}))}))
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bc1_n(s: BC1_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: BB1_0_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L0, BBr1P::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      bc0_n(s, h, c)}))
    }
    _ => { let s: BB1_1_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L1, BBr1P::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(2); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    }
  }
  }))}
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
  bc0_n(s, h, c)}))
}
fn bc0_p(s: BC0_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0P::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      bc1_p(s, h, c)
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bc1_p(s: BC1_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr1P::L0(s) => { h.offered(1, 0);
      bc0_p(s, h, c)
    },
    BBr1P::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
  bc0_p(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A, c: &mut Clocks| { let c = ticking(c); H::at(0, 0).participant(move |h| astart_a(s, h, c)) },
    move |s: AS_C, c: &mut Clocks| { let c = ticking(c); H::at(2, 0).participant(move |h| astart_c(s, h, c)) },
    move |s: AS_D, c: &mut Clocks| { let c = ticking(c); H::at(3, 0).participant(move |h| astart_d(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 4).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_P, c: &mut Clocks| { let c = ticking(c); H::at(2, 4).participant(move |h| bstart_p(s, h, c)) },
    move |s: AS_B, c: &mut Clocks, t: BS_N, d: &mut Clocks| { let (h, k) = (H::at(1, 0), H::at(1, 4)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_b(s, h, c)), more(move || bstart_n(t, k, d)))) })) { Ok((j0, j1, j2, j3, j4, j5,)) => joined_two(vec![j0, j1, j2, j3, j4, j5], 4, 3, (1, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/cb", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 0), (1, 2), (2, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (0, 2), (2, 0), (0, 1), (3, 0)], 0), (&[(1, 3), (2, 1)], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/log", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (2, 0)], 0), states: &[State { chooser: 0, exit: 1, branches: &[(&[(1, 2), (2, 1)], 1), (&[], END)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 0), (&[(1, 2)], END)] }], go: none };
pub static P: Pair = Pair { name: "t3", a: &PA, b: &PB, twin: (1, 1), go };
}
pub mod t4 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, 2, MeshTwo, M, N, 1, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_0_B = MeshOne<End, End, RoleEnd, NameB>;
type AB0_0_C = MeshOne<End, End, RoleEnd, NameC>;
type AB0_1_A = MeshOne<RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', End>>, RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>, NameA>;
type AB0_1_B = MeshOne<SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', End>>, SendTimed<u64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleA<RoleC<RoleC<RoleEnd>>>>, NameB>;
type AB0_1_C = MeshOne<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<u64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleB<RoleBroadcast>>, NameC>;
type AB0_2_A = MeshOne<End, End, RoleEnd, NameA>;
type AB0_2_B = MeshOne<End, End, RoleEnd, NameB>;
type AB0_2_C = MeshOne<End, End, RoleEnd, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A), L2(AB0_2_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type AC0_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AC0_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AS_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type AS_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AS_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0A::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
      ac0_a(s, h, c)
    },
    ABr0A::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> R {
  ac0_a(s, h, c)
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(2, 0);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(2); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)}))}))}))
    },
    ABr0B::L2(s) => { h.offered(2, 2);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> N {
  ac0_b(s, h, c)
}
fn ac0_c(s: AC0_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L0, ABr0B::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: AB0_1_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L1, ABr0B::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<u64>(1, &x);
      ac0_c(s, h, c)
    }
    _ => { let s: AB0_2_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L2, ABr0B::L2); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> R {
  ac0_c(s, h, c)
}
type BB0_0_M = MeshTwo<RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>>>, RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>, NameM>;
type BB0_0_N = MeshTwo<SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>>>, RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>, NameN>;
type BB0_1_M = MeshTwo<RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<u64, ' ', -2, false, -1, false, ' ', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>>>>>, RoleN<RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>>, NameM>;
type BB0_1_N = MeshTwo<SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<u64, ' ', -2, false, -1, false, ' ', SendTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>>>>>, RoleM<RoleM<RoleM<RoleM<RoleBroadcast>>>>, NameN>;
type BB0_2_M = MeshTwo<RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BB0_2_N = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M), L2(BB0_2_M) } unsafe impl std::marker::Send for BBr0M {}
type BC0_M = MeshTwo<RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BC0_N = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
type BB1_0_M = MeshTwo<End, RoleEnd, NameM>;
type BB1_0_N = MeshTwo<End, RoleEnd, NameN>;
type BB1_1_M = MeshTwo<RecvTimed<u64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>>>>>, RoleN<RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>>, NameM>;
type BB1_1_N = MeshTwo<SendTimed<u64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>>>>>, RoleM<RoleM<RoleM<RoleM<RoleBroadcast>>>>, NameN>;
type BB1_2_M = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<u64, ' ', -2, false, -1, false, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', End>>>>, RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>, NameM>;
type BB1_2_N = MeshTwo<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<u64, ' ', -2, false, -1, false, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', End>>>>, RoleM<RoleM<RoleM<RoleM<RoleEnd>>>>, NameN>;
type BB1_3_M = MeshTwo<RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', SendTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>>>, RoleN<RoleN<RoleN<RoleEnd>>>, NameM>;
type BB1_3_N = MeshTwo<SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', RecvTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>>>, RoleM<RoleM<RoleM<RoleEnd>>>, NameN>;
pub enum BBr1M { L0(BB1_0_M), L1(BB1_1_M), L2(BB1_2_M), L3(BB1_3_M) } unsafe impl std::marker::Send for BBr1M {}
type BC1_M = MeshTwo<RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleEnd>, NameM>;
type BC1_N = MeshTwo<SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameN>;
type BS_M = MeshTwo<RecvTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>>>>, RoleN<RoleN<RoleN<RoleN<RoleN<RoleN<RoleEnd>>>>>>, NameM>;
type BS_N = MeshTwo<SendTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>>>>, RoleM<RoleM<RoleM<RoleM<RoleM<RoleBroadcast>>>>>, NameN>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr0M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
    },
    BBr0M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
      bc1_m(s, h, c)}))}))}))}))
    },
    BBr0M::L2(s) => { h.offered(1, 2);
      bc0_m(s, h, c)
    },
  })
  }))}
fn bc1_m(s: BC1_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    BBr1M::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
    BBr1M::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<u64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      bc1_m(s, h, c)}))}))}))}))
    },
    BBr1M::L2(s) => { h.offered(1, 2);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
    },
    BBr1M::L3(s) => { h.offered(1, 3);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))
    },
  })
  }))}
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
  bc0_m(s, h, c)}))}))}))}))}))
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: BB0_1_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
      bc1_n(s, h, c)
    }
    _ => { let s: BB0_2_N = choose_mpst_n_to_all!(s, ck(c), BBr0M::L2); h.chosen();
      bc0_n(s, h, c)
    }
  }
  }
fn bc1_n(s: BC1_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB1_0_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: BB1_1_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      bc1_n(s, h, c)
    }
    2 => { let s: BB1_2_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L2); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB1_3_N = choose_mpst_n_to_all!(s, ck(c), BBr1M::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
  bc0_n(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A, c: &mut Clocks| { let c = ticking(c); H::at(0, 0).participant(move |h| astart_a(s, h, c)) },
    move |s: AS_C, c: &mut Clocks| { let c = ticking(c); H::at(2, 0).participant(move |h| astart_c(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 3).participant(move |h| bstart_n(s, h, c)) },
    move |s: AS_B, c: &mut Clocks, t: BS_M, d: &mut Clocks| { let (h, k) = (H::at(1, 0), H::at(0, 3)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_b(s, h, c)), more(move || bstart_m(t, k, d)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 3, 2, (1, 0)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ta0", n: 3, cancel_sends: true, cancel_choices: true, start: (&[], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[], END), (&[(1, 0), (0, 1), (2, 0), (1, 2)], 0), (&[], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/tb0", n: 2, cancel_sends: true, cancel_choices: true, start: (&[(1, 0), (1, 0), (0, 1), (1, 0), (1, 0)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[(1, 0), (1, 0), (1, 0), (1, 0)], END), (&[(1, 0), (0, 1), (0, 1), (1, 0)], 1), (&[], 0)] }, State { chooser: 1, exit: 0, branches: &[(&[], END), (&[(1, 0), (0, 1), (0, 1), (1, 0)], 1), (&[(0, 1), (0, 1), (0, 1), (0, 1)], END), (&[(1, 0), (0, 1), (1, 0)], END)] }], go: none };
pub static P: Pair = Pair { name: "t4", a: &PA, b: &PB, twin: (1, 0), go };
}
pub mod t5 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, 1, MeshTwo, M, N, P, 2, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<u64, ' ', -2, false, -1, false, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type AB0_0_B = MeshOne<RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<u64, ' ', -2, false, -1, false, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type AB0_1_A = MeshOne<End, RoleEnd, NameA>;
type AB0_1_B = MeshOne<End, RoleEnd, NameB>;
type AC0_A = MeshOne<SendTimed<Either<AB0_0_B, AB0_1_B>, ' ', -2, false, -1, false, ' ', End>, RoleAtoAll<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, RoleEnd>, NameA>;
type AC0_B = MeshOne<RecvTimed<Either<AB0_0_B, AB0_1_B>, ' ', -2, false, -1, false, ' ', End>, RoleAlltoA<RoleEnd, RoleEnd>, NameB>;
type AS_A = MeshOne<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Either<AB0_0_B, AB0_1_B>, ' ', -2, false, -1, false, ' ', End>>>, RoleB<RoleB<RoleAtoAll<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, RoleEnd>>>, NameA>;
type AS_B = MeshOne<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Either<AB0_0_B, AB0_1_B>, ' ', -2, false, -1, false, ' ', End>>>, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = s.choose_left(ck(c))?; h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))}))
    }
    _ => { let s: AB0_1_A = s.choose_right(ck(c))?; h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    }
  }
  }))}
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
  ac0_a(s, h, c)}))}))
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  s.offer(ck(c), 
    move |_: &mut Clocks, s: AB0_0_B| -> R { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    move |_: &mut Clocks, s: AB0_1_B| -> R { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  )
  }
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
  ac0_b(s, h, c)
}
type BB0_0_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<End, RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BB0_0_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
type BB0_1_M = MeshTwo<RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<String, ' ', -2, false, -1, false, ' ', End>>, SendTimed<u64, 'a', 0, true, -1, true, ' ', End>, RoleN<RoleP<RoleN<RoleEnd>>>, NameM>;
type BB0_1_N = MeshTwo<SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<String, ' ', -2, false, -1, false, ' ', End>>, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BB0_1_P = MeshTwo<RecvTimed<u64, 'a', 0, true, -1, true, ' ', End>, End, RoleM<RoleEnd>, NameP>;
type BB0_2_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BB0_2_N = MeshTwo<End, RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BB0_2_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
type BB0_3_M = MeshTwo<End, RecvTimed<String, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BB0_3_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_3_P = MeshTwo<SendTimed<String, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameP>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M), L2(BB0_2_M), L3(BB0_3_M) } unsafe impl std::marker::Send for BBr0M {}
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N), L3(BB0_3_N) } unsafe impl std::marker::Send for BBr0N {}
type BC0_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BC0_N = MeshTwo<End, RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BC0_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
type BS_M = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, SendTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>, RoleN<RoleP<RoleP<RoleP<RoleEnd>>>>, NameM>;
type BS_N = MeshTwo<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, RoleM<RoleP<RoleP<RoleP<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<RecvTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, RoleN<RoleN<RoleM<RoleM<RoleBroadcast>>>>, NameP>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr0M::L0(s) => { h.offered(2, 0);
      bc0_m(s, h, c)
    },
    BBr0M::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0M::L2(s) => { h.offered(2, 2);
      bc0_m(s, h, c)
    },
    BBr0M::L3(s) => { h.offered(2, 3);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<String>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(2); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<String>(2, &x);
  bc0_m(s, h, c)
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr0N::L0(s) => { h.offered(2, 0);
      bc0_n(s, h, c)
    },
    BBr0N::L1(s) => { h.offered(2, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
    BBr0N::L2(s) => { h.offered(2, 2);
      bc0_n(s, h, c)
    },
    BBr0N::L3(s) => { h.offered(2, 3);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(2, &x);
  bc0_n(s, h, c)}))}))}))
}
fn bc0_p(s: BC0_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L0, BBr0N::L0); h.chosen();
      bc0_p(s, h, c)
    }
    1 => { let s: BB0_1_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L1, BBr0N::L1); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    2 => { let s: BB0_2_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L2, BBr0N::L2); h.chosen();
      bc0_p(s, h, c)
    }
    _ => { let s: BB0_3_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L3, BBr0N::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
  pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
  bc0_p(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B, c: &mut Clocks| { let c = ticking(c); H::at(1, 0).participant(move |h| astart_b(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 2).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_P, c: &mut Clocks| { let c = ticking(c); H::at(2, 2).participant(move |h| bstart_p(s, h, c)) },
    move |s: AS_A, c: &mut Clocks, t: BS_N, d: &mut Clocks| { let (h, k) = (H::at(0, 0), H::at(1, 2)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_a(s, h, c)), more(move || bstart_n(t, k, d)))) })) { Ok((j0, j1, j2, j3,)) => joined_two(vec![j0, j1, j2, j3], 2, 3, (0, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ta1", n: 2, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 0), (0, 1), (1, 0)], END), (&[], END)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/tb1", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (1, 2), (2, 1), (0, 2), (2, 0)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[], 0), (&[(1, 0), (0, 2), (0, 1)], END), (&[], 0), (&[(2, 0)], END)] }], go: none };
pub static P: Pair = Pair { name: "t5", a: &PA, b: &PB, twin: (0, 1), go };
}
pub mod t6 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, 1, MeshTwo, M, N, P, 3, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type AB0_0_B = MeshOne<SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameB>;
type AB0_0_C = MeshOne<End, RecvTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type AB0_1_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AB0_1_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AB0_2_A = MeshOne<SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>, RecvTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, RoleC<RoleB<RoleB<RoleC<RoleEnd>>>>, NameA>;
type AB0_2_B = MeshOne<RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>>, RecvTimed<u64, 'a', 0, true, -1, true, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type AB0_2_C = MeshOne<SendTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, SendTimed<u64, 'a', 0, true, -1, true, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleA<RoleBroadcast>>, NameC>;
type AB0_3_A = MeshOne<End, RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, RoleC<RoleEnd>, NameA>;
type AB0_3_B = MeshOne<End, RecvTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Big, 'a', 0, true, 1000000000000, false, 'a', End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameB>;
type AB0_3_C = MeshOne<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, SendTimed<Tok, 'a', -1, true, 1000000000000, true, ' ', SendTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Big, 'a', 0, true, 1000000000000, false, 'a', End>>>, RoleB<RoleB<RoleA<RoleB<RoleEnd>>>>, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A), L2(AB0_2_A), L3(AB0_3_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B), L3(AB0_3_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameA>;
type AC0_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameB>;
type AC0_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AB1_0_A = MeshOne<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type AB1_0_B = MeshOne<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleC<RoleA<RoleEnd>>, NameB>;
type AB1_0_C = MeshOne<End, RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', End>, RoleB<RoleEnd>, NameC>;
type AB1_1_A = MeshOne<RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, RecvTimed<i64, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleB<RoleEnd>>, NameA>;
type AB1_1_B = MeshOne<SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>>, RoleC<RoleBroadcast>, NameB>;
type AB1_1_C = MeshOne<SendTimed<i64, ' ', -2, false, -1, false, ' ', End>, RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleB<RoleB<RoleEnd>>>, NameC>;
pub enum ABr1A { L0(AB1_0_A), L1(AB1_1_A) } unsafe impl std::marker::Send for ABr1A {}
pub enum ABr1C { L0(AB1_0_C), L1(AB1_1_C) } unsafe impl std::marker::Send for ABr1C {}
type AC1_A = MeshOne<RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, End, RoleB<RoleEnd>, NameA>;
type AC1_B = MeshOne<SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameB>;
type AC1_C = MeshOne<End, RecvTimed<ABr1C, ' ', -2, false, -1, false, ' ', End>, RoleB<RoleEnd>, NameC>;
type AS_A = MeshOne<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>, NameA>;
type AS_B = MeshOne<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Tok, 'a', 0, true, -1, true, ' ', End>>, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type AS_C = MeshOne<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleBroadcast>, NameC>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0A::L0(s) => { h.offered(2, 0);
      ac1_a(s, h, c)
    },
    ABr0A::L1(s) => { h.offered(2, 1);
      ac0_a(s, h, c)
    },
    ABr0A::L2(s) => { h.offered(2, 2);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      ac0_a(s, h, c)}))}))}))
    },
    ABr0A::L3(s) => { h.offered(2, 3);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
  })
  }))}
fn ac1_a(s: AC1_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr1A::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    ABr1A::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
      ac1_a(s, h, c)}))
    },
  })
  }))}
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(2, &x);
  ac0_a(s, h, c)}))}))}))
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(2, 0);
      ac1_b(s, h, c)
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      ac0_b(s, h, c)
    },
    ABr0B::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)
    },
    ABr0B::L3(s) => { h.offered(2, 3);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn ac1_b(s: AC1_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB1_0_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L0, ABr1C::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB1_1_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L1, ABr1C::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x, ck(c))?; h.sent();
      ac1_b(s, h, c)
    }
  }
  }
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
  ac0_b(s, h, c)
}
fn ac0_c(s: AC0_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L0, ABr0B::L0); h.chosen();
      ac1_c(s, h, c)
    }
    1 => { let s: AB0_1_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L1, ABr0B::L1); h.chosen();
      ac0_c(s, h, c)
    }
    2 => { let s: AB0_2_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L2, ABr0B::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_c(s, h, c)
    }
    _ => { let s: AB0_3_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L3, ABr0B::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn ac1_c(s: AC1_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr1C::L0(s) => { h.offered(1, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr1C::L1(s) => { h.offered(1, 1);
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      ac1_c(s, h, c)
    },
  })
  }
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
  ac0_c(s, h, c)
}
type BB0_0_M = MeshTwo<RecvTimed<u64, 'a', 0, true, 1000000000000, false, 'a', End>, End, RoleN<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<SendTimed<u64, 'a', 0, true, 1000000000000, false, 'a', End>, RecvTimed<i64, 'a', 0, true, -1, true, ' ', RecvTimed<i64, 'a', 0, true, -1, true, ' ', End>>, RoleP<RoleM<RoleP<RoleEnd>>>, NameN>;
type BB0_0_P = MeshTwo<End, SendTimed<i64, 'a', 0, true, -1, true, ' ', SendTimed<i64, 'a', 0, true, -1, true, ' ', End>>, RoleN<RoleN<RoleEnd>>, NameP>;
type BB0_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_1_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_1_P = MeshTwo<End, End, RoleEnd, NameP>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P) } unsafe impl std::marker::Send for BBr0P {}
type BC0_M = MeshTwo<SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, End, RoleM<RoleEnd>, NameP>;
type BS_M = MeshTwo<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, SendTimed<u64, 'a', 0, true, -1, true, ' ', SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleP<RoleN<RoleBroadcast>>>, NameM>;
type BS_N = MeshTwo<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, End, RoleM<RoleM<RoleM<RoleEnd>>>, NameN>;
type BS_P = MeshTwo<RecvTimed<u64, 'a', 0, true, -1, true, ' ', RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, End, RoleM<RoleM<RoleEnd>>, NameP>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L0, BBr0P::L0); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<u64>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_1_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L1, BBr0P::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<u64>(2); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
  bc0_m(s, h, c)
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0N::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<i64>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
  pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
  bc0_n(s, h, c)
}
fn bc0_p(s: BC0_P, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0P::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
  bc0_p(s, h, c)}))
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B, c: &mut Clocks| { let c = ticking(c); H::at(1, 0).participant(move |h| astart_b(s, h, c)) },
    move |s: AS_C, c: &mut Clocks| { let c = ticking(c); H::at(2, 0).participant(move |h| astart_c(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 3).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 3).participant(move |h| bstart_n(s, h, c)) },
    move |s: AS_A, c: &mut Clocks, t: BS_P, d: &mut Clocks| { let (h, k) = (H::at(0, 0), H::at(2, 3)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_a(s, h, c)), more(move || bstart_p(t, k, d)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 3, 3, (0, 2)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ta2", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (1, 0), (2, 0)], 0), states: &[State { chooser: 2, exit: 3, branches: &[(&[], 1), (&[], 0), (&[(2, 1), (2, 0), (0, 1), (1, 0)], 0), (&[(2, 1), (2, 1), (2, 0), (2, 1)], END)] }, State { chooser: 1, exit: 0, branches: &[(&[(1, 2), (0, 1)], END), (&[(2, 0), (1, 2)], 1)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/tb2", n: 3, cancel_sends: true, cancel_choices: true, start: (&[(0, 1), (0, 2), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(2, 1), (1, 0), (2, 1)], END), (&[], END)] }], go: none };
pub static P: Pair = Pair { name: "t6", a: &PA, b: &PB, twin: (0, 2), go };
}
pub mod t7 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, 1, MeshTwo, M, N, P, Q, 4, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<SendTimed<i64, ' ', -2, false, -1, false, ' ', RecvTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_0_B = MeshOne<RecvTimed<i64, ' ', -2, false, -1, false, ' ', SendTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB0_1_A = MeshOne<RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>>, NameA>;
type AB0_1_B = MeshOne<SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleBroadcast>>>>, NameB>;
type AB0_2_A = MeshOne<RecvTimed<Tok, 'a', 0, true, -1, true, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleBroadcast>, NameA>;
type AB0_2_B = MeshOne<SendTimed<Tok, 'a', 0, true, -1, true, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleA<RoleEnd>>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = MeshOne<SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameA>;
type AC0_B = MeshOne<RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleEnd>, NameB>;
type AB1_0_A = MeshOne<RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<String, ' ', -2, false, -1, false, ' ', RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>>, NameA>;
type AB1_0_B = MeshOne<SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<String, ' ', -2, false, -1, false, ' ', SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleBroadcast>>>>, NameB>;
type AB1_1_A = MeshOne<SendTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type AB1_1_B = MeshOne<RecvTimed<Tok, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleA<RoleEnd>>, NameB>;
type AB1_2_A = MeshOne<RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, RoleB<RoleEnd>, NameA>;
type AB1_2_B = MeshOne<SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameB>;
type AB1_3_A = MeshOne<RecvTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleBroadcast>, NameA>;
type AB1_3_B = MeshOne<SendTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleA<RoleEnd>>, NameB>;
pub enum ABr1A { L0(AB1_0_A), L1(AB1_1_A), L2(AB1_2_A), L3(AB1_3_A) } unsafe impl std::marker::Send for ABr1A {}
type AC1_A = MeshOne<RecvTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, RoleB<RoleEnd>, NameA>;
type AC1_B = MeshOne<SendTimed<ABr1A, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameB>;
type AS_A = MeshOne<SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameA>;
type AS_B = MeshOne<RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, RoleA<RoleEnd>, NameB>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  match h.choice() {
    0 => { let s: AB0_0_A = choose_mpst_a_to_all!(s, ck(c), ABr0B::L0); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))}))
    }
    1 => { let s: AB0_1_A = choose_mpst_a_to_all!(s, ck(c), ABr0B::L1); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      ac1_a(s, h, c)}))}))}))}))
    }
    _ => { let s: AB0_2_A = choose_mpst_a_to_all!(s, ck(c), ABr0B::L2); h.chosen();
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(1, &x);
      ac0_a(s, h, c)}))
    }
  }
  }))}
fn ac1_a(s: AC1_A, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(1);
  h_offer!(s, ck(c), {
    ABr1A::L0(s) => { h.offered(1, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      ac1_a(s, h, c)}))}))}))}))
    },
    ABr1A::L1(s) => { h.offered(1, 1);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Tok>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
    ABr1A::L2(s) => { h.offered(1, 2);
      ac1_a(s, h, c)
    },
    ABr1A::L3(s) => { h.offered(1, 3);
      Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      ac0_a(s, h, c)}))
    },
  })
  }))}
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> N {
  ac0_a(s, h, c)
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<i64>(0, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0B::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      ac1_b(s, h, c)
    },
    ABr0B::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); let x = h.mk::<Tok>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)
    },
  })
  }
fn ac1_b(s: AC1_B, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB1_0_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      ac1_b(s, h, c)
    }
    1 => { let s: AB1_1_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L1); h.chosen();
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Tok>(0, &x);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<String>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    2 => { let s: AB1_2_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L2); h.chosen();
      ac1_b(s, h, c)
    }
    _ => { let s: AB1_3_B = choose_mpst_b_to_all!(s, ck(c), ABr1A::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      ac0_b(s, h, c)
    }
  }
  }
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> R {
  ac0_b(s, h, c)
}
type BB0_0_M = MeshTwo<End, RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, End, RoleP<RoleEnd>, NameM>;
type BB0_0_N = MeshTwo<End, SendTimed<Big, ' ', -2, false, -1, false, ' ', SendTimed<Big, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<Big, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleP<RoleQ<RoleEnd>>>, NameN>;
type BB0_0_P = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>, RecvTimed<Big, ' ', -2, false, -1, false, ' ', RecvTimed<Big, ' ', -2, false, -1, false, ' ', End>>, End, RoleN<RoleN<RoleM<RoleEnd>>>, NameP>;
type BB0_0_Q = MeshTwo<End, SendTimed<Big, ' ', -2, false, -1, false, ' ', End>, End, RoleN<RoleEnd>, NameQ>;
type BB0_1_M = MeshTwo<RecvTimed<u64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, SendTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleN<RoleBroadcast>>, NameM>;
type BB0_1_N = MeshTwo<SendTimed<u64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', End>, End, RoleP<RoleM<RoleM<RoleEnd>>>, NameN>;
type BB0_1_P = MeshTwo<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, SendTimed<Option<Vec<u64>>, 'a', 0, true, 1000000000000, false, 'a', End>, End, RoleN<RoleM<RoleM<RoleEnd>>>, NameP>;
type BB0_1_Q = MeshTwo<RecvTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameQ>;
type BB0_2_M = MeshTwo<SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', End>, End, SendTimed<u64, ' ', -2, false, -1, false, ' ', End>, RoleQ<RoleN<RoleEnd>>, NameM>;
type BB0_2_N = MeshTwo<RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', End>, End, End, RoleM<RoleEnd>, NameN>;
type BB0_2_P = MeshTwo<End, End, SendTimed<u64, 'a', 0, true, -1, true, ' ', End>, RoleQ<RoleEnd>, NameP>;
type BB0_2_Q = MeshTwo<RecvTimed<u64, ' ', -2, false, -1, false, ' ', End>, End, RecvTimed<u64, 'a', 0, true, -1, true, ' ', End>, RoleP<RoleM<RoleEnd>>, NameQ>;
type BB0_3_M = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleBroadcast>, NameM>;
type BB0_3_N = MeshTwo<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, End, End, RoleM<RoleM<RoleEnd>>, NameN>;
type BB0_3_P = MeshTwo<RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameP>;
type BB0_3_Q = MeshTwo<RecvTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameQ>;
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N), L3(BB0_3_N) } unsafe impl std::marker::Send for BBr0N {}
pub enum BBr0P { L0(BB0_0_P), L1(BB0_1_P), L2(BB0_2_P), L3(BB0_3_P) } unsafe impl std::marker::Send for BBr0P {}
pub enum BBr0Q { L0(BB0_0_Q), L1(BB0_1_Q), L2(BB0_2_Q), L3(BB0_3_Q) } unsafe impl std::marker::Send for BBr0Q {}
type BC0_M = MeshTwo<SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameM>;
type BC0_N = MeshTwo<RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameN>;
type BC0_P = MeshTwo<RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameP>;
type BC0_Q = MeshTwo<RecvTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, End, End, RoleM<RoleEnd>, NameQ>;
type BS_M = MeshTwo<RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, SendTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleN<RoleP<RoleBroadcast>>>, NameM>;
type BS_N = MeshTwo<SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>>, End, SendTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, RoleM<RoleQ<RoleM<RoleM<RoleEnd>>>>, NameN>;
type BS_P = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0P, ' ', -2, false, -1, false, ' ', End>>, End, RecvTimed<String, 'a', -1, true, 1000000000000, true, ' ', End>, RoleM<RoleQ<RoleM<RoleEnd>>>, NameP>;
type BS_Q = MeshTwo<RecvTimed<BBr0Q, ' ', -2, false, -1, false, ' ', End>, RecvTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, SendTimed<String, 'a', -1, true, 1000000000000, true, ' ', End>, RoleN<RoleP<RoleM<RoleEnd>>>, NameQ>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L0, BBr0P::L0, BBr0Q::L0); h.chosen();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: BB0_1_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L1, BBr0P::L1, BBr0Q::L1); h.chosen();
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(2, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<u64>(1, &x);
      bc0_m(s, h, c)
    }
    2 => { let s: BB0_2_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L2, BBr0P::L2, BBr0Q::L2); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(3); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_3_M = choose_mpst_m_to_all!(s, ck(c), BBr0N::L3, BBr0P::L3, BBr0Q::L3); h.chosen();
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      bc0_m(s, h, c)
    }
  }
  }
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<i64>(1, &x);
  pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<String>(1, &x);
  pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
  bc0_m(s, h, c)
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0N::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(2); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<Big>(3, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); let x = h.mk::<u64>(0); let s = s.send(x, ck(c))?; h.sent();
      bc0_n(s, h, c)
    },
    BBr0N::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0N::L3(s) => { h.offered(0, 3);
      pre!(h, s, m); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
      bc0_n(s, h, c)
    },
  })
  }
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<i64>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(3); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(0); let s = s.send(x, ck(c))?; h.sent();
  bc0_n(s, h, c)
}
fn bc0_p(s: BC0_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0P::L0(s) => { h.offered(0, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Big>(1, &x);
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0P::L1(s) => { h.offered(0, 1);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
      bc0_p(s, h, c)
    },
    BBr0P::L2(s) => { h.offered(0, 2);
      pre!(h, s, m); let x = h.mk::<u64>(3); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0P::L3(s) => { h.offered(0, 3);
      bc0_p(s, h, c)
    },
  })
  }
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<String>(3, &x);
  bc0_p(s, h, c)
}
fn bc0_q(s: BC0_Q, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(0);
  h_offer!(s, ck(c), {
    BBr0Q::L0(s) => { h.offered(0, 0);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    BBr0Q::L1(s) => { h.offered(0, 1);
      bc0_q(s, h, c)
    },
    BBr0Q::L2(s) => { h.offered(0, 2);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<u64>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
    BBr0Q::L3(s) => { h.offered(0, 3);
      bc0_q(s, h, c)
    },
  })
  }))}
fn bstart_q(s: BS_Q, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
  Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<String>(2); let s = s.send(x, ck(c))?; h.sent();
  bc0_q(s, h, c)}))}))
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_B, c: &mut Clocks| { let c = ticking(c); H::at(1, 0).participant(move |h| astart_b(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 2).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_N, c: &mut Clocks| { let c = ticking(c); H::at(1, 2).participant(move |h| bstart_n(s, h, c)) },
    move |s: BS_P, c: &mut Clocks| { let c = ticking(c); H::at(2, 2).participant(move |h| bstart_p(s, h, c)) },
    move |s: AS_A, c: &mut Clocks, t: BS_Q, d: &mut Clocks| { let (h, k) = (H::at(0, 0), H::at(3, 2)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_a(s, h, c)), more(move || bstart_q(t, k, d)))) })) { Ok((j0, j1, j2, j3, j4,)) => joined_two(vec![j0, j1, j2, j3, j4], 2, 4, (0, 3)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ta3", n: 2, cancel_sends: true, cancel_choices: true, start: (&[], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(0, 1), (1, 0), (1, 0)], END), (&[(1, 0), (0, 1), (0, 1), (0, 1)], 1), (&[(1, 0)], 0)] }, State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (1, 0), (0, 1), (0, 1)], 1), (&[(0, 1), (0, 1)], END), (&[], 1), (&[(1, 0)], 0)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/tb3", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(1, 0), (1, 3), (1, 0), (2, 0), (3, 2)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[(1, 2), (1, 2), (2, 0), (3, 1)], END), (&[(2, 1), (2, 0), (1, 0)], 0), (&[(2, 3), (0, 3), (0, 1)], END), (&[(0, 1)], 0)] }], go: none };
pub static P: Pair = Pair { name: "t7", a: &PA, b: &PB, twin: (0, 3), go };
}
pub mod t8 {
use super::tpre::*;
mpstthree::generate!("atmp_interleaved", MeshOne, A, B, C, D, 2, MeshTwo, M, N, P, 2, fork_both);
macro_rules! h_offer { ($s:expr, $c:expr, { $( $p:pat => $r:expr, )+ }) => { offer_mpst!($s, $c, { $( $p => $r, )+ }) } }
type AB0_0_A = MeshOne<RecvTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', End>, End, End, RoleB<RoleEnd>, NameA>;
type AB0_0_B = MeshOne<SendTimed<Option<Vec<u64>>, ' ', -2, false, -1, false, ' ', End>, RecvTimed<String, 'a', 0, true, -1, true, ' ', End>, End, RoleC<RoleA<RoleEnd>>, NameB>;
type AB0_0_C = MeshOne<End, SendTimed<String, 'a', 0, true, -1, true, ' ', End>, End, RoleB<RoleEnd>, NameC>;
type AB0_0_D = MeshOne<End, End, End, RoleEnd, NameD>;
type AB0_1_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, End, RoleC<RoleEnd>, NameA>;
type AB0_1_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, End, RoleC<RoleEnd>, NameB>;
type AB0_1_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AB0_1_D = MeshOne<End, End, RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, End, RoleC<RoleEnd>, NameA>;
type AC0_B = MeshOne<End, RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, End, RoleC<RoleEnd>, NameB>;
type AC0_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>, SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameC>;
type AC0_D = MeshOne<End, End, RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>, RoleC<RoleEnd>, NameD>;
type AS_A = MeshOne<End, RecvTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, RecvTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, RoleD<RoleC<RoleEnd>>, NameA>;
type AS_B = MeshOne<End, RecvTimed<u64, 'a', 0, true, -1, true, ' ', RecvTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<i64, 'a', 0, true, 1000000000000, false, 'a', RecvTimed<String, 'a', 0, true, 1000000000000, false, 'a', End>>, RoleC<RoleD<RoleD<RoleC<RoleEnd>>>>, NameB>;
type AS_C = MeshOne<SendTimed<ABr0A, ' ', -2, false, -1, false, ' ', End>, SendTimed<u64, 'a', 0, true, -1, true, ' ', SendTimed<ABr0B, ' ', -2, false, -1, false, ' ', End>>, RecvTimed<i64, 'a', -1, true, 1000000000000, true, ' ', SendTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>>, RoleB<RoleD<RoleBroadcast>>, NameC>;
type AS_D = MeshOne<SendTimed<(u64, Box<Tok>), ' ', -2, false, -1, false, ' ', End>, SendTimed<i64, 'a', 0, true, 1000000000000, false, 'a', SendTimed<String, 'a', 0, true, 1000000000000, false, 'a', End>>, SendTimed<i64, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<ABr0D, ' ', -2, false, -1, false, ' ', End>>, RoleA<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameD>;
fn ac0_a(s: AC0_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0A::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(1, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0A::L1(s) => { h.offered(2, 1);
      ac0_a(s, h, c)
    },
  })
  }
fn astart_a(s: AS_A, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(3, &x);
  ac0_a(s, h, c)
}
fn ac0_b(s: AC0_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0B::L0(s) => { h.offered(2, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<String>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))}))
    },
    ABr0B::L1(s) => { h.offered(2, 1);
      ac0_b(s, h, c)
    },
  })
  }))}
fn astart_b(s: AS_B, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<i64>(3, &x);
  Ok(more(move || -> N {ipre!(h, s); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<String>(3, &x);
  ac0_b(s, h, c)}))}))}))
}
fn ac0_c(s: AC0_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: AB0_0_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L0, ABr0B::L0, ABr0D::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: AB0_1_C = choose_mpst_c_to_all!(s, ck(c), ABr0A::L1, ABr0B::L1, ABr0D::L1); h.chosen();
      ac0_c(s, h, c)
    }
  }
  }
fn astart_c(s: AS_C, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); h.rx(3); let (x, s) = s.recv(ck(c))?; h.got::<i64>(3, &x);
  ac0_c(s, h, c)
}
fn ac0_d(s: AC0_D, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    ABr0D::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    ABr0D::L1(s) => { h.offered(2, 1);
      ac0_d(s, h, c)
    },
  })
  }
fn astart_d(s: AS_D, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(0); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<i64>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<String>(1); let s = s.send(x, ck(c))?; h.sent();
  pre!(h, s, m); let x = h.mk::<i64>(2); let s = s.send(x, ck(c))?; h.sent();
  ac0_d(s, h, c)
}
type BB0_0_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB0_0_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB0_0_P = MeshTwo<End, End, RoleEnd, NameP>;
type BB0_1_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BB0_1_N = MeshTwo<End, RecvTimed<(u64, Box<Tok>), 'a', -1, true, 1000000000000, true, ' ', RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, RoleP<RoleP<RoleEnd>>, NameN>;
type BB0_1_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<(u64, Box<Tok>), 'a', -1, true, 1000000000000, true, ' ', SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleBroadcast>, NameP>;
type BB0_2_M = MeshTwo<End, RecvTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>>, RoleP<RoleP<RoleEnd>>, NameM>;
type BB0_2_N = MeshTwo<End, SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>, RoleP<RoleEnd>, NameN>;
type BB0_2_P = MeshTwo<SendTimed<Option<Vec<u64>>, 'a', -1, true, 1000000000000, true, ' ', SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', End>, RoleN<RoleM<RoleM<RoleEnd>>>, NameP>;
type BB0_3_M = MeshTwo<SendTimed<Big, 'a', -1, true, 1000000000000, true, ' ', SendTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', End>>, RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, RoleN<RoleN<RoleP<RoleEnd>>>, NameM>;
type BB0_3_N = MeshTwo<RecvTimed<Big, 'a', -1, true, 1000000000000, true, ' ', RecvTimed<(u64, Box<Tok>), 'a', 0, true, 1000000000000, false, 'a', End>>, SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', RecvTimed<BBr1N, ' ', -2, false, -1, false, ' ', End>>, RoleP<RoleM<RoleM<RoleP<RoleEnd>>>>, NameN>;
type BB0_3_P = MeshTwo<SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, ' ', SendTimed<BBr1N, ' ', -2, false, -1, false, ' ', End>>, RoleN<RoleBroadcast>, NameP>;
pub enum BBr0M { L0(BB0_0_M), L1(BB0_1_M), L2(BB0_2_M), L3(BB0_3_M) } unsafe impl std::marker::Send for BBr0M {}
pub enum BBr0N { L0(BB0_0_N), L1(BB0_1_N), L2(BB0_2_N), L3(BB0_3_N) } unsafe impl std::marker::Send for BBr0N {}
type BC0_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BC0_N = MeshTwo<End, RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BC0_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
type BB1_0_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB1_0_N = MeshTwo<End, RecvTimed<u64, 'a', 0, true, -1, true, ' ', End>, RoleP<RoleEnd>, NameN>;
type BB1_0_P = MeshTwo<End, SendTimed<u64, 'a', 0, true, -1, true, ' ', End>, RoleN<RoleEnd>, NameP>;
type BB1_1_M = MeshTwo<End, End, RoleEnd, NameM>;
type BB1_1_N = MeshTwo<End, End, RoleEnd, NameN>;
type BB1_1_P = MeshTwo<End, End, RoleEnd, NameP>;
pub enum BBr1M { L0(BB1_0_M), L1(BB1_1_M) } unsafe impl std::marker::Send for BBr1M {}
pub enum BBr1N { L0(BB1_0_N), L1(BB1_1_N) } unsafe impl std::marker::Send for BBr1N {}
type BC1_M = MeshTwo<End, RecvTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BC1_N = MeshTwo<End, RecvTimed<BBr1N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BC1_P = MeshTwo<SendTimed<BBr1M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr1N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
type BS_M = MeshTwo<End, RecvTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameM>;
type BS_N = MeshTwo<End, RecvTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleP<RoleEnd>, NameN>;
type BS_P = MeshTwo<SendTimed<BBr0M, ' ', -2, false, -1, false, ' ', End>, SendTimed<BBr0N, ' ', -2, false, -1, false, ' ', End>, RoleBroadcast, NameP>;
fn bc0_m(s: BC0_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr0M::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0M::L1(s) => { h.offered(2, 1);
      bc0_m(s, h, c)
    },
    BBr0M::L2(s) => { h.offered(2, 2);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Option<Vec<u64>>>(2, &x);
      pre!(h, s, m); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<Big>(2, &x);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr0M::L3(s) => { h.offered(2, 3);
      pre!(h, s, m); let x = h.mk::<Big>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
      bc1_m(s, h, c)
    },
  })
  }
fn bc1_m(s: BC1_M, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr1M::L0(s) => { h.offered(2, 0);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
    BBr1M::L1(s) => { h.offered(2, 1);
      pre!(h, s, m); h.closing(); h.closed(s.close())
    },
  })
  }
fn bstart_m(s: BS_M, h: H, c: *mut Clocks) -> R {
  bc0_m(s, h, c)
}
fn bc0_n(s: BC0_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr0N::L0(s) => { h.offered(2, 0);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
    BBr0N::L1(s) => { h.offered(2, 1);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(2, &x);
      bc0_n(s, h, c)}))
    },
    BBr0N::L2(s) => { h.offered(2, 2);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    BBr0N::L3(s) => { h.offered(2, 3);
      Ok(more(move || -> N {ipre!(h, s); let x = h.mk::<(u64, Box<Tok>)>(2); let s = s.send(x, ck(c))?; h.sent();
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<Big>(0, &x);
      Ok(more(move || -> N {ipre!(h, s); h.rx(0); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(0, &x);
      bc1_n(s, h, c)}))}))}))
    },
  })
  }))}
fn bc1_n(s: BC1_N, h: H, c: *mut Clocks) -> N {
  Ok(more(move || -> N {ipre!(h, s);
  h.offer(2);
  h_offer!(s, ck(c), {
    BBr1N::L0(s) => { h.offered(2, 0);
      Ok(more(move || -> N {ipre!(h, s); h.rx(2); let (x, s) = s.recv(ck(c))?; h.got::<u64>(2, &x);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))}))
    },
    BBr1N::L1(s) => { h.offered(2, 1);
      Ok(more(move || -> N {ipre!(h, s); h.closing(); h.closed(s.close())?; Ok(Next::Done)}))
    },
  })
  }))}
fn bstart_n(s: BS_N, h: H, c: *mut Clocks) -> N {
  bc0_n(s, h, c)
}
fn bc0_p(s: BC0_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB0_0_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L0, BBr0N::L0); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    1 => { let s: BB0_1_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L1, BBr0N::L1); h.chosen();
      pre!(h, s, m); let x = h.mk::<(u64, Box<Tok>)>(1); let s = s.send(x, ck(c))?; h.sent();
      bc0_p(s, h, c)
    }
    2 => { let s: BB0_2_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L2, BBr0N::L2); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      pre!(h, s, m); let x = h.mk::<Option<Vec<u64>>>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); let x = h.mk::<Big>(0); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB0_3_P = choose_mpst_p_to_all!(s, ck(c), BBr0M::L3, BBr0N::L3); h.chosen();
      pre!(h, s, m); h.rx(1); let (x, s) = s.recv(ck(c))?; h.got::<(u64, Box<Tok>)>(1, &x);
      bc1_p(s, h, c)
    }
  }
  }
fn bc1_p(s: BC1_P, h: H, c: *mut Clocks) -> R {
  pre!(h, s, m);
  match h.choice() {
    0 => { let s: BB1_0_P = choose_mpst_p_to_all!(s, ck(c), BBr1M::L0, BBr1N::L0); h.chosen();
      pre!(h, s, m); let x = h.mk::<u64>(1); let s = s.send(x, ck(c))?; h.sent();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
    _ => { let s: BB1_1_P = choose_mpst_p_to_all!(s, ck(c), BBr1M::L1, BBr1N::L1); h.chosen();
      pre!(h, s, m); h.closing(); h.closed(s.close())
    }
  }
  }
fn bstart_p(s: BS_P, h: H, c: *mut Clocks) -> R {
  bc0_p(s, h, c)
}
pub fn go() {
  match catch(|| fork_both(move |s: AS_A, c: &mut Clocks| { let c = ticking(c); H::at(0, 0).participant(move |h| astart_a(s, h, c)) },
    move |s: AS_C, c: &mut Clocks| { let c = ticking(c); H::at(2, 0).participant(move |h| astart_c(s, h, c)) },
    move |s: AS_D, c: &mut Clocks| { let c = ticking(c); H::at(3, 0).participant(move |h| astart_d(s, h, c)) },
    move |s: BS_M, c: &mut Clocks| { let c = ticking(c); H::at(0, 4).participant(move |h| bstart_m(s, h, c)) },
    move |s: BS_P, c: &mut Clocks| { let c = ticking(c); H::at(2, 4).participant(move |h| bstart_p(s, h, c)) },
    move |s: AS_B, c: &mut Clocks, t: BS_N, d: &mut Clocks| { let (h, k) = (H::at(1, 0), H::at(1, 4)); let (c, d) = (ticking(c), ticking(d)); h.participants(k, move || alternate(more(move || astart_b(s, h, c)), more(move || bstart_n(t, k, d)))) })) { Ok((j0, j1, j2, j3, j4, j5,)) => joined_two(vec![j0, j1, j2, j3, j4, j5], 4, 3, (1, 1)), Err(e) => not_forked(e) }
}
fn none() {}
pub static PA: Proto = Proto { name: "rec_and_cancel/ta4", n: 4, cancel_sends: true, cancel_choices: true, start: (&[(2, 1), (3, 0), (3, 1), (3, 1), (3, 2)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(2, 1), (1, 0)], END), (&[], 0)] }], go: none };
pub static PB: Proto = Proto { name: "rec_and_cancel/tb4", n: 3, cancel_sends: true, cancel_choices: true, start: (&[], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[], END), (&[(2, 1)], 0), (&[(1, 2), (2, 0), (2, 0)], END), (&[(1, 2), (0, 1), (0, 1)], 1)] }, State { chooser: 2, exit: 0, branches: &[(&[(2, 1)], END), (&[], END)] }], go: none };
pub static P: Pair = Pair { name: "t8", a: &PA, b: &PB, twin: (1, 1), go };
}
pub static TIMED: &[&Pair] = &[&t0::P, &t1::P, &t2::P, &t3::P, &t4::P, &t5::P, &t6::P, &t7::P, &t8::P];
