// Generated by sim/gen/gen_solo.py. Do not edit.
pub mod s0 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 3);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 3);
type AS_A = Mesh<Send<String, Send<u64, End>>, Recv<(u64, Box<Tok>), Recv<Option<Vec<u64>>, End>>, RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>, NameA>;
type AS_B = Mesh<Recv<String, Recv<u64, End>>, Send<String, Send<Tok, End>>, RoleA<RoleC<RoleA<RoleC<RoleEnd>>>>, NameB>;
type AS_C = Mesh<Send<(u64, Box<Tok>), Send<Option<Vec<u64>>, End>>, Recv<String, Recv<Tok, End>>, RoleB<RoleA<RoleB<RoleA<RoleEnd>>>>, NameC>;
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C) -> R {
  h(0).pre(); let x = h(0).mk::<String>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<String>(0, &x);
  h(1).pre(); let x = h(1).mk::<String>(2); let s_b = s_b.send(x)?; h(1).sent();
  h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<String>(1, &x);
  h(2).pre(); let x = h(2).mk::<(u64, Box<Tok>)>(0); let s_c = s_c.send(x)?; h(2).sent();
  h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<(u64, Box<Tok>)>(2, &x);
  h(0).pre(); let x = h(0).mk::<u64>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<u64>(0, &x);
  h(1).pre(); let x = h(1).mk::<Tok>(2); let s_b = s_b.send(x)?; h(1).sent();
  h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<Tok>(1, &x);
  h(2).pre(); let x = h(2).mk::<Option<Vec<u64>>>(0); let s_c = s_c.send(x)?; h(2).sent();
  h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(2, &x);
  solo_close(3, move || close_all(s_a, s_b, s_c))
}
pub fn go() { solo(3, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/ring", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (1, 2), (2, 0), (0, 1), (1, 2), (2, 0)], END), states: &[], go };
}
pub mod s1 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 2);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 2);
type AB0_0_A = Mesh<Recv<(u64, Box<Tok>), Recv<ABr0A, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type AB0_0_B = Mesh<Send<(u64, Box<Tok>), Send<ABr0A, End>>, RoleA<RoleBroadcast>, NameB>;
type AB0_1_A = Mesh<Send<String, End>, RoleB<RoleEnd>, NameA>;
type AB0_1_B = Mesh<Recv<String, End>, RoleA<RoleEnd>, NameB>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
type AC0_A = Mesh<Recv<ABr0A, End>, RoleB<RoleEnd>, NameA>;
type AC0_B = Mesh<Send<ABr0A, End>, RoleBroadcast, NameB>;
type AS_A = Mesh<Send<Big, Recv<ABr0A, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type AS_B = Mesh<Recv<Big, Send<ABr0A, End>>, RoleA<RoleBroadcast>, NameB>;
fn c0(s_a: AC0_A, s_b: AC0_B) -> R {
  h(1).pre();
  match h(1).choice() {
    0 => {
      let s_b: AB0_0_B = choose_mpst_b_to_all!(s_b, ABr0A::L0); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      let (s_a,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0);
      h(0).offered(1, 0);
      h(1).pre(); let x = h(1).mk::<(u64, Box<Tok>)>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<(u64, Box<Tok>)>(1, &x);
      c0(s_a, s_b)
    }
    _ => {
      let s_b: AB0_1_B = choose_mpst_b_to_all!(s_b, ABr0A::L1); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      let (s_a,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1);
      h(0).offered(1, 1);
      h(0).pre(); let x = h(0).mk::<String>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<String>(0, &x);
      solo_close(2, move || close_all(s_a, s_b))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B) -> R {
  h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
  c0(s_a, s_b)
}
pub fn go() { solo(2, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/log", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(0, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0)], 0), (&[(0, 1)], END)] }], go };
}
pub mod s2 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 4);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 4);
type AB0_0_A = Mesh<Recv<String, Send<Option<Vec<u64>>, Recv<ABr0A, End>>>, Send<Tok, Recv<i64, End>>, Recv<Tok, End>, RoleB<RoleC<RoleC<RoleB<RoleD<RoleB<RoleEnd>>>>>>, NameA>;
type AB0_0_B = Mesh<Send<String, Recv<Option<Vec<u64>>, Send<ABr0A, End>>>, Send<ABr0C, End>, Send<ABr0D, End>, RoleA<RoleA<RoleBroadcast>>, NameB>;
type AB0_0_C = Mesh<Recv<Tok, Send<i64, End>>, Recv<ABr0C, End>, End, RoleA<RoleA<RoleB<RoleEnd>>>, NameC>;
type AB0_0_D = Mesh<Send<Tok, End>, Recv<ABr0D, End>, End, RoleA<RoleB<RoleEnd>>, NameD>;
type AB0_1_A = Mesh<End, End, End, RoleEnd, NameA>;
type AB0_1_B = Mesh<End, Recv<u64, End>, Send<(u64, Box<Tok>), End>, RoleD<RoleC<RoleEnd>>, NameB>;
type AB0_1_C = Mesh<End, Send<u64, End>, End, RoleB<RoleEnd>, NameC>;
type AB0_1_D = Mesh<End, Recv<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = Mesh<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AC0_B = Mesh<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AC0_C = Mesh<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
type AS_A = Mesh<Recv<i64, Recv<ABr0A, End>>, End, End, RoleB<RoleB<RoleEnd>>, NameA>;
type AS_B = Mesh<Send<i64, Send<ABr0A, End>>, Send<u64, Recv<Big, Send<ABr0C, End>>>, Send<ABr0D, End>, RoleA<RoleC<RoleC<RoleBroadcast>>>, NameB>;
type AS_C = Mesh<End, Recv<u64, Send<Big, Recv<ABr0C, End>>>, End, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type AS_D = Mesh<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C, s_d: AC0_D) -> R {
  h(1).pre();
  match h(1).choice() {
    0 => {
      let s_b: AB0_0_B = choose_mpst_b_to_all!(s_b, ABr0A::L0, ABr0C::L0, ABr0D::L0); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      h(3).pre(); h(3).offer(1);
      let (s_a, s_c, s_d,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_c, ABr0C::L0, s_d, ABr0D::L0);
      h(0).offered(1, 0);
      h(2).offered(1, 0);
      h(3).offered(1, 0);
      h(3).pre(); let x = h(3).mk::<Tok>(0); let s_d = s_d.send(x)?; h(3).sent();
      h(1).pre(); let x = h(1).mk::<String>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<String>(1, &x);
      h(0).pre(); let x = h(0).mk::<Tok>(2); let s_a = s_a.send(x)?; h(0).sent();
      h(2).pre(); h(2).rx(0); let (x, s_c) = s_c.recv()?; h(2).got::<Tok>(0, &x);
      h(2).pre(); let x = h(2).mk::<i64>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<i64>(2, &x);
      h(0).pre(); let x = h(0).mk::<Option<Vec<u64>>>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Option<Vec<u64>>>(0, &x);
      h(0).pre(); h(0).rx(3); let (x, s_a) = s_a.recv()?; h(0).got::<Tok>(3, &x);
      c0(s_a, s_b, s_c, s_d)
    }
    _ => {
      let s_b: AB0_1_B = choose_mpst_b_to_all!(s_b, ABr0A::L1, ABr0C::L1, ABr0D::L1); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      h(3).pre(); h(3).offer(1);
      let (s_a, s_c, s_d,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_c, ABr0C::L1, s_d, ABr0D::L1);
      h(0).offered(1, 1);
      h(2).offered(1, 1);
      h(3).offered(1, 1);
      h(2).pre(); let x = h(2).mk::<u64>(1); let s_c = s_c.send(x)?; h(2).sent();
      h(1).pre(); let x = h(1).mk::<(u64, Box<Tok>)>(3); let s_b = s_b.send(x)?; h(1).sent();
      h(3).pre(); h(3).rx(1); let (x, s_d) = s_d.recv()?; h(3).got::<(u64, Box<Tok>)>(1, &x);
      h(1).pre(); h(1).rx(2); let (x, s_b) = s_b.recv()?; h(1).got::<u64>(2, &x);
      solo_close(4, move || close_all(s_a, s_b, s_c, s_d))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C, s_d: AS_D) -> R {
  h(1).pre(); let x = h(1).mk::<i64>(0); let s_b = s_b.send(x)?; h(1).sent();
  h(1).pre(); let x = h(1).mk::<u64>(2); let s_b = s_b.send(x)?; h(1).sent();
  h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<i64>(1, &x);
  h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<u64>(1, &x);
  h(2).pre(); let x = h(2).mk::<Big>(1); let s_c = s_c.send(x)?; h(2).sent();
  h(1).pre(); h(1).rx(2); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(2, &x);
  c0(s_a, s_b, s_c, s_d)
}
pub fn go() { solo(4, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/cb", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (1, 2), (2, 1)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[(1, 0), (0, 2), (2, 0), (0, 1), (3, 0)], 0), (&[(1, 3), (2, 1)], END)] }], go };
}
pub mod s3 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D, E);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 5);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 5);
type AB0_0_A = Mesh<Send<Tok, End>, Recv<u64, Recv<ABr0A, End>>, End, End, RoleC<RoleB<RoleC<RoleEnd>>>, NameA>;
type AB0_0_B = Mesh<Recv<Tok, End>, Recv<ABr0B, End>, End, End, RoleA<RoleC<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<Send<u64, Send<ABr0A, End>>, Send<ABr0B, End>, Send<String, Send<ABr0D, End>>, Send<ABr0E, End>, RoleA<RoleD<RoleBroadcast>>, NameC>;
type AB0_0_D = Mesh<End, End, Recv<String, Recv<ABr0D, End>>, Recv<(u64, Box<Tok>), End>, RoleC<RoleE<RoleC<RoleEnd>>>, NameD>;
type AB0_0_E = Mesh<End, End, Recv<ABr0E, End>, Send<(u64, Box<Tok>), End>, RoleD<RoleC<RoleEnd>>, NameE>;
type AB0_1_A = Mesh<End, End, End, Recv<Option<Vec<u64>>, End>, RoleE<RoleEnd>, NameA>;
type AB0_1_B = Mesh<End, End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, End, Send<String, End>, RoleE<RoleEnd>, NameC>;
type AB0_1_D = Mesh<End, End, End, End, RoleEnd, NameD>;
type AB0_1_E = Mesh<Send<Option<Vec<u64>>, End>, End, Recv<String, End>, End, RoleC<RoleA<RoleEnd>>, NameE>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
pub enum ABr0E { L0(AB0_0_E), L1(AB0_1_E) } unsafe impl std::marker::Send for ABr0E {}
type AC0_A = Mesh<End, Recv<ABr0A, End>, End, End, RoleC<RoleEnd>, NameA>;
type AC0_B = Mesh<End, Recv<ABr0B, End>, End, End, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Send<ABr0D, End>, Send<ABr0E, End>, RoleBroadcast, NameC>;
type AC0_D = Mesh<End, End, Recv<ABr0D, End>, End, RoleC<RoleEnd>, NameD>;
type AC0_E = Mesh<End, End, Recv<ABr0E, End>, End, RoleC<RoleEnd>, NameE>;
type AS_A = Mesh<Send<Big, End>, Send<(u64, Box<Tok>), Recv<ABr0A, End>>, Send<Big, End>, Send<Big, Recv<(u64, Box<Tok>), End>>, RoleB<RoleC<RoleD<RoleE<RoleE<RoleC<RoleEnd>>>>>>, NameA>;
type AS_B = Mesh<Recv<Big, End>, Recv<ABr0B, End>, End, Send<Big, End>, RoleA<RoleE<RoleC<RoleEnd>>>, NameB>;
type AS_C = Mesh<Recv<(u64, Box<Tok>), Send<ABr0A, End>>, Send<ABr0B, End>, Send<ABr0D, End>, Send<Option<Vec<u64>>, Send<ABr0E, End>>, RoleA<RoleE<RoleBroadcast>>, NameC>;
type AS_D = Mesh<Recv<Big, End>, End, Recv<ABr0D, End>, Send<Big, End>, RoleA<RoleE<RoleC<RoleEnd>>>, NameD>;
type AS_E = Mesh<Recv<Big, Send<(u64, Box<Tok>), End>>, Recv<Big, End>, Recv<Option<Vec<u64>>, Recv<ABr0E, End>>, Recv<Big, End>, RoleA<RoleB<RoleC<RoleD<RoleA<RoleC<RoleEnd>>>>>>, NameE>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C, s_d: AC0_D, s_e: AC0_E) -> R {
  h(2).pre();
  match h(2).choice() {
    0 => {
      let s_c: AB0_0_C = choose_mpst_c_to_all!(s_c, ABr0A::L0, ABr0B::L0, ABr0D::L0, ABr0E::L0); h(2).chosen();
      h(0).pre(); h(0).offer(2);
      h(1).pre(); h(1).offer(2);
      h(3).pre(); h(3).offer(2);
      h(4).pre(); h(4).offer(2);
      let (s_a, s_b, s_d, s_e,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_b, ABr0B::L0, s_d, ABr0D::L0, s_e, ABr0E::L0);
      h(0).offered(2, 0);
      h(1).offered(2, 0);
      h(3).offered(2, 0);
      h(4).offered(2, 0);
      h(2).pre(); let x = h(2).mk::<u64>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<u64>(2, &x);
      h(0).pre(); let x = h(0).mk::<Tok>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Tok>(0, &x);
      h(2).pre(); let x = h(2).mk::<String>(3); let s_c = s_c.send(x)?; h(2).sent();
      h(4).pre(); let x = h(4).mk::<(u64, Box<Tok>)>(3); let s_e = s_e.send(x)?; h(4).sent();
      h(3).pre(); h(3).rx(2); let (x, s_d) = s_d.recv()?; h(3).got::<String>(2, &x);
      h(3).pre(); h(3).rx(4); let (x, s_d) = s_d.recv()?; h(3).got::<(u64, Box<Tok>)>(4, &x);
      c0(s_a, s_b, s_c, s_d, s_e)
    }
    _ => {
      let s_c: AB0_1_C = choose_mpst_c_to_all!(s_c, ABr0A::L1, ABr0B::L1, ABr0D::L1, ABr0E::L1); h(2).chosen();
      h(0).pre(); h(0).offer(2);
      h(1).pre(); h(1).offer(2);
      h(3).pre(); h(3).offer(2);
      h(4).pre(); h(4).offer(2);
      let (s_a, s_b, s_d, s_e,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_b, ABr0B::L1, s_d, ABr0D::L1, s_e, ABr0E::L1);
      h(0).offered(2, 1);
      h(1).offered(2, 1);
      h(3).offered(2, 1);
      h(4).offered(2, 1);
      h(2).pre(); let x = h(2).mk::<String>(4); let s_c = s_c.send(x)?; h(2).sent();
      h(4).pre(); h(4).rx(2); let (x, s_e) = s_e.recv()?; h(4).got::<String>(2, &x);
      h(4).pre(); let x = h(4).mk::<Option<Vec<u64>>>(0); let s_e = s_e.send(x)?; h(4).sent();
      h(0).pre(); h(0).rx(4); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(4, &x);
      solo_close(5, move || close_all(s_a, s_b, s_c, s_d, s_e))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C, s_d: AS_D, s_e: AS_E) -> R {
  h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
  h(0).pre(); let x = h(0).mk::<(u64, Box<Tok>)>(2); let s_a = s_a.send(x)?; h(0).sent();
  h(0).pre(); let x = h(0).mk::<Big>(3); let s_a = s_a.send(x)?; h(0).sent();
  h(2).pre(); h(2).rx(0); let (x, s_c) = s_c.recv()?; h(2).got::<(u64, Box<Tok>)>(0, &x);
  h(2).pre(); let x = h(2).mk::<Option<Vec<u64>>>(4); let s_c = s_c.send(x)?; h(2).sent();
  h(0).pre(); let x = h(0).mk::<Big>(4); let s_a = s_a.send(x)?; h(0).sent();
  h(4).pre(); h(4).rx(0); let (x, s_e) = s_e.recv()?; h(4).got::<Big>(0, &x);
  h(3).pre(); h(3).rx(0); let (x, s_d) = s_d.recv()?; h(3).got::<Big>(0, &x);
  h(1).pre(); let x = h(1).mk::<Big>(4); let s_b = s_b.send(x)?; h(1).sent();
  h(3).pre(); let x = h(3).mk::<Big>(4); let s_d = s_d.send(x)?; h(3).sent();
  h(4).pre(); h(4).rx(1); let (x, s_e) = s_e.recv()?; h(4).got::<Big>(1, &x);
  h(4).pre(); h(4).rx(2); let (x, s_e) = s_e.recv()?; h(4).got::<Option<Vec<u64>>>(2, &x);
  h(4).pre(); h(4).rx(3); let (x, s_e) = s_e.recv()?; h(4).got::<Big>(3, &x);
  h(4).pre(); let x = h(4).mk::<(u64, Box<Tok>)>(0); let s_e = s_e.send(x)?; h(4).sent();
  h(0).pre(); h(0).rx(4); let (x, s_a) = s_a.recv()?; h(0).got::<(u64, Box<Tok>)>(4, &x);
  c0(s_a, s_b, s_c, s_d, s_e)
}
pub fn go() { solo(5, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/five", n: 5, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (0, 2), (0, 3), (0, 4), (1, 4), (2, 4), (3, 4), (4, 0)], 0), states: &[State { chooser: 2, exit: 1, branches: &[(&[(2, 0), (0, 1), (2, 3), (4, 3)], 0), (&[(2, 4), (4, 0)], END)] }], go };
}
pub mod s4 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 2);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 2);
type AB0_0_A = Mesh<End, RoleEnd, NameA>;
type AB0_0_B = Mesh<End, RoleEnd, NameB>;
type AB0_1_A = Mesh<Recv<String, Send<ABr1B, End>>, RoleB<RoleBroadcast>, NameA>;
type AB0_1_B = Mesh<Send<String, Recv<ABr1B, End>>, RoleA<RoleA<RoleEnd>>, NameB>;
type AB0_2_A = Mesh<End, RoleEnd, NameA>;
type AB0_2_B = Mesh<End, RoleEnd, NameB>;
type AB0_3_A = Mesh<Send<Tok, End>, RoleB<RoleEnd>, NameA>;
type AB0_3_B = Mesh<Recv<Tok, End>, RoleA<RoleEnd>, NameB>;
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B), L3(AB0_3_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = Mesh<Send<ABr0B, End>, RoleBroadcast, NameA>;
type AC0_B = Mesh<Recv<ABr0B, End>, RoleA<RoleEnd>, NameB>;
type AB1_0_A = Mesh<Recv<i64, Recv<Option<Vec<u64>>, Send<Big, Send<ABr1B, End>>>>, RoleB<RoleB<RoleB<RoleBroadcast>>>, NameA>;
type AB1_0_B = Mesh<Send<i64, Send<Option<Vec<u64>>, Recv<Big, Recv<ABr1B, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type AB1_1_A = Mesh<Recv<Tok, Recv<String, Recv<Option<Vec<u64>>, Send<Big, Send<ABr1B, End>>>>>, RoleB<RoleB<RoleB<RoleB<RoleBroadcast>>>>, NameA>;
type AB1_1_B = Mesh<Send<Tok, Send<String, Send<Option<Vec<u64>>, Recv<Big, Recv<ABr1B, End>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>>, NameB>;
type AB1_2_A = Mesh<Send<Big, Recv<Option<Vec<u64>>, Send<(u64, Box<Tok>), End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB1_2_B = Mesh<Recv<Big, Send<Option<Vec<u64>>, Recv<(u64, Box<Tok>), End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type AB1_3_A = Mesh<Send<u64, Recv<Tok, Recv<i64, Send<Big, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type AB1_3_B = Mesh<Recv<u64, Send<Tok, Send<i64, Recv<Big, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
pub enum ABr1B { L0(AB1_0_B), L1(AB1_1_B), L2(AB1_2_B), L3(AB1_3_B) } unsafe impl std::marker::Send for ABr1B {}
type AC1_A = Mesh<Send<ABr1B, End>, RoleBroadcast, NameA>;
type AC1_B = Mesh<Recv<ABr1B, End>, RoleA<RoleEnd>, NameB>;
type AS_A = Mesh<Recv<Option<Vec<u64>>, Send<Tok, Send<ABr0B, End>>>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type AS_B = Mesh<Send<Option<Vec<u64>>, Recv<Tok, Recv<ABr0B, End>>>, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
fn c0(s_a: AC0_A, s_b: AC0_B) -> R {
  h(0).pre();
  match h(0).choice() {
    0 => {
      let s_a: AB0_0_A = choose_mpst_a_to_all!(s_a, ABr0B::L0); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr0B::L0);
      h(1).offered(0, 0);
      solo_close(2, move || close_all(s_a, s_b))
    }
    1 => {
      let s_a: AB0_1_A = choose_mpst_a_to_all!(s_a, ABr0B::L1); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr0B::L1);
      h(1).offered(0, 1);
      h(1).pre(); let x = h(1).mk::<String>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<String>(1, &x);
      c1(s_a, s_b)
    }
    2 => {
      let s_a: AB0_2_A = choose_mpst_a_to_all!(s_a, ABr0B::L2); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr0B::L2);
      h(1).offered(0, 2);
      solo_close(2, move || close_all(s_a, s_b))
    }
    _ => {
      let s_a: AB0_3_A = choose_mpst_a_to_all!(s_a, ABr0B::L3); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr0B::L3);
      h(1).offered(0, 3);
      h(0).pre(); let x = h(0).mk::<Tok>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Tok>(0, &x);
      solo_close(2, move || close_all(s_a, s_b))
    }
  }
}
fn c1(s_a: AC1_A, s_b: AC1_B) -> R {
  h(0).pre();
  match h(0).choice() {
    0 => {
      let s_a: AB1_0_A = choose_mpst_a_to_all!(s_a, ABr1B::L0); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr1B::L0);
      h(1).offered(0, 0);
      h(1).pre(); let x = h(1).mk::<i64>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<i64>(1, &x);
      h(1).pre(); let x = h(1).mk::<Option<Vec<u64>>>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(1, &x);
      h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
      c1(s_a, s_b)
    }
    1 => {
      let s_a: AB1_1_A = choose_mpst_a_to_all!(s_a, ABr1B::L1); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr1B::L1);
      h(1).offered(0, 1);
      h(1).pre(); let x = h(1).mk::<Tok>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(1).pre(); let x = h(1).mk::<String>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Tok>(1, &x);
      h(1).pre(); let x = h(1).mk::<Option<Vec<u64>>>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<String>(1, &x);
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(1, &x);
      h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
      c1(s_a, s_b)
    }
    2 => {
      let s_a: AB1_2_A = choose_mpst_a_to_all!(s_a, ABr1B::L2); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr1B::L2);
      h(1).offered(0, 2);
      h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
      h(1).pre(); let x = h(1).mk::<Option<Vec<u64>>>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(1, &x);
      h(0).pre(); let x = h(0).mk::<(u64, Box<Tok>)>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<(u64, Box<Tok>)>(0, &x);
      solo_close(2, move || close_all(s_a, s_b))
    }
    _ => {
      let s_a: AB1_3_A = choose_mpst_a_to_all!(s_a, ABr1B::L3); h(0).chosen();
      h(1).pre(); h(1).offer(0);
      let (s_b,) = mpstthree::offer_mpst_interleaved!(s_b, ABr1B::L3);
      h(1).offered(0, 3);
      h(0).pre(); let x = h(0).mk::<u64>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<u64>(0, &x);
      h(1).pre(); let x = h(1).mk::<Tok>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Tok>(1, &x);
      h(1).pre(); let x = h(1).mk::<i64>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<i64>(1, &x);
      h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
      solo_close(2, move || close_all(s_a, s_b))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B) -> R {
  h(1).pre(); let x = h(1).mk::<Option<Vec<u64>>>(0); let s_b = s_b.send(x)?; h(1).sent();
  h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(1, &x);
  h(0).pre(); let x = h(0).mk::<Tok>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Tok>(0, &x);
  c0(s_a, s_b)
}
pub fn go() { solo(2, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s0", n: 2, cancel_sends: true, cancel_choices: false, start: (&[(1, 0), (0, 1)], 0), states: &[State { chooser: 0, exit: 0, branches: &[(&[], END), (&[(1, 0)], 1), (&[], END), (&[(0, 1)], END)] }, State { chooser: 0, exit: 2, branches: &[(&[(1, 0), (1, 0), (0, 1)], 1), (&[(1, 0), (1, 0), (1, 0), (0, 1)], 1), (&[(0, 1), (1, 0), (0, 1)], END), (&[(0, 1), (1, 0), (1, 0), (0, 1)], END)] }], go };
}
pub mod s5 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 3);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 3);
type AB0_0_A = Mesh<Send<String, Send<Big, End>>, Recv<Tok, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_0_B = Mesh<Recv<String, Recv<Big, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<Send<Tok, End>, End, RoleA<RoleEnd>, NameC>;
type AB0_1_A = Mesh<End, Recv<String, End>, RoleC<RoleEnd>, NameA>;
type AB0_1_B = Mesh<End, Recv<Big, End>, RoleC<RoleEnd>, NameB>;
type AB0_1_C = Mesh<Send<String, End>, Send<Big, End>, RoleB<RoleA<RoleEnd>>, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
type AC0_A = Mesh<End, Recv<ABr0A, End>, RoleC<RoleEnd>, NameA>;
type AC0_B = Mesh<End, Recv<ABr0B, End>, RoleC<RoleEnd>, NameB>;
type AC0_C = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, RoleBroadcast, NameC>;
type AS_A = Mesh<End, Recv<u64, Recv<ABr0A, End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type AS_B = Mesh<End, Recv<ABr0B, End>, RoleC<RoleEnd>, NameB>;
type AS_C = Mesh<Send<u64, Send<ABr0A, End>>, Send<ABr0B, End>, RoleA<RoleBroadcast>, NameC>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C) -> R {
  h(2).pre();
  match h(2).choice() {
    0 => {
      let s_c: AB0_0_C = choose_mpst_c_to_all!(s_c, ABr0A::L0, ABr0B::L0); h(2).chosen();
      h(0).pre(); h(0).offer(2);
      h(1).pre(); h(1).offer(2);
      let (s_a, s_b,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_b, ABr0B::L0);
      h(0).offered(2, 0);
      h(1).offered(2, 0);
      h(2).pre(); let x = h(2).mk::<Tok>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<Tok>(2, &x);
      h(0).pre(); let x = h(0).mk::<String>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<String>(0, &x);
      h(0).pre(); let x = h(0).mk::<Big>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(0, &x);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
    _ => {
      let s_c: AB0_1_C = choose_mpst_c_to_all!(s_c, ABr0A::L1, ABr0B::L1); h(2).chosen();
      h(0).pre(); h(0).offer(2);
      h(1).pre(); h(1).offer(2);
      let (s_a, s_b,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_b, ABr0B::L1);
      h(0).offered(2, 1);
      h(1).offered(2, 1);
      h(2).pre(); let x = h(2).mk::<Big>(1); let s_c = s_c.send(x)?; h(2).sent();
      h(2).pre(); let x = h(2).mk::<String>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<String>(2, &x);
      h(1).pre(); h(1).rx(2); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(2, &x);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C) -> R {
  h(2).pre(); let x = h(2).mk::<u64>(0); let s_c = s_c.send(x)?; h(2).sent();
  h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<u64>(2, &x);
  c0(s_a, s_b, s_c)
}
pub fn go() { solo(3, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s1", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(2, 0)], 0), states: &[State { chooser: 2, exit: 0, branches: &[(&[(2, 0), (0, 1), (0, 1)], END), (&[(2, 1), (2, 0)], END)] }], go };
}
pub mod s6 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 4);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 4);
type AB0_0_A = Mesh<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AB0_0_B = Mesh<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AB0_0_C = Mesh<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AB0_0_D = Mesh<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
type AB0_1_A = Mesh<End, End, Recv<(u64, Box<Tok>), End>, RoleD<RoleEnd>, NameA>;
type AB0_1_B = Mesh<End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, End, RoleEnd, NameC>;
type AB0_1_D = Mesh<Send<(u64, Box<Tok>), End>, End, End, RoleA<RoleEnd>, NameD>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
type AC0_A = Mesh<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AC0_B = Mesh<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AC0_C = Mesh<End, Recv<ABr0C, End>, End, RoleB<RoleEnd>, NameC>;
type AC0_D = Mesh<End, Recv<ABr0D, End>, End, RoleB<RoleEnd>, NameD>;
type AS_A = Mesh<Recv<ABr0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type AS_B = Mesh<Send<ABr0A, End>, Send<ABr0C, End>, Send<ABr0D, End>, RoleBroadcast, NameB>;
type AS_C = Mesh<End, Recv<ABr0C, End>, Send<String, Send<Tok, End>>, RoleD<RoleD<RoleB<RoleEnd>>>, NameC>;
type AS_D = Mesh<End, Recv<ABr0D, End>, Recv<String, Recv<Tok, End>>, RoleC<RoleC<RoleB<RoleEnd>>>, NameD>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C, s_d: AC0_D) -> R {
  h(1).pre();
  match h(1).choice() {
    0 => {
      let s_b: AB0_0_B = choose_mpst_b_to_all!(s_b, ABr0A::L0, ABr0C::L0, ABr0D::L0); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      h(3).pre(); h(3).offer(1);
      let (s_a, s_c, s_d,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_c, ABr0C::L0, s_d, ABr0D::L0);
      h(0).offered(1, 0);
      h(2).offered(1, 0);
      h(3).offered(1, 0);
      c0(s_a, s_b, s_c, s_d)
    }
    _ => {
      let s_b: AB0_1_B = choose_mpst_b_to_all!(s_b, ABr0A::L1, ABr0C::L1, ABr0D::L1); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      h(3).pre(); h(3).offer(1);
      let (s_a, s_c, s_d,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_c, ABr0C::L1, s_d, ABr0D::L1);
      h(0).offered(1, 1);
      h(2).offered(1, 1);
      h(3).offered(1, 1);
      h(3).pre(); let x = h(3).mk::<(u64, Box<Tok>)>(0); let s_d = s_d.send(x)?; h(3).sent();
      h(0).pre(); h(0).rx(3); let (x, s_a) = s_a.recv()?; h(0).got::<(u64, Box<Tok>)>(3, &x);
      solo_close(4, move || close_all(s_a, s_b, s_c, s_d))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C, s_d: AS_D) -> R {
  h(2).pre(); let x = h(2).mk::<String>(3); let s_c = s_c.send(x)?; h(2).sent();
  h(2).pre(); let x = h(2).mk::<Tok>(3); let s_c = s_c.send(x)?; h(2).sent();
  h(3).pre(); h(3).rx(2); let (x, s_d) = s_d.recv()?; h(3).got::<String>(2, &x);
  h(3).pre(); h(3).rx(2); let (x, s_d) = s_d.recv()?; h(3).got::<Tok>(2, &x);
  c0(s_a, s_b, s_c, s_d)
}
pub fn go() { solo(4, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s2", n: 4, cancel_sends: true, cancel_choices: false, start: (&[(2, 3), (2, 3)], 0), states: &[State { chooser: 1, exit: 1, branches: &[(&[], 0), (&[(3, 0)], END)] }], go };
}
pub mod s7 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D, E);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 5);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 5);
type AB0_0_A = Mesh<End, End, End, End, RoleEnd, NameA>;
type AB0_0_B = Mesh<End, End, End, Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), End>>, RoleE<RoleE<RoleEnd>>, NameB>;
type AB0_0_C = Mesh<End, End, End, End, RoleEnd, NameC>;
type AB0_0_D = Mesh<End, End, End, Send<Big, End>, RoleE<RoleEnd>, NameD>;
type AB0_0_E = Mesh<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), End>>, End, Recv<Big, End>, RoleD<RoleB<RoleB<RoleEnd>>>, NameE>;
type AB0_1_A = Mesh<End, End, End, End, RoleEnd, NameA>;
type AB0_1_B = Mesh<End, End, End, End, RoleEnd, NameB>;
type AB0_1_C = Mesh<End, End, End, End, RoleEnd, NameC>;
type AB0_1_D = Mesh<End, End, End, End, RoleEnd, NameD>;
type AB0_1_E = Mesh<End, End, End, End, RoleEnd, NameE>;
type AB0_2_A = Mesh<End, End, End, End, RoleEnd, NameA>;
type AB0_2_B = Mesh<End, End, End, End, RoleEnd, NameB>;
type AB0_2_C = Mesh<End, End, End, End, RoleEnd, NameC>;
type AB0_2_D = Mesh<End, End, End, End, RoleEnd, NameD>;
type AB0_2_E = Mesh<End, End, End, End, RoleEnd, NameE>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A), L2(AB0_2_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B), L2(AB0_2_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0E { L0(AB0_0_E), L1(AB0_1_E), L2(AB0_2_E) } unsafe impl std::marker::Send for ABr0E {}
type AC0_A = Mesh<End, End, Recv<ABr0A, End>, End, RoleD<RoleEnd>, NameA>;
type AC0_B = Mesh<End, End, Recv<ABr0B, End>, End, RoleD<RoleEnd>, NameB>;
type AC0_C = Mesh<End, End, Recv<ABr0C, End>, End, RoleD<RoleEnd>, NameC>;
type AC0_D = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Send<ABr0C, End>, Send<ABr0E, End>, RoleBroadcast, NameD>;
type AC0_E = Mesh<End, End, End, Recv<ABr0E, End>, RoleD<RoleEnd>, NameE>;
type AS_A = Mesh<End, End, Recv<ABr0A, End>, End, RoleD<RoleEnd>, NameA>;
type AS_B = Mesh<End, End, Recv<ABr0B, End>, End, RoleD<RoleEnd>, NameB>;
type AS_C = Mesh<End, End, Send<Tok, Recv<ABr0C, End>>, End, RoleD<RoleD<RoleEnd>>, NameC>;
type AS_D = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Recv<Tok, Send<ABr0C, End>>, Recv<String, Send<ABr0E, End>>, RoleC<RoleE<RoleBroadcast>>, NameD>;
type AS_E = Mesh<End, End, End, Send<String, Recv<ABr0E, End>>, RoleD<RoleD<RoleEnd>>, NameE>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C, s_d: AC0_D, s_e: AC0_E) -> R {
  h(3).pre();
  match h(3).choice() {
    0 => {
      let s_d: AB0_0_D = choose_mpst_d_to_all!(s_d, ABr0A::L0, ABr0B::L0, ABr0C::L0, ABr0E::L0); h(3).chosen();
      h(0).pre(); h(0).offer(3);
      h(1).pre(); h(1).offer(3);
      h(2).pre(); h(2).offer(3);
      h(4).pre(); h(4).offer(3);
      let (s_a, s_b, s_c, s_e,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_b, ABr0B::L0, s_c, ABr0C::L0, s_e, ABr0E::L0);
      h(0).offered(3, 0);
      h(1).offered(3, 0);
      h(2).offered(3, 0);
      h(4).offered(3, 0);
      h(1).pre(); let x = h(1).mk::<(u64, Box<Tok>)>(4); let s_b = s_b.send(x)?; h(1).sent();
      h(3).pre(); let x = h(3).mk::<Big>(4); let s_d = s_d.send(x)?; h(3).sent();
      h(4).pre(); h(4).rx(3); let (x, s_e) = s_e.recv()?; h(4).got::<Big>(3, &x);
      h(4).pre(); h(4).rx(1); let (x, s_e) = s_e.recv()?; h(4).got::<(u64, Box<Tok>)>(1, &x);
      h(4).pre(); let x = h(4).mk::<(u64, Box<Tok>)>(1); let s_e = s_e.send(x)?; h(4).sent();
      h(1).pre(); h(1).rx(4); let (x, s_b) = s_b.recv()?; h(1).got::<(u64, Box<Tok>)>(4, &x);
      solo_close(5, move || close_all(s_a, s_b, s_c, s_d, s_e))
    }
    1 => {
      let s_d: AB0_1_D = choose_mpst_d_to_all!(s_d, ABr0A::L1, ABr0B::L1, ABr0C::L1, ABr0E::L1); h(3).chosen();
      h(0).pre(); h(0).offer(3);
      h(1).pre(); h(1).offer(3);
      h(2).pre(); h(2).offer(3);
      h(4).pre(); h(4).offer(3);
      let (s_a, s_b, s_c, s_e,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_b, ABr0B::L1, s_c, ABr0C::L1, s_e, ABr0E::L1);
      h(0).offered(3, 1);
      h(1).offered(3, 1);
      h(2).offered(3, 1);
      h(4).offered(3, 1);
      solo_close(5, move || close_all(s_a, s_b, s_c, s_d, s_e))
    }
    _ => {
      let s_d: AB0_2_D = choose_mpst_d_to_all!(s_d, ABr0A::L2, ABr0B::L2, ABr0C::L2, ABr0E::L2); h(3).chosen();
      h(0).pre(); h(0).offer(3);
      h(1).pre(); h(1).offer(3);
      h(2).pre(); h(2).offer(3);
      h(4).pre(); h(4).offer(3);
      let (s_a, s_b, s_c, s_e,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L2, s_b, ABr0B::L2, s_c, ABr0C::L2, s_e, ABr0E::L2);
      h(0).offered(3, 2);
      h(1).offered(3, 2);
      h(2).offered(3, 2);
      h(4).offered(3, 2);
      solo_close(5, move || close_all(s_a, s_b, s_c, s_d, s_e))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C, s_d: AS_D, s_e: AS_E) -> R {
  h(4).pre(); let x = h(4).mk::<String>(3); let s_e = s_e.send(x)?; h(4).sent();
  h(2).pre(); let x = h(2).mk::<Tok>(3); let s_c = s_c.send(x)?; h(2).sent();
  h(3).pre(); h(3).rx(2); let (x, s_d) = s_d.recv()?; h(3).got::<Tok>(2, &x);
  h(3).pre(); h(3).rx(4); let (x, s_d) = s_d.recv()?; h(3).got::<String>(4, &x);
  c0(s_a, s_b, s_c, s_d, s_e)
}
pub fn go() { solo(5, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s3", n: 5, cancel_sends: true, cancel_choices: false, start: (&[(2, 3), (4, 3)], 0), states: &[State { chooser: 3, exit: 0, branches: &[(&[(3, 4), (1, 4), (4, 1)], END), (&[], END), (&[], END)] }], go };
}
pub mod s8 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C, D, E, F);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 6);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 6);
type AB0_0_A = Mesh<Send<Tok, End>, End, End, End, End, RoleB<RoleEnd>, NameA>;
type AB0_0_B = Mesh<Recv<Tok, End>, End, End, End, End, RoleA<RoleEnd>, NameB>;
type AB0_0_C = Mesh<End, End, End, End, End, RoleEnd, NameC>;
type AB0_0_D = Mesh<End, End, End, End, End, RoleEnd, NameD>;
type AB0_0_E = Mesh<End, End, End, End, End, RoleEnd, NameE>;
type AB0_0_F = Mesh<End, End, End, End, End, RoleEnd, NameF>;
type AB0_1_A = Mesh<End, End, End, Recv<ABr0A, End>, End, RoleE<RoleEnd>, NameA>;
type AB0_1_B = Mesh<End, End, End, Recv<ABr0B, End>, End, RoleE<RoleEnd>, NameB>;
type AB0_1_C = Mesh<End, End, End, Recv<ABr0C, End>, Send<String, End>, RoleF<RoleE<RoleEnd>>, NameC>;
type AB0_1_D = Mesh<End, End, End, Send<u64, Recv<ABr0D, End>>, End, RoleE<RoleE<RoleEnd>>, NameD>;
type AB0_1_E = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Send<ABr0C, End>, Recv<u64, Send<ABr0D, End>>, Send<ABr0F, End>, RoleD<RoleBroadcast>, NameE>;
type AB0_1_F = Mesh<End, End, Recv<String, End>, End, Recv<ABr0F, End>, RoleC<RoleE<RoleEnd>>, NameF>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0B { L0(AB0_0_B), L1(AB0_1_B) } unsafe impl std::marker::Send for ABr0B {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C) } unsafe impl std::marker::Send for ABr0C {}
pub enum ABr0D { L0(AB0_0_D), L1(AB0_1_D) } unsafe impl std::marker::Send for ABr0D {}
pub enum ABr0F { L0(AB0_0_F), L1(AB0_1_F) } unsafe impl std::marker::Send for ABr0F {}
type AC0_A = Mesh<End, End, End, Recv<ABr0A, End>, End, RoleE<RoleEnd>, NameA>;
type AC0_B = Mesh<End, End, End, Recv<ABr0B, End>, End, RoleE<RoleEnd>, NameB>;
type AC0_C = Mesh<End, End, End, Recv<ABr0C, End>, End, RoleE<RoleEnd>, NameC>;
type AC0_D = Mesh<End, End, End, Recv<ABr0D, End>, End, RoleE<RoleEnd>, NameD>;
type AC0_E = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Send<ABr0C, End>, Send<ABr0D, End>, Send<ABr0F, End>, RoleBroadcast, NameE>;
type AC0_F = Mesh<End, End, End, End, Recv<ABr0F, End>, RoleE<RoleEnd>, NameF>;
type AS_A = Mesh<End, End, End, Recv<ABr0A, End>, End, RoleE<RoleEnd>, NameA>;
type AS_B = Mesh<End, End, End, Recv<ABr0B, End>, End, RoleE<RoleEnd>, NameB>;
type AS_C = Mesh<End, End, End, Recv<ABr0C, End>, End, RoleE<RoleEnd>, NameC>;
type AS_D = Mesh<End, End, End, Recv<ABr0D, End>, End, RoleE<RoleEnd>, NameD>;
type AS_E = Mesh<Send<ABr0A, End>, Send<ABr0B, End>, Send<ABr0C, End>, Send<ABr0D, End>, Send<ABr0F, End>, RoleBroadcast, NameE>;
type AS_F = Mesh<End, End, End, End, Recv<ABr0F, End>, RoleE<RoleEnd>, NameF>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C, s_d: AC0_D, s_e: AC0_E, s_f: AC0_F) -> R {
  h(4).pre();
  match h(4).choice() {
    0 => {
      let s_e: AB0_0_E = choose_mpst_e_to_all!(s_e, ABr0A::L0, ABr0B::L0, ABr0C::L0, ABr0D::L0, ABr0F::L0); h(4).chosen();
      h(0).pre(); h(0).offer(4);
      h(1).pre(); h(1).offer(4);
      h(2).pre(); h(2).offer(4);
      h(3).pre(); h(3).offer(4);
      h(5).pre(); h(5).offer(4);
      let (s_a, s_b, s_c, s_d, s_f,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_b, ABr0B::L0, s_c, ABr0C::L0, s_d, ABr0D::L0, s_f, ABr0F::L0);
      h(0).offered(4, 0);
      h(1).offered(4, 0);
      h(2).offered(4, 0);
      h(3).offered(4, 0);
      h(5).offered(4, 0);
      h(0).pre(); let x = h(0).mk::<Tok>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Tok>(0, &x);
      solo_close(6, move || close_all(s_a, s_b, s_c, s_d, s_e, s_f))
    }
    _ => {
      let s_e: AB0_1_E = choose_mpst_e_to_all!(s_e, ABr0A::L1, ABr0B::L1, ABr0C::L1, ABr0D::L1, ABr0F::L1); h(4).chosen();
      h(0).pre(); h(0).offer(4);
      h(1).pre(); h(1).offer(4);
      h(2).pre(); h(2).offer(4);
      h(3).pre(); h(3).offer(4);
      h(5).pre(); h(5).offer(4);
      let (s_a, s_b, s_c, s_d, s_f,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_b, ABr0B::L1, s_c, ABr0C::L1, s_d, ABr0D::L1, s_f, ABr0F::L1);
      h(0).offered(4, 1);
      h(1).offered(4, 1);
      h(2).offered(4, 1);
      h(3).offered(4, 1);
      h(5).offered(4, 1);
      h(3).pre(); let x = h(3).mk::<u64>(4); let s_d = s_d.send(x)?; h(3).sent();
      h(2).pre(); let x = h(2).mk::<String>(5); let s_c = s_c.send(x)?; h(2).sent();
      h(4).pre(); h(4).rx(3); let (x, s_e) = s_e.recv()?; h(4).got::<u64>(3, &x);
      h(5).pre(); h(5).rx(2); let (x, s_f) = s_f.recv()?; h(5).got::<String>(2, &x);
      c0(s_a, s_b, s_c, s_d, s_e, s_f)
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C, s_d: AS_D, s_e: AS_E, s_f: AS_F) -> R {
  c0(s_a, s_b, s_c, s_d, s_e, s_f)
}
pub fn go() { solo(6, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s4", n: 6, cancel_sends: true, cancel_choices: false, start: (&[], 0), states: &[State { chooser: 4, exit: 0, branches: &[(&[(0, 1)], END), (&[(3, 4), (2, 5)], 0)] }], go };
}
pub mod s9 {
use super::pre::*;
mpstthree::generate!("rec_and_cancel", Mesh, A, B, C);
mpstthree::close_mpst_interleaved!(close_all, Mesh, 3);
mpstthree::fork_mpst_multi_solo!(fork_solo, Mesh, 3);
type AB0_0_A = Mesh<End, End, RoleEnd, NameA>;
type AB0_0_B = Mesh<End, End, RoleEnd, NameB>;
type AB0_0_C = Mesh<End, End, RoleEnd, NameC>;
type AB0_1_A = Mesh<Recv<String, End>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleEnd>>, NameA>;
type AB0_1_B = Mesh<Send<String, End>, Send<Tok, Send<Option<Vec<u64>>, End>>, RoleC<RoleA<RoleC<RoleEnd>>>, NameB>;
type AB0_1_C = Mesh<Send<Option<Vec<u64>>, End>, Recv<Tok, Recv<Option<Vec<u64>>, End>>, RoleB<RoleA<RoleB<RoleEnd>>>, NameC>;
type AB0_2_A = Mesh<End, End, RoleEnd, NameA>;
type AB0_2_B = Mesh<End, End, RoleEnd, NameB>;
type AB0_2_C = Mesh<End, End, RoleEnd, NameC>;
type AB0_3_A = Mesh<Send<Option<Vec<u64>>, Send<i64, End>>, Recv<Tok, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type AB0_3_B = Mesh<Recv<Option<Vec<u64>>, Recv<i64, End>>, Recv<Big, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type AB0_3_C = Mesh<Send<Tok, End>, Send<Big, End>, RoleA<RoleB<RoleEnd>>, NameC>;
pub enum ABr0A { L0(AB0_0_A), L1(AB0_1_A), L2(AB0_2_A), L3(AB0_3_A) } unsafe impl std::marker::Send for ABr0A {}
pub enum ABr0C { L0(AB0_0_C), L1(AB0_1_C), L2(AB0_2_C), L3(AB0_3_C) } unsafe impl std::marker::Send for ABr0C {}
type AC0_A = Mesh<Recv<ABr0A, End>, End, RoleB<RoleEnd>, NameA>;
type AC0_B = Mesh<Send<ABr0A, End>, Send<ABr0C, End>, RoleBroadcast, NameB>;
type AC0_C = Mesh<End, Recv<ABr0C, End>, RoleB<RoleEnd>, NameC>;
type AS_A = Mesh<Send<Option<Vec<u64>>, Recv<ABr0A, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type AS_B = Mesh<Recv<Option<Vec<u64>>, Send<ABr0A, End>>, Recv<u64, Send<Tok, Send<ABr0C, End>>>, RoleA<RoleC<RoleC<RoleBroadcast>>>, NameB>;
type AS_C = Mesh<End, Send<u64, Recv<Tok, Recv<ABr0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
fn c0(s_a: AC0_A, s_b: AC0_B, s_c: AC0_C) -> R {
  h(1).pre();
  match h(1).choice() {
    0 => {
      let s_b: AB0_0_B = choose_mpst_b_to_all!(s_b, ABr0A::L0, ABr0C::L0); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      let (s_a, s_c,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L0, s_c, ABr0C::L0);
      h(0).offered(1, 0);
      h(2).offered(1, 0);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
    1 => {
      let s_b: AB0_1_B = choose_mpst_b_to_all!(s_b, ABr0A::L1, ABr0C::L1); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      let (s_a, s_c,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L1, s_c, ABr0C::L1);
      h(0).offered(1, 1);
      h(2).offered(1, 1);
      h(1).pre(); let x = h(1).mk::<Tok>(2); let s_b = s_b.send(x)?; h(1).sent();
      h(1).pre(); let x = h(1).mk::<String>(0); let s_b = s_b.send(x)?; h(1).sent();
      h(1).pre(); let x = h(1).mk::<Option<Vec<u64>>>(2); let s_b = s_b.send(x)?; h(1).sent();
      h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<Tok>(1, &x);
      h(2).pre(); let x = h(2).mk::<Option<Vec<u64>>>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<Option<Vec<u64>>>(1, &x);
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<Option<Vec<u64>>>(2, &x);
      h(0).pre(); h(0).rx(1); let (x, s_a) = s_a.recv()?; h(0).got::<String>(1, &x);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
    2 => {
      let s_b: AB0_2_B = choose_mpst_b_to_all!(s_b, ABr0A::L2, ABr0C::L2); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      let (s_a, s_c,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L2, s_c, ABr0C::L2);
      h(0).offered(1, 2);
      h(2).offered(1, 2);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
    _ => {
      let s_b: AB0_3_B = choose_mpst_b_to_all!(s_b, ABr0A::L3, ABr0C::L3); h(1).chosen();
      h(0).pre(); h(0).offer(1);
      h(2).pre(); h(2).offer(1);
      let (s_a, s_c,) = mpstthree::offer_mpst_interleaved!(s_a, ABr0A::L3, s_c, ABr0C::L3);
      h(0).offered(1, 3);
      h(2).offered(1, 3);
      h(2).pre(); let x = h(2).mk::<Tok>(0); let s_c = s_c.send(x)?; h(2).sent();
      h(0).pre(); h(0).rx(2); let (x, s_a) = s_a.recv()?; h(0).got::<Tok>(2, &x);
      h(0).pre(); let x = h(0).mk::<Option<Vec<u64>>>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Option<Vec<u64>>>(0, &x);
      h(0).pre(); let x = h(0).mk::<i64>(1); let s_a = s_a.send(x)?; h(0).sent();
      h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<i64>(0, &x);
      h(2).pre(); let x = h(2).mk::<Big>(1); let s_c = s_c.send(x)?; h(2).sent();
      h(1).pre(); h(1).rx(2); let (x, s_b) = s_b.recv()?; h(1).got::<Big>(2, &x);
      solo_close(3, move || close_all(s_a, s_b, s_c))
    }
  }
}
fn start(s_a: AS_A, s_b: AS_B, s_c: AS_C) -> R {
  h(2).pre(); let x = h(2).mk::<u64>(1); let s_c = s_c.send(x)?; h(2).sent();
  h(0).pre(); let x = h(0).mk::<Option<Vec<u64>>>(1); let s_a = s_a.send(x)?; h(0).sent();
  h(1).pre(); h(1).rx(0); let (x, s_b) = s_b.recv()?; h(1).got::<Option<Vec<u64>>>(0, &x);
  h(1).pre(); h(1).rx(2); let (x, s_b) = s_b.recv()?; h(1).got::<u64>(2, &x);
  h(1).pre(); let x = h(1).mk::<Tok>(2); let s_b = s_b.send(x)?; h(1).sent();
  h(2).pre(); h(2).rx(1); let (x, s_c) = s_c.recv()?; h(2).got::<Tok>(1, &x);
  c0(s_a, s_b, s_c)
}
pub fn go() { solo(3, || fork_solo(start)) }
pub static P: Proto = Proto { name: "rec_and_cancel/s5", n: 3, cancel_sends: true, cancel_choices: false, start: (&[(0, 1), (2, 1), (1, 2)], 0), states: &[State { chooser: 1, exit: 0, branches: &[(&[], END), (&[(1, 2), (2, 0), (1, 0), (1, 2)], END), (&[], END), (&[(2, 0), (0, 1), (0, 1), (2, 1)], END)] }], go };
}
pub static SOLO: &[&Proto] = &[&s0::P, &s1::P, &s2::P, &s3::P, &s4::P, &s5::P, &s6::P, &s7::P, &s8::P, &s9::P];
