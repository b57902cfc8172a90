// Generated by sim/gen/gen_check.py. Do not edit.
const COMPILED: &[&str] = &["u64", "i64", "String", "Tok", "(u64,Box<Tok>)", "Big", "Option<Vec<u64>>", "()", "u8"];
pub mod c0 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<Option<Vec<u64>>, Recv<Option<Vec<u64>>, End>>, Recv<Tok, Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleB<RoleB<RoleC<RoleC<RoleEnd>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Option<Vec<u64>>, Send<Option<Vec<u64>>, End>>, Recv<Br0B, End>, RoleA<RoleA<RoleC<RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<Tok, Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B) } unsafe impl std::marker::Send for Br0B {}
type S_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<(u64, Box<Tok>), Recv<Br0A, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Br0B, End>, RoleC<RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<(u64, Box<Tok>), Send<Br0A, End>>>, Send<Br0B, End>, RoleA<RoleA<RoleBroadcast>>, NameC>;
mpstthree::checker_concat_impl!([Br0A, L0, Br0B, L0], [Br0A, L1, Br0B, L1]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C => [B0_0_C, Br0A, L0, Br0B, L0], [B0_1_C, Br0A, L1, Br0B, L1])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(2, 0, 1004), (0, 2, 1004)], next: Some(0) }, states: vec![(2, vec![("L0".to_string(), super::Body { msgs: vec![(2, 0, 1003), (0, 1, 1006), (1, 0, 1006), (0, 2, 1004)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![], next: None })])], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c1 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<(), End>, Recv<Br1A, End>, RoleB<RoleC<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), End>, Recv<Br1B, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_1_A = MeshedChannels<Recv<Br0A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br0A, End>, Send<Option<Vec<u64>>, Recv<(), Send<Br0C, End>>>, RoleC<RoleC<RoleBroadcast>>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<Option<Vec<u64>>, Send<(), Recv<Br0C, End>>>, RoleB<RoleB<RoleB<RoleEnd>>>, NameC>;
type B0_2_A = MeshedChannels<End, Send<Big, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<Recv<Big, End>, End, RoleA<RoleEnd>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Recv<Option<Vec<u64>>, End>, RoleC<RoleB<RoleB<RoleEnd>>>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type B1_0_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_1_B = MeshedChannels<End, Recv<i64, End>, RoleC<RoleEnd>, NameB>;
type B1_1_C = MeshedChannels<End, Send<i64, End>, RoleB<RoleEnd>, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Send<u8, Recv<Br1B, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Recv<u8, Send<Br1B, End>>, RoleB<RoleBroadcast>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B) } unsafe impl std::marker::Send for Br1B {}
type S_A = MeshedChannels<Send<(u64, Box<Tok>), Recv<Br0A, End>>, Send<String, End>, RoleB<RoleC<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Recv<(u64, Box<Tok>), Send<Br0A, End>>, Send<Br0C, End>, RoleA<RoleBroadcast>, NameB>;
type S_C = MeshedChannels<Recv<String, End>, Recv<Br0C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
mpstthree::checker_concat_impl!([Br0A, L0, Br0C, L0], [Br0A, L1, Br0C, L1], [Br0A, L2, Br0C, L2], [Br1A, L0, Br1B, L0], [Br1A, L1, Br1B, L1], [Br1A, L2, Br1B, L2]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C => [B0_0_B, Br0A, L0, Br0C, L0], [B0_1_B, Br0A, L1, Br0C, L1], [B0_2_B, Br0A, L2, Br0C, L2], [B1_0_C, Br1A, L0, Br1B, L0], [B1_1_C, Br1A, L1, Br1B, L1], [B1_2_C, Br1A, L2, Br1B, L2])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 1, 1004), (0, 2, 1002)], next: Some(0) }, states: vec![(1, vec![("L0".to_string(), super::Body { msgs: vec![(1, 0, 1007)], next: Some(1) }), ("L1".to_string(), super::Body { msgs: vec![(1, 2, 1006), (2, 1, 1007)], next: Some(0) }), ("L2".to_string(), super::Body { msgs: vec![(0, 2, 1005)], next: None })]), (2, vec![("L0".to_string(), super::Body { msgs: vec![(2, 0, 1006), (0, 1, 1004)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![(2, 1, 1001)], next: None }), ("L2".to_string(), super::Body { msgs: vec![(1, 2, 1008)], next: Some(1) })])], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c2 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Send<Tok, Recv<Br1A, End>>, End, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Br1A, End>>, Send<Br1C, End>, RoleA<RoleBroadcast>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<Br1C, End>, RoleB<RoleEnd>, NameC>;
type B0_1_A = MeshedChannels<Recv<Br1A, End>, End, RoleB<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<Send<Br1A, End>, Send<u8, Send<Br1C, End>>, RoleC<RoleBroadcast>, NameB>;
type B0_1_C = MeshedChannels<End, Recv<u8, Recv<Br1C, End>>, RoleB<RoleB<RoleEnd>>, NameC>;
type B0_2_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_2_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_2_C = MeshedChannels<End, End, RoleEnd, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type B1_0_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type B1_0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<Br1A, End>, Send<(u64, Box<Tok>), End>, RoleC<RoleB<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<Send<Br1A, End>, Send<Br1C, End>, RoleBroadcast, NameB>;
type B1_1_C = MeshedChannels<Recv<(u64, Box<Tok>), End>, Recv<Br1C, End>, RoleA<RoleB<RoleEnd>>, NameC>;
type B1_2_A = MeshedChannels<Recv<Option<Vec<u64>>, End>, End, RoleB<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Tok, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<End, Send<Tok, End>, RoleB<RoleEnd>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1C { L0(B1_0_C), L1(B1_1_C), L2(B1_2_C) } unsafe impl std::marker::Send for Br1C {}
type S_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<Recv<Br0B, End>, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
mpstthree::checker_concat_impl!([Br0B, L0, Br0C, L0], [Br0B, L1, Br0C, L1], [Br0B, L2, Br0C, L2], [Br1A, L0, Br1C, L0], [Br1A, L1, Br1C, L1], [Br1A, L2, Br1C, L2]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C => [B0_0_A, Br0B, L0, Br0C, L0], [B0_1_A, Br0B, L1, Br0C, L1], [B0_2_A, Br0B, L2, Br0C, L2], [B1_0_B, Br1A, L0, Br1C, L0], [B1_1_B, Br1A, L1, Br1C, L1], [B1_2_B, Br1A, L2, Br1C, L2])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![], next: Some(0) }, states: vec![(0, vec![("L0".to_string(), super::Body { msgs: vec![(0, 1, 1003)], next: Some(1) }), ("L1".to_string(), super::Body { msgs: vec![(1, 2, 1008)], next: Some(1) }), ("L2".to_string(), super::Body { msgs: vec![], next: None })]), (1, vec![("L0".to_string(), super::Body { msgs: vec![], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![(0, 2, 1004)], next: Some(1) }), ("L2".to_string(), super::Body { msgs: vec![(1, 0, 1006), (2, 1, 1003)], next: None })])], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c3 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, Alpha, B, M, Zed);
type B0_0_Alpha = MeshedChannels<Send<Big, End>, End, Recv<String, Recv<Br0Alpha, End>>, RoleZed<RoleB<RoleZed<RoleEnd>>>, NameAlpha>;
type B0_0_B = MeshedChannels<Recv<Big, End>, Send<(u64, Box<Tok>), End>, Recv<Br0B, End>, RoleAlpha<RoleM<RoleZed<RoleEnd>>>, NameB>;
type B0_0_M = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, Send<(u64, Box<Tok>), Recv<Br0M, End>>, RoleB<RoleZed<RoleZed<RoleEnd>>>, NameM>;
type B0_0_Zed = MeshedChannels<Send<String, Send<Br0Alpha, End>>, Send<Br0B, End>, Recv<(u64, Box<Tok>), Send<Br0M, End>>, RoleAlpha<RoleM<RoleBroadcast>>, NameZed>;
type B0_1_Alpha = MeshedChannels<Recv<i64, Recv<Br1Alpha, End>>, Recv<u8, End>, Recv<Tok, End>, RoleB<RoleM<RoleZed<RoleB<RoleEnd>>>>, NameAlpha>;
type B0_1_B = MeshedChannels<Send<i64, Send<Br1Alpha, End>>, Send<Br1M, End>, Send<Br1Zed, End>, RoleAlpha<RoleBroadcast>, NameB>;
type B0_1_M = MeshedChannels<Send<u8, End>, Recv<Br1M, End>, End, RoleAlpha<RoleB<RoleEnd>>, NameM>;
type B0_1_Zed = MeshedChannels<Send<Tok, End>, Recv<Br1Zed, End>, End, RoleAlpha<RoleB<RoleEnd>>, NameZed>;
type B0_2_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
type B0_2_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_2_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B0_2_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
pub enum Br0Alpha { L0(B0_0_Alpha), L1(B0_1_Alpha), L2(B0_2_Alpha) } unsafe impl std::marker::Send for Br0Alpha {}
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0M { L0(B0_0_M), L1(B0_1_M), L2(B0_2_M) } unsafe impl std::marker::Send for Br0M {}
type B1_0_Alpha = MeshedChannels<End, End, Recv<Br0Alpha, End>, RoleZed<RoleEnd>, NameAlpha>;
type B1_0_B = MeshedChannels<End, End, Send<String, Recv<Br0B, End>>, RoleZed<RoleZed<RoleEnd>>, NameB>;
type B1_0_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleZed<RoleEnd>, NameM>;
type B1_0_Zed = MeshedChannels<Send<Br0Alpha, End>, Recv<String, Send<Br0B, End>>, Send<Br0M, End>, RoleB<RoleBroadcast>, NameZed>;
type B1_1_Alpha = MeshedChannels<End, End, End, RoleEnd, NameAlpha>;
type B1_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B1_1_M = MeshedChannels<End, End, End, RoleEnd, NameM>;
type B1_1_Zed = MeshedChannels<End, End, End, RoleEnd, NameZed>;
pub enum Br1Alpha { L0(B1_0_Alpha), L1(B1_1_Alpha) } unsafe impl std::marker::Send for Br1Alpha {}
pub enum Br1M { L0(B1_0_M), L1(B1_1_M) } unsafe impl std::marker::Send for Br1M {}
pub enum Br1Zed { L0(B1_0_Zed), L1(B1_1_Zed) } unsafe impl std::marker::Send for Br1Zed {}
type S_Alpha = MeshedChannels<End, End, Send<String, Recv<Br0Alpha, End>>, RoleZed<RoleZed<RoleEnd>>, NameAlpha>;
type S_B = MeshedChannels<End, End, Recv<i64, Recv<Br0B, End>>, RoleZed<RoleZed<RoleEnd>>, NameB>;
type S_M = MeshedChannels<End, End, Recv<Br0M, End>, RoleZed<RoleEnd>, NameM>;
type S_Zed = MeshedChannels<Recv<String, Send<Br0Alpha, End>>, Send<i64, Send<Br0B, End>>, Send<Br0M, End>, RoleAlpha<RoleB<RoleBroadcast>>, NameZed>;
mpstthree::checker_concat_impl!([Br0Alpha, L0, Br0B, L0, Br0M, L0], [Br0Alpha, L1, Br0B, L1, Br0M, L1], [Br0Alpha, L2, Br0B, L2, Br0M, L2], [Br1Alpha, L0, Br1M, L0, Br1Zed, L0], [Br1Alpha, L1, Br1M, L1, Br1Zed, L1]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_Alpha, S_B, S_M, S_Zed => [B0_0_Zed, Br0Alpha, L0, Br0B, L0, Br0M, L0], [B0_1_Zed, Br0Alpha, L1, Br0B, L1, Br0M, L1], [B0_2_Zed, Br0Alpha, L2, Br0B, L2, Br0M, L2], [B1_0_B, Br1Alpha, L0, Br1M, L0, Br1Zed, L0], [B1_1_B, Br1Alpha, L1, Br1M, L1, Br1Zed, L1])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["Alpha", "B", "M", "Zed"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 3, 1002), (3, 1, 1001)], next: Some(0) }, states: vec![(3, vec![("L0".to_string(), super::Body { msgs: vec![(3, 0, 1002), (0, 1, 1005), (1, 2, 1004), (2, 3, 1004)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![(1, 0, 1001), (2, 0, 1008), (3, 0, 1003)], next: Some(1) }), ("L2".to_string(), super::Body { msgs: vec![], next: None })]), (1, vec![("L0".to_string(), super::Body { msgs: vec![(1, 3, 1002)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![], next: None })])], either: false, order: (0..4).collect(), compiled: Some(check) } }
}
pub mod c4 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type S_A = MeshedChannels<Send<i64, Send<Option<Vec<u64>>, Send<String, Recv<Tok, End>>>>, Send<String, Send<Option<Vec<u64>>, Send<(u64, Box<Tok>), Recv<(), End>>>>, RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Recv<Option<Vec<u64>>, Recv<String, Send<Tok, End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type S_C = MeshedChannels<Recv<String, Recv<Option<Vec<u64>>, Recv<(u64, Box<Tok>), Send<(), End>>>>, End, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameC>;
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C)) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 1, 1001), (0, 2, 1002), (0, 1, 1006), (0, 2, 1006), (0, 1, 1002), (0, 2, 1004), (1, 0, 1003), (2, 0, 1007)], next: None }, states: vec![], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c5 {
use harness::prelude::*; use mpstthree::role::Role;
use mpstthree::meshedchannels::MeshedChannels;
use mpstthree::role::{a::RoleA, b::RoleB, c::RoleC}; use mpstthree::name::{a::NameA, b::NameB, c::NameC};
use mpstthree::role::{a_to_all::RoleAtoAll, b_to_all::RoleBtoAll, c_to_all::RoleCtoAll, all_to_a::RoleAlltoA, all_to_b::RoleAlltoB, all_to_c::RoleAlltoC};
type B0_0_A = MeshedChannels<Send<Tok, Recv<Option<Vec<u64>>, Send<Either<B1_0_B, B1_1_B>, End>>>, Recv<(u64, Box<Tok>), Send<u64, Send<Either<B1_0_C, B1_1_C>, End>>>, RoleC<RoleB<RoleB<RoleC<RoleAtoAll<RoleB<RoleEnd>, RoleB<RoleEnd>>>>>>, NameA>;
type B0_0_B = MeshedChannels<Recv<Tok, Send<Option<Vec<u64>>, Recv<Either<B1_0_B, B1_1_B>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u64, Recv<Either<B1_0_C, B1_1_C>, End>>>, End, RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_0_A = MeshedChannels<Send<(u64, Box<Tok>), End>, End, RoleB<RoleEnd>, NameA>;
type B1_0_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, Send<(), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_0_C = MeshedChannels<End, Recv<(), End>, RoleB<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_1_B = MeshedChannels<Send<i64, End>, Recv<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_1_C = MeshedChannels<End, Send<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type S_A = MeshedChannels<End, Recv<u8, Send<Tok, Recv<Either<B0_0_A, B0_1_A>, End>>>, RoleC<RoleC<RoleAlltoC<RoleEnd, RoleEnd>>>, NameA>;
type S_B = MeshedChannels<End, Recv<Either<B0_0_B, B0_1_B>, End>, RoleAlltoC<RoleEnd, RoleEnd>, NameB>;
type S_C = MeshedChannels<Send<u8, Recv<Tok, Send<Either<B0_0_A, B0_1_A>, End>>>, Send<Either<B0_0_B, B0_1_B>, End>, RoleA<RoleA<RoleCtoAll<RoleA<RoleA<RoleAlltoA<RoleEnd, RoleEnd>>>, RoleEnd>>>, NameC>;
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C)) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(2, 0, 1008), (0, 2, 1003)], next: Some(0) }, states: vec![(2, vec![("L0".to_string(), super::Body { msgs: vec![(2, 0, 1004), (0, 1, 1003), (1, 0, 1006), (0, 2, 1000)], next: Some(1) }), ("L1".to_string(), super::Body { msgs: vec![], next: None })]), (0, vec![("L0".to_string(), super::Body { msgs: vec![(0, 1, 1004), (1, 2, 1007)], next: None }), ("L1".to_string(), super::Body { msgs: vec![(1, 0, 1001), (2, 1, 1004)], next: None })])], either: true, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c6 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<Recv<Option<Vec<u64>>, Send<(), End>>, Recv<(u64, Box<Tok>), Recv<Br1A, End>>, RoleB<RoleC<RoleB<RoleC<RoleEnd>>>>, NameA>;
type B0_0_B = MeshedChannels<Send<Option<Vec<u64>>, Recv<(), End>>, Recv<u64, Recv<Br1B, End>>, RoleC<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Send<Br1A, End>>, Send<u64, Send<Br1B, End>>, RoleB<RoleA<RoleBroadcast>>, NameC>;
type B0_1_A = MeshedChannels<Send<(u64, Box<Tok>), End>, Recv<String, Recv<(), End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_1_B = MeshedChannels<Recv<(u64, Box<Tok>), End>, End, RoleA<RoleEnd>, NameB>;
type B0_1_C = MeshedChannels<Send<String, Send<(), End>>, End, RoleA<RoleA<RoleEnd>>, NameC>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_0_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B1_0_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B1_1_A = MeshedChannels<End, Recv<i64, Recv<Br1A, End>>, RoleC<RoleC<RoleEnd>>, NameA>;
type B1_1_B = MeshedChannels<End, Send<Tok, Send<Option<Vec<u64>>, Recv<Br1B, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameB>;
type B1_1_C = MeshedChannels<Send<i64, Send<Br1A, End>>, Recv<Tok, Recv<Option<Vec<u64>>, Send<Br1B, End>>>, RoleA<RoleB<RoleB<RoleBroadcast>>>, NameC>;
type B1_2_A = MeshedChannels<Recv<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<Send<i64, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B1_2_C = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, RoleB<RoleEnd>, NameC>;
type B1_3_A = MeshedChannels<Recv<Option<Vec<u64>>, End>, Send<Big, Recv<Br1A, End>>, RoleB<RoleC<RoleC<RoleEnd>>>, NameA>;
type B1_3_B = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<u64, Recv<Br1B, End>>, RoleA<RoleC<RoleC<RoleEnd>>>, NameB>;
type B1_3_C = MeshedChannels<Recv<Big, Send<Br1A, End>>, Send<u64, Send<Br1B, End>>, RoleB<RoleA<RoleBroadcast>>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A), L3(B1_3_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B), L3(B1_3_B) } unsafe impl std::marker::Send for Br1B {}
type S_A = MeshedChannels<Send<Option<Vec<u64>>, Send<Tok, Recv<i64, Recv<Br0A, End>>>>, End, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type S_B = MeshedChannels<Recv<Option<Vec<u64>>, Recv<Tok, Send<i64, Send<Br0A, End>>>>, Recv<(u64, Box<Tok>), Send<Br0C, End>>, RoleA<RoleC<RoleA<RoleA<RoleBroadcast>>>>, NameB>;
type S_C = MeshedChannels<End, Send<(u64, Box<Tok>), Recv<Br0C, End>>, RoleB<RoleB<RoleEnd>>, NameC>;
mpstthree::checker_concat_impl!([Br0A, L0, Br0C, L0], [Br0A, L1, Br0C, L1], [Br1A, L0, Br1B, L0], [Br1A, L1, Br1B, L1], [Br1A, L2, Br1B, L2], [Br1A, L3, Br1B, L3]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C => [B0_0_B, Br0A, L0, Br0C, L0], [B0_1_B, Br0A, L1, Br0C, L1], [B1_0_C, Br1A, L0, Br1B, L0], [B1_1_C, Br1A, L1, Br1B, L1], [B1_2_C, Br1A, L2, Br1B, L2], [B1_3_C, Br1A, L3, Br1B, L3])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 1, 1006), (2, 1, 1004), (0, 1, 1003), (1, 0, 1001)], next: Some(0) }, states: vec![(1, vec![("L0".to_string(), super::Body { msgs: vec![(2, 1, 1000), (1, 0, 1006), (2, 0, 1004), (0, 1, 1007)], next: Some(1) }), ("L1".to_string(), super::Body { msgs: vec![(0, 1, 1004), (2, 0, 1002), (2, 0, 1007)], next: None })]), (2, vec![("L0".to_string(), super::Body { msgs: vec![], next: None }), ("L1".to_string(), super::Body { msgs: vec![(2, 0, 1001), (1, 2, 1003), (1, 2, 1006)], next: Some(1) }), ("L2".to_string(), super::Body { msgs: vec![(1, 0, 1001), (1, 2, 1004)], next: None }), ("L3".to_string(), super::Body { msgs: vec![(1, 0, 1006), (2, 1, 1000), (0, 2, 1005)], next: Some(1) })])], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c7 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B);
type B0_0_A = MeshedChannels<Recv<(), Send<u8, End>>, RoleB<RoleB<RoleEnd>>, NameA>;
type B0_0_B = MeshedChannels<Send<(), Recv<u8, End>>, RoleA<RoleA<RoleEnd>>, NameB>;
type B0_1_A = MeshedChannels<Send<Big, Recv<i64, Send<String, Send<Tok, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type B0_1_B = MeshedChannels<Recv<Big, Send<i64, Recv<String, Recv<Tok, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
type B0_2_A = MeshedChannels<Send<String, Recv<(), Recv<(u64, Box<Tok>), Recv<String, End>>>>, RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>, NameA>;
type B0_2_B = MeshedChannels<Recv<String, Send<(), Send<(u64, Box<Tok>), Send<String, End>>>>, RoleA<RoleA<RoleA<RoleA<RoleEnd>>>>, NameB>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
type S_A = MeshedChannels<Send<i64, Recv<(), Recv<u8, Recv<(), Recv<(), Recv<Br0A, End>>>>>>, RoleB<RoleB<RoleB<RoleB<RoleB<RoleB<RoleEnd>>>>>>, NameA>;
type S_B = MeshedChannels<Recv<i64, Send<(), Send<u8, Send<(), Send<(), Send<Br0A, End>>>>>>, RoleA<RoleA<RoleA<RoleA<RoleA<RoleBroadcast>>>>>, NameB>;
mpstthree::checker_concat_impl!([Br0A, L0], [Br0A, L1], [Br0A, L2]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B => [B0_0_B, Br0A, L0], [B0_1_B, Br0A, L1], [B0_2_B, Br0A, L2])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 1, 1001), (1, 0, 1007), (1, 0, 1008), (1, 0, 1007), (1, 0, 1007)], next: Some(0) }, states: vec![(1, vec![("L0".to_string(), super::Body { msgs: vec![(1, 0, 1007), (0, 1, 1008)], next: None }), ("L1".to_string(), super::Body { msgs: vec![(0, 1, 1005), (1, 0, 1001), (0, 1, 1002), (0, 1, 1003)], next: None }), ("L2".to_string(), super::Body { msgs: vec![(0, 1, 1002), (1, 0, 1007), (1, 0, 1004), (1, 0, 1002)], next: None })])], either: false, order: (0..2).collect(), compiled: Some(check) } }
}
pub mod c8 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C, D);
type B0_0_A = MeshedChannels<Recv<Br0A, End>, End, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Send<Br0A, End>, Send<(u64, Box<Tok>), Send<Br0C, End>>, Recv<(), Send<Br0D, End>>, RoleD<RoleC<RoleBroadcast>>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<(u64, Box<Tok>), Recv<Br0C, End>>, End, RoleB<RoleB<RoleEnd>>, NameC>;
type B0_0_D = MeshedChannels<End, Send<(), Recv<Br0D, End>>, End, RoleB<RoleB<RoleEnd>>, NameD>;
type B0_1_A = MeshedChannels<End, End, Recv<(), End>, RoleD<RoleEnd>, NameA>;
type B0_1_B = MeshedChannels<End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, End, RoleEnd, NameC>;
type B0_1_D = MeshedChannels<Send<(), End>, End, End, RoleA<RoleEnd>, NameD>;
type B0_2_A = MeshedChannels<Send<u8, Recv<Br0A, End>>, End, Recv<i64, Send<(u64, Box<Tok>), End>>, RoleD<RoleB<RoleD<RoleB<RoleEnd>>>>, NameA>;
type B0_2_B = MeshedChannels<Recv<u8, Send<Br0A, End>>, Send<Br0C, End>, Send<Br0D, End>, RoleA<RoleBroadcast>, NameB>;
type B0_2_C = MeshedChannels<End, Recv<Br0C, End>, Recv<u8, End>, RoleD<RoleB<RoleEnd>>, NameC>;
type B0_2_D = MeshedChannels<Send<i64, Recv<(u64, Box<Tok>), End>>, Recv<Br0D, End>, Send<u8, End>, RoleC<RoleA<RoleA<RoleB<RoleEnd>>>>, NameD>;
pub enum Br0A { L0(B0_0_A), L1(B0_1_A), L2(B0_2_A) } unsafe impl std::marker::Send for Br0A {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
type S_A = MeshedChannels<Recv<Br0A, End>, Recv<Option<Vec<u64>>, End>, Send<Option<Vec<u64>>, End>, RoleC<RoleD<RoleB<RoleEnd>>>, NameA>;
type S_B = MeshedChannels<Send<Br0A, End>, Send<Br0C, End>, Send<String, Recv<String, Send<Br0D, End>>>, RoleD<RoleD<RoleBroadcast>>, NameB>;
type S_C = MeshedChannels<Send<Option<Vec<u64>>, End>, Recv<Br0C, End>, Send<(u64, Box<Tok>), End>, RoleA<RoleD<RoleB<RoleEnd>>>, NameC>;
type S_D = MeshedChannels<Recv<Option<Vec<u64>>, End>, Recv<String, Send<String, Recv<Br0D, End>>>, Recv<(u64, Box<Tok>), End>, RoleB<RoleA<RoleC<RoleB<RoleB<RoleEnd>>>>>, NameD>;
mpstthree::checker_concat_impl!([Br0A, L0, Br0C, L0, Br0D, L0], [Br0A, L1, Br0C, L1, Br0D, L1], [Br0A, L2, Br0C, L2, Br0D, L2]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C, S_D => [B0_0_B, Br0A, L0, Br0C, L0, Br0D, L0], [B0_1_B, Br0A, L1, Br0C, L1, Br0D, L1], [B0_2_B, Br0A, L2, Br0C, L2, Br0D, L2])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C", "D"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(2, 0, 1006), (1, 3, 1002), (0, 3, 1006), (2, 3, 1004), (3, 1, 1002)], next: Some(0) }, states: vec![(1, vec![("L0".to_string(), super::Body { msgs: vec![(3, 1, 1007), (1, 2, 1004)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![(3, 0, 1007)], next: None }), ("L2".to_string(), super::Body { msgs: vec![(3, 2, 1008), (3, 0, 1001), (0, 1, 1008), (0, 3, 1004)], next: Some(0) })])], either: false, order: (0..4).collect(), compiled: Some(check) } }
}
pub mod c9 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C);
type B0_0_A = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<u8, Recv<i64, End>>>, RoleC<RoleC<RoleC<RoleEnd>>>, NameA>;
type B0_0_B = MeshedChannels<End, Send<Tok, End>, RoleC<RoleEnd>, NameB>;
type B0_0_C = MeshedChannels<Send<(u64, Box<Tok>), Recv<u8, Send<i64, End>>>, Recv<Tok, End>, RoleA<RoleB<RoleA<RoleA<RoleEnd>>>>, NameC>;
type B0_1_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, RoleEnd, NameC>;
type B0_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type B0_2_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B0_3_A = MeshedChannels<Send<i64, End>, End, RoleB<RoleEnd>, NameA>;
type B0_3_B = MeshedChannels<Recv<i64, End>, Recv<u8, End>, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_3_C = MeshedChannels<End, Send<u8, End>, RoleB<RoleEnd>, NameC>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B), L3(B0_3_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C), L3(B0_3_C) } unsafe impl std::marker::Send for Br0C {}
type B1_0_A = MeshedChannels<Recv<String, Send<(u64, Box<Tok>), Send<Br0B, End>>>, Send<Br0C, End>, RoleB<RoleB<RoleBroadcast>>, NameA>;
type B1_0_B = MeshedChannels<Send<String, Recv<(u64, Box<Tok>), Recv<Br0B, End>>>, End, RoleA<RoleA<RoleA<RoleEnd>>>, NameB>;
type B1_0_C = MeshedChannels<Recv<Br0C, End>, End, RoleA<RoleEnd>, NameC>;
type B1_1_A = MeshedChannels<Send<(), Send<u64, Recv<(u64, Box<Tok>), End>>>, Recv<Br1A, End>, RoleB<RoleB<RoleB<RoleC<RoleEnd>>>>, NameA>;
type B1_1_B = MeshedChannels<Recv<(), Recv<u64, Send<(u64, Box<Tok>), End>>>, Recv<Br1B, End>, RoleA<RoleA<RoleA<RoleC<RoleEnd>>>>, NameB>;
type B1_1_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B1_2_A = MeshedChannels<End, Recv<Br1A, End>, RoleC<RoleEnd>, NameA>;
type B1_2_B = MeshedChannels<End, Recv<Br1B, End>, RoleC<RoleEnd>, NameB>;
type B1_2_C = MeshedChannels<Send<Br1A, End>, Send<Br1B, End>, RoleBroadcast, NameC>;
type B1_3_A = MeshedChannels<End, End, RoleEnd, NameA>;
type B1_3_B = MeshedChannels<End, Send<(u64, Box<Tok>), Recv<u8, End>>, RoleC<RoleC<RoleEnd>>, NameB>;
type B1_3_C = MeshedChannels<End, Recv<(u64, Box<Tok>), Send<u8, End>>, RoleB<RoleB<RoleEnd>>, NameC>;
pub enum Br1A { L0(B1_0_A), L1(B1_1_A), L2(B1_2_A), L3(B1_3_A) } unsafe impl std::marker::Send for Br1A {}
pub enum Br1B { L0(B1_0_B), L1(B1_1_B), L2(B1_2_B), L3(B1_3_B) } unsafe impl std::marker::Send for Br1B {}
type S_A = MeshedChannels<Recv<String, Send<Br0B, End>>, Send<i64, Send<Br0C, End>>, RoleC<RoleB<RoleBroadcast>>, NameA>;
type S_B = MeshedChannels<Send<String, Recv<Br0B, End>>, End, RoleA<RoleA<RoleEnd>>, NameB>;
type S_C = MeshedChannels<Recv<i64, Recv<Br0C, End>>, End, RoleA<RoleA<RoleEnd>>, NameC>;
mpstthree::checker_concat_impl!([Br0B, L0, Br0C, L0], [Br0B, L1, Br0C, L1], [Br0B, L2, Br0C, L2], [Br0B, L3, Br0C, L3], [Br1A, L0, Br1B, L0], [Br1A, L1, Br1B, L1], [Br1A, L2, Br1B, L2], [Br1A, L3, Br1B, L3]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C => [B0_0_A, Br0B, L0, Br0C, L0], [B0_1_A, Br0B, L1, Br0C, L1], [B0_2_A, Br0B, L2, Br0C, L2], [B0_3_A, Br0B, L3, Br0C, L3], [B1_0_C, Br1A, L0, Br1B, L0], [B1_1_C, Br1A, L1, Br1B, L1], [B1_2_C, Br1A, L2, Br1B, L2], [B1_3_C, Br1A, L3, Br1B, L3])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(0, 2, 1001), (1, 0, 1002)], next: Some(0) }, states: vec![(0, vec![("L0".to_string(), super::Body { msgs: vec![(2, 0, 1004), (1, 2, 1003), (0, 2, 1008), (2, 0, 1001)], next: None }), ("L1".to_string(), super::Body { msgs: vec![], next: None }), ("L2".to_string(), super::Body { msgs: vec![], next: Some(1) }), ("L3".to_string(), super::Body { msgs: vec![(0, 1, 1001), (2, 1, 1008)], next: None })]), (2, vec![("L0".to_string(), super::Body { msgs: vec![(1, 0, 1002), (0, 1, 1004)], next: Some(0) }), ("L1".to_string(), super::Body { msgs: vec![(0, 1, 1007), (0, 1, 1000), (1, 0, 1004)], next: Some(1) }), ("L2".to_string(), super::Body { msgs: vec![], next: Some(1) }), ("L3".to_string(), super::Body { msgs: vec![(1, 2, 1004), (2, 1, 1008)], next: None })])], either: false, order: (0..3).collect(), compiled: Some(check) } }
}
pub mod c10 {
use harness::prelude::*; use mpstthree::role::Role;
mpstthree::generate!("basic", MeshedChannels, A, B, C, D, E);
type B0_0_A = MeshedChannels<Recv<i64, End>, End, End, End, RoleB<RoleEnd>, NameA>;
type B0_0_B = MeshedChannels<Send<i64, End>, Send<Big, End>, End, End, RoleA<RoleC<RoleEnd>>, NameB>;
type B0_0_C = MeshedChannels<End, Recv<Big, End>, End, End, RoleB<RoleEnd>, NameC>;
type B0_0_D = MeshedChannels<End, End, End, End, RoleEnd, NameD>;
type B0_0_E = MeshedChannels<End, End, End, End, RoleEnd, NameE>;
type B0_1_A = MeshedChannels<End, End, End, End, RoleEnd, NameA>;
type B0_1_B = MeshedChannels<End, End, End, End, RoleEnd, NameB>;
type B0_1_C = MeshedChannels<End, End, End, End, RoleEnd, NameC>;
type B0_1_D = MeshedChannels<End, End, End, End, RoleEnd, NameD>;
type B0_1_E = MeshedChannels<End, End, End, End, RoleEnd, NameE>;
type B0_2_A = MeshedChannels<End, End, End, Recv<String, End>, RoleE<RoleEnd>, NameA>;
type B0_2_B = MeshedChannels<End, Send<(u64, Box<Tok>), End>, Recv<Option<Vec<u64>>, End>, End, RoleD<RoleC<RoleEnd>>, NameB>;
type B0_2_C = MeshedChannels<End, Recv<(u64, Box<Tok>), End>, End, End, RoleB<RoleEnd>, NameC>;
type B0_2_D = MeshedChannels<End, Send<Option<Vec<u64>>, End>, End, Send<u64, End>, RoleB<RoleE<RoleEnd>>, NameD>;
type B0_2_E = MeshedChannels<Send<String, End>, End, End, Recv<u64, End>, RoleA<RoleD<RoleEnd>>, NameE>;
pub enum Br0B { L0(B0_0_B), L1(B0_1_B), L2(B0_2_B) } unsafe impl std::marker::Send for Br0B {}
pub enum Br0C { L0(B0_0_C), L1(B0_1_C), L2(B0_2_C) } unsafe impl std::marker::Send for Br0C {}
pub enum Br0D { L0(B0_0_D), L1(B0_1_D), L2(B0_2_D) } unsafe impl std::marker::Send for Br0D {}
pub enum Br0E { L0(B0_0_E), L1(B0_1_E), L2(B0_2_E) } unsafe impl std::marker::Send for Br0E {}
type S_A = MeshedChannels<Send<Br0B, End>, Send<Br0C, End>, Send<Br0D, End>, Send<Br0E, End>, RoleBroadcast, NameA>;
type S_B = MeshedChannels<Recv<Br0B, End>, End, End, End, RoleA<RoleEnd>, NameB>;
type S_C = MeshedChannels<Recv<Br0C, End>, End, Send<(), End>, End, RoleD<RoleA<RoleEnd>>, NameC>;
type S_D = MeshedChannels<Recv<Br0D, End>, End, Recv<(), End>, End, RoleC<RoleA<RoleEnd>>, NameD>;
type S_E = MeshedChannels<Recv<Br0E, End>, End, End, End, RoleA<RoleEnd>, NameE>;
mpstthree::checker_concat_impl!([Br0B, L0, Br0C, L0, Br0D, L0, Br0E, L0], [Br0B, L1, Br0C, L1, Br0D, L1, Br0E, L1], [Br0B, L2, Br0C, L2, Br0D, L2, Br0E, L2]);
pub fn check(file: &str) -> super::Raw { super::raw!(mpstthree::checker_concat!(file, S_A, S_B, S_C, S_D, S_E => [B0_0_A, Br0B, L0, Br0C, L0, Br0D, L0, Br0E, L0], [B0_1_A, Br0B, L1, Br0C, L1, Br0D, L1, Br0E, L1], [B0_2_A, Br0B, L2, Br0C, L2, Br0D, L2, Br0E, L2])) }
pub fn proto(file: String) -> super::Proto { super::Proto { file, roles: ["A", "B", "C", "D", "E"].iter().map(|s| s.to_string()).collect(), start: super::Body { msgs: vec![(2, 3, 1007)], next: Some(0) }, states: vec![(0, vec![("L0".to_string(), super::Body { msgs: vec![(1, 0, 1001), (1, 2, 1005)], next: None }), ("L1".to_string(), super::Body { msgs: vec![], next: None }), ("L2".to_string(), super::Body { msgs: vec![(3, 1, 1006), (1, 2, 1004), (4, 0, 1002), (3, 4, 1000)], next: None })])], either: false, order: (0..5).collect(), compiled: Some(check) } }
}
static PROTOS: &[fn(String) -> Proto] = &[c0::proto, c1::proto, c2::proto, c3::proto, c4::proto, c5::proto, c6::proto, c7::proto, c8::proto, c9::proto, c10::proto];
