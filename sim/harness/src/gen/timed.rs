// Generated by sim/gen/gen_timed.py. Do not edit.
type T0 = RecvTimed<u64, 'c', 1, true, 3, false, ' ', End>;
type T1 = RecvTimed<Either<SendTimed<(u64, Box<Tok>), 'c', 2, false, 7, true, ' ', End>, End>, 'b', -5, false, -1, false, 'b', End>;
type T2 = SendTimed<String, 'b', 2, true, 4, false, ' ', RecvTimed<u64, 'a', 0, true, 7, true, ' ', SendTimed<Big, 'a', 1, true, 5, true, ' ', End>>>;
type T3 = SendTimed<u64, 'a', -5, false, -1, false, 'a', SendTimed<i64, 'c', 1, true, 6, true, 'a', SendTimed<Either<<RecvTimed<(u64, Box<Tok>), 'c', 2, false, -1, true, 'c', End> as Session>::Dual, <End as Session>::Dual>, 'c', 2, true, 2, true, ' ', End>>>;
type T4 = SendTimed<u64, 'b', 1, true, 1, true, ' ', SendTimed<Either<<SendTimed<Big, 'c', -1, false, 7, true, ' ', RecvTimed<Option<Vec<u64>>, 'b', 4, true, 4, true, 'b', RecvTimed<Big, 'c', 4, true, -1, true, ' ', End>>> as Session>::Dual, <SendTimed<Either<<SendTimed<Tok, 'c', 4, true, -1, true, 'c', End> as Session>::Dual, <End as Session>::Dual>, 'b', 2, false, 4, false, 'b', End> as Session>::Dual>, 'b', 3, true, -1, false, ' ', End>>;
type T5 = RecvTimed<Big, 'a', 1, true, -1, true, ' ', RecvTimed<i64, 'c', -5, false, -1, false, ' ', RecvTimed<u64, 'c', 3, true, 6, true, 'c', SendTimed<Tok, 'a', 4, true, 9, true, 'a', SendTimed<String, 'a', 0, true, -1, true, 'a', RecvTimed<i64, 'b', -1, true, 8, true, 'a', End>>>>>>;
type T6 = RecvTimed<u64, 'b', 0, false, 4, true, ' ', End>;
type T7 = SendTimed<i64, 'a', -1, false, 1, false, ' ', SendTimed<String, 'c', 0, false, 3, true, 'b', End>>;
type T8 = RecvTimed<Big, 'b', 1, true, 1, true, ' ', RecvTimed<Option<Vec<u64>>, 'a', -5, false, -1, false, 'a', SendTimed<(u64, Box<Tok>), 'b', 0, true, -1, false, 'b', End>>>;
type T9 = RecvTimed<Tok, 'a', 2, false, 6, false, 'a', RecvTimed<Either<RecvTimed<i64, 'c', 5, true, 7, false, 'a', RecvTimed<Either<End, End>, 'b', -1, true, 9, true, ' ', End>>, SendTimed<u64, 'b', 2, true, 8, false, ' ', End>>, 'c', -1, false, 6, true, 'a', End>>;
type T10 = RecvTimed<Either<SendTimed<Big, 'c', 0, false, 1, false, 'a', SendTimed<Option<Vec<u64>>, 'a', -1, true, 2, false, 'a', RecvTimed<u64, 'c', 2, true, 2, true, 'c', SendTimed<Big, 'a', -1, false, 5, true, ' ', End>>>>, RecvTimed<Big, 'a', 0, true, -1, true, 'c', RecvTimed<Option<Vec<u64>>, 'b', 1, true, 1, true, ' ', RecvTimed<i64, 'a', 2, true, 3, false, ' ', End>>>>, 'a', 0, true, 2, false, ' ', End>;
type T11 = RecvTimed<i64, 'c', 0, true, -1, false, 'a', RecvTimed<Option<Vec<u64>>, 'a', 0, true, -1, true, 'a', SendTimed<(u64, Box<Tok>), 'b', -5, false, -1, false, ' ', SendTimed<Option<Vec<u64>>, 'b', 1, true, 3, false, 'b', SendTimed<Tok, 'c', 0, true, 3, true, ' ', RecvTimed<Either<End, End>, 'a', 2, true, 2, true, ' ', End>>>>>>;
type T12 = SendTimed<Option<Vec<u64>>, 'c', 0, false, 4, false, ' ', End>;
type T13 = RecvTimed<u64, 'b', 2, false, 6, false, ' ', RecvTimed<Option<Vec<u64>>, 'b', 4, false, 5, false, ' ', End>>;
type T14 = RecvTimed<i64, 'b', 1, true, 4, true, 'b', RecvTimed<Either<SendTimed<Tok, 'b', -2, false, -1, false, ' ', End>, End>, 'c', -5, false, -1, false, ' ', End>>;
type T15 = RecvTimed<(u64, Box<Tok>), 'a', 0, true, -1, false, 'a', SendTimed<(u64, Box<Tok>), 'a', 0, true, -1, true, 'a', RecvTimed<i64, 'c', 0, true, 3, false, 'c', RecvTimed<Option<Vec<u64>>, 'a', 0, true, 3, true, 'c', End>>>>;
type T16 = SendTimed<(u64, Box<Tok>), 'a', 2, false, 1, true, 'a', SendTimed<Either<<RecvTimed<Either<SendTimed<(u64, Box<Tok>), 'a', 1, true, 1, true, 'c', RecvTimed<i64, 'c', 0, true, -1, true, ' ', End>>, RecvTimed<(u64, Box<Tok>), 'b', 1, true, 5, true, ' ', End>>, 'c', 0, true, 1, true, ' ', End> as Session>::Dual, <SendTimed<i64, 'a', 2, false, 7, false, 'b', SendTimed<i64, 'a', 4, true, 4, true, 'b', End>> as Session>::Dual>, 'c', -1, true, 6, true, 'c', End>>;
type T17 = SendTimed<(u64, Box<Tok>), 'c', 0, true, 4, false, ' ', RecvTimed<Tok, 'c', 0, true, 5, false, 'c', RecvTimed<i64, 'a', 1, true, 1, true, 'a', SendTimed<Big, 'b', 0, true, 5, false, ' ', SendTimed<Either<<SendTimed<Either<<End as Session>::Dual, <End as Session>::Dual>, 'a', 0, true, 9000000000000, true, 'a', End> as Session>::Dual, <End as Session>::Dual>, 'b', 2, true, 2, true, ' ', End>>>>>;
type T18 = SendTimed<String, 'c', 0, true, 2, true, 'a', End>;
type T19 = RecvTimed<(u64, Box<Tok>), 'a', -1, false, 4, true, ' ', RecvTimed<String, 'b', 2, true, 3, false, 'b', End>>;
type T20 = RecvTimed<i64, 'b', -5, false, -1, false, 'c', RecvTimed<(u64, Box<Tok>), 'c', 2, true, 7, false, ' ', RecvTimed<i64, 'b', -5, false, -1, false, 'b', End>>>;
type T21 = RecvTimed<Either<RecvTimed<i64, 'b', 2, true, 6, false, 'b', RecvTimed<Tok, 'a', -5, false, -1, false, 'a', RecvTimed<i64, 'b', 2, true, 3, false, 'b', End>>>, SendTimed<Either<<RecvTimed<Big, 'c', 2, true, 7, false, 'a', End> as Session>::Dual, <End as Session>::Dual>, 'b', -1, false, -1, false, ' ', End>>, 'b', 1, false, -1, false, 'b', End>;
type T22 = SendTimed<Either<<SendTimed<i64, 'b', -5, false, -1, false, ' ', RecvTimed<Big, 'b', -1, false, 4, true, ' ', RecvTimed<u64, 'b', 2, true, -1, true, 'b', SendTimed<String, 'c', 4, true, 8, true, 'b', End>>>> as Session>::Dual, <SendTimed<Either<<SendTimed<u64, 'b', 4, true, 9000000000000, false, ' ', RecvTimed<String, 'b', 6, false, 8, false, 'c', End>> as Session>::Dual, <SendTimed<Option<Vec<u64>>, 'a', -1, false, -1, false, 'a', End> as Session>::Dual>, 'a', 2, false, 1, true, ' ', End> as Session>::Dual>, 'b', 1, false, 3, true, 'a', End>;
type T23 = SendTimed<String, 'c', -5, false, -1, false, 'b', SendTimed<Tok, 'a', 2, false, -1, true, ' ', SendTimed<Big, 'a', -1, false, 6, false, 'a', RecvTimed<u64, 'c', -1, true, 6, false, 'c', SendTimed<String, 'b', 5, true, 10, false, 'c', RecvTimed<Big, 'a', -1, false, 3, false, ' ', End>>>>>>;
type T24 = SendTimed<Either<<End as Session>::Dual, <End as Session>::Dual>, 'a', -5, false, -1, false, ' ', End>;
type T25 = RecvTimed<String, 'a', -1, true, 4, false, ' ', SendTimed<u64, 'a', 0, true, 5, false, 'c', End>>;
type T26 = RecvTimed<Tok, 'b', 1, true, 6, false, ' ', SendTimed<Big, 'b', 3, false, 5, false, 'b', SendTimed<Option<Vec<u64>>, 'c', 6, true, 9, false, 'c', End>>>;
type T27 = SendTimed<u64, 'c', 0, true, 3, false, 'c', SendTimed<(u64, Box<Tok>), 'b', 1, true, 1, true, 'b', RecvTimed<Either<SendTimed<(u64, Box<Tok>), 'c', 0, false, 5, false, 'b', End>, End>, 'c', -1, true, 3, false, 'c', End>>>;
type T28 = RecvTimed<i64, 'b', -2, false, -1, false, 'b', RecvTimed<Tok, 'c', 2, true, 3, true, 'a', RecvTimed<Tok, 'c', 3, true, 4, true, 'c', RecvTimed<Either<SendTimed<Tok, 'a', 5, false, 6, false, 'a', End>, End>, 'b', 4, false, 8, false, ' ', End>>>>;
type T29 = SendTimed<Big, 'c', 0, true, 9000000000000, false, ' ', SendTimed<Either<<SendTimed<Option<Vec<u64>>, 'c', 2, true, 1, true, 'b', RecvTimed<Tok, 'a', 4, false, 9, true, 'a', SendTimed<Either<<RecvTimed<u64, 'b', 0, false, 5, true, 'a', End> as Session>::Dual, <End as Session>::Dual>, 'b', 2, false, 9000000000000, false, 'b', End>>> as Session>::Dual, <RecvTimed<String, 'c', 0, true, -1, false, 'b', SendTimed<i64, 'b', -1, true, 4, true, 'b', RecvTimed<(u64, Box<Tok>), 'a', 1, false, 4, true, 'a', End>>> as Session>::Dual>, 'a', 0, true, 2, true, ' ', End>>;
type T30 = SendTimed<Big, 'b', 0, false, 2, false, ' ', End>;
type T31 = RecvTimed<Tok, 'c', 0, false, 1, true, ' ', RecvTimed<Either<End, End>, 'a', 3, true, 5, false, ' ', End>>;
type T32 = RecvTimed<(u64, Box<Tok>), 'b', 0, true, 2, true, 'b', SendTimed<i64, 'a', -1, false, -1, false, ' ', SendTimed<Big, 'b', 0, true, 1, false, ' ', End>>>;
type T33 = RecvTimed<i64, 'a', 1, true, 1, true, 'b', RecvTimed<Tok, 'c', -2, false, -1, false, 'c', RecvTimed<String, 'c', -1, true, 1, true, ' ', SendTimed<Big, 'b', 0, false, -1, false, 'b', End>>>>;
type T34 = SendTimed<Either<<SendTimed<Either<<SendTimed<u64, 'c', 1, true, 1, true, 'c', SendTimed<(u64, Box<Tok>), 'c', -5, false, -1, false, 'a', RecvTimed<(u64, Box<Tok>), 'a', 0, true, 5, true, ' ', End>>> as Session>::Dual, <RecvTimed<Option<Vec<u64>>, 'b', 0, true, 4, true, 'c', RecvTimed<String, 'c', 2, true, 7, true, 'c', End>> as Session>::Dual>, 'c', 0, true, -1, true, 'c', End> as Session>::Dual, <SendTimed<Either<<SendTimed<i64, 'a', 3, true, 5, true, 'a', RecvTimed<Tok, 'b', 1, false, 5, true, 'b', End>> as Session>::Dual, <SendTimed<String, 'a', 1, true, 2, true, ' ', End> as Session>::Dual>, 'b', -1, false, 5, true, ' ', End> as Session>::Dual>, 'c', 0, false, 9000000000000, false, ' ', End>;
type T35 = RecvTimed<String, 'c', -1, true, 3, false, 'b', SendTimed<Option<Vec<u64>>, 'b', 1, true, 4, true, ' ', RecvTimed<Option<Vec<u64>>, 'c', -1, true, 5, true, ' ', RecvTimed<(u64, Box<Tok>), 'c', -1, false, -1, false, ' ', SendTimed<Either<<RecvTimed<(u64, Box<Tok>), 'b', 2, false, 3, true, 'c', End> as Session>::Dual, <End as Session>::Dual>, 'a', 0, true, 6, true, ' ', End>>>>>;
type T36 = RecvTimed<Option<Vec<u64>>, 'c', 1, false, 6, false, 'c', End>;
type T37 = SendTimed<Big, 'c', 2, false, -1, true, 'a', RecvTimed<i64, 'a', 1, true, 5, true, 'c', End>>;
type T38 = SendTimed<Either<<RecvTimed<Option<Vec<u64>>, 'b', -1, true, 2, true, ' ', RecvTimed<Either<End, End>, 'a', 0, true, 2, true, 'a', End>> as Session>::Dual, <RecvTimed<u64, 'a', -2, false, -1, false, 'a', End> as Session>::Dual>, 'a', -1, true, 4, true, 'a', End>;
type T39 = RecvTimed<Tok, 'b', 2, true, -1, false, 'b', SendTimed<String, 'b', 1, true, -1, true, 'b', SendTimed<Option<Vec<u64>>, 'a', 4, true, 4, true, 'a', RecvTimed<Either<End, End>, 'c', 3, false, 5, true, ' ', End>>>>;
type T40 = RecvTimed<i64, 'c', 1, true, 1, true, ' ', SendTimed<(u64, Box<Tok>), 'b', -1, true, 5, false, 'b', SendTimed<Tok, 'c', 2, true, -1, false, 'c', SendTimed<String, 'c', 2, false, 4, true, 'c', SendTimed<i64, 'b', 4, true, 8, false, ' ', End>>>>>;
type T41 = SendTimed<Big, 'b', 0, true, 2, true, 'c', RecvTimed<(u64, Box<Tok>), 'b', -1, true, 2, true, 'b', SendTimed<(u64, Box<Tok>), 'a', -1, false, -1, false, 'a', SendTimed<Big, 'b', -1, false, -1, false, ' ', SendTimed<i64, 'b', -1, false, -1, false, 'c', SendTimed<Either<<End as Session>::Dual, <End as Session>::Dual>, 'c', -1, false, 4, true, 'c', End>>>>>>;
type T42 = RecvTimed<i64, 'b', 0, true, 5, true, 'c', End>;
type T43 = RecvTimed<String, 'b', 0, false, 3, true, ' ', SendTimed<Either<<End as Session>::Dual, <End as Session>::Dual>, 'c', 0, true, 6, true, 'c', End>>;
type T44 = SendTimed<Tok, 'b', 0, true, 3, false, 'b', SendTimed<(u64, Box<Tok>), 'b', 2, false, 1, true, ' ', RecvTimed<String, 'a', 5, false, 6, true, 'a', End>>>;
type T45 = SendTimed<Option<Vec<u64>>, 'b', 1, true, 1, true, ' ', SendTimed<Option<Vec<u64>>, 'b', 2, true, 2, true, ' ', SendTimed<String, 'c', 3, true, -1, true, 'a', SendTimed<(u64, Box<Tok>), 'c', 4, true, 4, true, ' ', End>>>>;
type T46 = SendTimed<Option<Vec<u64>>, 'a', 0, true, 1, true, 'c', RecvTimed<u64, 'a', 0, false, 5, true, ' ', SendTimed<u64, 'b', 1, true, -1, true, 'a', RecvTimed<u64, 'b', 3, true, 8, true, ' ', SendTimed<Either<<End as Session>::Dual, <End as Session>::Dual>, 'c', 4, true, 4, true, 'c', End>>>>>;
type T47 = SendTimed<Big, 'a', 0, true, 3, true, 'a', RecvTimed<Tok, 'a', 2, true, 7, false, ' ', RecvTimed<Either<SendTimed<(u64, Box<Tok>), 'a', -1, true, 6, true, ' ', SendTimed<u64, 'c', 1, true, 4, false, 'c', SendTimed<Option<Vec<u64>>, 'a', 3, false, -1, true, 'a', End>>>, SendTimed<Option<Vec<u64>>, 'a', -1, true, 5, true, 'a', RecvTimed<String, 'b', 2, false, 5, true, 'a', End>>>, 'c', 3, true, 6, true, 'b', End>>>;
type T48 = RecvTimed<(u64, Box<Tok>), 'c', 0, true, -1, false, 'c', End>;
type T49 = SendTimed<i64, 'c', 2, true, 4, true, 'b', SendTimed<Big, 'a', 2, true, 3, false, 'a', End>>;
type T50 = SendTimed<u64, 'c', 0, true, 5, true, ' ', SendTimed<Either<<SendTimed<Tok, 'a', 0, true, 5, true, 'c', End> as Session>::Dual, <End as Session>::Dual>, 'b', -1, true, 2, true, ' ', End>>;
type T51 = SendTimed<i64, 'c', -1, true, 1, false, 'c', SendTimed<Either<<SendTimed<i64, 'c', 3, true, 2, true, ' ', SendTimed<Option<Vec<u64>>, 'c', 5, true, 6, false, ' ', End>> as Session>::Dual, <RecvTimed<Option<Vec<u64>>, 'b', 3, false, -1, false, ' ', End> as Session>::Dual>, 'c', 1, true, 4, true, ' ', End>>;
type T52 = SendTimed<Either<<RecvTimed<String, 'a', 1, true, -1, true, 'b', SendTimed<u64, 'c', -1, false, 5, true, 'b', RecvTimed<i64, 'b', 0, false, 4, false, 'c', RecvTimed<Tok, 'c', 0, true, 3, true, 'a', End>>>> as Session>::Dual, <SendTimed<String, 'c', 3, false, -1, true, ' ', SendTimed<Option<Vec<u64>>, 'c', 3, true, 5, true, ' ', SendTimed<(u64, Box<Tok>), 'c', 6, false, 8, true, ' ', End>>> as Session>::Dual>, 'a', 1, true, 6, true, 'a', End>;
type T53 = SendTimed<Big, 'a', 1, true, 6, true, 'a', SendTimed<Either<<RecvTimed<Either<RecvTimed<u64, 'b', 4, false, -1, true, 'c', RecvTimed<Tok, 'b', 6, true, -1, true, 'a', SendTimed<u64, 'c', 3, false, -1, false, ' ', End>>>, SendTimed<Option<Vec<u64>>, 'c', 0, false, 4, true, 'c', RecvTimed<Tok, 'b', 4, true, 9000000000000, false, ' ', End>>>, 'c', 2, false, 7, true, 'c', End> as Session>::Dual, <SendTimed<Big, 'a', 1, true, 1, true, 'c', RecvTimed<u64, 'a', 1, true, 2, false, 'a', RecvTimed<u64, 'b', 1, false, 6, true, 'b', End>>> as Session>::Dual>, 'b', 0, false, 2, true, 'c', End>>;
type T54 = SendTimed<Option<Vec<u64>>, 'b', 2, true, 5, true, 'b', End>;
type T55 = SendTimed<i64, 'a', -1, true, 4, false, 'c', RecvTimed<String, 'b', 2, true, 1, false, 'b', End>>;
type E0_0 = RecvTimed<Tok, 'a', 2, true, -1, true, ' ', End>;
type E0_1 = RecvTimed<i64, 'a', 2, true, -1, true, ' ', SendTimed<(u64, Box<Tok>), 'a', -1, false, 5, false, 'a', End>>;
timed_enum!(E0, Sel0, Off0, { L0(E0_0) = 0, L1(E0_1) = 1 }, 'c', 2, false, 3, true, 'c');
type E1_0 = RecvTimed<u64, 'c', 0, true, -1, true, ' ', End>;
type E1_1 = SendTimed<(u64, Box<Tok>), 'b', 1, true, 6, true, 'b', SendTimed<u64, 'a', -1, false, 5, true, 'a', End>>;
type E1_2 = RecvTimed<i64, 'a', 1, true, 4, true, 'c', RecvTimed<Big, 'c', 0, false, 4, true, ' ', SendTimed<Option<Vec<u64>>, 'b', 4, false, -1, false, 'b', End>>>;
timed_enum!(E1, Sel1, Off1, { L0(E1_0) = 0, L1(E1_1) = 1, L2(E1_2) = 2 }, 'a', 1, true, 1, true, ' ');
type E2_0 = SendTimed<String, 'b', 3, false, 6, true, 'c', End>;
type E2_1 = SendTimed<Option<Vec<u64>>, 'b', 4, true, 4, true, 'a', RecvTimed<u64, 'a', 0, true, 2, false, ' ', End>>;
timed_enum!(E2, Sel2, Off2, { L0(E2_0) = 0, L1(E2_1) = 1 }, 'a', 2, false, 3, true, ' ');
type E3_0 = SendTimed<(u64, Box<Tok>), 'a', 0, false, 2, false, ' ', End>;
type E3_1 = RecvTimed<i64, 'a', 1, true, -1, true, 'a', RecvTimed<Option<Vec<u64>>, 'a', 1, false, 3, false, 'a', End>>;
type E3_2 = RecvTimed<String, 'b', 1, true, 6, false, 'c', SendTimed<i64, 'b', 3, true, 6, true, ' ', SendTimed<(u64, Box<Tok>), 'b', 4, false, 6, false, ' ', End>>>;
timed_enum!(E3, Sel3, Off3, { L0(E3_0) = 0, L1(E3_1) = 1, L2(E3_2) = 2 }, 'c', 0, true, 1, true, ' ');
pub static ALL: &[P] = &[P { name: "timed/t0", clocks: "abcd", max: 2, go: go::<T0> }, P { name: "timed/t1", clocks: "abcd", max: 3, go: go::<T1> }, P { name: "timed/t2", clocks: "abcd", max: 4, go: go::<T2> }, P { name: "timed/t3", clocks: "abcd", max: 5, go: go::<T3> }, P { name: "timed/t4", clocks: "abcd", max: 6, go: go::<T4> }, P { name: "timed/t5", clocks: "abcd", max: 7, go: go::<T5> }, P { name: "timed/t6", clocks: "abcd", max: 2, go: go::<T6> }, P { name: "timed/t7", clocks: "abcd", max: 3, go: go::<T7> }, P { name: "timed/t8", clocks: "abcd", max: 4, go: go::<T8> }, P { name: "timed/t9", clocks: "abcd", max: 5, go: go::<T9> }, P { name: "timed/t10", clocks: "abcd", max: 6, go: go::<T10> }, P { name: "timed/t11", clocks: "abcd", max: 7, go: go::<T11> }, P { name: "timed/t12", clocks: "abcd", max: 2, go: go::<T12> }, P { name: "timed/t13", clocks: "abcd", max: 3, go: go::<T13> }, P { name: "timed/t14", clocks: "abcd", max: 4, go: go::<T14> }, P { name: "timed/t15", clocks: "abcd", max: 5, go: go::<T15> }, P { name: "timed/t16", clocks: "abcd", max: 6, go: go::<T16> }, P { name: "timed/t17", clocks: "abcd", max: 7, go: go::<T17> }, P { name: "timed/t18", clocks: "abcd", max: 2, go: go::<T18> }, P { name: "timed/t19", clocks: "abcd", max: 3, go: go::<T19> }, P { name: "timed/t20", clocks: "abcd", max: 4, go: go::<T20> }, P { name: "timed/t21", clocks: "abcd", max: 5, go: go::<T21> }, P { name: "timed/t22", clocks: "abcd", max: 6, go: go::<T22> }, P { name: "timed/t23", clocks: "abcd", max: 7, go: go::<T23> }, P { name: "timed/t24", clocks: "abcd", max: 2, go: go::<T24> }, P { name: "timed/t25", clocks: "abcd", max: 3, go: go::<T25> }, P { name: "timed/t26", clocks: "abcd", max: 4, go: go::<T26> }, P { name: "timed/t27", clocks: "abcd", max: 5, go: go::<T27> }, P { name: "timed/t28", clocks: "abcd", max: 6, go: go::<T28> }, P { name: "timed/t29", clocks: "abcd", max: 7, go: go::<T29> }, P { name: "timed/t30", clocks: "abcd", max: 2, go: go::<T30> }, P { name: "timed/t31", clocks: "abcd", max: 3, go: go::<T31> }, P { name: "timed/t32", clocks: "abcd", max: 4, go: go::<T32> }, P { name: "timed/t33", clocks: "abcd", max: 5, go: go::<T33> }, P { name: "timed/t34", clocks: "abcd", max: 6, go: go::<T34> }, P { name: "timed/t35", clocks: "abcd", max: 7, go: go::<T35> }, P { name: "timed/t36", clocks: "abcd", max: 2, go: go::<T36> }, P { name: "timed/t37", clocks: "abcd", max: 3, go: go::<T37> }, P { name: "timed/t38", clocks: "abcd", max: 4, go: go::<T38> }, P { name: "timed/t39", clocks: "abcd", max: 5, go: go::<T39> }, P { name: "timed/t40", clocks: "abcd", max: 6, go: go::<T40> }, P { name: "timed/t41", clocks: "abcd", max: 7, go: go::<T41> }, P { name: "timed/t42", clocks: "abcd", max: 2, go: go::<T42> }, P { name: "timed/t43", clocks: "abcd", max: 3, go: go::<T43> }, P { name: "timed/t44", clocks: "abcd", max: 4, go: go::<T44> }, P { name: "timed/t45", clocks: "abcd", max: 5, go: go::<T45> }, P { name: "timed/t46", clocks: "abcd", max: 6, go: go::<T46> }, P { name: "timed/t47", clocks: "abcd", max: 7, go: go::<T47> }, P { name: "timed/t48", clocks: "abcd", max: 2, go: go::<T48> }, P { name: "timed/t49", clocks: "abcd", max: 3, go: go::<T49> }, P { name: "timed/t50", clocks: "abcd", max: 4, go: go::<T50> }, P { name: "timed/t51", clocks: "abcd", max: 5, go: go::<T51> }, P { name: "timed/t52", clocks: "abcd", max: 6, go: go::<T52> }, P { name: "timed/t53", clocks: "abcd", max: 7, go: go::<T53> }, P { name: "timed/t54", clocks: "abcd", max: 2, go: go::<T54> }, P { name: "timed/t55", clocks: "abcd", max: 3, go: go::<T55> }, P { name: "timed/e0", clocks: "abcd", max: 4, go: go::<Off0> }, P { name: "timed/e1", clocks: "abcd", max: 5, go: go::<Sel1> }, P { name: "timed/e2", clocks: "abcd", max: 4, go: go::<Off2> }, P { name: "timed/e3", clocks: "abcd", max: 5, go: go::<Sel3> }];
