// Generated by bin/gen_fusion.py
constexpr int N_SPECS = 48;
static const Spec spec0 = {0, 4, 4, 2, 0, 0, 0, 2, 0, 0, 1, {5, 4, 1, 2}, {}, "Pool<>, Own<0, 1>, Inline::NEVER, Priority::IDLE, Own<0, 0>, Optional<With<M<1>>>, Hook<0, 0>, Trigger<M<2>>", "std::shared_ptr<const V<1>>, const V<0>&, const std::shared_ptr<const M<1>>&, const M<2>&"};
struct Part0 : Base { using Base::Base; void make() { handle(0, on<Pool<>, Own<0, 1>, Inline::NEVER, Priority::IDLE, Own<0, 0>, Optional<With<M<1>>>, Hook<0, 0>, Trigger<M<2>>>().then(std::function<void(std::shared_ptr<const V<1>>, const V<0>&, const std::shared_ptr<const M<1>>&, const M<2>&)>([](std::shared_ptr<const V<1>> a0, const V<0>& a1, const std::shared_ptr<const M<1>>& a2, const M<2>& a3) { ran(0, {val(a0), val(a1), val(a2), val(a3)}); }))); } };
static const Spec spec1 = {1, 2, 10, 0, 0, 0, 250, 2, 0, 3, 2, {3, 1}, {884, 293}, "Priority::LOW, Gate<1, 0>, Hook<1, 0>, Pool<>, Priority::LOW, Own<1, 0>, Gate<1, 1>, Gate<1, 2>, With<M<3>>, Trigger<M<1>>, Priority::LOW, Hook<1, 1>, Returns<1, 1>, Inline::NEVER, Inline::NEVER, Takes<1, 0>", "std::shared_ptr<const M<3>>, std::shared_ptr<const M<1>>"};
struct Part1 : Base { using Base::Base; void make() { auto res = on<Priority::LOW, Gate<1, 0>, Hook<1, 0>, Pool<>, Priority::LOW, Own<1, 0>, Gate<1, 1>, Gate<1, 2>, With<M<3>>, Trigger<M<1>>, Priority::LOW, Hook<1, 1>, Returns<1, 1>, Inline::NEVER, Inline::NEVER, Takes<1, 0>>(std::string("884"), 293).then([](std::shared_ptr<const M<3>> a0, std::shared_ptr<const M<1>> a1) { ran(1, {val(a0), val(a1)}); }); handle(1, std::get<0>(res)); returned(1, std::get<1>(res), 885); } };
static const Spec spec2 = {2, 9, 4, 9, 1, 4, 500, 0, 0, 0, 0, {2}, {}, "Sync<S2>, With<M<2>>, Optional<Trigger<M<3>>>, MainThread, Optional<Trigger<M<0>>>", "std::shared_ptr<const M<2>>"};
struct Part2 : Base { using Base::Base; void make() { handle(2, on<Sync<S2>, With<M<2>>, Optional<Trigger<M<3>>>, MainThread, Optional<Trigger<M<0>>>>().then(std::function<void(std::shared_ptr<const M<2>>)>([](std::shared_ptr<const M<2>> a0) { ran(2, {val(a0)}); }))); } };
static const Spec spec3 = {3, 10, 9, 2, 1, 2, 750, 0, 0, 0, 1, {0, 3, 4, 1}, {}, "Priority::NORMAL, With<M<0>>, Trigger<M<3>>, Own<3, 1>, Sync<S1>, Hook<3, 0>, MainThread, Own<3, 0>, Optional<Trigger<M<1>>>, Priority::HIGH", "const M<0>&, M<3>, const V<0>&, std::shared_ptr<const M<1>>"};
struct Part3 : Base { using Base::Base; void make() { handle(3, on<Priority::NORMAL, With<M<0>>, Trigger<M<3>>, Own<3, 1>, Sync<S1>, Hook<3, 0>, MainThread, Own<3, 0>, Optional<Trigger<M<1>>>, Priority::HIGH>().then([](const M<0>& a0, M<3> a1, const V<0>& a2, std::shared_ptr<const M<1>> a3) { ran(3, {val(a0), val(a1), val(a2), val(a3)}); })); } };
static const Spec spec4 = {4, 12, 12, 0, 3, 1, 750, 0, 0, 3, 0, {2}, {}, "Priority::HIGH, Gate<4, 1>, Priority::NORMAL, Sync<S0>, Pool<P2>, Trigger<M<2>>, Trigger<M<3>>, Gate<4, 0>, Priority::LOW, Gate<4, 2>", "M<2>"};
struct Part4 : Base { using Base::Base; void make() { handle(4, on<Priority::HIGH, Gate<4, 1>, Priority::NORMAL, Sync<S0>, Pool<P2>, Trigger<M<2>>, Trigger<M<3>>, Gate<4, 0>, Priority::LOW, Gate<4, 2>>().then([](M<2> a0) { ran(4, {val(a0)}); })); } };
static const Spec spec5 = {5, 10, 11, 0, 0, 0, 500, 2, 0, 2, 0, {3, 5, 4}, {}, "Trigger<M<3>>, Trigger<M<1>>, Own<5, 1>, Gate<5, 0>, With<M<0>>, Inline::NEVER, Pool<>, Inline::NEVER, Own<5, 0>, Gate<5, 1>", "std::shared_ptr<const M<3>>, std::shared_ptr<const V<1>>, std::shared_ptr<const V<0>>"};
struct Part5 : Base { using Base::Base; void make() { handle(5, on<Trigger<M<3>>, Trigger<M<1>>, Own<5, 1>, Gate<5, 0>, With<M<0>>, Inline::NEVER, Pool<>, Inline::NEVER, Own<5, 0>, Gate<5, 1>>().then([](std::shared_ptr<const M<3>> a0, std::shared_ptr<const V<1>> a1, std::shared_ptr<const V<0>> a2) { ran(5, {val(a0), val(a1), val(a2)}); })); } };
void f6(const std::shared_ptr<const M<2>>& a0, V<0> a1, M<0> a2) { ran(6, {val(a0), val(a1), val(a2)}); }
static const Spec spec6 = {6, 9, 9, 6, 0, 21, 750, 1, 0, 0, 1, {2, 4, 0}, {122}, "Priority::HIGH, Sync<S0>, Optional<With<M<2>>, With<M<1>>>, Group<G3>, Own<6, 0>, Inline::ALWAYS, Trigger<M<0>>, Pair<6>, Sync<S2>, Hook<6, 0>, Own<6, 1>, Trigger<M<3>>, Takes<6, 0>", "const std::shared_ptr<const M<2>>&, V<0>, M<0>"};
struct Part6 : Base { using Base::Base; void make() { handle(6, on<Priority::HIGH, Sync<S0>, Optional<With<M<2>>, With<M<1>>>, Group<G3>, Own<6, 0>, Inline::ALWAYS, Trigger<M<0>>, Pair<6>, Sync<S2>, Hook<6, 0>, Own<6, 1>, Trigger<M<3>>, Takes<6, 0>>(122).then(&f6)); } };
void f7(M<2> a0, const M<0>& a1, V<0> a2) { ran(7, {val(a0), val(a1), val(a2)}); }
static const Spec spec7 = {7, 8, 15, 0, 0, 0, 0, 2, 0, 0, 3, {2, 0, 4}, {402, 912, 925, 663}, "Hook<7, 0>, Hook<7, 2>, Returns<7, 2>, With<M<2>>, Trigger<M<3>>, With<M<1>>, Priority::IDLE, Takes<7, 0>, Inline::NEVER, With<M<0>>, TakesTwo<7, 1>, Own<7, 0>, Hook<7, 1>", "M<2>, const M<0>&, V<0>"};
struct Part7 : Base { using Base::Base; void make() { auto res = on<Hook<7, 0>, Hook<7, 2>, Returns<7, 2>, With<M<2>>, Trigger<M<3>>, With<M<1>>, Priority::IDLE, Takes<7, 0>, Inline::NEVER, With<M<0>>, TakesTwo<7, 1>, Own<7, 0>, Hook<7, 1>>(std::string("402"), 912, 925, "663").then(&f7); handle(7, std::get<0>(res)); returned(7, std::get<1>(res), 403); returned(7, std::get<2>(res), 925663); } };
struct F8 { void operator()(const std::shared_ptr<const M<3>>& a0, std::shared_ptr<const M<1>> a1) const { ran(8, {val(a0), val(a1)}); } };
static const Spec spec8 = {8, 8, 8, 2, 0, 1, 750, 0, 0, 0, 1, {3, 1}, {142}, "Own<8, 0>, Priority::HIGH, Returns<8, 0>, Priority::HIGH, Priority::NORMAL, Sync<S0>, Hook<8, 0>, Own<8, 1>, Trigger<M<3>>, Optional<With<M<1>>>, Pool<>", "const std::shared_ptr<const M<3>>&, std::shared_ptr<const M<1>>"};
struct Part8 : Base { using Base::Base; void make() { auto res = on<Own<8, 0>, Priority::HIGH, Returns<8, 0>, Priority::HIGH, Priority::NORMAL, Sync<S0>, Hook<8, 0>, Own<8, 1>, Trigger<M<3>>, Optional<With<M<1>>>, Pool<>>(std::string("142")).then(F8()); handle(8, std::get<0>(res)); returned(8, std::get<1>(res), 143); } };
static const Spec spec9 = {9, 1, 3, 8, 0, 0, 500, 0, 0, 0, 0, {3, 4, 1}, {662, 958, 320, 960}, "Returns<9, 0>, Optional<With<M<3>>>, Takes<9, 1>, Own<9, 0>, TakesTwo<9, 2>, Trigger<M<0>>, With<M<1>>", "std::shared_ptr<const M<3>>, const std::shared_ptr<const V<0>>&, std::shared_ptr<const M<1>>"};
struct Part9 : Base { using Base::Base; void make() { auto res = on<Returns<9, 0>, Optional<With<M<3>>>, Takes<9, 1>, Own<9, 0>, TakesTwo<9, 2>, Trigger<M<0>>, With<M<1>>>(std::string("662"), 958, 320, "960").then([](std::shared_ptr<const M<3>> a0, const std::shared_ptr<const V<0>>& a1, std::shared_ptr<const M<1>> a2) { ran(9, {val(a0), val(a1), val(a2)}); }); handle(9, std::get<0>(res)); returned(9, std::get<1>(res), 663); returned(9, std::get<2>(res), 320960); } };
static const Spec spec10 = {10, 3, 3, 12, 0, 22, 250, 0, 0, 3, 0, {0, 3, 1, 5, 4}, {92, 373}, "Gate<10, 1>, Takes<10, 0>, Sync<S1>, Trigger<M<0>>, Group<G3>, Optional<With<M<3>>>, Trigger<M<1>>, Own<10, 1>, Returns<10, 1>, Priority::LOW, Gate<10, 0>, Sync<S2>, Own<10, 0>, Gate<10, 2>, Optional<With<M<2>>>", "const std::shared_ptr<const M<0>>&, std::shared_ptr<const M<3>>, M<1>, const V<1>&, const V<0>&"};
struct Part10 : Base { using Base::Base; void make() { auto res = on<Gate<10, 1>, Takes<10, 0>, Sync<S1>, Trigger<M<0>>, Group<G3>, Optional<With<M<3>>>, Trigger<M<1>>, Own<10, 1>, Returns<10, 1>, Priority::LOW, Gate<10, 0>, Sync<S2>, Own<10, 0>, Gate<10, 2>, Optional<With<M<2>>>>(92, std::string("373")).then("label 10", [](const std::shared_ptr<const M<0>>& a0, std::shared_ptr<const M<3>> a1, M<1> a2, const V<1>& a3, const V<0>& a4) { ran(10, {val(a0), val(a1), val(a2), val(a3), val(a4)}); }); handle(10, std::get<0>(res)); returned(10, std::get<1>(res), 374); } };
static const Spec spec11 = {11, 5, 5, 10, 2, 0, 750, 0, 0, 1, 0, {1, 3}, {}, "Optional<With<M<1>>>, Pool<P1>, Trigger<M<2>>, Pair<11>, Optional<With<M<3>>>, Gate<11, 0>, Priority::HIGH, Trigger<M<0>>", "std::shared_ptr<const M<1>>, const std::shared_ptr<const M<3>>&"};
struct Part11 : Base { using Base::Base; void make() { handle(11, on<Optional<With<M<1>>>, Pool<P1>, Trigger<M<2>>, Pair<11>, Optional<With<M<3>>>, Gate<11, 0>, Priority::HIGH, Trigger<M<0>>>().then([](std::shared_ptr<const M<1>> a0, const std::shared_ptr<const M<3>>& a1) { ran(11, {val(a0), val(a1)}); })); } };
struct F12 { void operator()(M<3> a0) const { ran(12, {val(a0)}); } };
static const Spec spec12 = {12, 1, 9, 0, 0, 12, 500, 0, 0, 2, 1, {3}, {}, "With<M<3>>, Own<12, 0>, Trigger<M<0>>, Gate<12, 0>, Group<G2>, Hook<12, 0>, Sync<S2>, Gate<12, 1>, Pool<>", "M<3>"};
struct Part12 : Base { using Base::Base; void make() { handle(12, on<With<M<3>>, Own<12, 0>, Trigger<M<0>>, Gate<12, 0>, Group<G2>, Hook<12, 0>, Sync<S2>, Gate<12, 1>, Pool<>>().then(F12())); } };
static const Spec spec13 = {13, 4, 4, 3, 2, 0, 500, 0, 0, 1, 0, {2}, {846}, "Gate<13, 0>, Pool<P1>, Pair<13>, Optional<With<M<1>>>, Trigger<M<2>>, Optional<With<M<0>>>, Takes<13, 0>", "const M<2>&"};
struct Part13 : Base { using Base::Base; void make() { handle(13, on<Gate<13, 0>, Pool<P1>, Pair<13>, Optional<With<M<1>>>, Trigger<M<2>>, Optional<With<M<0>>>, Takes<13, 0>>(846).then(std::function<void(const M<2>&)>([](const M<2>& a0) { ran(13, {val(a0)}); }))); } };
void f14(std::shared_ptr<const M<0>> a0, std::shared_ptr<const M<1>> a1) { ran(14, {val(a0), val(a1)}); }
static const Spec spec14 = {14, 4, 6, 1, 2, 0, 0, 2, 0, 0, 3, {0, 1}, {111, 782}, "Takes<14, 1>, Optional<With<M<0>>>, Trigger<M<2>>, Priority::IDLE, Priority::IDLE, Hook<14, 0>, Pool<P1>, With<M<1>>, Returns<14, 0>, Hook<14, 2>, Hook<14, 1>, Inline::NEVER, Priority::IDLE", "std::shared_ptr<const M<0>>, std::shared_ptr<const M<1>>"};
struct Part14 : Base { using Base::Base; void make() { auto res = on<Takes<14, 1>, Optional<With<M<0>>>, Trigger<M<2>>, Priority::IDLE, Priority::IDLE, Hook<14, 0>, Pool<P1>, With<M<1>>, Returns<14, 0>, Hook<14, 2>, Hook<14, 1>, Inline::NEVER, Priority::IDLE>(111, std::string("782")).then(&f14); handle(14, std::get<0>(res)); returned(14, std::get<1>(res), 783); } };
static const Spec spec15 = {15, 6, 3, 12, 0, 6, 750, 0, 0, 0, 1, {0, 1, 3, 2, 5}, {}, "Hook<15, 0>, With<M<0>>, Trigger<M<1>>, Sync<S1>, Optional<With<M<3>>>, Optional<Trigger<M<2>>>, Sync<S2>, Own<15, 1>, Priority::HIGH, Own<15, 0>", "const M<0>&, M<1>, std::shared_ptr<const M<3>>, std::shared_ptr<const M<2>>, std::shared_ptr<const V<1>>"};
struct Part15 : Base { using Base::Base; void make() { handle(15, on<Hook<15, 0>, With<M<0>>, Trigger<M<1>>, Sync<S1>, Optional<With<M<3>>>, Optional<Trigger<M<2>>>, Sync<S2>, Own<15, 1>, Priority::HIGH, Own<15, 0>>().then([](const M<0>& a0, M<1> a1, std::shared_ptr<const M<3>> a2, std::shared_ptr<const M<2>> a3, std::shared_ptr<const V<1>> a4) { ran(15, {val(a0), val(a1), val(a2), val(a3), val(a4)}); })); } };
static const Spec spec16 = {16, 6, 15, 0, 3, 0, 500, 2, 0, 2, 0, {4, 3, 5, 2, 0}, {}, "Own<16, 0>, Gate<16, 1>, Pool<P2>, With<M<3>>, Own<16, 1>, Gate<16, 0>, Trigger<M<1>>, Inline::NEVER, Trigger<M<2>>, With<M<0>>", "const V<0>&, std::shared_ptr<const M<3>>, const V<1>&, const std::shared_ptr<const M<2>>&, std::shared_ptr<const M<0>>"};
struct Part16 : Base { using Base::Base; void make() { handle(16, on<Own<16, 0>, Gate<16, 1>, Pool<P2>, With<M<3>>, Own<16, 1>, Gate<16, 0>, Trigger<M<1>>, Inline::NEVER, Trigger<M<2>>, With<M<0>>>().then([](const V<0>& a0, std::shared_ptr<const M<3>> a1, const V<1>& a2, const std::shared_ptr<const M<2>>& a3, std::shared_ptr<const M<0>> a4) { ran(16, {val(a0), val(a1), val(a2), val(a3), val(a4)}); })); } };
static const Spec spec17 = {17, 5, 5, 2, 2, 16, 1000, 0, 2, 0, 1, {1, 2, 0, 6, 7, 4}, {371, 314, 230}, "Priority::REALTIME, Takes<17, 1>, Optional<With<M<1>>>, Trigger<M<2>>, Group<G3>, Buffer<2>, Priority::NORMAL, Trigger<M<0>>, Pair<17>, Own<17, 0>, Pool<P1>, Priority::LOW, Hook<17, 0>, TakesTwo<17, 0>", "std::shared_ptr<const M<1>>, M<2>, M<0>, const V<2>&, const std::shared_ptr<const V<3>>&, V<0>"};
struct Part17 : Base { using Base::Base; void make() { auto res = on<Priority::REALTIME, Takes<17, 1>, Optional<With<M<1>>>, Trigger<M<2>>, Group<G3>, Buffer<2>, Priority::NORMAL, Trigger<M<0>>, Pair<17>, Own<17, 0>, Pool<P1>, Priority::LOW, Hook<17, 0>, TakesTwo<17, 0>>(371, 314, "230").then([](std::shared_ptr<const M<1>> a0, M<2> a1, M<0> a2, const V<2>& a3, const std::shared_ptr<const V<3>>& a4, V<0> a5) { ran(17, {val(a0), val(a1), val(a2), val(a3), val(a4), val(a5)}); }); handle(17, std::get<0>(res)); returned(17, std::get<1>(res), 314230); } };
struct F18 { void operator()(const std::shared_ptr<const M<3>>& a0, M<2> a1) const { ran(18, {val(a0), val(a1)}); } };
static const Spec spec18 = {18, 6, 15, 0, 0, 6, 500, 1, 0, 0, 1, {3, 2}, {430, 266, 864, 542}, "Returns<18, 2>, With<M<3>>, TakesTwo<18, 0>, Hook<18, 0>, Trigger<M<1>>, Trigger<M<2>>, Sync<S1>, Inline::ALWAYS, With<M<0>>, Sync<S2>, Returns<18, 1>", "const std::shared_ptr<const M<3>>&, M<2>"};
struct Part18 : Base { using Base::Base; void make() { auto res = on<Returns<18, 2>, With<M<3>>, TakesTwo<18, 0>, Hook<18, 0>, Trigger<M<1>>, Trigger<M<2>>, Sync<S1>, Inline::ALWAYS, With<M<0>>, Sync<S2>, Returns<18, 1>>(std::string("430"), 266, "864", std::string("542")).then(F18()); handle(18, std::get<0>(res)); returned(18, std::get<1>(res), 431); returned(18, std::get<2>(res), 266864); returned(18, std::get<3>(res), 543); } };
static const Spec spec19 = {19, 2, 6, 9, 0, 0, 1000, 2, 0, 0, 2, {3, 0, 2}, {}, "Priority::REALTIME, Optional<With<M<3>>>, Optional<With<M<0>>>, Hook<19, 0>, Inline::NEVER, Trigger<M<1>>, With<M<2>>, Hook<19, 1>", "const std::shared_ptr<const M<3>>&, std::shared_ptr<const M<0>>, M<2>"};
struct Part19 : Base { using Base::Base; void make() { handle(19, on<Priority::REALTIME, Optional<With<M<3>>>, Optional<With<M<0>>>, Hook<19, 0>, Inline::NEVER, Trigger<M<1>>, With<M<2>>, Hook<19, 1>>().then([](const std::shared_ptr<const M<3>>& a0, std::shared_ptr<const M<0>> a1, M<2> a2) { ran(19, {val(a0), val(a1), val(a2)}); })); } };
void f20(const M<2>& a0, std::shared_ptr<const M<0>> a1, const std::shared_ptr<const M<1>>& a2) { ran(20, {val(a0), val(a1), val(a2)}); }
static const Spec spec20 = {20, 4, 7, 0, 2, 1, 500, 0, 0, 0, 3, {2, 0, 1}, {912, 984}, "Hook<20, 1>, Trigger<M<2>>, Hook<20, 0>, Pool<P1>, Returns<20, 1>, Returns<20, 0>, Sync<S0>, Hook<20, 2>, With<M<0>>, With<M<1>>", "const M<2>&, std::shared_ptr<const M<0>>, const std::shared_ptr<const M<1>>&"};
struct Part20 : Base { using Base::Base; void make() { auto res = on<Hook<20, 1>, Trigger<M<2>>, Hook<20, 0>, Pool<P1>, Returns<20, 1>, Returns<20, 0>, Sync<S0>, Hook<20, 2>, With<M<0>>, With<M<1>>>(std::string("912"), std::string("984")).then(&f20); handle(20, std::get<0>(res)); returned(20, std::get<1>(res), 913); returned(20, std::get<2>(res), 985); } };
static const Spec spec21 = {21, 2, 1, 2, 3, 0, 750, 1, 0, 2, 0, {1, 0}, {770, 762, 778}, "Returns<21, 1>, Priority::LOW, Takes<21, 2>, Priority::IDLE, Optional<Trigger<M<1>>>, Gate<21, 0>, Inline::ALWAYS, Gate<21, 1>, Takes<21, 0>, Priority::HIGH, Own<21, 0>, Pool<P2>, With<M<0>>", "std::shared_ptr<const M<1>>, const M<0>&"};
struct Part21 : Base { using Base::Base; void make() { auto res = on<Returns<21, 1>, Priority::LOW, Takes<21, 2>, Priority::IDLE, Optional<Trigger<M<1>>>, Gate<21, 0>, Inline::ALWAYS, Gate<21, 1>, Takes<21, 0>, Priority::HIGH, Own<21, 0>, Pool<P2>, With<M<0>>>(std::string("770"), 762, 778).then([](std::shared_ptr<const M<1>> a0, const M<0>& a1) { ran(21, {val(a0), val(a1)}); }); handle(21, std::get<0>(res)); returned(21, std::get<1>(res), 771); } };
static const Spec spec22 = {22, 2, 2, 9, 1, 18, 500, 0, 0, 0, 0, {1, 3}, {}, "Sync<S1>, Trigger<M<1>>, Optional<With<M<0>>>, MainThread, Group<G3>, Optional<With<M<3>>>", "M<1>, std::shared_ptr<const M<3>>"};
struct Part22 : Base { using Base::Base; void make() { handle(22, on<Sync<S1>, Trigger<M<1>>, Optional<With<M<0>>>, MainThread, Group<G3>, Optional<With<M<3>>>>().then(std::function<void(M<1>, std::shared_ptr<const M<3>>)>([](M<1> a0, std::shared_ptr<const M<3>> a1) { ran(22, {val(a0), val(a1)}); }))); } };
static const Spec spec23 = {23, 5, 5, 2, 0, 2, 0, 0, 0, 2, 2, {2, 1}, {197, 715, 773, 368, 433}, "Hook<23, 0>, Trigger<M<0>>, Gate<23, 0>, Trigger<M<2>>, Sync<S1>, Gate<23, 1>, TakesTwo<23, 1>, Returns<23, 2>, Priority::IDLE, Own<23, 0>, Hook<23, 1>, Pool<>, Optional<With<M<1>>>, TakesTwo<23, 0>, Own<23, 1>", "std::shared_ptr<const M<2>>, std::shared_ptr<const M<1>>"};
struct Part23 : Base { using Base::Base; void make() { auto res = on<Hook<23, 0>, Trigger<M<0>>, Gate<23, 0>, Trigger<M<2>>, Sync<S1>, Gate<23, 1>, TakesTwo<23, 1>, Returns<23, 2>, Priority::IDLE, Own<23, 0>, Hook<23, 1>, Pool<>, Optional<With<M<1>>>, TakesTwo<23, 0>, Own<23, 1>>(197, "715", std::string("773"), 368, "433").then([](std::shared_ptr<const M<2>> a0, std::shared_ptr<const M<1>> a1) { ran(23, {val(a0), val(a1)}); }); handle(23, std::get<0>(res)); returned(23, std::get<1>(res), 197715); returned(23, std::get<2>(res), 774); returned(23, std::get<3>(res), 368433); } };
static const Spec spec24 = {24, 1, 2, 9, 3, 1, 750, 0, 1, 1, 0, {0, 4, 5, 1}, {}, "Optional<Trigger<M<0>>>, Pool<P2>, Both<Sync<S0>, Priority::HIGH>, Own<24, 0>, Own<24, 1>, With<M<1>>, Optional<With<M<3>>>, Gate<24, 0>, Single", "const std::shared_ptr<const M<0>>&, const V<0>&, const V<1>&, M<1>"};
struct Part24 : Base { using Base::Base; void make() { handle(24, on<Optional<Trigger<M<0>>>, Pool<P2>, Both<Sync<S0>, Priority::HIGH>, Own<24, 0>, Own<24, 1>, With<M<1>>, Optional<With<M<3>>>, Gate<24, 0>, Single>().then(std::function<void(const std::shared_ptr<const M<0>>&, const V<0>&, const V<1>&, M<1>)>([](const std::shared_ptr<const M<0>>& a0, const V<0>& a1, const V<1>& a2, M<1> a3) { ran(24, {val(a0), val(a1), val(a2), val(a3)}); }))); } };
void f25(M<1> a0, const std::shared_ptr<const M<3>>& a1) { ran(25, {val(a0), val(a1)}); }
static const Spec spec25 = {25, 10, 14, 0, 3, 8, 750, 0, 0, 2, 2, {1, 3}, {}, "Gate<25, 0>, Hook<25, 0>, Hook<25, 1>, Priority::LOW, Gate<25, 1>, Pool<P2>, Group<G2>, With<M<2>>, Priority::HIGH, Trigger<M<1>>, Priority::LOW, Trigger<M<3>>", "M<1>, const std::shared_ptr<const M<3>>&"};
struct Part25 : Base { using Base::Base; void make() { handle(25, on<Gate<25, 0>, Hook<25, 0>, Hook<25, 1>, Priority::LOW, Gate<25, 1>, Pool<P2>, Group<G2>, With<M<2>>, Priority::HIGH, Trigger<M<1>>, Priority::LOW, Trigger<M<3>>>().then(&f25)); } };
static const Spec spec26 = {26, 12, 12, 1, 0, 2, 500, 0, 0, 0, 3, {2, 0}, {634}, "Returns<26, 0>, Sync<S1>, Hook<26, 0>, Hook<26, 1>, Own<26, 0>, Hook<26, 2>, Trigger<M<2>>, Optional<With<M<0>>>, Trigger<M<3>>", "const M<2>&, const std::shared_ptr<const M<0>>&"};
struct Part26 : Base { using Base::Base; void make() { auto res = on<Returns<26, 0>, Sync<S1>, Hook<26, 0>, Hook<26, 1>, Own<26, 0>, Hook<26, 2>, Trigger<M<2>>, Optional<With<M<0>>>, Trigger<M<3>>>(std::string("634")).then([](const M<2>& a0, const std::shared_ptr<const M<0>>& a1) { ran(26, {val(a0), val(a1)}); }); handle(26, std::get<0>(res)); returned(26, std::get<1>(res), 635); } };
void f27(std::shared_ptr<const M<2>> a0, const std::shared_ptr<const M<0>>& a1, M<3> a2) { ran(27, {val(a0), val(a1), val(a2)}); }
static const Spec spec27 = {27, 1, 9, 4, 3, 11, 750, 0, 0, 1, 2, {2, 0, 3}, {}, "Gate<27, 0>, Optional<With<M<2>>>, Both<Group<G2>, Priority::HIGH>, Pool<P2>, Trigger<M<0>>, With<M<3>>, Hook<27, 1>, Priority::LOW, Sync<S0>, Sync<S1>, Hook<27, 0>", "std::shared_ptr<const M<2>>, const std::shared_ptr<const M<0>>&, M<3>"};
struct Part27 : Base { using Base::Base; void make() { handle(27, on<Gate<27, 0>, Optional<With<M<2>>>, Both<Group<G2>, Priority::HIGH>, Pool<P2>, Trigger<M<0>>, With<M<3>>, Hook<27, 1>, Priority::LOW, Sync<S0>, Sync<S1>, Hook<27, 0>>().then(&f27)); } };
void f28(const std::shared_ptr<const M<2>>& a0, std::shared_ptr<const V<1>> a1, V<0> a2, std::shared_ptr<const M<0>> a3, const std::shared_ptr<const M<3>>& a4) { ran(28, {val(a0), val(a1), val(a2), val(a3), val(a4)}); }
static const Spec spec28 = {28, 3, 15, 0, 2, 2, 500, 0, 0, 0, 2, {2, 5, 4, 0, 3}, {872, 12, 476, 802}, "TakesTwo<28, 0>, Trigger<M<1>>, Pair<28>, With<M<2>>, Own<28, 1>, Own<28, 0>, Trigger<M<0>>, Hook<28, 0>, With<M<3>>, TakesTwo<28, 1>, Pool<P1>, Hook<28, 1>, Sync<S1>", "const std::shared_ptr<const M<2>>&, std::shared_ptr<const V<1>>, V<0>, std::shared_ptr<const M<0>>, const std::shared_ptr<const M<3>>&"};
struct Part28 : Base { using Base::Base; void make() { auto res = on<TakesTwo<28, 0>, Trigger<M<1>>, Pair<28>, With<M<2>>, Own<28, 1>, Own<28, 0>, Trigger<M<0>>, Hook<28, 0>, With<M<3>>, TakesTwo<28, 1>, Pool<P1>, Hook<28, 1>, Sync<S1>>(872, "12", 476, "802").then(&f28); handle(28, std::get<0>(res)); returned(28, std::get<1>(res), 872012); returned(28, std::get<2>(res), 476802); } };
struct F29 { void operator()(M<2> a0, M<1> a1, std::shared_ptr<const M<0>> a2) const { ran(29, {val(a0), val(a1), val(a2)}); } };
static const Spec spec29 = {29, 1, 7, 0, 0, 16, 1000, 0, 0, 0, 1, {2, 1, 0}, {}, "Group<G3>, With<M<2>>, With<M<1>>, Trigger<M<0>>, Hook<29, 0>, Priority::REALTIME, Priority::HIGH", "M<2>, M<1>, std::shared_ptr<const M<0>>"};
struct Part29 : Base { using Base::Base; void make() { handle(29, on<Group<G3>, With<M<2>>, With<M<1>>, Trigger<M<0>>, Hook<29, 0>, Priority::REALTIME, Priority::HIGH>().then(F29())); } };
static const Spec spec30 = {30, 2, 10, 4, 0, 0, 500, 1, 0, 0, 0, {3, 4, 1, 2}, {879, 509}, "Returns<30, 1>, With<M<3>>, Returns<30, 0>, Inline::ALWAYS, Own<30, 0>, Trigger<M<1>>, Optional<With<M<2>>>, Pool<>", "std::shared_ptr<const M<3>>, const std::shared_ptr<const V<0>>&, M<1>, const std::shared_ptr<const M<2>>&"};
struct Part30 : Base { using Base::Base; void make() { auto res = on<Returns<30, 1>, With<M<3>>, Returns<30, 0>, Inline::ALWAYS, Own<30, 0>, Trigger<M<1>>, Optional<With<M<2>>>, Pool<>>(std::string("879"), std::string("509")).then("label 30", [](std::shared_ptr<const M<3>> a0, const std::shared_ptr<const V<0>>& a1, M<1> a2, const std::shared_ptr<const M<2>>& a3) { ran(30, {val(a0), val(a1), val(a2), val(a3)}); }); handle(30, std::get<0>(res)); returned(30, std::get<1>(res), 880); returned(30, std::get<2>(res), 510); } };
static const Spec spec31 = {31, 10, 10, 0, 0, 4, 500, 0, 0, 3, 1, {3}, {}, "Hook<31, 0>, Trigger<M<3>>, Trigger<M<1>>, Sync<S2>, Gate<31, 1>, Gate<31, 2>, Gate<31, 0>", "std::shared_ptr<const M<3>>"};
struct Part31 : Base { using Base::Base; void make() { handle(31, on<Hook<31, 0>, Trigger<M<3>>, Trigger<M<1>>, Sync<S2>, Gate<31, 1>, Gate<31, 2>, Gate<31, 0>>().then([](std::shared_ptr<const M<3>> a0) { ran(31, {val(a0)}); })); } };
static const Spec spec32 = {32, 9, 13, 0, 2, 1, 500, 1, 0, 2, 2, {3}, {704, 608}, "With<M<2>>, Inline::ALWAYS, Sync<S0>, Returns<32, 1>, Hook<32, 1>, Own<32, 1>, Returns<32, 0>, Trigger<M<3>>, Pool<P1>, Gate<32, 0>, Trigger<M<0>>, Inline::ALWAYS, Gate<32, 1>, Own<32, 0>, Hook<32, 0>", "M<3>"};
struct Part32 : Base { using Base::Base; void make() { auto res = on<With<M<2>>, Inline::ALWAYS, Sync<S0>, Returns<32, 1>, Hook<32, 1>, Own<32, 1>, Returns<32, 0>, Trigger<M<3>>, Pool<P1>, Gate<32, 0>, Trigger<M<0>>, Inline::ALWAYS, Gate<32, 1>, Own<32, 0>, Hook<32, 0>>(std::string("704"), std::string("608")).then([](M<3> a0) { ran(32, {val(a0)}); }); handle(32, std::get<0>(res)); returned(32, std::get<1>(res), 705); returned(32, std::get<2>(res), 609); } };
static const Spec spec33 = {33, 1, 1, 8, 1, 0, 1000, 2, 0, 1, 1, {3, 0, 4}, {}, "Optional<With<M<3>>>, Hook<33, 0>, Trigger<M<0>>, Gate<33, 0>, MainThread, Priority::HIGH, Own<33, 0>, Inline::NEVER, Inline::NEVER, Priority::REALTIME", "std::shared_ptr<const M<3>>, const M<0>&, std::shared_ptr<const V<0>>"};
struct Part33 : Base { using Base::Base; void make() { handle(33, on<Optional<With<M<3>>>, Hook<33, 0>, Trigger<M<0>>, Gate<33, 0>, MainThread, Priority::HIGH, Own<33, 0>, Inline::NEVER, Inline::NEVER, Priority::REALTIME>().then([](std::shared_ptr<const M<3>> a0, const M<0>& a1, std::shared_ptr<const V<0>> a2) { ran(33, {val(a0), val(a1), val(a2)}); })); } };
static const Spec spec34 = {34, 2, 7, 0, 3, 2, 750, 0, 0, 1, 3, {4, 1}, {713, 168, 411, 71}, "Own<34, 0>, Hook<34, 1>, Trigger<M<1>>, Gate<34, 0>, Both<Priority::HIGH, Sync<S1>>, Hook<34, 2>, With<M<2>>, Hook<34, 0>, TakesTwo<34, 2>, Pool<P2>, Takes<34, 1>, Takes<34, 0>, With<M<0>>", "V<0>, std::shared_ptr<const M<1>>"};
struct Part34 : Base { using Base::Base; void make() { auto res = on<Own<34, 0>, Hook<34, 1>, Trigger<M<1>>, Gate<34, 0>, Both<Priority::HIGH, Sync<S1>>, Hook<34, 2>, With<M<2>>, Hook<34, 0>, TakesTwo<34, 2>, Pool<P2>, Takes<34, 1>, Takes<34, 0>, With<M<0>>>(713, "168", 411, 71).then("label 34", [](V<0> a0, std::shared_ptr<const M<1>> a1) { ran(34, {val(a0), val(a1)}); }); handle(34, std::get<0>(res)); returned(34, std::get<1>(res), 713168); } };
struct F35 { void operator()(const std::shared_ptr<const M<3>>& a0, std::shared_ptr<const M<1>> a1, const std::shared_ptr<const V<3>>& a2, std::shared_ptr<const M<0>> a3) const { ran(35, {val(a0), val(a1), val(a2), val(a3)}); } };
static const Spec spec35 = {35, 3, 11, 0, 0, 20, 1000, 0, 0, 0, 1, {3, 1, 7, 0}, {}, "Priority::REALTIME, Sync<S2>, With<M<3>>, Trigger<M<1>>, Group<G3>, Pair<35>, Trigger<M<0>>, Priority::REALTIME, Hook<35, 0>", "const std::shared_ptr<const M<3>>&, std::shared_ptr<const M<1>>, const std::shared_ptr<const V<3>>&, std::shared_ptr<const M<0>>"};
struct Part35 : Base { using Base::Base; void make() { handle(35, on<Priority::REALTIME, Sync<S2>, With<M<3>>, Trigger<M<1>>, Group<G3>, Pair<35>, Trigger<M<0>>, Priority::REALTIME, Hook<35, 0>>().then(F35())); } };
static const Spec spec36 = {36, 5, 5, 0, 0, 0, 250, 0, 1, 3, 1, {4, 2, 0}, {}, "Priority::LOW, Single, Hook<36, 0>, Gate<36, 1>, Own<36, 0>, Priority::LOW, Gate<36, 2>, Trigger<M<2>>, Trigger<M<0>>, Gate<36, 0>", "const V<0>&, const M<2>&, const std::shared_ptr<const M<0>>&"};
struct Part36 : Base { using Base::Base; void make() { handle(36, on<Priority::LOW, Single, Hook<36, 0>, Gate<36, 1>, Own<36, 0>, Priority::LOW, Gate<36, 2>, Trigger<M<2>>, Trigger<M<0>>, Gate<36, 0>>().then([](const V<0>& a0, const M<2>& a1, const std::shared_ptr<const M<0>>& a2) { ran(36, {val(a0), val(a1), val(a2)}); })); } };
static const Spec spec37 = {37, 12, 14, 1, 0, 18, 500, 2, 0, 0, 1, {2, 3, 4, 0}, {}, "Group<G3>, Inline::NEVER, Own<37, 1>, Inline::NEVER, Trigger<M<2>>, Trigger<M<3>>, Own<37, 0>, Hook<37, 0>, With<M<1>>, Optional<With<M<0>>>, Sync<S1>", "const M<2>&, M<3>, const V<0>&, const std::shared_ptr<const M<0>>&"};
struct Part37 : Base { using Base::Base; void make() { handle(37, on<Group<G3>, Inline::NEVER, Own<37, 1>, Inline::NEVER, Trigger<M<2>>, Trigger<M<3>>, Own<37, 0>, Hook<37, 0>, With<M<1>>, Optional<With<M<0>>>, Sync<S1>>().then([](const M<2>& a0, M<3> a1, const V<0>& a2, const std::shared_ptr<const M<0>>& a3) { ran(37, {val(a0), val(a1), val(a2), val(a3)}); })); } };
static const Spec spec38 = {38, 4, 4, 2, 2, 0, 1000, 2, 0, 1, 0, {}, {}, "Gate<38, 0>, Optional<With<M<1>>>, Pool<P1>, Priority::REALTIME, Trigger<M<2>>, Inline::NEVER", ""};
struct Part38 : Base { using Base::Base; void make() { handle(38, on<Gate<38, 0>, Optional<With<M<1>>>, Pool<P1>, Priority::REALTIME, Trigger<M<2>>, Inline::NEVER>().then([]() { ran(38, {}); })); } };
static const Spec spec39 = {39, 2, 6, 0, 3, 4, 250, 0, 0, 0, 0, {2, 1}, {}, "Both<Priority::LOW, Sync<S2>>, Pool<P2>, With<M<2>>, Trigger<M<1>>", "M<2>, std::shared_ptr<const M<1>>"};
struct Part39 : Base { using Base::Base; void make() { handle(39, on<Both<Priority::LOW, Sync<S2>>, Pool<P2>, With<M<2>>, Trigger<M<1>>>().then([](M<2> a0, std::shared_ptr<const M<1>> a1) { ran(39, {val(a0), val(a1)}); })); } };
static const Spec spec40 = {40, 1, 5, 0, 2, 5, 500, 0, 0, 0, 2, {7, 0, 2, 4}, {34}, "Pool<P1>, Hook<40, 0>, Pair<40>, Takes<40, 0>, Own<40, 1>, Hook<40, 1>, Sync<S0>, Trigger<M<0>>, With<M<2>>, Sync<S2>, Own<40, 0>", "const V<3>&, std::shared_ptr<const M<0>>, const M<2>&, V<0>"};
struct Part40 : Base { using Base::Base; void make() { handle(40, on<Pool<P1>, Hook<40, 0>, Pair<40>, Takes<40, 0>, Own<40, 1>, Hook<40, 1>, Sync<S0>, Trigger<M<0>>, With<M<2>>, Sync<S2>, Own<40, 0>>(34).then([](const V<3>& a0, std::shared_ptr<const M<0>> a1, const M<2>& a2, V<0> a3) { ran(40, {val(a0), val(a1), val(a2), val(a3)}); })); } };
static const Spec spec41 = {41, 8, 1, 12, 1, 0, 1000, 0, 0, 0, 0, {3, 0}, {293}, "Returns<41, 0>, MainThread, Optional<Trigger<M<3>>>, Optional<With<M<2>>>, Priority::LOW, Priority::IDLE, Priority::REALTIME, With<M<0>>", "const std::shared_ptr<const M<3>>&, std::shared_ptr<const M<0>>"};
struct Part41 : Base { using Base::Base; void make() { auto res = on<Returns<41, 0>, MainThread, Optional<Trigger<M<3>>>, Optional<With<M<2>>>, Priority::LOW, Priority::IDLE, Priority::REALTIME, With<M<0>>>(std::string("293")).then(std::function<void(const std::shared_ptr<const M<3>>&, std::shared_ptr<const M<0>>)>([](const std::shared_ptr<const M<3>>& a0, std::shared_ptr<const M<0>> a1) { ran(41, {val(a0), val(a1)}); })); handle(41, std::get<0>(res)); returned(41, std::get<1>(res), 294); } };
static const Spec spec42 = {42, 12, 5, 8, 0, 0, 750, 1, 0, 0, 2, {0, 2}, {631}, "With<M<0>>, Inline::ALWAYS, Optional<Trigger<M<3>>>, Pool<>, Inline::ALWAYS, Hook<42, 1>, Hook<42, 0>, Priority::LOW, Priority::LOW, Returns<42, 0>, Priority::HIGH, Trigger<M<2>>", "const M<0>&, const M<2>&"};
struct Part42 : Base { using Base::Base; void make() { auto res = on<With<M<0>>, Inline::ALWAYS, Optional<Trigger<M<3>>>, Pool<>, Inline::ALWAYS, Hook<42, 1>, Hook<42, 0>, Priority::LOW, Priority::LOW, Returns<42, 0>, Priority::HIGH, Trigger<M<2>>>(std::string("631")).then(std::function<void(const M<0>&, const M<2>&)>([](const M<0>& a0, const M<2>& a1) { ran(42, {val(a0), val(a1)}); })); handle(42, std::get<0>(res)); returned(42, std::get<1>(res), 632); } };
struct F43 { void operator()(const std::shared_ptr<const V<0>>& a0, std::shared_ptr<const V<1>> a1, V<2> a2, V<3> a3, std::shared_ptr<const M<2>> a4) const { ran(43, {val(a0), val(a1), val(a2), val(a3), val(a4)}); } };
static const Spec spec43 = {43, 4, 4, 0, 3, 0, 500, 0, 0, 0, 0, {4, 5, 6, 7, 2}, {409}, "Own<43, 0>, Own<43, 1>, Pair<43>, Pool<P2>, Trigger<M<2>>, Returns<43, 0>", "const std::shared_ptr<const V<0>>&, std::shared_ptr<const V<1>>, V<2>, V<3>, std::shared_ptr<const M<2>>"};
struct Part43 : Base { using Base::Base; void make() { auto res = on<Own<43, 0>, Own<43, 1>, Pair<43>, Pool<P2>, Trigger<M<2>>, Returns<43, 0>>(std::string("409")).then(F43()); handle(43, std::get<0>(res)); returned(43, std::get<1>(res), 410); } };
static const Spec spec44 = {44, 2, 2, 5, 0, 2, 250, 0, 0, 0, 2, {0, 6, 7, 2}, {}, "Optional<With<M<0>>>, Both<Priority::LOW, Sync<S1>>, Pair<44>, Hook<44, 0>, Optional<With<M<2>>>, Hook<44, 1>, Trigger<M<1>>", "std::shared_ptr<const M<0>>, std::shared_ptr<const V<2>>, V<3>, const std::shared_ptr<const M<2>>&"};
struct Part44 : Base { using Base::Base; void make() { handle(44, on<Optional<With<M<0>>>, Both<Priority::LOW, Sync<S1>>, Pair<44>, Hook<44, 0>, Optional<With<M<2>>>, Hook<44, 1>, Trigger<M<1>>>().then([](std::shared_ptr<const M<0>> a0, std::shared_ptr<const V<2>> a1, V<3> a2, const std::shared_ptr<const M<2>>& a3) { ran(44, {val(a0), val(a1), val(a2), val(a3)}); })); } };
void f45(std::shared_ptr<const M<2>> a0, const std::shared_ptr<const M<1>>& a1, const std::shared_ptr<const M<3>>& a2, const std::shared_ptr<const M<0>>& a3) { ran(45, {val(a0), val(a1), val(a2), val(a3)}); }
static const Spec spec45 = {45, 5, 0, 15, 1, 0, 750, 0, 0, 2, 0, {2, 1, 3, 0}, {}, "Gate<45, 1>, Priority::HIGH, MainThread, Optional<Trigger<M<2>>>, Gate<45, 0>, Optional<With<M<1>>, With<M<3>>>, Optional<Trigger<M<0>>>", "std::shared_ptr<const M<2>>, const std::shared_ptr<const M<1>>&, const std::shared_ptr<const M<3>>&, const std::shared_ptr<const M<0>>&"};
struct Part45 : Base { using Base::Base; void make() { handle(45, on<Gate<45, 1>, Priority::HIGH, MainThread, Optional<Trigger<M<2>>>, Gate<45, 0>, Optional<With<M<1>>, With<M<3>>>, Optional<Trigger<M<0>>>>().then(&f45)); } };
static const Spec spec46 = {46, 8, 13, 0, 3, 0, 500, 0, 0, 0, 3, {0, 4, 3, 7, 2}, {664, 495, 10}, "Pool<P2>, With<M<0>>, Returns<46, 0>, Own<46, 1>, Own<46, 0>, Hook<46, 2>, Trigger<M<3>>, Hook<46, 0>, TakesTwo<46, 1>, Pair<46>, Hook<46, 1>, With<M<2>>", "const M<0>&, V<0>, const std::shared_ptr<const M<3>>&, std::shared_ptr<const V<3>>, const M<2>&"};
struct Part46 : Base { using Base::Base; void make() { auto res = on<Pool<P2>, With<M<0>>, Returns<46, 0>, Own<46, 1>, Own<46, 0>, Hook<46, 2>, Trigger<M<3>>, Hook<46, 0>, TakesTwo<46, 1>, Pair<46>, Hook<46, 1>, With<M<2>>>(std::string("664"), 495, "10").then([](const M<0>& a0, V<0> a1, const std::shared_ptr<const M<3>>& a2, std::shared_ptr<const V<3>> a3, const M<2>& a4) { ran(46, {val(a0), val(a1), val(a2), val(a3), val(a4)}); }); handle(46, std::get<0>(res)); returned(46, std::get<1>(res), 665); returned(46, std::get<2>(res), 495010); } };
static const Spec spec47 = {47, 12, 4, 11, 0, 19, 1000, 0, 0, 1, 0, {0, 1, 3}, {}, "Trigger<M<2>>, Optional<With<M<0>>, With<M<1>>>, Sync<S0>, Optional<Trigger<M<3>>>, Priority::HIGH, Sync<S1>, Gate<47, 0>, Priority::REALTIME, Group<G3>", "std::shared_ptr<const M<0>>, const std::shared_ptr<const M<1>>&, std::shared_ptr<const M<3>>"};
struct Part47 : Base { using Base::Base; void make() { handle(47, on<Trigger<M<2>>, Optional<With<M<0>>, With<M<1>>>, Sync<S0>, Optional<Trigger<M<3>>>, Priority::HIGH, Sync<S1>, Gate<47, 0>, Priority::REALTIME, Group<G3>>().then("label 47", [](std::shared_ptr<const M<0>> a0, const std::shared_ptr<const M<1>>& a1, std::shared_ptr<const M<3>> a2) { ran(47, {val(a0), val(a1), val(a2)}); })); } };
static const Spec* const specs[] = {&spec0, &spec1, &spec2, &spec3, &spec4, &spec5, &spec6, &spec7, &spec8, &spec9, &spec10, &spec11, &spec12, &spec13, &spec14, &spec15, &spec16, &spec17, &spec18, &spec19, &spec20, &spec21, &spec22, &spec23, &spec24, &spec25, &spec26, &spec27, &spec28, &spec29, &spec30, &spec31, &spec32, &spec33, &spec34, &spec35, &spec36, &spec37, &spec38, &spec39, &spec40, &spec41, &spec42, &spec43, &spec44, &spec45, &spec46, &spec47};
template <typename F> void each(F&& f) { f(0, [](N::PowerPlant& p) { p.install<Installer<Part0>>(); }); f(1, [](N::PowerPlant& p) { p.install<Installer<Part1>>(); }); f(2, [](N::PowerPlant& p) { p.install<Installer<Part2>>(); }); f(3, [](N::PowerPlant& p) { p.install<Installer<Part3>>(); }); f(4, [](N::PowerPlant& p) { p.install<Installer<Part4>>(); }); f(5, [](N::PowerPlant& p) { p.install<Installer<Part5>>(); }); f(6, [](N::PowerPlant& p) { p.install<Installer<Part6>>(); }); f(7, [](N::PowerPlant& p) { p.install<Installer<Part7>>(); }); f(8, [](N::PowerPlant& p) { p.install<Installer<Part8>>(); }); f(9, [](N::PowerPlant& p) { p.install<Installer<Part9>>(); }); f(10, [](N::PowerPlant& p) { p.install<Installer<Part10>>(); }); f(11, [](N::PowerPlant& p) { p.install<Installer<Part11>>(); }); f(12, [](N::PowerPlant& p) { p.install<Installer<Part12>>(); }); f(13, [](N::PowerPlant& p) { p.install<Installer<Part13>>(); }); f(14, [](N::PowerPlant& p) { p.install<Installer<Part14>>(); }); f(15, [](N::PowerPlant& p) { p.install<Installer<Part15>>(); }); f(16, [](N::PowerPlant& p) { p.install<Installer<Part16>>(); }); f(17, [](N::PowerPlant& p) { p.install<Installer<Part17>>(); }); f(18, [](N::PowerPlant& p) { p.install<Installer<Part18>>(); }); f(19, [](N::PowerPlant& p) { p.install<Installer<Part19>>(); }); f(20, [](N::PowerPlant& p) { p.install<Installer<Part20>>(); }); f(21, [](N::PowerPlant& p) { p.install<Installer<Part21>>(); }); f(22, [](N::PowerPlant& p) { p.install<Installer<Part22>>(); }); f(23, [](N::PowerPlant& p) { p.install<Installer<Part23>>(); }); f(24, [](N::PowerPlant& p) { p.install<Installer<Part24>>(); }); f(25, [](N::PowerPlant& p) { p.install<Installer<Part25>>(); }); f(26, [](N::PowerPlant& p) { p.install<Installer<Part26>>(); }); f(27, [](N::PowerPlant& p) { p.install<Installer<Part27>>(); }); f(28, [](N::PowerPlant& p) { p.install<Installer<Part28>>(); }); f(29, [](N::PowerPlant& p) { p.install<Installer<Part29>>(); }); f(30, [](N::PowerPlant& p) { p.install<Installer<Part30>>(); }); f(31, [](N::PowerPlant& p) { p.install<Installer<Part31>>(); }); f(32, [](N::PowerPlant& p) { p.install<Installer<Part32>>(); }); f(33, [](N::PowerPlant& p) { p.install<Installer<Part33>>(); }); f(34, [](N::PowerPlant& p) { p.install<Installer<Part34>>(); }); f(35, [](N::PowerPlant& p) { p.install<Installer<Part35>>(); }); f(36, [](N::PowerPlant& p) { p.install<Installer<Part36>>(); }); f(37, [](N::PowerPlant& p) { p.install<Installer<Part37>>(); }); f(38, [](N::PowerPlant& p) { p.install<Installer<Part38>>(); }); f(39, [](N::PowerPlant& p) { p.install<Installer<Part39>>(); }); f(40, [](N::PowerPlant& p) { p.install<Installer<Part40>>(); }); f(41, [](N::PowerPlant& p) { p.install<Installer<Part41>>(); }); f(42, [](N::PowerPlant& p) { p.install<Installer<Part42>>(); }); f(43, [](N::PowerPlant& p) { p.install<Installer<Part43>>(); }); f(44, [](N::PowerPlant& p) { p.install<Installer<Part44>>(); }); f(45, [](N::PowerPlant& p) { p.install<Installer<Part45>>(); }); f(46, [](N::PowerPlant& p) { p.install<Installer<Part46>>(); }); f(47, [](N::PowerPlant& p) { p.install<Installer<Part47>>(); }); }
