// Priority and FIFO order. Modes: pool (order within a pool), group (order within a Sync group).
#include "dyn.hpp"
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E"};

template <int K>
void emit_k(int ttl) {
    uint64_t id = h::uid();
    h::ctr_add(C_OUT, 1);
    h::ev(EMIT_B, id, uint64_t(K));
    plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K));
}
int n_types = 1;
void finish() {
    if (h::ctr_get(C_OUT) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
// Every reaction has its own message type (one of 12)
void emit_any(int i, int ttl);
template <int K>
void body(Inst* in, const M<K>& m) {
    h::ev(RUN_B, uint64_t(in->idx), m.id);
    Rng r(h::mix(m.id, h::case_no));
    h::work(r.next() % (1 + uint64_t(in->work) * 40000));
    if (m.ttl > 0 && r.chance(1, 3)) emit_any(int(r(uint64_t(n_inst))), m.ttl - 1);
    h::ev(RUN_E, uint64_t(in->idx), m.id);
    if (h::ctr_add(C_OUT, -1) == 0) finish();
}
void emit_any(int i, int ttl) {
    switch (i) {
        case 0: emit_k<0>(ttl); break;
        case 1: emit_k<1>(ttl); break;
        case 2: emit_k<2>(ttl); break;
        case 3: emit_k<3>(ttl); break;
        case 4: emit_k<4>(ttl); break;
        case 5: emit_k<5>(ttl); break;
        case 6: emit_k<6>(ttl); break;
        default: emit_k<7>(ttl); break;
    }
}
struct R : N::Reactor {
    template <int K>
    void b(int combo) {
        Inst* i = &insts[K];
        auto f  = [i](const M<K>& m) { body<K>(i, m); };
        if (combo == 1) { i->prio = 1000; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Pool<P1>, Priority::REALTIME>().then(f); }
        else if (combo == 2) { i->prio = 750; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Priority::HIGH, Pool<P1>>().then(f); }
        else if (combo == 3) { i->prio = 500; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Pool<P1>, Priority::NORMAL>().then(f); }
        else if (combo == 4) { i->prio = 250; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Pool<P1>, Priority::LOW>().then(f); }
        else if (combo == 5) { i->prio = 0; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Pool<P1>, Priority::IDLE>().then(f); }
        else if (combo == 6) { i->prio = 500; i->pool = POOL_1; i->groups = 0; on<Trigger<M<K>>, Pool<P1>>().then(f); }
        else on<Trigger<M<K>>, Dyn>(i).then(f);
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<int> combos, std::vector<int> initial) : Reactor(std::move(e)) {
        for (int k = 0; k < n_inst; ++k) {
            switch (k) {
                case 0: b<0>(combos[0]); break;
                case 1: b<1>(combos[1]); break;
                case 2: b<2>(combos[2]); break;
                case 3: b<3>(combos[3]); break;
                case 4: b<4>(combos[4]); break;
                case 5: b<5>(combos[5]); break;
                case 6: b<6>(combos[6]); break;
                default: b<7>(combos[7]); break;
            }
        }
        on<Startup>().then([initial] {
            for (int x : initial) emit_any(x, 2);
            if (h::ctr_add(C_EXT, -1) == 0) finish();
        });
    }
};

struct T { int inst = -1; uint64_t eb = ~0ull, ee = ~0ull, rb = ~0ull, re = ~0ull, prev = 0; uint32_t thread = 0; };

void check() {
    std::map<uint64_t, T> ts;
    std::map<uint32_t, uint64_t> last_end;
    uint64_t sg = 7, n = h::ev_count();
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        if (e.type == EMIT_B) { ts[e.a].inst = int(e.b); ts[e.a].eb = i; }
        if (e.type == EMIT_E) ts[e.a].ee = i;
        if (e.type == RUN_B) { auto& t = ts[e.b]; t.rb = i; t.thread = e.thread; t.prev = last_end.count(e.thread) ? last_end[e.thread] : 0; sg = h::mix(sg, e.a); }
        if (e.type == RUN_E) { ts[e.b].re = i; last_end[e.thread] = i; }
    }
    std::vector<T*> v;
    for (auto& x : ts) v.push_back(&x.second);
    long long compared = 0, decided = 0;
    for (auto* X : v) {
        if (X->rb == ~0ull) { h::viol("lost", "a task never ran"); continue; }
        const Inst& ix = insts[X->inst];
        if (h::args.mode == "pool") {
            for (auto* Y : v) {
                if (Y == X || insts[Y->inst].pool != ix.pool) continue;
                // Y was certainly queued when X was taken and certainly taken after it?
                if (!(Y->rb > X->rb) || Y->prev < X->rb) continue;
                const int lx = level(ix.prio), ly = level(insts[Y->inst].prio);
                compared++;
                if (Y->ee < X->prev && ly > lx) h::viol("priority", "reaction %d (prio %d) was taken before reaction %d (prio %d) which was queued already", X->inst, ix.prio, Y->inst, insts[Y->inst].prio);
                if (ly == lx && Y->ee < X->eb) h::viol("fifo", "reaction %d was taken before reaction %d which has the same priority %d and was emitted first", X->inst, Y->inst, ix.prio);
                if ((Y->ee < X->prev && ly != lx) || (ly == lx && Y->ee < X->eb)) decided++;
            }
        }
    }
    if (h::args.mode == "group") {
        for (int g = 0; g < N_GROUPS; ++g) {
            if (group_limit[g] != 1) continue;
            std::vector<T*> w;
            for (auto* x : v) if (insts[x->inst].groups == (1u << g)) w.push_back(x);
            std::sort(w.begin(), w.end(), [](T* a, T* b) { return a->rb < b->rb; });
            for (size_t k = 0; k + 1 < w.size(); ++k) {
                T *H = w[k], *X = w[k + 1];
                for (size_t j = k + 2; j < w.size(); ++j) {
                    T* Y = w[j];
                    compared++;
                    if (!(Y->ee < H->re)) continue;
                    const int lx = level(insts[X->inst].prio), ly = level(insts[Y->inst].prio);
                    if (ly > lx) h::viol("group-priority", "after reaction %d of Sync group %d came reaction %d (prio %d) although reaction %d (prio %d) was waiting already", H->inst, g, X->inst, insts[X->inst].prio, Y->inst, insts[Y->inst].prio);
                    if (ly == lx && Y->ee < X->eb) h::viol("group-fifo", "reaction %d of Sync group %d ran before reaction %d of the same priority which was emitted first", X->inst, g, Y->inst);
                    decided++;
                }
            }
        }
    }
    h::note("tasks", int64_t(v.size()));
    h::note("pairs_compared", compared);
    h::note("pairs_with_order_required", decided);
    if (!h::controlled() && decided) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu tasks, %lld pairs whose order was determined", (unsigned long long) h::case_no, n_inst, v.size(), decided);
    dump_events(names, 5);
}

void run_case(Rng& rng) {
    const bool big = !h::controlled();
    n_inst         = rng.range(2, 8);
    pool_limit[POOL_DEFAULT] = rng.range(1, 3);
    std::vector<int> combos;
    static const int prios[] = {1500, 1000, 999, 750, 749, 500, 500, 499, 250, 249, 0, -5};
    static const int pools[] = {POOL_1, POOL_1, POOL_DEFAULT, POOL_MAIN, POOL_2, POOL_N, POOL_P};
    int np = rng.range(1, 2), pp[2] = {pools[rng(7)], pools[rng(7)]};
    int flat = rng.chance(1, 4) ? prios[rng(12)] : -99;
    for (int i = 0; i < n_inst; ++i) {
        Inst& in = insts[i];
        in = Inst{};
        in.idx = i;
        in.pool = pp[rng(uint64_t(np))];
        in.prio = flat != -99 ? flat : prios[rng(12)];
        in.inl  = rng.chance(1, 3) ? 2 : 0;
        in.work = int(rng(4));
        if (h::args.mode == "group") { in.groups = rng.chance(5, 6) ? 1u << GR_S0 : rng.chance(1, 2) ? 1u << GR_S1 : 0; in.pool = pools[rng(7)]; }
        combos.push_back(h::args.mode == "pool" && pp[0] == POOL_1 && np == 1 && rng.chance(1, 2) ? rng.range(1, 6) : 0);
    }
    std::vector<int> initial;
    int n0 = rng.range(1, big ? 20 : 8);
    for (int i = 0; i < n0; ++i) initial.push_back(int(rng(uint64_t(n_inst))));
    int n_ext = rng.range(0, 3);
    uint64_t es = rng.next();
    h::sched_begin(rng, 2500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        p.install<R>(combos, initial);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            int n = r.range(1, big ? 25 : 6);
            for (int i = 0; i < n; ++i) { emit_any(int(r(uint64_t(n_inst))), 1); h::work(r.next() % 60000); }
            if (h::ctr_add(C_EXT, -1) == 0) finish();
        });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
