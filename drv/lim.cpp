// Limits on the number of tasks of a reaction. Modes: buffer (Buffer and Single), once (Once, bound at install or run time).
#include "dyn.hpp"
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, TOK_C, TOK_D, RUN_B, RUN_E, BIND_B, BIND_E, PROBE };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "TOK_C", "TOK_D", "RUN_B", "RUN_E", "BIND_B", "BIND_E", "PROBE"};
constexpr int N_TYPES = 3;
enum { C_PHASE = 60, C_BIND };
struct Probe {};

thread_local std::vector<uint64_t>* cur_msgs = nullptr;
uint64_t run_seed = 0;
int bind_at = 0, n_static = 0;
std::vector<int> kinds;
N::Reactor* reactor = nullptr;

void release() {
    if (h::ctr_add(C_OUT, -1) != 0 || h::ctr_get(C_EXT) != 0) return;
    int64_t ph = h::ctr_add(C_PHASE, 1);
    if (ph == 1) { h::ctr_add(C_OUT, 1); plant->emit(std::make_unique<Probe>()); }
    else if (ph == 2) plant->shutdown();
}
struct Token {
    int inst;
    uint64_t msg;
    Token(int i, uint64_t m) : inst(i), msg(m) { h::ctr_add(C_OUT, 1); h::ev(TOK_C, uint64_t(inst), msg); }
    ~Token() { h::ev(TOK_D, uint64_t(inst), msg); release(); }
};
// A word which binds a token to every task that was accepted, it is destroyed with the task
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& t) {
        return std::make_shared<Token>(Dyn::slot(t.parent->id)->idx, cur_msgs->back());
    }
};
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid();
    h::ctr_add(C_OUT, 1);
    std::vector<uint64_t> mine;
    auto* prev = cur_msgs;
    if (prev == nullptr) cur_msgs = &mine;
    cur_msgs->push_back(id);
    h::ev(EMIT_B, id, uint64_t(K), inl);
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K), inl);
    cur_msgs->pop_back();
    cur_msgs = prev;
    release();
}
void emit_any(int k, int ttl, bool inl) {
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else emit_k<2>(ttl, inl);
}
void bind_more();
void body(Inst* in, uint64_t id, int ttl) {
    h::ev(RUN_B, uint64_t(in->idx), id);
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    h::work(r.next() % (1 + uint64_t(in->work) * 30000));
    if (h::ctr_add(C_BIND, -1) == 0) bind_more();
    if (ttl > 0 && r.chance(1, 3)) emit_any(int(r(N_TYPES)), ttl - 1, r.chance(1, 4));
    if (ttl > 0 && r.chance(1, 5)) emit_any(in->type, ttl - 1, r.chance(1, 4));
    int th = int(r(100));
    h::ev(RUN_E, uint64_t(in->idx), id);
    if (th < in->throws) {
        if (th & 1) throw std::runtime_error("planned");
        throw 42;
    }
}
struct R : N::Reactor {
    template <int K>
    void b(Inst* i) {
        auto f = [i](const M<K>& m) { body(i, m.id, m.ttl); };
        using namespace N::dsl::word;
        switch (i->kind) {
            case 0: i->limit = 1; on<Dyn, Trigger<M<K>>, Tok, Single>(i).then(f); break;
            case 1: i->limit = 1; on<Dyn, Trigger<M<K>>, Tok, Buffer<1>>(i).then(f); break;
            case 2: i->limit = 2; on<Dyn, Buffer<2>, Tok, Trigger<M<K>>>(i).then(f); break;
            case 3: i->limit = 3; on<Dyn, Trigger<M<K>>, Tok, Buffer<3>>(i).then(f); break;
            case 4: i->limit = 1; i->groups = 1u << GR_S0; i->pool = POOL_DEFAULT; i->inl = 0; i->prio = 500; on<DynId, Trigger<M<K>>, Tok, Single, Sync<S0>>(i).then(f); break;
            case 5: i->limit = 2; i->groups = 0; i->pool = POOL_1; i->inl = 0; i->prio = 250; on<Pool<P1>, DynId, Buffer<2>, Tok, Trigger<M<K>>, Priority::LOW>(i).then(f); break;
            case 6: i->limit = 0; on<Dyn, Trigger<M<K>>, Tok>(i).then(f); break;
            case 7: i->limit = -1; on<Dyn, Trigger<M<K>>, Tok, Once>(i).then(f); break;
            case 8: i->limit = -1; i->groups = 0; i->pool = POOL_DEFAULT; i->inl = 0; i->prio = 500; on<Once, DynId, Tok, Trigger<M<K>>>(i).then(f); break;
            default: i->limit = -1; i->groups = 1u << GR_S0; i->pool = POOL_1; i->inl = 0; i->prio = 500; on<DynId, Trigger<M<K>>, Pool<P1>, Tok, Sync<S0>, Once>(i).then(f); break;
        }
    }
    // Only ties the reaction to its instance (it has to be bound before Trigger makes the reaction known)
    struct DynId {
        template <typename DSL>
        static void bind(const std::shared_ptr<N::threading::Reaction>& r, Inst* i) { Dyn::bind<DSL>(r, i); }
    };
    void bind_one(int n) {
        Inst* i = &insts[n];
        h::ev(BIND_B, uint64_t(n));
        switch (i->type) {
            case 0: b<0>(i); break;
            case 1: b<1>(i); break;
            default: b<2>(i); break;
        }
        h::ev(BIND_E, uint64_t(n));
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<std::vector<int>> initial) : Reactor(std::move(e)) {
        reactor = this;
        for (int n = 0; n < n_static; ++n) bind_one(n);
        on<Trigger<Probe>>().then([] {
            h::ev(PROBE);
            for (int k = 0; k < N_TYPES; ++k) emit_any(k, 0, false);
            release();
        });
        on<Startup>().then([initial] {
            h::ctr_add(C_OUT, 1);
            for (const auto& x : initial) emit_any(x[0], x[1], x[2] != 0);
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};
void bind_more() {
    for (int n = n_static; n < n_inst; ++n) static_cast<R*>(reactor)->bind_one(n);
}

void check() {
    struct Em { int type; uint64_t b = ~0ull, e = ~0ull; };
    struct Task { uint64_t c = ~0ull, d = ~0ull, rb = ~0ull, re = ~0ull; };
    std::map<uint64_t, Em> em;
    std::map<int, std::map<uint64_t, Task>> ts;
    std::map<int, std::pair<uint64_t, uint64_t>> bound;
    uint64_t sg = 7, n = h::ev_count();
    int live[MAX_INST] = {0}, most[MAX_INST] = {0};
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case EMIT_B: em[e.a].type = int(e.b); em[e.a].b = i; break;
            case EMIT_E: em[e.a].e = i; break;
            case TOK_C: {
                ts[int(e.a)][e.b].c = i;
                const Inst& in = insts[e.a];
                int l = ++live[e.a];
                most[e.a] = std::max(most[e.a], l);
                if (in.limit > 0 && l > in.limit) h::viol("exceeded", "%d tasks of reaction %d exist although its limit is %d (kind %d)", l, in.idx, in.limit, in.kind);
            } break;
            case TOK_D: { auto& t = ts[int(e.a)][e.b]; t.d = i; if (t.re == ~0ull) --live[e.a]; } break;
            case RUN_B: {
                auto& t = ts[int(e.a)][e.b];
                if (t.rb != ~0ull) h::viol("twice", "reaction %d ran twice for one message", int(e.a));
                t.rb = i;
                sg = h::mix(sg, e.a * 16 + e.thread);
            } break;
            case RUN_E: ts[int(e.a)][e.b].re = i; --live[e.a]; break;
            case BIND_B: bound[int(e.a)].first = i; break;
            case BIND_E: bound[int(e.a)].second = i; break;
            default: break;
        }
    }
    long long drops = 0, runs = 0, full = 0, once = 0, contested = 0;
    for (auto& bp : bound) {
        const Inst& in = insts[bp.first];
        auto& mine     = ts[bp.first];
        if (in.limit < 0) {
            // Once
            uint64_t ran = 0, count = 0, due = 0;
            for (auto& t : mine) if (t.second.rb != ~0ull) { ++count; ran = t.first; }
            for (auto& m : em) if (m.second.type == in.type && m.second.b > bp.second.second && m.second.e != ~0ull) { ++due; }
            once++;
            if (count > 1) h::viol("once-again", "Once reaction %d (kind %d) ran %d times", in.idx, in.kind, int(count));
            if (count == 0 && due > 0) h::viol("once-never", "Once reaction %d (kind %d) never ran although %d messages were emitted after it was bound", in.idx, in.kind, int(due));
            if (count == 1) {
                runs++;
                int conc = 0;
                for (auto& m : em) {
                    if (m.second.type != in.type || m.first == ran) continue;
                    if (m.second.b > bp.second.second && m.second.e < em[ran].b) h::viol("once-late", "Once reaction %d ran for a message although an earlier one was emitted after it was bound", in.idx);
                    if (m.second.b < em[ran].e && m.second.e > em[ran].b) conc = 1;
                }
                contested += conc;
            }
            continue;
        }
        for (auto& m : em) {
            if (m.second.type != in.type) continue;
            auto it = mine.find(m.first);
            if (it != mine.end() && it->second.rb != ~0ull) { runs++; continue; }
            if (m.second.b < bp.second.second) continue;
            drops++;
            if (in.limit == 0) { h::viol("lost", "unlimited reaction %d did not run for a message", in.idx); continue; }
            // How many tasks of it may have existed at once during the emit?
            std::vector<std::pair<uint64_t, int>> edges;
            for (auto& o : em) {
                if (o.first == m.first || o.second.type != in.type) continue;
                auto ot = mine.find(o.first);
                uint64_t from = o.second.b, to = ot != mine.end() ? std::max(ot->second.d, o.second.e) : o.second.e;
                if (from > m.second.e || to < m.second.b) continue;
                edges.emplace_back(std::max(from, m.second.b), 1);
                edges.emplace_back(to, -1);
            }
            std::sort(edges.begin(), edges.end());
            int cur = 0, best = 0;
            for (auto& e : edges) { cur += e.second; if (e.first <= m.second.e) best = std::max(best, cur); }
            if (best < in.limit) h::viol("dropped", "a message was dropped by reaction %d (kind %d) though at most %d of %d tasks of it existed", in.idx, in.kind, best, in.limit);
        }
        if (in.limit > 0 && most[bp.first] == in.limit) full++;
    }
    h::note("emits", int64_t(em.size()));
    h::note("runs", runs);
    h::note("messages_dropped", drops);
    h::note("reactions_that_reached_their_limit", full);
    h::note("once_reactions", once);
    h::note("once_reactions_with_concurrent_emits", contested);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %lld runs, %lld dropped", (unsigned long long) h::case_no, n_inst, em.size(), runs, drops);
    dump_events(names, 10);
}

void run_case(Rng& rng) {
    const bool big = !h::controlled(), once = h::args.mode == "once";
    run_seed = rng.next();
    n_inst   = rng.range(1, 6);
    n_static = rng.chance(1, 2) ? n_inst : rng.range(0, n_inst);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    int types = rng.range(1, N_TYPES);
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(uint64_t(types)));
        in.pool   = pools[rng(7)];
        in.groups = rng.chance(1, 3) ? 1u << rng(3) : 0;
        if (rng.chance(1, 8)) in.groups |= 1u << rng(N_GROUPS);
        in.inl    = rng.chance(1, 5) ? 1 : rng.chance(1, 5) ? 2 : 0;
        in.prio   = rng.chance(1, 2) ? 500 : 750;
        in.throws = rng.chance(1, 3) ? 50 : 0;
        in.work   = int(rng(4));
        in.kind   = once ? (rng.chance(1, 5) ? 6 : rng.range(7, 9)) : rng.chance(1, 6) ? rng.range(6, 7) : rng.range(0, 5);
    }
    std::vector<std::vector<int>> initial;
    int n0 = rng.range(0, big ? 8 : 4);
    for (int i = 0; i < n0; ++i) initial.push_back({int(rng(N_TYPES)), rng.range(0, 2), rng.chance(1, 4)});
    int n_ext = rng.range(1, 4);
    uint64_t es = rng.next();
    int style = int(rng(3));
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_BIND, rng.range(1, 4));
        p.install<R>(initial);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big, style] {
            Rng r(h::mix(es, uint64_t(t)));
            h::ctr_add(C_OUT, 1);
            int n = r.range(1, big ? 40 : 3);
            for (int i = 0; i < n; ++i) {
                emit_any(style == 0 ? 0 : int(r(N_TYPES)), int(r(2)), r.chance(1, 4));
                if (style != 2) h::work(r.next() % 40000);
            }
            h::ctr_add(C_EXT, -1);
            release();
        });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    drop_store();
    plant   = nullptr;
    reactor = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
