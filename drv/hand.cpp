// Reaction handles and binding at run time. Modes: handle, bind (many reactions bound while messages are emitted).
#include "dyn.hpp"
#include <mutex>
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E, OP_B, OP_E, TOK_D };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E", "OP_B", "OP_E", "TOK_D"};
enum Op { BIND, ENABLE, DISABLE, UNBIND, QUERY };
constexpr int N_TYPES = 3;
enum { C_BUDGET = 60, C_TAKEN = 200 };
struct Other {};
uint64_t run_seed = 0;
int n_static = 0;
N::Reactor* reactor = nullptr;
std::mutex handles_mutex;
std::vector<N::threading::ReactionHandle> handles[MAX_INST];

void release() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    ~Token() { release(); }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
struct DynId {
    template <typename DSL>
    static void bind(const std::shared_ptr<N::threading::Reaction>& r, Inst* i) { Dyn::bind<DSL>(r, i); }
};
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid();
    h::ctr_add(C_OUT, 1);
    h::ev(EMIT_B, id, uint64_t(K), inl);
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K), inl);
    release();
}
void emit_any(int k, int ttl, bool inl) {
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else emit_k<2>(ttl, inl);
}
void op(int n, int what);
void act(Rng& r, int ttl, int self) {
    if (h::ctr_add(C_BUDGET, -1) < 0) return;
    int x = int(r(100));
    int n = self >= 0 && r.chance(1, 2) ? self : int(r(uint64_t(n_inst)));
    if (h::args.mode == "bind") {
        if (x < 60) emit_any(int(r(3)) ? 0 : int(r(N_TYPES)), ttl, r.chance(1, 3));
        else op(n, x < 95 ? BIND : x < 98 ? UNBIND : DISABLE);
    }
    else if (x < 45) emit_any(self >= 0 && r.chance(1, 2) ? insts[self].type : int(r(N_TYPES)), ttl, r.chance(1, 3));
    else if (x < 60) op(n, DISABLE);
    else if (x < 75) op(n, ENABLE);
    else if (x < 82) op(n, UNBIND);
    else if (x < 90) op(n, QUERY);
    else op(n, BIND);
}
void body(Inst* in, uint64_t id, int ttl) {
    h::ev(RUN_B, uint64_t(in->idx), id);
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    if (ttl > 0) {
        int k = r.range(0, 2);
        for (int i = 0; i < k; ++i) act(r, ttl - 1, in->idx);
    }
    h::ev(RUN_E, uint64_t(in->idx), id);
    if (int(r(100)) < in->throws) throw std::runtime_error("planned");
}
struct R : N::Reactor {
    template <int K>
    N::threading::ReactionHandle b(Inst* i) {
        auto f = [i](const M<K>& m) { body(i, m.id, m.ttl); };
        using namespace N::dsl::word;
        switch (i->kind) {
            case 0: i->inl = 0; return on<DynId, Trigger<M<K>>, Tok>(i).then(f);
            case 1: i->inl = 1; return on<DynId, Trigger<M<K>>, Inline::ALWAYS, Tok>(i).then("an inline reaction", f);
            case 2: i->inl = 0; return on<DynId, Trigger<M<K>>, Trigger<Other>, Tok>(i).then(f);
            case 3: i->inl = 0; return on<DynId, Trigger<M<K>>, Sync<S0>, Tok>(i).then(f);
            case 4: i->inl = 0; return on<DynId, Trigger<M<K>>, With<Other>, Optional<With<M<7>>>, Pool<P1>, Tok>(i).then(f);
            case 9: i->limit = -1; i->inl = 0; return on<DynId, Trigger<M<K>>, Trigger<Other>, Once, Tok>(i).then(f);
            case 10: i->inl = 0; return on<DynId, Trigger<Other>, Trigger<M<K>>, Trigger<M<6>>, Optional<With<M<7>>>, Tok>(i).then(f);
            default: return on<Dyn, Trigger<M<K>>, Tok>(i).then(f);
        }
    }
    void bind_one(int n) {
        Inst* i = &insts[n];
        N::threading::ReactionHandle handle = i->type == 0 ? b<0>(i) : i->type == 1 ? b<1>(i) : b<2>(i);
        const std::lock_guard<std::mutex> lock(handles_mutex);
        handles[n].push_back(handle);
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<std::vector<int>> initial) : Reactor(std::move(e)) {
        reactor = this;
        emit(std::make_unique<Other>());
        N::dsl::store::DataStore<M<6>>::set(std::make_shared<M<6>>(0, 0));
        for (int n = 0; n < n_static; ++n) op(n, BIND);
        on<Startup>().then([initial] {
            h::ctr_add(C_OUT, 1);
            for (const auto& x : initial) emit_any(x[0], x[1], x[2] != 0);
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};
void op(int n, int what) {
    if (what == BIND) {
        if (h::ctr_add(C_TAKEN + n, 1) != 1) return;
        h::ev(OP_B, uint64_t(n), BIND);
        static_cast<R*>(reactor)->bind_one(n);
        h::ev(OP_E, uint64_t(n), BIND);
        return;
    }
    if (insts[n].prio == 749 && what != QUERY) return;  // never touched
    N::threading::ReactionHandle handle;
    {
        const std::lock_guard<std::mutex> lock(handles_mutex);
        if (handles[n].empty()) return;
        handle = handles[n].front();
    }
    bool res = false;
    h::ev(OP_B, uint64_t(n), uint64_t(what));
    switch (what) {
        case ENABLE: handle.enable(); break;
        case DISABLE: if (h::uid() % 2) handle.disable(); else handle.enable(false); break;
        case UNBIND: handle.unbind(); break;
        default: res = handle.enabled(); break;
    }
    h::ev(OP_E, uint64_t(n), uint64_t(what), res);
}

struct O { int what; uint64_t b, e = ~0ull; bool res = false; };
// Which states may the enabled flag have had during [b, e]? bit 0: disabled, bit 1: enabled
int states(const std::vector<O>& ops, uint64_t b, uint64_t e) {
    int s = 0;
    for (auto& o : ops) {
        if (o.what == QUERY || o.b > e) continue;
        bool over = false;
        for (auto& p : ops) if (p.what != QUERY && p.b > o.e && p.e < b) over = true;
        if (!over) s |= o.what == ENABLE || o.what == BIND ? 2 : 1;
    }
    return s;
}
void check() {
    struct Em { int type; uint64_t b = ~0ull, e = ~0ull; };
    std::map<uint64_t, Em> em;
    std::map<std::pair<int, uint64_t>, int> runs;
    std::vector<O> ops[MAX_INST];
    std::map<std::pair<uint32_t, std::pair<uint64_t, uint64_t>>, std::vector<size_t>> open;
    uint64_t sg = 7, n = h::ev_count();
    long long n_ops = 0;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case EMIT_B: em[e.a].type = int(e.b); em[e.a].b = i; break;
            case EMIT_E: em[e.a].e = i; break;
            case RUN_B:
                if (++runs[{int(e.a), e.b}] > 1) h::viol("twice", "reaction %d ran twice for one message", int(e.a));
                if (!em.count(e.b) || em[e.b].type != insts[e.a].type) h::viol("phantom", "reaction %d ran for a message that is not of its type", int(e.a));
                sg = h::mix(sg, e.a * 16 + e.thread);
                break;
            case OP_B: {
                O o;
                o.what = int(e.b);
                o.b = i;
                open[{e.thread, {e.a, e.b}}].push_back(ops[e.a].size());
                ops[e.a].push_back(o);
                n_ops++;
            } break;
            case OP_E: {
                auto& st = open[{e.thread, {e.a, e.b}}];
                O& o = ops[e.a][st.back()];
                st.pop_back();
                o.e = i;
                o.res = e.c != 0;
            } break;
            default: break;
        }
    }
    long long must = 0, mustnot = 0, open_pairs = 0, queries = 0;
    for (int x = 0; x < n_inst; ++x) {
        const Inst& in = insts[x];
        uint64_t bind_b = ~0ull, bind_e = ~0ull, unbind_b = ~0ull, unbind_e = ~0ull;
        for (auto& o : ops[x]) {
            if (o.what == BIND) { bind_b = o.b; bind_e = o.e; }
            if (o.what == UNBIND) { unbind_b = std::min(unbind_b, o.b); unbind_e = std::min(unbind_e, o.e); }
        }
        for (auto& o : ops[x]) {
            if (o.what != QUERY || unbind_b < o.e) continue;
            int s = states(ops[x], o.b, o.e);
            queries++;
            if (s == 2 && !o.res) h::viol("query", "enabled() said no for reaction %d which was enabled", x);
            if (s == 1 && o.res) h::viol("query", "enabled() said yes for reaction %d which was disabled", x);
        }
        if (in.limit < 0) {
            int count = 0;
            for (auto& q : runs) count += q.first.first == x;
            if (count > 1) h::viol("once-again", "Once reaction %d ran %d times", x, count);
            continue;
        }
        for (auto& m : em) {
            if (m.second.type != in.type) continue;
            const uint64_t b = m.second.b, e = m.second.e;
            const bool ran = runs.count({x, m.first}) != 0;
            int s = states(ops[x], b, e);
            if (bind_b > e || unbind_e < b || s == 1 || s == 0) {
                mustnot++;
                if (ran) h::viol("ran", "reaction %d (kind %d) ran for a message emitted while it was %s", x, in.kind, bind_b > e ? "not bound yet" : unbind_e < b ? "unbound" : "disabled");
            }
            else if (bind_e < b && unbind_b > e && s == 2) {
                must++;
                if (!ran) h::viol("missed", "reaction %d (kind %d) did not run for a message emitted while it was bound and enabled", x, in.kind);
            }
            else open_pairs++;
        }
    }
    h::note("emits", int64_t(em.size()));
    h::note("handle_operations", n_ops);
    h::note("deliveries_required", must);
    h::note("deliveries_forbidden", mustnot);
    h::note("deliveries_concurrent_with_an_operation", open_pairs);
    h::note("enabled_queries", queries);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %lld operations, %lld runs required, %lld forbidden, %lld open", (unsigned long long) h::case_no, n_inst, em.size(), n_ops, must, mustnot, open_pairs);
    dump_events(names, 8);
}

void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    const bool many = h::args.mode == "bind";
    n_inst   = many ? (big ? 64 : 12) : rng.range(2, 8);
    n_static = rng.range(1, many ? 2 : n_inst);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    int types = many && rng.chance(1, 2) ? 1 : rng.range(1, N_TYPES);
    for (int i = 0; i < n_inst; ++i) {
        handles[i].clear();
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(uint64_t(types)));
        in.pool   = pools[rng(6)];
        in.groups = rng.chance(1, 3) ? 1u << rng(3) : 0;
        in.inl    = rng.chance(1, 4) ? 1 : rng.chance(1, 5) ? 2 : 0;
        in.prio   = rng.chance(1, 4) ? 749 : 500;
        in.throws = rng.chance(1, 5) ? 30 : 0;
        in.work   = int(rng(3));
        in.kind   = many && rng.chance(2, 3) ? rng.range(8, 10) : int(rng(9));
        if (in.kind == 8) in.kind = 2;
    }
    std::vector<std::vector<int>> initial;
    int n0 = rng.range(0, big ? 8 : 4);
    for (int i = 0; i < n0; ++i) initial.push_back({int(rng(N_TYPES)), rng.range(0, 2), rng.chance(1, 4)});
    int n_ext = rng.range(1, 4);
    uint64_t es = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(20, many ? 500 : 200) : rng.range(6, 30));
    int slow = many ? 0 : rng.range(0, 2);
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_OUT, 1);
        p.install<R>(initial);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big, slow] {
            Rng r(h::mix(es, uint64_t(t)));
            h::ctr_add(C_OUT, 1);
            int n = r.range(1, big ? (h::args.mode == "bind" ? 200 : 30) : 6);
            for (int i = 0; i < n; ++i) {
                act(r, int(r(3)), -1);
                if (slow) h::work(r.next() % uint64_t(20000 * slow));
            }
            h::ctr_add(C_EXT, -1);
            release();
        });
        ext.emplace_back([] { release(); });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    for (auto& x : handles) x.clear();
    drop_store();
    N::dsl::store::DataStore<Other>::set(nullptr);
    plant   = nullptr;
    reactor = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
