// Inline execution, current task and task scopes. Mode: inl.
#include "dyn.hpp"
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E"};
constexpr int N_TYPES = 4;
enum { C_BUDGET = 60, C_NEST, C_IDENT };
struct SA {};
struct SB {};
using ScopeA = N::dsl::word::TaskScope<SA>;
using ScopeB = N::dsl::word::TaskScope<SB>;
uint64_t run_seed = 0;
bool force        = false;
int stop_after    = -1;
int n_of[N_TYPES];

void release() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    ~Token() { release(); }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
// What a place in the program should see: the task it belongs to and which scopes it is in
struct Ident { const N::threading::ReactionTask* task; uint64_t id; bool a, b; };
void verify(const Ident& i, const char* where) {
    const auto* t = N::threading::ReactionTask::get_current_task();
    if (t != i.task || (t != nullptr && t->id != i.id)) h::viol("identity", "the current task is not the one that is running (%s)", where);
    if (ScopeA::in_scope() != i.a) h::viol("scope", "task scope A is %s (%s)", i.a ? "lost" : "wrongly set", where);
    if (ScopeB::in_scope() != i.b) h::viol("scope", "task scope B is %s (%s)", i.b ? "lost" : "wrongly set", where);
    h::ctr_add(C_IDENT, 1);
}
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid();
    h::ctr_add(C_OUT, 1);
    h::ev(EMIT_B, id, uint64_t(K), inl);
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K), inl);
    release();
}
void emit_any(int k, int ttl, bool inl) {
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else if (k == 2) emit_k<2>(ttl, inl);
    else emit_k<3>(ttl, inl);
}
void body(Inst* in, uint64_t id, int ttl) {
    h::ev(RUN_B, uint64_t(in->idx), id);
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    const auto* t = N::threading::ReactionTask::get_current_task();
    Ident me{t, t == nullptr ? 0 : t->id, (in->kind & 1) != 0, (in->kind & 2) != 0};
    if (t == nullptr || t->parent == nullptr || t->parent->id != in->rid) h::viol("identity", "inside a reaction the current task is not of that reaction");
    verify(me, "at the start");
    h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    if (stop_after >= 0 && h::ctr_add(C_NEST, 1) == stop_after && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown(force);
    if (ttl > 0) {
        int k = r.range(0, 3);
        for (int i = 0; i < k && h::ctr_add(C_BUDGET, -1) >= 0; ++i) {
            emit_any(int(r(N_TYPES)), ttl - 1, r.chance(1, 2));
            verify(me, "after an emit");
        }
    }
    h::ev(RUN_E, uint64_t(in->idx), id);
    if (int(r(100)) < in->throws) throw std::runtime_error("planned");
}
struct R : N::Reactor {
    template <int K>
    void b(Inst* i) {
        auto f = [i](const M<K>& m) { body(i, m.id, m.ttl); };
        switch (i->kind) {
            case 1: on<Dyn, Trigger<M<K>>, ScopeA, Tok>(i).then(f); break;
            case 2: on<Dyn, Trigger<M<K>>, ScopeB, Tok>(i).then(f); break;
            case 3: on<Dyn, ScopeB, Trigger<M<K>>, ScopeA, Tok>(i).then(f); break;
            default: on<Dyn, Trigger<M<K>>, Tok>(i).then(f); break;
        }
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<std::vector<int>> initial, std::vector<std::vector<int>> before) : Reactor(std::move(e)) {
        for (int n = 0; n < n_inst; ++n) {
            Inst* i = &insts[n];
            switch (i->type) {
                case 0: b<0>(i); break;
                case 1: b<1>(i); break;
                case 2: b<2>(i); break;
                default: b<3>(i); break;
            }
        }
        Ident none{nullptr, 0, false, false};
        for (const auto& x : before) {
            emit_any(x[0], x[1], x[2] != 0);
            verify(none, "before the start");
        }
        on<Startup>().then([initial] {
            h::ctr_add(C_OUT, 1);
            for (const auto& x : initial) emit_any(x[0], x[1], x[2] != 0);
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};

struct Task {
    uint64_t emit_b;         // the emit of the message
    uint64_t b = ~0ull, e = ~0ull, rel = ~0ull;
    uint32_t thread = ~0u;
};
void check() {
    struct Em { int type; uint64_t b, e = ~0ull; bool inl; uint32_t thread; };
    std::map<uint64_t, Em> em;
    std::map<std::pair<uint64_t, int>, Task> tasks;  // message, reaction
    // Per thread: open frames, innermost last. A frame is an emit (inst -1) or a run
    struct Frame { int inst; uint64_t msg; };
    std::map<uint32_t, std::vector<Frame>> st;
    std::map<uint32_t, std::vector<std::pair<uint64_t, int>>> unreleased;  // top level tasks that ended, not known to be released
    uint64_t n = h::ev_count(), sg = 3;
    long long deep = 0;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        auto& s       = st[e.thread];
        deep          = std::max<long long>(deep, (long long) s.size());
        switch (e.type) {
            case EMIT_B:
                em[e.a] = Em{int(e.b), i, ~0ull, e.c != 0, e.thread};
                for (int x = 0; x < n_inst; ++x) if (insts[x].type == int(e.b)) tasks[{e.a, x}].emit_b = i;
                s.push_back({-1, e.a});
                break;
            case EMIT_E:
                em[e.a].e = i;
                if (s.empty() || s.back().inst != -1 || s.back().msg != e.a) h::viol("nesting", "the end of an emit did not match its begin");
                else s.pop_back();
                // Whatever ran inside this emit has been released now
                for (int x = 0; x < n_inst; ++x) {
                    auto it = tasks.find({e.a, x});
                    if (it != tasks.end() && it->second.thread == e.thread && it->second.b > em[e.a].b && it->second.e < i) it->second.rel = i;
                }
                break;
            case RUN_B: {
                const Inst& in = insts[e.a];
                auto it        = em.find(e.b);
                if (it == em.end() || it->second.type != in.type) { h::viol("phantom", "a reaction ran for a message that is not of its type"); break; }
                Task& t = tasks[{e.b, int(e.a)}];
                if (t.b != ~0ull) h::viol("twice", "a reaction ran twice for one message");
                t.b      = i;
                t.thread = e.thread;
                bool in_emit = !s.empty() && s.back().inst == -1 && s.back().msg == e.b;
                bool asked   = in.inl == 1 || (in.inl == 0 && it->second.inl);
                if (!asked && !s.empty()) h::viol("not-asked", "reaction %d (inline setting %d) ran inside %s although it was not to be run inline (%s emit)", int(e.a), in.inl,
                                                 in_emit ? "its emit" : "another task or emit", it->second.inl ? "inline" : "local");
                else if (asked && !s.empty() && !in_emit) h::viol("foreign", "reaction %d ran inside a task or emit it has nothing to do with", int(e.a));
                if (s.empty()) for (auto& u : unreleased[e.thread]) tasks[u].rel = i;
                if (s.empty()) unreleased[e.thread].clear();
                s.push_back({int(e.a), e.b});
                sg = h::mix(sg, e.a * 64 + e.thread * 8 + s.size());
            } break;
            case RUN_E:
                if (s.empty() || s.back().inst != int(e.a) || s.back().msg != e.b) h::viol("nesting", "the end of a task did not match its begin");
                else s.pop_back();
                tasks[{e.b, int(e.a)}].e = i;
                if (s.empty()) unreleased[e.thread].push_back({e.b, int(e.a)});
                break;
            default: break;
        }
    }
    long long must = 0, inl = 0, busy = 0, queued = 0;
    for (auto& p : tasks) {
        const Inst& in = insts[p.first.second];
        const Em& m    = em[p.first.first];
        const Task& t  = p.second;
        bool inside    = t.b != ~0ull && t.thread == m.thread && t.b > m.b && t.e < m.e;
        bool asked     = in.inl == 1 || (in.inl == 0 && m.inl);
        if (inside) inl++;
        else if (t.b != ~0ull) queued++;
        if (!asked || m.e == ~0ull) continue;
        bool free = true;
        for (int g = 0; g < N_GROUPS && free; ++g) {
            if (!(in.groups & (1u << g))) continue;
            int others = 0;
            for (auto& q : tasks) {
                if (q.first == p.first || !(insts[q.first.second].groups & (1u << g))) continue;
                // Could it have held the group at some time during this emit?
                if (q.second.emit_b < m.e && q.second.rel > m.b) others++;
            }
            free = others < group_limit[g];
        }
        if (!free) { busy++; continue; }
        must++;
        if (!inside)
            h::viol("not-inside", "reaction %d (inline setting %d, groups %x) did not run inside the %s emit although its groups were free%s", p.first.second, in.inl, in.groups,
                    m.inl ? "inline" : "local", t.b == ~0ull ? ", it never ran" : "");
    }
    h::note("emits", int64_t(em.size()));
    h::note("identity_checks", h::ctr_get(C_IDENT));
    h::note("tasks_run_inline", inl);
    h::note("tasks_run_queued", queued);
    h::note("inline_runs_required", must);
    h::note("inline_requests_with_group_maybe_busy", busy);
    h::note_max("deepest_nesting", deep);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %lld inline runs (%lld required), %lld queued runs, nesting %lld", (unsigned long long) h::case_no, n_inst, em.size(), inl, must, queued, deep);
    dump_events(names, 5);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    n_inst   = rng.range(2, big ? 12 : 8);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    int groupy = rng.range(0, 4);
    for (int& x : n_of) x = 0;
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(N_TYPES));
        in.pool   = pools[rng(6)];
        in.groups = int(rng(5)) < groupy ? 1u << rng(N_GROUPS) : 0;
        if (in.groups && rng.chance(1, 3)) in.groups |= 1u << rng(N_GROUPS);
        in.inl    = int(rng(3));
        in.throws = rng.chance(1, 4) ? 40 : 0;
        in.work   = int(rng(3));
        in.kind   = int(rng(4));
        n_of[in.type]++;
    }
    auto make = [&](int n) {
        std::vector<std::vector<int>> v;
        for (int i = 0; i < n; ++i) v.push_back({int(rng(N_TYPES)), rng.range(0, 3), rng.chance(1, 2)});
        return v;
    };
    auto initial = make(rng.range(0, big ? 8 : 4)), before = make(rng.chance(1, 3) ? rng.range(1, 3) : 0), after = make(rng.chance(1, 3) ? rng.range(1, 3) : 0);
    int n_ext = rng.range(0, 3);
    uint64_t es = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(10, 150) : rng.range(4, 25));
    force      = rng.chance(1, 2);
    stop_after = rng.chance(1, 4) ? rng.range(1, 10) : -1;
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_OUT, 1);
        p.install<R>(initial, before);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            Ident none{nullptr, 0, false, false};
            verify(none, "on a foreign thread");
            h::ctr_add(C_OUT, 1);
            int n = r.range(1, big ? 10 : 3);
            for (int i = 0; i < n; ++i) {
                emit_any(int(r(N_TYPES)), r.range(0, 2), r.chance(1, 2));
                verify(none, "on a foreign thread after an emit");
            }
            h::ctr_add(C_EXT, -1);
            release();
        });
        ext.emplace_back([] { release(); });
        p.start();
        for (auto& t : ext) t.join();
        Ident none{nullptr, 0, false, false};
        for (const auto& x : after) {
            emit_any(x[0], x[1], x[2] != 0);
            verify(none, "after the stop");
        }
    }
    h::sched_end();
    check();
    drop_store();
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
