// Idle reactions of pools and of the whole system. Mode: idle.
#include "dyn.hpp"
#include <algorithm>
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E, DISP, SHUT, UNBIND, START };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E", "DISP", "SHUT", "UNBIND", "START"};
constexpr int N_TYPES = 3;
// what an idle reaction waits for
enum Mon { GLOBAL, DEF, MAIN_, ONE, TWO, N_MON };
const int mon_pool[N_MON] = {-1, POOL_DEFAULT, POOL_MAIN, POOL_1, POOL_2};
int mon_of(int pool) {
    for (int m = 1; m < N_MON; ++m) if (mon_pool[m] == pool) return m;
    return -1;
}
enum { C_BUDGET = 60, C_PEND, C_MARK = C_PEND + N_MON, C_FIRES = C_MARK + N_MON };
// reactions: kind 0 trigger, 1 idle (type = what it waits for), the first N_MON ones are the observers
uint64_t run_seed = 0;
unsigned monitored = 0;
N::threading::ReactionHandle handles[MAX_INST];
thread_local bool inline_emit = false;

void maybe_stop() {
    if (h::ctr_get(C_EXT) != 0) return;
    for (int m = 0; m < N_MON; ++m) if ((monitored & (1u << m)) && h::ctr_get(C_MARK + m) == 0) return;
    if (h::ctr_add(C_SHUT, 1) == 1) {
        h::ev(SHUT);
        plant->shutdown();
    }
}
void pend(int mon, int d) {
    if (mon < 0) return;
    if (d > 0) {
        h::ctr_set(C_MARK + mon, 0);
        h::ctr_set(C_MARK, 0);
    }
    h::ctr_add(C_PEND + mon, d);
    h::ctr_add(C_PEND, d);
}
struct Token {
    int mon;
    explicit Token(int mon) : mon(mon) { pend(mon, 1); }
    ~Token() { pend(mon, -1); }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& t) {
        const Inst* in = Dyn::slot(t.parent->id);
        if (in->kind == 1) {
            const auto* cur = N::threading::ReactionTask::get_current_task();
            h::ev(DISP, uint64_t(in->idx), cur == nullptr ? 0 : uint64_t(cur->id));
            return std::make_shared<Token>(-1);
        }
        return std::make_shared<Token>(inline_emit || in->inl == 1 ? -1 : mon_of(in->pool));
    }
};
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid();
    h::ev(EMIT_B, id, uint64_t(K), inl);
    inline_emit = inl;
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    inline_emit = false;
    h::ev(EMIT_E, id, uint64_t(K), inl);
}
void emit_any(Rng& r, int ttl) {
    bool inl = r.chance(1, 5), was = inline_emit;
    int k    = int(r(N_TYPES));
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else emit_k<2>(ttl, inl);
    inline_emit = was;
}
void body(Inst* in, uint64_t id, int ttl) {
    bool was    = inline_emit;
    inline_emit = false;
    h::ev(RUN_B, uint64_t(in->idx), id);
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    if (ttl > 0) {
        int k = r.range(0, 2);
        for (int i = 0; i < k && h::ctr_add(C_BUDGET, -1) >= 0; ++i) emit_any(r, ttl - 1);
    }
    if (in->kind == 1 && in->limit && h::ctr_add(C_FIRES + in->idx, 1) >= in->limit) {
        handles[in->idx].unbind();
        h::ev(UNBIND, uint64_t(in->idx));
    }
    if (in->kind == 1 && in->idx < N_MON && h::ctr_get(C_PEND + in->type) == 0) {
        h::ctr_set(C_MARK + in->type, 1);
        maybe_stop();
    }
    h::ev(RUN_E, uint64_t(in->idx), id);
    inline_emit = was;
    if (int(r(100)) < in->throws) throw std::runtime_error("planned");
}
struct R : N::Reactor {
    template <int K>
    void trig(Inst* i) {
        on<Dyn, Trigger<M<K>>, Tok>(i).then([i](const M<K>& m) { body(i, m.id, m.ttl); });
    }
    void bind_one(Inst* i) {
        if (i->kind == 1) {
            // Every run of an idle reaction makes other choices
            auto f = [i] { body(i, h::uid(), i->work & 1); };
            switch (i->type) {
                case GLOBAL: handles[i->idx] = on<Dyn, Idle<>, Tok>(i).then(f); break;
                case DEF: handles[i->idx] = on<Dyn, Idle<Pool<>>, Tok>(i).then(f); break;
                case MAIN_: handles[i->idx] = on<Dyn, Idle<MainThread>, Tok>(i).then(f); break;
                case ONE: handles[i->idx] = on<Dyn, Idle<Pool<P1>>, Tok>(i).then(f); break;
                default: handles[i->idx] = on<Dyn, Idle<Pool<P2>>, Tok>(i).then(f); break;
            }
        }
        else if (i->type == 0) trig<0>(i);
        else if (i->type == 1) trig<1>(i);
        else trig<2>(i);
    }
    R(std::unique_ptr<N::Environment> e, uint64_t seed, int pre) : Reactor(std::move(e)) {
        Rng r(seed);
        if (r.chance(1, 2)) for (int i = 0; i < n_inst; ++i) bind_one(&insts[i]);
        else {
            // Work that is queued before there is any idle reaction
            for (int i = N_MON; i < n_inst; ++i) if (insts[i].kind == 0) bind_one(&insts[i]);
            for (int i = 0; i < pre; ++i) if (r.chance(1, 2)) emit_any(r, r.range(0, 3));
            for (int i = 0; i < n_inst; ++i) if (insts[i].kind == 1) bind_one(&insts[i]);
        }
        on<Startup>().then([seed, pre] {
            Rng r(seed + 1);
            for (int i = 0; i < pre; ++i) if (r.chance(1, 2)) emit_any(r, r.range(0, 3));
            h::ctr_add(C_EXT, -1);
            maybe_stop();
        });
        for (int i = 0; i < pre; ++i) if (r.chance(1, 2)) emit_any(r, r.range(0, 3));
    }
};
void check() {
    uint64_t n = h::ev_count(), sg = 7;
    struct Em { uint64_t e = ~0ull; bool idle_ctx = false; };
    std::unordered_map<uint64_t, Em> em;
    std::map<uint32_t, int> depth, idle_nest;
    uint64_t started = 0;
    std::vector<std::vector<int>> busy(N_MON, std::vector<int>(n + 2, 0));
    bool latched[N_POOLS] = {};
    for (int x = 0; x < n_inst; ++x) if (insts[x].groups) latched[insts[x].pool] = true;
    bool grouped = false;
    for (int x = 0; x < n_inst; ++x) grouped |= insts[x].groups != 0;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        if (e.type == EMIT_E) em[e.a].e = i;
        if (e.type == START) started = i;
    }
    struct Run { uint64_t b; bool queued; };
    std::map<std::pair<uint64_t, uint64_t>, Run> open;
    std::vector<uint64_t> ends[N_MON];
    struct Disp { uint64_t lo, at; };
    std::map<int, std::vector<Disp>> disp;
    std::map<uint32_t, uint64_t> last_end;
    // All idle reactions which are started by one decision are started one after the other by the deciding thread
    struct Decision { uint64_t lo = 0, at = 0, id = ~0ull; };
    std::map<uint32_t, Decision> current;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        int& d        = depth[e.thread];
        switch (e.type) {
            case EMIT_B: d++; em[e.a].idle_ctx = idle_nest[e.thread] > 0; break;
            case EMIT_E: d--; break;
            case RUN_B: {
                const Inst& in = insts[e.a];
                bool dispatch_inline = in.kind == 1 && in.inl == 1;
                if (dispatch_inline) idle_nest[e.thread]++;
                open[{e.a, e.b}] = Run{i, d == 0 && !dispatch_inline};
                sg = h::mix(sg, e.a * 16 + e.thread);
            } break;
            case RUN_E: {
                const Inst& in = insts[e.a];
                if (in.kind == 1 && in.inl == 1) idle_nest[e.thread]--;
                Run r = open[{e.a, e.b}];
                if (!r.queued) break;
                last_end[e.thread] = i;
                int m = mon_of(in.pool);
                if (m < 0) break;
                uint64_t from_local = r.b, from_global = r.b;
                if (in.kind == 0 && !in.groups && !em[e.b].idle_ctx) {
                    from_global = std::min(r.b, em[e.b].e);
                    if (!latched[in.pool]) from_local = from_global;
                }
                busy[size_t(m)][from_local]++;
                busy[size_t(m)][i]--;
                busy[0][from_global]++;
                busy[0][i]--;
                ends[m].push_back(i);
                ends[0].push_back(i);
            } break;
            case DISP: {
                Decision& c = current[e.thread];
                uint64_t lo = last_end.count(e.thread) ? last_end[e.thread] : started;
                if (c.id != e.b) {
                    c.lo = std::max(lo, c.at);
                    c.at = i;
                    c.id = e.b;
                }
                disp[int(e.a)].push_back({c.lo, c.at});
            } break;
            default: break;
        }
    }
    for (auto& b : busy) for (uint64_t i = 1; i < n + 2; ++i) b[i] += b[i - 1];
    static const char* what[] = {"the whole system", "the default pool", "the main thread", "pool P1", "pool P2"};
    long long fires[N_MON] = {};
    for (auto& x : disp) {
        const Inst& in = insts[x.first];
        auto& b        = busy[size_t(in.type)];
        std::sort(x.second.begin(), x.second.end(), [](const Disp& l, const Disp& r) { return l.at < r.at; });
        for (size_t k = 0; k < x.second.size(); ++k) {
            fires[in.type]++;
            bool ok = false;
            for (uint64_t s = x.second[k].lo; s < x.second[k].at && !ok; ++s) ok = b[s] == 0;
            if (x.second[k].at == 0) ok = true;
            if (!ok) h::viol(in.type == GLOBAL ? "premature-global" : "premature-pool", "an idle reaction of %s was started at event %llu though there was work at every moment since event %llu",
                             what[in.type], (unsigned long long) x.second[k].at, (unsigned long long) x.second[k].lo);
        }
        // A task that waits for its groups may be queued and does not keep its pool from going idle again
        if (grouped) continue;
        // Each decision was taken at some moment in its interval and there has to be work between any two of them
        auto& en = ends[in.type];
        auto gap = [&](uint64_t at) { return size_t(std::upper_bound(en.begin(), en.end(), at) - en.begin()); };
        std::multimap<size_t, Disp> todo;  // by the first gap
        for (auto& d : x.second) todo.emplace(gap(d.lo), d);
        std::multimap<size_t, Disp> ready;  // by the last gap
        bool ok = true;
        for (size_t g = 0; g <= en.size() && ok; ++g) {
            for (auto it = todo.begin(); it != todo.end() && it->first <= g; it = todo.erase(it)) ready.emplace(gap(it->second.at), it->second);
            if (ready.empty()) continue;
            ok = ready.begin()->first >= g;
            if (!ok) h::viol(in.type == GLOBAL ? "repeat-global" : "repeat-pool", "an idle reaction of %s was started more than once (up to event %llu) without any work in between", what[in.type],
                             (unsigned long long) ready.begin()->second.at);
            ready.erase(ready.begin());
        }
        if (ok && !ready.empty()) h::viol(in.type == GLOBAL ? "repeat-global" : "repeat-pool", "an idle reaction of %s was started more than once at the end without any work in between", what[in.type]);
    }
    h::note("global_idle_starts", fires[0]);
    h::note("pool_idle_starts", fires[1] + fires[2] + fires[3] + fires[4]);
    h::note("pool_tasks", int64_t(ends[0].size()));
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu pool tasks, idle starts: %lld global, %lld default, %lld main, %lld P1, %lld P2", (unsigned long long) h::case_no, n_inst, ends[0].size(), fires[0], fires[1],
              fires[2], fires[3], fires[4]);
    dump_events(names, 9);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    pool_limit[POOL_DEFAULT] = rng.range(1, 3);
    for (auto& x : handles) x = {};
    monitored = 0;
    n_inst    = 0;
    auto add  = [&](int kind, int type, int pool) -> Inst& {
        Inst& in = insts[n_inst];
        in       = Inst{};
        in.idx   = n_inst++;
        in.kind  = kind;
        in.type  = type;
        in.pool  = pool;
        return in;
    };
    // The observers, in a pool that takes no part in this
    for (int m = 0; m < N_MON; ++m) add(1, m, POOL_N), monitored |= 1u << m;
    bool groups = rng.chance(1, 3), multi = groups && rng.chance(1, 3);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_N};
    for (int i = rng.range(1, big ? 8 : 5); i > 0; --i) {
        Inst& in  = add(0, int(rng(N_TYPES)), pools[rng(6)]);
        in.inl    = rng.chance(1, 4) ? 1 : int(rng(2)) * 2;
        in.work   = int(rng(3));
        in.prio   = rng.chance(1, 3) ? 250 * rng.range(0, 4) : 500;
        in.throws = rng.chance(1, 6) ? 40 : 0;
        if (groups && rng.chance(1, 2)) in.groups = 1u << rng(2);
        if (multi && in.groups && rng.chance(1, 2)) in.groups = 3;
    }
    for (int i = rng.range(0, 2); i > 0; --i) {
        Inst& in = add(1, int(rng(N_MON)), pools[rng(6)]);
        in.work  = int(rng(3));
        in.limit = rng.range(1, 4);
        if (rng.chance(1, 3)) in.inl = 1;
        else if (groups && rng.chance(1, 2)) in.groups = 1u << rng(2);
    }
    int n_ext   = rng.range(0, 2), pre = rng.chance(1, 3) ? 0 : rng.range(0, 5);
    uint64_t es = rng.next(), rs = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(10, 60) : rng.range(2, 12));
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        p.install<R>(rs, pre);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            int n = r.range(0, big ? 8 : 3);
            for (int i = 0; i < n; ++i) {
                h::work(r.next() % 200000);
                emit_any(r, r.range(0, 2));
            }
            h::ctr_add(C_EXT, -1);
            maybe_stop();
        });
        h::ev(START);
        p.start();
        for (auto& t : ext) t.join();
        for (auto& x : handles) x = {};
    }
    h::sched_end();
    check();
    drop_store();
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) {
    h::describe_state = [](std::string& s) {
        s += " marks";
        for (int m = 0; m < N_MON; ++m) s += " " + std::to_string(h::ctr_get(C_MARK + m)) + "/" + std::to_string(h::ctr_get(C_PEND + m));
        s += " others " + std::to_string(h::ctr_get(C_EXT));
        dump_events(names, 9);
    };
    return h::main_loop(argc, argv, run_case);
}
