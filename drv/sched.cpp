// Scheduler workloads: random reaction graphs over pools, groups, priorities and inline execution.
// Modes select a workload profile; all monitors for a mode run over the event log of each case.
#include "nuc.hpp"

#include <map>
#include <unordered_map>

using h::Rng;
namespace N = NUClear;

namespace {

enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E, SHUT_B, SHUT_E, START_RET, BAD, EXT_DONE, GATE };

// ---------------------------------------------------------------------------------------------------------------
// Messages
constexpr int N_TYPES = 4;
struct MsgBase {
    uint64_t id;
    int ttl;
    uint64_t check;
    std::vector<uint64_t> payload;
    explicit MsgBase(int ttl, uint64_t n) : id(h::uid()), ttl(ttl), check(h::mix(id, 99)) {
        for (uint64_t i = 0; i < n; ++i) payload.push_back(h::mix(id, i));
        h::ctr_add(1, 1);
    }
    MsgBase(const MsgBase&) = delete;
    MsgBase& operator=(const MsgBase&) = delete;
    virtual ~MsgBase() {
        check = 0xDEAD;
        h::ctr_add(1, -1);
    }
    bool ok() const {
        if (check != h::mix(id, 99)) return false;
        for (size_t i = 0; i < payload.size(); ++i) if (payload[i] != h::mix(id, i)) return false;
        return true;
    }
};
template <int K>
struct M : MsgBase { using MsgBase::MsgBase; };

// ---------------------------------------------------------------------------------------------------------------
// Static pools, groups
struct P1 { static constexpr int concurrency = 1; };
struct P2 { static constexpr int concurrency = 2; };
struct P3 { static constexpr int concurrency = 3; };
struct PP { static constexpr int concurrency = 2; static constexpr bool persistent = true; };
struct PN { static constexpr int concurrency = 1; static constexpr bool counts_for_idle = false; };
struct S0 {};
struct S1 {};
struct S2 {};
struct G2 { static constexpr int concurrency = 2; };
struct G3 { static constexpr int concurrency = 3; };

enum PoolId { POOL_DEFAULT, POOL_MAIN, POOL_1, POOL_2, POOL_3, POOL_P, POOL_N, N_POOLS };
enum GroupId { GR_S0, GR_S1, GR_S2, GR_2, GR_3, N_GROUPS };
const int group_limit[N_GROUPS] = {1, 1, 1, 2, 3};
int pool_limit[N_POOLS]         = {0, 1, 1, 2, 3, 2, 1};
const bool pool_persistent[N_POOLS] = {false, false, false, false, false, true, false};

std::shared_ptr<const N::util::ThreadPoolDescriptor> pool_desc(int p) {
    using namespace N::dsl::word;
    switch (p) {
        case POOL_MAIN: return MainThread::descriptor();
        case POOL_1: return Pool<P1>::descriptor();
        case POOL_2: return Pool<P2>::descriptor();
        case POOL_3: return Pool<P3>::descriptor();
        case POOL_P: return Pool<PP>::descriptor();
        case POOL_N: return Pool<PN>::descriptor();
        default: return Pool<>::descriptor();
    }
}
std::shared_ptr<const N::util::GroupDescriptor> group_desc(int g) {
    using namespace N::dsl::word;
    switch (g) {
        case GR_S0: return Sync<S0>::descriptor();
        case GR_S1: return Sync<S1>::descriptor();
        case GR_S2: return Sync<S2>::descriptor();
        case GR_2: return Group<G2>::descriptor();
        default: return Group<G3>::descriptor();
    }
}

// ---------------------------------------------------------------------------------------------------------------
// A reaction instance
struct Inst {
    int idx       = 0;
    int type      = 0;       // message type
    int pool      = POOL_DEFAULT;
    unsigned groups = 0;     // bit set of GroupId
    int prio      = 500;
    int inl       = 0;       // 0 neutral, 1 always, 2 never
    bool throws   = false;
    int work      = 0;
    int fanout    = 0;       // percent chance of emitting
};
constexpr int MAX_INST = 64;
Inst insts[MAX_INST];
int n_inst = 0;
int by_type[N_TYPES];         // number of instances per type (after binding)
std::vector<int> insts_of[N_TYPES];

// Dynamic DSL word: everything comes from the instance
struct Dyn {
    static Inst*& slot(uint64_t id) {
        static Inst* table[1 << 20];
        return table[id & ((1 << 20) - 1)];
    }
    template <typename DSL>
    static void bind(const std::shared_ptr<N::threading::Reaction>& r, Inst* i) { slot(r->id) = i; }
    template <typename DSL>
    static int priority(const N::threading::ReactionTask& t) { return slot(t.parent->id)->prio; }
    template <typename DSL>
    static std::shared_ptr<const N::util::ThreadPoolDescriptor> pool(const N::threading::ReactionTask& t) {
        return pool_desc(slot(t.parent->id)->pool);
    }
    template <typename DSL>
    static std::set<std::shared_ptr<const N::util::GroupDescriptor>> group(const N::threading::ReactionTask& t) {
        std::set<std::shared_ptr<const N::util::GroupDescriptor>> s;
        for (int g = 0; g < N_GROUPS; ++g) if (slot(t.parent->id)->groups & (1u << g)) s.insert(group_desc(g));
        return s;
    }
    template <typename DSL>
    static N::util::Inline run_inline(const N::threading::ReactionTask& t) {
        switch (slot(t.parent->id)->inl) {
            case 1: return N::util::Inline::ALWAYS;
            case 2: return N::util::Inline::NEVER;
            default: return N::util::Inline::NEUTRAL;
        }
    }
};

// Plain data protected only by a Sync group: ThreadSanitizer sees a missing happens-before edge
int sync_data[3];

N::PowerPlant* plant = nullptr;
bool early_shutdown  = false;   // this case shuts down at a random point
bool force_shutdown  = false;
int shutdown_countdown = 0;
// counters: 1 live messages, 2 outstanding, 3 emit budget, 4 done flag, 5 externals running, 6 shutdown countdown
enum { C_LIVE = 1, C_OUT, C_BUDGET, C_SHUT, C_EXT, C_COUNTDOWN, C_POOL = 100, C_GROUP = 200, C_SEED };

void do_shutdown(bool force) {
    if (h::ctr_add(C_SHUT, 1) != 1) return;
    h::ev(SHUT_B, force);
    plant->shutdown(force);
    h::ev(SHUT_E, force);
}

void maybe_finish() {
    if (!early_shutdown && h::ctr_get(C_OUT) == 0 && h::ctr_get(C_EXT) == 0) do_shutdown(false);
}

template <int K>
void emit_one(int ttl, bool inl, uint64_t payload) {
    auto m      = std::make_unique<M<K>>(ttl, payload);
    uint64_t id = m->id;
    h::ctr_add(C_OUT, by_type[K]);
    h::ev(EMIT_B, id, uint64_t(K), inl);
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::move(m));
    else plant->emit(std::move(m));
    h::ev(EMIT_E, id, uint64_t(K), inl);
}
void emit_type(int k, int ttl, bool inl, uint64_t payload) {
    switch (k) {
        case 0: emit_one<0>(ttl, inl, payload); break;
        case 1: emit_one<1>(ttl, inl, payload); break;
        case 2: emit_one<2>(ttl, inl, payload); break;
        default: emit_one<3>(ttl, inl, payload); break;
    }
}

uint64_t run_seed = 0;

void body(Inst* in, const MsgBase& m) {
    h::ev(RUN_B, uint64_t(in->idx), m.id, uint64_t(in->pool));
    Rng r(h::mix(h::mix(run_seed, m.id), uint64_t(in->idx)));
    if (!m.ok()) h::ev(BAD, uint64_t(in->idx), m.id, 1);
    for (int g = 0; g < 3; ++g) if (in->groups & (1u << g)) sync_data[g]++;
    h::work(r.next() % (1 + uint64_t(in->work) * 100000));
    if (m.ttl > 0) {
        int n = 0;
        while (n < 3 && int(r(100)) < in->fanout) ++n;
        for (int i = 0; i < n; ++i) {
            if (h::ctr_add(C_BUDGET, -1) < 0) break;
            emit_type(int(r(N_TYPES)), m.ttl - 1, r.chance(1, 6), r(4));
            if (r.chance(1, 3)) h::work(r.next() % 100000);
        }
    }
    if (!m.ok()) h::ev(BAD, uint64_t(in->idx), m.id, 2);
    if (early_shutdown && h::ctr_add(C_COUNTDOWN, -1) == 0) do_shutdown(force_shutdown);
    for (int g = 0; g < 3; ++g) if (in->groups & (1u << g)) sync_data[g]++;
    h::ev(RUN_E, uint64_t(in->idx), m.id, uint64_t(in->pool));
    if (h::ctr_add(C_OUT, -1) == 0) maybe_finish();
    if (in->throws && r.chance(1, 2)) throw std::runtime_error("planned");
}

struct TheReactor : N::Reactor {
    template <int K>
    void bind_static(int combo, Inst* i) {
        auto f = [i](const M<K>& m) { body(i, m); };
        auto set = [i](int pool, unsigned groups, int prio, int inl) {
            i->pool = pool; i->groups = groups; i->prio = prio; i->inl = inl;
        };
        switch (combo) {
            case 0: set(POOL_DEFAULT, 0, 500, 0); on<Trigger<M<K>>>().then(f); break;
            case 1: set(POOL_DEFAULT, 1u << GR_S0, 500, 0); on<Trigger<M<K>>, Sync<S0>>().then(f); break;
            case 2: set(POOL_DEFAULT, 1u << GR_2, 500, 0); on<Trigger<M<K>>, Group<G2>>().then(f); break;
            case 3: set(POOL_1, 1u << GR_S0, 750, 0); on<Trigger<M<K>>, Sync<S0>, Pool<P1>, Priority::HIGH>().then(f); break;
            case 4: set(POOL_MAIN, 0, 500, 0); on<Trigger<M<K>>, MainThread>().then(f); break;
            case 5: set(POOL_DEFAULT, (1u << GR_S0) | (1u << GR_S1), 500, 0); on<Trigger<M<K>>, Sync<S0>, Sync<S1>>().then(f); break;
            case 6: set(POOL_2, (1u << GR_S1) | (1u << GR_2), 250, 0); on<Trigger<M<K>>, Group<G2>, Sync<S1>, Pool<P2>, Priority::LOW>().then(f); break;
            case 7: set(POOL_P, 1u << GR_S1, 1000, 0); on<Trigger<M<K>>, Pool<PP>, Sync<S1>, Priority::REALTIME>().then(f); break;
            case 8: set(POOL_3, 0, 0, 2); on<Trigger<M<K>>, Pool<P3>, Priority::IDLE, N::dsl::word::Inline::NEVER>().then(f); break;
            case 9: set(POOL_DEFAULT, 1u << GR_3, 500, 1); on<Trigger<M<K>>, Group<G3>, N::dsl::word::Inline::ALWAYS>().then(f); break;
            default: on<Dyn, Trigger<M<K>>>(i).then(f); break;
        }
    }
    void bind_inst(int combo, Inst* i) {
        switch (i->type) {
            case 0: bind_static<0>(combo, i); break;
            case 1: bind_static<1>(combo, i); break;
            case 2: bind_static<2>(combo, i); break;
            default: bind_static<3>(combo, i); break;
        }
    }
    explicit TheReactor(std::unique_ptr<N::Environment> env, std::vector<int> combos, std::vector<std::vector<int>> initial)
        : Reactor(std::move(env)) {
        for (size_t k = 0; k < combos.size(); ++k) bind_inst(combos[k], &insts[k]);
        for (int i = 0; i < n_inst; ++i) { by_type[insts[i].type]++; insts_of[insts[i].type].push_back(i); }
        on<Startup>().then([this, initial] {
            h::ctr_add(C_OUT, 1);
            for (const auto& e : initial) emit_type(e[0], e[1], e[2] != 0, 2);
            if (h::ctr_add(C_OUT, -1) == 0) maybe_finish();
        });
    }
};

void describe(std::string& s) {
    // Which instances are outstanding?
    std::map<std::pair<uint64_t, uint64_t>, int> pend;
    uint64_t n = h::ev_count();
    s += " outstanding=" + std::to_string(h::ctr_get(C_OUT)) + " shutdown_called=" + std::to_string(h::ctr_get(C_SHUT));
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        if (e.type == EMIT_B) for (int x : insts_of[e.b]) pend[{e.a, uint64_t(x)}]++;
        if (e.type == RUN_E) pend.erase({e.b, e.a});
    }
    int shown = 0;
    for (auto& p : pend) {
        if (shown++ > 6) break;
        const Inst& in = insts[p.first.second];
        s += " [msg " + std::to_string(p.first.first) + " reaction " + std::to_string(in.idx) + " pool " + std::to_string(in.pool)
             + " groups " + std::to_string(in.groups) + " prio " + std::to_string(in.prio) + " inline " + std::to_string(in.inl) + "]";
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Offline oracles over the event log
bool want(const char* m) { return h::args.mode == m || h::args.mode == "all"; }

void check(uint64_t main_thread) {
    const uint64_t n = h::ev_count();
    struct Em { int type; uint64_t b = ~0ull, e = ~0ull; int thread; bool inl; int from_pool = -1; };
    std::unordered_map<uint64_t, Em> em;
    std::map<std::pair<uint64_t, uint64_t>, int> runs;   // (msg, inst) -> count
    uint64_t shut_b = ~0ull, shut_e = ~0ull, start_ret = ~0ull;
    bool force = false;
    int cur[N_POOLS] = {0}, gcur[N_GROUPS] = {0}, gmax[N_GROUPS] = {0}, pmax[N_POOLS] = {0};
    std::vector<std::vector<int>> stack;                  // per thread stack of running instances
    std::vector<int> base_pool;                           // thread -> pool of the outermost task seen
    std::vector<char> base_inline;                        // thread -> outermost task is inline on a foreign thread
    std::set<uint32_t> pool_threads[N_POOLS];
    uint64_t sig = 1469598103934665603ull;
    uint64_t n_runs = 0, n_over = 0;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        if (e.thread >= stack.size()) { stack.resize(e.thread + 1); base_pool.resize(e.thread + 1, -1); base_inline.resize(e.thread + 1, 0); }
        switch (e.type) {
            case EMIT_B: {
                Em x; x.type = int(e.b); x.b = i; x.thread = int(e.thread); x.inl = e.c != 0;
                x.from_pool = stack[e.thread].empty() || base_inline[e.thread] ? -1 : insts[stack[e.thread][0]].pool;
                em[e.a] = x;
            } break;
            case EMIT_E: em[e.a].e = i; break;
            case RUN_B: {
                n_runs++;
                const Inst& in = insts[e.a];
                sig = (sig ^ (e.a * 31 + e.thread)) * 1099511628211ull;
                if (++runs[{e.b, e.a}] > 1 && want("once")) h::viol("duplicate", "message %llu ran reaction %llu twice", (unsigned long long) e.b, (unsigned long long) e.a);
                if (!em.count(e.b) && want("once")) h::viol("phantom", "reaction %llu ran for a message never emitted", (unsigned long long) e.a);
                else if (em.count(e.b) && em[e.b].type != in.type && want("once")) h::viol("misroute", "reaction %llu of type %d ran for message of type %d", (unsigned long long) e.a, in.type, em[e.b].type);
                const bool nested = !stack[e.thread].empty();
                if (start_ret != ~0ull && !nested && !(em.count(e.b) && em[e.b].thread == int(e.thread) && em[e.b].e == ~0ull) && want("stop")) h::viol("after-stop", "reaction %llu started after start() returned", (unsigned long long) e.a);
                // pool affinity: a task on a bare worker thread must be on its own pool; inline tasks may run anywhere
                bool may_inline = in.inl == 1 || (in.inl == 0 && em.count(e.b) && em[e.b].inl);
                bool inline_here = em.count(e.b) && em[e.b].thread == int(e.thread) && em[e.b].e == ~0ull;
                // (em.e is only filled once the EMIT_E event has been passed, so ~0 means the emit call is still open)
                if (inline_here && !may_inline && want("pool")) h::viol("wrong-thread", "reaction %llu ran inside its emit call although not inline", (unsigned long long) e.a);
                if (!inline_here) {
                    if (nested && want("pool")) h::viol("nested", "reaction %llu started inside another reaction on the same thread", (unsigned long long) e.a);
                    if (!nested) {
                        pool_threads[in.pool].insert(e.thread);
                        int& bp = base_pool[e.thread];
                        if (bp == -1) bp = in.pool;
                        else if (bp != in.pool && want("pool")) h::viol("wrong-pool", "thread %u ran tasks of pool %d and pool %d", e.thread, bp, in.pool);
                        if ((in.pool == POOL_MAIN) != (e.thread == main_thread) && want("pool")) h::viol("main-thread", "reaction of pool %d ran on thread %u (main is %llu)", in.pool, e.thread, (unsigned long long) main_thread);
                        if (++cur[in.pool] > pool_limit[in.pool] && want("pool")) h::viol("pool-limit", "%d tasks at once on pool %d with %d threads", cur[in.pool], in.pool, pool_limit[in.pool]);
                        pmax[in.pool] = std::max(pmax[in.pool], cur[in.pool]);
                    }
                }
                if (!nested) base_inline[e.thread] = inline_here;
                stack[e.thread].push_back(int(e.a));
                for (int g = 0; g < N_GROUPS; ++g) if (in.groups & (1u << g)) {
                    ++gcur[g];
                    if (gcur[g] > group_limit[g] && want("group")) h::viol("group-limit", "%d tasks of a group with concurrency %d running (reaction %llu prio %d pool %d groups %x)", gcur[g], group_limit[g], (unsigned long long) e.a, in.prio, in.pool, in.groups);
                    if (gcur[g] > 1) n_over++;
                    gmax[g] = std::max(gmax[g], gcur[g]);
                }
            } break;
            case RUN_E: {
                const Inst& in = insts[e.a];
                if (!stack[e.thread].empty()) stack[e.thread].pop_back();
                bool nested = !stack[e.thread].empty();
                bool inline_here = em.count(e.b) && em[e.b].thread == int(e.thread) && em[e.b].e == ~0ull;
                if (!nested && !inline_here) --cur[in.pool];
                for (int g = 0; g < N_GROUPS; ++g) if (in.groups & (1u << g)) --gcur[g];
            } break;
            case SHUT_B: shut_b = i; force = e.a != 0; break;
            case SHUT_E: shut_e = i; break;
            case START_RET: start_ret = i; break;
            case BAD: if (want("data")) h::viol("corrupt", "reaction %llu saw message %llu destroyed or altered", (unsigned long long) e.a, (unsigned long long) e.b); break;
            default: break;
        }
    }
    (void) shut_e;
    // Delivery
    uint64_t expected = 0, dropped = 0, after = 0;
    // A pool comes into existence with the first task submitted to it, which must have happened before the shutdown
    bool pp_exists = false;
    for (auto& kv : em) {
        if (kv.second.e >= shut_b) continue;
        for (int x : insts_of[kv.second.type]) if (pool_persistent[insts[x].pool]) pp_exists = true;
    }
    for (auto& kv : em) {
        for (int x : insts_of[kv.second.type]) {
            bool ran = runs.count({kv.first, uint64_t(x)}) != 0;
            const Inst& in = insts[x];
            expected++;
            if (ran) continue;
            bool before = kv.second.e < shut_b;      // the emit completed before shutdown was requested
            bool excused = force || !before;
            if (!force && !before) {
                // Inline execution needs no pool; a persistent pool still accepts work from a running non persistent pool task
                bool inl = in.groups == 0 && (in.inl == 1 || (in.inl == 0 && kv.second.inl));
                if (inl) excused = false;
                if (pool_persistent[in.pool] && pp_exists && (kv.second.from_pool >= 0 && !pool_persistent[kv.second.from_pool])) { excused = false; after++; }
            }
            if (excused) { dropped++; continue; }
            if (want("once") || want("stop") || want("progress"))
                h::viol("lost", "message %llu never ran reaction %d (pool %d groups %x prio %d inline %d; shutdown %s)", (unsigned long long) kv.first, x, in.pool, in.groups, in.prio, in.inl, shut_b == ~0ull ? "none" : before ? "later" : "during");
        }
    }
    h::note("events", int64_t(n));
    h::note("emits", int64_t(em.size()));
    h::note("tasks_run", int64_t(n_runs));
    h::note("deliveries_expected", int64_t(expected));
    h::note("dropped_after_shutdown", int64_t(dropped));
    h::note("group_overlaps_within_limit", int64_t(n_over));
    for (int g = 0; g < N_GROUPS; ++g) { std::string k = "group" + std::to_string(g) + "_max_running"; h::note_max(k.c_str(), gmax[g]); }
    for (int p = 0; p < N_POOLS; ++p) { std::string k = "pool" + std::to_string(p) + "_max_running"; h::note_max(k.c_str(), pmax[p]); }
    if (!h::controlled()) h::sig(sig);
    h::sample("case %llu: %d reactions, %llu messages, %llu tasks run, shutdown %s", (unsigned long long) h::case_no, n_inst, (unsigned long long) em.size(), (unsigned long long) n_runs, early_shutdown ? (force ? "forced" : "early") : "when drained");
    (void) after;
    if (getenv("VERIF_DUMP")) {
        static const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E", "SHUT_B", "SHUT_E", "START_RET", "BAD", "EXT_DONE", "GATE"};
        for (int i = 0; i < n_inst; ++i) fprintf(stderr, "reaction %d type %d pool %d groups %x prio %d inl %d\n", i, insts[i].type, insts[i].pool, insts[i].groups, insts[i].prio, insts[i].inl);
        for (uint64_t i = 0; i < n; ++i) { const auto& e = h::ev_at(i); fprintf(stderr, "%3llu t%u %s %llu %llu %llu\n", (unsigned long long) i, e.thread, names[e.type], (unsigned long long) e.a, (unsigned long long) e.b, (unsigned long long) e.c); }
    }
}

void run_case(Rng& rng) {
    const std::string& mode = h::args.mode;
    run_seed = rng.next();
    n_inst   = 0;
    for (int k = 0; k < N_TYPES; ++k) { by_type[k] = 0; insts_of[k].clear(); }
    early_shutdown = mode == "stop" ? rng.chance(4, 5) : mode == "once" ? rng.chance(1, 3) : false;
    force_shutdown = false;
    const bool groups_heavy = mode == "group" || mode == "progress";
    const bool big          = !h::controlled();

    int want_inst = rng.range(2, big ? 20 : 9);
    // Choose a palette so that contention is common
    int n_pal = rng.range(1, 4);
    int pal_pool[4]; unsigned pal_groups[4];
    for (int i = 0; i < n_pal; ++i) {
        static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_3, POOL_P, POOL_MAIN, POOL_N};
        pal_pool[i]   = pools[rng(8)];
        pal_groups[i] = 0;
        int ng = groups_heavy ? rng.range(1, 3) : rng.chance(1, 2) ? rng.range(1, 2) : 0;
        if (groups_heavy && rng.chance(1, 2)) ng = 1;
        for (int j = 0; j < ng; ++j) pal_groups[i] |= 1u << rng(rng.chance(1, 2) ? 2 : N_GROUPS);
    }
    static const int prios[] = {1000, 750, 500, 500, 250, 0};
    std::vector<int> combos;
    for (int i = 0; i < want_inst; ++i) {
        Inst& in = insts[i];
        in = Inst{};
        in.idx  = i;
        in.type = int(rng(rng.chance(1, 2) ? 2 : N_TYPES));
        in.work = int(rng(4));
        in.fanout = rng.range(10, 60);
        in.throws = rng.chance(1, 10);
        int combo = rng.chance(1, 2) ? int(rng(10)) : 10;
        if (combo == 10) {
            int p   = int(rng(uint64_t(n_pal)));
            in.pool = pal_pool[p];
            in.groups = pal_groups[rng(uint64_t(n_pal))];
            in.prio = prios[rng(6)];
            in.inl  = rng.chance(1, 6) ? 1 : rng.chance(1, 6) ? 2 : 0;
        }
        combos.push_back(combo);
    }
    n_inst = want_inst;
    int budget = big ? rng.range(5, 150) : rng.range(0, 12);
    h::ctr_set(C_BUDGET, budget);
    std::vector<std::vector<int>> initial;
    int n0 = rng.range(1, big ? 12 : 4);
    for (int i = 0; i < n0; ++i) initial.push_back({int(rng(N_TYPES)), rng.range(0, 3), rng.chance(1, 6)});
    int n_ext = rng.chance(1, 2) ? rng.range(1, 3) : 0;
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    if (early_shutdown) h::ctr_set(C_COUNTDOWN, rng.range(1, big ? 40 : 6));
    if (mode == "force") { early_shutdown = true; force_shutdown = true; h::ctr_set(C_COUNTDOWN, rng.range(1, big ? 30 : 6)); }
    bool ext_shutdown = early_shutdown && rng.chance(1, 2);
    bool ext_force    = force_shutdown;
    uint64_t ext_seed = rng.next();
    for (int i = 0; i < 3; ++i) sync_data[i] = 0;

    h::describe_state = describe;
    h::sched_begin(rng, 3000);
    uint32_t main_thread = h::thread_no();
    {
        N::Configuration config;
        config.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(config);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + (early_shutdown ? 1 : 0));
        p.install<TheReactor>(combos, initial);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) {
            ext.emplace_back([t, ext_seed, big] {
                Rng r(h::mix(ext_seed, uint64_t(t)));
                int n = r.range(1, big ? 10 : 3);
                for (int i = 0; i < n; ++i) {
                    if (early_shutdown && h::ctr_get(C_SHUT) > 0) break;
                    if (h::ctr_add(C_BUDGET, -1) < -20) break;
                    emit_type(int(r(N_TYPES)), r.range(0, 2), false, r(4));
                    h::work(r.next() % 200000);
                }
                if (h::ctr_add(C_EXT, -1) == 0) maybe_finish();
            });
        }
        if (early_shutdown) {
            // A watchdog caller that guarantees the shutdown happens even when few reactions run
            ext.emplace_back([ext_shutdown, ext_force, ext_seed] {
                Rng r(h::mix(ext_seed, 777));
                uint64_t waits = ext_shutdown ? r(60) : 100000;
                for (uint64_t i = 0; i < waits && h::ctr_get(C_SHUT) == 0 && (h::ctr_get(C_OUT) != 0 || h::ctr_get(C_EXT) > 1 || ext_shutdown); ++i) {
                    if (h::controlled()) det::point(); else h::work(6 + (i << 8));
                }
                do_shutdown(ext_force);
            });
        }
        p.start();
        h::ev(START_RET);
        for (auto& t : ext) t.join();
        maybe_finish();
    }
    h::sched_end();
    check(main_thread);
    // Everything emitted must be gone, except the newest of each type held by the data store
    if (want("data")) {
        int64_t live = h::ctr_get(C_LIVE);
        N::dsl::store::DataStore<M<0>>::set(nullptr);
        N::dsl::store::DataStore<M<1>>::set(nullptr);
        N::dsl::store::DataStore<M<2>>::set(nullptr);
        N::dsl::store::DataStore<M<3>>::set(nullptr);
        if (h::ctr_get(C_LIVE) != 0) h::viol("leak", "%lld messages still alive after the power plant was destroyed", (long long) h::ctr_get(C_LIVE));
        (void) live;
    }
    else {
        N::dsl::store::DataStore<M<0>>::set(nullptr);
        N::dsl::store::DataStore<M<1>>::set(nullptr);
        N::dsl::store::DataStore<M<2>>::set(nullptr);
        N::dsl::store::DataStore<M<3>>::set(nullptr);
    }
    plant = nullptr;
}

}  // namespace

int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
