#ifndef VERIF_DYN_HPP
#define VERIF_DYN_HPP
// Shared vocabulary of the scheduler drivers: dynamic reactions configured at run time, pools, groups, messages.
#include "nuc.hpp"
#include <atomic>
#include <cstring>
#include <functional>
#include <map>
#include <unordered_map>

namespace N = NUClear;
using h::Rng;

namespace dyn {

struct P1 { static constexpr int concurrency = 1; };
struct P2 { static constexpr int concurrency = 2; };
struct P3 { static constexpr int concurrency = 3; };
struct PP { static constexpr int concurrency = 2; static constexpr bool persistent = true; };
struct PN { static constexpr int concurrency = 1; static constexpr bool counts_for_idle = false; };
struct S0 {};
struct S1 {};
struct S2 {};
struct G2 { static constexpr int concurrency = 2; };
struct G3 { static constexpr int concurrency = 3; };
enum PoolId { POOL_DEFAULT, POOL_MAIN, POOL_1, POOL_2, POOL_3, POOL_P, POOL_N, N_POOLS };
enum GroupId { GR_S0, GR_S1, GR_S2, GR_2, GR_3, N_GROUPS };
static const int group_limit[N_GROUPS]       = {1, 1, 1, 2, 3};
static int pool_limit[N_POOLS]               = {0, 1, 1, 2, 3, 2, 1};
static const bool pool_persistent[N_POOLS]   = {false, false, false, false, false, true, false};

inline std::shared_ptr<const N::util::ThreadPoolDescriptor> pool_desc(int p) {
    using namespace N::dsl::word;
    switch (p) {
        case POOL_MAIN: return MainThread::descriptor();
        case POOL_1: return Pool<P1>::descriptor();
        case POOL_2: return Pool<P2>::descriptor();
        case POOL_3: return Pool<P3>::descriptor();
        case POOL_P: return Pool<PP>::descriptor();
        case POOL_N: return Pool<PN>::descriptor();
        default: return Pool<>::descriptor();
    }
}
inline std::shared_ptr<const N::util::GroupDescriptor> group_desc(int g) {
    using namespace N::dsl::word;
    switch (g) {
        case GR_S0: return Sync<S0>::descriptor();
        case GR_S1: return Sync<S1>::descriptor();
        case GR_S2: return Sync<S2>::descriptor();
        case GR_2: return Group<G2>::descriptor();
        default: return Group<G3>::descriptor();
    }
}

struct Inst {
    int idx         = 0;
    int type        = 0;
    int pool        = POOL_DEFAULT;
    unsigned groups = 0;
    int prio        = 500;
    int inl         = 0;  // 0 neutral, 1 always, 2 never
    int limit       = 0;  // 0 none, otherwise the number of tasks that may exist
    int throws      = 0;  // percent
    int work        = 0;
    int kind        = 0;
    uint64_t rid    = 0;  // reaction id
};
constexpr int MAX_INST = 64;
static Inst insts[MAX_INST];
static int n_inst = 0;

// Dynamic DSL word: everything comes from the instance
struct Dyn {
    static Inst*& slot(uint64_t id) {
        static Inst* table[1 << 20];
        return table[id & ((1 << 20) - 1)];
    }
    template <typename DSL>
    static void bind(const std::shared_ptr<N::threading::Reaction>& r, Inst* i) {
        slot(r->id) = i;
        i->rid      = r->id;
    }
    template <typename DSL>
    static int priority(const N::threading::ReactionTask& t) { return slot(t.parent->id)->prio; }
    template <typename DSL>
    static std::shared_ptr<const N::util::ThreadPoolDescriptor> pool(const N::threading::ReactionTask& t) {
        return pool_desc(slot(t.parent->id)->pool);
    }
    template <typename DSL>
    static std::set<std::shared_ptr<const N::util::GroupDescriptor>> group(const N::threading::ReactionTask& t) {
        std::set<std::shared_ptr<const N::util::GroupDescriptor>> s;
        for (int g = 0; g < N_GROUPS; ++g) if (slot(t.parent->id)->groups & (1u << g)) s.insert(group_desc(g));
        return s;
    }
    template <typename DSL>
    static N::util::Inline run_inline(const N::threading::ReactionTask& t) {
        switch (slot(t.parent->id)->inl) {
            case 1: return N::util::Inline::ALWAYS;
            case 2: return N::util::Inline::NEVER;
            default: return N::util::Inline::NEUTRAL;
        }
    }
};

inline int level(int prio) { return prio >= 1000 ? 4 : prio >= 750 ? 3 : prio >= 500 ? 2 : prio >= 250 ? 1 : 0; }

template <int K>
struct M {
    uint64_t id;
    int ttl;
    M(uint64_t id, int ttl) : id(id), ttl(ttl) {}
};

// counters used by the drivers: 1.. reserved here, drivers use 50 and up
enum { C_OUT = 2, C_EXT, C_SHUT };

static N::PowerPlant* plant = nullptr;

inline void drop_store() {
    N::dsl::store::DataStore<M<0>>::set(nullptr);
    N::dsl::store::DataStore<M<1>>::set(nullptr);
    N::dsl::store::DataStore<M<2>>::set(nullptr);
    N::dsl::store::DataStore<M<3>>::set(nullptr);
}

inline bool dump() { return getenv("VERIF_DUMP") != nullptr; }
inline void dump_events(const char* const* names, int n_names) {
    if (!dump()) return;
    for (int i = 0; i < n_inst; ++i) {
        const Inst& x = insts[i];
        fprintf(stderr, "reaction %d type %d pool %d groups %x prio %d inl %d limit %d throws %d kind %d\n", i, x.type, x.pool, x.groups, x.prio, x.inl, x.limit, x.throws, x.kind);
    }
    for (uint64_t i = 0; i < h::ev_count(); ++i) {
        const auto& e = h::ev_at(i);
        fprintf(stderr, "%3llu t%u %s %lld %lld %lld\n", (unsigned long long) i, e.thread, int(e.type) < n_names ? names[e.type] : std::to_string(e.type).c_str(), (long long) e.a, (long long) e.b, (long long) e.c);
    }
}

}  // namespace dyn
#endif
