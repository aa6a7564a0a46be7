// The data reactions receive: triggers, with, last, optional. Mode: data.
#include "dyn.hpp"
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN, VAL };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN", "VAL"};
constexpr int N_TYPES = 4;
enum { C_BUDGET = 60 };
thread_local uint64_t cause = 0;
uint64_t run_seed = 0;

void release() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
struct Token {
    uint64_t why;
    Token() : why(cause) { h::ctr_add(C_OUT, 1); }
    ~Token() { release(); }
};
// Tells which emit made the task: data is bound on the emitting thread
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid(), old = cause;
    cause = id;
    h::ctr_add(C_OUT, 1);
    h::ev(EMIT_B, id, uint64_t(K), inl);
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K), inl);
    cause = old;
    release();
}
void emit_any(int k, int ttl, bool inl) {
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else if (k == 2) emit_k<2>(ttl, inl);
    else emit_k<3>(ttl, inl);
}
int rare = 50;
int pick(Rng& r) { return int(r(100)) < rare ? int(r(N_TYPES - 1)) : int(r(N_TYPES)); }
// slot 0..3 of a run
struct Run {
    Inst* i;
    uint64_t no, why;
    int ttl = 0;
    Run(Inst* i, const Token& t) : i(i), no(h::uid()), why(t.why) { h::ev(RUN, uint64_t(i->idx), why, no); }
    template <typename T>
    Run& val(uint64_t slot, const T& m) {
        h::ev(VAL, no, slot, m.id);
        ttl = std::max(ttl, m.ttl);
        return *this;
    }
    template <typename T>
    Run& opt(uint64_t slot, const std::shared_ptr<T>& m) {
        if (m == nullptr) h::ev(VAL, no, slot, 0);
        else val(slot, *m);
        return *this;
    }
    template <typename C>
    Run& all(uint64_t slot, const C& c) {
        for (const auto& m : c) opt(slot, m);
        return *this;
    }
    void go() {
        Rng r(h::mix(h::mix(run_seed, why), uint64_t(i->idx)));
        h::work(r.next() % (1 + uint64_t(i->work) * 20000));
        if (ttl <= 0) return;
        int k = r.range(0, 2);
        for (int n = 0; n < k && h::ctr_add(C_BUDGET, -1) >= 0; ++n) emit_any(pick(r), ttl - 1, r.chance(1, 3));
    }
};
const int last_n[] = {0, 0, 0, 0, 1, 2, 3, 5, 3, 3, 2, 3};
enum Kind { TRIG, WITH, OPT, TWO, LAST1, LAST2, LAST3, LAST5, LAST_WITH, LAST_BOTH, LAST_OPT, LAST_IN_WITH, N_KINDS };
struct R : N::Reactor {
    template <int A, int B>
    void b(Inst* i) {
        using MA = M<A>;
        using MB = M<B>;
        template_args<MA, MB>(i);
    }
    template <typename A>
    using P = std::shared_ptr<const A>;
    template <typename A, typename B>
    void template_args(Inst* i) {
        switch (i->kind) {
            case TRIG: on<Dyn, Trigger<A>, Tok>(i).then([i](const A& a, const Token& t) { Run(i, t).val(0, a).go(); }); break;
            case WITH: on<Dyn, Trigger<A>, With<B>, Tok>(i).then([i](const P<A>& a, const B& b, const Token& t) { Run(i, t).opt(0, a).val(1, b).go(); }); break;
            case OPT: on<Dyn, Trigger<A>, Optional<With<B>>, Tok>(i).then([i](const A& a, const P<B>& b, const Token& t) { Run(i, t).val(0, a).opt(1, b).go(); }); break;
            case TWO: on<Dyn, Trigger<A>, Trigger<B>, Tok>(i).then([i](const A& a, const B& b, const Token& t) { Run(i, t).val(0, a).val(1, b).go(); }); break;
            case LAST1: on<Dyn, Last<1, Trigger<A>>, Tok>(i).then([i](const std::list<P<A>>& a, const Token& t) { Run(i, t).all(0, a).go(); }); break;
            case LAST2: on<Dyn, Last<2, Trigger<A>>, Tok>(i).then([i](const std::vector<P<A>>& a, const Token& t) { Run(i, t).all(0, a).go(); }); break;
            case LAST3: on<Dyn, Last<3, Trigger<A>>, Tok>(i).then([i](const std::list<P<A>>& a, const Token& t) { Run(i, t).all(0, a).go(); }); break;
            case LAST5: on<Dyn, Last<5, Trigger<A>>, Tok>(i).then([i](const std::vector<P<A>>& a, const Token& t) { Run(i, t).all(0, a).go(); }); break;
            case LAST_WITH:
                on<Dyn, Last<3, Trigger<A>>, With<B>, Tok>(i).then([i](const std::list<P<A>>& a, const B& b, const Token& t) { Run(i, t).all(0, a).val(1, b).go(); });
                break;
            case LAST_BOTH:
                on<Dyn, Last<3, Trigger<A>, With<B>>, Tok>(i).then([i](const std::list<P<A>>& a, const std::list<P<B>>& b, const Token& t) { Run(i, t).all(0, a).all(1, b).go(); });
                break;
            case LAST_OPT:
                on<Dyn, Optional<With<B>>, Last<2, Trigger<A>>, Tok>(i).then([i](const P<B>& b, const std::vector<P<A>>& a, const Token& t) { Run(i, t).all(0, a).opt(1, b).go(); });
                break;
            default:
                on<Dyn, Trigger<A>, Last<3, With<B>>, Tok>(i).then([i](const A& a, const std::vector<P<B>>& b, const Token& t) { Run(i, t).val(0, a).all(1, b).go(); });
                break;
        }
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<std::vector<int>> before, std::vector<std::vector<int>> initial) : Reactor(std::move(e)) {
        for (const auto& x : before) emit_any(x[0], x[1], x[2] != 0);
        for (int n = 0; n < n_inst; ++n) {
            Inst* i = &insts[n];
            switch (i->type) {
                case 0: if (i->limit == 1) b<0, 1>(i); else b<0, 3>(i); break;
                case 1: if (i->limit == 2) b<1, 2>(i); else b<1, 3>(i); break;
                default: if (i->limit == 0) b<2, 0>(i); else b<2, 3>(i); break;
            }
        }
        on<Startup>().then([initial] {
            h::ctr_add(C_OUT, 1);
            for (const auto& x : initial) emit_any(x[0], x[1], x[2] != 0);
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};

struct Em { int type; uint64_t b, e = ~0ull; bool bound; };
std::map<uint64_t, Em> em;
// May v have been the latest value of its type for something that happened in [b, e]?
bool may_be_latest(uint64_t v, int type, uint64_t b, uint64_t e) {
    if (v == 0) {
        for (auto& w : em) if (w.second.type == type && w.second.e < b) return false;
        return true;
    }
    auto it = em.find(v);
    if (it == em.end() || it->second.type != type || it->second.b > e) return false;
    for (auto& w : em) if (w.second.type == type && w.second.b > it->second.e && w.second.e < b) return false;
    return true;
}
bool in_between(int type, uint64_t from, uint64_t to) {
    for (auto& z : em) if (z.second.type == type && z.second.b > from && z.second.e < to) return true;
    return false;
}
void check(uint64_t bound_at) {
    em.clear();
    struct Rn { int inst; uint64_t why; std::vector<uint64_t> v[2]; };
    std::map<uint64_t, Rn> runs;
    std::map<std::pair<int, uint64_t>, int> count;
    uint64_t n = h::ev_count(), sg = 5;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case EMIT_B: em[e.a] = Em{int(e.b), i, ~0ull, i >= bound_at}; break;
            case EMIT_E: em[e.a].e = i; break;
            case RUN:
                runs[e.c].inst = int(e.a);
                runs[e.c].why  = e.b;
                count[{int(e.a), e.b}]++;
                sg = h::mix(sg, e.a * 16 + e.thread);
                break;
            case VAL: runs[e.a].v[e.b].push_back(e.c); break;
            default: break;
        }
    }
    long long lasts = 0, withs = 0, must = 0, mustnot = 0;
    std::map<std::pair<int, uint64_t>, uint64_t> succ, pred;
    for (auto& p : runs) {
        Rn& r          = p.second;
        const Inst& in = insts[r.inst];
        auto it        = em.find(r.why);
        if (it == em.end()) { h::viol("phantom", "a task was made outside of any emit"); continue; }
        const Em& w   = it->second;
        const int tb  = in.limit;  // type of the second input
        bool second   = in.kind == TWO && w.type == tb;
        if (w.type != in.type && !second) h::viol("phantom", "a reaction ran for a message of another type");
        const bool list0 = in.kind >= LAST1 && in.kind <= LAST_OPT;
        auto& a = r.v[0];
        auto& b = r.v[1];
        // The triggering value
        if (second ? b[0] != r.why : (a.empty() || a.back() != r.why))
            h::viol("trigger", "reaction %d (kind %d) got another message than the one which triggered it", r.inst, in.kind);
        if (second && !may_be_latest(a[0], in.type, w.b, w.e)) h::viol("with", "reaction %d (kind %d) got a stale or future value for its other trigger", r.inst, in.kind);
        if (list0) {
            lasts++;
            const size_t n_last = size_t(last_n[in.kind]);
            if (a.size() > n_last) h::viol("last-n", "reaction %d got %zu values, more than %zu", r.inst, a.size(), n_last);
            bool known = true;
            for (uint64_t x : a) if (!em.count(x) || em[x].type != in.type) { known = false; h::viol("last-value", "reaction %d (kind %d) got a value in its history that was not emitted", r.inst, in.kind); }
            for (size_t k = 0; known && k + 1 < a.size(); ++k) {
                if (em[a[k + 1]].e < em[a[k]].b) h::viol("last-order", "reaction %d (kind %d) got its history out of order", r.inst, in.kind);
                if (in_between(in.type, em[a[k]].e, em[a[k + 1]].b)) h::viol("last-gap", "reaction %d (kind %d) misses a value in its history", r.inst, in.kind);
                auto s = succ.insert({{r.inst, a[k]}, a[k + 1]}), q = pred.insert({{r.inst, a[k + 1]}, a[k]});
                if (s.first->second != a[k + 1] || q.first->second != a[k]) h::viol("last-inconsistent", "two runs of reaction %d (kind %d) saw different histories", r.inst, in.kind);
            }
            std::set<uint64_t> uniq(a.begin(), a.end());
            if (uniq.size() != a.size()) h::viol("last-repeat", "reaction %d (kind %d) got a value twice in its history", r.inst, in.kind);
            // Fewer than n values only if there have not been any more
            if (known && a.size() < n_last) {
                for (auto& z : em)
                    if (z.second.type == in.type && z.second.bound && z.second.e < em[a[0]].b)
                        h::viol("last-short", "reaction %d (kind %d) got %zu of %zu values although there were more", r.inst, in.kind, a.size(), n_last);
            }
        }
        if (in.kind == WITH || in.kind == OPT || (in.kind == TWO && !second) || in.kind == LAST_WITH || in.kind == LAST_OPT) {
            withs++;
            if (!may_be_latest(b[0], tb, w.b, w.e))
                h::viol("with", "reaction %d (kind %d) got %s", r.inst, in.kind, b[0] == 0 ? "nothing although there was a value" : "a stale or future value");
        }
        if (in.kind == LAST_BOTH || in.kind == LAST_IN_WITH) {
            withs++;
            if (b.empty() || b.size() > 3) h::viol("with-n", "reaction %d (kind %d) got %zu values", r.inst, in.kind, b.size());
            for (size_t k = 0; k < b.size(); ++k) {
                if (b[k] == 0) h::viol("with-null", "reaction %d (kind %d) got a missing value in its history", r.inst, in.kind);
                else if (!em.count(b[k]) || em[b[k]].type != tb) h::viol("with-value", "reaction %d (kind %d) got a wrong value in its history", r.inst, in.kind);
            }
            if (!b.empty() && b.back() != 0 && !may_be_latest(b.back(), tb, w.b, w.e)) h::viol("with", "reaction %d (kind %d) got a stale or future value", r.inst, in.kind);
            // Element k from the end belongs to trigger k from the end
            if (in.kind == LAST_BOTH)
                for (size_t k = 1; k < std::min(a.size(), b.size()); ++k) {
                    uint64_t x = a[a.size() - 1 - k], y = b[b.size() - 1 - k];
                    if (y != 0 && em.count(x) && !may_be_latest(y, tb, em[x].b, em[x].e)) h::viol("with-pair", "reaction %d got values in its history which do not belong together", r.inst);
                }
        }
    }
    for (int x = 0; x < n_inst; ++x) {
        const Inst& in = insts[x];
        bool needs     = in.kind == WITH || in.kind == TWO || in.kind == LAST_WITH || in.kind == LAST_BOTH || in.kind == LAST_IN_WITH;
        for (auto& m : em) {
            bool first = m.second.type == in.type, second = in.kind == TWO && m.second.type == in.limit;
            if (!m.second.bound || (!first && !second)) continue;
            int other = second ? in.type : in.limit;
            bool sure = true, possible = true;
            if (needs) {
                sure = possible = false;
                for (auto& z : em) if (z.second.type == other) { sure |= z.second.e < m.second.b; possible |= z.second.b < m.second.e; }
            }
            int c = count.count({x, m.first}) ? count[{x, m.first}] : 0;
            if (c > 1) h::viol("twice", "reaction %d (kind %d) ran twice for one message", x, in.kind);
            if (sure) { must++; if (c == 0) h::viol("missed", "reaction %d (kind %d) did not run although all its data was there", x, in.kind); }
            if (!possible) { mustnot++; if (c > 0) h::viol("no-data", "reaction %d (kind %d) ran although its data had never been emitted", x, in.kind); }
        }
    }
    h::note("emits", int64_t(em.size()));
    h::note("runs", int64_t(runs.size()));
    h::note("histories_checked", lasts);
    h::note("latest_values_checked", withs);
    h::note("runs_required", must);
    h::note("runs_forbidden_for_missing_data", mustnot);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %zu runs, %lld histories, %lld latest values, %lld forbidden", (unsigned long long) h::case_no, n_inst, em.size(), runs.size(), lasts, withs, mustnot);
    dump_events(names, 5);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    n_inst   = rng.range(2, big ? 10 : 6);
    rare     = rng.chance(1, 2) ? 100 : rng.range(0, 95);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(3));
        in.limit  = rng.chance(2, 3) ? (in.type + 1) % 3 : 3;
        in.kind   = int(rng(N_KINDS));
        in.pool   = pools[rng(6)];
        in.groups = rng.chance(1, 4) ? 1u << rng(N_GROUPS) : 0;
        in.inl    = int(rng(3));
        in.work   = int(rng(3));
    }
    auto make = [&](int n) {
        std::vector<std::vector<int>> v;
        for (int i = 0; i < n; ++i) v.push_back({pick(rng), rng.range(0, 3), rng.chance(1, 3)});
        return v;
    };
    auto before = make(rng.chance(1, 3) ? rng.range(1, 3) : 0), initial = make(rng.range(0, big ? 8 : 5));
    int n_ext = rng.range(0, 3);
    uint64_t es = rng.next(), bound_at = 0;
    h::ctr_set(C_BUDGET, big ? rng.range(10, 200) : rng.range(4, 25));
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_OUT, 1);
        p.install<R>(before, initial);
        bound_at = before.size() * 2;
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            h::ctr_add(C_OUT, 1);
            int n = r.range(1, big ? 20 : 4);
            for (int i = 0; i < n; ++i) emit_any(pick(r), r.range(0, 2), r.chance(1, 4));
            h::ctr_add(C_EXT, -1);
            release();
        });
        ext.emplace_back([] { release(); });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check(bound_at);
    drop_store();
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
