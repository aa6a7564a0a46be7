// Reactions of random word lists and callback signatures against a reference. Mode: fusion.
#include "nuc.hpp"
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
namespace N = NUClear;
using h::Rng;
namespace {
struct P1 { static constexpr int concurrency = 1; };
struct P2 { static constexpr int concurrency = 2; };
struct S0 {};
struct S1 {};
struct S2 {};
struct G2 { static constexpr int concurrency = 2; };
struct G3 { static constexpr int concurrency = 3; };
constexpr int limits[5] = {1, 1, 1, 2, 3};
template <int K>
struct M { uint64_t id; };
template <int K>
struct V { uint64_t id; };
struct Spec {
    int no, trig, need, opt, pool, groups, prio, inl, single, gates, hooks;
    std::vector<int> args, bind;
    const char *words, *params;
};
constexpr int MAX_EMITS = 256, MAX_SPECS = 128;
enum { C_GROUP = 50, C_SINGLE = 60, C_OUT = 1000, C_EXT, C_SHUT };
struct Task {  // what was seen of a task, found by its id
    uint64_t own[4] = {0, 0, 0, 0};
    int scope = 0, pre = 0, run = 0, post = 0, unscope = 0;
    int spec = -1, emission = -1, n_vals = 0;
    uint64_t vals[8];
    uint32_t thread = 0;
    int prio = 0, pool = -1;
    bool groups_ok = true, order = true, in_emit = false;
};
std::mutex tasks_mutex;
std::map<uint64_t, Task> tasks;
struct Emission {
    int type = 0;
    bool inl = false;
    uint64_t id = 0, latest[4];
    std::map<int, int> gates;  // spec to number of gates which were asked
    std::map<int, bool> gate_ok;
};
Emission emissions[MAX_EMITS];
int n_emissions = 0;                  // written by the emitting thread only
thread_local int current_emission = -1;
uint64_t case_seed = 0;
N::PowerPlant* plant = nullptr;
bool installed[MAX_SPECS];
std::map<int, std::vector<int>> bound;
std::vector<std::string> early;  // violations found while binding
uint32_t main_thread = 0, emit_thread = 0;
std::atomic<uint64_t> own_values{1};

void done() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
uint64_t val(uint64_t x) { return x; }
template <int K>
uint64_t val(const M<K>& m) { return m.id; }
template <int K>
uint64_t val(const V<K>& m) { return m.id; }
template <typename T>
uint64_t val(const std::shared_ptr<const T>& m) { return m == nullptr ? 0 : m->id; }

template <typename F>
void with_task(uint64_t id, F&& f) {
    const std::lock_guard<std::mutex> lock(tasks_mutex);
    f(tasks[id]);
}
bool gate_passes(int spec, int gate, int emission) { return h::mix(h::mix(case_seed, uint64_t(spec * 8 + gate)), uint64_t(emission)) % 5 != 0; }
template <int I, int J>
struct Gate {
    template <typename DSL>
    static bool precondition(const N::threading::ReactionTask& /*t*/) {
        emissions[current_emission].gates[I]++;
        return gate_passes(I, J, current_emission);
    }
};
template <int I, int J>
struct Own {
    template <typename DSL>
    static std::shared_ptr<const V<J>> get(const N::threading::ReactionTask& t) {
        uint64_t v = own_values++;
        with_task(t.id, [&](Task& x) { x.own[J] = v; x.emission = current_emission; });
        return std::make_shared<const V<J>>(V<J>{v});
    }
};
template <int I>
struct Pair {
    template <typename DSL>
    static std::tuple<std::shared_ptr<const V<2>>, std::shared_ptr<const V<3>>> get(const N::threading::ReactionTask& t) {
        uint64_t v = own_values++, w = own_values++;
        with_task(t.id, [&](Task& x) { x.own[2] = v; x.own[3] = w; x.emission = current_emission; });
        return std::make_tuple(std::make_shared<const V<2>>(V<2>{v}), std::make_shared<const V<3>>(V<3>{w}));
    }
};
struct Scoped {
    uint64_t id = 0;
    explicit Scoped(uint64_t id) : id(id) {}
    Scoped(const Scoped&) = delete;
    Scoped& operator=(const Scoped&) = delete;
    Scoped(Scoped&& o) noexcept : id(o.id) { o.id = 0; }
    Scoped& operator=(Scoped&& o) = delete;
    ~Scoped() {
        if (id != 0) with_task(id, [](Task& x) { x.unscope++; if (x.run != 1) x.order = false; });
    }
};
template <int I, int J>
struct Hook {
    template <typename DSL>
    static Scoped scope(const N::threading::ReactionTask& t) {
        with_task(t.id, [](Task& x) { x.scope++; if (x.pre || x.run || x.post) x.order = false; x.thread = h::thread_no(); });
        return Scoped(t.id);
    }
    template <typename DSL>
    static void pre_run(const N::threading::ReactionTask& t) {
        with_task(t.id, [](Task& x) { x.pre++; if (x.run || x.post || x.unscope || x.thread != h::thread_no()) x.order = false; });
    }
    template <typename DSL>
    static void post_run(const N::threading::ReactionTask& t) {
        with_task(t.id, [](Task& x) { x.post++; if (x.run != 1 || x.unscope || x.thread != h::thread_no()) x.order = false; });
    }
};
template <int I, int J>
struct Takes {
    template <typename DSL>
    static void bind(const std::shared_ptr<N::threading::Reaction>& /*r*/, int a) { bound[I].push_back(a); }
};
template <int I, int J>
struct Returns {
    template <typename DSL>
    static int bind(const std::shared_ptr<N::threading::Reaction>& /*r*/, std::string a) {
        bound[I].push_back(std::stoi(a));
        return std::stoi(a) + 1;
    }
};
template <int I, int J>
struct TakesTwo {
    template <typename DSL>
    static int bind(const std::shared_ptr<N::threading::Reaction>& /*r*/, const int& a, const std::string& b) {
        bound[I].push_back(a);
        bound[I].push_back(std::stoi(b));
        return a * 1000 + std::stoi(b);
    }
};
template <typename A, typename B>
struct Both : A, B {};

// Counts the tasks which exist, and tells which emission they are from
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    Token(const Token&) = delete;
    Token& operator=(const Token&) = delete;
    ~Token() { done(); }
};
extern const Spec* const* spec_table;
void handle(int i, const N::threading::ReactionHandle& handle) {
    if (!handle.enabled()) early.push_back("the handle of reaction " + std::to_string(i) + " is not enabled");
}
void returned(int i, int got, int expect) {
    if (got != expect) early.push_back("the bind words of reaction " + std::to_string(i) + " returned " + std::to_string(got) + " and not " + std::to_string(expect));
}
void ran(int i, const std::vector<uint64_t>& vals) {
    const Spec& s    = *spec_table[i];
    const auto* task = N::threading::ReactionTask::get_current_task();
    bool ok          = true;
    for (int g = 0; g < 5; ++g) if ((s.groups >> g) & 1) ok &= h::ctr_add(C_GROUP + g, 1) <= limits[g];
    if (s.single == 1 && h::ctr_add(C_SINGLE + i, 1) > 1) ok = false;
    with_task(task->id, [&](Task& x) {
        x.run++;
        x.spec = i;
        if (s.hooks > 0 && (x.pre != s.hooks || x.scope != s.hooks || x.thread != h::thread_no())) x.order = false;
        x.thread    = h::thread_no();
        x.prio      = task->priority;
        x.in_emit   = current_emission >= 0;
        x.groups_ok = x.groups_ok && ok;
        const auto& pool = task->statistics->started.thread.pool;
        x.pool = pool == N::dsl::word::MainThread::descriptor() ? 1 : pool == N::dsl::word::Pool<P1>::descriptor() ? 2 : pool == N::dsl::word::Pool<P2>::descriptor() ? 3 : pool == N::dsl::word::Pool<>::descriptor() ? 0 : -1;
        x.n_vals = int(std::min(vals.size(), size_t(8)));
        for (int k = 0; k < x.n_vals; ++k) x.vals[k] = vals[size_t(k)];
        // created by this emission if inline, otherwise known from the cause of the first own value
        if (x.emission < 0 && x.in_emit) x.emission = current_emission;
    });
    h::work(h::mix(case_seed, vals.size()) % 20000);
    for (int g = 0; g < 5; ++g) if ((s.groups >> g) & 1) h::ctr_add(C_GROUP + g, -1);
    if (s.single == 1) h::ctr_add(C_SINGLE + i, -1);
}
struct Base : N::Reactor {
    explicit Base(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {}
    // Keeps the system alive while a task exists and records where it came from
    struct Alive {
        template <typename DSL>
        static std::shared_ptr<Token> get(const N::threading::ReactionTask& t) {
            with_task(t.id, [](Task& x) { x.emission = current_emission; });
            return std::make_shared<Token>();
        }
    };
    template <typename... Words, typename... A>
    auto on(A&&... a) -> decltype(std::declval<Reactor&>().on<Words..., Alive>(std::forward<A>(a)...)) { return Reactor::on<Words..., Alive>(std::forward<A>(a)...); }
};
template <typename P>
struct Installer : P {
    explicit Installer(std::unique_ptr<N::Environment> e) : P(std::move(e)) { this->make(); }
};
}  // namespace
#include "../drv/fusion_gen.hpp"
namespace {
const Spec* const* spec_table = specs;
template <int K>
void emit_one(bool inl, uint64_t* latest) {
    Emission& e = emissions[n_emissions];
    e           = Emission{};
    e.type      = K;
    e.inl       = inl;
    e.id        = uint64_t(n_emissions) + 1;
    latest[K]   = e.id;
    std::copy(latest, latest + 4, e.latest);
    current_emission = n_emissions++;
    auto m = std::make_unique<M<K>>(M<K>{e.id});
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::move(m));
    else plant->emit(std::move(m));
    current_emission = -1;
}
void check() {
    std::map<std::pair<int, int>, std::vector<Task*>> runs;
    std::map<int, std::set<uint32_t>> pool_threads;
    uint64_t sg = 5;
    for (auto& v : early) h::viol("bind", "%s", v.c_str());
    for (int i = 0; i < N_SPECS; ++i)
        if (installed[i] && bound[i] != specs[i]->bind) h::viol("bind", "the bind words of on<%s> got other arguments or another order", specs[i]->words);
    int64_t tasks_run = 0;
    for (auto& t : tasks) {
        Task& x = t.second;
        if (x.run == 0) {
            if (x.scope || x.pre || x.post) h::viol("hooks", "hooks ran without the callback");
            continue;
        }
        tasks_run++;
        const Spec& s = *specs[x.spec];
        runs[{x.spec, x.emission}].push_back(&x);
        sg = h::mix(sg, uint64_t(x.spec * 64 + int(x.thread)));
        if (x.emission < 0) { h::viol("phantom", "on<%s> ran without an emission", s.words); continue; }
        const Emission& e = emissions[x.emission];
        if (x.run > 1) h::viol("twice", "a task of on<%s> ran %d times", s.words, x.run);
        if (x.prio != s.prio) h::viol("priority", "on<%s> ran with priority %d, not %d", s.words, x.prio, s.prio);
        if (!x.groups_ok) h::viol("limit", "on<%s> ran beyond the limit of one of its groups or of itself", s.words);
        if (x.scope != s.hooks || x.pre != s.hooks || x.post != s.hooks || x.unscope != s.hooks || !x.order) h::viol("hooks", "on<%s>: scope %d, pre_run %d, post_run %d, release %d of %d each%s", s.words, x.scope, x.pre, x.post, x.unscope, s.hooks, x.order ? "" : ", in the wrong order");
        // Whether it runs within the emit
        bool inl = s.inl == 1 || (s.inl == 0 && e.inl);
        // An inline task whose groups are full is left to its pool
        if (inl != x.in_emit && !(inl && s.groups != 0)) h::viol("inline", "on<%s> %s inline for %s emit", s.words, x.in_emit ? "ran" : "did not run", e.inl ? "an inline" : "a normal");
        if (!x.in_emit) {
            if (x.pool != s.pool) h::viol("pool", "on<%s> ran in pool %d, not %d", s.words, x.pool, s.pool);
            if ((s.pool == 1) != (x.thread == main_thread)) h::viol("pool", "on<%s> ran on %s thread", s.words, s.pool == 1 ? "another than the main" : "the main");
            pool_threads[s.pool].insert(x.thread);
        }
        bool same = size_t(x.n_vals) == s.args.size();
        for (size_t k = 0; same && k < s.args.size(); ++k) {
            int a           = s.args[k];
            uint64_t expect = a >= 4 ? x.own[a - 4] : e.latest[a];
            if (x.vals[k] != expect) h::viol("argument", "on<%s>.then((%s)): argument %zu is %llu, not %llu", s.words, s.params, k, (unsigned long long) x.vals[k], (unsigned long long) expect);
        }
        if (!same) h::viol("argument", "on<%s>: %d arguments", s.words, x.n_vals);
    }
    static const size_t sizes[] = {4, 1, 1, 2};
    std::map<uint32_t, int> owner;
    for (auto& p : pool_threads) {
        if (p.first != 0 && p.second.size() > sizes[p.first]) h::viol("pool", "pool %d used %zu threads", p.first, p.second.size());
        for (auto t : p.second)
            if (!owner.emplace(t, p.first).second) h::viol("pool", "pools %d and %d share a thread", p.first, owner[t]);
    }
    int64_t required = 0, forbidden = 0, gated = 0;
    for (int i = 0; i < N_SPECS; ++i) {
        if (!installed[i]) continue;
        const Spec& s = *specs[i];
        for (int n = 0; n < n_emissions; ++n) {
            const Emission& e = emissions[n];
            bool must = ((s.trig >> e.type) & 1) != 0, blocked = false;
            for (int k = 0; k < 4; ++k) if (((s.need >> k) & 1) && e.latest[k] == 0) must = false;
            for (int g = 0; g < s.gates; ++g) if (!gate_passes(i, g, n)) blocked = true;
            auto it     = runs.find({i, n});
            size_t have = it == runs.end() ? 0 : it->second.size();
            if (must && blocked) gated++;
            must = must && !blocked;
            must ? required++ : forbidden++;
            if (have > 1) h::viol("twice", "on<%s> ran %zu times for one message", s.words, have);
            if (!must && have > 0) h::viol("ran", "on<%s> ran although %s", s.words, blocked ? "a precondition failed" : "its data is missing or it is not triggered");
            if (must && have == 0 && s.single == 0) h::viol("missed", "on<%s> did not run", s.words);
        }
    }
    h::note("emits", n_emissions);
    h::note("tasks_run", tasks_run);
    h::note("runs_required", required);
    h::note("runs_forbidden", forbidden);
    h::note("runs_prevented_by_preconditions", gated);
    if (!h::controlled()) h::sig(sg);
    int n_inst = int(std::count(installed, installed + N_SPECS, true));
    h::sample("case %llu: %d reactions, %d emits, %lld runs required, %lld forbidden", (unsigned long long) h::case_no, n_inst, n_emissions, (long long) required, (long long) forbidden);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    case_seed = rng.next();
    std::fill(installed, installed + MAX_SPECS, false);
    tasks.clear();
    bound.clear();
    early.clear();
    n_emissions = 0;
    own_values  = 1;
    int want    = rng.range(1, 8);
    for (int i = 0; i < want; ++i) installed[rng(N_SPECS)] = true;
    int n_emit  = big ? rng.range(5, 60) : rng.range(2, 12);
    uint64_t es = rng.next();
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = rng.range(1, 4);
        N::PowerPlant p(c);
        plant       = &p;
        main_thread = h::thread_no();
        h::ctr_set(C_OUT, 2);
        each([&p](int i, void (*install)(N::PowerPlant&)) {
            if (installed[i]) install(p);
        });
        std::thread emitter([es, n_emit] {
            Rng r(es);
            emit_thread        = h::thread_no();
            uint64_t latest[4] = {0, 0, 0, 0};
            for (int n = 0; n < n_emit; ++n) {
                bool inl = r.chance(1, 3);
                switch (r(4)) {
                    case 0: emit_one<0>(inl, latest); break;
                    case 1: emit_one<1>(inl, latest); break;
                    case 2: emit_one<2>(inl, latest); break;
                    default: emit_one<3>(inl, latest); break;
                }
            }
            done();
        });
        std::thread other([] { done(); });
        p.start();
        emitter.join();
        other.join();
    }
    h::sched_end();
    check();
    N::dsl::store::DataStore<M<0>>::set(nullptr);
    N::dsl::store::DataStore<M<1>>::set(nullptr);
    N::dsl::store::DataStore<M<2>>::set(nullptr);
    N::dsl::store::DataStore<M<3>>::set(nullptr);
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
