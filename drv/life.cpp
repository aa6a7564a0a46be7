// Installation, start and shutdown of the system. Mode: life.
#include "dyn.hpp"
using namespace dyn;
namespace {
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E, SHUT_B, SHUT_E, START_B, START_E, ARGS, BOUND };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E", "SHUT_B", "SHUT_E", "START_B", "START_E", "ARGS", "BOUND"};
constexpr int N_TYPES = 3;
enum { C_BUDGET = 60, C_NEST, C_CALLS };
enum Scope { LOCAL, INLINE_, INIT };
// reactions: kind 0 trigger, 1 startup, 2 shutdown
uint64_t run_seed = 0;
int n_callers = 1, stop_after = -1, any_force = 0;
bool early = false;

void call_shutdown(bool force) {
    h::ev(SHUT_B, force);
    plant->shutdown(force);
    h::ev(SHUT_E, force);
}
void release() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) call_shutdown(false);
}
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    ~Token() { release(); }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
template <int K>
void emit_k(int ttl, int scope) {
    uint64_t id = h::uid();
    h::ctr_add(C_OUT, 1);
    h::ev(EMIT_B, id, uint64_t(K), uint64_t(scope));
    if (scope == INIT) {
        h::ctr_add(C_OUT, 1);  // given back by the sentinel
        plant->emit<N::dsl::word::emit::Initialise>(std::make_unique<M<K>>(id, ttl | 1024));
    }
    else if (scope == INLINE_) plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<K>>(id, ttl));
    else plant->emit(std::make_unique<M<K>>(id, ttl));
    h::ev(EMIT_E, id, uint64_t(K), uint64_t(scope));
    release();
}
void emit_any(int k, int ttl, int scope) {
    if (k == 0) emit_k<0>(ttl, scope);
    else if (k == 1) emit_k<1>(ttl, scope);
    else emit_k<2>(ttl, scope);
}
void body(Inst* in, uint64_t id, int ttl) {
    h::ev(RUN_B, uint64_t(in->idx), id);
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    if (stop_after >= 0 && in->kind != 2 && h::ctr_add(C_NEST, 1) == stop_after) call_shutdown(false);
    ttl &= 1023;
    if (ttl > 0) {
        int k = r.range(0, 2);
        for (int i = 0; i < k && h::ctr_add(C_BUDGET, -1) >= 0; ++i) emit_any(int(r(N_TYPES)), ttl - 1, int(r(3)));
    }
    if (in->kind == 2 && r.chance(1, 2)) call_shutdown(false);
    h::ev(RUN_E, uint64_t(in->idx), id);
    if (int(r(100)) < in->throws) throw std::runtime_error("planned");
}
struct Bind : N::Reactor {
    template <int K>
    void trig(Inst* i) {
        on<Dyn, Trigger<M<K>>, Tok>(i).then([i](const M<K>& m) { body(i, m.id, m.ttl); });
    }
    void bind_one(Inst* i) {
        using namespace N::dsl::word;
        if (i->kind == 1) {
            auto f = [i] { body(i, 0, 2); };
            switch (i->type) {
                case 0: on<Startup, Tok>().then(f); break;
                case 1: on<Startup, Sync<S0>, Tok>().then(f); break;
                case 2: on<Startup, Pool<P1>, Priority::LOW, Tok>().then(f); break;
                default: on<Startup, MainThread, Tok>().then(f); break;
            }
        }
        else if (i->kind == 2) {
            auto f = [i] { body(i, 0, 1); };
            switch (i->type) {
                case 0: on<Shutdown>().then(f); break;
                case 1: on<Shutdown, Sync<S0>>().then(f); break;
                case 2: on<Shutdown, Pool<P2>>().then(f); break;
                case 3: on<Shutdown, MainThread>().then(f); break;
                case 4: on<Shutdown, Sync<S1>, Pool<PP>>().then(f); break;
                default: on<Shutdown, Priority::HIGH, Pool<P1>>().then(f); break;
            }
        }
        else if (i->type == 0) trig<0>(i);
        else if (i->type == 1) trig<1>(i);
        else trig<2>(i);
    }
    explicit Bind(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {}
};
struct A : Bind {
    A(std::unique_ptr<N::Environment> e, uint64_t seed, int from, int to) : Bind(std::move(e)) {
        Rng r(seed);
        for (int i = from; i < to; ++i) {
            while (r.chance(1, 3)) emit_any(int(r(N_TYPES)), int(r(3)), int(r(3)));
            bind_one(&insts[i]);
            h::ev(BOUND, uint64_t(i));
        }
        while (r.chance(1, 2)) emit_any(int(r(N_TYPES)), int(r(3)), int(r(3)));
    }
};
struct B : A { using A::A; };
struct Z : N::Reactor {
    template <int K>
    void sentinel() {
        // Bound after everything else, so by now all tasks of the message exist
        on<Trigger<M<K>>, N::dsl::word::Inline::ALWAYS>().then([](const M<K>& m) { if (m.ttl & 1024) release(); });
    }
    explicit Z(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        sentinel<0>();
        sentinel<1>();
        sentinel<2>();
        on<Trigger<N::message::CommandLineArguments>>().then([](const N::message::CommandLineArguments& a) {
            h::ev(ARGS, a.size(), a.size() == 3 && a[0] == "prog" && a[1] == "--x" && a[2] == "y z");
        });
        on<Startup>().then([] {
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};
void check() {
    struct Em { int type; uint64_t b, e = ~0ull; int scope; };
    std::map<uint64_t, Em> em;
    std::map<std::pair<uint64_t, int>, int> runs;
    std::map<uint32_t, int> depth;
    uint64_t n = h::ev_count(), sg = 11, start_b = ~0ull, start_e = ~0ull, first_shut = ~0ull, first_queued = ~0ull, last_startup = 0;
    uint32_t starter = 0;
    int args = 0, shuts = 0;
    std::map<int, uint64_t> bound;
    // A startup reaction whose group is taken by work which is waiting for the start has to wait its turn
    int in_s0 = 0;
    for (int x = 0; x < n_inst; ++x) in_s0 += insts[x].kind == 0 ? (insts[x].groups & 1u) != 0 : insts[x].type == 1;
    auto inline_sure = [&](const Inst& in) { return in.type != 1 || in_s0 == 1; };
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        int& d        = depth[e.thread];
        switch (e.type) {
            case START_B: start_b = i; starter = e.thread; break;
            case START_E: start_e = i; break;
            case SHUT_B: first_shut = std::min(first_shut, i); shuts++; break;
            case EMIT_B: em[e.a] = Em{int(e.b), i, ~0ull, int(e.c)}; d++; break;
            case EMIT_E: em[e.a].e = i; d--; break;
            case BOUND: bound[int(e.a)] = i; break;
            case ARGS: args++; if (!e.b) h::viol("arguments", "the command line arguments were changed"); if (start_b == ~0ull) h::viol("early", "command line arguments were delivered before the start"); break;
            case RUN_B: {
                const Inst& in = insts[e.a];
                runs[{e.b, int(e.a)}]++;
                sg = h::mix(sg, e.a * 16 + e.thread);
                if (in.kind == 0) {
                    if (!em.count(e.b) || em[e.b].type != in.type) h::viol("phantom", "a reaction ran for a message that is not of its type");
                    if (d == 0) {
                        first_queued = std::min(first_queued, i);
                        if (start_b == ~0ull) h::viol("early", "a task ran before the system was started");
                    }
                }
                if (in.kind == 1) {
                    if (start_b == ~0ull) h::viol("early", "a startup reaction ran before the system was started");
                    if (e.thread != starter && inline_sure(in)) h::viol("startup-thread", "a startup reaction ran on another thread than the one that started the system");
                    if (first_queued != ~0ull && inline_sure(in)) h::viol("startup-late", "a startup reaction ran after a queued task");
                }
                if (in.kind == 2 && first_shut == ~0ull) h::viol("shutdown-early", "a shutdown reaction ran before the shutdown");
                if (start_e != ~0ull && d == 0) h::viol("late", "a task ran after the start had returned");
            } break;
            case RUN_E:
                if (insts[e.a].kind == 1) { last_startup = i; if (first_queued != ~0ull && inline_sure(insts[e.a])) h::viol("startup-late", "a startup reaction was not over when the first queued task ran"); }
                if (start_e != ~0ull && d == 0) h::viol("late", "a task ended after the start had returned");
                break;
            default: break;
        }
    }
    if (args != 1) h::viol("arguments", "the command line arguments were delivered %d times", args);
    long long inits = 0;
    for (int x = 0; x < n_inst; ++x) {
        const Inst& in = insts[x];
        int c          = runs.count({0, x}) ? runs[{0, x}] : 0;
        if (in.kind == 1 && (c > 1 || (c == 0 && (inline_sure(in) || !early)))) h::viol("startup", "a startup reaction ran %d times", c);
        if (in.kind == 2 && (c > 1 || (c == 0 && !any_force && bound[x] < first_shut)))
            h::viol("shutdown", "shutdown reaction %d (kind %d) ran %d times after %d %s shutdown requests", x, in.type, c, shuts, any_force ? "forced" : "graceful");
        if (in.kind != 0) continue;
        for (auto& m : em) {
            if (m.second.type != in.type) continue;
            int k = runs.count({m.first, x}) ? runs[{m.first, x}] : 0;
            if (k > 1) h::viol("twice", "a reaction ran twice for one message");
            if (m.second.scope == INIT && m.second.e < start_b) {
                inits++;
                if (k == 0 && !early) h::viol("initialise", "an initialise message did not reach a reaction bound before the start");
            }
        }
    }
    h::note("emits", int64_t(em.size()));
    h::note("initialise_deliveries_checked", inits);
    h::note("shutdown_requests", shuts);
    h::note("runs", int64_t(runs.size()));
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %lld initialise deliveries, %d shutdown requests%s", (unsigned long long) h::case_no, n_inst, em.size(), inits, shuts, early ? " at any time" : "");
    dump_events(names, 11);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    n_inst   = rng.range(3, big ? 14 : 9);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.kind   = rng.chance(1, 2) ? 0 : rng.range(1, 2);
        in.type   = int(rng(in.kind == 0 ? 3 : in.kind == 1 ? 4 : 6));
        in.pool   = pools[rng(6)];
        in.groups = rng.chance(1, 3) ? 1u << rng(N_GROUPS) : 0;
        in.inl    = int(rng(3));
        in.work   = int(rng(3));
        in.throws = rng.chance(1, 5) ? 40 : 0;
    }
    int n_ext   = rng.range(0, 3);
    uint64_t es = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(10, 80) : rng.range(2, 15));
    early      = rng.chance(1, 2);
    any_force  = early && rng.chance(1, 4);
    stop_after = early && rng.chance(1, 2) ? rng.range(0, 6) : -1;
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        const char* argv[] = {"prog", "--x", "y z"};
        N::PowerPlant p(c, 3, argv);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_OUT, 2);
        std::vector<std::thread> ext;
        int cut = rng.range(0, n_inst);
        p.install<A>(rng.next(), 0, cut);
        p.install<B>(rng.next(), cut, n_inst);
        p.install<Z>();
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            h::ctr_add(C_OUT, 1);
            int n = r.range(0, big ? 10 : 3);
            for (int i = 0; i < n; ++i) emit_any(int(r(N_TYPES)), r.range(0, 2), int(r(3)));
            h::work(r.next() % 200000);
            if (early) call_shutdown(any_force && r.chance(1, 2));
            h::ctr_add(C_EXT, -1);
            release();
        });
        ext.emplace_back([] { release(); });
        h::ev(START_B);
        p.start();
        h::ev(START_E);
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    drop_store();
    N::dsl::store::DataStore<N::message::CommandLineArguments>::set(nullptr);
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) {
    h::describe_state = [](std::string& s) { s += " budget state: out " + std::to_string(h::ctr_get(C_OUT)) + " ext " + std::to_string(h::ctr_get(C_EXT)); dump_events(names, 11); };
    return h::main_loop(argc, argv, run_case);
}
