// Reaction statistics and exceptions. Modes: stats, exc.
#include "dyn.hpp"
using namespace dyn;
namespace {
using N::message::ReactionEvent;
using N::message::ReactionStatistics;
enum EvType : uint32_t { EMIT_B = 1, EMIT_E, RUN_B, RUN_E, PRE, EVT, TIM, RUN_T, EMIT_T };
const char* names[] = {"?", "EMIT_B", "EMIT_E", "RUN_B", "RUN_E", "PRE", "EVT", "TIM", "RUN_T", "EMIT_T"};
constexpr int N_TYPES = 4;
enum { C_BUDGET = 60, C_NEST, C_EVENTS, C_REPORTED };
enum { STAT = 5 };  // the statistics message, after the five kinds of events
uint64_t run_seed = 0;
bool force = false, listen = true, queued = false;
int stop_after = -1, listener_emits = 0;
// What the harness knows about the current thread
struct Ctx { uint64_t task = 0, reaction = 0; bool nostat = false; };
thread_local Ctx ctx;
thread_local uint64_t emitting = 0;

struct Msg { uint64_t id; int ttl; bool nostat; };
template <int K>
struct E : Msg { E(uint64_t id, int ttl, bool nostat) : Msg{id, ttl, nostat} {} };
struct Never {};
struct Custom { uint64_t id; };
struct CustomStd : std::exception { uint64_t id; explicit CustomStd(uint64_t id) : id(id) {} };

void release() {
    if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_get(C_EXT) == 0 && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown();
}
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    ~Token() { release(); }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
bool rejects(const Inst* i, uint64_t id) { return i->limit > 0 && Rng(h::mix(id, uint64_t(i->idx) + 77)).chance(i->limit, 10); }
bool pre_throws(const Inst* i, uint64_t id) { return h::args.mode == "exc" && i->throws > 0 && Rng(h::mix(id, uint64_t(i->idx) + 78)).chance(1, 8); }
bool post_throws(const Inst* i, uint64_t id) { return h::args.mode == "exc" && i->throws > 0 && Rng(h::mix(id, uint64_t(i->idx) + 79)).chance(1, 8); }
bool body_throws(const Inst* i, uint64_t id) { return Rng(h::mix(id, uint64_t(i->idx) + 80)).chance(i->throws, 100); }
struct Words {
    template <typename DSL>
    static bool precondition(const N::threading::ReactionTask& t) {
        const Inst* i = Dyn::slot(t.parent->id);
        bool no       = rejects(i, emitting);
        h::ev(PRE, t.id, uint64_t(i->idx), uint64_t(!no) | (ctx.nostat << 1));
        return !no;
    }
    template <typename DSL>
    static void pre_run(N::threading::ReactionTask& t) {
        if (h::args.mode == "exc" && pre_throws(Dyn::slot(t.parent->id), t.id)) throw Custom{t.id};
    }
    template <typename DSL>
    static void post_run(N::threading::ReactionTask& t) {
        if (h::args.mode == "exc" && post_throws(Dyn::slot(t.parent->id), t.id)) throw std::runtime_error("post");
    }
};
template <int K>
void emit_k(int ttl, bool inl) {
    uint64_t id = h::uid(), old = emitting;
    h::ctr_add(C_OUT, 1);
    auto m = std::make_unique<E<K>>(id, ttl, ctx.nostat);
    h::ev(EMIT_T, id, h::now_ns());
    h::ev(EMIT_B, id, uint64_t(K), inl | (ctx.nostat << 1));
    emitting = id;
    if (inl) plant->emit<N::dsl::word::emit::Inline>(std::move(m));
    else plant->emit(std::move(m));
    emitting = old;
    h::ev(EMIT_E, id, uint64_t(K), inl);
    release();
}
void emit_any(int k, int ttl, bool inl) {
    if (k == 0) emit_k<0>(ttl, inl);
    else if (k == 1) emit_k<1>(ttl, inl);
    else if (k == 2) emit_k<2>(ttl, inl);
    else emit_k<3>(ttl, inl);
}
void throw_any(uint64_t id, uint64_t what) {
    switch (what % 6) {
        case 0: throw std::runtime_error("planned");
        case 1: throw int(7);
        case 2: throw "a string";
        case 3: throw Custom{id};
        case 4: throw CustomStd(id);
        default: throw std::shared_ptr<int>();
    }
}
struct Restore {
    Ctx old = ctx;
    uint64_t e = emitting;
    ~Restore() { ctx = old; emitting = e; }
};
void body(Inst* in, const Msg& m) {
    const auto* t = N::threading::ReactionTask::get_current_task();
    uint64_t tid  = t == nullptr ? 0 : t->id;
    h::ev(RUN_T, tid, m.nostat, h::now_ns());
    h::ev(RUN_B, uint64_t(in->idx), m.id, tid);
    const Restore restore;
    ctx      = Ctx{tid, in->rid, m.nostat};
    emitting = 0;
    Rng r(h::mix(h::mix(run_seed, m.id), uint64_t(in->idx)));
    h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    if (stop_after >= 0 && h::ctr_add(C_NEST, 1) == stop_after && h::ctr_add(C_SHUT, 1) == 1) plant->shutdown(force);
    if (m.ttl > 0) {
        int k = r.range(0, 2);
        for (int i = 0; i < k && h::ctr_add(C_BUDGET, -1) >= 0; ++i) emit_any(int(r(N_TYPES)), m.ttl - 1, r.chance(1, 3));
    }
    h::ev(RUN_E, uint64_t(in->idx), m.id, tid);
    h::ev(RUN_T, tid, m.nostat | 2, h::now_ns());
    if (body_throws(in, tid)) throw_any(tid, tid);
}
int kind_of(const std::exception_ptr& p, uint64_t id) {
    try { std::rethrow_exception(p); }
    catch (const CustomStd& e) { return e.id == id ? 4 : -4; }
    catch (const std::runtime_error& e) { return std::string(e.what()) == "planned" ? 0 : std::string(e.what()) == "post" ? 6 : -1; }
    catch (int x) { return x == 7 ? 1 : -1; }
    catch (const char* s) { return std::string(s) == "a string" ? 2 : -1; }
    catch (const Custom& c) { return c.id == id ? 3 : -3; }
    catch (const std::shared_ptr<int>&) { return 5; }
    catch (...) { return -9; }
}
long long ns(const std::chrono::steady_clock::time_point& t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
// One event or statistics message arrived. What can be judged on the spot is judged here
void story(int what, const ReactionStatistics& s, bool direct) {
    static const char* const n[] = {"created", "missing data", "blocked", "started", "finished", "statistics"};
    h::ctr_add(C_EVENTS, 1);
    h::ev(EVT, uint64_t(what), s.target.task_id, s.target.reaction_id);
    if (what >= ReactionEvent::STARTED)
        h::ev(TIM, s.target.task_id | (uint64_t(what) << 56), uint64_t(ns(s.started.real_time)), what >= ReactionEvent::FINISHED ? uint64_t(ns(s.finished.real_time)) : 0);
    else h::ev(TIM, s.target.task_id | (uint64_t(what) << 56), uint64_t(ns(s.created.real_time)), 0);
    Inst* in = Dyn::slot(s.target.reaction_id);
    if (in == nullptr || in->rid != s.target.reaction_id) return;
    if (s.identifiers == nullptr || s.identifiers->name != "reaction " + std::to_string(in->idx)) h::viol("identity", "%s event names the wrong reaction", n[what]);
    if (s.target_pool != pool_desc(in->pool)) h::viol("pool", "%s event names the wrong target pool", n[what]);
    std::set<std::shared_ptr<const N::util::GroupDescriptor>> g;
    for (int i = 0; i < N_GROUPS; ++i) if (in->groups & (1u << i)) g.insert(group_desc(i));
    if (s.target_groups != g) h::viol("groups", "%s event names the wrong groups", n[what]);
    if (direct && what < ReactionEvent::STARTED && (s.cause.task_id != ctx.task || s.cause.reaction_id != ctx.reaction))
        h::viol("cause", "%s event names task %llu of reaction %llu as cause instead of %llu of %llu", n[what], (unsigned long long) s.cause.task_id, (unsigned long long) s.cause.reaction_id,
                (unsigned long long) ctx.task, (unsigned long long) ctx.reaction);
    const auto me = std::this_thread::get_id();
    if (direct && what < ReactionEvent::STARTED && s.created.thread.thread_id != me) h::viol("thread", "%s on another thread than it says", n[what]);
    if (direct && what == ReactionEvent::STARTED && s.started.thread.thread_id != me) h::viol("thread", "%s on another thread than it says", n[what]);
    if (what >= ReactionEvent::FINISHED) {
        if (direct && s.finished.thread.thread_id != me) h::viol("thread", "%s on another thread than it says", n[what]);
        if (s.started.thread.thread_id != s.finished.thread.thread_id) h::viol("thread", "started on one thread and finished on another");
        if (s.started.thread.pool != s.finished.thread.pool) h::viol("pool", "started on one pool and finished on another");
        if (s.finished.thread_time < s.started.thread_time) h::viol("times", "the thread time went backwards");
        if (s.finished.nuclear_time < s.started.nuclear_time || s.started.nuclear_time < s.created.nuclear_time) h::viol("times", "the clock times are not ordered");
        if (s.finished.real_time < s.started.real_time || s.started.real_time < s.created.real_time) h::viol("times", "the times are not ordered");
        const uint64_t id  = s.target.task_id;
        int expect = -1;
        if (body_throws(in, id)) expect = int(id % 6);
        if (post_throws(in, id)) expect = 6;
        if (pre_throws(in, id)) expect = 3;
        int got = s.exception ? kind_of(s.exception, id) : -1;
        if (got >= 0) h::ctr_add(C_REPORTED, 1);
        if ((s.exception != nullptr) != (expect >= 0)) h::viol("exception", "%s event %s an exception", n[what], expect >= 0 ? "does not have" : "has");
        // When the callback and post run both throw either of them may be the one that is told
        else if (got != expect && !(expect == 6 && body_throws(in, id) && got == int(id % 6))) h::viol("exception", "%s event has another exception (%d) than the one thrown (%d)", n[what], got, expect);
    }
}
void listener_body(Rng r) {
    if (listener_emits == 0 || !r.chance(listener_emits, 40) || h::ctr_add(C_BUDGET, -1) < 0) return;
    const Restore restore;
    ctx = Ctx{0, 0, true};
    emit_any(int(r(N_TYPES)), 1, r.chance(1, 2));
}
struct R : N::Reactor {
    template <int K>
    void b(Inst* i) {
        auto f = [i](const E<K>& m) { body(i, m); };
        std::string label = "reaction " + std::to_string(i->idx);
        switch (i->kind) {
            case 1: on<Dyn, Trigger<E<K>>, With<Never>, Words, Tok>(i).then(label, f); break;
            case 2: on<Dyn, Trigger<E<K>>, Optional<With<Never>>, Words, Tok>(i).then(label, f); break;
            case 3: on<Dyn, Trigger<E<K>>, Words, Buffer<3>, Tok>(i).then(label, f); break;
            case 4: on<Dyn, Trigger<E<K>>, Words, Single, Tok>(i).then(label, f); break;
            default: on<Dyn, Trigger<E<K>>, Words, Tok>(i).then(label, f); break;
        }
    }
    explicit R(std::unique_ptr<N::Environment> e, std::vector<std::vector<int>> initial) : Reactor(std::move(e)) {
        using namespace N::dsl::word;
        if (listen && !queued) {
            on<Trigger<ReactionEvent>, Inline::ALWAYS>().then([](const ReactionEvent& e) { story(e.type, *e.statistics, true); listener_body(Rng(e.statistics->target.task_id * 8 + e.type)); });
            on<Trigger<ReactionStatistics>, Inline::ALWAYS>().then([](const ReactionStatistics& s) { story(STAT, s, true); });
        }
        else if (listen) {
            on<Trigger<ReactionEvent>, Pool<PP>, Inline::NEVER, Tok>().then([](const ReactionEvent& e) { story(e.type, *e.statistics, false); listener_body(Rng(e.statistics->target.task_id * 8 + e.type)); });
            on<Trigger<ReactionStatistics>, Pool<PP>, Inline::NEVER, Tok>().then([](const ReactionStatistics& s) { story(STAT, s, false); });
        }
        for (int n = 0; n < n_inst; ++n) {
            Inst* i = &insts[n];
            switch (i->type) {
                case 0: b<0>(i); break;
                case 1: b<1>(i); break;
                case 2: b<2>(i); break;
                default: b<3>(i); break;
            }
        }
        on<Startup>().then([initial] {
            h::ctr_add(C_OUT, 1);
            const auto* t = N::threading::ReactionTask::get_current_task();
            const Restore restore;
            ctx = Ctx{t->id, t->parent->id, false};
            for (const auto& x : initial) emit_any(x[0], x[1], x[2] != 0);
            h::ctr_add(C_EXT, -1);
            release();
        });
    }
};

void check() {
    struct Em { int type; uint64_t b, e = ~0ull; bool nostat; uint64_t t; uint32_t thread; };
    struct Tk { int inst = -1; uint64_t msg = 0; bool nostat = false, run = false; uint64_t ev[6] = {0}, at[6] = {0}, rid = 0; uint64_t pre = 0; uint64_t b = 0, e = 0, tb = 0, te = 0, created = 0, started = 0, finished = 0, thread = 0; };
    std::map<uint64_t, Em> em;
    std::map<uint64_t, Tk> tk;
    std::map<std::pair<uint64_t, int>, int> runs;
    uint64_t n = h::ev_count(), sg = 9;
    std::map<uint64_t, uint64_t> et;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case EMIT_T: et[e.a] = e.b; break;
            case EMIT_B: em[e.a] = Em{int(e.b), i, ~0ull, (e.c & 2) != 0, et[e.a], e.thread}; break;
            case EMIT_E: em[e.a].e = i; break;
            case PRE: tk[e.a].pre = 1 + (e.c & 1); tk[e.a].nostat = (e.c & 2) != 0; tk[e.a].inst = int(e.b); break;
            case RUN_T: {
                Tk& t = tk[e.a];
                t.nostat = (e.b & 1) != 0;
                if (e.b & 2) t.te = e.c;
                else t.tb = e.c;
            } break;
            case RUN_B: {
                Tk& t = tk[e.c];
                if (t.run) h::viol("twice", "task %llu ran twice", (unsigned long long) e.c);
                t.run  = true;
                t.inst = int(e.a);
                t.msg  = e.b;
                t.b    = i;
                runs[{e.b, int(e.a)}]++;
                sg = h::mix(sg, e.a * 16 + e.thread);
            } break;
            case RUN_E: tk[e.c].e = i; break;
            case EVT: {
                Tk& t = tk[e.b];
                if (t.ev[e.a]++ == 0) t.at[e.a] = i;
                t.rid = e.c;
                if (e.a == STAT) sg = h::mix(sg, e.thread + 1);
            } break;
            case TIM: {
                Tk& t = tk[e.a & 0xFFFFFFFFFFFFFFull];
                int w = int(e.a >> 56);
                if (w < ReactionEvent::STARTED) t.created = e.b;
                else t.started = e.b;
                if (w >= ReactionEvent::FINISHED) t.finished = e.c;
            } break;
            default: break;
        }
    }
    const bool stopped = stop_after >= 0;
    const bool full    = listen && !stopped;
    long long quiet = 0, told = 0;
    if (listen) {
        for (auto& p : tk) {
            const Tk& t = p.second;
            unsigned long long id = p.first;
            if (t.nostat) {
                quiet++;
                for (auto x : t.ev) if (x) h::viol("nostat", "task %llu was caused by a statistics listener but has statistics itself", id);
                continue;
            }
            const uint64_t made = t.ev[ReactionEvent::CREATED] + t.ev[ReactionEvent::MISSING_DATA] + t.ev[ReactionEvent::BLOCKED];
            for (int k = 0; k < 6; ++k) if (t.ev[k] > 1) h::viol("event-twice", "task %llu reported event %d more than once", id, k);
            if (made > 1) h::viol("made", "task %llu was reported as more than one of created, blocked and missing data", id);
            if ((t.ev[ReactionEvent::STARTED] || t.run) && full && !t.ev[ReactionEvent::CREATED]) h::viol("made", "task %llu ran but was not reported as created", id);
            if (t.ev[ReactionEvent::BLOCKED] + t.ev[ReactionEvent::MISSING_DATA] && (t.run || t.ev[ReactionEvent::STARTED])) h::viol("made", "task %llu ran but was reported as dropped", id);
            if (full && t.ev[ReactionEvent::CREATED] && !(t.ev[ReactionEvent::STARTED] && t.ev[ReactionEvent::FINISHED] && t.ev[STAT]) && t.inst >= 0)
                h::viol("incomplete", "task %llu was created but lacks one of started, finished and statistics", id);
            if (!queued) {
                told++;
                uint64_t last = 0;
                for (int k : {int(ReactionEvent::CREATED), int(ReactionEvent::STARTED), int(ReactionEvent::FINISHED), int(STAT)}) {
                    if (!t.ev[k]) continue;
                    if (t.at[k] < last) h::viol("order", "task %llu reported event %d too early", id, k);
                    last = t.at[k];
                }
                if (t.run && t.ev[ReactionEvent::STARTED] && t.at[ReactionEvent::STARTED] > t.b) h::viol("order", "task %llu reported its start after it had started", id);
                if (t.run && t.ev[ReactionEvent::FINISHED] && t.at[ReactionEvent::FINISHED] < t.e) h::viol("order", "task %llu reported its end before it was over", id);
            }
            if (t.run && t.inst >= 0 && t.rid && t.rid != insts[t.inst].rid) h::viol("identity", "task %llu is reported for another reaction", id);
            if (t.run && t.ev[STAT]) {
                auto it = em.find(t.msg);
                if (it != em.end() && t.created && t.created < it->second.t) h::viol("times", "task %llu says it was created before its message was emitted", id);
                if (t.started && t.started > t.tb) h::viol("times", "task %llu says it started later than it did", id);
                if (t.finished && t.finished < t.te) h::viol("times", "task %llu says it finished earlier than it did", id);
            }
            if (t.pre == 1 && full && !t.ev[ReactionEvent::BLOCKED]) h::viol("blocked", "task %llu was rejected by a precondition but not reported as blocked", id);
        }
        // Every emit gives every reaction of the type one event on its thread
        if (!queued) {
            std::map<std::pair<uint64_t, uint64_t>, int> ignore;
            for (auto& m : em) {
                if (m.second.nostat || m.second.e == ~0ull) continue;
                std::map<int, int> per;
                int depth = 0;
                for (uint64_t i = m.second.b + 1; i < m.second.e; ++i) {
                    const auto& e = h::ev_at(i);
                    if (e.thread != m.second.thread) continue;
                    if (e.type == EMIT_B) depth++;
                    if (e.type == EMIT_E) depth--;
                    if (depth == 0 && e.type == EVT && e.a < ReactionEvent::STARTED) {
                        Inst* in = Dyn::slot(e.c);
                        if (in != nullptr && in->rid == e.c) per[in->idx]++;
                    }
                }
                for (int x = 0; x < n_inst; ++x)
                    if (insts[x].type == m.second.type && per[x] != 1) h::viol("per-emit", "an emit gave %d creation events for reaction %d (kind %d)", per[x], x, insts[x].kind);
            }
        }
    }
    long long must = 0;
    if (!stopped) {
        for (auto& m : em)
            for (int x = 0; x < n_inst; ++x) {
                const Inst& in = insts[x];
                if (in.type != m.second.type) continue;
                int c    = runs.count({m.first, x}) ? runs[{m.first, x}] : 0;
                bool not_ = in.kind == 1 || rejects(&in, m.first);
                if (c > 1) h::viol("twice", "reaction %d ran twice for one message", x);
                if (not_ && c) h::viol("ran", "reaction %d (kind %d) ran although its precondition or data was missing", x, in.kind);
                if (in.kind == 0 || in.kind == 2) {
                    // A throwing pre run hides the run
                    if (!not_ && c == 0 && !(h::args.mode == "exc" && in.throws > 0)) h::viol("missed", "reaction %d (kind %d) did not run", x, in.kind);
                    must += !not_;
                }
            }
        for (int x = 0; x < n_inst; ++x) {
            // Whatever was thrown, no place of a limited reaction may be lost: checked when all is over
        }
    }
    h::note("emits", int64_t(em.size()));
    h::note("tasks", int64_t(tk.size()));
    h::note("runs_required", must);
    h::note("events_seen", h::ctr_get(C_EVENTS));
    h::note("exceptions_reported", h::ctr_get(C_REPORTED));
    h::note("tasks_without_statistics", quiet);
    h::note("complete_stories", told);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d reactions, %zu emits, %zu tasks, %lld events, %lld exceptions reported", (unsigned long long) h::case_no, n_inst, em.size(), tk.size(), (long long) h::ctr_get(C_EVENTS),
              (long long) h::ctr_get(C_REPORTED));
    dump_events(names, 10);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled(), exc = h::args.mode == "exc";
    run_seed = rng.next();
    n_inst   = rng.range(2, big ? 10 : 5);
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(N_TYPES));
        in.pool   = pools[rng(6)];
        in.groups = rng.chance(1, 2) ? 1u << rng(N_GROUPS) : 0;
        if (in.groups && rng.chance(1, 3)) in.groups |= 1u << rng(N_GROUPS);
        in.inl    = int(rng(3));
        in.throws = rng.chance(exc ? 3 : 1, 4) ? (exc ? 80 : 40) : 0;
        in.work   = int(rng(3));
        in.limit  = rng.chance(1, 4) ? 4 : 0;
        in.kind   = rng.chance(1, 2) ? 0 : int(rng(5));
    }
    std::vector<std::vector<int>> initial;
    int n0 = rng.range(1, big ? 8 : 4);
    for (int i = 0; i < n0; ++i) initial.push_back({int(rng(N_TYPES)), rng.range(0, 3), rng.chance(1, 3)});
    int n_ext = rng.range(0, 2);
    uint64_t es = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(10, 150) : rng.range(2, 12));
    listen         = !exc || rng.chance(1, 2);
    queued         = rng.chance(1, 4);
    listener_emits = rng.chance(1, 3) ? rng.range(1, 10) : 0;
    force          = rng.chance(1, 2);
    stop_after     = rng.chance(1, 5) ? rng.range(1, 10) : -1;
    h::sched_begin(rng, 2000);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        h::ctr_set(C_EXT, n_ext + 1);
        h::ctr_set(C_OUT, 1);
        p.install<R>(initial);
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) ext.emplace_back([t, es, big] {
            Rng r(h::mix(es, uint64_t(t)));
            h::ctr_add(C_OUT, 1);
            int n = r.range(1, big ? 10 : 3);
            for (int i = 0; i < n; ++i) emit_any(int(r(N_TYPES)), r.range(0, 2), r.chance(1, 3));
            h::ctr_add(C_EXT, -1);
            release();
        });
        ext.emplace_back([] { release(); });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    N::dsl::store::DataStore<E<0>>::set(nullptr);
    N::dsl::store::DataStore<E<1>>::set(nullptr);
    N::dsl::store::DataStore<E<2>>::set(nullptr);
    N::dsl::store::DataStore<E<3>>::set(nullptr);
    N::dsl::store::DataStore<ReactionEvent>::set(nullptr);
    N::dsl::store::DataStore<ReactionStatistics>::set(nullptr);
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
