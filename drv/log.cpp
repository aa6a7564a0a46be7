// Logging from reactions, other threads, constructors and during shutdown. Mode: log.
#include "dyn.hpp"
#include <mutex>
#include <sstream>
using namespace dyn;
namespace {
enum EvType : uint32_t { LOG_B = 1, LOG_E, GOT, GOT_POOL, SHUT };
const char* names[] = {"?", "LOG_B", "LOG_E", "GOT", "GOT_POOL", "SHUT"};
using Level = N::LogLevel;
constexpr int N_REACTORS = 3;
enum { C_BUDGET = 60, C_FMT = 1000 };
constexpr int MAX_LOGS = 3000;
enum Form { OWN_TEMPLATE, OWN_CONST, OWN_VARIABLE, OWN_VALUE, PLANT_TEMPLATE, PLANT_LEVEL, FREE_TEMPLATE, FREE_CONST, FREE_VARIABLE, FREE_VALUE, N_FORMS };
const char* form_names[] = {"Reactor::log<level>", "Reactor::log(const LogLevel)", "Reactor::log(LogLevel variable)", "Reactor::log(value)", "PowerPlant::log<level>",
                            "PowerPlant::log(LogLevel)", "NUClear::log<level>", "NUClear::log(const LogLevel)", "NUClear::log(LogLevel variable)", "NUClear::log(value)"};
struct Log {
    int form = 0, level = 0, reactor = -1, context = -1;  // reactor whose log is called, reactor of the current task
    std::string text;
    const void* stats = nullptr;
    uint64_t b = ~0ull, e = ~0ull;
    // what arrived
    int got = 0, got_pool = 0, got_level = -1, got_display = -1, fmt = 0;
    std::string got_text, got_name, pool_text;
    const void* got_stats = nullptr;
    uint64_t got_at = 0, got_thread = 0, thread = 0;
};
Log logs[MAX_LOGS];
std::atomic<int> n_logs{0};
int display_level[N_REACTORS], min_level[N_REACTORS];
std::string reactor_names[N_REACTORS];
N::Reactor* reactors[N_REACTORS] = {nullptr, nullptr, nullptr};
std::atomic<bool> shut{false};
uint64_t run_seed = 0;

// Counts how often it was formatted
struct Counted {
    int no;
    friend std::ostream& operator<<(std::ostream& os, const Counted& c) {
        h::ctr_add(C_FMT + c.no, 1);
        return os << '#' << c.no << ';';
    }
};
std::string str(Rng& r) {
    int n = r.chance(1, 12) ? r.range(300, 3000) : r.range(0, 12);
    std::string s;
    for (int i = 0; i < n; ++i) s.push_back(r.chance(1, 6) ? ' ' : char(r.range(33, 126)));
    return s;
}
template <typename T>
std::string one(const T& t) {
    std::ostringstream os;
    os << t;
    return os.str();
}
void put(std::string& /*s*/) {}
template <typename T, typename... R>
void put(std::string& s, const T& t, const R&... r) {
    s += one(t);
    if (sizeof...(R) > 0) s += ' ';
    put(s, r...);
}
template <Level::Value L, typename... A>
void templated(int form, N::Reactor* self, A&&... a) {
    if (form == OWN_TEMPLATE) self->log<L>(std::forward<A>(a)...);
    else if (form == PLANT_TEMPLATE) plant->log<L>(std::forward<A>(a)...);
    else N::log<L>(std::forward<A>(a)...);
}
template <typename... A>
void call(const Log& l, A&&... a) {
    N::Reactor* self = l.reactor >= 0 ? reactors[l.reactor] : nullptr;
    const auto value  = Level::Value(l.level);
    const Level fixed = value;
    Level variable    = value;
    switch (l.form) {
        case OWN_CONST: self->log(fixed, std::forward<A>(a)...); break;
        case OWN_VARIABLE: self->log(variable, std::forward<A>(a)...); break;
        case OWN_VALUE: self->log(value, std::forward<A>(a)...); break;
        case PLANT_LEVEL: plant->log(variable, std::forward<A>(a)...); break;
        case FREE_CONST: N::log(fixed, std::forward<A>(a)...); break;
        case FREE_VARIABLE: N::log(variable, std::forward<A>(a)...); break;
        case FREE_VALUE: N::log(value, std::forward<A>(a)...); break;
        default:
            switch (value) {
                case Level::TRACE: templated<Level::TRACE>(l.form, self, std::forward<A>(a)...); break;
                case Level::DEBUG: templated<Level::DEBUG>(l.form, self, std::forward<A>(a)...); break;
                case Level::INFO: templated<Level::INFO>(l.form, self, std::forward<A>(a)...); break;
                case Level::WARN: templated<Level::WARN>(l.form, self, std::forward<A>(a)...); break;
                case Level::ERROR: templated<Level::ERROR>(l.form, self, std::forward<A>(a)...); break;
                default: templated<Level::FATAL>(l.form, self, std::forward<A>(a)...); break;
            }
    }
}
template <typename... A>
void shaped(Log& l, const Counted& c, A&&... a) {
    std::string s;
    put(s, a...);
    // Formatting for the expectation does not count
    h::ctr_set(C_FMT + c.no, 0);
    l.text = s;
    call(l, std::forward<A>(a)...);
}
void do_log(Rng& r, int context) {
    int no = n_logs++;
    if (no >= MAX_LOGS) return;
    Log& l    = logs[no];
    l.form    = int(r(N_FORMS));
    l.level   = r.range(1, 6);
    l.context = context;
    l.reactor = l.form <= OWN_VALUE ? (context >= 0 && r.chance(2, 3) ? context : int(r(N_REACTORS))) : -1;
    if (l.reactor >= 0 && reactors[l.reactor] == nullptr) l.reactor = context >= 0 ? context : 0;
    if (l.reactor >= 0 && reactors[l.reactor] == nullptr) l.form = FREE_TEMPLATE, l.reactor = -1;
    const auto* task = N::threading::ReactionTask::get_current_task();
    l.stats          = task != nullptr ? task->statistics.get() : nullptr;
    l.thread         = h::thread_no();
    Counted c{no};
    l.b = h::ev(LOG_B, uint64_t(no));
    switch (r(9)) {
        case 0: shaped(l, c, c); break;
        case 1: shaped(l, c, c, str(r)); break;
        case 2: shaped(l, c, int(r.next()), c); break;
        case 3: shaped(l, c, "text", c, 'x', double(r.range(-1000, 1000)) / 8); break;
        case 4: shaped(l, c, str(r), str(r), c, str(r)); break;
        case 5: shaped(l, c, c, true, "", std::string(), uint64_t(r.next())); break;
        case 6: shaped(l, c, Level(Level::Value(r.range(1, 6))), c, "end"); break;
        case 7: shaped(l, c, std::string("INFO"), c, int16_t(-5)); break;
        default: {
            std::string s = str(r);
            const std::string& t = s;
            shaped(l, c, s, t, c, static_cast<const char*>("literal"));
        }
    }
    l.e = h::ev(LOG_E, uint64_t(no));
}
void body(Inst* in, uint64_t id, int ttl) {
    Rng r(h::mix(h::mix(run_seed, id), uint64_t(in->idx)));
    int n = r.range(0, 3);
    for (int i = 0; i < n; ++i) {
        do_log(r, in->kind);
        h::work(r.next() % (1 + uint64_t(in->work) * 20000));
    }
    if (ttl > 0 && h::ctr_add(C_BUDGET, -1) > 0) {
        h::ctr_add(C_OUT, 1);
        if (r.chance(1, 2)) plant->emit(std::make_unique<M<0>>(h::uid(), ttl - 1));
        else plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<1>>(h::uid(), ttl - 1));
        if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_add(C_SHUT, 1) == 1) {
            h::ev(SHUT);
            shut = true;
            plant->shutdown();
        }
        if (r.chance(1, 2)) do_log(r, in->kind);
    }
}
struct Token {
    Token() { h::ctr_add(C_OUT, 1); }
    ~Token() {
        if (h::ctr_add(C_OUT, -1) == 0 && h::ctr_add(C_SHUT, 1) == 1) {
            h::ev(SHUT);
            shut = true;
            plant->shutdown();
        }
    }
};
struct Tok {
    template <typename DSL>
    static std::shared_ptr<Token> get(const N::threading::ReactionTask& /*t*/) { return std::make_shared<Token>(); }
};
Log* find(const std::string& text) {
    auto at = text.find('#');
    while (at != std::string::npos) {
        int v   = 0;
        auto i  = at + 1;
        while (i < text.size() && isdigit(text[i]) != 0 && v < MAX_LOGS) v = v * 10 + (text[i++] - '0');
        if (i > at + 1 && i < text.size() && text[i] == ';' && v < MAX_LOGS && logs[v].text == text) return &logs[v];
        at = text.find('#', at + 1);
    }
    return nullptr;
}
struct Handler : N::Reactor {
    explicit Handler(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        on<Trigger<N::message::LogMessage>>().then([](const N::message::LogMessage& m) {
            Log* l = find(m.message);
            if (l == nullptr) {
                if (m.message.find("nobody logged") == std::string::npos && m.message.find('#') != std::string::npos) h::viol("text", "a log message with a text that nobody logged: %.200s", m.message.c_str());
                return;
            }
            l->got_at = h::ev(GOT, uint64_t(l - logs));
            l->got++;
            l->got_text    = m.message;
            l->got_level   = m.level();
            l->got_display = m.display_level();
            l->got_name    = m.reactor_name;
            l->got_stats   = m.statistics.get();
            l->got_thread  = h::thread_no();
        });
        on<Trigger<N::message::LogMessage>, Inline::NEVER, Sync<Handler>>().then([](const N::message::LogMessage& m) {
            Log* l = find(m.message);
            if (l == nullptr) return;
            h::ev(GOT_POOL, uint64_t(l - logs));
            l->got_pool++;
            if (m.level() != l->level) h::viol("level", "%s at level %d arrived with level %d", form_names[l->form], l->level, int(m.level()));
        });
    }
};
template <int I>
struct R : N::Reactor {
    explicit R(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        reactors[I]      = this;
        reactor_names[I] = reactor_name;
        log_level        = Level::Value(display_level[I]);
        min_log_level    = Level::Value(min_level[I]);
        Rng r(h::mix(run_seed, 77 + I));
        for (int n = 0; n < n_inst; ++n) {
            if (insts[n].kind != I) continue;
            Inst* i = &insts[n];
            if (i->type == 0) on<Dyn, Trigger<M<0>>, Tok>(i).then([i](const M<0>& m) { body(i, m.id, m.ttl); });
            else on<Dyn, Trigger<M<1>>, Tok>(i).then([i](const M<1>& m) { body(i, m.id, m.ttl); });
        }
        if (r.chance(1, 2)) do_log(r, -1);
        on<Shutdown>().then([] {
            Rng q(h::mix(run_seed, 99 + I));
            do_log(q, I);
        });
    }
};
void check() {
    int emitted = 0, filtered = 0, pool_required = 0, n = std::min(n_logs.load(), MAX_LOGS);
    uint64_t shut_at = ~0ull, sg = 3;
    for (uint64_t i = 0; i < h::ev_count(); ++i) {
        if (h::ev_at(i).type == SHUT) shut_at = i;
        if (h::ev_at(i).type == GOT) sg = h::mix(sg, h::ev_at(i).a);
    }
    for (int i = 0; i < n; ++i) {
        const Log& l = logs[i];
        const char* f = form_names[l.form];
        // A log outside any reactor has no level to filter by
        int who = l.reactor >= 0 ? l.reactor : l.context;
        int dis = who >= 0 ? display_level[who] : 0, mini = who >= 0 ? min_level[who] : 0;
        bool expect = l.level >= dis || l.level >= mini;
        if (l.got != (expect ? 1 : 0))
            h::viol("count", "%s at level %d with display level %d and minimum level %d %s: %d messages", f, l.level, dis, mini, who >= 0 ? "of its reactor" : "outside reactors", l.got);
        if (h::ctr_get(C_FMT + i) != (expect ? 1 : 0)) h::viol("formatted", "the arguments of a log that is %s were formatted %lld times", expect ? "enabled" : "disabled", (long long) h::ctr_get(C_FMT + i));
        if (l.got_pool > (expect ? 1 : 0)) h::viol("count", "%s: %d messages at a pool reaction", f, l.got_pool);
        if (expect && l.e < shut_at) {
            pool_required++;
            if (l.got_pool != 1) h::viol("count", "%s: no message at a pool reaction before the shutdown", f);
        }
        expect ? emitted++ : filtered++;
        if (l.got == 0) continue;
        if (l.got_level != l.level) h::viol("level", "%s at level %d arrived with level %d", f, l.level, l.got_level);
        if (l.got_display != dis) h::viol("display", "%s with display level %d arrived with %d", f, dis, l.got_display);
        if (l.got_name != (who >= 0 ? reactor_names[who] : std::string())) h::viol("reactor", "%s of reactor %d arrived with name '%s'", f, who, l.got_name.c_str());
        if (l.got_stats != l.stats) h::viol("task", "%s arrived with the statistics of another task", f);
        if (l.got_text != l.text) h::viol("text", "%s: '%.100s' arrived as '%.100s'", f, l.text.c_str(), l.got_text.c_str());
        if (l.got_thread != l.thread || l.got_at < l.b || l.got_at > l.e) h::viol("inline", "%s: the message was not handled inline", f);
    }
    h::note("log_calls", n);
    h::note("log_calls_emitted", emitted);
    h::note("log_calls_filtered", filtered);
    h::note("pool_deliveries_required", pool_required);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d log calls, %d emitted, %d filtered", (unsigned long long) h::case_no, n, emitted, filtered);
    dump_events(names, 6);
}
void run_case(Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    for (int i = 0; i < std::min(n_logs.load(), MAX_LOGS); ++i) logs[i] = Log{};
    n_logs = 0;
    shut   = false;
    pool_limit[POOL_DEFAULT] = rng.range(1, 4);
    n_inst = rng.range(2, 8);
    for (int i = 0; i < N_REACTORS; ++i) {
        reactors[i]      = nullptr;
        display_level[i] = rng.range(0, 6);
        min_level[i]     = rng.chance(1, 2) ? 6 : rng.range(0, 6);
    }
    static const int pools[] = {POOL_DEFAULT, POOL_DEFAULT, POOL_1, POOL_2, POOL_MAIN, POOL_P};
    for (int i = 0; i < n_inst; ++i) {
        Inst& in  = insts[i];
        in        = Inst{};
        in.idx    = i;
        in.type   = int(rng(2));
        in.pool   = pools[rng(6)];
        in.groups = rng.chance(1, 3) ? 1u << rng(3) : 0;
        in.inl    = rng.chance(1, 4) ? 1 : rng.chance(1, 5) ? 2 : 0;
        in.kind   = int(rng(N_REACTORS));
        in.work   = int(rng(3));
    }
    int n_ext   = rng.range(1, 3);
    uint64_t es = rng.next();
    h::ctr_set(C_BUDGET, big ? rng.range(20, 150) : rng.range(4, 20));
    h::sched_begin(rng, 1500);
    {
        N::Configuration c;
        c.default_pool_concurrency = pool_limit[POOL_DEFAULT];
        N::PowerPlant p(c);
        plant = &p;
        auto* keep = new Token;
        p.install<Handler>();
        p.install<R<0>>();
        p.install<R<1>>();
        p.install<R<2>>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) {
            auto* mine = new Token;
            ext.emplace_back([t, es, big, mine] {
                Rng r(h::mix(es, uint64_t(t)));
                int n = r.range(1, big ? 30 : 5);
                for (int i = 0; i < n; ++i) {
                    if (r.chance(1, 2)) do_log(r, -1);
                    else if (r.chance(1, 2)) plant->emit(std::make_unique<M<0>>(h::uid(), r.range(0, 2)));
                    else plant->emit<N::dsl::word::emit::Inline>(std::make_unique<M<1>>(h::uid(), r.range(0, 2)));
                }
                delete mine;
            });
        }
        ext.emplace_back([keep] { delete keep; });
        p.start();
        for (auto& t : ext) t.join();
    }
    h::sched_end();
    check();
    drop_store();
    N::dsl::store::DataStore<N::message::LogMessage>::set(nullptr);
    plant = nullptr;
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
