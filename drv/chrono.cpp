// Timers: periodic reactions, delayed emits, watchdogs, the clock and time travel.
// Modes: every, delay, watchdog, clock, travel, stop. Under the controlled scheduler time is virtual, so that lateness is bounded by construction.
#include "dyn.hpp"
#include <cmath>
#include <mutex>
using namespace dyn;
namespace {
using Clock = N::clock;
using ns    = std::chrono::nanoseconds;
enum EvType : uint32_t { BIND_B = 1, BIND_E, RUN, DIS_B, DIS_E, EN_B, EN_E, UNB_B, UNB_E, EMIT_B, EMIT_E, GOT, GOT_INL, SERV_B, SERV_E, START, STOP, RET, TRAVEL_B, TRAVEL_E };
const char* names[] = {"?", "BIND_B", "BIND_E", "RUN", "DIS_B", "DIS_E", "EN_B", "EN_E", "UNB_B", "UNB_E", "EMIT_B", "EMIT_E", "GOT", "GOT_INL", "SERV_B", "SERV_E", "START", "STOP", "RET", "TRAVEL_B", "TRAVEL_E"};
enum { C_LEFT = 60, C_LIVE, C_NEXT };
constexpr int64_t US = 1000, MS = 1000 * US, FAR = int64_t(1) << 62;
constexpr int MAX_T = 24, MAX_D = 400;

int64_t cn() { return std::chrono::duration_cast<ns>(Clock::now().time_since_epoch()).count(); }
Clock::time_point tp(int64_t t) { return Clock::time_point(std::chrono::duration_cast<Clock::duration>(ns(t))); }
void nap(int64_t t) { std::this_thread::sleep_for(ns(t)); }

uint64_t run_seed = 0;
int64_t slack     = 0;    // how late something may be on the clock
double rate       = 1.0;
std::atomic<bool> shut{false}, started{false};
uint64_t vt_stop = 0;

int64_t virt() { return int64_t(det::vtime()); }
void stop_now() {
    if (h::ctr_add(C_SHUT, 1) != 1) return;
    h::ev(STOP, 0, uint64_t(cn()));
    vt_stop = uint64_t(virt());
    shut = true;
    plant->shutdown();
}
struct Starter : N::Reactor {
    explicit Starter(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        on<Startup>().then([] {
            h::ev(START, 0, uint64_t(cn()));
            started = true;
        });
    }
};
void wait_started() {
    while (!started) nap(50 * US);
}

// ---- delayed messages -----------------------------------------------------------------------------------------
struct D {
    uint64_t id, canary;
    int nest;
    explicit D(uint64_t id, int nest) : id(id), canary(id ^ 0xABCDEF), nest(nest) { h::ctr_add(C_LIVE, 1); }
    D(const D&) = delete;
    ~D() { canary = 0; h::ctr_add(C_LIVE, -1); }
};
struct DInfo {
    int64_t lo = 0, hi = 0;   // when it is due (uncertainty of the clock reading in the emit)
    int64_t b = 0, e = FAR;   // the emit call
    int got = 0, inl = 0;
    int64_t at = FAR, at_inl = FAR;
    uint64_t pos = 0, pos_inl = 0;
};
DInfo dinfo[MAX_D];
std::atomic<int> n_d{0};
int64_t shared_times[3];

void emit_delayed(Rng& r, int nest) {
    int id = n_d++;
    if (id >= MAX_D) return;
    DInfo& d = dinfo[id];
    h::ctr_add(C_LEFT, 1);
    auto msg  = std::make_unique<D>(uint64_t(id), nest);
    int form  = int(r(3));
    static const int64_t spans[] = {0, 0, 10 * US, 300 * US, 1 * MS, 2 * MS, 5 * MS, 20 * MS};
    int64_t w = spans[r(8)] + int64_t(r(uint64_t(2 * MS)));
    if (r.chance(1, 10)) w = 0;
    if (r.chance(1, 10)) w = -int64_t(r(5 * MS));
    w       = int64_t(double(w) * rate);
    d.b     = cn();
    d.lo    = d.b + w;
    if (form == 1) d.lo = d.hi = shared_times[r(3)];
    else if (form == 2) d.hi = d.lo;
    h::ev(EMIT_B, uint64_t(id), uint64_t(d.b), uint64_t(d.lo));
    if (form == 0) plant->emit<N::dsl::word::emit::Delay>(std::move(msg), std::chrono::duration_cast<Clock::duration>(ns(w)));
    else plant->emit<N::dsl::word::emit::Delay>(std::move(msg), tp(d.lo));
    int64_t e = cn();
    if (form == 0) d.hi = e + w;
    d.e = e;
    h::ev(EMIT_E, uint64_t(id), uint64_t(e), uint64_t(d.hi));
}
void got(const D& d, bool inl) {
    int64_t t = cn();
    if (d.id >= uint64_t(MAX_D) || d.canary != (d.id ^ 0xABCDEF)) {
        h::viol("data", "a delayed message arrived damaged");
        return;
    }
    DInfo& i = dinfo[d.id];
    if (inl) { i.inl++; i.at_inl = t; i.pos_inl = h::ev(GOT_INL, d.id, uint64_t(t)); }
    else { i.got++; i.at = t; i.pos = h::ev(GOT, d.id, uint64_t(t)); }
    if (!shut && d.nest > 0) {
        Rng r(h::mix(h::mix(run_seed, d.id), inl ? 5 : 6));
        if (r.chance(1, 2)) emit_delayed(r, d.nest - 1);
    }
}
struct Delays : N::Reactor {
    static int inline_mode;  // 0 no inline receiver, 1 inline
    explicit Delays(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        on<Trigger<D>, Pool<P1>>().then([](const D& d) {
            got(d, false);
            if (h::ctr_add(C_LEFT, -1) == 0) stop_now();
        });
        if (inline_mode == 1) on<Trigger<D>, Inline::ALWAYS>().then([](const D& d) { got(d, true); });
        Rng r(h::mix(run_seed, 8));
        if (r.chance(1, 2)) for (int n = r.range(1, 4); n > 0; --n) emit_delayed(r, 1);
    }
};
int Delays::inline_mode = 0;

void check_delays(int64_t start, int64_t stop) {
    int n = std::min(n_d.load(), MAX_D), due = 0, ordered = 0;
    std::vector<int> by_run;
    int64_t late = 0;
    for (int i = 0; i < n; ++i) {
        const DInfo& d = dinfo[i];
        if (d.got > 1 || d.inl > 1) h::viol("repeat", "a delayed message was delivered %d times", std::max(d.got, d.inl));
        if (d.e == FAR) continue;  // still being emitted at the end
        int64_t deadline = std::max(std::max(d.hi, d.e), start) + slack;
        if (d.got > 0 && d.at < d.lo) h::viol("early", "a delayed message was delivered %lld us early", (long long) (d.lo - d.at) / 1000);
        if (d.inl > 0 && d.at_inl < d.lo) h::viol("early", "a delayed message was delivered inline %lld us early", (long long) (d.lo - d.at_inl) / 1000);
        if (deadline < stop) {
            due++;
            if (d.got == 0) h::viol("lost", "a delayed message was not delivered within %lld us of when it was due", (long long) slack / 1000);
            else if (d.at > deadline) h::viol("late", "a delayed message was delivered %lld us late", (long long) (d.at - std::max(d.hi, start)) / 1000);
            if (Delays::inline_mode == 1 && d.inl == 0) h::viol("lost", "a delayed message was not delivered inline");
        }
        if (d.got > 0) {
            late = std::max(late, d.at - std::max(std::max(d.hi, d.e), start));
            by_run.push_back(i);
        }
    }
    // Order: both known to the controller when the later one became due
    std::sort(by_run.begin(), by_run.end(), [](int x, int y) { return dinfo[x].pos < dinfo[y].pos; });
    for (size_t x = 0; x < by_run.size(); ++x) {
        for (size_t y = x + 1; y < by_run.size(); ++y) {
            const DInfo &a = dinfo[by_run[x]], &b = dinfo[by_run[y]];
            // b was delivered after a
            if (b.hi < a.lo && b.e < std::max(a.lo, start)) {
                h::viol("order", "a message that was due %lld us earlier was delivered after another", (long long) (a.lo - b.hi) / 1000);
            }
            if (a.hi < b.lo && a.e < std::max(b.lo, start)) ordered++;
        }
    }
    h::note("delayed_messages", n);
    h::note("delayed_messages_due_and_required", due);
    h::note("ordered_pairs_checked", ordered);
    h::note_max("most_late_us", late / 1000);
}

// ---- periodic reactions and watchdogs -------------------------------------------------------------------------
struct WG0 {};
struct WG1 {};
struct Timer {
    std::atomic<bool> used{false};  // everything that is fixed is set
    bool watchdog = false;
    int variant = 0;
    int64_t P = 0, b0 = 0, b1 = FAR;
    int inl = 0, nap_part = 0, throws = 0, self = 0, group = -1, key = 0, emits = 0, owner = 0;
    std::atomic<int> n{0};
    bool on = false, bound = false;
    N::threading::ReactionHandle handle;
    std::atomic<bool> have_handle{false};
};
Timer timers[MAX_T];
std::atomic<int> n_t{0};
N::Reactor* binder_reactor = nullptr;
void self_op(int t, int op);

void ran(int t) {
    Timer& x = timers[t];
    h::ev(RUN, uint64_t(t), uint64_t(cn()));
    int n = ++x.n;
    if (x.self != 0 && n == 3 && x.have_handle) self_op(t, x.self);
    if (x.emits != 0 && !shut) {
        Rng r(h::mix(h::mix(run_seed, uint64_t(n)), uint64_t(t)));
        if (r.chance(1, 3)) emit_delayed(r, 0);
    }
    if (x.nap_part != 0) nap(int64_t(double(x.P) / rate / x.nap_part));
    if (x.throws != 0) throw int(n);
}
struct Binder : N::Reactor {
    explicit Binder(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        binder_reactor = this;
        int n = n_t;
        for (int i = 0; i < n; ++i) bind(i);
    }
    template <typename... W, typename... A>
    void put(int i, A&&... a) {
        Timer& x = timers[i];
        auto f   = [i] { ran(i); };
        x.b0     = cn();
        h::ev(BIND_B, uint64_t(i), uint64_t(x.b0), uint64_t(x.P));
        if (x.inl == 1) x.handle = on<W..., Inline::ALWAYS>(std::forward<A>(a)...).then(f);
        else x.handle = on<W...>(std::forward<A>(a)...).then(f);
        x.b1 = cn();
        x.have_handle = true;
        h::ev(BIND_E, uint64_t(i), uint64_t(x.b1));
    }
    template <typename G, int T>
    void put_watchdog(int i) {
        Timer& x = timers[i];
        if (x.key == 0) put<Watchdog<G, T, std::chrono::milliseconds>>(i);
        else if (x.key < 10) put<Watchdog<G, T, std::chrono::milliseconds>>(i, int(x.key));
        else put<Watchdog<G, T, std::chrono::milliseconds>>(i, "key " + std::to_string(x.key));
    }
    void bind(int i) {
        Timer& x = timers[i];
        x.on = x.bound = true;
        if (x.watchdog) {
            if (x.group == 0 && x.variant == 0) put_watchdog<WG0, 6>(i);
            else if (x.group == 0 && x.variant == 1) put_watchdog<WG0, 11>(i);
            else if (x.variant == 0) put_watchdog<WG1, 6>(i);
            else put_watchdog<WG1, 15>(i);
            return;
        }
        switch (x.variant) {
            case 1: put<Every<7, std::chrono::milliseconds>>(i); break;
            case 2: put<Every<30, Per<std::chrono::seconds>>>(i); break;
            case 3: put<Every<120, Per<std::chrono::seconds>>>(i); break;
            case 4: put<Every<4321, std::chrono::microseconds>>(i); break;
            case 5: put<Every<7, Per<std::chrono::duration<int, std::ratio<1, 10>>>>>(i); break;
            default: put<Every<>>(i, std::chrono::duration_cast<Clock::duration>(ns(x.P))); break;
        }
    }
};
int64_t every_period(int v) {
    switch (v) {
        case 1: return 7 * MS;
        case 2: return 33333333;
        case 3: return 8333333;
        case 4: return 4321 * US;
        case 5: return 14285714;
        default: return 0;
    }
}
int make_timer(Rng& r, bool watchdog, int owner = -1) {
    int i = n_t++;
    if (i >= MAX_T) return -1;
    Timer& x   = timers[i];
    x.owner    = owner < 0 ? i : owner;
    x.watchdog = watchdog;
    x.inl      = r.chance(1, 4) ? 1 : 0;
    x.throws   = r.chance(1, 8) ? 1 : 0;
    x.self     = r.chance(1, 6) ? r.range(1, 2) : 0;
    if (watchdog) {
        x.group   = int(r(2));
        x.variant = int(r(2));
        x.key     = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 2) : r.range(10, 11);
        x.P       = (x.variant == 0 ? 6 : x.group == 0 ? 11 : 15) * MS;
    }
    else {
        x.variant = rate == 1.0 && r.chance(1, 2) ? r.range(1, 5) : 0;
        x.P       = x.variant != 0 ? every_period(x.variant) : int64_t(double(r.range(5 * MS, 40 * MS)) * rate);
        x.nap_part = x.inl == 0 && r.chance(1, 4) ? r.range(3, 8) : 0;
        x.emits   = r.chance(1, 4) ? 1 : 0;
    }
    x.used = true;
    return i;
}
// op: 1 disable, 2 unbind, 3 enable
void self_op(int t, int op) {
    Timer& x = timers[t];
    uint32_t b = op == 1 ? DIS_B : op == 2 ? UNB_B : EN_B;
    h::ev(b, uint64_t(t), uint64_t(cn()));
    if (op == 1) x.handle.disable();
    else if (op == 2) x.handle.unbind();
    else x.handle.enable();
    h::ev(b + 1, uint64_t(t), uint64_t(cn()));
}
template <typename G>
void service_group(int key) {
    using namespace N::dsl::word::emit;
    if (key == 0) plant->emit<Watchdog>(ServiceWatchdog<G>());
    else if (key < 10) plant->emit<Watchdog>(ServiceWatchdog<G>(int(key)));
    else plant->emit<Watchdog>(ServiceWatchdog<G>(std::string("key " + std::to_string(key))));
}
// Services the group and key of a watchdog
void service(int group, int key) {
    uint64_t gk = uint64_t(group * 100 + key);
    bool ok     = true;
    h::ev(SERV_B, gk, uint64_t(cn()));
    try {
        if (group == 0) service_group<WG0>(key);
        else service_group<WG1>(key);
    }
    catch (const std::domain_error&) { ok = false; }
    h::ev(SERV_E, gk, uint64_t(cn()), ok ? 1 : 0);
}
struct Op { int64_t b, e; int kind; };  // on the clock; 1 disable, 2 unbind, 3 enable
struct Hist {
    std::vector<int64_t> runs;
    std::vector<Op> ops;
};
// 1 enabled throughout, -1 disabled throughout, 0 it changes
int state_over(const Hist& hst, int64_t from, int64_t to) {
    int st = 1;
    bool unbound = false;
    for (const auto& o : hst.ops) {
        if (o.b <= to && o.e >= from) return unbound ? -1 : 0;
        if (o.e < from) {
            if (o.kind == 2) unbound = true;
            st = unbound ? -1 : o.kind == 3 ? 1 : -1;
        }
    }
    return st;
}
void collect(std::vector<Hist>& hs, int64_t& start, int64_t& stop, int64_t& ret) {
    hs.assign(MAX_T, Hist{});
    start = stop = ret = FAR;
    for (uint64_t i = 0; i < h::ev_count(); ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case START: start = int64_t(e.b); break;
            case STOP: stop = int64_t(e.b); break;
            case RET: ret = int64_t(e.b); break;
            case RUN:
                hs[e.a].runs.push_back(int64_t(e.b));
                if (ret != FAR) h::viol("after", "a timer ran after the system had stopped");
                break;
            case DIS_B: case UNB_B: case EN_B: {
                hs[e.a].ops.push_back({int64_t(e.b), FAR, e.type == DIS_B ? 1 : e.type == UNB_B ? 2 : 3});
                break;
            }
            case DIS_E: case UNB_E: case EN_E:
                for (auto& o : hs[e.a].ops) if (o.e == FAR && o.kind == (e.type == DIS_E ? 1 : e.type == UNB_E ? 2 : 3)) { o.e = int64_t(e.b); break; }
                break;
            default: break;
        }
    }
}
void check_every(const std::vector<Hist>& hs, int64_t start, int64_t stop) {
    int64_t late = 0;
    int total = 0, required = 0, forbidden = 0, n = std::min(n_t.load(), MAX_T);
    for (int i = 0; i < n; ++i) {
        const Timer& x = timers[i];
        if (!x.used || x.watchdog || x.b1 == FAR) continue;
        std::vector<int64_t> runs = hs[i].runs;
        std::sort(runs.begin(), runs.end());
        size_t next = 0;
        for (int64_t k = 1; ; ++k) {
            int64_t lo = x.b0 + k * x.P, hi = x.b1 + k * x.P;
            int64_t dl = std::max(hi, start) + slack;
            if (lo > stop && next >= runs.size()) break;
            int st = dl < stop ? state_over(hs[i], std::max(lo, std::min(start, stop)), dl) : 0;
            if (next < runs.size() && runs[next] < lo) {
                h::viol("early", "tick %lld of a period of %lld us ran %lld us early or ran again", (long long) k, (long long) x.P / 1000, (long long) (lo - runs[next]) / 1000);
                break;
            }
            bool here = next < runs.size() && runs[next] <= dl;
            if (st > 0) {
                required++;
                if (!here) {
                    h::viol("skipped", "tick %lld of a period of %lld us did not run within %lld us of when it was due", (long long) k, (long long) x.P / 1000, (long long) slack / 1000);
                    break;
                }
            }
            if (st < 0) {
                forbidden++;
                if (here) { h::viol("disabled", "a tick ran although the reaction was disabled or unbound"); break; }
            }
            if (here) {
                late = std::max(late, runs[next] - std::max(hi, start));
                next++;
                total++;
            }
            else if (next < runs.size() && st == 0 && dl >= stop) break;
        }
    }
    h::note("ticks", total);
    h::note("ticks_required", required);
    h::note("ticks_forbidden", forbidden);
    h::note("periodic_reactions", n);
    h::note_max("most_late_us", late / 1000);
}
void check_watchdogs(const std::vector<Hist>& hs, int64_t start, int64_t stop) {
    struct Serv { int64_t b, e; };
    std::map<uint64_t, std::vector<Serv>> servs;
    std::map<uint64_t, std::map<uint32_t, int64_t>> open;
    int n_serv = 0, fires = 0, quiet = 0, required = 0, refused = 0;
    for (uint64_t i = 0; i < h::ev_count(); ++i) {
        const auto& e = h::ev_at(i);
        if (e.type == SERV_B) open[e.a][e.thread] = int64_t(e.b);
        if (e.type == SERV_E) {
            if (e.c == 0) { refused++; continue; }
            servs[e.a].push_back({open[e.a][e.thread], int64_t(e.b)});
            n_serv++;
        }
    }
    int n = std::min(n_t.load(), MAX_T);
    for (int i = 0; i < n; ++i) {
        const Timer& x = timers[i];
        if (!x.used || !x.watchdog || x.b1 == FAR) continue;
        const auto& sv = servs[uint64_t(x.group * 100 + x.key)];
        std::vector<int64_t> runs = hs[i].runs;
        std::sort(runs.begin(), runs.end());
        for (size_t k = 0; k < runs.size(); ++k) {
            int64_t r = runs[k];
            fires++;
            if (r - x.b0 <= x.P) h::viol("early", "a watchdog of %lld ms fired %lld us after it was bound", (long long) x.P / MS, (long long) (r - x.b0) / 1000);
            // Fired at the latest when it was due plus slack
            if (k > 0 && r - runs[k - 1] < x.P - slack && runs[k - 1] > start + slack)
                h::viol("early", "a watchdog of %lld ms fired again after %lld us", (long long) x.P / MS, (long long) (r - runs[k - 1]) / 1000);
            for (const auto& s : sv) {
                if (s.b > r - x.P && s.e < r - slack && s.b > x.b0)
                    h::viol("serviced", "a watchdog of %lld ms fired %lld us after it had been serviced", (long long) x.P / MS, (long long) (r - s.b) / 1000);
            }
            int st = state_over(hs[i], r - slack, r);
            if (st < 0) h::viol("disabled", "a watchdog fired although it was disabled or unbound");
        }
        // Every reset must be followed by another reset, a fire, or something that stops the watchdog
        std::vector<std::pair<int64_t, int64_t>> resets;  // known to be done by first; cannot be later than second
        resets.push_back({x.b0, x.b1});
        for (const auto& s : sv) if (s.e > x.b0) resets.push_back({s.b, s.e});
        for (auto r : runs) resets.push_back({r - slack, r});
        std::sort(resets.begin(), resets.end());
        for (const auto& t : resets) {
            int64_t lo = t.first, hi = std::max(t.second + x.P, start) + slack;
            if (hi >= stop) continue;
            if (state_over(hs[i], x.b1, hi) <= 0) continue;
            bool again = false;
            for (auto r : runs) if (r > std::max(t.second, lo + slack) && r <= hi) again = true;
            for (const auto& s : sv) if (s.e > lo && s.b <= hi && !(s.b == t.first && s.e == t.second)) again = true;
            required++;
            if (!again) h::viol("missing", "a watchdog of %lld ms did not fire although it was not serviced for %lld us", (long long) x.P / MS, (long long) (hi - t.second) / 1000);
            else quiet++;
        }
    }
    h::note("watchdog_fires", fires);
    h::note("watchdog_services", n_serv);
    h::note("watchdog_services_refused", refused);
    h::note("watchdog_resets_followed_up", required);
}

// ---- running a plant with scripts -----------------------------------------------------------------------------
enum Mode { EVERY, DELAY, WATCHDOG, TRAVEL, STOPPING };

void script(Mode m, uint64_t seed, int who, int n_who) {
    Rng r(seed);
    if (m != DELAY && m != STOPPING) {
        wait_started();
        nap(2 * MS);  // ticks of before the start
    }
    int64_t len = m == STOPPING ? 2 * MS : 60 * MS;
    int64_t v   = 0;
    while (v < len) {
        static const int64_t spans[] = {20 * US, 500 * US, 2 * MS, 8 * MS};
        int64_t d = 1 + int64_t(r(uint64_t(spans[r(4)])));
        if (m == STOPPING) d /= 4;
        nap(d);
        v += d;
        if (shut) return;
        if (m == DELAY || (m == STOPPING && r.chance(1, 2))) {
            for (int n = r.range(1, 3); n > 0 && n_d < 60; --n) emit_delayed(r, r.range(0, 2));
            continue;
        }
        int n = std::min(n_t.load(), MAX_T);
        int t = n > 0 ? int(r(uint64_t(n))) : 0;
        if (!timers[t].used) n = 0;
        if (m == WATCHDOG && r.chance(4, 5)) {
            if (n > 0) service(timers[t].group, timers[t].key);
            continue;
        }
        if (r.chance(1, 6) && n_t < 8) {
            int i = make_timer(r, m == WATCHDOG, who);
            if (i >= 0) {
                static_cast<Binder*>(binder_reactor)->bind(i);
            }
            continue;
        }
        Timer& x = timers[t];
        // Each timer has one thread that operates on it
        if (n == 0 || x.owner % n_who != who || !x.have_handle || !x.bound || x.self != 0) continue;
        switch (r(4)) {
            case 0: x.on = false; self_op(t, 1); break;
            case 1: if (r.chance(1, 2)) { x.bound = false; self_op(t, 2); } break;
            default: x.on = true; self_op(t, 3); break;
        }
    }
}
void run_plant(Mode m, Rng& rng) {
    const bool big = !h::controlled();
    run_seed = rng.next();
    for (int i = 0; i < MAX_D; ++i) dinfo[i] = DInfo{};
    for (int i = 0; i < MAX_T; ++i) {
        Timer& x = timers[i];
        x.used = false; x.watchdog = false; x.variant = 0; x.P = x.b0 = 0; x.b1 = FAR; x.inl = x.nap_part = x.throws = x.self = 0;
        x.group = -1; x.key = x.emits = 0; x.owner = i; x.n = 0; x.on = x.bound = false; x.handle = {}; x.have_handle = false;
    }
    n_d = 0; n_t = 0; shut = false; started = false;
    static const double rates[] = {1, 1, 1, 0.5, 2, 10};
    rate = big ? 1.0 : rates[rng(m == WATCHDOG ? 5 : 6)];
    static const uint64_t lates[] = {0, 20 * US, 200 * US};
    h::sched_fair_after = 2000;
    h::sched_late_max = lates[rng(3)];
    slack = big ? FAR / 4 : int64_t(double(1500 * US + 3 * h::sched_late_max) * std::max(1.0, rate));
    int n = m == EVERY || m == WATCHDOG ? rng.range(1, 5) : m == STOPPING ? rng.range(0, 3) : 0;
    for (int i = 0; i < n; ++i) {
        int t = make_timer(rng, m == WATCHDOG || (m == STOPPING && rng.chance(1, 3)));
        if (m == STOPPING) { timers[t].nap_part = 0; if (!timers[t].watchdog) { timers[t].variant = 0; timers[t].P *= rng.chance(1, 2) ? 1000 : 1; } }
    }
    Delays::inline_mode = rng.chance(1, 2) ? 1 : 0;
    int n_ext = rng.range(1, 3);
    int conc  = rng.range(10, 12);
    int64_t pause = rng.chance(1, 3) ? int64_t(rng(30 * MS)) : 0;
    if (m == STOPPING) pause = 0;
    h::ctr_set(C_LEFT, 1 + n_ext);
    int64_t vt_ret = 0;
    h::sched_begin(rng, 3000);
    {
        if (h::controlled()) Clock::set_clock(tp(int64_t(1000000) * 1000 * MS), 1.0);
        N::Configuration c;
        c.default_pool_concurrency = conc;
        N::PowerPlant p(c);
        plant = &p;
        int64_t base = cn();
        for (auto& t : shared_times) t = base + int64_t(rng(60 * MS));
        p.install<N::extension::ChronoController>();
        // The controller measures how exactly it can wait while it is constructed
        if (h::controlled()) Clock::adjust_clock(Clock::duration(0), rate);
        p.install<Starter>();
        p.install<Binder>();
        p.install<Delays>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) {
            uint64_t s = rng.next();
            ext.emplace_back([m, s, t, n_ext] {
                script(m, s, t, n_ext);
                if (h::ctr_add(C_LEFT, -1) == 0) stop_now();
            });
        }
        int64_t tail = m == STOPPING ? 0 : 40 * MS;
        uint64_t ts  = rng.next();
        ext.emplace_back([m, tail, ts] {
            // Holds the system up until the scripts are over
            Rng r(ts);
            if (m == STOPPING) {
                wait_started();
                nap(int64_t(r(2 * MS)));
                stop_now();
                return;
            }
            if (m != DELAY) while (h::ctr_get(C_LEFT) > 1 && !shut) nap(5 * MS);
            nap(tail);
            if (h::ctr_add(C_LEFT, -1) == 0) stop_now();
        });
        if (pause > 0) nap(pause);
        p.start();
        vt_ret = virt();
        h::ev(RET, 0, uint64_t(cn()));
        for (auto& t : ext) t.join();
        for (auto& t : timers) t.handle = {};
    }
    int64_t took = vt_ret - int64_t(vt_stop);
    h::sched_end();
    std::vector<Hist> hs;
    int64_t start, stop, ret;
    collect(hs, start, stop, ret);
    if (h::controlled() && took > 20 * MS) h::viol("shutdown", "the system needed %lld ms to stop after the request", (long long) took / MS);
    if (m == EVERY || m == STOPPING) check_every(hs, start, stop);
    if (m == EVERY || m == DELAY || m == STOPPING) check_delays(start, stop);
    if (m == WATCHDOG) check_watchdogs(hs, start, stop);
    N::dsl::store::DataStore<D>::set(nullptr);
    N::dsl::store::DataStore<N::dsl::operation::ChronoTask>::set(nullptr);
    if (h::ctr_get(C_LIVE) != 0) h::viol("leak", "%lld delayed messages were not destroyed with the system", (long long) h::ctr_get(C_LIVE));
    uint64_t sg = uint64_t(m);
    for (uint64_t i = 0; i < h::ev_count(); ++i) if (h::ev_at(i).type == RUN || h::ev_at(i).type == GOT) sg = h::mix(sg, h::ev_at(i).a * 3 + h::ev_at(i).type);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d timers, %d delayed messages, rate %.1f", (unsigned long long) h::case_no, n_t.load(), n_d.load(), rate);
    if (dump()) {
        for (int i = 0; i < std::min(n_t.load(), MAX_T); ++i) fprintf(stderr, "timer %d watchdog %d P %lld us inl %d nap %d throws %d self %d group %d key %d emits %d\n", i, timers[i].watchdog, (long long) timers[i].P / 1000, timers[i].inl, timers[i].nap_part, timers[i].throws, timers[i].self, timers[i].group, timers[i].key, timers[i].emits);
        for (uint64_t i = 0; i < h::ev_count(); ++i) {
            const auto& e = h::ev_at(i);
            fprintf(stderr, "%3llu t%u %s %lld at %.3f ms %lld\n", (unsigned long long) i, e.thread, names[e.type], (long long) e.a, double(int64_t(e.b) - int64_t(1000000) * 1000 * MS) / MS, (long long) e.c);
        }
        fprintf(stderr, "start %.3f stop %.3f slack %lld rate %f\n", double(start - int64_t(1000000) * 1000 * MS) / MS, double(stop - int64_t(1000000) * 1000 * MS) / MS, (long long) slack, rate);
    }
    plant = nullptr;
}
// ---- the clock on its own -------------------------------------------------------------------------------------
int64_t base_now() { return std::chrono::duration_cast<ns>(N::base_clock::now().time_since_epoch()).count(); }
struct Version {
    int64_t lo = 0, hi = 0, ref = 0;  // bounds of the clock when the base clock is at ref
    double rtf = 1.0;
    int64_t lo_at(int64_t t) const { return lo + int64_t(std::floor(double(t - ref) * rtf)) - 2; }
    int64_t hi_at(int64_t t) const { return hi + int64_t(std::ceil(double(t - ref) * rtf)) + 2; }
};
struct Reading { int64_t t0, v, t1; int c0, c1; double rtf; };
void run_clock(Rng& rng) {
    const bool big = !h::controlled();
    h::sched_late_max = 0;
    h::sched_fair_after = 2000;
    std::atomic<int> begun{0}, completed{0};
    std::atomic<bool> over{false};
    std::vector<Version> vs;
    std::vector<std::vector<Reading>> rs(size_t(rng.range(1, 3)));
    int n_ops = big ? rng.range(50, 300) : rng.range(3, 14), n_reads = big ? 4000 : 60;
    h::sched_begin(rng, 600);
    {
        int64_t b0 = base_now();
        Clock::set_clock(tp(5000 * MS), 1.0);
        int64_t b1 = base_now();
        Version v;
        v.ref = b1; v.lo = 5000 * MS; v.hi = v.lo + (b1 - b0); v.rtf = 1.0;
        vs.push_back(v);
        std::vector<std::thread> threads;
        for (size_t r = 0; r < rs.size(); ++r) {
            threads.emplace_back([&rs, r, n_reads, &begun, &completed, &over] {
                rs[r].reserve(size_t(n_reads));
                for (int i = 0; i < n_reads && !over; ++i) {
                    Reading x;
                    x.c0  = completed;
                    x.t0  = base_now();
                    x.v   = cn();
                    x.t1  = base_now();
                    x.rtf = Clock::rtf();
                    x.c1  = begun;
                    rs[r].push_back(x);
                }
            });
        }
        uint64_t ws = rng.next();
        threads.emplace_back([ws, n_ops, &vs, &begun, &completed, &over] {
            Rng r(ws);
            for (int i = 0; i < n_ops; ++i) {
                if (r.chance(1, 2)) h::work(r.next() % 4000);
                static const double rates[] = {1, 1, 0, 0.5, 2, 10, 0.001, 1.0 / 3};
                const Version& o = vs.back();
                Version v;
                v.rtf = rates[r(8)];
                int64_t d = r.chance(1, 4) ? 0 : int64_t(r(uint64_t(100 * MS))) - 40 * MS;
                bool set  = r.chance(1, 2);
                begun     = i + 1;
                int64_t b0 = base_now();
                if (set) Clock::set_clock(tp(6000 * MS + d), v.rtf);
                else if (v.rtf == 1.0) Clock::adjust_clock(std::chrono::duration_cast<Clock::duration>(ns(d)));
                else Clock::adjust_clock(std::chrono::duration_cast<Clock::duration>(ns(d)), v.rtf);
                int64_t b1 = base_now();
                v.ref = b1;
                int64_t run = int64_t(std::ceil(double(b1 - b0) * v.rtf));
                if (set) { v.lo = 6000 * MS + d; v.hi = v.lo + run; }
                else {
                    v.lo = d + std::min(o.lo_at(b0) + run, o.lo_at(b1));
                    v.hi = d + std::max(o.hi_at(b0) + run, o.hi_at(b1));
                }
                vs.push_back(v);
                completed = i + 1;
            }
            if (!h::controlled()) over = true;
        });
        for (auto& t : threads) t.join();
    }
    Clock::set_clock(Clock::time_point(N::base_clock::now().time_since_epoch()), 1.0);
    h::sched_end();
    int overlapping = 0, total = 0;
    uint64_t sg = 1;
    for (const auto& list : rs) {
        const Reading* last = nullptr;
        for (const auto& x : list) {
            bool ok = false, rok = false;
            for (int k = x.c0; k <= x.c1; ++k) {
                const auto& v = vs[size_t(k)];
                if (x.v >= v.lo_at(x.t0) && x.v <= v.hi_at(x.t1)) ok = true;
                if (x.rtf == v.rtf) rok = true;
            }
            total++;
            if (x.c0 != x.c1) overlapping++;
            sg = h::mix(sg, uint64_t(x.c0) * 64 + uint64_t(x.c1));
            if (!ok) {
                const auto& v = vs[size_t(x.c0)];
                h::viol("reading", "the clock read %lld ns outside of what the last change allows (%d changes under way)", (long long) (x.v < v.lo_at(x.t0) ? v.lo_at(x.t0) - x.v : x.v - v.hi_at(x.t1)), x.c1 - x.c0);
            }
            if (!rok) h::viol("rtf", "the rate read was never set");
            if (last != nullptr && last->c0 == x.c1 && x.v < last->v) h::viol("backwards", "the clock went backwards by %lld ns without being set", (long long) (last->v - x.v));
            last = &x;
        }
    }
    if (!h::controlled()) h::sig(sg);
    h::note("clock_readings", total);
    h::note("readings_during_a_change", overlapping);
    h::note("clock_changes", n_ops);
    h::sample("case %llu: %d readings, %d changes", (unsigned long long) h::case_no, total, n_ops);
}

// ---- time travel ----------------------------------------------------------------------------------------------
// One thread changes the time; what is pending is known exactly as nothing is ever due close to a change.
struct TDelay { int64_t lo, hi; std::atomic<int> got{0}; };
struct TEvery { int64_t P, lo, hi; std::atomic<int> n{0}; int expect = 0; };  // lo, hi: when tick 0 would have been
constexpr int MAX_TD = 64, MAX_TE = 4;
TDelay tds[MAX_TD];
TEvery tes[MAX_TE];
int n_td = 0, n_te = 0;
struct TD { int id; };
struct Traveller : N::Reactor {
    explicit Traveller(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        on<Trigger<TD>>().then([](const TD& m) {
            int64_t t = cn();
            TDelay& d = tds[m.id];
            h::ev(GOT, uint64_t(m.id), uint64_t(t));
            if (++d.got > 1) h::viol("repeat", "a delayed message was delivered again after time travel");
            if (t < d.lo) h::viol("early", "a delayed message was delivered %lld us early after time travel", (long long) (d.lo - t) / 1000);
        });
        for (int i = 0; i < n_te; ++i) {
            tes[i].lo = cn();
            on<Every<>>(std::chrono::duration_cast<Clock::duration>(ns(tes[i].P))).then([i] {
                int64_t t = cn();
                h::ev(RUN, uint64_t(i), uint64_t(t));
                int n = ++tes[i].n;
                // Ticks that catch up start in any order, so only their number is known
                if (t < tes[i].lo + n * tes[i].P) h::viol("early", "tick %d ran %lld us early after time travel", n, (long long) (tes[i].lo + n * tes[i].P - t) / 1000);
            });
            tes[i].hi = cn();
        }
    }
};
double t_rtf = 1.0;
// Closest that anything is to being due, on the clock
int64_t closest(int64_t t) {
    int64_t c = FAR;
    for (int i = 0; i < n_td; ++i) {
        if (tds[i].got != 0) continue;
        c = std::min(c, t < tds[i].lo ? tds[i].lo - t : t > tds[i].hi ? t - tds[i].hi : 0);
    }
    for (int i = 0; i < n_te; ++i) {
        const TEvery& e = tes[i];
        for (int k = e.expect + 1; k < e.expect + 3; ++k) {
            int64_t lo = e.lo + k * e.P, hi = e.hi + k * e.P;
            c = std::min(c, t < lo ? lo - t : t > hi ? t - hi : 0);
        }
    }
    return c;
}
bool pending_before(int64_t t) {
    for (int i = 0; i < n_td; ++i) if (tds[i].got == 0 && tds[i].lo <= t) return true;
    for (int i = 0; i < n_te; ++i) if (tes[i].lo + (tes[i].n + 1) * tes[i].P <= t) return true;
    return false;
}
void settle(int64_t wait) {
    int64_t v0 = virt();
    int64_t t  = cn();
    int64_t v1 = virt();
    int64_t c0 = t;
    nap(wait);
    int64_t v2 = virt();
    int64_t c1 = cn();
    int64_t v3 = virt();
    if (t_rtf == 0 && c1 != c0) h::viol("rate", "the clock moved by %lld ns while it was stopped", (long long) (c1 - c0));
    if (c1 - c0 < int64_t(double(v2 - v1) * t_rtf) - 2 || c1 - c0 > int64_t(double(v3 - v0) * t_rtf) + 2)
        h::viol("rate", "the clock advanced by %lld ns in %lld to %lld ns at rate %f", (long long) (c1 - c0), (long long) (v2 - v1), (long long) (v3 - v0), t_rtf);
    for (int i = 0; i < n_td; ++i) {
        if (tds[i].got == 0 && tds[i].hi <= t) h::viol("late", "a delayed message was not delivered although it was due %lld us before (%lld us ago)", (long long) (t - tds[i].hi) / 1000, (long long) wait / 1000);
    }
    for (int i = 0; i < n_te; ++i) {
        TEvery& e = tes[i];
        while (e.hi + (e.expect + 1) * e.P <= t) e.expect++;
        int n = e.n;
        if (n < e.expect) h::viol("late", "%d ticks of a period of %lld us instead of %d", n, (long long) e.P / 1000, e.expect);
        int64_t c2 = cn();
        while (e.lo + (e.expect + 1) * e.P <= c2 && e.expect < n) e.expect++;
        if (n > e.expect) h::viol("early", "%d ticks of a period of %lld us instead of %d", n, (long long) e.P / 1000, e.expect);
    }
}
void travel_script(uint64_t seed) {
    Rng r(seed);
    int64_t guard = 3 * MS + 3 * int64_t(h::sched_late_max);
    int travels = 0;
    settle(guard);
    for (int step = r.range(6, 24); step > 0; --step) {
        if (n_td < MAX_TD && r.chance(1, 2)) {
            int id    = n_td;
            TDelay& d = tds[id];
            int64_t w = int64_t(r(uint64_t(80 * MS)));
            if (r.chance(1, 6)) w = -w / 8;
            d.lo = cn() + w;
            d.hi = d.lo;
            n_td++;
            plant->emit<N::dsl::word::emit::Delay>(std::make_unique<TD>(TD{id}), tp(d.lo));
            settle(guard);
            continue;
        }
        if (r.chance(1, 3)) {
            settle(guard + int64_t(r(uint64_t(15 * MS))));
            continue;
        }
        // Nothing may be due close to now or become due without having run
        int64_t c = cn();
        int64_t g = int64_t(double(guard) * std::max(1.0, t_rtf)) + int64_t(100 * US);
        if (closest(c) < g || pending_before(c)) { settle(guard); continue; }
        static const double rates[] = {1, 1, 0, 0.5, 2, 5};
        double rtf = rates[r(6)];
        int kind   = int(r(3));
        int64_t target = c + int64_t(r(uint64_t(150 * MS))) - (kind == 1 || r.chance(1, 2) ? 50 * MS : 0);
        int64_t first_lo = FAR, first_hi = FAR;
        for (int i = 0; i < n_td; ++i) if (tds[i].got == 0) { first_lo = std::min(first_lo, tds[i].lo); first_hi = std::min(first_hi, tds[i].hi); }
        for (int i = 0; i < n_te; ++i) { first_lo = std::min(first_lo, tes[i].lo + (tes[i].n + 1) * tes[i].P); first_hi = std::min(first_hi, tes[i].hi + (tes[i].n + 1) * tes[i].P); }
        h::ev(TRAVEL_B, uint64_t(kind), uint64_t(c), uint64_t(target - c));
        int64_t v0 = virt();
        int64_t c0 = cn();
        static const N::message::TimeTravel::Action actions[] = {N::message::TimeTravel::Action::ABSOLUTE, N::message::TimeTravel::Action::RELATIVE, N::message::TimeTravel::Action::NEAREST};
        // Being put on the clock of the old rate until the change
        if (kind == 1) {
            // The shift is at least what it would be if the call ended now; widened to be safe before timers can run
            int64_t most = int64_t(double(1 * MS) * t_rtf);
            for (int i = 0; i < n_td; ++i) if (tds[i].got == 0) { tds[i].lo += target - c0 - most; tds[i].hi += target - c0; }
            for (int i = 0; i < n_te; ++i) { tes[i].lo += target - c0 - most; tes[i].hi += target - c0; }
        }
        plant->emit<N::dsl::word::emit::Inline>(std::make_unique<N::message::TimeTravel>(tp(target), rtf, actions[kind]));
        int64_t v1 = virt();
        int64_t c1 = cn();
        int64_t v2 = virt();
        if (kind == 1) {
            int64_t back = int64_t(double(1 * MS) * t_rtf) - int64_t(double(v1 - v0) * t_rtf) - 10;
            for (int i = 0; i < n_td; ++i) if (tds[i].got == 0) tds[i].lo += back;
            for (int i = 0; i < n_te; ++i) tes[i].lo += back;
        }
        h::ev(TRAVEL_E, uint64_t(kind), uint64_t(c1), uint64_t(rtf * 1000));
        int64_t lo = target, hi = target;
        if (kind == 2) { lo = std::min(target, first_lo); hi = std::min(target, first_hi); }
        hi += int64_t(std::ceil(double(v2 - v0) * rtf)) + 2;
        if (c1 < lo || c1 > hi) h::viol("target", "time travel of kind %d by %lld us ended %lld us off", kind, (long long) (target - c0) / 1000, (long long) (c1 < lo ? c1 - lo : c1 - hi) / 1000);
        if (Clock::rtf() != rtf) h::viol("rtf", "the rate is %f after time travel asked for %f", Clock::rtf(), rtf);
        t_rtf = rtf;
        travels++;
        settle(guard);
    }
    if (t_rtf == 0) {
        plant->emit<N::dsl::word::emit::Inline>(std::make_unique<N::message::TimeTravel>(Clock::now(), 1.0, N::message::TimeTravel::Action::ABSOLUTE));
        t_rtf = 1.0;
    }
    settle(guard);
    h::ctr_add(C_NEXT, travels);
}
void run_travel(Rng& rng) {
    run_seed = rng.next();
    n_td = 0;
    for (auto& d : tds) { d.got = 0; d.lo = d.hi = 0; }
    n_te = rng.range(0, 3);
    for (auto& e : tes) { e.n = 0; e.expect = 0; e.P = rng.range(8 * MS, 60 * MS); }
    shut = false; started = false; t_rtf = 1.0;
    static const uint64_t lates[] = {0, 20 * US, 200 * US};
    h::sched_fair_after = 2000;
    h::sched_late_max   = lates[rng(3)];
    uint64_t ss = rng.next();
    int64_t took = 0;
    h::sched_begin(rng, 3000);
    {
        Clock::set_clock(tp(int64_t(1000000) * 1000 * MS), 1.0);
        N::Configuration c;
        c.default_pool_concurrency = 4;
        N::PowerPlant p(c);
        plant = &p;
        p.install<N::extension::ChronoController>();
        p.install<Starter>();
        p.install<Traveller>();
        std::thread script([ss] {
            wait_started();
            travel_script(ss);
            stop_now();
        });
        p.start();
        took = virt() - int64_t(vt_stop);
        script.join();
    }
    h::sched_end();
    if (took > 20 * MS) h::viol("shutdown", "the system needed %lld ms to stop after the request", (long long) took / MS);
    int ticks = 0;
    for (int i = 0; i < n_te; ++i) ticks += tes[i].n;
    h::note("time_travels", h::ctr_get(C_NEXT));
    h::note("delayed_messages", n_td);
    h::note("ticks", ticks);
    h::sample("case %llu: %d delayed messages, %d ticks, %d time travels", (unsigned long long) h::case_no, n_td, ticks, int(h::ctr_get(C_NEXT)));
    if (dump()) {
        for (uint64_t i = 0; i < h::ev_count(); ++i) {
            const auto& e = h::ev_at(i);
            fprintf(stderr, "%3llu t%u %s %lld at %.3f ms %lld\n", (unsigned long long) i, e.thread, names[e.type], (long long) e.a, double(int64_t(e.b) - int64_t(1000000) * 1000 * MS) / MS, (long long) e.c);
        }
    }
    N::dsl::store::DataStore<TD>::set(nullptr);
    N::dsl::store::DataStore<N::dsl::operation::ChronoTask>::set(nullptr);
    plant = nullptr;
}
void run_case(Rng& rng) {
    const std::string& m = h::args.mode;
    if (m == "every") run_plant(EVERY, rng);
    else if (m == "delay") run_plant(DELAY, rng);
    else if (m == "watchdog") run_plant(WATCHDOG, rng);
    else if (m == "stop") run_plant(STOPPING, rng);
    else if (m == "clock") run_clock(rng);
    else if (m == "travel") run_travel(rng);
}
}  // namespace
void state(std::string& s) {
    char b[200];
    snprintf(b, sizeof b, " rate %f slack %lld virtual time %lld us timers %d messages %d events %d left %d", rate, (long long) slack, (long long) virt() / 1000, n_t.load(), n_d.load(), int(h::ev_count()), int(h::ctr_get(C_LEFT)));
    s += b;
}
int main(int argc, char** argv) {
    h::describe_state = state;
    return h::main_loop(argc, argv, run_case);
}
