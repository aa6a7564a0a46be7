// Descriptors, TCP and UDP. Modes: io, tcp, udp.
// Everything that must happen is waited for before the system is stopped, so that a lost event shows as a hang.
#include "dyn.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <sched.h>
#include <fcntl.h>
#include <mutex>
#include <csignal>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace dyn;
namespace {
using IO  = N::dsl::word::IO;
using TCP = N::dsl::word::TCP;
using UDP = N::dsl::word::UDP;
enum EvType : uint32_t { BIND_B = 1, BIND_E, UNB_B, UNB_E, DIS, EN, RUN_B, RUN_E, WRITE_B, WRITE_E, CLOSE_B, STOP, CONN_B, CONN_E, SEND_B, SEND_E, GOT };
const char* names[] = {"?", "BIND_B", "BIND_E", "UNB_B", "UNB_E", "DIS", "EN", "RUN_B", "RUN_E", "WRITE_B", "WRITE_E", "CLOSE_B", "STOP", "CONN_B", "CONN_E", "SEND_B", "SEND_E", "GOT"};
enum { C_LEFT = 60, C_RUNS, C_BYTES, C_CLOSES, C_AGAIN, C_WRUNS };
std::atomic<bool> shut{false};
uint64_t run_seed = 0;

void stop_now() {
    if (h::ctr_add(C_SHUT, 1) != 1) return;
    h::ev(STOP);
    shut = true;
    plant->shutdown();
}
void left(int64_t d) {
    if (h::ctr_add(C_LEFT, d) == 0) stop_now();
}
void nap_us(uint64_t us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
int count_fds() {
    int n  = 0;
    DIR* d = opendir("/proc/self/fd");
    while (d != nullptr && readdir(d) != nullptr) n++;
    if (d != nullptr) closedir(d);
    return n;
}
short ready(int fd, short events) {
    pollfd p{fd, events, 0};
    return ::poll(&p, 1, 0) > 0 ? p.revents : short(0);
}

// ---- pipes and sockets ----------------------------------------------------------------------------------------
constexpr int MAX_C = 16;
struct Chan {
    bool used = false;
    int kind = 0;             // 0 pipe, 1 socket pair
    std::atomic<int> r{-1}, w{-1};
    int total = 0, chunk = 0; // bytes that are written; most that is read at once
    bool close_listen = false;
    int writer = 0;           // 0 a thread, 1 a reaction
    int cfg = 0;              // words of the reader
    int ops = 0;              // 0 none, 1 disabled for a while, 2 rebound by itself, 3 unbound by a thread, 4 closes its descriptor when it sees the end
    int throws = 0;
    std::atomic<int> written{0}, got{0}, running{0}, wrunning{0};
    std::atomic<int> after_unbind{0};
    std::atomic<bool> closing{false}, ended{false}, unbound{false}, closed{false}, ready_flag{false};
    N::threading::ReactionHandle reader, wr;
    std::mutex m;
};
Chan chans[MAX_C];
std::atomic<int> n_chans{0};
N::Reactor* io_reactor = nullptr;
uint8_t pattern(int c, int i) { return uint8_t(c * 37 + i * 11 + (i >> 8)); }

bool make_chan(int c, Rng& r);
struct IoPlan : N::Reactor {
    explicit IoPlan(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        io_reactor = this;
        for (int i = 0; i < n_chans; ++i) bind(i);
    }
    template <typename... W>
    void put_reader(int c) {
        Chan& x = chans[c];
        h::ev(BIND_B, uint64_t(c));
        N::threading::ReactionHandle old;
        auto hd = on<IO, W...>(int(x.r), IO::READ | (x.close_listen ? IO::CLOSE : 0)).then([this, c](const IO::Event& e) { read_some(c, e); });
        { const std::lock_guard<std::mutex> lock(x.m); x.reader = hd; }
        h::ev(BIND_E, uint64_t(c));
    }
    void bind_reader(int c) {
        switch (chans[c].cfg) {
            case 0: put_reader(c); return;
            case 1: put_reader<Pool<P1>>(c); return;
            case 2: put_reader<Sync<S0>>(c); return;
            case 3: put_reader<Inline::ALWAYS>(c); return;
            case 4: put_reader<Single>(c); return;
            case 5: put_reader<MainThread, Priority::HIGH>(c); return;
            default: put_reader<Group<G2>, Pool<P2>>(c); return;
        }
    }
    void bind(int c) {
        Chan& x = chans[c];
        bind_reader(c);
        if (x.writer == 1) {
            auto hd = on<IO>(int(x.w), IO::WRITE).then([this, c](const IO::Event& e) { write_some(c, e); });
            const std::lock_guard<std::mutex> lock(x.m);
            x.wr = hd;
        }
        x.ready_flag = true;
    }
    void read_some(int c, const IO::Event& e) {
        Chan& x = chans[c];
        h::ev(RUN_B, uint64_t(c), uint64_t(e.events), uint64_t(e.fd));
        h::ctr_add(C_RUNS, 1);
        if (x.unbound && ++x.after_unbind > 1) h::viol("unbound", "a reaction ran %d times after it was unbound", int(x.after_unbind));
        if (++x.running > 1 && x.ops != 2 && x.ops != 3) h::viol("twice", "an IO reaction ran twice at the same time");
        if (x.closed) h::viol("closed", "an IO reaction ran for a descriptor that it has closed");
        else if (e.fd != x.r) h::viol("fd", "the event is for another descriptor");
        if ((e.events & ~(IO::READ | IO::CLOSE)) != 0 || e.events == 0) h::viol("events", "events %x were reported that were not asked for", unsigned(e.events));
        const bool strict = x.ops < 2 || x.ops == 4;  // nobody else reads
        bool done         = false, eof = false;
        if (!x.closed && (e.events & IO::READ) != 0) {
            const std::lock_guard<std::mutex> lock(x.m);
            if (strict && ready(x.r, POLLIN) == 0) h::viol("spurious", "a READ event was reported with nothing to read");
            uint8_t b[512];
            ssize_t n = ::read(x.r, b, size_t(std::min(x.chunk, 512)));
            if (n < 0) h::ctr_add(C_AGAIN, 1);
            if (n == 0) {
                eof = true;
                if (!x.closing) h::viol("end", "the end was read before the peer closed");
            }
            for (ssize_t i = 0; i < n; ++i) {
                if (b[i] != pattern(c, x.got)) { h::viol("data", "byte %d of a channel is wrong", int(x.got)); break; }
                x.got++;
            }
            if (n > 0) h::ctr_add(C_BYTES, n);
            done = x.got == x.total;
        }
        if ((e.events & IO::CLOSE) != 0) {
            h::ctr_add(C_CLOSES, 1);
            if (!x.closing) h::viol("close", "a CLOSE event was reported although the peer has not closed");
            // The last event: what is left has to be read now
            const std::lock_guard<std::mutex> lock(x.m);
            uint8_t b[512];
            ssize_t n;
            while (!x.closed && (n = ::read(x.r, b, sizeof b)) > 0) {
                for (ssize_t i = 0; i < n; ++i) if (b[i] != pattern(c, x.got++)) { h::viol("data", "byte %d of a channel is wrong", int(x.got) - 1); break; }
            }
            done = x.got == x.total;
            eof  = true;
        }
        h::work(h::mix(run_seed, uint64_t(x.got)));
        if (eof && !x.ended.exchange(true)) {
            if (x.got != x.total) h::viol("lost", "the end of a channel was seen after %d of %d bytes", int(x.got), x.total);
            if (x.ops == 4 && (e.events & IO::CLOSE) != 0) {
                x.closed = true;
                ::close(x.r);
                // Reconnect, probably with the same descriptor numbers
                Rng r(h::mix(run_seed, uint64_t(c) + 1000));
                if (!shut && r.chance(2, 3)) {
                    int k = n_chans++;
                    if (k < MAX_C && make_chan(k, r)) {
                        chans[k].writer = 1;
                        if (chans[k].ops != 4) chans[k].ops = 0;
                        h::ctr_add(C_LEFT, 1);
                        bind(k);
                    }
                }
            }
            left(-1);
        }
        (void) done;
        if (!eof && x.ops == 2 && h::mix(run_seed, uint64_t(x.got) * 7 + uint64_t(c)) % 3 == 0 && !shut) {
            N::threading::ReactionHandle hd;
            { const std::lock_guard<std::mutex> lock(x.m); std::swap(hd, x.reader); }
            if (hd) { hd.unbind(); bind_reader(c); }
        }
        --x.running;
        h::ev(RUN_E, uint64_t(c));
        if (x.throws != 0 && h::mix(run_seed, uint64_t(x.got) + 99) % 4 == 0) throw int(c);
    }
    void write_some(int c, const IO::Event& e) {
        Chan& x = chans[c];
        h::ctr_add(C_WRUNS, 1);
        if (++x.wrunning > 1) h::viol("twice", "an IO reaction ran twice at the same time");
        if (e.fd != x.w) h::viol("fd", "the event is for another descriptor");
        if (e.events != IO::WRITE) h::viol("events", "events %x were reported to a reaction that asked for WRITE", unsigned(e.events));
        if (x.closing) { --x.wrunning; return; }
        if (ready(x.w, POLLOUT) == 0) h::viol("spurious", "a WRITE event was reported although nothing can be written");
        if (x.written < x.total) write(c, int(h::mix(run_seed, uint64_t(x.written)) % 200) + 1);
        if (x.written == x.total) {
            N::threading::ReactionHandle hd;
            { const std::lock_guard<std::mutex> lock(x.m); std::swap(hd, x.wr); }
            if (!hd) { --x.wrunning; return; }  // still being bound: next time
            hd.unbind();
            finish(c);
        }
        --x.wrunning;
    }
    static void write(int c, int n) {
        Chan& x = chans[c];
        uint8_t b[256];
        int from = x.written;
        n        = std::min(std::min(n, 256), x.total - from);
        for (int i = 0; i < n; ++i) b[i] = pattern(c, from + i);
        h::ev(WRITE_B, uint64_t(c), uint64_t(n));
        ssize_t k = ::write(x.w, b, size_t(n));
        if (k > 0) x.written += int(k);
        h::ev(WRITE_E, uint64_t(c), uint64_t(k));
    }
    static void finish(int c) {
        Chan& x = chans[c];
        h::ev(CLOSE_B, uint64_t(c));
        x.closing = true;
        ::close(x.w);
    }
};
bool make_chan(int c, Rng& r) {
    Chan& x = chans[c];
    x.kind  = int(r(2));
    int f[2];
    if (x.kind == 0) {
        if (::pipe2(f, O_NONBLOCK) != 0) return false;
        if (r.chance(1, 2)) ::fcntl(f[1], F_SETPIPE_SZ, 4096);
    }
    else {
        if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, f) != 0) return false;
        int sz = 2304;
        if (r.chance(1, 2)) ::setsockopt(f[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    }
    x.r = f[0]; x.w = f[1];
    x.total = r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(3000, 9000) : r.range(1, 600);
    x.chunk = r.chance(1, 4) ? r.range(20, 60) : r.range(100, 512);
    x.writer = int(r(2));
    // Pipes report the end only as CLOSE
    x.close_listen = x.kind == 0 || r.chance(1, 2);
    x.cfg    = int(r(7));
    x.ops    = int(r(5));
    if (x.ops == 2 && x.cfg == 3) x.ops = 0;
#ifdef __SANITIZE_THREAD__
    if (x.ops == 4) x.ops = 0;  // tsan calls closing a descriptor while another thread polls it a race
#endif
    x.throws = r.chance(1, 6) ? 1 : 0;
    x.used   = true;
    return true;
}
void io_thread(uint64_t seed, int who, int n_who, int n_first) {
    Rng r(seed);
    int mine[MAX_C], n = 0;
    for (int c = who; c < n_first; c += n_who) mine[n++] = c;
    int made = 0;
    bool done[MAX_C] = {}, dis_done[MAX_C] = {};
    int live = n;
    while (live > 0) {
        int c   = mine[r(uint64_t(n))];
        Chan& x = chans[c];
        if (r.chance(1, 3)) nap_us(r(200));
        if (r.chance(1, 12) && made < 2 && n < MAX_C) {
            // A channel more while the system runs
            int k = n_chans++;
            if (k < MAX_C && make_chan(k, r)) {
                made++;
                h::ctr_add(C_LEFT, 1);
                static_cast<IoPlan*>(io_reactor)->bind(k);
                mine[n++] = k;
                live++;
            }
            continue;
        }
        if (done[c]) continue;
        if (x.ops == 1 && !dis_done[c] && x.written > 0 && r.chance(1, 3)) {
            N::threading::ReactionHandle hd;
            { const std::lock_guard<std::mutex> lock(x.m); hd = x.reader; }
            h::ev(DIS, uint64_t(c));
            hd.disable();
            for (int k = r.range(1, 4); k > 0; --k) {
                if (x.writer == 0) IoPlan::write(c, r.range(1, 100));
                nap_us(r(300));
                if (n_chans < MAX_C && r.chance(1, 2) && made < 3) {
                    int q = n_chans++;
                    if (q < MAX_C && make_chan(q, r)) {
                        made++;
                        h::ctr_add(C_LEFT, 1);
                        static_cast<IoPlan*>(io_reactor)->bind(q);
                        mine[n++] = q;
                        live++;
                    }
                }
            }
            h::ev(EN, uint64_t(c));
            hd.enable();
            dis_done[c] = true;
            continue;
        }
        if (x.ops == 3 && r.chance(1, 6)) {
            // Not listened to anymore
            N::threading::ReactionHandle hd;
            { const std::lock_guard<std::mutex> lock(x.m); hd = x.reader; }
            h::ev(UNB_B, uint64_t(c));
            hd.unbind();
            h::ev(UNB_E, uint64_t(c));
            x.unbound = true;
            if (!x.ended.exchange(true)) left(-1);
            if (x.writer == 0) { IoPlan::finish(c); }
            done[c] = true;
            live--;
            continue;
        }
        if (x.writer == 0) {
            IoPlan::write(c, r.range(1, 250));
            if (x.written == x.total) {
                if (r.chance(1, 2)) nap_us(r(400));
                IoPlan::finish(c);
                done[c] = true;
                live--;
            }
        }
        else if (x.ops != 1 || dis_done[c] || x.closing || x.total == 0) { done[c] = true; live--; }
        else nap_us(50);
    }
    left(-1);
}
void run_io(Rng& rng) {
    for (auto& x : chans) {
        x.used = false; x.r = x.w = -1; x.written = x.got = x.running = x.wrunning = x.after_unbind = 0;
        x.closing = x.ended = x.unbound = x.closed = x.ready_flag = false; x.reader = {}; x.wr = {};
    }
    int n_ext = rng.range(1, 3);
    int n     = rng.range(n_ext, 6);
    h::ctr_set(C_LEFT, n + n_ext);
    n_chans = 0;
    for (int c = 0; c < n; ++c) { make_chan(c, rng); n_chans++; }
    int conc = rng.range(1, 4);
    h::sched_fair_after = 500;
    h::sched_begin(rng, 4000);
    {
        N::Configuration c;
        c.default_pool_concurrency = conc;
        N::PowerPlant p(c);
        plant = &p;
        p.install<N::extension::IOController>();
        p.install<IoPlan>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_ext; ++t) {
            uint64_t s = rng.next();
            ext.emplace_back([s, t, n_ext, n] { io_thread(s, t, n_ext, n); });
        }
        p.start();
        for (auto& t : ext) t.join();
        for (auto& x : chans) { x.reader = {}; x.wr = {}; }
    }
    h::sched_end();
    int bytes = 0, k = std::min(n_chans.load(), MAX_C), closes = 0;
    for (int c = 0; c < k; ++c) {
        Chan& x = chans[c];
        bytes += x.got;
        if (x.ended && !x.unbound) closes++;
        if (!x.closed) ::close(x.r);
        if (!x.closing) ::close(x.w);
    }
    h::note("channels", k);
    h::note("bytes", bytes);
    h::note("io_reaction_runs", h::ctr_get(C_RUNS) + h::ctr_get(C_WRUNS));
    h::note("ends_seen", closes);
    h::note("reads_without_data_by_two_readers", h::ctr_get(C_AGAIN));
    uint64_t sg = 7;
    for (uint64_t i = 0; i < h::ev_count(); ++i) if (h::ev_at(i).type == RUN_B) sg = h::mix(sg, h::ev_at(i).a * 64 + h::ev_at(i).b);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d channels, %d bytes, %lld runs", (unsigned long long) h::case_no, k, bytes, (long long) h::ctr_get(C_RUNS));
    plant = nullptr;
}
#include "io_net.hpp"
void run_case(Rng& rng) {
    run_seed   = rng.next();
    shut       = false;
    int before = count_fds();
    const std::string& m = h::args.mode;
    if (m == "io") run_io(rng);
    else if (m == "tcp") run_tcp(rng);
    else if (m == "udp") run_udp(rng);
    N::dsl::store::DataStore<N::dsl::word::IOConfiguration>::set(nullptr);
    N::dsl::store::DataStore<N::dsl::word::IOFinished>::set(nullptr);
    int after = count_fds();
    // The harness itself may have something open for a moment
    for (int i = 0; i < 200 && after > before; ++i) { nap_us(10000); after = count_fds(); }
    if (after > before) h::viol("descriptors", "%d descriptors are open after the system was destroyed, %d before", after, before);
    dump_events(names, int(sizeof names / sizeof *names));
}
}  // namespace
void state(std::string& s) {
    char b[200];
    snprintf(b, sizeof b, " left %lld channels %d runs %lld of writers %lld", (long long) h::ctr_get(C_LEFT), n_chans.load(), (long long) h::ctr_get(C_RUNS), (long long) h::ctr_get(C_WRUNS));
    s += b;
    for (int c = 0; c < std::min(n_chans.load(), MAX_C) && s.size() < 900; ++c) {
        Chan& x = chans[c];
        snprintf(b, sizeof b, " [%d kind %d cfg %d ops %d writer %d written %d got %d of %d closing %d ended %d]", c, x.kind, x.cfg, x.ops, x.writer, int(x.written), int(x.got), x.total, int(x.closing), int(x.ended));
        if (!x.ended) s += b;
    }
    net_state(s);
}
int main(int argc, char** argv) {
    bool wanted = false;
    for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode") && (!strcmp(argv[i + 1], "tcp") || !strcmp(argv[i + 1], "udp"))) wanted = true;
    enter_namespace(wanted);
    ::signal(SIGPIPE, SIG_IGN);
    h::describe_state = state;
    return h::main_loop(argc, argv, run_case);
}
