#include "det.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <vector>

namespace det {

enum State { RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_RW, B_POLL, DONE };

struct Thr {
    int id      = 0;
    State state = RUN;
    void* obj   = nullptr;   // what it is blocked on
    bool timed  = false;     // B_COND / B_SLEEP with a deadline
    uint64_t deadline = 0;   // virtual ns
    bool timed_out = false;
    int64_t prio   = 0;
    std::atomic<int> baton{0};
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg          = nullptr;
    bool detached      = false;
    uint64_t streak    = 0;
    pollfd* fds        = nullptr;  // B_POLL: what it waits for
    nfds_t n_fds       = 0;
};

struct Mtx { Thr* owner = nullptr; int depth = 0; };
struct Rw { int readers = 0; Thr* writer = nullptr; };

struct Global {
    bool on = false;
    Options o;
    Result r;
    uint64_t rng = 1;
    uint64_t vtime = 0;
    uint64_t base_rt = 0, base_mono = 0;
    std::vector<Thr*> threads;   // all not-DONE threads
    std::vector<Thr*> all;
    std::map<void*, Mtx> mutexes;
    std::map<void*, Rw> rws;
    std::vector<uint64_t> change_points;
    int64_t low_prio = 0;
    int next_id = 0;
    int n_poll = 0;           // threads in B_POLL
    bool io_happened = false; // something may have become ready
};
static Global* G = nullptr;
static __thread Thr* self = nullptr;
static bool g_on = false;

void (*on_deadlock)(const std::string&) = nullptr;
void (*on_livelock)(const std::string&) = nullptr;

static uint64_t rnd() {
    uint64_t z = (G->rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void fwait(std::atomic<int>& w) {
    while (w.load(std::memory_order_acquire) == 0) {
        syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    w.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>& w) {
    w.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&w), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static std::string describe() {
    static const char* names[] = {"runnable", "mutex", "cond", "join", "sleep", "rwlock", "poll", "done"};
    std::string s;
    char b[160];
    for (auto* t : G->threads) {
        snprintf(b, sizeof b, "[thread %d %s%s]", t->id, names[t->state], t->timed ? " timed" : "");
        s += b;
    }
    snprintf(b, sizeof b, " after %llu steps, strategy %d, thread %d running", (unsigned long long) G->r.steps, G->o.strategy, self != nullptr ? self->id : -1);
    return s + b;
}

static bool runnable(Thr* t) { return t->state == RUN; }
static bool waits_for_time(Thr* t) { return t->timed && (t->state == B_COND || t->state == B_SLEEP || t->state == B_POLL); }
static int real_poll(pollfd* fds, nfds_t n, int timeout) {
    struct timespec ts{timeout / 1000, (timeout % 1000) * 1000000l};
    return int(syscall(SYS_ppoll, fds, n, &ts, nullptr, 0));
}
// Make those runnable whose descriptors are ready
static bool check_polls(int timeout) {
    G->io_happened = false;
    bool any = false;
    std::vector<pollfd> v;
    if (timeout > 0) {
        for (auto* t : G->threads) if (t->state == B_POLL) v.insert(v.end(), t->fds, t->fds + t->n_fds);
        real_poll(v.data(), v.size(), timeout);
    }
    for (auto* t : G->threads) {
        if (t->state != B_POLL) continue;
        v.assign(t->fds, t->fds + t->n_fds);
        if (real_poll(v.data(), v.size(), 0) != 0) { t->state = RUN; t->timed = false; t->timed_out = false; any = true; }
    }
    return any;
}

// Choose a thread to run. Returns nullptr when nothing can ever run.
static Thr* choose(bool must_leave_self_if_possible) {
    static std::vector<Thr*> c;
    while (true) {
        c.clear();
        for (auto* t : G->threads) {
            if (runnable(t) && !(must_leave_self_if_possible && t == self)) c.push_back(t);
        }
        if (c.empty() && must_leave_self_if_possible && self != nullptr && runnable(self)) return self;
        if (!c.empty()) break;
        if (G->n_poll > 0 && check_polls(0)) continue;
        // Advance virtual time to the earliest deadline
        Thr* best = nullptr;
        for (auto* t : G->threads) {
            if (waits_for_time(t)) {
                if (best == nullptr || t->deadline < best->deadline) best = t;
            }
        }
        if (best == nullptr) {
            // The kernel may still be working on what was sent
            if (G->n_poll > 0 && check_polls(1500)) continue;
            return nullptr;
        }
        G->vtime = std::max(G->vtime, best->deadline);
        best->timed_out = true;
        best->timed     = false;
        best->state     = RUN;
        best->obj       = nullptr;
    }
    if (G->o.strategy == 1) {
        Thr* best = c[0];
        for (auto* t : c) if (t->prio > best->prio) best = t;
        return best;
    }
    return c[rnd() % c.size()];
}

static void switch_to(Thr* next) {
    if (next == self) return;
    G->r.switches++;
    G->r.hash = (G->r.hash ^ (uint64_t(next->id) + (G->r.steps << 8))) * 1099511628211ull;
    Thr* me = self;
    if (G->o.strategy != 1) me->streak = 0;
    fwake(next->baton);
    fwait(me->baton);
}

static void dead() {
    std::string d = describe();
    g_on = false;
    if (on_deadlock) on_deadlock(d);
    fprintf(stderr, "det: deadlock %s\n", d.c_str());
    _exit(77);
}

// The current thread has become blocked: run somebody else until we are runnable again
static void block() {
    Thr* next = choose(false);
    if (next == nullptr) dead();
    if (next != self) switch_to(next);
}

static void sp(bool yielding) {
    if (!g_on || self == nullptr) return;
    G->r.steps++;
    G->vtime += 20;
    if (G->r.steps > G->o.max_steps) {
        std::string d = describe();
        g_on = false;
        if (on_livelock) on_livelock(d);
        fprintf(stderr, "det: livelock %s\n", d.c_str());
        _exit(78);
    }
    if (G->o.spurious_inv != 0 && rnd() % G->o.spurious_inv == 0) {
        // Spurious wakeup of some condition waiter
        std::vector<Thr*> w;
        for (auto* t : G->threads) if (t->state == B_COND) w.push_back(t);
        if (!w.empty()) {
            Thr* t = w[rnd() % w.size()];
            t->state = RUN; t->obj = nullptr; t->timed = false;
        }
    }
    if (G->io_happened && G->n_poll > 0) check_polls(0);
    // Expired timers become runnable
    for (auto* t : G->threads) {
        if (waits_for_time(t) && t->deadline <= G->vtime) {
            t->timed_out = true; t->timed = false; t->state = RUN; t->obj = nullptr;
        }
    }
    bool fair = ++self->streak > G->o.fair_after;
    if (G->o.strategy == 1) {
        for (auto& cp : G->change_points) {
            if (cp == G->r.steps) self->prio = --G->low_prio;
        }
        if (yielding || fair) { self->prio = --G->low_prio; self->streak = 0; }
        switch_to(choose(false));
    }
    else {
        if (yielding || fair) { switch_to(choose(true)); self->streak = 0; }
        else if (rnd() % G->o.switch_inv == 0) switch_to(choose(false));
    }
}

bool available() { return true; }
bool active() { return g_on && self != nullptr; }
void point() { sp(true); }

static Thr* new_thread() {
    auto* t = new Thr();
    t->id   = G->next_id++;
    t->prio = int64_t(rnd() >> 16);
    G->threads.push_back(t);
    G->all.push_back(t);
    return t;
}

void begin(const Options& o) {
    G        = new Global();
    G->o     = o;
    G->rng   = o.seed * 0x2545F4914F6CDD1Dull + 12345;
    for (int i = 0; i < o.pct_depth; ++i) G->change_points.push_back(1 + rnd() % std::max<uint64_t>(1, o.pct_len));
    self     = new_thread();
    self->real = pthread_self();
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    G->base_rt = uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    G->base_mono = uint64_t(ts.tv_sec) * 1000000000ull + ts.tv_nsec;
    G->on    = true;
    g_on     = true;
}
uint64_t vtime() { return G != nullptr ? G->vtime : 0; }

Result end() {
    // Only the main thread should remain
    g_on = false;
    Result r = G->r;
    for (auto* t : G->all) delete t;
    delete G;
    G    = nullptr;
    self = nullptr;
    return r;
}

}  // namespace det

using namespace det;

#define REAL(ret, name, ...)                                                         \
    static ret (*real_##name)(__VA_ARGS__) = nullptr;                                \
    if (real_##name == nullptr) real_##name = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, #name))

static bool ctl() { return g_on && self != nullptr; }

static void* trampoline(void* p) {
    Thr* t = static_cast<Thr*>(p);
    self   = t;
    fwait(t->baton);
    void* r = t->fn(t->arg);
    // finish
    t->state = DONE;
    for (auto* o : G->threads) {
        if (o->state == B_JOIN && o->obj == t) { o->state = RUN; o->obj = nullptr; }
    }
    G->threads.erase(std::find(G->threads.begin(), G->threads.end(), t));
    Thr* next = choose(false);
    if (next == nullptr) dead();
    self = nullptr;
    G->r.switches++;
    fwake(next->baton);
    return r;
}

static bool mtx_lock(void* m, bool recursive) {
    auto& x = G->mutexes[m];
    if (x.owner == self) {
        if (recursive) { x.depth++; return true; }
        // self deadlock: will never be runnable
    }
    while (true) {
        auto& y = G->mutexes[m];
        if (y.owner == nullptr) { y.owner = self; y.depth = 1; return true; }
        self->state = B_MUTEX;
        self->obj   = m;
        block();
    }
}
static void mtx_unlock(void* m) {
    auto it = G->mutexes.find(m);
    if (it == G->mutexes.end() || it->second.owner != self) return;
    if (--it->second.depth > 0) return;
    G->mutexes.erase(it);
    for (auto* t : G->threads) {
        if (t->state == B_MUTEX && t->obj == m) { t->state = RUN; t->obj = nullptr; }
    }
}

static uint64_t ns_of(const struct timespec* ts) { return uint64_t(ts->tv_sec) * 1000000000ull + ts->tv_nsec; }
// Clocks of controlled runs: the value when the run began plus virtual time
static uint64_t now_on(clockid_t c) {
    const bool rt = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
    return (rt ? G->base_rt : G->base_mono) + G->vtime;
}
static uint64_t lateness() { return G->o.late_max != 0 && rnd() % 3 == 0 ? rnd() % G->o.late_max : 0; }

extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*) (void*), void*);
    if (!ctl()) return real_pthread_create(t, a, fn, arg);
    Thr* n = new_thread();
    n->fn  = fn;
    n->arg = arg;
    int rc = real_pthread_create(&n->real, a, trampoline, n);
    *t     = n->real;
    sp(false);
    return rc;
}

int pthread_join(pthread_t t, void** ret) {
    REAL(int, pthread_join, pthread_t, void**);
    if (!ctl()) return real_pthread_join(t, ret);
    sp(false);
    Thr* target = nullptr;
    for (auto* o : G->all) if (pthread_equal(o->real, t)) target = o;
    while (target != nullptr && target->state != DONE) {
        self->state = B_JOIN;
        self->obj   = target;
        block();
    }
    if (target != nullptr) target->real = pthread_t{};
    return real_pthread_join(t, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t*);
    if (!ctl()) return real_pthread_mutex_lock(m);
    sp(false);
    mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (!ctl()) return real_pthread_mutex_trylock(m);
    sp(false);
    auto& x = G->mutexes[m];
    if (x.owner == nullptr) { x.owner = self; x.depth = 1; return 0; }
    if (x.owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; }
    return EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
    if (!ctl()) return real_pthread_mutex_unlock(m);
    mtx_unlock(m);
    sp(false);
    return 0;
}

static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t delta) {
    mtx_unlock(m);
    self->state     = B_COND;
    self->obj       = c;
    self->timed     = timed;
    self->timed_out = false;
    self->deadline  = G->vtime + delta + (timed ? lateness() : 0);
    block();
    bool to         = self->timed_out;
    self->timed     = false;
    self->timed_out = false;
    mtx_lock(m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
    if (!ctl()) return real_pthread_cond_wait(c, m);
    sp(false);
    return cond_wait_impl(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    if (!ctl()) return real_pthread_cond_timedwait(c, m, ts);
    sp(false);
    uint64_t n = now_on(CLOCK_REALTIME), d = ns_of(ts);
    return cond_wait_impl(c, m, true, d > n ? d - n : 0);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
    REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    if (!ctl()) return real_pthread_cond_clockwait(c, m, ck, ts);
    sp(false);
    uint64_t n = now_on(ck), d = ns_of(ts);
    return cond_wait_impl(c, m, true, d > n ? d - n : 0);
}
int pthread_cond_signal(pthread_cond_t* c) {
    REAL(int, pthread_cond_signal, pthread_cond_t*);
    if (!ctl()) return real_pthread_cond_signal(c);
    std::vector<Thr*> w;
    for (auto* t : G->threads) if (t->state == B_COND && t->obj == c) w.push_back(t);
    if (!w.empty()) {
        Thr* t = w[rnd() % w.size()];
        t->state = RUN; t->obj = nullptr; t->timed = false;
    }
    sp(false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    REAL(int, pthread_cond_broadcast, pthread_cond_t*);
    if (!ctl()) return real_pthread_cond_broadcast(c);
    for (auto* t : G->threads) {
        if (t->state == B_COND && t->obj == c) { t->state = RUN; t->obj = nullptr; t->timed = false; }
    }
    sp(false);
    return 0;
}

static void rw_wake(void* m) {
    for (auto* t : G->threads) if (t->state == B_RW && t->obj == m) { t->state = RUN; t->obj = nullptr; }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
    if (!ctl()) return real_pthread_rwlock_rdlock(m);
    sp(false);
    while (G->rws[m].writer != nullptr) { self->state = B_RW; self->obj = m; block(); }
    G->rws[m].readers++;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
    if (!ctl()) return real_pthread_rwlock_wrlock(m);
    sp(false);
    while (G->rws[m].writer != nullptr || G->rws[m].readers > 0) { self->state = B_RW; self->obj = m; block(); }
    G->rws[m].writer = self;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
    if (!ctl()) return real_pthread_rwlock_tryrdlock(m);
    sp(false);
    if (G->rws[m].writer != nullptr) return EBUSY;
    G->rws[m].readers++;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
    if (!ctl()) return real_pthread_rwlock_trywrlock(m);
    sp(false);
    if (G->rws[m].writer != nullptr || G->rws[m].readers > 0) return EBUSY;
    G->rws[m].writer = self;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (!ctl()) return real_pthread_rwlock_unlock(m);
    auto& r = G->rws[m];
    if (r.writer == self) r.writer = nullptr;
    else if (r.readers > 0) r.readers--;
    rw_wake(m);
    sp(false);
    return 0;
}

int sched_yield(void) {
    REAL(int, sched_yield, void);
    if (!ctl()) return real_sched_yield();
    sp(true);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    REAL(int, clock_gettime, clockid_t, struct timespec*);
    switch (c) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_COARSE:
        case CLOCK_MONOTONIC_RAW: case CLOCK_BOOTTIME: break;
        default: return real_clock_gettime(c, ts);
    }
    if (!ctl()) return real_clock_gettime(c, ts);
    sp(false);
    G->vtime += G->o.clock_cost;
    uint64_t n  = now_on(c);
    ts->tv_sec  = time_t(n / 1000000000ull);
    ts->tv_nsec = long(n % 1000000000ull);
    return 0;
}
static int vsleep(uint64_t ns) {
    self->state    = B_SLEEP;
    self->obj      = nullptr;
    self->timed    = true;
    self->deadline = G->vtime + ns + lateness();
    block();
    self->timed     = false;
    self->timed_out = false;
    return 0;
}
int nanosleep(const struct timespec* rq, struct timespec* rm) {
    REAL(int, nanosleep, const struct timespec*, struct timespec*);
    if (!ctl()) return real_nanosleep(rq, rm);
    sp(false);
    return vsleep(ns_of(rq));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* rq, struct timespec* rm) {
    REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*);
    if (!ctl()) return real_clock_nanosleep(c, flags, rq, rm);
    sp(false);
    uint64_t d = ns_of(rq);
    if (flags & TIMER_ABSTIME) { uint64_t n = now_on(c); d = d > n ? d - n : 0; }
    return vsleep(d);
}

// ---- descriptors: anything that may make one ready lets waiting polls be looked at again ----------------------
static void wait_fds(pollfd* fds, nfds_t n, bool timed, uint64_t ns) {
    self->state     = B_POLL;
    self->obj       = nullptr;
    self->fds       = fds;
    self->n_fds     = n;
    self->timed     = timed;
    self->timed_out = false;
    self->deadline  = G->vtime + ns + (timed ? lateness() : 0);
    G->n_poll++;
    block();
    G->n_poll--;
    self->timed = false;
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
    REAL(int, poll, struct pollfd*, nfds_t, int);
    if (!ctl()) return real_poll(fds, n, timeout);
    sp(false);
    uint64_t end = G->vtime + uint64_t(timeout > 0 ? timeout : 0) * 1000000ull;
    while (true) {
        int r = det::real_poll(fds, n, 0);
        if (r != 0 || timeout == 0) { int e = errno; sp(false); errno = e; return r; }
        if (timeout > 0 && G->vtime >= end) return 0;
        wait_fds(fds, n, timeout > 0, timeout > 0 ? end - G->vtime : 0);
    }
}
static void before_io(int fd, short events, int flags) {
    sp(false);
    if (events == 0) return;
    while (true) {
        if ((flags & MSG_DONTWAIT) != 0) return;
        int f = fcntl(fd, F_GETFL);
        if (f < 0 || (f & O_NONBLOCK) != 0) return;
        pollfd p{fd, events, 0};
        if (det::real_poll(&p, 1, 0) != 0) return;
        wait_fds(&p, 1, false, 0);
    }
}
#define IO(ret, name, fd, events, flags, params, args)                  \
    ret name params {                                                   \
        static ret(*real) params = nullptr;                             \
        if (real == nullptr) *reinterpret_cast<void**>(&real) = dlsym(RTLD_NEXT, #name); \
        if (!ctl()) return real args;                                   \
        before_io(fd, events, flags);                                   \
        ret r = real args;                                              \
        int e = errno;                                                  \
        if (g_on) { G->io_happened = true; sp(false); }                 \
        errno = e;                                                      \
        return r;                                                       \
    }
IO(ssize_t, read, fd, POLLIN, 0, (int fd, void* b, size_t n), (fd, b, n))
IO(ssize_t, write, fd, 0, 0, (int fd, const void* b, size_t n), (fd, b, n))
IO(ssize_t, recv, fd, POLLIN, f, (int fd, void* b, size_t n, int f), (fd, b, n, f))
IO(ssize_t, recvfrom, fd, POLLIN, f, (int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l), (fd, b, n, f, a, l))
IO(ssize_t, recvmsg, fd, POLLIN, f, (int fd, struct msghdr* m, int f), (fd, m, f))
IO(ssize_t, send, fd, 0, f, (int fd, const void* b, size_t n, int f), (fd, b, n, f))
IO(ssize_t, sendto, fd, 0, f, (int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l), (fd, b, n, f, a, l))
IO(ssize_t, sendmsg, fd, 0, f, (int fd, const struct msghdr* m, int f), (fd, m, f))
IO(int, accept, fd, POLLIN, 0, (int fd, struct sockaddr* a, socklen_t* l), (fd, a, l))
IO(int, connect, fd, 0, 0, (int fd, const struct sockaddr* a, socklen_t l), (fd, a, l))
IO(int, shutdown, fd, 0, 0, (int fd, int how), (fd, how))
IO(int, close, fd, 0, 0, (int fd), (fd))

// Static initialisation guards: never block in the OS
int __cxa_guard_acquire(long long int* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    while (true) {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
        uint8_t exp = 0;
        if (__atomic_compare_exchange_n(&b[1], &exp, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
            if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) { __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE); return 0; }
            return 1;
        }
        sched_yield();
    }
}
void __cxa_guard_release(long long int* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE);
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long int* g) {
    auto* b = reinterpret_cast<volatile uint8_t*>(g);
    __atomic_store_n(&b[1], 0, __ATOMIC_RELEASE);
}

// ---- ThreadSanitizer ABI -------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define NOP1(n) void n(void*) {}
NOP1(__tsan_read1) NOP1(__tsan_read2) NOP1(__tsan_read4) NOP1(__tsan_read8) NOP1(__tsan_read16)
NOP1(__tsan_write1) NOP1(__tsan_write2) NOP1(__tsan_write4) NOP1(__tsan_write8) NOP1(__tsan_write16)
NOP1(__tsan_unaligned_read2) NOP1(__tsan_unaligned_read4) NOP1(__tsan_unaligned_read8) NOP1(__tsan_unaligned_read16)
NOP1(__tsan_unaligned_write2) NOP1(__tsan_unaligned_write4) NOP1(__tsan_unaligned_write8) NOP1(__tsan_unaligned_write16)
NOP1(__tsan_volatile_read1) NOP1(__tsan_volatile_read2) NOP1(__tsan_volatile_read4) NOP1(__tsan_volatile_read8) NOP1(__tsan_volatile_read16)
NOP1(__tsan_volatile_write1) NOP1(__tsan_volatile_write2) NOP1(__tsan_volatile_write4) NOP1(__tsan_volatile_write8) NOP1(__tsan_volatile_write16)
NOP1(__tsan_vptr_read)
void __tsan_vptr_update(void**, void*) {}
void __tsan_read_range(void*, unsigned long) {}
void __tsan_write_range(void*, unsigned long) {}
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define SC __ATOMIC_SEQ_CST
#define ATOMICS(B, T)                                                                                            \
    T __tsan_atomic##B##_load(const volatile T* a, int) { sp(false); return __atomic_load_n(a, SC); }            \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { sp(false); __atomic_store_n(a, v, SC); }            \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sp(false); return __atomic_exchange_n(a, v, SC); }  \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sp(false); return __atomic_fetch_add(a, v, SC); }  \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sp(false); return __atomic_fetch_sub(a, v, SC); }  \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sp(false); return __atomic_fetch_and(a, v, SC); }  \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sp(false); return __atomic_fetch_or(a, v, SC); }    \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { sp(false); return __atomic_fetch_xor(a, v, SC); }  \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { sp(false); return __atomic_fetch_nand(a, v, SC); }\
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                         \
        sp(false); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); }                                 \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) {                           \
        sp(false);                                                                                               \
        if (ctl() && rnd() % 64 == 0) { *c = __atomic_load_n(a, SC); return 0; } /* spurious failure */          \
        return __atomic_compare_exchange_n(a, c, v, false, SC, SC); }                                            \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) {                               \
        sp(false); __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
}
