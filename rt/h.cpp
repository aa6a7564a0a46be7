#include "h.hpp"

#include <sys/personality.h>
#include <sys/wait.h>
#include <cerrno>
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include "det.hpp"

// Never let the code under test change real scheduling policy: a realtime thread could starve the machine
extern "C" int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }

namespace h {

Args args;
uint64_t case_no = 0;
void (*describe_state)(std::string& out) = nullptr;
const char* hang_kind = "hang";

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static const uint64_t EV_CAP = 1u << 21;
static Ev* evs               = nullptr;
static uint64_t ev_n         = 0;
static uint32_t thread_n     = 0;
static uint64_t thread_epoch = 1;
static __thread uint32_t my_no       = 0;
static __thread uint64_t my_epoch    = 0;
static __thread uint64_t my_rng      = 0;
static int64_t ctrs[N_COUNTERS];
static uint64_t uid_n = 1;
static uint64_t prog  = 0;
static FILE* out      = nullptr;
static int n_viol = 0, n_viol_case = 0;
static volatile int out_lock = 0;

static void lock_out() { while (__atomic_exchange_n(&out_lock, 1, __ATOMIC_ACQUIRE)) { usleep(50); } }
static void unlock_out() { __atomic_store_n(&out_lock, 0, __ATOMIC_RELEASE); }

void ev_reset() {
    if (evs == nullptr) evs = static_cast<Ev*>(calloc(EV_CAP, sizeof(Ev)));
    __atomic_store_n(&ev_n, 0, __ATOMIC_SEQ_CST);
    thread_n = 0;
    __atomic_add_fetch(&thread_epoch, 1, __ATOMIC_SEQ_CST);
    memset(ctrs, 0, sizeof ctrs);
}
uint32_t thread_no() {
    uint64_t e = __atomic_load_n(&thread_epoch, __ATOMIC_RELAXED);
    if (my_epoch != e) {
        my_epoch = e;
        my_no    = __atomic_fetch_add(&thread_n, 1, __ATOMIC_RELAXED);
    }
    return my_no;
}
uint64_t ev(uint32_t type, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t i = __atomic_fetch_add(&ev_n, 1, __ATOMIC_SEQ_CST);
    if (i >= EV_CAP) {
        fprintf(stderr, "event log overflow\n");
        _exit(87);
    }
    evs[i].thread = thread_no();
    evs[i].a = a; evs[i].b = b; evs[i].c = c;
    __atomic_store_n(&evs[i].type, type, __ATOMIC_RELEASE);
    __atomic_add_fetch(&prog, 1, __ATOMIC_RELAXED);
    return i;
}
uint64_t ev_count() { return __atomic_load_n(&ev_n, __ATOMIC_SEQ_CST); }
const Ev& ev_at(uint64_t i) { return evs[i]; }
uint64_t now_ns() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return uint64_t(ts.tv_sec) * 1000000000ull + uint64_t(ts.tv_nsec);
}
int64_t ctr_add(int i, int64_t d) { return __atomic_add_fetch(&ctrs[i], d, __ATOMIC_SEQ_CST); }
int64_t ctr_get(int i) { return __atomic_load_n(&ctrs[i], __ATOMIC_SEQ_CST); }
void ctr_set(int i, int64_t v) { __atomic_store_n(&ctrs[i], v, __ATOMIC_SEQ_CST); }
uint64_t uid() { return __atomic_fetch_add(&uid_n, 1, __ATOMIC_SEQ_CST); }
void progress() { __atomic_add_fetch(&prog, 1, __ATOMIC_RELAXED); }

void work(uint64_t r) {
    if (det::active()) {
        for (uint64_t i = 0; i < (r & 7); ++i) det::point();
        return;
    }
    switch (r % 8) {
        case 0: case 1: case 2: break;
        case 3: case 4: sched_yield(); break;
        case 5: { volatile uint64_t x = 0; for (uint64_t i = 0; i < (r >> 8) % 4000; ++i) x = x + i; } break;
        case 6: usleep((r >> 8) % 60); break;
        case 7: usleep((r >> 8) % 300); break;
    }
}

// ---- named counters -------------------------------------------------------------------------------------------
struct Named { char key[48]; int64_t v; bool max; };
static Named named[256];
static int named_n = 0;
static volatile int named_lock = 0;
static void bump(const char* key, int64_t v, bool max) {
    while (__atomic_exchange_n(&named_lock, 1, __ATOMIC_ACQUIRE)) {}
    int i = 0;
    while (i < named_n && strcmp(named[i].key, key) != 0) ++i;
    if (i == named_n && named_n < 256) {
        snprintf(named[i].key, sizeof named[i].key, "%s", key);
        named[i].v = 0; named[i].max = max; named_n++;
    }
    if (i < 256) { if (max) { if (v > named[i].v) named[i].v = v; } else named[i].v += v; }
    __atomic_store_n(&named_lock, 0, __ATOMIC_RELEASE);
}
void note(const char* key, int64_t add) { bump(key, add, false); }
void note_max(const char* key, int64_t v) { bump(key, v, true); }

static void clean(char* b) { for (; *b; ++b) if (*b == '\n' || *b == '\r') *b = ' '; }

void viol(const char* kind, const char* fmt, ...) {
    char b[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    clean(b);
    lock_out();
    n_viol++;
    if (n_viol_case++ < 5) {
        fprintf(out ? out : stderr, "VIOL %llu %s %s\n", (unsigned long long) case_no, kind, b);
        fflush(out ? out : stderr);
        if (args.verbose) fprintf(stderr, "VIOL case %llu %s %s\n", (unsigned long long) case_no, kind, b);
    }
    unlock_out();
}
void sig(uint64_t s) {
    lock_out();
    fprintf(out ? out : stderr, "SIG %016llx\n", (unsigned long long) s);
    unlock_out();
}
static int n_samples = 0;
void sample(const char* fmt, ...) {
    if (n_samples >= 3) return;
    n_samples++;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    clean(b);
    lock_out();
    fprintf(out ? out : stderr, "SAMPLE %s\n", b);
    unlock_out();
}
bool failed() { return n_viol_case > 0; }

static void flush_stats() {
    for (int i = 0; i < named_n; ++i)
        fprintf(out, "STAT %s %s %lld\n", named[i].key, named[i].max ? "max" : "sum", (long long) named[i].v);
    fflush(out);
}

static void hang(const std::string& how) {
    std::string s = how;
    if (describe_state) describe_state(s);
    lock_out();
    for (auto& c : s) if (c == '\n') c = ' ';
    fprintf(out, "VIOL %llu %s %.1800s\n", (unsigned long long) case_no, hang_kind, s.c_str());
    flush_stats();
    unlock_out();
    if (args.verbose) fprintf(stderr, "HANG case %llu %s\n", (unsigned long long) case_no, s.c_str());
    const char* ab = getenv("VERIF_ABORT_ON_HANG");
    if (ab) { signal(SIGABRT, SIG_DFL); abort(); }
    _exit(86);
}

// ---- hang watch -----------------------------------------------------------------------------------------------
static pid_t watch_tid = 0;
static uint64_t case_start = 0;
static volatile int in_case = 0;

// Returns true if every other thread is asleep; accumulates cpu ticks + context switches into *cpu
static bool all_asleep(uint64_t* cpu, std::string* desc) {
    DIR* d = opendir("/proc/self/task");
    if (!d) return false;
    bool asleep = true;
    struct dirent* e;
    while ((e = readdir(d))) {
        int tid = atoi(e->d_name);
        if (tid <= 0 || tid == watch_tid) continue;
        char p[64], b[512];
        snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
        FILE* f = fopen(p, "r");
        if (!f) { asleep = false; continue; }
        size_t n = fread(b, 1, sizeof b - 1, f);
        fclose(f);
        b[n]    = 0;
        char* q = strrchr(b, ')');
        if (!q) continue;
        char st = q[2];
        unsigned long long ut = 0, stt = 0;
        sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &ut, &stt);
        *cpu += ut + stt;
        if (st != 'S' && st != 'D' && st != 'Z') asleep = false;
        snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
        f = fopen(p, "r");
        if (f) {
            while (fgets(b, sizeof b, f)) {
                unsigned long long v;
                if (sscanf(b, "voluntary_ctxt_switches: %llu", &v) == 1) *cpu += v * 1000003ull;
            }
            fclose(f);
        }
        if (desc) { char t[64]; snprintf(t, sizeof t, "[tid %d %c]", tid, st); *desc += t; }
    }
    closedir(d);
    return asleep;
}

static void* watch(void*) {
    watch_tid = pid_t(syscall(SYS_gettid));
    uint64_t last_prog = 0, last_cpu = 0, last_case = ~0ull;
    int quiet = 0;
    while (true) {
        usleep(250000);
        if (!in_case) { quiet = 0; continue; }
        uint64_t p = __atomic_load_n(&prog, __ATOMIC_RELAXED), cpu = 0;
        bool asleep = all_asleep(&cpu, nullptr);
        if (args.quiesce && asleep && p == last_prog && cpu == last_cpu && case_no == last_case) quiet++;
        else quiet = 0;
        last_prog = p; last_cpu = cpu; last_case = case_no;
        if (quiet >= args.hang_secs * 4) {
            std::string s = "every thread asleep with work outstanding: ";
            all_asleep(&cpu, &s);
            hang(s);
        }
        if (now_ns() - case_start > uint64_t(args.case_secs) * 1000000000ull) {
            std::string s = "time limit ";
            if (describe_state) describe_state(s);
            lock_out();
            for (auto& c : s) if (c == '\n') c = ' ';
            fprintf(out, "TIMEOUT %llu %.1800s\n", (unsigned long long) case_no, s.c_str());
            flush_stats();
            unlock_out();
            _exit(88);
        }
    }
    return nullptr;
}

static void on_alarm(int) {
    static const char m[] = "det: stalled in the operating system\n";
    (void) !write(2, m, sizeof m - 1);
    _exit(88);
}

bool controlled() { return det::available(); }

static uint64_t det_steps = 0;
uint64_t sched_late_max = 0, sched_fair_after = 0;
void sched_begin(Rng& rng, uint64_t len) {
    if (!det::available()) return;
    det::Options o;
    o.seed = rng.next();
    static const unsigned inv[] = {1, 2, 3, 5, 8, 16, 40, 100};
    o.switch_inv = inv[rng(8)];
    o.strategy   = rng.chance(2, 5) ? 1 : 0;
    o.pct_depth  = rng.range(0, 6);
    o.pct_len    = len;
    o.spurious_inv = rng.chance(1, 4) ? 200 : 0;
    o.late_max = sched_late_max;
    if (sched_fair_after != 0) o.fair_after = sched_fair_after;
    if (args.thorough) o.pct_depth = rng.range(0, 9);
    det::on_deadlock = [](const std::string& d) { hang("controlled scheduler: no thread can run: " + d); };
    det::on_livelock = [](const std::string& d) {
        std::string s = "step limit: " + d;
        if (describe_state) describe_state(s);
        for (auto& c : s) if (c == '\n') c = ' ';
        fprintf(out, "VIOL %llu livelock %.1800s\n", (unsigned long long) case_no, s.c_str());
        flush_stats();
        _exit(86);
    };
    det::begin(o);
}
void sched_end() {
    if (!det::available()) return;
    auto r = det::end();
    det_steps += r.steps;
    note("schedule_steps", int64_t(r.steps));
    note("schedule_switches", int64_t(r.switches));
    note_max("longest_schedule", int64_t(r.steps));
    sig(r.hash);
}

int main_loop(int argc, char** argv, void (*run_case)(Rng& rng)) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--mode") args.mode = val();
        else if (a == "--seed") args.seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--first") args.first = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--count") args.count = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--out") args.out = val();
        else if (a == "--thorough") args.thorough = true;
        else if (a == "--verbose") args.verbose = true;
        else if (a == "--extra") args.extra = val();
        else if (a == "--nofork") args.fork = false;
    }
    if (det::available() && !getenv("VERIF_NOASLR")) {
        // Same addresses in every run: ordering by pointer is part of the schedule
        setenv("VERIF_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    out = args.out.empty() ? stdout : fopen(args.out.c_str(), "w");
    if (!out) { perror("out"); return 2; }
    setvbuf(out, nullptr, _IOLBF, 1 << 16);
    if (det::available()) {
        signal(SIGALRM, on_alarm);
    }
    else {
        pthread_t t;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
        pthread_create(&t, &at, watch, nullptr);
    }
    uint64_t mh = 0;
    for (char c : args.mode) mh = mix(mh, uint64_t(c));
    for (uint64_t k = args.first; k < args.first + args.count; ++k) {
        lock_out();
        case_no     = k;
        n_viol_case = 0;
        uid_n       = 1;
        fprintf(out, "CASE %llu\n", (unsigned long long) k);
        fflush(out);
        unlock_out();
        // Under the controlled scheduler every case starts from the same process state so that it can be replayed alone
        const bool forked = det::available() && args.fork;
        if (forked) {
            pid_t c = fork();
            if (c < 0) { perror("fork"); return 2; }
            if (c > 0) {
                int st = 0;
                while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
                if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(99); }
                if (WEXITSTATUS(st) > 1) _exit(WEXITSTATUS(st));
                n_samples++;
                if (WEXITSTATUS(st) == 1 && ++n_viol > 20) break;
                continue;
            }
        }
        ev_reset();
        case_start = now_ns();
        __atomic_store_n(&in_case, 1, __ATOMIC_SEQ_CST);
        if (det::available()) alarm(unsigned(args.case_secs));
        Rng rng(mix(mix(args.seed, mh), k));
        run_case(rng);
        __atomic_store_n(&in_case, 0, __ATOMIC_SEQ_CST);
        note("cases");
        lock_out();
        fprintf(out, "END %llu\n", (unsigned long long) k);
        unlock_out();
        if (forked) {
            flush_stats();
            _exit(n_viol_case > 0 ? 1 : 0);
        }
        if (n_viol > 20) break;
    }
    lock_out();
    flush_stats();
    fprintf(out, "DONE\n");
    fflush(out);
    unlock_out();
    // Skip static destruction order problems of the harness; sanitizers still report through their own hooks
    return n_viol > 0 ? 1 : 0;
}

}  // namespace h
