// STANDALONE: only headers of the repository
// The two task queues under concurrent producers and consumers.
// Modes: mpmc, mpsc (histories), mem-mpmc, mem-mpsc (memory kept by the queue).
#include "nuc.hpp"
#include "threading/scheduler/queue/MPSCQueue.hpp"
#include "threading/scheduler/queue/TaskQueue.hpp"
#include <algorithm>
#include <map>
#include <malloc.h>
#include <new>
#include <thread>
#include <unordered_map>
namespace Q = NUClear::threading::scheduler::queue;
using h::Rng;
// Number of live big allocations (the blocks of the queue)
constexpr int C_BIG = 20;
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n) {
    void* p = malloc(n);
    if (p == nullptr) abort();
    if (n > 520) h::ctr_add(C_BIG, 1);
    return p;
}
void operator delete(void* p) noexcept {
    if (p != nullptr && malloc_usable_size(p) > 520) h::ctr_add(C_BIG, -1);
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
#endif
namespace {
enum EvType : uint32_t { ENQ_B = 1, ENQ_E, DEQ_B, DEQ_E, DEQ_EMPTY };
constexpr int C_DTOR = 100, C_LEFT = 10, MAX_ID = 3900;

struct E {
    uint64_t id = 0;
    std::unique_ptr<uint64_t> p;
    E() = default;
    explicit E(uint64_t id) : id(id), p(std::make_unique<uint64_t>(~id)) {}
    E(E&& o) noexcept : id(o.id), p(std::move(o.p)) { o.id = 0; }
    E& operator=(E&& o) noexcept {
        if (id) gone();
        id = o.id;
        p = std::move(o.p);
        o.id = 0;
        return *this;
    }
    E(const E&) = delete;
    E& operator=(const E&) = delete;
    ~E() { if (id) gone(); id = 0; }
    void gone() {
        if (!p || *p != ~id) { h::viol("corrupt", "element %llu was corrupt when it was destroyed", (unsigned long long) id); return; }
        if (id < MAX_ID && h::ctr_add(int(C_DTOR + id), 1) != 1) h::viol("destroyed-twice", "element %llu was destroyed twice", (unsigned long long) id);
    }
};

void enq(Q::Queue<E>& q) {
    uint64_t id = h::uid();
    h::ev(ENQ_B, id);
    q.enqueue(E(id));
    h::ev(ENQ_E, id);
}
bool deq(Q::Queue<E>& q) {
    uint64_t b = h::ev(DEQ_B);
    E out;
    bool ok = q.try_dequeue(out);
    if (ok && (!out.p || *out.p != ~out.id)) h::viol("corrupt", "a dequeued element was corrupt (id %llu)", (unsigned long long) out.id);
    h::ev(ok ? DEQ_E : DEQ_EMPTY, out.id, b);
    return ok;
}
struct Op { uint64_t eb = ~0ull, ee = ~0ull, db = ~0ull, de = ~0ull; };

void check() {
    std::unordered_map<uint64_t, Op> ops;
    std::vector<std::pair<uint64_t, uint64_t>> empties;
    uint64_t n = h::ev_count(), sg = 3;
    for (uint64_t i = 0; i < n; ++i) {
        const auto& e = h::ev_at(i);
        switch (e.type) {
            case ENQ_B: ops[e.a].eb = i; break;
            case ENQ_E: ops[e.a].ee = i; break;
            case DEQ_E: {
                auto it = ops.find(e.a);
                if (it == ops.end()) { h::viol("invented", "an element came out that was never put in: %llu", (unsigned long long) e.a); break; }
                if (it->second.de != ~0ull) { h::viol("repeated", "element %llu was dequeued twice", (unsigned long long) e.a); break; }
                it->second.db = e.b;
                it->second.de = i;
                sg = h::mix(sg, e.a);
            } break;
            case DEQ_EMPTY: empties.emplace_back(e.b, i); break;
            default: break;
        }
        sg = h::mix(sg, e.type * 64 + e.thread);
    }
    // Order: for completed-before enqueues a -> b, the dequeue of b must not end before the dequeue of a began.
    // Scan the elements in order of the end of their enqueue, for every b look at the a with ee < eb(b) whose dequeue began last.
    std::vector<Op*> by_ee, by_eb;
    std::vector<std::pair<uint64_t, uint64_t>> present;  // certainly in the queue
    for (auto& x : ops) {
        if (x.second.ee == ~0ull) continue;
        by_ee.push_back(&x.second);
        by_eb.push_back(&x.second);
        if (x.second.db > x.second.ee) present.emplace_back(x.second.ee, x.second.db);
    }
    std::sort(by_ee.begin(), by_ee.end(), [](Op* a, Op* b) { return a->ee < b->ee; });
    std::sort(by_eb.begin(), by_eb.end(), [](Op* a, Op* b) { return a->eb < b->eb; });
    size_t j = 0;
    uint64_t last_db = 0;
    Op* last = nullptr;
    long long ordered = 0;
    for (auto* b : by_eb) {
        while (j < by_ee.size() && by_ee[j]->ee < b->eb) {
            if (last == nullptr || by_ee[j]->db > last_db) { last = by_ee[j]; last_db = last->db; }
            ++j;
        }
        if (last != nullptr) {
            ++ordered;
            if (b->de != ~0ull && last_db > b->de) {
                if (last_db == ~0ull) h::viol("lost", "an element was never dequeued although one enqueued after it was");
                else h::viol("order", "an element enqueued later was dequeued before one that had been enqueued completely");
            }
        }
    }
    // Empty: some moment of the operation must not be covered by elements which were certainly there
    std::sort(present.begin(), present.end());
    for (auto& e : empties) {
        uint64_t t = e.first;
        for (auto& p : present) {
            if (p.first > t) break;  // the gap after event t is not covered by anything
            t = std::max(t, p.second);
            if (t >= e.second) break;
        }
        if (t >= e.second) h::viol("empty", "a dequeue found the queue empty although it never was during the call");
    }
    uint64_t in = 0, out = 0;
    for (auto& x : ops) {
        in++;
        out += x.second.de != ~0ull;
        if (x.first < MAX_ID && h::ctr_get(int(C_DTOR + x.first)) != 1) h::viol("leaked", "element %llu was destroyed %d times by the end", (unsigned long long) x.first, int(h::ctr_get(int(C_DTOR + x.first))));
    }
    h::note("elements", int64_t(in));
    h::note("dequeued", int64_t(out));
    h::note("left_at_destruction", int64_t(in - out));
    h::note("empty_results", int64_t(empties.size()));
    h::note("ordered_pairs", ordered);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %llu elements, %llu dequeued, %zu empty results", (unsigned long long) h::case_no, (unsigned long long) in, (unsigned long long) out, empties.size());
}

template <template <typename> class Queue>
void run(Rng& rng, bool multi) {
    const bool big = !h::controlled();
    const int np = rng.range(1, 4), nc = multi ? rng.range(1, 3) : 1;
    const bool drain = rng.chance(2, 3);
    // start close to a block boundary more often than not
    const int pre = rng.chance(1, 4) ? rng.range(0, 20) : 64 * rng.range(1, 2) - rng.range(-2, 12);
    const int keep = rng.chance(1, 2) ? 0 : rng.range(0, pre > 6 ? 6 : pre);
    const int per = big ? rng.range(10, 400) : rng.range(1, 24);
    const int deqs = big ? rng.range(10, 600) : rng.range(1, 30);
    const int slow = rng.range(0, 3);
    uint64_t es = rng.next();
    auto q = std::make_unique<Queue<E>>();
    for (int i = 0; i < pre; ++i) { enq(*q); }
    for (int i = 0; i < pre - keep; ++i) {
        if (!deq(*q)) h::viol("empty", "sequential dequeue %d of %d found nothing", i, pre);
    }
    h::ctr_set(C_LEFT, np);
    h::sched_begin(rng, 600);
    std::vector<std::thread> ts;
    for (int t = 0; t < np; ++t) ts.emplace_back([&, t] {
        Rng r(h::mix(es, uint64_t(t)));
        int n = int(r(uint64_t(per))) + 1;
        for (int i = 0; i < n; ++i) {
            enq(*q);
            if (slow && r.chance(1, 12)) h::work(r.next() % (uint64_t(slow) * 3000));
        }
        h::ctr_add(C_LEFT, -1);
    });
    for (int t = 0; t < nc; ++t) ts.emplace_back([&, t] {
        Rng r(h::mix(es, uint64_t(100 + t)));
        for (int i = 0; i < deqs; ++i) {
            bool ok = deq(*q);
            if (!ok && r.chance(1, 2)) h::work(r.next() % 2000);
            if (slow && r.chance(1, 12)) h::work(r.next() % (uint64_t(slow) * 3000));
        }
    });
    for (auto& t : ts) t.join();
    h::sched_end();
    if (drain) {
        while (deq(*q)) {}
        // nothing may be left now
        uint64_t in = 0, out = 0;
        for (uint64_t i = 0; i < h::ev_count(); ++i) { in += h::ev_at(i).type == ENQ_E; out += h::ev_at(i).type == DEQ_E; }
        if (in != out) h::viol("lost", "%llu elements were put in but only %llu came out before the queue was empty", (unsigned long long) in, (unsigned long long) out);
    }
    q.reset();
    check();
}
// Memory: many elements go through, few are held at once, everything joined in between.
template <template <typename> class Queue>
void run_mem(Rng& rng, bool multi) {
    const int np = rng.range(1, 4), nc = multi ? rng.range(1, 3) : 1, held = rng.range(1, 200), n = h::controlled() ? 150 : rng.range(2000, 12000);
    uint64_t es = rng.next();
    auto q = std::make_unique<Queue<uint64_t>>();
    std::atomic<int> in{0};
    std::atomic<int> left{np};
    std::atomic<long long> sum{0};
    int64_t before = h::ctr_get(C_BIG), peak = 0;
    h::sched_begin(rng, 5000);
    std::vector<std::thread> ts;
    for (int t = 0; t < np; ++t) ts.emplace_back([&] {
        for (int i = 0; i < n; ++i) {
            for (int w = 0; in.load() > held && w < 200; ++w) std::this_thread::yield();
            in++;
            q->enqueue(uint64_t(1));
        }
        left--;
    });
    for (int t = 0; t < nc; ++t) ts.emplace_back([&] {
        uint64_t v;
        while (true) {
            bool last = left.load() == 0;
            if (q->try_dequeue(v)) { in--; sum += (long long) v; }
            else if (last) break;
            else std::this_thread::yield();
        }
    });
    for (auto& t : ts) t.join();
    h::sched_end();
    peak = h::ctr_get(C_BIG) - before;
    if (sum != (long long) np * n) h::viol("lost", "%lld of %lld elements came out", (long long) sum, (long long) np * n);
    // nobody else uses it now
    uint64_t v;
    for (int i = 0; i < 200; ++i) { q->enqueue(2); if (!q->try_dequeue(v)) h::viol("empty", "a single element was not found"); }
    int64_t kept = h::ctr_get(C_BIG) - before;
    if (kept > 8) h::viol("growth", "a queue that is empty and unused keeps %lld blocks of memory after %lld elements went through it", (long long) kept, (long long) np * n);
    h::note("elements", (long long) np * n);
    h::note_max("blocks_kept_while_busy", peak);
    h::note_max("blocks_kept_after", kept);
    if (!h::controlled()) h::sig(h::mix(es, uint64_t(peak)));
    h::sample("case %llu: %lld elements from %d threads to %d, %lld blocks kept", (unsigned long long) h::case_no, (long long) np * n, np, nc, (long long) kept);
}
void run_case(Rng& rng) {
    if (h::args.mode == "mem-mpmc") { run_mem<Q::TaskQueue>(rng, true); return; }
    if (h::args.mode == "mem-mpsc") { run_mem<Q::MPSCQueue>(rng, false); return; }
    if (h::args.mode == "mpmc") run<Q::TaskQueue>(rng, true);
    else run<Q::MPSCQueue>(rng, false);
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
