// Several NUClearNetwork nodes on a simulated network with faults, in simulated time (C25-C28)
#include "nuc.hpp"
#include "extension/network/NUClearNetwork.hpp"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <functional>
#include <map>
#include <malloc.h>
#include <queue>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {
using h::Rng;
using Net    = NUClear::extension::network::NUClearNetwork;
using sock_t = NUClear::util::network::sock_t;

// ---- simulated time and sockets ----------------------------------------------------------------------------------
thread_local bool virt = false;  // only the thread that simulates
uint64_t vnow          = 0;      // ns
constexpr int FD0      = 1000000;
constexpr uint64_t MS = 1000000, SEC = 1000 * MS;

using Bytes = std::vector<uint8_t>;
struct Dgram {
    std::string from;  // family, address, port
    Bytes data;
    int msg = -1, frag = -1, count = 0;  // what it is, when it comes from one of our messages
    int src_inst = -1;
};
struct SimSock {
    int inst = -1, family = 0, port = 0;
    std::string ip;  // packed, empty for any
    bool open = false, bound = false, broadcast = false, reuse = false;
    std::vector<std::string> groups;
    std::deque<Dgram> q;
};
std::vector<SimSock> socks;
const bool trace = getenv("TRACE") != nullptr;  // for debugging
std::string pack(const sockaddr* s) {
    std::string r;
    if (s->sa_family == AF_INET) {
        auto* a = reinterpret_cast<const sockaddr_in*>(s);
        r.assign(reinterpret_cast<const char*>(&a->sin_addr), 4);
        r.append(reinterpret_cast<const char*>(&a->sin_port), 2);
    }
    else {
        auto* a = reinterpret_cast<const sockaddr_in6*>(s);
        r.assign(reinterpret_cast<const char*>(&a->sin6_addr), 16);
        r.append(reinterpret_cast<const char*>(&a->sin6_port), 2);
    }
    return r;
}
std::string ip_part(const std::string& k) { return k.substr(0, k.size() - 2); }
int port_part(const std::string& k) { return (uint8_t(k[k.size() - 2]) << 8) | uint8_t(k[k.size() - 1]); }
std::string key(const std::string& ip, int port) {
    std::string k = ip;
    k.push_back(char(port >> 8));
    k.push_back(char(port & 255));
    return k;
}
std::string show(const std::string& k) {
    char b[INET6_ADDRSTRLEN] = "?";
    inet_ntop(k.size() == 6 ? AF_INET : AF_INET6, k.data(), b, sizeof b);
    return std::string(b) + ":" + std::to_string(port_part(k));
}
void unpack(const std::string& k, sockaddr* s, socklen_t* n) {
    if (k.size() == 6) {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        memcpy(&a.sin_addr, k.data(), 4);
        memcpy(&a.sin_port, k.data() + 4, 2);
        memcpy(s, &a, sizeof a);
        if (n != nullptr) *n = sizeof a;
    }
    else {
        sockaddr_in6 a{};
        a.sin6_family = AF_INET6;
        memcpy(&a.sin6_addr, k.data(), 16);
        memcpy(&a.sin6_port, k.data() + 16, 2);
        memcpy(s, &a, sizeof a);
        if (n != nullptr) *n = sizeof a;
    }
}

// ---- the world ----------------------------------------------------------------------------------------------------
struct View {           // what a node reported about an address
    std::string name;
    uint64_t epoch = 0;
    bool joined    = false;
    int joins = 0, leaves = 0;
};
struct Model {          // what a node has to think of an address, from the datagrams it read
    std::string name;
    bool known    = false;
    uint64_t last = 0;
    bool read_now = false;  // a datagram was read in the current call of process()
    bool old_now  = false;  // was silent for too long when that began
    bool left_now = false;  // a LEAVE was read in it
};
struct Inst {           // one life of a node
    int node = 0;
    std::string name;
    std::unique_ptr<Net> net;
    bool alive = false, hostile = false;
    int mtu = 1500;
    std::string data_addr, ip;
    std::map<std::string, View> view;
    std::map<std::string, Model> model;
    uint64_t last_announce = 0, started = 0, stopped = 0;
    bool in_process = false;
    bool process_due = false;
    uint64_t stalled_until = 0;
};
struct Msg {
    int src = 0;
    uint64_t hash = 0, seed = 0;
    bool reliable = false;
    std::string target;
    size_t size = 0;
    uint64_t time = 0;
    int frags = 0;
    std::map<int, uint64_t> owed;       // receiver instance -> epoch in the view of the sender
    std::map<int, int> got;             // receiver instance -> deliveries
    std::map<int, uint64_t> got_epoch;  // receiver instance -> epoch of its view of the sender at the first delivery
    std::map<int, std::map<int, std::pair<int, std::pair<uint64_t, uint64_t>>>> frag_in;  // receiver -> fragment -> copies, first and last arrival
    std::map<int, uint64_t> in_epoch;   // receiver -> epoch at the first fragment, 0: not joined then
};
struct Event {
    uint64_t t, seq;
    std::function<void()> f;
    bool operator<(const Event& o) const { return t != o.t ? t > o.t : seq > o.seq; }
};
struct World {
    Rng r{1};
    std::priority_queue<Event> events;
    uint64_t seq = 0, epochs = 0;
    std::vector<std::unique_ptr<Inst>> insts;
    std::vector<Msg> msgs;
    std::map<uint64_t, int> by_hash;
    int family = AF_INET, aport = 7447, next_port = 40000;
    std::string announce_ip[2];   // text; unicast: what node 0 and 1 announce to
    bool multicast = false, bcast = false, unicast = false, loop = false;
    // faults
    double loss = 0, dup = 0, send_fail = 0;
    uint64_t base = MS, jitter = 0;
    bool faulty = false;          // loss of any kind may happen in this case
    bool dups   = false;
    bool churn  = false;          // nodes come and go
    bool healed = false;
    std::vector<std::vector<bool>> cut;  // cut[a][b]: nothing from node a reaches node b
    int cur = -1;                 // instance whose code runs
    int cur_msg = -1;
    bool in_send = false;
    uint64_t quiet_since = 0;     // retransmissions after this are wrong
    bool callbacks_send = false;
    int budget = 0;
    uint64_t bytes_in = 0, bytes_out = 0;
    uint64_t hostile_datagrams = 0;
    uint64_t n_sent = 0, n_lost = 0, n_dup = 0, n_retrans = 0, n_ack = 0, n_reordered = 0, n_joins = 0, n_leaves = 0, n_delivered = 0, n_timeouts = 0, n_nack = 0;
    uint64_t sig = 17;
    size_t heap_before = 0;
    uint64_t probes = 0, probed = 0, refused = 0;
};
World* W = nullptr;

void at(uint64_t t, std::function<void()> f) { W->events.push(Event{std::max(t, vnow), W->seq++, std::move(f)}); }
bool chance(double p) { return p > 0 && double(W->r.next() >> 11) * (1.0 / 9007199254740992.0) < p; }
void process_soon(int inst, uint64_t delay);
Bytes content(uint64_t seed, size_t n) {
    Bytes b(n);
    uint64_t s = seed;
    for (size_t i = 0; i < n; ++i) {
        if (i % 8 == 0) s = h::mix(s, i);
        b[i] = uint8_t(s >> (8 * (i % 8)));
    }
    return b;
}
bool is_group(const std::string& k) {
    return k.size() == 6 ? (uint8_t(k[0]) & 0xF0) == 0xE0 || uint8_t(k[3]) == 255 : uint8_t(k[0]) == 0xFF;
}
bool is_bcast(const std::string& k) { return k.size() == 6 && uint8_t(k[3]) == 255; }
void arrive(int s, Dgram d) {
    SimSock& k = socks[size_t(s)];
    if (!k.open) return;
    if (trace) fprintf(stderr, "%.6f %d gets type %d from %s\n", double(vnow) / 1e9, k.inst, d.data.size() > 4 ? d.data[4] : 0, show(d.from).c_str());
    k.q.push_back(std::move(d));
    process_soon(k.inst, W->r.chance(1, 3) ? W->r(2 * MS) : 0);
}
void transmit(const std::string& to, const Dgram& d, int from_node) {
    for (size_t i = 0; i < socks.size(); ++i) {
        SimSock& k = socks[i];
        if (!k.open || !k.bound || k.port != port_part(to)) continue;
        Inst& in = *W->insts[size_t(k.inst)];
        if (is_group(to)) {
            if (!is_bcast(to) && std::find(k.groups.begin(), k.groups.end(), ip_part(to)) == k.groups.end()) continue;
            if (in.node == from_node && !W->loop) continue;
        }
        else if (ip_part(to) != in.ip) continue;
        bool same = in.node == from_node;
        if (!same && from_node >= 0 && !W->healed && W->cut[size_t(from_node)][size_t(in.node)]) { W->n_lost++; continue; }
        if (!same && !W->healed && chance(W->loss)) { W->n_lost++; continue; }
        int copies = !same && !W->healed && chance(W->dup) ? (W->n_dup++, int(W->r(3)) == 0 ? 3 : 2) : 1;
        for (int c = 0; c < copies; ++c) {
            uint64_t delay = same ? 10000 : W->base + W->r(W->jitter + 1);
            int s = int(i);
            at(vnow + delay, [s, d] { arrive(s, d); });
        }
    }
}
int do_send(int fd, const sockaddr* to, Bytes data) {
    SimSock& k = socks[size_t(fd - FD0)];
    if (!k.open) { errno = EBADF; return -1; }
    std::string dest = pack(to);
    Inst& in         = *W->insts[size_t(k.inst)];
    if (is_bcast(dest) && !k.broadcast) { errno = EACCES; return -1; }
    if (data.size() > 65507) { errno = EMSGSIZE; return -1; }
    if (!W->healed && chance(W->send_fail)) { errno = ENETUNREACH; return -1; }
    W->n_sent++;
    W->bytes_out += data.size();
    Dgram d;
    d.from     = key(in.ip, k.port);
    d.src_inst = k.inst;
    int type   = data.size() > 4 ? data[4] : 0;
    if (type == 1) in.last_announce = vnow;
    if (type == 5) W->n_ack++;
    if (type == 6) W->n_nack++;
    if (type == 3 || type == 4) {
        if (data.size() < 20) h::viol("wire", "a data packet of %d bytes was sent", int(data.size()));
        else {
            uint16_t no, count;
            uint64_t hash;
            memcpy(&no, &data[7], 2);
            memcpy(&count, &data[9], 2);
            memcpy(&hash, &data[12], 8);
            auto m = W->by_hash.find(hash);
            if (m != W->by_hash.end()) { d.msg = m->second; d.frag = no; d.count = count; W->msgs[size_t(d.msg)].frags = count; }
            if (int(data.size()) + 48 > in.mtu) h::viol("mtu", "a datagram of %d bytes was sent with an MTU of %d", int(data.size()), in.mtu);
        }
        if (type == 4) {
            W->n_retrans++;
            if (W->quiet_since != 0 && vnow > W->quiet_since) h::viol("retransmit", "a message is still being retransmitted to %s although the network has been faultless for long", show(dest).c_str());
        }
    }
    W->sig = h::mix(W->sig, uint64_t(type) * 1000003 + data.size() + uint64_t(in.node) * 7919);
    if (trace) fprintf(stderr, "%.6f %d sends type %d, %zu bytes to %s (message %d fragment %d of %d)\n", double(vnow) / 1e9, k.inst, type, data.size(), show(dest).c_str(), d.msg, d.frag, d.count);
    int n  = int(data.size());
    d.data = std::move(data);
    transmit(dest, d, in.node);
    return n;
}

template <typename F>
F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
bool mine(int fd) { return virt && fd >= FD0; }
void consumed(int fd, const Dgram& d);
}  // namespace

extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!virt) return int(syscall(SYS_clock_gettime, c, ts));
    vnow += 20;
    uint64_t t = vnow + 1000000 * SEC / 1000;
    ts->tv_sec  = time_t(t / SEC);
    ts->tv_nsec = long(t % SEC);
    return 0;
}
int socket(int family, int type, int proto) {
    if (!virt || W == nullptr || W->cur < 0 || type != SOCK_DGRAM) return int(syscall(SYS_socket, family, type, proto));
    SimSock k;
    k.inst   = W->cur;
    k.family = family;
    k.open   = true;
    socks.push_back(k);
    return FD0 + int(socks.size()) - 1;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) {
    if (!mine(fd)) return int(syscall(SYS_bind, fd, a, n));
    SimSock& k      = socks[size_t(fd - FD0)];
    std::string key = pack(a);
    k.port          = port_part(key);
    if (k.port == 0) k.port = W->next_port++;
    else {
        for (auto& o : socks) if (o.open && o.bound && o.port == k.port && o.inst >= 0 && W->insts[size_t(o.inst)]->node == W->insts[size_t(k.inst)]->node && !(o.reuse && k.reuse)) { errno = EADDRINUSE; return -1; }
    }
    k.ip    = ip_part(key);
    k.bound = true;
    Inst& in = *W->insts[size_t(k.inst)];
    if (port_part(key) == 0) in.data_addr = ::key(in.ip, k.port);
    return 0;
}
int setsockopt(int fd, int level, int opt, const void* v, socklen_t n) {
    if (!mine(fd)) return int(syscall(SYS_setsockopt, fd, level, opt, v, n));
    SimSock& k = socks[size_t(fd - FD0)];
    if (level == SOL_SOCKET && opt == SO_BROADCAST) k.broadcast = *static_cast<const int*>(v) != 0;
    if (level == SOL_SOCKET && (opt == SO_REUSEADDR || opt == SO_REUSEPORT)) k.reuse = true;
    if (level == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) k.groups.emplace_back(reinterpret_cast<const char*>(&static_cast<const ip_mreq*>(v)->imr_multiaddr), 4);
    if (level == IPPROTO_IPV6 && opt == IPV6_JOIN_GROUP) k.groups.emplace_back(reinterpret_cast<const char*>(&static_cast<const ipv6_mreq*>(v)->ipv6mr_multiaddr), 16);
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
    if (!mine(fd)) return int(syscall(SYS_getsockname, fd, a, n));
    SimSock& k = socks[size_t(fd - FD0)];
    unpack(key(W->insts[size_t(k.inst)]->ip, k.port), a, n);
    return 0;
}
int close(int fd) {
    if (!mine(fd)) return int(syscall(SYS_close, fd));
    SimSock& k = socks[size_t(fd - FD0)];
    if (!k.open) { errno = EBADF; return -1; }
    k.open = false;
    k.q.clear();
    return 0;
}
int ioctl(int fd, unsigned long req, ...) {
    va_list l;
    va_start(l, req);
    void* p = va_arg(l, void*);
    va_end(l);
    if (!mine(fd)) return int(syscall(SYS_ioctl, fd, req, p));
    SimSock& k = socks[size_t(fd - FD0)];
    if (!k.open) { errno = EBADF; return -1; }
    if (req == FIONREAD) *static_cast<int*>(p) = k.q.empty() ? 0 : int(k.q.front().data.size());
    return 0;
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
    if (!mine(fd)) return syscall(SYS_recvmsg, fd, m, flags);
    SimSock& k = socks[size_t(fd - FD0)];
    if (!k.open) { errno = EBADF; return -1; }
    if (k.q.empty()) {
        if ((flags & MSG_DONTWAIT) == 0) h::viol("block", "a read that blocks was made on a socket with nothing to read");
        errno = EAGAIN;
        return -1;
    }
    Dgram d = k.q.front();
    if ((flags & MSG_PEEK) == 0) k.q.pop_front();
    size_t at = 0;
    for (size_t i = 0; i < m->msg_iovlen && at < d.data.size(); ++i) {
        size_t n = std::min(m->msg_iov[i].iov_len, d.data.size() - at);
        if (n != 0) memcpy(m->msg_iov[i].iov_base, d.data.data() + at, n);
        at += n;
    }
    m->msg_flags = at < d.data.size() ? MSG_TRUNC : 0;
    if (m->msg_name != nullptr) unpack(d.from, static_cast<sockaddr*>(m->msg_name), &m->msg_namelen);
    m->msg_controllen = 0;
    if ((flags & MSG_PEEK) == 0) consumed(fd, d);
    return (flags & MSG_TRUNC) != 0 ? ssize_t(d.data.size()) : ssize_t(at);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, struct sockaddr* a, socklen_t* l) {
    if (!mine(fd)) return syscall(SYS_recvfrom, fd, b, n, flags, a, l);
    iovec v{b, n};
    msghdr m{};
    m.msg_name    = a;
    m.msg_namelen = l != nullptr ? *l : 0;
    m.msg_iov     = &v;
    m.msg_iovlen  = 1;
    ssize_t r     = recvmsg(fd, &m, flags);
    if (l != nullptr) *l = m.msg_namelen;
    return r;
}
ssize_t recv(int fd, void* b, size_t n, int flags) { return recvfrom(fd, b, n, flags, nullptr, nullptr); }
ssize_t sendto(int fd, const void* b, size_t n, int flags, const struct sockaddr* a, socklen_t l) {
    if (!mine(fd)) return syscall(SYS_sendto, fd, b, n, flags, a, l);
    auto* p = static_cast<const uint8_t*>(b);
    return do_send(fd, a, Bytes(p, p + n));
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
    if (!mine(fd)) return syscall(SYS_sendmsg, fd, m, flags);
    Bytes d;
    for (size_t i = 0; i < m->msg_iovlen; ++i) {
        auto* p = static_cast<const uint8_t*>(m->msg_iov[i].iov_base);
        d.insert(d.end(), p, p + m->msg_iov[i].iov_len);
    }
    return do_send(fd, static_cast<const sockaddr*>(m->msg_name), std::move(d));
}
}

namespace {
std::string sock_key(const sock_t& s) { return pack(&s.sock); }
int inst_of(const std::string& addr) {
    for (size_t i = 0; i < W->insts.size(); ++i) if (W->insts[i]->data_addr == addr) return int(i);
    return -1;
}
constexpr uint64_t TIMEOUT = 2 * SEC;
constexpr uint64_t PROBE   = 0x50524F4245;
size_t heap() {
    auto m = mallinfo2();  // nothing with a sanitizer
    return m.uordblks + m.hblkhd;
}

// A node read a datagram
void consumed(int fd, const Dgram& d) {
    int me   = socks[size_t(fd - FD0)].inst;
    Inst& in = *W->insts[size_t(me)];
    W->bytes_in += d.data.size();
    auto it = in.model.find(d.from);
    if (d.data.size() < 5 || memcmp(d.data.data(), "\xE2\x98\xA2\x02", 4) != 0) return;
    int type = d.data[4];
    bool known = it != in.model.end() && it->second.known;
    if (d.src_inst < 0) {  // hostile: only what it announces is followed
        if (type == 1 && !known && d.data.size() > 6) { Model& m = in.model[d.from]; m.known = true; m.last = vnow; m.name.clear(); }
        if (known) { it->second.last = vnow; it->second.read_now = true; if (type == 2) it->second.left_now = true; }
        return;
    }
    if (type == 1 && !known) {
        Model& m   = in.model[d.from];
        m.known    = true;
        m.name     = W->insts[size_t(d.src_inst)]->name;
        m.last     = vnow;
        m.read_now = true;
    }
    else if (known) {
        it->second.read_now = true;
        if (type == 2) { it->second.known = false; it->second.left_now = true; }
        else it->second.last = vnow;
    }
    if (d.msg >= 0) {
        Msg& m = W->msgs[size_t(d.msg)];
        View& v = in.view[d.from];
        auto& f = m.frag_in[me];
        if (f.empty()) m.in_epoch[me] = v.joined ? v.epoch : 0;
        else if (m.in_epoch[me] != (v.joined ? v.epoch : 0)) m.in_epoch[me] = 0;
        auto& x = f[d.frag];
        if (x.first++ == 0) x.second.first = vnow;
        x.second.second = vnow;
    }
}
void send_random(int inst);
void run_until(uint64_t t);
void on_join(int me, const Net::NetworkTarget& t) {
    Inst& in      = *W->insts[size_t(me)];
    std::string k = sock_key(t.target);
    View& v       = in.view[k];
    W->n_joins++;
    if (trace) fprintf(stderr, "%.6f %d join %s\n", double(vnow) / 1e9, me, show(k).c_str());
    if (v.joined) h::viol("join-twice", "%s was reported as joined twice without leaving", show(k).c_str());
    if (t.name.empty()) h::viol("join-name", "a peer without a name joined");
    v.joined = true;
    v.joins++;
    v.epoch = ++W->epochs;
    v.name  = t.name;
    int o   = inst_of(k);
    if (o >= 0 && W->insts[size_t(o)]->name != t.name) h::viol("join-name", "the peer called %s was reported as %s", W->insts[size_t(o)]->name.c_str(), t.name.c_str());
    if (o < 0 && W->hostile_datagrams == 0) h::viol("join-address", "a peer at %s joined but nobody is there", show(k).c_str());
    auto m = in.model.find(k);
    if (m == in.model.end() || (!m->second.known && !m->second.left_now)) h::viol("join-unannounced", "%s was reported as joined but no announcement of it was received", show(k).c_str());
    W->sig = h::mix(W->sig, 100 + uint64_t(me) * 31 + uint64_t(o + 1));
    if (W->callbacks_send && W->r.chance(1, 3)) send_random(me);
}
void on_leave(int me, const Net::NetworkTarget& t) {
    Inst& in      = *W->insts[size_t(me)];
    std::string k = sock_key(t.target);
    View& v       = in.view[k];
    W->n_leaves++;
    if (trace) fprintf(stderr, "%.6f %d leave %s\n", double(vnow) / 1e9, me, show(k).c_str());
    if (!v.joined) h::viol("leave-unknown", "%s was reported as left but had not joined", show(k).c_str());
    if (v.name != t.name) h::viol("leave-name", "the peer that joined as %s was reported to leave as %s", v.name.c_str(), t.name.c_str());
    v.joined = false;
    v.leaves++;
    Model& m = in.model[k];
    if (inst_of(k) >= 0 && !m.left_now && !m.old_now) h::viol("leave-early", "%s was reported as left %.3f s after it was heard of", show(k).c_str(), double(vnow - m.last) / 1e9);
    if (m.old_now && !m.left_now) { W->n_timeouts++; if (!m.read_now) m.known = false; }
    W->sig = h::mix(W->sig, 200 + uint64_t(me) * 31 + uint64_t(inst_of(k) + 1));
    if (W->callbacks_send && W->r.chance(1, 4)) send_random(me);
}
void on_packet(int me, const Net::NetworkTarget& t, uint64_t hash, bool reliable, const Bytes& b) {
    Inst& in      = *W->insts[size_t(me)];
    std::string k = sock_key(t.target);
    View& v       = in.view[k];
    if (!v.joined) h::viol("data-unjoined", "data was delivered from %s which %s", show(k).c_str(), v.leaves > 0 ? "has left" : "has not joined");
    int o = inst_of(k);
    if (hash == PROBE) { W->probes++; return; }
    if (o < 0) {
        if (W->hostile_datagrams == 0 || t.name.empty()) h::viol("data-source", "data was delivered from %s (%s) where nobody is", show(k).c_str(), t.name.c_str());
        return;
    }
    W->n_delivered++;
    auto f = W->by_hash.find(hash);
    if (f == W->by_hash.end()) { h::viol("data-hash", "data of a type that nobody sent was delivered"); return; }
    Msg& m = W->msgs[size_t(f->second)];
    if (m.src != o) { h::viol("data-source", "data sent by %s was delivered as sent by %s", W->insts[size_t(m.src)]->name.c_str(), t.name.c_str()); return; }
    if (t.name != W->insts[size_t(o)]->name) h::viol("data-source", "data sent by %s was delivered as sent by %s", W->insts[size_t(o)]->name.c_str(), t.name.c_str());
    if (reliable != m.reliable) h::viol("data-reliable", "data was delivered with the wrong reliability");
    if (!m.target.empty() && m.target != in.name) h::viol("data-target", "data for %s was delivered to %s", m.target.c_str(), in.name.c_str());
    if (b.size() != m.size) h::viol("data-size", "a message of %zu bytes was delivered as %zu bytes", m.size, b.size());
    else if (b != content(m.seed, m.size)) h::viol("data-content", "a message of %zu bytes (%d fragments) was altered", m.size, m.frags);
    int n = ++m.got[me];
    if (n == 1) m.got_epoch[me] = v.epoch;
    else if (m.reliable) {
        if (m.got_epoch[me] == v.epoch) h::viol("data-twice", "a reliable message of %d fragments was delivered %d times to %s", m.frags, n, in.name.c_str());
        m.got_epoch[me] = v.epoch;
    }
    // How often could it have been put together
    int copies = 1000000;
    for (int i = 0; i < m.frags; ++i) copies = std::min(copies, m.frag_in[me].count(i) != 0 ? m.frag_in[me][i].first : 0);
    if (copies == 0) h::viol("data-incomplete", "a message was delivered although a part of it was not received");
    if (!m.reliable && n > copies) h::viol("data-twice", "an unreliable message of which %d copies were received was delivered %d times", copies, n);
    W->sig = h::mix(W->sig, 300 + uint64_t(me) * 31 + uint64_t(o) * 1009 + b.size());
    if (W->callbacks_send && W->r.chance(1, 10)) send_random(me);
}
struct As {  // code of an instance runs
    int before;
    explicit As(int i) : before(W->cur) { W->cur = i; }
    ~As() { W->cur = before; }
};
void process(int me) {
    Inst& in = *W->insts[size_t(me)];
    in.process_due = false;
    if (!in.alive) return;
    if (in.stalled_until > vnow) { process_soon(me, in.stalled_until - vnow); return; }
    As as(me);
    if (in.in_process) return;
    in.in_process = true;
    uint64_t begin = vnow;
    for (auto& m : in.model) {
        m.second.read_now = m.second.left_now = false;
        m.second.old_now  = m.second.known && begin + 5000 - m.second.last > TIMEOUT;
    }
    try {
        in.net->process();
    }
    catch (const std::system_error& e) {
        if (W->send_fail == 0) h::viol("throw", "process() threw: %s", e.what());
    }
    catch (const std::exception& e) {
        h::viol("throw", "process() threw: %s", e.what());
    }
    in.in_process = false;
    h::progress();
    if (W->hostile_datagrams != 0) {
        size_t now_used = heap();
        if (now_used > W->heap_before + 4000000 + 64 * W->bytes_in + 8 * W->bytes_out) h::viol("memory", "%zu bytes are in use after %llu bytes were received", now_used - W->heap_before, (unsigned long long) W->bytes_in);
    }
    for (auto& m : in.model) {
        View& v = in.view[m.first];
        const Model& x = m.second;
        // It was silent for too long, but something of it was waiting to be read
        if (x.old_now && x.read_now) { m.second.known = v.joined; continue; }
        if (inst_of(m.first) < 0) { m.second.known = v.joined; continue; }  // a hostile one
        if (x.old_now && v.joined && begin - x.last > TIMEOUT + 5000) h::viol("leave-missing", "%s is still there %.3f s after it was last heard of", show(m.first).c_str(), double(begin - x.last) / 1e9);
        if (!x.old_now && x.known && !v.joined) h::viol("join-missing", "%s is not reported as joined although its announcement was received", show(m.first).c_str());
        if (!x.known && v.joined && !x.old_now) h::viol("leave-missing", "%s is still there although it said that it leaves", show(m.first).c_str());
    }
    // What is readable is read, or the system calls us again
    for (auto& s : socks) if (s.inst == me && s.open && !s.q.empty()) process_soon(me, 100000);
}
void process_soon(int inst, uint64_t delay) {
    Inst& in = *W->insts[size_t(inst)];
    if (!in.alive || in.process_due) return;
    in.process_due = true;
    at(vnow + delay, [inst] { process(inst); });
}
void configure(int me, const std::string& announce, const std::string& bind_to) {
    Inst& in = *W->insts[size_t(me)];
    As as(me);
    if (W->r.chance(1, 10)) {
        bool refused = false;
        try { in.net->reset(in.name, announce, in_port_t(W->aport), bind_to, uint16_t(W->r.range(0, 68))); }
        catch (const std::exception&) { refused = true; }
        if (!refused) h::viol("mtu", "an MTU without room for any data was accepted");
    }
    try {
        in.net->reset(in.name, announce, in_port_t(W->aport), bind_to, uint16_t(in.mtu));
    }
    catch (const std::exception& e) { h::viol("reset", "reset threw: %s", e.what()); }
    in.alive   = true;
    in.started = vnow;
    process_soon(me, 0);
}
std::string announce_of(int node) { return W->announce_ip[W->unicast ? node : 0]; }
int start(int node, const std::string& name, int mtu) {
    int me = int(W->insts.size());
    W->insts.emplace_back(new Inst);
    Inst& in = *W->insts.back();
    in.node  = node;
    in.name  = name;
    in.mtu   = mtu;
    char text[64];
    if (W->family == AF_INET) {
        in.ip = std::string("\x0a\x00\x00", 3) + char(node + 1);
        snprintf(text, sizeof text, "10.0.0.%d", node + 1);
    }
    else {
        in.ip = std::string("\xfd\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", 15) + char(node + 1);
        snprintf(text, sizeof text, "fd00::%d", node + 1);
    }
    in.net.reset(new Net);
    in.net->set_packet_callback([me](const Net::NetworkTarget& t, const uint64_t& hash, const bool& rel, std::vector<uint8_t>&& b) {
        Bytes p(std::move(b));
        on_packet(me, t, hash, rel, p);
    });
    in.net->set_join_callback([me](const Net::NetworkTarget& t) { on_join(me, t); });
    in.net->set_leave_callback([me](const Net::NetworkTarget& t) { on_leave(me, t); });
    in.net->set_next_event_callback([me](std::chrono::steady_clock::time_point t) {
        uint64_t want = uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()) - 1000000 * SEC / 1000;
        if (int64_t(want) < 0) want = vnow;
        at(std::max(want, vnow) + (W->r.chance(1, 2) ? W->r(2 * MS) : 0), [me] { process(me); });
    });
    configure(me, announce_of(node), W->r.chance(1, 3) && !W->multicast ? text : W->r.chance(1, 3) && W->family == AF_INET ? text : "");
    return me;
}
void stop(int me, bool crash) {
    Inst& in = *W->insts[size_t(me)];
    if (!in.alive) return;
    As as(me);
    if (crash) for (auto& s : socks) if (s.inst == me) s.bound = false;
    if (crash) {
        // Nothing gets out anymore
        double f = W->send_fail; bool hl = W->healed;
        W->send_fail = 1; W->healed = false;
        in.net->shutdown();
        W->send_fail = f; W->healed = hl;
    }
    else in.net->shutdown();
    in.alive   = false;
    in.stopped = vnow;
}
void send_as(int me, bool reliable, const std::string& target, size_t size, uint64_t seed) {
    Inst& in = *W->insts[size_t(me)];
    if (!in.alive) return;
    As as(me);
    int id = int(W->msgs.size());
    W->msgs.emplace_back();
    Msg& m     = W->msgs.back();
    m.src      = me;
    m.seed     = seed;
    m.hash     = h::mix(seed, uint64_t(id) + 77);
    m.reliable = reliable;
    m.target   = target;
    m.size     = size;
    m.time     = vnow;
    W->by_hash[m.hash] = id;
    for (auto& v : in.view) {
        if (!v.second.joined || (!target.empty() && v.second.name != target)) continue;
        int o = inst_of(v.first);
        if (o >= 0) m.owed[o] = v.second.epoch;
    }
    // Unreliable ones to everybody go to whoever hears them
    int before  = W->cur_msg;
    W->cur_msg  = id;
    Bytes b     = content(seed, size);
    uint64_t hs = m.hash;
    if (trace) fprintf(stderr, "%.6f %d message %d to %s, %zu bytes%s\n", double(vnow) / 1e9, me, id, target.c_str(), size, reliable ? ", reliable" : "");
    try {
        in.net->send(hs, b, target, reliable);
    }
    catch (const std::exception& e) { h::viol("throw", "send threw: %s", e.what()); }
    W->cur_msg = before;
}
void send_random(int me) {
    Inst& in = *W->insts[size_t(me)];
    if (!in.alive || W->budget <= 0) return;
    W->budget--;
    Rng& r = W->r;
    bool rel = h::args.mode == "rel" ? r.chance(4, 5) : h::args.mode == "unrel" ? r.chance(1, 5) : r.chance(1, 2);
    std::string target;
    if (r.chance(1, 2)) {
        target = W->insts[r(W->insts.size())]->name;
        if (r.chance(1, 20)) target = "nobody";
        else if (r.chance(1, 20)) target += "x";
    }
    int part = in.mtu - 48 - 20;
    size_t size;
    switch (r(10)) {
        case 0: size = 0; break;
        case 1: case 2: case 3: size = size_t(r.range(1, 200)); break;
        case 4: size = size_t(part * r.range(1, 9) + r.range(-1, 1)); break;
        case 5: size = size_t(part * 8 + r.range(-2, 2)); break;
        case 6: size = size_t(part) * size_t(r.range(14, 18)) + size_t(r.range(0, 3)); break;
        default: size = size_t(r.range(1, part * 6)); break;
    }
    if (r.chance(1, 400) && part < 100) {
        // More fragments than there are numbers for
        As as(me);
        try {
            in.net->send(1, Bytes(size_t(part) * size_t(65535 + r.range(0, 3)) + size_t(r(uint64_t(part)))), target, rel);
            h::viol("data-size", "a message with more than 65535 fragments was accepted");
        }
        catch (const std::exception&) { W->refused++; }
        return;
    }
    if (r.chance(1, 60)) size = size_t(part) * size_t(r.range(60, 300));
    send_as(me, rel, target, size, r.next());
}
void run_until(uint64_t t) {
    while (!W->events.empty() && W->events.top().t <= t) {
        Event e = W->events.top();
        W->events.pop();
        vnow = std::max(vnow, e.t);
        e.f();
        if (h::failed() && h::args.mode != "bad") return;
    }
    vnow = std::max(vnow, t);
}

// ---- hostile datagrams ---------------------------------------------------------------------------------------------
std::vector<Bytes> captured;
struct Hostile {
    bool only_first = false;
    std::string addr;
    bool peer = false;  // it announces itself
};
Bytes hostile_bytes(Rng& r) {
    Bytes b;
    int type = int(r(8));
    auto head = [&](int t) { b = {0xE2, 0x98, 0xA2, 0x02, uint8_t(t)}; };
    auto u16 = [&](int v) { b.push_back(uint8_t(v)); b.push_back(uint8_t(v >> 8)); };
    static const int odd[] = {0, 1, 2, 7, 8, 9, 255, 256, 257, 1000, 32767, 32768, 65534, 65535};
    auto val = [&] { return r.chance(1, 2) ? odd[r(14)] : r.range(0, 20); };
    switch (r(6)) {
        case 0:  // anything
            b.resize(r(r.chance(1, 4) ? 2000 : 40));
            for (auto& c : b) c = uint8_t(r.next());
            if (r.chance(1, 2)) for (size_t i = 0; i < std::min<size_t>(4, b.size()); ++i) b[i] = "\xE2\x98\xA2\x02"[i];
            break;
        case 1:  // a header with something
            head(type);
            for (size_t n = r(30); n > 0; --n) b.push_back(uint8_t(r.next()));
            break;
        case 2: {  // data
            head(r.chance(1, 2) ? 3 : 4);
            int count = val();
            u16(r.range(0, 5)); u16(r.chance(1, 2) ? r.range(0, std::max(count, 1)) : val()); u16(count);
            b.push_back(uint8_t(r.chance(1, 3) ? r.next() : r(2)));
            for (int i = 0; i < 8; ++i) b.push_back(uint8_t(r.next()));
            for (size_t n = r.chance(1, 2) ? 0 : r(1500); n > 0; --n) b.push_back(uint8_t(r.next()));
            if (r.chance(1, 4)) b.resize(r(b.size() + 1));
            break;
        }
        case 3: {  // acknowledgements of what may be in flight
            bool ack = r.chance(1, 2);
            head(ack ? 5 : 6);
            u16(r.range(0, 40)); if (ack) u16(val());
            int count = r.chance(1, 2) ? r.range(1, 20) : val();
            u16(count);
            for (int n = r.chance(3, 4) ? 1 + count / 8 : int(r(40)); n > 0; --n) b.push_back(uint8_t(r.chance(1, 2) ? 255 : r.next()));
            if (r.chance(1, 6)) b.resize(r(b.size() + 1));
            break;
        }
        case 4:  // announcements
            head(1);
            for (size_t n = r.chance(1, 3) ? r(3) : r(60); n > 0; --n) b.push_back(uint8_t(r.chance(1, 2) ? 0 : r.next()));
            break;
        default:
            if (captured.empty()) { head(2); break; }
            b = captured[r(captured.size())];
            for (int n = r.range(0, 4); n > 0; --n) {
                if (b.empty()) break;
                switch (r(4)) {
                    case 0: b[r(b.size())] = uint8_t(r.next()); break;
                    case 1: b.resize(r(b.size() + 1)); break;
                    case 2: b.resize(b.size() + r(20)); break;
                    default: b[r(std::min<size_t>(b.size(), 22))] ^= uint8_t(1u << r(8)); break;
                }
            }
            break;
    }
    return b;
}
// ---- cases -----------------------------------------------------------------------------------------------------
void finish() {
    // No new faults; everybody gets time to get everything through
    W->healed = true;
    W->loss = W->dup = W->send_fail = 0;
    run_until(vnow + 25 * SEC);
    W->quiet_since = vnow;
    run_until(vnow + 3 * SEC);
}
// What was acknowledged is not kept
void probe() {
    std::vector<int> up;
    for (size_t i = 0; i < W->insts.size(); ++i) if (W->insts[i]->alive && W->insts[i]->mtu >= 1000) up.push_back(int(i));
    if (up.empty()) return;
    W->quiet_since = 0;
    // The queue must not grow in between
    std::vector<Event> space;
    space.reserve(200000);
    for (; !W->events.empty(); W->events.pop()) space.push_back(W->events.top());
    W->events   = std::priority_queue<Event>(std::less<Event>(), std::move(space));
    size_t sent = 0, before = 0;
    for (int round = 0; round < 2; ++round) {
        before = heap();
        sent   = 0;
        for (int i = 0; i < 20; ++i) {
            int me   = up[W->r(up.size())];
            Inst& in = *W->insts[size_t(me)];
            As as(me);
            int frags = W->r.chance(1, 2) ? 8 * W->r.range(1, 3) : W->r.range(1, 24);
            Bytes b(size_t(in.mtu - 68) * size_t(frags) - size_t(W->r.range(1, 50)));
            sent += b.size();
            in.net->send(PROBE, b, "", true);
        }
        W->probed += 20;
        run_until(vnow + 8 * SEC);
    }
    size_t after = heap();
    if (after > before + sent / 8 + 40000) h::viol("kept", "after %zu bytes in 20 reliable messages were delivered %zu bytes more are in use", sent, after - before);
}
void check() {
    int owed = 0, unrel = 0, unrel_got = 0, rel = 0;
    for (size_t id = 0; id < W->msgs.size(); ++id) {
        Msg& m  = W->msgs[id];
        Inst& s = *W->insts[size_t(m.src)];
        for (auto& o : m.owed) {
            Inst& d = *W->insts[size_t(o.first)];
            if (!d.alive || !s.alive) continue;
            View& v = s.view[d.data_addr];
            if (m.reliable) {
                rel++;
                if (!v.joined || v.epoch != o.second) continue;  // did not stay connected
                owed++;
                if (m.got[o.first] == 0) h::viol("lost", "a reliable message of %zu bytes (%d fragments) from %s to %s (%s) was not delivered", m.size, m.frags, s.name.c_str(), d.name.c_str(), m.target.c_str());
            }
            else unrel++;
        }
        if (m.reliable) continue;
        // Unreliable: what arrived completely has to be delivered
        for (auto& f : m.frag_in) {
            Inst& d = *W->insts[size_t(f.first)];
            if (m.got[f.first] > 0) { unrel_got++; continue; }
            if (!d.alive || m.in_epoch[f.first] == 0 || d.view[s.data_addr].epoch != m.in_epoch[f.first]) continue;
            if (int(f.second.size()) != m.frags) continue;
            std::vector<uint64_t> t;
            for (auto& x : f.second) t.push_back(x.second.second.first);
            std::sort(t.begin(), t.end());
            uint64_t gap = 0;
            for (size_t i = 1; i < t.size(); ++i) gap = std::max(gap, t[i] - t[i - 1]);
            if (gap < W->base * 5) h::viol("dropped", "an unreliable message of %d fragments from %s to %s was received completely but not delivered", m.frags, s.name.c_str(), d.name.c_str());
        }
        if (!W->faulty && !W->churn && (m.target.empty() || true)) {
            for (auto& o : m.owed) {
                Inst& d = *W->insts[size_t(o.first)];
                View& v = d.view[s.data_addr];
                if (!v.joined || v.joins != 1 || m.time < 1 * SEC) continue;
                if (W->hostile_datagrams == 0 && m.frag_in[o.first].empty()) h::viol("unsent", "an unreliable message from %s to %s (%s) was not sent", s.name.c_str(), d.name.c_str(), m.target.c_str());
            }
        }
    }
    // Who is there
    int pairs = 0;
    for (auto& a : W->insts) {
        if (!a->alive) continue;
        if (vnow - a->last_announce > 900 * MS) h::viol("silent", "%s has not announced itself for %.3f s", a->name.c_str(), double(vnow - a->last_announce) / 1e9);
        for (auto& b : W->insts) {
            if (a == b && (!W->loop || W->unicast)) continue;
            View& v = a->view[b->data_addr];
            if (b->alive && !v.joined) h::viol("join-missing", "%s does not know of %s", a->name.c_str(), b->name.c_str());
            if (!b->alive && v.joined && vnow - b->stopped > 4 * SEC) h::viol("leave-missing", "%s does not know that %s is gone", a->name.c_str(), b->name.c_str());
            if (!W->faulty && !W->churn && b->alive && v.joins != 1) h::viol("join-count", "%s joined %d times without a fault", b->name.c_str(), v.joins);
            if (v.joined) pairs++;
        }
    }
    h::note("nodes", int64_t(W->insts.size()));
    h::note("messages", int64_t(W->msgs.size()));
    h::note("reliable_deliveries_required", owed);
    h::note("reliable_deliveries_not_connected", rel - owed);
    h::note("unreliable_addressed", unrel);
    h::note("unreliable_delivered", unrel_got);
    h::note("delivered", int64_t(W->n_delivered));
    h::note("datagrams", int64_t(W->n_sent));
    h::note("datagrams_lost", int64_t(W->n_lost));
    h::note("datagrams_duplicated", int64_t(W->n_dup));
    h::note("retransmissions", int64_t(W->n_retrans));
    h::note("acknowledgements", int64_t(W->n_ack));
    h::note("negative_acknowledgements", int64_t(W->n_nack));
    h::note("joins", int64_t(W->n_joins));
    h::note("leaves", int64_t(W->n_leaves));
    h::note("timeouts", int64_t(W->n_timeouts));
    h::note("hostile_datagrams", int64_t(W->hostile_datagrams));
    h::note("connected_at_end", pairs);
    h::note("too_large_refused", int64_t(W->refused));
    h::sig(W->sig);
    h::sample("case %llu: %d nodes, %zu messages, %llu datagrams, %llu lost, %llu duplicated, %llu delivered", (unsigned long long) h::case_no, int(W->insts.size()), W->msgs.size(), (unsigned long long) W->n_sent,
              (unsigned long long) W->n_lost, (unsigned long long) W->n_dup, (unsigned long long) W->n_delivered);
}
void run_case(Rng& rng) {
    World w;
    W     = &w;
    w.r   = Rng(rng.next());
    vnow  = 10 * SEC;
    socks.clear();
    captured.clear();
    w.heap_before = heap();
    const std::string& mode = h::args.mode;
    Rng& r = w.r;
    switch (r(4)) {
        case 0: w.multicast = true; w.announce_ip[0] = "239.226.152.162"; break;
        case 1: w.bcast = true; w.announce_ip[0] = "10.0.0.255"; break;
        case 2: w.multicast = true; w.family = AF_INET6; w.announce_ip[0] = "ff02::98a2"; break;
        default:
            w.unicast        = true;
            w.family         = r.chance(1, 2) ? AF_INET : AF_INET6;
            w.announce_ip[0] = w.family == AF_INET ? "10.0.0.2" : "fd00::2";
            w.announce_ip[1] = w.family == AF_INET ? "10.0.0.1" : "fd00::1";
            break;
    }
    w.loop  = r.chance(1, 3);
    w.aport = r.range(1000, 9000);
    w.base  = r.chance(1, 2) ? uint64_t(r.range(50, 2000)) * 1000 : uint64_t(r.range(1, 150)) * MS;
    w.jitter = r.chance(1, 3) ? 0 : w.base * uint64_t(r.range(1, 3));
    double worst_loss = 0, worst_dup = 0;
    if (mode != "bad" && r.chance(3, 4)) {
        if (r.chance(3, 4)) worst_loss = r.chance(1, 4) ? 0.5 : 0.02 * r.range(1, 10);
        if (r.chance(1, 2)) worst_dup = 0.05 * r.range(1, 10);
        w.faulty = worst_loss > 0;
        w.dups   = worst_dup > 0;
    }
    w.churn = mode == "peers" ? r.chance(4, 5) : r.chance(1, 4);
    bool fails = (mode == "peers" || mode == "rel") && r.chance(1, 6);
    w.faulty |= fails;
    w.callbacks_send = r.chance(1, 3);
    int n = w.unicast ? 2 : r.range(2, 5);
    w.cut.assign(8, std::vector<bool>(8, false));
    w.budget = mode == "peers" ? r.range(0, 15) : r.range(2, 40);
    static const int mtus[] = {1500, 1500, 1500, 1280, 576, 150, 100, 9000};
    int common = mtus[r(8)];
    auto mtu   = [&] { return r.chance(1, 4) ? mtus[r(8)] : common; };
    virt = true;
    uint64_t t0 = vnow, length = uint64_t(r.range(1, 8)) * SEC;
    int named = 0;
    auto name = [&](int node) {
        if (r.chance(1, 12)) return std::string("twin");
        return (r.chance(1, 10) ? std::string(size_t(r.range(20, 200)), char('a' + node)) : std::string("n")) + std::to_string(node) + (r.chance(1, 4) ? "_" + std::to_string(named++) : "");
    };
    for (int i = 0; i < n; ++i) at(t0 + (r.chance(1, 2) ? 0 : r(length / 2)), [i, &mtu, &name] { start(i, name(i), mtu()); });
    for (int i = w.budget; i > 0; --i) at(t0 + 100 * MS + r(length), [] { if (!W->insts.empty()) send_random(int(W->r(W->insts.size()))); });
    if (mode == "rel" && r.chance(1, 15)) {
        // Many at once, so that acknowledgements come late
        int cnt = r.range(200, 400);
        uint64_t when = t0 + SEC + r(length);
        w.budget += cnt;
        at(when, [cnt] { if (W->insts.empty()) return; int me = int(W->r(W->insts.size())); for (int i = 0; i < cnt; ++i) { W->budget--; send_as(me, true, W->r.chance(1, 2) ? "" : W->insts[0]->name, size_t(W->r(30)), W->r.next()); } });
    }
    if (r.chance(1, 40)) {
        // The numbers of messages are used again
        int me_no = int(r(uint64_t(n)));
        uint64_t when = t0 + SEC + r(length), again = t0 + length + 60 * SEC;
        for (int i = 0; i < 6; ++i) w.budget++, at(when - r(300 * MS), [me_no] { if (size_t(me_no) < W->insts.size()) send_random(me_no); });
        at(again, [me_no] {
            if (size_t(me_no) >= W->insts.size() || !W->insts[size_t(me_no)]->alive) return;
            As as(me_no);
            for (int i = 0; i < 65520 + int(W->r(20)); ++i) W->insts[size_t(me_no)]->net->send(1, {}, "nobody", false);
        });
        for (int i = 0; i < 12; ++i) w.budget++, at(again + 1 + r(300 * MS), [me_no] { send_random(me_no); });
        length = std::max(length, again + SEC - t0);
    }
    if (mode == "rel" && !fails && worst_loss < 0.3 && r.chance(1, 100)) {
        // So many that the numbers of messages are used again while they are still being acknowledged
        uint64_t when = t0 + SEC;
        length        = 42 * SEC;
        for (int i = 0; i < 270; ++i)
            at(when + uint64_t(i) * 150 * MS, [] {
                if (W->insts.empty() || !W->insts[0]->alive) return;
                for (int k = 0; k < 2; ++k) send_as(0, true, W->insts.back()->name, 1, W->r.next());
                As as(0);
                for (int k = 0; k < 510; ++k) W->insts[0]->net->send(1, {}, "nobody", false);
            });
    }
    // Phases of the network
    for (uint64_t t = t0; t < t0 + length; t += uint64_t(r.range(200, 2500)) * MS) {
        double l = r.chance(1, 3) ? 0 : worst_loss, d = r.chance(1, 3) ? 0 : worst_dup;
        bool f = fails && r.chance(1, 3);
        bool c = w.faulty && r.chance(1, 6);
        at(t, [l, d, f, c, n] {
            W->loss = l;
            W->dup  = d;
            W->send_fail = f ? 1 : 0;
            for (auto& row : W->cut) for (size_t i = 0; i < row.size(); ++i) row[i] = c && W->r.chance(1, 3);
        });
    }
    if (w.churn) {
        for (int i = r.range(1, 5); i > 0; --i) {
            at(t0 + 200 * MS + r(length), [&mtu, &name] {
                if (W->insts.empty()) return;
                int me = int(W->r(W->insts.size()));
                Inst& in = *W->insts[size_t(me)];
                if (!in.alive) return;
                bool again = W->r.chance(2, 3);
                int node   = in.node;
                switch (W->r(3)) {
                    case 0: stop(me, true); break;
                    default: stop(me, false); break;
                }
                std::string nm = in.name;
                int m          = in.mtu;
                if (again) at(vnow + W->r(3 * SEC), [node, nm, m] { start(node, nm, m); });
            });
        }
    }
    if (w.faulty && r.chance(1, 8)) {
        // A node that is held up for a while
        at(t0 + r(length), [] { if (!W->insts.empty()) W->insts[W->r(W->insts.size())]->stalled_until = vnow + uint64_t(W->r.range(100, 3500)) * MS; });
    }
    std::vector<Hostile> bad;
    if (mode == "bad") {
        int k = r.range(1, 3);
        for (int i = 0; i < k; ++i) {
            Hostile x;
            std::string ip = w.family == AF_INET ? std::string("\x0a\x00\x00", 3) + char(100 + i) : std::string("\xfd\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", 15) + char(100 + i);
            x.addr = key(ip, r.range(1024, 60000));
            x.peer = r.chance(2, 3);
            if (r.chance(1, 6)) {
                // From where announcements are sent to
                sockaddr_storage s{};
                auto* v4 = reinterpret_cast<sockaddr_in*>(&s);
                auto* v6 = reinterpret_cast<sockaddr_in6*>(&s);
                s.ss_family = sa_family_t(w.family);
                if (w.family == AF_INET) { inet_pton(AF_INET, w.announce_ip[0].c_str(), &v4->sin_addr); v4->sin_port = htons(uint16_t(w.aport)); }
                else { inet_pton(AF_INET6, w.announce_ip[0].c_str(), &v6->sin6_addr); v6->sin6_port = htons(uint16_t(w.aport)); }
                x.addr = pack(reinterpret_cast<sockaddr*>(&s));
                x.only_first = w.unicast;  // the other node would take it for that of a node
            }
            bad.push_back(x);
        }
        int count = r.range(20, 300);
        for (int i = 0; i < count; ++i) {
            int who = int(r(bad.size()));
            bool hello = bad[size_t(who)].peer && r.chance(1, 5);
            Hostile x  = bad[size_t(who)];
            at(t0 + 50 * MS + r(length), [x, hello] {
                std::vector<int> open;
                for (size_t i = 0; i < socks.size(); ++i) if (socks[i].open && (!x.only_first || W->insts[size_t(socks[i].inst)]->node == 0)) open.push_back(int(i));
                if (open.empty()) return;
                int s = open[W->r(open.size())];
                if (captured.size() < 50) for (auto& k : socks) if (!k.q.empty()) captured.push_back(k.q.front().data);
                Dgram d;
                d.from = x.addr;
                if (hello) { std::string t = std::string("\xE2\x98\xA2\x02\x01\x00", 6) + "evil"; d.data.assign(t.begin(), t.end()); }
                else d.data = hostile_bytes(W->r);
                W->hostile_datagrams++;
                arrive(s, d);
            });
        }
    }
    run_until(t0 + length + 200 * MS);
    if (!h::failed()) finish();
    if (!h::failed()) check();
    if (!h::failed() && mode == "rel" && r.chance(1, 8)) probe();
    for (auto& i : w.insts) { As as(int(&i - &w.insts[0])); i->net.reset(); }
    virt = false;
    W    = nullptr;
}
void state(std::string& s) {
    char b[200];
    if (W == nullptr) return;
    snprintf(b, sizeof b, "at %.6f s, %zu messages, instance %d runs", double(vnow) / 1e9, W->msgs.size(), W->cur);
    s += b;
}
}  // namespace
int main(int argc, char** argv) {
    h::describe_state = state;
    return h::main_loop(argc, argv, run_case);
}
