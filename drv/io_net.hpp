// TCP and UDP, in a network namespace of our own (included by io.cpp inside its anonymous namespace)
#include "netns.hpp"

union Addr {
    sockaddr sa;
    sockaddr_in v4;
    sockaddr_in6 v6;
};
Addr addr_of(const char* ip, int port) {
    Addr a;
    memset(&a, 0, sizeof a);
    if (strchr(ip, ':') != nullptr) {
        a.v6.sin6_family = AF_INET6;
        a.v6.sin6_port   = htons(uint16_t(port));
        inet_pton(AF_INET6, ip, &a.v6.sin6_addr);
    }
    else {
        a.v4.sin_family = AF_INET;
        a.v4.sin_port   = htons(uint16_t(port));
        inet_pton(AF_INET, ip, &a.v4.sin_addr);
    }
    return a;
}
socklen_t len_of(const Addr& a) { return a.sa.sa_family == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in); }
int port_of(const sockaddr* s) { return ntohs(s->sa_family == AF_INET6 ? reinterpret_cast<const sockaddr_in6*>(s)->sin6_port : reinterpret_cast<const sockaddr_in*>(s)->sin_port); }
std::string ip_of(const sockaddr* s) {
    char b[INET6_ADDRSTRLEN] = "?";
    if (s->sa_family == AF_INET6) inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6*>(s)->sin6_addr, b, sizeof b);
    else if (s->sa_family == AF_INET) inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(s)->sin_addr, b, sizeof b);
    return b;
}
std::string text_of(const sockaddr* s) { return ip_of(s) + ":" + std::to_string(port_of(s)); }

// ---- TCP ---------------------------------------------------------------------------------------------------------
constexpr int MAX_L = 6, MAX_T = 48;
struct Listener {
    std::string bind_ip;          // "" any IPv4
    std::string dial[3];
    int n_dial = 0;
    int cfg = 0, port = 0, ops = 0;  // ops: 0 none, 1 disabled for a while, 2 unbound when its clients are done
    int fd = -1;
    std::atomic<int> open{0};     // clients that are not done yet
    std::atomic<bool> unbound{false}, bound{false};
    N::threading::ReactionHandle handle;
};
struct Conn {
    int l = 0;
    int kind = 0;                 // 0 sends, ends and reads the answer; 1 reset at once; 2 reset after sending; 3 closes without reading
    int total = 0;
    std::string from, to;         // as the client sees it
    std::atomic<int> accepted{0}, got{0}, fd{-1}, ends{0}, running{0};
    std::atomic<bool> client_ended{false};
};
Listener listeners[MAX_L];
Conn conns[MAX_T];
std::atomic<int> n_conns{0};
int n_listeners = 0;
std::atomic<int> port_to_conn[2][65536];

struct TcpPlan : N::Reactor {
    explicit TcpPlan(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        io_reactor = this;
        for (int i = 0; i < n_listeners; ++i) if (i % 2 == 0) bind(i);
    }
    template <typename... W>
    void put(int l) {
        Listener& x = listeners[l];
        N::threading::ReactionHandle hd;
        in_port_t port = 0;
        int fd         = -1;
        auto cb        = [this, l](const TCP::Connection& c) { accepted(l, c); };
        if (x.bind_ip.empty()) std::tie(hd, port, fd) = on<TCP, W...>(in_port_t(0)).then(cb);
        else std::tie(hd, port, fd) = on<TCP, W...>(in_port_t(0), x.bind_ip).then(cb);
        x.handle = hd;
        x.port   = port;
        x.fd     = fd;
        x.bound  = true;
    }
    void bind(int l) {
        try {
            switch (listeners[l].cfg) {
                case 0: put(l); return;
                case 1: put<Pool<P1>>(l); return;
                case 2: put<Sync<S0>>(l); return;
                case 3: put<Single>(l); return;
                case 4: put<Inline::ALWAYS>(l); return;
                case 5: put<MainThread>(l); return;
                default: put<Buffer<2>, Priority::HIGH>(l); return;
            }
        }
        catch (const std::exception& e) { h::viol("bind", "on<TCP> threw: %s", e.what()); }
    }
    void accepted(int l, const TCP::Connection& c) {
        Listener& x = listeners[l];
        if (!c || c.fd < 0) { h::viol("invalid", "a TCP reaction ran without a connection"); return; }
        if (x.unbound) h::viol("unbound", "a connection was accepted after the listener was unbound");
        h::ctr_add(C_RUNS, 1);
        int six = c.remote.sock.sa_family == AF_INET6;
        int p   = port_of(&c.remote.sock);
        int k   = port_to_conn[six][p];
        h::ev(GOT, uint64_t(l), uint64_t(k), uint64_t(p));
        if (k < 0) { h::viol("unknown", "a connection from %s was reported that no client made", text_of(&c.remote.sock).c_str()); return; }
        Conn& q = conns[k];
        if (++q.accepted > 1) h::viol("twice", "the connection from %s was handed over %d times", q.from.c_str(), int(q.accepted));
        if (q.l != l) h::viol("listener", "a connection to listener %d was handed to %d", q.l, l);
        if (text_of(&c.remote.sock) != q.from) h::viol("remote", "the remote address is %s, the client is %s", text_of(&c.remote.sock).c_str(), q.from.c_str());
        if (text_of(&c.local.sock) != q.to) h::viol("local", "the local address is %s, the client dialled %s", text_of(&c.local.sock).c_str(), q.to.c_str());
        Addr a; socklen_t n = sizeof a;
        if (::getsockname(c.fd, &a.sa, &n) != 0 || text_of(&a.sa) != q.to) h::viol("fd", "the descriptor of a connection is not the connection");
        n = sizeof a;
        if (::getpeername(c.fd, &a.sa, &n) == 0 && text_of(&a.sa) != q.from) h::viol("fd", "the descriptor of a connection is connected to %s instead of %s", text_of(&a.sa).c_str(), q.from.c_str());
        q.fd = c.fd;
        on<IO>(c.fd, IO::READ | IO::CLOSE).then([this, k](const IO::Event& e) { read_some(k, e); });
    }
    void read_some(int k, const IO::Event& e) {
        Conn& q = conns[k];
        if (++q.running > 1) h::viol("overlap", "an IO reaction ran twice at the same time");
        if (q.fd != e.fd) h::viol("fd", "an event of another descriptor");
        h::ctr_add(C_WRUNS, 1);
        uint8_t b[300];
        bool over = (e.events & IO::CLOSE) != 0;
        ssize_t n = 0;
        do {
            n = ::recv(q.fd, b, sizeof b, MSG_DONTWAIT);
            for (ssize_t i = 0; i < n; ++i) {
                if (b[i] != pattern(k, q.got)) { h::viol("data", "byte %d of connection %d is wrong", int(q.got), k); break; }
                q.got++;
            }
        } while (over && n > 0);
        if (n > 0) h::ctr_add(C_BYTES, n);
        if (n == 0 && !q.client_ended) h::viol("end", "the end of a connection was read that its client has not ended");
        if (over) {
            if (!q.client_ended) h::viol("close", "a CLOSE event was reported for a connection that its client has not ended");
            if (q.kind == 0 || q.kind == 3) {
                if (q.got != q.total) h::viol("lost", "connection %d ended after %d of %d bytes", k, int(q.got), q.total);
            }
            if (++q.ends > 1) h::viol("ends", "CLOSE was reported %d times for a connection", int(q.ends));
            uint32_t answer = uint32_t(q.got);
            (void) !::send(q.fd, &answer, sizeof answer, MSG_NOSIGNAL);
            int fd = q.fd;
            q.fd   = -1;
            --q.running;
            ::close(fd);
            --listeners[q.l].open;
            left(-1);
            return;
        }
        --q.running;
    }
};
void tcp_client(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        int l       = int(r(uint64_t(n_listeners)));
        Listener& x = listeners[l];
        int k       = n_conns++;
        if (k >= MAX_T) { left(-1); continue; }
        Conn& q = conns[k];
        while (!x.bound) nap_us(50);
        std::string ip = x.dial[r(uint64_t(x.n_dial))];
        q.l     = l;
        q.kind  = r.chance(1, 2) ? 0 : int(r(4));
        q.total = r.chance(1, 5) ? 0 : r.chance(1, 8) ? r.range(2000, 20000) : r.range(1, 700);
        Addr to, me;
        int fd, n_retries = 100, nobody, sent = 0;
        socklen_t len;
        linger hard{1, 0};
        uint8_t b[1500];
    again:
        to = addr_of(ip.c_str(), x.port);
        fd = ::socket(to.sa.sa_family, SOCK_STREAM, 0);
        me = addr_of(ip.c_str(), 0);
        if (fd < 0 || n_retries == 0 || ::bind(fd, &me.sa, len_of(me)) != 0) { h::viol("harness", "bind: %s", strerror(errno)); left(-1); continue; }
        len = sizeof me;
        ::getsockname(fd, &me.sa, &len);
        q.from = text_of(&me.sa);
        q.to   = text_of(&to.sa);
        nobody = -1;
        if (!port_to_conn[me.sa.sa_family == AF_INET6][port_of(&me.sa)].compare_exchange_strong(nobody, k)) {
            // A connection that was reset had it, and may not have been accepted yet
            ::close(fd);
            --n_retries;
            goto again;
        }
        h::ev(CONN_B, uint64_t(l), uint64_t(k), uint64_t(port_of(&me.sa)));
        if (::connect(fd, &to.sa, len_of(to)) != 0) {
            h::viol("refused", "connecting to %s failed: %s", q.to.c_str(), strerror(errno));
            ::close(fd);
            left(-1);
            continue;
        }
        h::ev(CONN_E, uint64_t(l), uint64_t(k), 0);
        if (q.kind == 1) {
            q.client_ended = true;
            ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &hard, sizeof hard);
            ::close(fd);
            continue;
        }
        while (sent < q.total) {
            int m = std::min(int(sizeof b), std::min(q.total - sent, r.range(1, 1500)));
            for (int j = 0; j < m; ++j) b[j] = pattern(k, sent + j);
            ssize_t s = ::send(fd, b, size_t(m), MSG_NOSIGNAL);
            if (s <= 0) { h::viol("broken", "sending on a connection failed: %s", strerror(errno)); break; }
            sent += int(s);
            if (r.chance(1, 3)) nap_us(r(100));
        }
        q.client_ended = true;
        if (q.kind == 2) {
            ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &hard, sizeof hard);
            ::close(fd);
        }
        else if (q.kind == 3) ::close(fd);
        else {
            ::shutdown(fd, SHUT_WR);
            uint32_t answer = 0;
            ssize_t got     = ::recv(fd, &answer, sizeof answer, MSG_WAITALL);
            if (got != 4 || answer != uint32_t(q.total)) h::viol("answer", "the answer has %d bytes and says %u instead of %d", int(got), answer, q.total);
            ::close(fd);
        }
    }
}
void tcp_ops(uint64_t seed) {
    Rng r(seed);
    auto* p = static_cast<TcpPlan*>(io_reactor);
    for (int l = 0; l < n_listeners; ++l) if (l % 2 == 1) { nap_us(r(100)); p->bind(l); }
    for (int l = 0; l < n_listeners; ++l) {
        Listener& x = listeners[l];
        if (x.ops == 1) {
            x.handle.disable();
            nap_us(r(500));
            x.handle.enable();
        }
    }
    for (int l = 0; l < n_listeners; ++l) {
        Listener& x = listeners[l];
        if (x.ops != 2) continue;
        // All others are done when only we are left
        while (h::ctr_get(C_LEFT) > 1) nap_us(100);
        x.handle.unbind();
        x.unbound = true;
        if (!own_net) continue;  // others may use the port again
        Addr to = addr_of(x.dial[0].c_str(), x.port);
        int fd  = ::socket(to.sa.sa_family, SOCK_STREAM, 0);
        if (::connect(fd, &to.sa, len_of(to)) == 0) h::viol("open", "a connection could be made after the listener was unbound");
        ::close(fd);
        h::ctr_add(C_CLOSES, 1);
    }
    left(-1);
}
void run_tcp(Rng& rng) {
    for (auto& q : conns) { q.accepted = q.got = q.ends = q.running = 0; q.fd = -1; q.client_ended = false; q.from.clear(); q.to.clear(); }
    for (auto& s : port_to_conn) for (auto& p : s) p.store(-1, std::memory_order_relaxed);
    n_conns     = 0;
    n_listeners = rng.range(1, 4);
    for (int l = 0; l < n_listeners; ++l) {
        Listener& x = listeners[l];
        x.cfg = int(rng(7)); x.ops = int(rng(3)); x.port = 0; x.fd = -1; x.open = 0; x.unbound = x.bound = false; x.handle = {};
        x.n_dial = 0;
        switch (rng(own_net ? 5 : 3)) {
            case 0: x.bind_ip = ""; x.dial[x.n_dial++] = "127.0.0.1"; if (own_net) { x.dial[x.n_dial++] = "10.7.0.1"; x.dial[x.n_dial++] = "10.8.0.1"; } break;
            case 1: x.bind_ip = "127.0.0.1"; x.dial[x.n_dial++] = "127.0.0.1"; break;
            case 2: x.bind_ip = "0.0.0.0"; x.dial[x.n_dial++] = "127.0.0.1"; break;
            case 3: x.bind_ip = "10.8.0.1"; x.dial[x.n_dial++] = "10.8.0.1"; break;
            default: x.bind_ip = "::1"; x.dial[x.n_dial++] = "::1"; break;
        }
    }
    int n_clients = rng.range(1, 4), each = rng.range(1, 6);
    h::ctr_set(C_LEFT, n_clients * each + 1);
    int conc = rng.range(1, 4);
    h::sched_fair_after = 500;
    h::sched_begin(rng, 4000);
    {
        N::Configuration c;
        c.default_pool_concurrency = conc;
        N::PowerPlant p(c);
        plant = &p;
        p.install<N::extension::IOController>();
        p.install<TcpPlan>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_clients; ++t) {
            uint64_t s = rng.next();
            ext.emplace_back([s, each] { tcp_client(s, each); });
        }
        uint64_t s = rng.next();
        ext.emplace_back([s] { tcp_ops(s); });
        p.start();
        for (auto& t : ext) t.join();
        for (auto& x : listeners) x.handle = {};
    }
    h::sched_end();
    int normal = 0, resets = 0, k = std::min(n_conns.load(), MAX_T);
    for (int i = 0; i < k; ++i) {
        if (conns[i].accepted != 1) h::viol("missing", "connection %d was handed over %d times", i, int(conns[i].accepted));
        if (conns[i].kind == 0 || conns[i].kind == 3) normal++; else resets++;
        if (conns[i].fd >= 0) ::close(conns[i].fd);
    }
    h::note("own_network", own_net);
    h::note("listeners", n_listeners);
    h::note("connections_ended", normal);
    h::note("connections_reset", resets);
    h::note("bytes_read", h::ctr_get(C_BYTES));
    h::note("unbound_ports_checked", h::ctr_get(C_CLOSES));
    uint64_t sg = 11;
    for (uint64_t i = 0; i < h::ev_count(); ++i) if (h::ev_at(i).type == GOT) sg = h::mix(sg, h::ev_at(i).a * 64 + h::ev_at(i).b);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d listeners, %d connections of which %d reset, %lld bytes", (unsigned long long) h::case_no, n_listeners, k, resets, (long long) h::ctr_get(C_BYTES));
    plant = nullptr;
}

// ---- UDP ---------------------------------------------------------------------------------------------------------
enum UKind { UNI, BROAD, MULTI };
constexpr int MAX_U = 8, MAX_M = 200;
struct ULis {
    int kind = 0, port = 0, cfg = 0, ops = 0;  // ops: 1 disabled for a while, 2 unbound at the end
    std::string bind_ip, group;
    std::vector<std::string> dest;             // where to send for it to receive
    std::atomic<int> got{0}, running{0};
    std::atomic<bool> unbound{false};
    std::atomic<int> tiny{-1};                 // the message of fewer than 4 bytes that may arrive
    N::threading::ReactionHandle handle;
};
struct Msg {
    int port = 0, size = 0;
    std::string to, from_ip;
    int from_port = 0;                         // 0: not known
    uint32_t expect = 0;                       // listeners that have to get it
    uint64_t seed = 0;
    std::atomic<uint32_t> got{0};
    std::atomic<int> runs{0};
};
ULis ulis[MAX_U];
Msg msgs[MAX_M];
int n_ulis = 0;
std::atomic<int> n_msgs{0};
std::mutex port_mutex[MAX_U];
struct Word8 { uint32_t id; uint32_t x; };

void fill(const Msg& m, uint32_t id, std::vector<uint8_t>& b) {
    b.resize(size_t(m.size));
    uint64_t s = m.seed;
    for (size_t i = 0; i < b.size(); ++i) { if (i % 8 == 0) s = h::mix(s, i); b[i] = uint8_t(s >> (8 * (i % 8))); }
    if (b.size() >= 4) memcpy(b.data(), &id, 4);
}
struct UdpPlan : N::Reactor {
    explicit UdpPlan(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        io_reactor = this;
        for (int i = 0; i < n_ulis; ++i) bind(i);
    }
    template <typename... W>
    void put(int l) {
        ULis& x  = ulis[l];
        auto cb  = [this, l](const UDP::Packet& p) { received(l, p); };
        in_port_t port = in_port_t(x.port);
        if (x.kind == UNI) {
            if (x.bind_ip.empty()) std::tie(x.handle, port, std::ignore) = on<UDP, W...>(port).then(cb);
            else std::tie(x.handle, port, std::ignore) = on<UDP, W...>(port, x.bind_ip).then(cb);
        }
        else if (x.kind == BROAD) std::tie(x.handle, port, std::ignore) = on<UDP::Broadcast, W...>(port).then(cb);
        else std::tie(x.handle, port, std::ignore) = on<UDP::Multicast, W...>(x.group, port).then(cb);
        if (x.port != 0 && x.port != port) h::viol("port", "asked for port %d and got %d", x.port, int(port));
        if (port == 0) h::viol("port", "no port was returned");
        x.port = port;
    }
    void bind(int l) {
        try {
            switch (ulis[l].cfg) {
                case 0: put(l); return;
                case 1: put<Pool<P1>>(l); return;
                case 2: put<Sync<S0>>(l); return;
                case 3: put<Single>(l); return;
                case 4: put<Inline::ALWAYS>(l); return;
                case 5: put<MainThread>(l); return;
                default: put<Buffer<2>, Priority::LOW>(l); return;
            }
        }
        catch (const std::exception& e) { h::viol("bind", "on<UDP> threw: %s", e.what()); }
    }
    // Listeners that are unbound while a datagram for them arrives: nobody else may lose one
    void churn(Rng& r) {
        N::threading::ReactionHandle hd;
        in_port_t port = 0;
        std::tie(hd, port, std::ignore) = on<UDP>(in_port_t(0), "127.0.0.1").then([](const UDP::Packet& p) {
            if (p.payload.size() != 3 || p.payload[0] != 0xEE) h::viol("foreign", "a listener that is being unbound received a datagram of %d bytes that was not sent to it", int(p.payload.size()));
        });
        for (int k = r.range(1, 2); k > 0; --k) {
            auto d = std::make_unique<std::vector<uint8_t>>(3, 0xEE);
            send(d, "127.0.0.1", port);
            if (r.chance(1, 3)) nap_us(r(60));
        }
        hd.unbind();
        for (int k = 0; k < 2; ++k) to_raw(r, 10);
    }
    void to_raw(Rng& r, int who);
    template <typename... A>
    void send(std::unique_ptr<std::vector<uint8_t>>& d, A... a) { emit<Scope::UDP>(d, a...); }
    void received(int l, const UDP::Packet& p) {
        ULis& x = ulis[l];
        h::ctr_add(C_RUNS, 1);
        h::ctr_add(C_BYTES, int64_t(p.payload.size()));
        if (x.unbound) h::viol("unbound", "a datagram was received after the listener was unbound");
        if (++x.running > 1) h::viol("overlap", "a UDP reaction ran twice at the same time");
        if (!p || !p.valid) h::viol("invalid", "a UDP reaction ran without a datagram");
        uint32_t id = 0;
        if (p.payload.size() < 4) {
            int t = x.tiny;
            if (t < 0) { h::viol("foreign", "a datagram of %d bytes was received that was not sent to this listener", int(p.payload.size())); --x.running; return; }
            id = uint32_t(t);
        }
        else memcpy(&id, p.payload.data(), 4);
        h::ev(GOT, uint64_t(l), id, p.payload.size());
        if (id >= uint32_t(std::min(n_msgs.load(), MAX_M))) { h::viol("data", "a datagram was received that nobody sent"); --x.running; return; }
        Msg& m = msgs[id];
        if ((m.expect & (1u << l)) == 0) h::viol("foreign", "a datagram to %s:%d was received by the %s listener %d of port %d", m.to.c_str(), m.port, x.kind == UNI ? "unicast" : x.kind == BROAD ? "broadcast" : "multicast", l, x.port);
        m.runs++;
        if ((m.got.fetch_or(1u << l) & (1u << l)) != 0) h::viol("twice", "a datagram to %s:%d was received twice by listener %d of kind %d", m.to.c_str(), m.port, l, x.kind);
        std::vector<uint8_t> b;
        fill(m, id, b);
        if (b != p.payload) h::viol("data", "a datagram of %d bytes was received as %d bytes or altered", m.size, int(p.payload.size()));
        if (port_of(&p.local.sock) != m.port || ip_of(&p.local.sock) != m.to) h::viol("local", "a datagram to %s:%d says that it was sent to %s", m.to.c_str(), m.port, text_of(&p.local.sock).c_str());
        if (!m.from_ip.empty() && ip_of(&p.remote.sock) != m.from_ip) h::viol("remote", "a datagram from %s says that it came from %s", m.from_ip.c_str(), text_of(&p.remote.sock).c_str());
        if (m.from_port != 0 && port_of(&p.remote.sock) != m.from_port) h::viol("remote", "a datagram from port %d says that it came from %s", m.from_port, text_of(&p.remote.sock).c_str());
        x.got++;
        h::work(id);
        --x.running;
    }
};
int raw_socket(const std::string& from, Rng& r, int& port) {
    Addr a = addr_of(from.c_str(), 0);
    int fd = ::socket(a.sa.sa_family, SOCK_DGRAM, 0), on = 1;
    ::setsockopt(fd, SOL_SOCKET, SO_BROADCAST, &on, sizeof on);
    ::setsockopt(fd, IPPROTO_IP, IP_MULTICAST_IF, &a.v4.sin_addr, sizeof a.v4.sin_addr);
    if (fd < 0 || ::bind(fd, &a.sa, len_of(a)) != 0) { h::viol("harness", "bind: %s", strerror(errno)); return -1; }
    socklen_t n = sizeof a;
    ::getsockname(fd, &a.sa, &n);
    port = port_of(&a.sa);
    (void) r;
    return fd;
}
bool is_multi(const std::string& to) { return to.compare(0, 4, "239.") == 0; }
bool is_broad(const std::string& to) { return to == "255.255.255.255" || (to.compare(0, 3, "10.") == 0 && to.find(".255") != std::string::npos); }
// What is emitted has to arrive at another program too, on the network that it was sent from
void UdpPlan::to_raw(Rng& r, int who) {
    int kind       = int(r(own_net ? 4 : 1));
    const char* ip = kind == 0 ? "127.0.0.1" : kind == 1 ? "::1" : "239.9.9.9";
    std::string from = kind == 0 ? "127.0.0.1" : kind == 1 ? "::1" : kind == 2 ? "10.8.0.1" : "10.7.0.1";
    Addr me = addr_of(kind == 1 ? "::1" : kind == 0 ? "127.0.0.1" : "0.0.0.0", 0);
    int fd  = ::socket(me.sa.sa_family, SOCK_DGRAM, 0), off = 0;
    if (kind >= 2) {
        ip_mreq q{};
        inet_pton(AF_INET, ip, &q.imr_multiaddr);
        inet_pton(AF_INET, from.c_str(), &q.imr_interface);
        ::setsockopt(fd, IPPROTO_IP, IP_MULTICAST_ALL, &off, sizeof off);
        if (::setsockopt(fd, IPPROTO_IP, IP_ADD_MEMBERSHIP, &q, sizeof q) != 0) h::viol("harness", "joining: %s", strerror(errno));
    }
    socklen_t n = sizeof me;
    if (::bind(fd, &me.sa, n = len_of(me)) != 0) h::viol("harness", "bind: %s", strerror(errno));
    n = sizeof me;
    ::getsockname(fd, &me.sa, &n);
    int from_port = r.chance(1, 2) ? 30001 + who : 0;
    std::vector<uint8_t> b(r(3) == 0 ? 0 : r(1400));
    for (auto& c : b) c = uint8_t(r.next());
    auto d = std::make_unique<std::vector<uint8_t>>(b);
    try {
        send(d, ip, in_port_t(port_of(&me.sa)), from, in_port_t(from_port));
    }
    catch (const std::exception& e) { h::viol("emit", "emit<Scope::UDP> to %s threw: %s", ip, e.what()); }
    pollfd p{fd, POLLIN, 0};
    Addr src;
    n = sizeof src;
    std::vector<uint8_t> c(2000);
    if (::poll(&p, 1, 3000) <= 0) h::viol("outside", "a datagram emitted from %s to %s did not arrive at another program", from.c_str(), ip);
    else {
        ssize_t k = ::recvfrom(fd, c.data(), c.size(), 0, &src.sa, &n);
        c.resize(size_t(std::max<ssize_t>(k, 0)));
        if (k < 0 || c != b) h::viol("outside", "a datagram of %d bytes arrived as %d bytes or altered", int(b.size()), int(k));
        if (ip_of(&src.sa) != from || (from_port != 0 && port_of(&src.sa) != from_port)) h::viol("outside", "a datagram sent from %s:%d came from %s", from.c_str(), from_port, text_of(&src.sa).c_str());
        if (::recv(fd, c.data(), c.size(), MSG_DONTWAIT) >= 0) h::viol("outside", "a datagram arrived twice");
    }
    ::close(fd);
    h::ctr_add(C_AGAIN, 1);
}
void udp_sender(uint64_t seed, int n, int who) {
    Rng r(seed);
    std::vector<int> mine;
    auto drain = [&] {
        for (int id : mine) while ((msgs[id].got & msgs[id].expect) != msgs[id].expect) nap_us(50);
        mine.clear();
    };
    for (int i = 0; i < n; ++i) {
        if (r.chance(1, 12)) static_cast<UdpPlan*>(io_reactor)->to_raw(r, who);
        int id = n_msgs++;
        if (id >= MAX_M) break;
        Msg& m  = msgs[id];
        int l   = int(r(uint64_t(n_ulis)));
        ULis& x = ulis[l];
        bool wrong = own_net && r.chance(1, 4);
        m.port  = x.port;
        m.seed  = r.next();
        m.to    = x.dest[r(x.dest.size())];
        static const char* const odd[] = {"127.0.0.1", "10.7.0.1", "10.8.0.255", "10.7.0.255", "255.255.255.255", "239.1.2.3"};
        if (wrong && strchr(m.to.c_str(), ':') == nullptr) m.to = odd[r(6)];
        bool six = strchr(m.to.c_str(), ':') != nullptr;
        // Who gets it
        for (int k = 0; k < n_ulis; ++k) {
            if (ulis[k].port != m.port) continue;
            for (auto& d : ulis[k].dest) if (d == m.to) m.expect |= 1u << k;
        }
        bool small = r.chance(1, 3);
        m.size = r.chance(1, 8) ? r.range(4, 1472) : r.chance(1, 10) ? r.range(8000, 30000) : r.chance(1, 14) ? 65507 : small ? int(r(4)) : r.range(4, 200);
        if (six && m.size == 65507) m.size = 65000;
        // Nobody tells when it has been read, and what is not read yet takes room
        if (m.expect == 0) m.size = std::min(m.size, 700);
        bool lock_port = m.size < 4 || m.size > 1500;
        if (lock_port) { drain(); port_mutex[l].lock(); }
        // All listeners of this port share its first mutex
        int first = l;
        if (lock_port) {
            for (int k = 0; k < l; ++k) if (ulis[k].port == x.port) { first = k; break; }
            if (first != l) { port_mutex[l].unlock(); port_mutex[first].lock(); }
            if (m.size < 4) for (int k = 0; k < n_ulis; ++k) if (ulis[k].port == m.port && (m.expect & (1u << k)) != 0) ulis[k].tiny = id;
        }
        std::vector<uint8_t> b;
        fill(m, uint32_t(id), b);
        // From where
        std::string from;
        if (six) from = "::1";
        else if (m.to == "10.8.0.255") from = "10.8.0.1";
        else if (is_broad(m.to)) from = "10.7.0.1";
        else from = m.to.compare(0, 4, "127.") == 0 ? "127.0.0.1" : own_net && r.chance(1, 2) ? "10.8.0.1" : "127.0.0.1";
        if (is_multi(m.to)) from = "10.7.0.1";  // joined without an interface: on the one that the route leads to
        h::ev(SEND_B, uint64_t(l), uint64_t(id), uint64_t(m.size));
        int how = int(r(3));
        try {
            if (how == 0) {
                int fd = raw_socket(from, r, m.from_port);
                m.from_ip = from;
                Addr to = addr_of(m.to.c_str(), m.port);
                if (fd >= 0 && ::sendto(fd, b.data(), b.size(), 0, &to.sa, len_of(to)) != ssize_t(b.size())) h::viol("harness", "sendto %s %d bytes: %s", m.to.c_str(), int(b.size()), strerror(errno));
                if (fd >= 0) ::close(fd);
            }
            else {
                auto d = std::make_unique<std::vector<uint8_t>>(b);
                if (how == 1) static_cast<UdpPlan*>(io_reactor)->send(d, m.to, in_port_t(m.port));
                else {
                    m.from_ip   = from;
                    m.from_port = r.chance(1, 2) ? r.range(20000, 30000) : 0;
                    static_cast<UdpPlan*>(io_reactor)->send(d, m.to, in_port_t(m.port), from, in_port_t(m.from_port));
                }
            }
        }
        catch (const std::exception& e) { h::viol("emit", "emit<Scope::UDP> of %d bytes to %s threw: %s", int(b.size()), m.to.c_str(), e.what()); }
        h::ev(SEND_E, uint64_t(l), uint64_t(id), uint64_t(m.size));
        mine.push_back(id);
        if (lock_port || mine.size() >= 5 || r.chance(1, 3)) drain();
        if (lock_port) {
            if (m.size < 4) for (int k = 0; k < n_ulis; ++k) { int t = id; ulis[k].tiny.compare_exchange_strong(t, -1); }
            port_mutex[first].unlock();
        }
    }
    drain();
    left(-1);
}
void udp_ops(uint64_t seed) {
    Rng r(seed);
    for (int l = 0; l < n_ulis; ++l) {
        if (ulis[l].ops != 1) continue;
        ulis[l].handle.disable();
        nap_us(r(500));
        ulis[l].handle.enable();
    }
    for (int k = int(r(5)); k > 0; --k) static_cast<UdpPlan*>(io_reactor)->churn(r);
    while (h::ctr_get(C_LEFT) > 1) nap_us(100);
    for (int l = 0; l < n_ulis; ++l) {
        ULis& x = ulis[l];
        if (x.ops != 2) continue;
        x.handle.unbind();
        x.unbound = true;
        if (!own_net) continue;
        bool shared = false;
        for (int k = 0; k < n_ulis; ++k) if (k != l && ulis[k].port == x.port && !ulis[k].unbound) shared = true;
        if (shared) continue;
        Addr a = addr_of(x.bind_ip.empty() ? "0.0.0.0" : x.bind_ip.c_str(), x.port);
        int fd = ::socket(a.sa.sa_family, SOCK_DGRAM, 0);
        if (::bind(fd, &a.sa, len_of(a)) != 0) h::viol("released", "the port of an unbound UDP listener is still in use: %s", strerror(errno));
        ::close(fd);
        h::ctr_add(C_CLOSES, 1);
    }
    left(-1);
}
// Listeners that ask for any port get different ones
struct ManyPlan : N::Reactor {
    explicit ManyPlan(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        std::vector<int> ports;
        for (int i = 0; i < 350; ++i) {
            in_port_t port = 0;
            std::tie(std::ignore, port, std::ignore) = on<UDP>().then([] {});
            ports.push_back(port);
        }
        std::sort(ports.begin(), ports.end());
        h::ctr_add(C_RUNS, int64_t(ports.size()));
        if (std::unique(ports.begin(), ports.end()) != ports.end()) h::viol("port", "two listeners that asked for a port that is not in use got the same");
    }
};
void run_many() {
    N::Configuration c;
    N::PowerPlant p(c);
    p.install<N::extension::IOController>();
    p.install<ManyPlan>();
    h::note("listeners_on_any_port", h::ctr_get(C_RUNS));
}
void run_udp(Rng& rng) {
    if (h::case_no % 100 == 50) return run_many();
    n_msgs = 0;
    for (auto& m : msgs) { m.expect = 0; m.got = 0; m.runs = 0; m.from_port = 0; m.from_ip.clear(); }
    n_ulis   = rng.range(1, 6);
    int base = own_net ? rng.range(31000, 60000) : 0;
    int mport = base + 50, bport = base + 60;
    for (int l = 0; l < n_ulis; ++l) {
        ULis& x = ulis[l];
        x.kind = own_net ? int(rng(3)) : int(UNI);
        x.cfg = int(rng(7)); x.ops = int(rng(4)); x.got = x.running = 0; x.unbound = false; x.tiny = -1; x.handle = {};
        x.bind_ip.clear(); x.group.clear(); x.dest.clear();
        if (x.kind == UNI) {
            x.port = own_net && rng.chance(1, 2) ? base + l : 0;
            switch (rng(own_net ? 5 : 2)) {
                case 0: x.dest = {"127.0.0.1"}; if (own_net) x.dest = {"127.0.0.1", "10.7.0.1", "10.8.0.1"}; break;
                case 1: x.bind_ip = "127.0.0.1"; x.dest = {"127.0.0.1"}; break;
                case 2: x.bind_ip = "::1"; x.dest = {"::1"}; break;
                case 3: x.bind_ip = "::"; x.dest = {"::1"}; break;
                default: x.bind_ip = "10.8.0.1"; x.dest = {"10.8.0.1"}; break;
            }
        }
        else if (x.kind == BROAD) {
            x.port = rng.chance(1, 3) ? 0 : bport;
            x.dest = {"255.255.255.255", "10.7.0.255", "10.8.0.255"};
        }
        else {
            x.port  = rng.chance(1, 3) ? 0 : mport;
            x.group = "239.1.2.3";
            x.dest  = {"239.1.2.3"};
        }
    }
    int n_send = rng.range(1, 3), each = rng.range(2, 20);
    h::ctr_set(C_LEFT, n_send + 1);
    int conc = rng.range(1, 4);
    h::sched_fair_after = 500;
    h::sched_begin(rng, 4000);
    {
        N::Configuration c;
        c.default_pool_concurrency = conc;
        N::PowerPlant p(c);
        plant = &p;
        p.install<N::extension::IOController>();
        p.install<UdpPlan>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_send; ++t) {
            uint64_t s = rng.next();
            ext.emplace_back([s, each, t] { udp_sender(s, each, t); });
        }
        uint64_t s = rng.next();
        ext.emplace_back([s] { udp_ops(s); });
        p.start();
        for (auto& t : ext) t.join();
        for (auto& x : ulis) x.handle = {};
    }
    h::sched_end();
    int k = std::min(n_msgs.load(), MAX_M), foreign = 0, none = 0, many = 0;
    for (int i = 0; i < k; ++i) {
        if (msgs[i].expect == 0) foreign++;
        if (msgs[i].size == 0) none++;
        if (__builtin_popcount(msgs[i].expect) > 1) many++;
    }
    h::note("own_network", own_net);
    h::note("listeners", n_ulis);
    h::note("datagrams_sent", k);
    h::note("datagrams_received", h::ctr_get(C_RUNS));
    h::note("datagrams_to_nobody", foreign);
    h::note("datagrams_to_several_listeners", many);
    h::note("empty_datagrams", none);
    h::note("emitted_to_another_program", h::ctr_get(C_AGAIN));
    h::note("bytes_received", h::ctr_get(C_BYTES));
    h::note("unbound_ports_checked", h::ctr_get(C_CLOSES));
    uint64_t sg = 13;
    for (uint64_t i = 0; i < h::ev_count(); ++i) if (h::ev_at(i).type == GOT) sg = h::mix(sg, h::ev_at(i).a * 256 + h::ev_at(i).b);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d listeners, %d datagrams, %lld received", (unsigned long long) h::case_no, n_ulis, k, (long long) h::ctr_get(C_RUNS));
    plant = nullptr;
}
void net_state(std::string& s) {
    char b[200];
    if (h::args.mode == "tcp") {
        for (int k = 0; k < std::min(n_conns.load(), MAX_T) && s.size() < 900; ++k) {
            Conn& q = conns[k];
            if (q.ends > 0) continue;
            snprintf(b, sizeof b, " [conn %d to %d cfg %d ops %d kind %d accepted %d got %d of %d ended %d]", k, q.l, listeners[q.l].cfg, listeners[q.l].ops, q.kind, int(q.accepted), int(q.got), q.total, int(q.client_ended));
            s += b;
        }
    }
    if (h::args.mode == "udp") {
        for (int k = 0; k < std::min(n_msgs.load(), MAX_M) && s.size() < 900; ++k) {
            Msg& m = msgs[k];
            if ((m.got & m.expect) == m.expect) continue;
            int l = __builtin_ctz(m.expect);
            snprintf(b, sizeof b, " [datagram %d of %d bytes from %s:%d to %s:%d expect %x got %x cfg %d ops %d]", k, m.size, m.from_ip.c_str(), m.from_port, m.to.c_str(), m.port, unsigned(m.expect), unsigned(m.got), ulis[l].cfg, ulis[l].ops);
            s += b;
        }
    }
}
