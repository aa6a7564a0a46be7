// A whole system with a NetworkController and other nodes on a real network of its own (C29).
// Everything that is owed is waited for, so that a lost message shows.
#include "dyn.hpp"
#include "extension/network/NUClearNetwork.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <unistd.h>
using namespace dyn;

namespace {
struct A { uint64_t id; uint32_t x[4]; };
struct B { uint64_t id; uint32_t x[4]; };           // the same layout
struct C { uint64_t id; std::string text; };        // serialised by itself
using V = std::vector<uint32_t>;
using S = std::string;
}  // namespace
namespace NUClear { namespace util { namespace serialise {
    template <>
    struct Serialise<C, C> {
        static std::vector<uint8_t> serialise(const C& in) {
            std::vector<uint8_t> o(8);
            memcpy(o.data(), &in.id, 8);
            for (char c : in.text) o.push_back(uint8_t(c ^ 0x55));
            return o;
        }
        static C deserialise(const std::vector<uint8_t>& in) {
            if (in.size() < 8) throw std::domain_error("too short");
            C c;
            memcpy(&c.id, in.data(), 8);
            for (size_t i = 8; i < in.size(); ++i) c.text.push_back(char(in[i] ^ 0x55));
            return c;
        }
        static uint64_t hash() { return 0x1234567887654321ull; }
    };
}}}

namespace {
using Net      = N::extension::network::NUClearNetwork;
using Source   = N::dsl::word::NetworkSource;
using Scope    = N::dsl::word::emit::Network<A>;
namespace ser  = N::util::serialise;
enum EvType : uint32_t { BIND = 1, BOUND, UNBIND, UNBOUND, SENT, RUN, PEER_GOT, JOIN, LEAVE, CONFIG, STOP, UP, DOWN };
const char* names[] = {"?", "BIND", "BOUND", "UNBIND", "UNBOUND", "SENT", "RUN", "PEER_GOT", "JOIN", "LEAVE", "CONFIG", "STOP", "UP", "DOWN"};
enum { C_LEFT = 60, C_RUNS, C_PGOT, C_BAD, C_LOCAL, C_SELF, C_RESTART, C_RECONF, C_UNBOUND, C_LATE, C_DIST, C_FUSED };
#include "netns.hpp"

void nap_us(uint64_t us) { std::this_thread::sleep_for(std::chrono::microseconds(us)); }
uint64_t now_us() { return uint64_t(std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count()); }
constexpr uint64_t LIMIT = 20000000;

// ---- values -------------------------------------------------------------------------------------------------------
constexpr int N_TYPES = 5, MAX_M = 512, MAX_R = 24, MAX_P = 3, LOCAL = 1 << 20;
struct Msg {
    int type = 0, from = -1;          // -1 the system under test, otherwise a peer
    bool reliable = false;
    int len  = 0;
    uint64_t seed = 0;
    std::string source;               // the name of the sender
    int source_port = 0;
    std::atomic<unsigned> owed_rx{0}, owed_peer{0};  // who has to get it
    std::atomic<unsigned> never_rx{0};               // which reactions were unbound before
    std::atomic<unsigned> got_rx{0}, got_peer{0};
    std::atomic<bool> sent{false};
};
Msg msgs[MAX_M];
std::atomic<int> n_msgs{0};
uint32_t val(uint64_t seed, int i) { return uint32_t(h::mix(seed, uint64_t(i))); }
template <typename T> struct Make;
template <typename T> struct Plain {
    static T make(uint64_t id, uint64_t seed, int) { T t; t.id = id; for (int i = 0; i < 4; ++i) t.x[i] = val(seed, i); return t; }
    static uint64_t id(const T& t) { return t.id; }
    static bool same(const T& a, const T& b) { return a.id == b.id && memcmp(a.x, b.x, sizeof a.x) == 0; }
};
template <> struct Make<A> : Plain<A> { static constexpr int type = 0; };
template <> struct Make<B> : Plain<B> { static constexpr int type = 1; };
template <> struct Make<C> {
    static constexpr int type = 2;
    static C make(uint64_t id, uint64_t seed, int n) { C c; c.id = id; for (int i = 0; i < n; ++i) c.text.push_back(char(val(seed, i))); return c; }
    static uint64_t id(const C& c) { return c.id; }
    static bool same(const C& a, const C& b) { return a.id == b.id && a.text == b.text; }
};
template <> struct Make<V> {
    static constexpr int type = 3;
    static V make(uint64_t id, uint64_t seed, int n) { V v{uint32_t(id)}; for (int i = 0; i < n; ++i) v.push_back(val(seed, i)); return v; }
    static uint64_t id(const V& v) { return v.empty() ? ~0ull : v[0]; }
    static bool same(const V& a, const V& b) { return a == b; }
};
template <> struct Make<S> {
    static constexpr int type = 4;
    static S make(uint64_t id, uint64_t seed, int n) {
        S s(4, '\0');
        for (int i = 0; i < 4; ++i) s[size_t(i)] = char(id >> (8 * i));
        for (int i = 0; i < n; ++i) s.push_back(char(val(seed, i)));
        return s;
    }
    static uint64_t id(const S& s) { uint64_t r = 0; for (size_t i = 0; i < 4 && i < s.size(); ++i) r |= uint64_t(uint8_t(s[i])) << (8 * i); return s.size() < 4 ? ~0ull : r; }
    static bool same(const S& a, const S& b) { return a == b; }
};
template <typename F>
void with_type(int type, F&& f) {
    switch (type) {
        case 0: f(static_cast<A*>(nullptr)); break;
        case 1: f(static_cast<B*>(nullptr)); break;
        case 2: f(static_cast<C*>(nullptr)); break;
        case 3: f(static_cast<V*>(nullptr)); break;
        default: f(static_cast<S*>(nullptr)); break;
    }
}
int type_of(uint64_t hash) {
    int r = -1;
    for (int t = 0; t < N_TYPES; ++t) with_type(t, [&](auto* p) { if (ser::Serialise<std::remove_pointer_t<decltype(p)>>::hash() == hash) r = t; });
    return r;
}
// What is not read yet has to fit into the receive buffer of a socket, so nobody sends a second long message before the first is there
int random_len(Rng& r, int type) { return r.chance(1, 8) ? r.range(700, type == 3 ? 1500 : 6000) : int(r(60)); }
bool is_long(int id) { return id >= 0 && msgs[id].type > 1 && msgs[id].len > 60; }

// ---- the system under test -----------------------------------------------------------------------------------------
struct Rx {
    int type = 0, cfg = 0, ops = 0;   // ops: 0 none, 1 bound by a thread, 2 unbound by a thread, 3 unbinds itself, 4 both 1 and 2
    bool may_drop = false;
    std::atomic<bool> bound{false}, leaving{false}, unbound{false};
    std::atomic<int> running{0}, runs{0};
    N::threading::ReactionHandle handle;
};
Rx rxs[MAX_R];
std::atomic<int> n_rx{0}, made{0};
struct Peer {
    std::string name, ip;
    std::atomic<int> port{0};
    std::atomic<bool> stable{false};
    std::atomic<int> emitting{0};
    std::atomic<int> knows{0};        // how often the name of the system joined minus left, of the current name
    std::atomic<bool> down{true}, finished{false};
};
Peer peers[MAX_P];
int n_peers = 0;
std::atomic<uint8_t> view[65536];     // which peer the system takes a port for, plus one
std::string main_name;
std::mutex name_mutex;                // for main_name
std::atomic<int> main_round{0};       // changes when the system is configured again
std::atomic<bool> expect_breaks{false};  // between rounds nodes may disappear
std::atomic<bool> disturbed{false};   // a node was lost without a reason, in real time the machine may have been busy
std::atomic<bool> self_known{false};
std::atomic<int> self_joins{0}, self_leaves{0};
std::atomic<bool> shut{false};
int group_port = 0;
std::string group;
struct Go {};                         // local message
struct Plan;
Plan* plan = nullptr;

std::string current_name() { std::lock_guard<std::mutex> l(name_mutex); return main_name; }
void lost_node(const char* who, const std::string& what) {
    if (expect_breaks || shut) return;
    if (h::controlled()) h::viol("left", "%s reported that %s left", who, what.c_str());
    if (!disturbed.exchange(true)) h::ctr_add(C_DIST, 1);
}
template <typename T>
void got(int rx, const T& t, const Source* src) {
    Rx& x = rxs[rx];
    h::ctr_add(C_RUNS, 1);
    x.runs++;
    uint64_t id = Make<T>::id(t);
    h::ev(RUN, uint64_t(rx), id, x.unbound);
    if (id >= LOCAL && id < LOCAL + MAX_M) { h::viol("local", "a network reaction ran for a message that was emitted locally"); return; }
    if (id >= uint64_t(n_msgs)) { h::viol("unknown", "a network reaction for type %d got a message that nobody sent", x.type); return; }
    Msg& m = msgs[id];
    if (m.type != x.type) { h::viol("type", "a message of type %d ran a reaction for type %d", m.type, x.type); return; }
    if (!Make<T>::same(t, Make<T>::make(id, m.seed, m.len))) h::viol("value", "the value of message %d of type %d is not what was sent", int(id), m.type);
    if ((m.never_rx >> rx) & 1) h::viol("unbound", "reaction %d ran for message %d which was sent after it was unbound", rx, int(id));
    if (((m.got_rx.fetch_or(1u << rx) >> rx) & 1) && !disturbed) h::viol("twice", "reaction %d ran twice for message %d (reliable %d)", rx, int(id), m.reliable);
    if (src != nullptr) {
        if (src->name != m.source) h::viol("source", "the source of message %d is %s instead of %s", int(id), src->name.c_str(), m.source.c_str());
        if (src->reliable != m.reliable) h::viol("reliable", "message %d is said to be reliable: %d", int(id), src->reliable);
        if (m.source_port != 0 && ntohs(src->address.ipv4.sin_port) != m.source_port) h::viol("address", "message %d came from port %d instead of %d", int(id), ntohs(src->address.ipv4.sin_port), m.source_port);
    }
}
struct Plan : N::Reactor {
    explicit Plan(std::unique_ptr<N::Environment> e) : Reactor(std::move(e)) {
        plan = this;
        logs();
        int n = n_rx;
        for (int i = 0; i < n; ++i) if (rxs[i].ops == 0 || rxs[i].ops == 2 || rxs[i].ops == 3) bind(i);
        on<Trigger<N::message::NetworkJoin>, Inline::ALWAYS>().then([](const N::message::NetworkJoin& j) { seen(j.name, j.address, true); });
        on<Trigger<N::message::NetworkLeave>, Inline::ALWAYS>().then([](const N::message::NetworkLeave& j) { seen(j.name, j.address, false); });
        on<Trigger<A>>().then([](const A& a) { if (a.id < LOCAL) h::viol("trigger", "a local reaction ran for a message from the network"); h::ctr_add(C_LOCAL, 1); });
        on<Trigger<V>>().then([](const V& a) { if (a[0] < LOCAL) h::viol("trigger", "a local reaction ran for a message from the network"); h::ctr_add(C_LOCAL, 1); });
    }
    void logs() {
        // A thread that just received something may have the same reaction run for something else
        on<Trigger<N::message::LogMessage>, Inline::ALWAYS>().then([this](const N::message::LogMessage&) { if (!shut) emit(std::make_unique<Go>()); });
        on<Trigger<N::message::NetworkJoin>, Trigger<N::message::NetworkConfiguration>>().then([this] { emit(std::make_unique<Go>()); });
        on<Trigger<N::message::LogMessage>>().then([](const N::message::LogMessage& m) { if (m.level >= N::LogLevel::WARN && dump()) fprintf(stderr, "log: %s\n", m.message.c_str()); });
    }
    static void seen(const std::string& name, const N::util::network::sock_t& address, bool join) {
        int port = ntohs(address.ipv4.sin_port);
        h::ev(join ? JOIN : LEAVE, ~0ull);
        for (int p = 0; p < n_peers; ++p) {
            Peer& q = peers[p];
            if (q.name != name) continue;
            // What an announcement says that is read after the goodbye is from a port that nobody uses any more
            bool now = q.port == port && !q.down;
            view[port] = join ? uint8_t(p + 1) : uint8_t(0);
            if (!join && now) lost_node("the system", name);
            return;
        }
        if (name.compare(0, 4, "main") != 0) { h::viol("name", "a node named %s joined or left that does not exist", name.c_str()); return; }
        if (join) self_joins++;
        else self_leaves++;
        if (name == current_name()) {
            self_known = join;
            if (!join) lost_node("the system", "itself");
        }
    }
    template <typename T, typename... W>
    void put(int i) {
        Rx& x = rxs[i];
        bool with_source = (i & 1) != 0;
        if (with_source) x.handle = on<Network<T>, W...>().then([this, i](const Source& s, const T& t) { run<T>(i, t, &s); });
        else x.handle = on<Network<T>, W...>().then([this, i](const T& t) { run<T>(i, t, nullptr); });
    }
    template <typename T>
    void run(int i, const T& t, const Source* s) {
        Rx& x = rxs[i];
        got<T>(i, t, s);
        uint64_t r = h::mix(Make<T>::id(t), uint64_t(i));
        if (r % 5 == 0) h::work(r % 20);
        if (x.ops == 3 && x.runs > 2 && !x.leaving.exchange(true)) unbind(i);
        else if (r % 23 == 0 && s != nullptr && !shut) answer(s->name, r);
        else if (r % 29 == 0 && !shut) bind_more(r);
        else if (r % 11 == 0) emit(std::make_unique<Go>());
    }
    template <typename T>
    void put_any(int i) {
        switch (rxs[i].cfg) {
            case 0: put<T>(i); break;
            case 1: put<T, Pool<P1>>(i); break;
            case 2: put<T, Sync<S0>>(i); break;
            case 3: put<T, Inline::ALWAYS>(i); break;
            case 4: put<T, MainThread>(i); break;
            case 5: put<T, Priority::HIGH>(i); break;
            case 6: put<T, Single>(i); break;
            default: fused<T>(i); break;
        }
    }
    // Also runs for a local message, then with what was received last
    template <typename T>
    void fused(int i) {
        rxs[i].handle = on<Network<T>, Trigger<Go>>().then([i](const Source& s, const T& t, const Go&) {
            h::ctr_add(C_FUSED, 1);
            uint64_t id = Make<T>::id(t);
            if (id >= uint64_t(n_msgs)) { h::viol("unknown", "a fused network reaction for type %d got a message that nobody sent", rxs[i].type); return; }
            Msg& m = msgs[id];
            if (m.type != rxs[i].type || !Make<T>::same(t, Make<T>::make(id, m.seed, m.len))) h::viol("value", "the value of message %d of type %d is not what was sent", int(id), m.type);
            if (s.name != m.source) h::viol("source", "the source of message %d is %s instead of %s", int(id), s.name.c_str(), m.source.c_str());
        });
    }
    void bind(int i) {
        Rx& x = rxs[i];
        h::ev(BIND, uint64_t(i));
        with_type(x.type, [&](auto* p) { this->put_any<std::remove_pointer_t<decltype(p)>>(i); });
        h::ev(BOUND, uint64_t(i));
        x.bound = true;
    }
    void unbind(int i) {
        h::ev(UNBIND, uint64_t(i));
        rxs[i].leaving = true;
        rxs[i].handle.unbind();
        h::ev(UNBOUND, uint64_t(i));
        rxs[i].unbound = true;
        h::ctr_add(C_UNBOUND, 1);
    }
    void bind_more(uint64_t r) {
        int i = ++made - 1;
        if (i >= MAX_R) return;
        Rx& x = rxs[i];
        x.type = int(r % N_TYPES); x.cfg = int(r / 8 % 7); x.ops = 5; x.may_drop = x.cfg == 6;
        n_rx++;
        bind(i);
        h::ctr_add(C_LATE, 1);
    }
    void answer(const std::string& to, uint64_t r) {
        Rng g(r);
        send(g, to, true);
    }
    // Emits a new message over the network, to a name or to all
    int send(Rng& r, const std::string& to, bool small = false) {
        int id = n_msgs++;
        if (id >= MAX_M) { n_msgs--; return -1; }
        Msg& m     = msgs[id];
        m.type     = int(r(N_TYPES));
        m.reliable = r.chance(1, 2);
        m.len      = small ? int(r(60)) : random_len(r, m.type);
        m.seed     = r.next();
        m.from     = -1;
        m.source   = current_name();
        m.source_port = 0;
        unsigned peer_set = 0, held = 0;
        for (int p = 0; p < n_peers; ++p) {
            if (!to.empty() && peers[p].name != to) continue;
            peers[p].emitting++;
            held |= 1u << p;
            if (peers[p].stable) peer_set |= 1u << p;
        }
        if ((to.empty() || to == m.source) && self_known) owe(m);
        m.owed_peer = peer_set;
        h::ev(SENT, uint64_t(id), peer_set, uint64_t(m.type));
        m.sent = true;
        with_type(m.type, [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            auto v  = std::make_unique<T>(Make<T>::make(uint64_t(id), m.seed, m.len));
            if (to.empty() && m.reliable) emit<N::Reactor::Scope::NETWORK>(v, true);
            else if (to.empty() && r.chance(1, 2)) emit<N::Reactor::Scope::NETWORK>(v);
            else emit<N::Reactor::Scope::NETWORK>(v, to, m.reliable);
        });
        for (int p = 0; p < n_peers; ++p) if ((held >> p) & 1) peers[p].emitting--;
        return id;
    }
    static void owe(Msg& m) {
        unsigned owed = 0, never = 0;
        for (int i = 0; i < MAX_R; ++i) {
            Rx& x = rxs[i];
            if (!x.bound || x.type != m.type) continue;
            if (x.unbound) never |= 1u << i;
            else if (!x.leaving && !x.may_drop && x.cfg != 7) owed |= 1u << i;
        }
        m.never_rx = never;
        m.owed_rx  = owed;
    }
    void local(Rng& r) {
        uint64_t id = LOCAL + r(MAX_M);
        if (r.chance(1, 2)) emit(std::make_unique<A>(Make<A>::make(id, 1, 0)));
        else emit(std::make_unique<V>(Make<V>::make(id, 1, 3)));
        if (r.chance(1, 2)) emit(std::make_unique<Go>());
    }
    void configure(const std::string& name, int mtu) {
        h::ev(CONFIG);
        emit(std::make_unique<N::message::NetworkConfiguration>(name, group, uint16_t(group_port), "", uint16_t(mtu)));
    }
};
bool arrived(const Msg& m) {
    unsigned open = m.owed_rx & ~m.got_rx;
    for (int i = 0; open != 0 && i < MAX_R; ++i) if (((open >> i) & 1) && rxs[i].leaving) open &= ~(1u << i);
    return open == 0 && (m.owed_peer & ~m.got_peer) == 0;
}
void lost(int id) {
    Msg& m = msgs[id];
    if (arrived(m) || disturbed) return;
    unsigned open = m.owed_rx & ~m.got_rx;
    int rx        = open != 0 ? __builtin_ctz(open) : -1;
    h::viol("lost", "message %d of type %d from %s, reliable %d, %d long: reactions %x of %x, peers %x of %x got it (first missing: words %d, ops %d)", id, m.type, m.source.c_str(), m.reliable, m.len,
            unsigned(m.got_rx), unsigned(m.owed_rx), unsigned(m.got_peer), unsigned(m.owed_peer), rx < 0 ? -1 : rxs[rx].cfg, rx < 0 ? -1 : rxs[rx].ops);
}

// ---- the other nodes -----------------------------------------------------------------------------------------------
struct Node {
    int me;
    Rng r;
    Net net;
    uint64_t due = 0;
    std::map<std::string, int> joined;
    std::vector<int> mine;
    Node(int me, uint64_t seed) : me(me), r(seed) {
        Peer& q = peers[me];
        net.set_packet_callback([this](const Net::NetworkTarget& t, const uint64_t& hash, const bool& reliable, std::vector<uint8_t>&& b) { packet(t, hash, reliable, b); });
        net.set_join_callback([this, &q](const Net::NetworkTarget& t) {
            h::ev(JOIN, uint64_t(this->me));
            ++joined[t.name];
            if (t.name == current_name()) q.knows = main_round + 1;
        });
        net.set_leave_callback([this, &q](const Net::NetworkTarget& t) {
            h::ev(LEAVE, uint64_t(this->me));
            if (--joined[t.name] > 0) return;
            if (t.name != current_name()) return;
            q.knows = 0;
            lost_node(q.name.c_str(), t.name);
        });
        net.set_next_event_callback([this](std::chrono::steady_clock::time_point t) { due = uint64_t(std::chrono::duration_cast<std::chrono::microseconds>(t.time_since_epoch()).count()); });
    }
    void packet(const Net::NetworkTarget& t, uint64_t hash, bool reliable, const std::vector<uint8_t>& b) {
        if (t.name.compare(0, 4, "main") != 0) return;  // from another peer
        int type = type_of(hash);
        if (type < 0) { h::viol("hash", "the system sent something with an unknown hash"); return; }
        h::ctr_add(C_PGOT, 1);
        with_type(type, [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            try {
                T v         = ser::Serialise<T>::deserialise(b);
                uint64_t id = Make<T>::id(v);
                h::ev(PEER_GOT, uint64_t(me), id);
                if (id >= uint64_t(n_msgs) || msgs[id].from != -1) { h::viol("unknown", "the system sent something that it was not told to"); return; }
                Msg& m = msgs[id];
                if (m.type != type) h::viol("type", "a message of type %d was sent as type %d", m.type, type);
                else if (!Make<T>::same(v, Make<T>::make(id, m.seed, m.len))) h::viol("value", "the value of message %d arrived altered", int(id));
                if (m.reliable != reliable) h::viol("reliable", "message %d was sent with reliable %d", int(id), reliable);
                if (m.source != t.name && !disturbed) h::viol("source", "message %d came from %s instead of %s", int(id), t.name.c_str(), m.source.c_str());
                unsigned bit = 1u << me;
                if ((m.got_peer.fetch_or(bit) & bit) && !disturbed) h::viol("twice", "peer %d got message %d twice", me, int(id));
            }
            catch (const std::exception& e) { h::viol("value", "a payload of %d bytes can't be decoded: %s", int(b.size()), e.what()); }
        });
    }
    void up() {
        Peer& q = peers[me];
        h::ev(UP, uint64_t(me));
        due = 0;
        joined.clear();
        q.port = 0;
        net.reset(q.name, group, in_port_t(group_port), own_net || r.chance(1, 2) ? "" : "", uint16_t(r.chance(1, 3) ? 300 : 1500));
        for (auto& fd : net.listen_fds()) {
            sockaddr_in a{};
            socklen_t n = sizeof a;
            if (::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && ntohs(a.sin_port) != group_port) q.port = ntohs(a.sin_port);
        }
        q.down = false;
    }
    void down() {
        Peer& q = peers[me];
        h::ev(DOWN, uint64_t(me));
        q.down  = true;
        q.knows = 0;
        net.shutdown();
    }
    void serve() {
        std::vector<pollfd> fds;
        for (auto& fd : net.listen_fds()) fds.push_back({fd, POLLIN, 0});
        uint64_t t = now_us();
        int wait   = due <= t ? 0 : int(std::min<uint64_t>((due - t + 999) / 1000, 5));
        int n      = ::poll(fds.data(), fds.size(), wait);
        if (n > 0 || now_us() >= due) {
            if (now_us() >= due) due = now_us() + 5000;  // unless we are told
            try { net.process(); }
            catch (const std::exception& e) { h::viol("peer", "process() of a peer threw: %s", e.what()); }
        }
    }
    template <typename F>
    bool until(F&& f) {
        uint64_t end = now_us() + LIMIT;
        while (!f()) {
            if (now_us() > end) return false;
            h::progress();
            serve();
        }
        return true;
    }
    bool ready() const {
        const Peer& q = peers[me];
        return q.knows == main_round + 1 && view[q.port] == me + 1;
    }
    void connect() {
        if (!until([this] { return ready(); }) && !disturbed)
            h::viol("join", "after %d s peer %d and the system have not joined: knows %d of %d, the system knows %d", int(LIMIT / 1000000), me, int(peers[me].knows), main_round + 1, int(view[peers[me].port]));
        peers[me].stable = true;
    }
    void send_one() {
        Peer& q  = peers[me];
        std::string to = current_name();
        if (r.chance(1, 8)) {
            // Something that can't be decoded or that nobody knows
            std::vector<uint8_t> b(r(30));
            for (auto& x : b) x = uint8_t(r.next());
            int type      = r.chance(1, 4) ? -1 : r.chance(1, 3) ? 3 : r.chance(1, 2) ? 2 : 0;
            uint64_t hash = r.next();
            if (type >= 0) {
                if (type == 3 && b.size() % 4 == 0) b.push_back(1);
                if (type == 2 && b.size() >= 8) b.resize(7);
                if (type == 0 && b.size() == sizeof(A)) b.pop_back();
                with_type(type, [&](auto* p) { hash = ser::Serialise<std::remove_pointer_t<decltype(p)>>::hash(); });
            }
            h::ctr_add(C_BAD, 1);
            net.send(hash, b, to, r.chance(1, 2));
            return;
        }
        int id = n_msgs++;
        if (id >= MAX_M) { n_msgs--; return; }
        Msg& m     = msgs[id];
        m.type     = int(r(N_TYPES));
        m.from     = me;
        m.reliable = r.chance(1, 2);
        m.len      = random_len(r, m.type);
        m.seed     = r.next();
        m.source   = q.name;
        m.source_port = q.port;
        Plan::owe(m);
        h::ev(SENT, uint64_t(id), 1000 + uint64_t(me), uint64_t(m.type));
        m.sent = true;
        with_type(m.type, [&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            net.send(ser::Serialise<T>::hash(), ser::Serialise<T>::serialise(Make<T>::make(uint64_t(id), m.seed, m.len)), to, m.reliable);
        });
        mine.push_back(id);
    }
    void drain() {
        until([this] { for (int id : mine) if (!arrived(msgs[id])) return disturbed.load(); return true; });
        for (int id : mine) lost(id);
        mine.clear();
    }
    // Everything the system sent us
    void drain_main() {
        auto all = [this] {
            for (int id = 0, n = std::min(int(n_msgs), MAX_M); id < n; ++id) {
                Msg& m = msgs[id];
                if (m.sent && m.from == -1 && ((m.owed_peer & ~m.got_peer) >> me & 1)) return false;
            }
            return true;
        };
        until([&] { return disturbed || all(); });
        if (!all()) for (int id = 0; id < std::min(int(n_msgs), MAX_M); ++id) if (msgs[id].sent && ((msgs[id].owed_peer >> me) & 1)) lost(id);
    }
};
// Rounds: all nodes connect, send, and are done; then the system is configured again
std::atomic<int> connected{0}, done{0}, drained{0}, n_rounds{1}, n_workers{0};
void peer_main(int me, uint64_t seed, int each) {
    Peer& q = peers[me];
    {
        Node n(me, seed);
        Rng& r = n.r;
        if (r.chance(1, 2)) nap_us(r(3000));
        n.up();
        for (int round = 0; round < n_rounds; ++round) {
            n.until([&] { return main_round >= round; });
            n.connect();
            connected++;
            int restart = r.chance(1, 3) ? int(r(uint64_t(each))) : -1;
            for (int i = 0; i < each; ++i) {
                n.send_one();
                if (r.chance(1, 3)) n.serve();
                if (n.mine.size() >= 4 || r.chance(1, 4) || (!n.mine.empty() && is_long(n.mine.back()))) n.drain();
                if (i != restart) continue;
                n.drain();
                q.stable = false;
                n.until([&] { return q.emitting == 0; });
                n.drain_main();
                n.down();
                uint64_t end = now_us() + LIMIT;
                while (view[q.port] == me + 1 && now_us() < end && !disturbed) { h::progress(); nap_us(100); }
                if (view[q.port] == me + 1 && !disturbed) h::viol("leave", "the system did not report that peer %d left", me);
                h::ctr_add(C_RESTART, 1);
                n.up();
                n.connect();
            }
            n.drain();
            done++;
            // Others may still be busy
            n.until([&] { return done >= (round + 1) * n_workers || disturbed; });
            q.stable = false;
            n.until([&] { return q.emitting == 0; });
            n.drain_main();
            drained++;
            n.until([&] { return main_round > round || shut; });
        }
        // The system says goodbye when it is shut down
        if (!n.until([&] { return q.knows == 0 && shut; })) h::viol("goodbye", "peer %d was not told that the system was shut down", me);
        n.down();
    }
    q.finished = true;
}
void emitter_main(uint64_t seed, int each) {
    Rng r(seed);
    for (int round = 0; round < n_rounds; ++round) {
        while (main_round < round || ((round > 0 || r.chance(9, 10)) && connected < (round + 1) * n_peers)) { h::progress(); nap_us(200); }
        std::vector<int> mine;
        auto drain = [&] {
            uint64_t end = now_us() + LIMIT;
            for (int id : mine) while (!arrived(msgs[id]) && now_us() < end && !disturbed) { h::progress(); nap_us(100); }
            for (int id : mine) lost(id);
            mine.clear();
        };
        for (int i = 0; i < each; ++i) {
            if (r.chance(1, 4)) plan->local(r);
            int to = int(r(uint64_t(n_peers + 2)));
            int id = plan->send(r, to < n_peers ? peers[to].name : to == n_peers || r.chance(2, 3) ? std::string() : r.chance(1, 2) ? current_name() : std::string("nobody"));
            if (id >= 0) mine.push_back(id);
            if (mine.size() >= 4 || r.chance(1, 4) || is_long(id)) drain();
        }
        drain();
        done++;
    }
}
void binder_main(uint64_t seed, int n) {
    Rng r(seed);
    for (int i = 0; i < n; ++i) {
        if (rxs[i].ops != 1 && rxs[i].ops != 4) continue;
        nap_us(r(3000));
        plan->bind(i);
    }
    for (int i = 0; i < n; ++i) {
        if (rxs[i].ops != 2 && rxs[i].ops != 4) continue;
        while (connected < n_peers && !shut) nap_us(500);
        nap_us(r(5000));
        plan->unbind(i);
    }
}
void coordinator(uint64_t seed) {
    Rng r(seed);
    for (int round = 0; round < n_rounds; ++round) {
        int mtu = r.chance(1, 4) ? r.range(300, 1000) : 1500;
        {
            std::lock_guard<std::mutex> l(name_mutex);
            main_name = "main" + std::to_string(round);
        }
        self_known    = false;
        main_round    = round;
        if (round > 0) {
            h::ctr_add(C_RECONF, 1);
            if (r.chance(1, 3)) plan->configure("mainx", 1500);
            if (r.chance(1, 2)) nap_us(r(1000));
        }
        plan->configure(main_name, mtu);
        while (connected < (round + 1) * n_peers) nap_us(500);
        expect_breaks = false;
        while (drained < (round + 1) * n_peers) nap_us(500);
        uint64_t end = now_us() + LIMIT;
        for (int id = 0; id < std::min(int(n_msgs), MAX_M); ++id) while (msgs[id].sent && !arrived(msgs[id]) && now_us() < end && !disturbed) { h::progress(); nap_us(100); }
        for (int id = 0; id < std::min(int(n_msgs), MAX_M); ++id) if (msgs[id].sent) lost(id);
        if (round + 1 == n_rounds) break;
        expect_breaks = true;
        for (int p = 0; p < n_peers; ++p) view[peers[p].port] = 0;
    }
    h::ev(STOP);
    shut = true;
    plant->shutdown();
}
void run_case(Rng& rng) {
    for (auto& m : msgs) { m.owed_rx = m.owed_peer = m.never_rx = m.got_rx = m.got_peer = 0; m.sent = false; m.from = -1; m.source.clear(); m.source_port = 0; }
    n_msgs = 0;
    for (auto& x : rxs) { x.bound = x.leaving = x.unbound = false; x.running = x.runs = 0; x.may_drop = false; x.handle = {}; }
    for (auto& q : peers) { q.stable = q.finished = false; q.down = true; q.emitting = q.knows = q.port = 0; }
    for (auto& v : view) v.store(0, std::memory_order_relaxed);
    expect_breaks = disturbed = self_known = shut = false;
    self_joins = self_leaves = main_round = connected = done = drained = 0;
    main_round = -1;
    main_name.clear();
    n_peers  = rng.range(1, MAX_P);
    n_rounds = rng.chance(1, 3) ? 2 : 1;
    group    = own_net ? "239.226.152.162" : "127.255.255.255";
    group_port = rng.range(20000, 31000);
    for (int p = 0; p < n_peers; ++p) peers[p].name = "peer" + std::to_string(p);
    int k = rng.range(1, 10);
    for (int i = 0; i < k; ++i) {
        Rx& x = rxs[i];
        x.type = int(rng(N_TYPES)); x.cfg = int(rng(8)); x.ops = rng.chance(1, 2) ? 0 : int(rng(5)); x.may_drop = x.cfg == 6;
    }
    n_rx = made = k;
    int n_emit = rng.range(0, 2), each = rng.range(1, 10);
    n_workers = n_peers + n_emit;
    int conc = rng.range(1, 4);
    h::sched_fair_after = 500;
    h::sched_begin(rng, 20000);
    {
        N::Configuration c;
        c.default_pool_concurrency = conc;
        N::PowerPlant p(c);
        plant = &p;
        p.install<N::extension::ChronoController>();
        p.install<N::extension::IOController>();
        p.install<N::extension::NetworkController>();
        p.install<Plan>();
        std::vector<std::thread> ext;
        for (int t = 0; t < n_peers; ++t) { uint64_t s = rng.next(); ext.emplace_back([t, s, each] { peer_main(t, s, each); }); }
        for (int t = 0; t < n_emit; ++t) { uint64_t s = rng.next(); ext.emplace_back([s, each] { emitter_main(s, each); }); }
        uint64_t s1 = rng.next(), s2 = rng.next();
        ext.emplace_back([s1, k] { binder_main(s1, k); });
        ext.emplace_back([s2] { coordinator(s2); });
        p.start();
        for (auto& t : ext) t.join();
        for (auto& x : rxs) x.handle = {};
    }
    h::sched_end();
    N::dsl::store::DataStore<Go>::set(nullptr);
    N::dsl::store::DataStore<A>::set(nullptr);
    N::dsl::store::DataStore<V>::set(nullptr);
    int k2 = std::min(int(n_msgs), MAX_M), from_peers = 0, reliable = 0, owed = 0, big = 0, never = 0;
    for (int i = 0; i < k2; ++i) {
        Msg& m = msgs[i];
        if (m.from >= 0) from_peers++;
        if (m.reliable) reliable++;
        if (is_long(i)) big++;
        owed += __builtin_popcount(m.owed_rx) + __builtin_popcount(m.owed_peer);
        never += __builtin_popcount(m.never_rx);
    }
    h::note("own_network", own_net);
    h::note("nodes", n_peers + 1);
    h::note("messages_emitted", k2 - from_peers);
    h::note("messages_from_peers", from_peers);
    h::note("reliable_messages", reliable);
    h::note("long_messages", big);
    h::note("deliveries_owed", owed);
    h::note("deliveries_forbidden_by_unbinding", never);
    h::note("network_reaction_runs", h::ctr_get(C_RUNS));
    h::note("peer_deliveries", h::ctr_get(C_PGOT));
    h::note("undecodable_or_unknown_messages", h::ctr_get(C_BAD));
    h::note("local_messages", h::ctr_get(C_LOCAL));
    h::note("peer_restarts", h::ctr_get(C_RESTART));
    h::note("reconfigurations", h::ctr_get(C_RECONF));
    h::note("unbound", h::ctr_get(C_UNBOUND));
    h::note("bound_by_a_network_reaction", h::ctr_get(C_LATE));
    h::note("cases_with_a_node_lost_to_slowness", h::ctr_get(C_DIST));
    h::note("runs_with_a_local_message", h::ctr_get(C_FUSED));
    h::note("heard_itself", self_joins > 0);
    uint64_t sg = 7;
    for (uint64_t i = 0; i < h::ev_count(); ++i) sg = h::mix(sg, h::ev_at(i).type * 4096 + h::ev_at(i).a * 64 + h::ev_at(i).b);
    if (!h::controlled()) h::sig(sg);
    h::sample("case %llu: %d nodes, %d messages, %lld reaction runs, %lld peer deliveries", (unsigned long long) h::case_no, n_peers + 1, k2, (long long) h::ctr_get(C_RUNS), (long long) h::ctr_get(C_PGOT));
    plant = nullptr;
    dump_events(names, int(sizeof names / sizeof *names));
}
void state(std::string& s) {
    char b[300];
    snprintf(b, sizeof b, " round %d of %d connected %d done %d of %d per round drained %d peers %d shut %d", int(main_round), int(n_rounds), int(connected), int(done), int(n_workers), int(drained), n_peers, int(shut));
    s += b;
    for (int p = 0; p < n_peers; ++p) {
        Peer& q = peers[p];
        snprintf(b, sizeof b, " [peer %d port %d knows %d known %d down %d stable %d finished %d]", p, int(q.port), int(q.knows), int(view[q.port]), int(q.down), int(q.stable), int(q.finished));
        s += b;
    }
    for (int id = 0; id < std::min(int(n_msgs), MAX_M) && s.size() < 900; ++id) {
        Msg& m = msgs[id];
        if (!m.sent || arrived(m)) continue;
        snprintf(b, sizeof b, " [message %d type %d from %d reliable %d len %d rx %x of %x peers %x of %x]", id, m.type, m.from, m.reliable, m.len, unsigned(m.got_rx), unsigned(m.owed_rx), unsigned(m.got_peer), unsigned(m.owed_peer));
        s += b;
    }
}
}  // namespace
int main(int argc, char** argv) {
    enter_namespace();
    h::describe_state = state;
    return h::main_loop(argc, argv, run_case);
}
