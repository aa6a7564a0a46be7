// Serialisation of values, sizes of inputs and hashes of types. Mode: ser.
#include "nuc.hpp"
#include "util/serialise/Serialise.hpp"
#include <cxxabi.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace S = NUClear::util::serialise;
using h::Rng;
namespace user {
struct Plain { int8_t a; double b; uint16_t c; };
struct Packed { uint32_t a, b; };
struct Nested { Packed p[3]; float f; };
struct alignas(64) Wide { double d[8]; };
struct Empty {};
struct Alpha { int32_t v; };
struct Beta { int32_t v; };
template <typename T> struct Box { T v; };
enum class Colour : uint16_t { RED = 1, GREEN = 700 };
enum Old { ONE, TWO = 100000 };
// Own serialisation: bytes in reverse order with a tag
struct Own { std::string s; int n; };
// Trivially copyable but with its own serialisation
struct Custom { uint32_t v; };
struct Bits { uint32_t a : 5, b : 27; };
}  // namespace user
namespace NUClear {
namespace util {
    namespace serialise {
        template <>
        struct serialise_trivially<user::Custom> : std::false_type {};
        template <>
        struct Serialise<user::Custom, user::Custom> {
            static std::vector<uint8_t> serialise(const user::Custom& c) { return {uint8_t(c.v >> 24), uint8_t(c.v >> 16), uint8_t(c.v >> 8), uint8_t(c.v), 0x55}; }
            static user::Custom deserialise(const std::vector<uint8_t>& v) {
                if (v.size() != 5 || v[4] != 0x55) throw std::length_error("custom");
                return {uint32_t(v[0]) << 24 | uint32_t(v[1]) << 16 | uint32_t(v[2]) << 8 | v[3]};
            }
            static uint64_t hash() { return 42; }
        };
        template <>
        struct Serialise<user::Own, user::Own> {
            static std::vector<uint8_t> serialise(const user::Own& o) {
                std::vector<uint8_t> v(o.s.rbegin(), o.s.rend());
                v.push_back(uint8_t(o.n));
                return v;
            }
            static user::Own deserialise(const std::vector<uint8_t>& v) {
                if (v.empty()) throw std::length_error("own");
                return {std::string(v.rbegin() + 1, v.rend()), int8_t(v.back())};
            }
            static uint64_t hash() { return 43; }
        };
    }  // namespace serialise
}  // namespace util
}  // namespace NUClear
namespace {
// ---- an independent implementation of the published xxHash algorithms
constexpr uint32_t Q1 = 2654435761u, Q2 = 2246822519u, Q3 = 3266489917u, Q4 = 668265263u, Q5 = 374761393u;
constexpr uint64_t P1 = 0x9E3779B185EBCA87ull, P2 = 0xC2B2AE3D27D4EB4Full, P3 = 0x165667B19E3779F9ull, P4 = 0x85EBCA77C2B2AE63ull, P5 = 0x27D4EB2F165667C5ull;
template <typename T>
T rot(T x, unsigned r) { return T(x << r) | T(x >> (8 * sizeof(T) - r)); }
template <typename T>
T load(const uint8_t* p) {
    T v = 0;
    for (size_t i = 0; i < sizeof(T); ++i) v |= T(p[i]) << (8 * i);
    return v;
}
uint32_t ref32(const uint8_t* p, size_t n, uint32_t seed) {
    uint32_t acc;
    size_t left = n;
    if (n >= 16) {
        uint32_t v[4] = {seed + Q1 + Q2, seed + Q2, seed, seed - Q1};
        while (left >= 16) {
            for (int i = 0; i < 4; ++i, p += 4) v[i] = rot<uint32_t>(v[i] + load<uint32_t>(p) * Q2, 13) * Q1;
            left -= 16;
        }
        acc = rot<uint32_t>(v[0], 1) + rot<uint32_t>(v[1], 7) + rot<uint32_t>(v[2], 12) + rot<uint32_t>(v[3], 18);
    }
    else acc = seed + Q5;
    acc += uint32_t(n);
    for (; left >= 4; left -= 4, p += 4) acc = rot<uint32_t>(acc + load<uint32_t>(p) * Q3, 17) * Q4;
    for (; left > 0; --left, ++p) acc = rot<uint32_t>(acc + *p * Q5, 11) * Q1;
    acc ^= acc >> 15;
    acc *= Q2;
    acc ^= acc >> 13;
    acc *= Q3;
    return acc ^ (acc >> 16);
}
uint64_t step64(uint64_t a, uint64_t in) { return rot<uint64_t>(a + in * P2, 31) * P1; }
uint64_t ref64(const uint8_t* p, size_t n, uint64_t seed) {
    uint64_t acc;
    size_t left = n;
    if (n >= 32) {
        uint64_t v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        while (left >= 32) {
            for (int i = 0; i < 4; ++i, p += 8) v[i] = step64(v[i], load<uint64_t>(p));
            left -= 32;
        }
        acc = rot<uint64_t>(v[0], 1) + rot<uint64_t>(v[1], 7) + rot<uint64_t>(v[2], 12) + rot<uint64_t>(v[3], 18);
        for (int i = 0; i < 4; ++i) acc = (acc ^ step64(0, v[i])) * P1 + P4;
    }
    else acc = seed + P5;
    acc += n;
    for (; left >= 8; left -= 8, p += 8) acc = rot<uint64_t>(acc ^ step64(0, load<uint64_t>(p)), 27) * P1 + P4;
    if (left >= 4) {
        acc = rot<uint64_t>(acc ^ load<uint32_t>(p) * P1, 23) * P2 + P3;
        left -= 4;
        p += 4;
    }
    for (; left > 0; --left, ++p) acc = rot<uint64_t>(acc ^ *p * P5, 11) * P1;
    acc ^= acc >> 33;
    acc *= P2;
    acc ^= acc >> 29;
    acc *= P3;
    return acc ^ (acc >> 32);
}
std::vector<uint8_t> random_bytes(Rng& r, size_t n) {
    std::vector<uint8_t> v(n);
    int style = r.range(0, 3);
    for (auto& b : v) b = style == 0 ? uint8_t(r.next()) : style == 1 ? 0 : style == 2 ? 0xff : uint8_t(r.next() & 0x81);
    return v;
}
template <typename T>
T random_value(Rng& r) {
    auto b = random_bytes(r, sizeof(T));
    T v;
    memcpy(static_cast<void*>(&v), b.data(), sizeof(T));
    return v;
}
template <typename T>
bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
std::string label(const char* mangled) {
    int st   = 0;
    char* d  = abi::__cxa_demangle(mangled, nullptr, nullptr, &st);
    std::string s = d != nullptr ? d : mangled;
    free(d);
    // Compilers disagree about spaces, so they do not count
    s.erase(std::remove_if(s.begin(), s.end(), [](unsigned char c) { return isspace(c) != 0; }), s.end());
    return s;
}
std::map<uint64_t, std::string>& hashes() {
    static std::map<uint64_t, std::string> m;
    return m;
}
template <typename T>
void check_hash() {
    std::string name = label(typeid(T).name());
    uint64_t hv      = S::Serialise<T>::hash();
    // "NUCl" in ASCII is the seed every NUClear system uses
    if (hv != ref64(reinterpret_cast<const uint8_t*>(name.data()), name.size(), 0x4e55436c)) h::viol("hash", "the hash of %s is not that of its name", name.c_str());
    auto it = hashes().emplace(hv, name);
    if (it.first->second != name) h::viol("hash", "%s and %s have the same hash", name.c_str(), it.first->second.c_str());
}
template <typename T>
void reject(const std::vector<uint8_t>& v, bool fits) {
    bool threw = false;
    try {
        // An allocation of exactly this size, so that reading past the end is noticed
        std::vector<uint8_t> exact(v.data(), v.data() + v.size());
        T out = S::Serialise<T>::deserialise(exact);
        (void) out;
    }
    catch (const std::exception&) {
        threw = true;
    }
    if (threw == fits) h::viol(fits ? "rejected" : "accepted", "%zu bytes were %s as %s", v.size(), fits ? "rejected" : "accepted", label(typeid(T).name()).c_str());
    h::note(fits ? "fitting_inputs" : "misfitting_inputs");
}
template <typename T>
void scalar(Rng& r) {
    T v        = random_value<T>(r);
    auto bytes = S::Serialise<T>::serialise(v);
    if (bytes.size() != sizeof(T)) h::viol("size", "%zu bytes for a value of %zu", bytes.size(), sizeof(T));
    T w = S::Serialise<T>::deserialise(bytes);
    if (!same(v, w)) h::viol("round-trip", "a value of type %s changed", label(typeid(T).name()).c_str());
    if (memcmp(bytes.data(), &v, sizeof(T)) != 0) h::viol("format", "the serialised form of %s is not its bytes", label(typeid(T).name()).c_str());
    size_t n = r.chance(1, 2) ? size_t(r.range(0, int(3 * sizeof(T)))) : size_t(std::max(0, int(sizeof(T)) + r.range(-1, 1)));
    reject<T>(random_bytes(r, n), n == sizeof(T));
    check_hash<T>();
    h::note("values");
}
template <typename C>
void container(Rng& r) {
    using V  = typename C::value_type;
    size_t n = r.chance(1, 4) ? 0 : size_t(r.range(1, r.chance(1, 10) ? 3000 : 40));
    C v;
    for (size_t i = 0; i < n; ++i) v.insert(v.end(), random_value<V>(r));
    auto bytes = S::Serialise<C>::serialise(v);
    if (bytes.size() != n * sizeof(V)) h::viol("size", "%zu bytes for %zu elements of %zu bytes", bytes.size(), n, sizeof(V));
    C w  = S::Serialise<C>::deserialise(bytes);
    bool ok = size_t(std::distance(w.begin(), w.end())) == n;
    auto j  = w.begin();
    for (auto i = v.begin(); ok && i != v.end(); ++i, ++j) ok = same<V>(*i, *j);
    if (!ok) h::viol("round-trip", "a container %s changed", label(typeid(C).name()).c_str());
    size_t m = size_t(r.range(0, int(5 * sizeof(V))));
    reject<C>(random_bytes(r, m), m % sizeof(V) == 0);
    check_hash<C>();
    h::note("containers");
}
void run_case(Rng& rng) {
    for (int i = 0; i < 40; ++i) {
        switch (rng(24)) {
            case 0: scalar<int8_t>(rng); break;
            case 1: scalar<uint16_t>(rng); break;
            case 2: scalar<int32_t>(rng); break;
            case 3: scalar<uint64_t>(rng); break;
            case 4: scalar<float>(rng); break;
            case 5: scalar<double>(rng); break;
            case 6: scalar<user::Plain>(rng); break;
            case 7: scalar<user::Packed>(rng); break;
            case 8: scalar<user::Nested>(rng); break;
            case 9: scalar<user::Wide>(rng); break;
            case 10: scalar<user::Colour>(rng); break;
            case 11: scalar<user::Alpha>(rng), scalar<user::Beta>(rng); break;
            case 12: scalar<user::Box<user::Alpha>>(rng), scalar<user::Box<user::Beta>>(rng), scalar<user::Bits>(rng); break;
            case 13: container<std::vector<uint8_t>>(rng); break;
            case 14: container<std::vector<int32_t>>(rng), container<std::vector<uint32_t>>(rng); break;
            case 15: container<std::vector<user::Plain>>(rng); break;
            case 16: container<std::string>(rng); break;
            case 17: container<std::deque<double>>(rng); break;
            case 18: container<std::list<uint16_t>>(rng); break;
            case 19: container<std::vector<user::Nested>>(rng), container<std::vector<std::array<int16_t, 3>>>(rng); break;
            case 20: container<std::u16string>(rng), container<std::list<user::Packed>>(rng); break;
            case 21: {
                user::Custom c{uint32_t(rng.next())};
                auto b = S::Serialise<user::Custom>::serialise(c);
                if (b.size() != 5 || S::Serialise<user::Custom>::deserialise(b).v != c.v || S::Serialise<user::Custom>::hash() != 42) h::viol("own", "a type's own serialisation was not used");
                user::Own o{"abc", int8_t(rng.next())};
                auto q = S::Serialise<user::Own>::serialise(o);
                if (q.size() != 4 || S::Serialise<user::Own>::deserialise(q).s != "abc" || S::Serialise<user::Own>::hash() != 43) h::viol("own", "a type's own serialisation was not used");
                h::note("values", 2);
            } break;
            default: {
                // Hashes of arbitrary data, at any alignment and without reading past the end
                size_t n = rng.chance(1, 2) ? rng(40) : rng(600);
                size_t o = rng(9);
                std::unique_ptr<uint8_t[]> mem(new uint8_t[n + o]);
                auto b = random_bytes(rng, n);
                if (n != 0) memcpy(mem.get() + o, b.data(), n);
                uint64_t seed = rng.chance(1, 3) ? 0 : rng.next();
                const char* p = reinterpret_cast<const char*>(mem.get() + o);
                if (S::xxhash64(p, n, seed) != ref64(mem.get() + o, n, seed)) h::viol("xxhash64", "wrong hash of %zu bytes", n);
                if (S::xxhash32(p, n, uint32_t(seed)) != ref32(mem.get() + o, n, uint32_t(seed))) h::viol("xxhash32", "wrong hash of %zu bytes", n);
                h::note("hashed_inputs");
                h::sig(h::mix(n, o));
            }
        }
    }
    // Published test values
    if (S::xxhash64("", 0, 0) != 0xEF46DB3751D8E999ull || S::xxhash32("", 0, 0) != 0x02CC5D05u || S::xxhash64("abc", 3, 0) != 0x44BC2CF5AD770999ull || S::xxhash32("abc", 3, 0) != 0x32D153FFu)
        h::viol("xxhash64", "a published test value is not met");
    if (h::case_no < 3) h::sample("case %llu: %zu distinct types so far", (unsigned long long) h::case_no, hashes().size());
}
}  // namespace
int main(int argc, char** argv) { return h::main_loop(argc, argv, run_case); }
