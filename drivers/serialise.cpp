// Serialisation and hashing (spec/Serialise.tla).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using Bytes = std::vector<uint8_t>;
template <typename T> using Ser = NUClear::util::serialise::Serialise<T>;

struct __attribute__((packed)) Packed { int32_t a; uint8_t b[3]; int16_t c; };
struct Big { uint64_t w[9]; };
enum class En : uint16_t { A };
namespace one { struct Same { uint32_t x; }; }
namespace two { struct Same { uint32_t x; }; }
template <typename T> struct Wrap { T x; };

static std::string str(const Bytes& b) { std::string s = "["; for (auto x : b) { if (s.size() > 1) s += ","; s += std::to_string(x); } return s + "]"; }
template <typename T> void put(Bytes& o, const T& x) { const auto* p = reinterpret_cast<const uint8_t*>(&x); o.insert(o.end(), p, p + sizeof(T)); }

template <typename T> struct One {   // a single value
    static T make(const Bytes& b) { T t; memcpy(&t, b.data(), sizeof(T)); return t; }
    static Bytes bytes(const T& t) { Bytes o; put(o, t); return o; }
};
template <typename C, typename V> struct Many {
    static C make(const Bytes& b) { C c; for (size_t i = 0; i + sizeof(V) <= b.size(); i += sizeof(V)) { V v; memcpy(&v, b.data() + i, sizeof(V)); c.push_back(v); } return c; }
    static Bytes bytes(const C& c) { Bytes o; for (V v : c) put(o, v); return o; }
};
template <typename T, typename X> void go(int n, int t, char op, const Bytes& b) {
    if (op == 't') {
        uint64_t h = Ser<T>::hash(); Bytes o; put(o, h);
        vp::log("{\"e\":\"type\",\"n\":%d,\"t\":%d,\"h\":%s}", n, t, str(o).c_str());
        return;
    }
    Bytes in = b;
    if (op == 'v') {
        const T v = X::make(b);
        in = Ser<T>::serialise(v);
        vp::log("{\"e\":\"ser\",\"n\":%d,\"t\":%d,\"v\":%s,\"o\":%s}", n, t, str(b).c_str(), str(in).c_str());
    }
    Bytes out; int res = 0;
    vp::guard = 1;
    {
        const Bytes exact(in);   // ends where it can not be read beyond
        try { out = X::bytes(Ser<T>::deserialise(exact)); }
        catch (const std::length_error&) { res = 1; }
        catch (...) { res = 2; }
    }
    vp::guard = 0;
    vp::log("{\"e\":\"des\",\"n\":%d,\"t\":%d,\"v\":%s,\"r\":%d,\"o\":%s}", n, t, str(in).c_str(), res, str(Bytes(out)).c_str());
}
static void one_op(int n, char op, int t, const Bytes& b) {
    switch (t) {
#define S(i, T) case i: go<T, One<T>>(n, t, op, b); break;
#define M(i, C, V) case i: go<C, Many<C, V>>(n, t, op, b); break;
        S(0, uint8_t) S(1, int16_t) S(2, int32_t) S(3, uint64_t) S(4, double) S(5, Packed) S(6, En) S(7, Big) S(8, one::Same) S(9, two::Same) S(10, Wrap<int32_t>) S(11, Wrap<uint32_t>) S(12, bool)
        M(20, std::vector<uint8_t>, uint8_t) M(21, std::vector<int32_t>, int32_t) M(22, std::string, char) M(23, std::list<int16_t>, int16_t) M(24, std::deque<Packed>, Packed) M(25, std::vector<double>, double)
        M(26, std::vector<char>, char) M(27, std::list<Big>, Big) M(28, std::u16string, char16_t) M(29, std::deque<uint64_t>, uint64_t)
    }
}
struct Line { char op; int t; Bytes b; uint64_t seed; };
struct Prog { std::vector<Line> ops; };
static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    vp::Opts o; vp::start(o, buf, cap, len);
    int n = 0;
    for (const auto& l : p.ops) {
        ++n;
        if (l.op == 'h') {
            vp::guard = 1;
            Bytes* in = new Bytes(l.b);
            const uint64_t h = NUClear::util::serialise::xxhash64(reinterpret_cast<const char*>(in->data()), in->size(), l.seed);
            const uint32_t g = NUClear::util::serialise::xxhash32(reinterpret_cast<const char*>(in->data()), in->size(), uint32_t(l.seed));
            delete in;
            vp::guard = 0;
            Bytes ho, go_, s; put(ho, h); put(go_, g); put(s, l.seed);
            vp::log("{\"e\":\"xx\",\"n\":%d,\"s\":%s,\"v\":%s,\"h\":%s,\"g\":%s}", n, str(s).c_str(), str(l.b).c_str(), str(ho).c_str(), str(go_).c_str());
        }
        else one_op(n, l.op, l.t, l.b);
    }
    vp::end_run("fin");
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w, hex; is >> w;
        if (w == "prog") { ps.emplace_back(); continue; }
        Line l{w[0], 0, {}, 0};
        if (w == "h") is >> l.seed; else is >> l.t;
        is >> hex;
        for (size_t i = 0; i + 1 < hex.size(); i += 2) l.b.push_back(uint8_t(strtol(hex.substr(i, 2).c_str(), nullptr, 16)));
        ps.back().ops.push_back(l);
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
