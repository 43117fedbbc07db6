// A power plant with the network controller among simulated peers (spec/NetCtl.tla).
#include <arpa/inet.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "../sim/vpnet.hpp"
#include "nuclear"

using NUClear::Reactor;
using Bytes = std::vector<uint8_t>;
struct A { uint32_t v[2]; };
struct B { uint32_t v[3]; };
using V = std::vector<uint8_t>;
struct X {};

struct Act { uint64_t t; std::string op; std::vector<std::string> a; };
struct Prog { uint64_t seed = 1; int threads = 2; int fam = 4; std::vector<Act> acts; uint64_t end = 0; std::string inl; };
static const Prog* prog;
static NUClear::PowerPlant* plant = nullptr;

static std::string key(const vpnet::Addr& a) { return std::string((const char*) &a, a.sock.sa_family == AF_INET6 ? 24 : 8); }
// addresses: 0 the group, 1.. peers, 100 this node
static vpnet::Addr peer_addr(int i) { return vpnet::make_addr(900 + i, uint16_t(50000 + i)); }
static int addr_id(const vpnet::Addr& a) {
    if (vpnet::is_group(a)) return 0;
    for (int i = 1; i <= 4; ++i) if (key(peer_addr(i)) == key(a)) return i;
    return 100;
}
static int addr_id(const NUClear::util::network::sock_t& s) {
    vpnet::Addr a;
    memset(&a, 0, sizeof(a));
    memcpy(&a, &s, sizeof(s) < sizeof(a) ? sizeof(s) : sizeof(a));
    return addr_id(a);
}
static int T() { return int(vp::now() / 100000); }
static std::string str(const uint8_t* p, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(p[i]); } return s + "]"; }
static std::string str(const std::string& s) { return str((const uint8_t*) s.data(), s.size()); }
static void ev(const char* e, int a = 0, int b = 0, int c = 0) { vp::Hold h; vp::log("{\"e\":\"%s\",\"t\":%d,\"th\":%d,\"a\":%d,\"b\":%d,\"c\":%d}", e, T(), vp::tid(), a, b, c); }
static uint64_t hash_of(int type) {
    using namespace NUClear::util::serialise;
    return type == 0 ? Serialise<A>::hash() : type == 1 ? Serialise<B>::hash() : type == 2 ? Serialise<V>::hash() : 0x1234567890ULL;
}
static int type_of(const uint8_t* h) { uint64_t x; memcpy(&x, h, 8); for (int i = 0; i < 4; ++i) if (hash_of(i) == x) return i; return 9; }
static void wire(const char* e, int sock, int from, const Bytes& b) {
    const bool data = b.size() >= 20 && (b[4] == 3 || b[4] == 4);
    const int type = b.size() >= 5 && b[0] == 0xE2 ? b[4] : 0;
    // kind, address, data type, id, reliable, content (for an announcement the name)
    vp::log("{\"e\":\"%s\",\"t\":%d,\"th\":%d,\"s\":%d,\"k\":%d,\"a\":%d,\"ty\":%d,\"id\":%d,\"rel\":%d,\"d\":%s}", e, T(), vp::tid(), sock, type, from,
            data ? type_of(b.data() + 12) : 0, data ? b[5] + 256 * b[6] : 0, data ? b[11] : 0,
            data ? str(b.data() + 20, b.size() - 20).c_str() : type == 1 ? str(b.data() + 5, b.size() < 6 ? 0 : b.size() - 6).c_str() : "[]");
}

struct Peer { std::string name; bool on = false, acks = true; uint64_t next = 0; uint16_t ids = 0; };
static Peer peers[5];

template <int r> struct Probe {
    template <typename DSL> static bool precondition(const NUClear::threading::ReactionTask&) { ev("made", r); return true; }
};
struct R;
static R* the_reactor;
struct R : Reactor {
    NUClear::threading::ReactionHandle h[8];
    std::atomic<int> st[8] = {};
    std::atomic<int> inls{0};
    using Src = NUClear::dsl::word::NetworkSource;
    void ran(int r, const Src& s, const uint8_t* p, size_t n) {
        vp::Hold hold;
        vp::log("{\"e\":\"run\",\"t\":%d,\"th\":%d,\"r\":%d,\"a\":%d,\"name\":%s,\"rel\":%d,\"d\":%s}", T(), vp::tid(), r, addr_id(s.address), str(s.name).c_str(), int(s.reliable), str(p, n).c_str());
    }
    template <typename M> void got(int r, const Src& s, const M& m) { ran(r, s, (const uint8_t*) &m, sizeof(m)); ev("ran", r); }
    void got(int r, const Src& s, const V& m) { ran(r, s, m.data(), m.size()); ev("ran", r); }
    void bind(int r) {
        switch (r) {
            case 0: h[0] = on<Network<A>>().then([this](const Src& s, const A& m) { got(0, s, m); }); break;
            case 1: h[1] = on<Network<A>, Inline::ALWAYS>().then([this](const Src& s, const A& m) { got(1, s, m); }); break;
            case 2: h[2] = on<Network<B>, Sync<X>>().then([this](const Src& s, const B& m) { got(2, s, m); }); break;
            case 3: h[3] = on<Network<V>>().then([this](const Src& s, const V& m) { got(3, s, m); }); break;
            case 4: h[4] = on<Network<A>, Inline::ALWAYS>().then([this](const Src& s, const A& m) {
                    ran(4, s, (const uint8_t*) &m, sizeof(m));
                    if (inls++ < 3) exec(prog->inl);
                    ev("ran", 4);
                }); break;
            case 5: h[5] = on<Network<B>, Pool<X5>, Priority::HIGH>().then([this](const Src& s, const B& m) { got(5, s, m); }); break;
        }
    }
    struct X5 { static constexpr int concurrency = 1; };
    void op(char c, int r) {
        switch (c) {
            case 'b': { int z = 0; if (!st[r].compare_exchange_strong(z, 1)) break; ev("bind", r); bind(r); ev("bound", r); st[r] = 2; } break;
            case 'u': { int z = 2; if (!st[r].compare_exchange_strong(z, 3)) break; ev("unb", r); h[r].unbind(); ev("unbd", r); st[r] = 0; } break;
            case 'd': case 'n': { int z = 2; if (!st[r].compare_exchange_strong(z, 3)) break; ev("ctl", r, c == 'n'); h[r].enable(c == 'n'); ev("ctld", r, c == 'n'); st[r] = 2; } break;
        }
    }
    void exec(const std::string& s) { for (size_t i = 0; i + 1 < s.size(); i += 2) op(s[i], s[i + 1] - '0'); }
    explicit R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        the_reactor = this;
        using namespace NUClear::message;
        on<Trigger<NetworkJoin>, Inline::ALWAYS>().then([](const NetworkJoin& j) { vp::Hold h; vp::log("{\"e\":\"join\",\"t\":%d,\"th\":%d,\"a\":%d,\"name\":%s}", T(), vp::tid(), addr_id(j.address), str(j.name).c_str()); });
        on<Trigger<NetworkLeave>, Inline::ALWAYS>().then([](const NetworkLeave& j) { vp::Hold h; vp::log("{\"e\":\"leave\",\"t\":%d,\"th\":%d,\"a\":%d,\"name\":%s}", T(), vp::tid(), addr_id(j.address), str(j.name).c_str()); });
        on<Startup>().then([] { ev("started"); });
    }
    template <typename M> void send(const M& m, const std::string& target, bool rel) { emit<Scope::NETWORK>(std::make_unique<M>(m), target, rel); }
};

static void to_node(int sock, int from, const Bytes& b) {
    for (auto* s : vpnet::sockets()) if (s->node == 1 && int(s->data) == sock) { vpnet::deliver(s->fd, peer_addr(from), b); return; }
}
static Bytes head(uint8_t type) { return Bytes{0xE2, 0x98, 0xA2, 2, type}; }
static void announce(int i) { Bytes b = head(1); b.insert(b.end(), peers[i].name.begin(), peers[i].name.end()); b.push_back(0); to_node(0, i, b); }
static std::atomic<int> nmsg{0};

struct Later { uint64_t t; int sock, from; Bytes b; };
static std::vector<Later> laters;

static void act(const Act& a) {
    auto num = [&](size_t i) { return atoi(a.a.at(i).c_str()); };
    if (a.op == "a") { Peer& p = peers[num(0)]; p.name = a.a.at(1); p.on = true; p.next = vp::now(); }
    else if (a.op == "l") { Peer& p = peers[num(0)]; if (p.on) { p.on = false; to_node(1 - num(1), num(0), head(2)); } }
    else if (a.op == "s") peers[num(0)].on = false;
    else if (a.op == "m") {   // peer type rel length socket copies
        const int i = num(0), len = num(3);
        Bytes b = head(3);
        const uint16_t id = ++peers[i].ids;
        const uint64_t h = hash_of(num(1));
        const int m = ++nmsg;
        b.insert(b.end(), {uint8_t(id), uint8_t(id >> 8), 0, 0, 1, 0, uint8_t(num(2))});
        b.insert(b.end(), (const uint8_t*) &h, (const uint8_t*) &h + 8);
        for (int k = 0; k < len; ++k) b.push_back(uint8_t(k == 0 ? m : m * 31 + k * 7));
        for (int k = 0; k < num(5); ++k) { to_node(num(4), i, b); b[4] = 4; }
    }
    else if (a.op == "o") the_reactor->exec(a.a.at(0));
    else if (a.op == "e") {   // type target reliable length
        const int m = 100 + (++nmsg) % 100;
        const std::string target = a.a.at(1) == "*" ? "" : a.a.at(1);
        const int type = num(0);
        Bytes b(type == 0 ? 8 : type == 1 ? 12 : size_t(num(3)));
        for (size_t k = 0; k < b.size(); ++k) b[k] = uint8_t(k == 0 ? m : size_t(m) * 13 + k * 5);
        vp::log("{\"e\":\"emit\",\"t\":%d,\"th\":%d,\"ty\":%d,\"to\":%s,\"rel\":%d,\"d\":%s}", T(), vp::tid(), type, str(target).c_str(), num(2), str(b.data(), b.size()).c_str());
        if (type == 0) { A x; memcpy(&x, b.data(), 8); the_reactor->send(x, target, num(2) != 0); }
        else if (type == 1) { B x; memcpy(&x, b.data(), 12); the_reactor->send(x, target, num(2) != 0); }
        else the_reactor->send(V(b), target, num(2) != 0);
        ev("emitted");
    }
    else if (a.op == "c") {
        vp::log("{\"e\":\"conf\",\"t\":%d,\"th\":%d,\"name\":%s}", T(), vp::tid(), str(a.a.at(0)).c_str());
        plant->emit(std::make_unique<NUClear::message::NetworkConfiguration>(a.a.at(0), prog->fam == 6 ? "ff02::7" : "239.1.2.3", uint16_t(7447)));
    }
}
static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    prog = &p;
    vp::Opts o; o.seed = p.seed; o.max_steps = 4000000; o.allow_spurious = false;
    vp::start(o, buf, cap, len);
    vpnet::fam = p.fam;
    vpnet::install();
    vpnet::node = [] { return 1; };
    vpnet::on_open = [](const vpnet::Sock& s) { ev("open", s.data ? 1 : 0); };
    vpnet::on_close = [](const vpnet::Sock& s) { ev("close", s.data ? 1 : 0); };
    vpnet::on_block = [](const vpnet::Sock&) { ev("block"); vp::end_run("hang"); };
    vpnet::on_recv = [](const vpnet::Sock& s, const vpnet::Addr& from, const Bytes& b, size_t) { vp::Hold hold; wire("rx", s.data ? 1 : 0, addr_id(from), b); };
    vpnet::on_send = [](const vpnet::Sock&, const vpnet::Addr& to, const Bytes& b) {
        vp::Hold hold;
        wire("tx", 1, addr_id(to), b);
        // peers acknowledge reliable data
        if (b.size() >= 20 && (b[4] == 3 || b[4] == 4) && b[11]) {
            for (int i = 1; i <= 4; ++i) if (peers[i].on && (addr_id(to) == 0 || addr_id(to) == i)) {
                Bytes r = head(5);
                r.insert(r.end(), {b[5], b[6], b[7], b[8], b[9], b[10], 1});
                laters.push_back(Later{vp::now() + 1000000, 1, i, r});
            }
        }
        return 0;
    };
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<NUClear::extension::ChronoController>();
    pp.install<NUClear::extension::IOController>();
    pp.install<NUClear::extension::NetworkController>();
    pp.install<R>();
    std::thread world([&p] {
        vp::quiesce();
        const uint64_t t0 = vp::now();
        size_t k = 0;
        while (true) {
            uint64_t next = t0 + (k < p.acts.size() ? p.acts[k].t : p.end) * 1000000ULL;
            for (int i = 1; i <= 4; ++i) if (peers[i].on && peers[i].next < next) next = peers[i].next;
            { vp::Hold hold; for (auto& l : laters) if (l.t < next) next = l.t; }
            if (next > vp::now()) vp::sleep_ns(next - vp::now());
            for (size_t i = 0; i < laters.size();) {
                vp::Hold hold;
                if (laters[i].t > vp::now()) { ++i; continue; }
                const Later l = laters[i];
                laters.erase(laters.begin() + long(i));
                to_node(l.sock, l.from, l.b);
            }
            for (int i = 1; i <= 4; ++i) if (peers[i].on && peers[i].next <= vp::now()) { announce(i); peers[i].next = vp::now() + 500000000ULL; }
            while (k < p.acts.size() && t0 + p.acts[k].t * 1000000ULL <= vp::now()) act(p.acts[k++]);
            if (k == p.acts.size() && vp::now() >= t0 + p.end * 1000000ULL) break;
        }
        vp::quiesce();
        ev("quiet");
        ev("sd");
        plant->shutdown();
    });
    pp.start();
    world.join();
    ev("over");
    vp::end_run("fin");
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "prog") { ps.emplace_back(); is >> ps.back().seed >> ps.back().threads >> ps.back().fam >> ps.back().inl; continue; }
        if (w == "end") { is >> ps.back().end; continue; }
        Act a;
        a.t = strtoull(w.c_str(), nullptr, 10);
        is >> a.op;
        while (is >> w) a.a.push_back(w);
        ps.back().acts.push_back(a);
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 30, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
