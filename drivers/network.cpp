// Several network nodes over a simulated network (spec/Network.tla).
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "../sim/vp.hpp"
#include "../sim/vpnet.hpp"
#include "nuclear"
#include "extension/network/NUClearNetwork.hpp"

using Net   = NUClear::extension::network::NUClearNetwork;
using Bytes = std::vector<uint8_t>;

struct Act { uint64_t t; std::string op; std::vector<std::string> a; };
struct Prog { int n = 0, mtu = 0, fam = 4, mode = 0; uint64_t seed = 1; std::vector<Act> acts; uint64_t end = 0; };

static const Prog* prog;
static int at_node = 0;          // which node is executing
static bool muted = false;       // nothing leaves or enters (crash)
static int loss = 0, twice = 0, delay = 0, fail = 0;   // percent, percent, ms, percent
static std::map<std::string, int> addr_ids;
static int groups = 0;

static std::string key(const vpnet::Addr& a) { return std::string((const char*) &a, a.sock.sa_family == AF_INET6 ? 24 : 8); }
static int addr_id(const vpnet::Addr& a) {
    if (vpnet::is_group(a)) return 0;
    auto it = addr_ids.find(key(a));
    if (it != addr_ids.end()) return it->second;
    const int id = int(addr_ids.size()) + 1;
    addr_ids[key(a)] = id;
    return id;
}
static int addr_id(const NUClear::util::network::sock_t& s) {
    vpnet::Addr a;
    memset(&a, 0, sizeof(a));
    memcpy(&a, &s, sizeof(s) < sizeof(a) ? sizeof(s) : sizeof(a));
    return addr_id(a);
}
static int T() { return int(vp::now() / 100000); }   // 0.1 ms
static std::string str(const uint8_t* p, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string(p[i]); } return s + "]"; }
static std::string str(const std::string& s) { return str((const uint8_t*) s.data(), s.size()); }
static int sum(const uint8_t* p, size_t n) { uint32_t h = 2166136261u; for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 16777619u; return int(h & 0x3FFFFFFF); }
// the content of messages: every byte, or when they are large one number for each fragment
static std::string tokens(const uint8_t* p, size_t n, bool split) {
    if (prog->mode == 0) return str(p, n);
    const size_t f = size_t(prog->mtu) - 68;
    std::string s = "[";
    if (!split) { if (n) s += std::to_string(sum(p, n)); return s + "]"; }
    for (size_t i = 0; i < n; i += f) { if (i) s += ","; s += std::to_string(sum(p + i, std::min(f, n - i))); }
    return s + "]";
}
static void wire(const char* e, int n, const char* where, int w, int from, const Bytes& b) {
    const bool data = b.size() >= 5 && (b[4] == 3 || b[4] == 4);
    const size_t h = std::min<size_t>(b.size(), data ? 20 : 5);
    vp::log("{\"e\":\"%s\",\"t\":%d,\"n\":%d,\"%s\":%d,\"a\":%d,\"l\":%d,\"h\":%s,\"d\":%s}", e, T(), n, where, w, from, int(b.size()), str(b.data(), h).c_str(),
            data ? tokens(b.data() + h, b.size() - h, false).c_str() : str(b.data() + h, b.size() - h).c_str());
}

struct Timer { uint64_t t; uint64_t k; std::function<void()> f; };
struct Later { bool operator()(const Timer& a, const Timer& b) const { return a.t != b.t ? a.t > b.t : a.k > b.k; } };
static std::priority_queue<Timer, std::vector<Timer>, Later> timers;
static uint64_t timer_no = 0;
static void at(uint64_t t, std::function<void()> f) { timers.push(Timer{std::max(t, vp::now()), timer_no++, std::move(f)}); }

struct Node {
    std::unique_ptr<Net> net;
    int life = 0;              // which incarnation
    bool up = false, planned = false;
    uint64_t stall = 0;
    int data = -1, ann = -1, last = 0;
};
static std::vector<Node> nodes;
static int sends = 0;

static void process(int n, int life) {
    Node& k = nodes[size_t(n)];
    k.planned = false;
    if (!k.up || k.life != life) return;
    if (vp::now() < k.stall) { k.planned = true; at(k.stall, [n, life] { process(n, life); }); return; }
    at_node = n;
    vp::log("{\"e\":\"proc\",\"t\":%d,\"n\":%d}", T(), n);
    vp::guard = 1;
    try { k.net->process(); }
    catch (const std::exception& e) { vp::guard = 0; vp::log("{\"e\":\"throw\",\"t\":%d,\"n\":%d,\"in\":0}", T(), n); }
    catch (...) { vp::guard = 0; vp::log("{\"e\":\"throw\",\"t\":%d,\"n\":%d,\"in\":0}", T(), n); }
    vp::guard = 0;
    vp::log("{\"e\":\"idle\",\"t\":%d,\"n\":%d}", T(), n);
    at_node = 0;
}
static void plan(int n) {   // something can be read
    Node& k = nodes[size_t(n)];
    if (!k.up || k.planned) return;
    k.planned = true;
    const int life = k.life;
    at(vp::now() + (vp::rnd(3) == 0 ? vp::rnd(3000) * 1000ULL : 0), [n, life] { process(n, life); });
}
static void check_readable() {
    for (auto& k : nodes) if (k.up && (vpnet::readable(k.data) || vpnet::readable(k.ann))) plan(int(&k - nodes.data()));
}
static void setup(int n) {
    Node& k = nodes[size_t(n)];
    k.net.reset(new Net());
    k.net->set_packet_callback([n](const Net::NetworkTarget& r, const uint64_t& hash, const bool& rel, Bytes&& p) {
        vp::log("{\"e\":\"deliver\",\"t\":%d,\"n\":%d,\"a\":%d,\"name\":%s,\"hash\":%s,\"rel\":%d,\"d\":%s}", T(), n, addr_id(r.target), str(r.name).c_str(),
                str((const uint8_t*) &hash, 8).c_str(), int(*(const uint8_t*) &rel), tokens(p.data(), p.size(), true).c_str());
    });
    k.net->set_join_callback([n](const Net::NetworkTarget& r) { vp::log("{\"e\":\"join\",\"t\":%d,\"n\":%d,\"a\":%d,\"name\":%s}", T(), n, addr_id(r.target), str(r.name).c_str()); });
    k.net->set_leave_callback([n](const Net::NetworkTarget& r) { vp::log("{\"e\":\"leave\",\"t\":%d,\"n\":%d,\"a\":%d,\"name\":%s}", T(), n, addr_id(r.target), str(r.name).c_str()); });
    const int life = k.life;
    k.net->set_next_event_callback([n, life](std::chrono::steady_clock::time_point t) {
        const auto d = std::chrono::duration_cast<std::chrono::nanoseconds>(t - std::chrono::steady_clock::now()).count();
        at(d > 0 ? vp::now() + uint64_t(d) : vp::now(), [n, life] { process(n, life); });
    });
}
static void down(int n, bool clean) {
    Node& k = nodes[size_t(n)];
    if (!k.up) return;
    vp::log("{\"e\":\"down\",\"t\":%d,\"n\":%d,\"c\":%d}", T(), n, int(clean));
    k.up = false;
    ++k.life;
    at_node = n;
    muted = !clean;
    vp::guard = 1;
    if (clean) k.net->shutdown();
    k.net.reset();
    vp::guard = 0;
    muted = false;
    at_node = 0;
}
static void up(int n, const std::string& name, bool fresh) {
    Node& k = nodes[size_t(n)];
    if (fresh) { down(n, false); ++k.life; setup(n); }
    else if (!k.up) return;
    else vp::log("{\"e\":\"down\",\"t\":%d,\"n\":%d,\"c\":1}", T(), n);
    at_node = n;
    k.data = k.ann = -1;
    vp::guard = 1;
    k.net->reset(name, prog->fam == 6 ? "ff02::7" : "239.1.2.3", 7447, uint16_t(prog->mtu));
    vp::guard = 0;
    at_node = 0;
    k.up = true;
    k.planned = false;
    int a = 0;
    for (auto* s : vpnet::sockets()) if (s->fd == k.data) a = addr_id(s->addr);
    k.last = a;
    vp::log("{\"e\":\"up\",\"t\":%d,\"n\":%d,\"a\":%d,\"fresh\":%d,\"name\":%s}", T(), n, a, int(fresh), str(name).c_str());
    plan(n);
}
static Bytes unhex(const std::string& s) { Bytes b; for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(strtol(s.substr(i, 2).c_str(), nullptr, 16))); return b; }

static void act(const Act& a) {
    auto num = [&](size_t i) { return atoi(a.a.at(i).c_str()); };
    if (a.op == "U") up(num(0), a.a.at(1), true);
    else if (a.op == "R") up(num(0), a.a.at(1), false);
    else if (a.op == "D") down(num(0), true);
    else if (a.op == "C") down(num(0), false);
    else if (a.op == "F") { loss = num(0); twice = num(1); delay = num(2); fail = num(3); }
    else if (a.op == "Z") nodes[size_t(num(0))].stall = vp::now() + uint64_t(num(1)) * 1000000ULL;
    else if (a.op == "S" || a.op == "W") {   // node target hash reliable size / node count
        const int n = num(0);
        Node& k = nodes[size_t(n)];
        if (!k.up) return;
        at_node = n;
        if (a.op == "W") {
            vp::log("{\"e\":\"skip\",\"t\":%d,\"n\":%d,\"k\":%d}", T(), n, num(1));
            for (int i = 0; i < num(1); ++i) k.net->send(1, Bytes(), "nobody has this name", false);
        }
        else {
            const uint64_t hash = 0x1122334455667700ULL + uint64_t(num(2));
            Bytes p(size_t(num(4)));
            const int m = ++sends;
            for (size_t i = 0; i < p.size(); ++i) p[i] = uint8_t(i == 0 ? m : i == 1 ? m >> 8 : (size_t(m) * 31 + i * 7 + i / 251) & 0xFF);
            const std::string target = a.a.at(1) == "*" ? "" : a.a.at(1);
            vp::log("{\"e\":\"send\",\"t\":%d,\"n\":%d,\"m\":%d,\"to\":%s,\"hash\":%s,\"rel\":%d,\"d\":%s}", T(), n, m, str(target).c_str(), str((const uint8_t*) &hash, 8).c_str(), num(3), p.size() / (size_t(prog->mtu) - 68) < 65535 ? tokens(p.data(), p.size(), true).c_str() : "[-1]");
            bool threw = false;
            vp::guard = 1;
            try { k.net->send(hash, p, target, num(3) != 0); }
            catch (...) { vp::guard = 0; threw = true; vp::log("{\"e\":\"throw\",\"t\":%d,\"n\":%d,\"in\":1}", T(), n); }
            vp::guard = 0;
            if (!threw) vp::log("{\"e\":\"sent\",\"t\":%d,\"n\":%d}", T(), n);
        }
        at_node = 0;
    }
    else if (a.op == "I") {   // node socket source bytes: a datagram from outside
        Node& k = nodes[size_t(num(0))];
        if (!k.up) return;
        const std::string& s = a.a.at(2);
        vpnet::Addr from;
        if (s[0] == 'g') from = groups ? vpnet::make_addr(0, 7447) : vpnet::make_addr(0, 7447);
        else if (s[0] == 'x') from = vpnet::make_addr(900 + atoi(s.c_str() + 1), 50000);
        else {
            const int q = nodes[size_t(atoi(s.c_str() + 1))].last;
            bool found = false;
            for (auto& x : addr_ids) if (x.second == q) { memset(&from, 0, sizeof(from)); memcpy(&from, x.first.data(), x.first.size()); found = true; }
            if (!found) return;
        }
        if (s[0] == 'g') {
            memset(&from, 0, sizeof(from));
            if (prog->fam == 6) { from.v6.sin6_family = AF_INET6; from.v6.sin6_port = htons(7447); inet_pton(AF_INET6, "ff02::7", &from.v6.sin6_addr); }
            else { from.v4.sin_family = AF_INET; from.v4.sin_port = htons(7447); inet_pton(AF_INET, "239.1.2.3", &from.v4.sin_addr); }
        }
        vpnet::deliver(a.a.at(1) == "1" ? k.data : k.ann, from, unhex(a.a.size() > 3 ? a.a.at(3) : ""));
    }
}
static void send_copy(int fd, const vpnet::Addr& from, const Bytes& b, bool self) {
    if (int(vp::rnd(100)) < loss) return;
    const int copies = int(vp::rnd(100)) < twice ? 2 : 1;
    for (int i = 0; i < copies; ++i) {
        uint64_t d = self ? 20000 : 50000 + vp::rnd(100000);
        if (delay && vp::rnd(2)) d += vp::rnd(uint32_t(delay) * 1000) * 1000ULL;
        at(vp::now() + d, [fd, from, b] { vpnet::deliver(fd, from, b); });
    }
}
static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    prog = &p;
    vp::Opts o; o.seed = p.seed; o.calm = 1; o.allow_spurious = false; o.max_steps = 20000000;
    vp::start(o, buf, cap, len);
    vpnet::fam = p.fam;
    nodes.resize(size_t(p.n) + 1);
    vpnet::node = [] { return at_node; };
    vpnet::on_open = [](const vpnet::Sock& s) { (s.data ? nodes[size_t(s.node)].data : nodes[size_t(s.node)].ann) = s.fd; };
    vpnet::on_close = [](const vpnet::Sock&) {};
    vpnet::on_block = [](const vpnet::Sock& s) { vp::log("{\"e\":\"block\",\"t\":%d,\"n\":%d}", T(), s.node); vp::end_run("hang"); };
    vpnet::on_recv = [](const vpnet::Sock& s, const vpnet::Addr& from, const Bytes& b, size_t) {
        wire("rx", s.node, "s", s.data ? 1 : 0, addr_id(from), b);
    };
    vpnet::on_send = [](const vpnet::Sock& s, const vpnet::Addr& to, const Bytes& b) {
        if (muted) return 0;
        const bool err = int(vp::rnd(100)) < fail;
        vp::guard = 0;
        wire("tx", s.node, "err", err ? 1 : 0, addr_id(to), b);
        if (err) { vp::guard = 1; return ENETUNREACH; }
        for (auto* r : vpnet::sockets()) {
            if (vpnet::is_group(to) ? !r->data && vpnet::addr_port(r->addr) == vpnet::addr_port(to) : key(r->addr) == key(to)) send_copy(r->fd, s.addr, b, r->node == s.node);
        }
        vp::guard = 1;
        return 0;
    };
    for (const auto& a : p.acts) at(a.t * 1000000ULL, [&a] { act(a); });
    at(p.end * 1000000ULL, [] { loss = twice = delay = fail = 0; for (auto& k : nodes) k.stall = 0; vp::log("{\"e\":\"calm\",\"t\":%d}", T()); });
    const uint64_t stop = (p.end + 9000) * 1000000ULL;
    while (!timers.empty() && timers.top().t < stop) {
        const Timer t = timers.top();
        timers.pop();
        if (t.t > vp::now()) vp::sleep_ns(t.t - vp::now());
        t.f();
        check_readable();
    }
    vp::log("{\"e\":\"final\",\"t\":%d}", T());
    vp::end_run("fin");
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "net") { ps.emplace_back(); is >> ps.back().n >> ps.back().mtu >> ps.back().fam >> ps.back().mode >> ps.back().seed; continue; }
        if (w == "end") { is >> ps.back().end; continue; }
        Act a;
        a.t = strtoull(w.c_str(), nullptr, 10);
        is >> a.op;
        while (is >> w) a.a.push_back(w);
        ps.back().acts.push_back(a);
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 30, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
