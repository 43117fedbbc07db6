// UDP and TCP reactions on real sockets (spec/Sock.tla).  The runs are spread over processes that each have a network of their own.
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <linux/if_link.h>
#include <linux/netlink.h>
#include <linux/rtnetlink.h>
#include <linux/sock_diag.h>
#include <linux/veth.h>
#include <map>
#include <net/if.h>
#include <net/route.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sched.h>
#include <set>
#include <sstream>
#include <string>
#include <linux/sockios.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::Reactor;
using NUClear::util::network::sock_t;
#ifndef SO_MEMINFO
#define SO_MEMINFO 55
#endif

struct Act { std::string op; std::vector<int> a; };
struct Prog { uint64_t seed = 1; int threads = 2; std::vector<Act> acts[2]; };
static const Prog* prog;
static NUClear::PowerPlant* plant = nullptr;
static bool isolated = false, has_veth = false;
// addresses by number
enum { OTHER, LO, LO6, VETH, DIRECTED, LIMITED, GROUP1, GROUP2, ANY };
static const char* const ADDRS[] = {"", "127.0.0.1", "::1", "10.9.0.1", "10.9.0.255", "255.255.255.255", "239.9.8.7", "239.9.8.6", ""};
static void ev(const char* e, std::initializer_list<int> v) {
    std::string s = "{\"e\":\"" + std::string(e) + "\",\"v\":[";
    bool first = true;
    for (int x : v) { s += (first ? "" : ",") + std::to_string(x); first = false; }
    vp::log("%s]}", s.c_str());
}
static int code(const sock_t& s) {
    char b[64] = "";
    if (s.sock.sa_family == AF_INET) inet_ntop(AF_INET, &s.ipv4.sin_addr, b, sizeof b);
    else if (s.sock.sa_family == AF_INET6) inet_ntop(AF_INET6, &s.ipv6.sin6_addr, b, sizeof b);
    for (int i = LO; i < ANY; ++i) if (!strcmp(b, ADDRS[i])) return i;
    return OTHER;
}
static int port_of(const sock_t& s) { return ntohs(s.sock.sa_family == AF_INET6 ? s.ipv6.sin6_port : s.ipv4.sin_port); }
static sock_t addr(int a, int port) {
    sock_t s{};
    if (a == LO6) { s.ipv6.sin6_family = AF_INET6; s.ipv6.sin6_addr = in6addr_loopback; s.ipv6.sin6_port = htons(uint16_t(port)); }
    else { s.ipv4.sin_family = AF_INET; inet_pton(AF_INET, ADDRS[a], &s.ipv4.sin_addr); s.ipv4.sin_port = htons(uint16_t(port)); }
    return s;
}
static uint8_t byte_of(int id, int i) { return uint8_t(i < 4 ? (unsigned(id) >> (8 * i)) : unsigned(id * 131 + i * 7 + (i >> 8))); }
static std::vector<uint8_t> bytes_of(int id, int n) { std::vector<uint8_t> v(static_cast<size_t>(n)); for (int i = 0; i < n; ++i) v[size_t(i)] = byte_of(id, i); return v; }
// real waiting: the kernel may be a little late
template <typename F> static bool real_wait(F f, int ms = 300) {
    for (int i = 0; i < ms * 10; ++i) { if (f()) return true; struct timespec t{0, 100000}; syscall(SYS_nanosleep, &t, nullptr); }
    return f();
}
static unsigned rmem(int fd) { uint32_t m[9] = {0}; socklen_t l = sizeof m; return ::getsockopt(fd, SOL_SOCKET, SO_MEMINFO, m, &l) ? 0 : m[0]; }
static unsigned backlog(int fd) { tcp_info i{}; socklen_t l = sizeof i; return ::getsockopt(fd, IPPROTO_TCP, TCP_INFO, &i, &l) ? 0 : i.tcpi_unacked; }
static ino_t inode(int fd) { struct stat s{}; return ::fstat(fd, &s) ? 0 : s.st_ino; }

struct Message { int id, size; };
namespace NUClear { namespace util { namespace serialise {
    template <> struct Serialise<Message, Message> {
        static std::vector<uint8_t> serialise(const Message& m) { return bytes_of(m.id, m.size); }
        static Message deserialise(const std::vector<uint8_t>&) { return {}; }
        static uint64_t hash() { return 1; }
    };
} } }
struct X {};
struct XP { static constexpr int concurrency = 2; };
struct Tick {};
struct R;
static R* the_reactor;
static std::atomic<int> insts{0};
static std::map<int, int> by_port[2];      // port a datagram or connection came from -> its id (unknown senders are not here); under Hold
static std::map<int, int> sizes, clients;   // id -> size, id -> client descriptor
static std::set<int> strangers;
struct Slot { std::atomic<int> st{0}, busy{0}; int inst = 0, kind = 0, addr = 0, port = 0, fd = -1; ino_t ino = 0; NUClear::threading::ReactionHandle h; };
constexpr int NS = 80;
struct R : Reactor {
    Slot slots[NS];
    explicit R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) { the_reactor = this; }
    // Several may unbind the same reaction, it is unbound once all of them are done
    void unbind(int i, int inst) {
        Slot& s = slots[i];
        { vp::Hold h; if (s.inst != inst || (s.st != 2 && s.st != 3)) return; s.st = 3; ++s.busy; ev("unb", {s.inst}); }
        s.h.unbind();
        vp::Hold h;
        if (--s.busy != 0) return;
        bool open = false;
        for (int fd = 0; fd < 1200 && !open; ++fd) open = inode(fd) == s.ino;
        ev("unbd", {s.inst, open});
        s.st = 0;
    }
    struct Self { std::atomic<int> n{0}; };
    void udp(int slot, int inst, int stop, int mode, int n, const UDP::Packet& p) {
        {
            vp::Hold h;
            const int rp = port_of(p.remote);
            int id = -1;
            // short ones are only sent from ports of their own, that of a longer one may have been used again
            auto it = by_port[0].find(code(p.remote) * 65536 + rp);
            if (p.payload.size() >= 4) id = int(p.payload[0] | p.payload[1] << 8 | p.payload[2] << 16 | unsigned(p.payload[3]) << 24);
            else if (it != by_port[0].end()) id = it->second;
            const bool known = sizes.count(id) != 0;
            ev("run", {inst, known ? id : 0, int(p.payload.size()), known && p.payload == bytes_of(id, sizes[id]), code(p.local), port_of(p.local), code(p.remote), rp, p.valid});
        }
        vp::yield();
        if (stop > 0 && n >= stop) unbind(slot, inst);
        vp::yield();
        if ((mode & 1) && n % 2) throw 1;
    }
    void tcp(int slot, int inst, int stop, int mode, int n, const TCP::Connection& c) {
        {
            vp::Hold h;
            const int rp = port_of(c.remote);
            auto it = by_port[1].find(code(c.remote) * 65536 + rp);
            const int id = it == by_port[1].end() ? 0 : it->second;
            // the token of the client has been delivered before
            uint8_t b[16];
            const int r = id ? int(::recv(c.fd, b, sizeof b, MSG_DONTWAIT)) : 0;
            const bool ok = r == 8 && bytes_of(id, 8) == std::vector<uint8_t>(b, b + 8);
            int type = 0; socklen_t l = sizeof type;
            const bool sock = ::getsockopt(c.fd, SOL_SOCKET, SO_TYPE, &type, &l) == 0;
            sock_t pn{}; l = sizeof pn;
            const bool same = ::getpeername(c.fd, &pn.sock, &l) != 0 || port_of(pn) == rp;
            ev("crun", {inst, id, ok && sock && same, code(c.local), port_of(c.local), code(c.remote), rp, bool(c)});
            if (sock) { for (auto& v : b) v = 77; (void) !::send(c.fd, b, 8, MSG_NOSIGNAL | MSG_DONTWAIT); if (mode & 2) ::close(c.fd); }
        }
        vp::yield();
        if (stop > 0 && n >= stop) unbind(slot, inst);
        vp::yield();
        if ((mode & 1) && n % 2) throw 1;
    }
    using Ret = std::tuple<NUClear::threading::ReactionHandle, in_port_t, NUClear::fd_t>;
    template <typename... W> Ret bind_as(int slot, int inst, int kind, int a, int port, int stop, int mode) {
        auto self = std::make_shared<Self>();
        auto u = [this, slot, inst, stop, mode, self](const UDP::Packet& p) { udp(slot, inst, stop, mode, ++self->n, p); };
        const in_port_t p = in_port_t(port);
        switch (kind) {
            case 0: return a == ANY ? (port ? on<UDP, W...>(p).then(std::move(u)) : on<UDP, W...>().then(std::move(u))) : on<UDP, W...>(p, ADDRS[a]).then(std::move(u));
            case 1: return a == ANY ? on<UDP::Broadcast, W...>(p).then(std::move(u)) : on<UDP::Broadcast, W...>(p, ADDRS[a]).then(std::move(u));
            case 2: case 3: return on<UDP::Multicast, W...>(ADDRS[kind == 2 ? GROUP1 : GROUP2], p).then(std::move(u));
            default: {
                auto t = [this, slot, inst, stop, mode, self](const TCP::Connection& c) { tcp(slot, inst, stop, mode, ++self->n, c); };
                return a == ANY ? (port ? on<TCP, W...>(p).then(std::move(t)) : on<TCP, W...>().then(std::move(t))) : on<TCP, W...>(p, ADDRS[a]).then(std::move(t));
            }
        }
    }
    void bind(int slot, int kind, int a, int port, int variant, int stop, int mode) {
        Slot& s = slots[slot];
        int z = 0;
        if (!s.st.compare_exchange_strong(z, 1)) return;
        const int inst = ++insts;
        { vp::Hold h; s.inst = inst; s.kind = kind; s.addr = a; s.port = port; ev("bind", {inst, kind == 4 && variant == 6 ? 5 : kind, a, port}); }
        Ret r;
        try {
            switch (variant) {
                case 1: r = bind_as<Single>(slot, inst, kind, a, port, stop, mode); break;
                case 2: r = bind_as<Sync<X>>(slot, inst, kind, a, port, stop, mode); break;
                case 3: r = bind_as<Pool<XP>>(slot, inst, kind, a, port, stop, mode); break;
                case 4: r = bind_as<Inline::ALWAYS>(slot, inst, kind, a, port, stop, mode); break;
                case 5: r = bind_as<Buffer<2>, Priority::LOW>(slot, inst, kind, a, port, stop, mode); break;
                case 6: r = kind == 4 ? bind_as<Trigger<Tick>>(slot, inst, kind, a, port, stop, mode) : bind_as<>(slot, inst, kind, a, port, stop, mode); break;
                default: r = bind_as<>(slot, inst, kind, a, port, stop, mode); break;
            }
        }
        catch (const std::exception& e) { vp::Hold h; ev("nobind", {inst}); s.st = 0; return; }
        vp::Hold h;
        s.h = std::get<0>(r);
        s.fd = std::get<2>(r); s.port = std::get<1>(r); s.ino = inode(s.fd);
        // the port and the address that it really has
        sock_t n{}; socklen_t l = sizeof n;
        int acc = 0; socklen_t al = sizeof acc;
        ::getsockname(s.fd, &n.sock, &l);
        const bool listening = ::getsockopt(s.fd, SOL_SOCKET, SO_ACCEPTCONN, &acc, &al) == 0 && acc;
        ev("bound", {inst, s.port, port_of(n), kind >= 4 ? listening : 1});
        s.st = 2;
    }
};

static void send_to(int slot, int to, int id, int size, int how) {
    Slot& s = the_reactor->slots[slot];
    vp::Hold h;
    const int port = s.port;
    if (port == 0 || (!isolated && s.st != 2)) return;
    // who will queue it, and is there space
    std::vector<std::pair<int, unsigned>> queues;
    bool must = true;
    for (auto& o : the_reactor->slots)
        if (o.st == 2 && o.port == port && o.kind < 4) {
            const unsigned m = rmem(o.fd);
            if (m > 60000) must = false;
            if (to <= VETH || o.kind == (to <= LIMITED ? 1 : to == GROUP1 ? 2 : 3)) queues.emplace_back(o.fd, m);
        }
    if (how != 0 && size < 4) size += 4;
    int from = to == LO ? LO : to == LO6 ? LO6 : VETH, fport = 0;
    sizes[id] = size;
    bool ok = true;
    if (how == 0) {
        const int fd = ::socket(to == LO6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0);
        sock_t b = addr(from, 0);
        int yes = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_BROADCAST, &yes, sizeof yes);
        ok = ::bind(fd, &b.sock, b.size()) == 0;
        if (to >= GROUP1) { in_addr v = b.ipv4.sin_addr; ::setsockopt(fd, IPPROTO_IP, IP_MULTICAST_IF, &v, sizeof v); }
        sock_t n{}; socklen_t l = sizeof n;
        ::getsockname(fd, &n.sock, &l);
        fport = port_of(n);
        by_port[0][from * 65536 + fport] = id;
        sock_t d = addr(to, port);
        auto p = bytes_of(id, size);
        ok = ok && ::sendto(fd, p.data(), p.size(), 0, &d.sock, d.size()) == ssize_t(p.size());
        // the descriptor stays open so that its port remains its own
    }
    else {
        try {
            const auto m = std::make_shared<Message>(Message{id, size});
            std::unique_ptr<Message> u(new Message{id, size});
            if (how >= 3) fport = 30000 + id;
            const std::string fa = how == 2 || how == 4 ? ADDRS[from] : "";
            if (how == 1) the_reactor->emit<NUClear::dsl::word::emit::UDP>(u, ADDRS[to], in_port_t(port));
            else the_reactor->emit<NUClear::dsl::word::emit::UDP>(u, ADDRS[to], in_port_t(port), fa, in_port_t(fport));
        }
        catch (const std::exception&) { ok = false; }
    }
    for (auto& q : queues) real_wait([&] { return rmem(q.first) != q.second; });
    vp::fd_event();
    ev("send", {id, to, port, size, from, fport, must, ok});
}
static void connect_to(int slot, int to, int id, int how) {
    Slot& s = the_reactor->slots[slot];
    vp::Hold h;
    const int port = s.port;
    if (port == 0 || s.kind < 4 || (!isolated && s.st != 2)) return;
    int lfd = -1;
    for (auto& o : the_reactor->slots) if (o.st == 2 && o.port == port && o.kind == 4) lfd = o.fd;
    const unsigned q = lfd < 0 ? 0 : backlog(lfd);
    const int fd = ::socket(to == LO6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
    ::fcntl(fd, F_SETFL, O_NONBLOCK);
    sock_t b = addr(to == LO6 ? LO6 : to, 0), n{};
    socklen_t l = sizeof n;
    ::bind(fd, &b.sock, b.size());
    ::getsockname(fd, &n.sock, &l);
    if (port_of(n) == port) { ::close(fd); return; }   // it would connect to itself
    sock_t d = addr(to, port);
    int r = ::connect(fd, &d.sock, d.size());
    if (r && errno == EINPROGRESS) {
        struct pollfd p{fd, POLLOUT, 0};
        real_wait([&] { struct timespec z{0, 0}; return syscall(SYS_ppoll, &p, 1, &z, nullptr, 8) > 0; });
        int err = 0; l = sizeof err;
        ::getsockopt(fd, SOL_SOCKET, SO_ERROR, &err, &l);
        r = (p.revents & POLLOUT) && !err ? 0 : -1;
    }
    const bool ok = r == 0;
    by_port[1][to * 65536 + port_of(n)] = id;
    clients[id] = fd;
    if (ok) {
        auto t = bytes_of(id, 8);
        (void) !::send(fd, t.data(), 8, MSG_NOSIGNAL);
        real_wait([&] { int o = 0; return ::ioctl(fd, SIOCOUTQ, &o) != 0 || o == 0; });
        if (lfd >= 0) real_wait([&] { return backlog(lfd) != q; });
        if (how == 1) ::shutdown(fd, SHUT_WR);
    }
    vp::fd_event();
    ev("conn", {id, to, port, port_of(n), ok});
}
static void act(const Act& a) {
    const auto& v = a.a;
    if (a.op == "b") the_reactor->bind(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    else if (a.op == "u") the_reactor->unbind(v[0], the_reactor->slots[v[0]].inst);
    else if (a.op == "s") send_to(v[0], v[1], v[2], v[3], v[4]);
    else if (a.op == "c") connect_to(v[0], v[1], v[2], v[3]);
    else if (a.op == "t") plant->emit(std::make_unique<Tick>());
    else if (a.op == "y") { for (int i = 0; i < v[0]; ++i) vp::yield(); }
    else if (a.op == "q") {
        vp::quiesce();
        vp::Hold h;
        for (auto& s : the_reactor->slots) if (s.st == 2) ev("alive", {s.inst, inode(s.fd) == s.ino});
        for (auto& c : clients) {
            uint8_t b[16];
            ssize_t r = 0;
            real_wait([&] { r = ::recv(c.second, b, sizeof b, MSG_DONTWAIT); return r >= 0 || errno != EAGAIN; }, strangers.count(c.first) ? 0 : 20);
            strangers.insert(c.first);
            if (r == 8 && b[0] == 77 && b[7] == 77) ev("echo", {c.first});
        }
        ev("quiet", {});
    }
}
static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    prog = &p;
    signal(SIGPIPE, SIG_IGN);
    vp::Opts o; o.seed = p.seed; o.max_steps = 900000; o.allow_spurious = false;
    vp::start(o, buf, cap, len);
    ev("net", {isolated, has_veth});
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<NUClear::extension::IOController>();
    pp.install<R>();
    std::thread side([&p] { for (const auto& a : p.acts[1]) act(a); });
    std::thread world([&p] {
        for (const auto& a : p.acts[0]) act(a);
        act({"q", {}});
        plant->shutdown();
    });
    pp.start();
    world.join();
    side.join();
    ev("over", {});
    vp::end_run("fin");
}

// --- a network of our own -----------------------------------------------------------------------------------------
static bool put(const char* f, const std::string& s) { int fd = ::open(f, O_WRONLY); if (fd < 0) return false; bool r = ::write(fd, s.data(), s.size()) == ssize_t(s.size()); ::close(fd); return r; }
static bool up(int s, const char* name) {
    ifreq r{}; strncpy(r.ifr_name, name, IFNAMSIZ - 1);
    if (::ioctl(s, SIOCGIFFLAGS, &r)) return false;
    r.ifr_flags = short(r.ifr_flags | IFF_UP | IFF_RUNNING);
    return ::ioctl(s, SIOCSIFFLAGS, &r) == 0;
}
static bool set_addr(int s, const char* name, unsigned long what, const char* a) {
    ifreq r{}; strncpy(r.ifr_name, name, IFNAMSIZ - 1);
    auto* in = reinterpret_cast<sockaddr_in*>(&r.ifr_addr);
    in->sin_family = AF_INET; inet_pton(AF_INET, a, &in->sin_addr);
    return ::ioctl(s, what, &r) == 0;
}
static bool make_veth() {
    int s = ::socket(AF_NETLINK, SOCK_RAW | SOCK_CLOEXEC, NETLINK_ROUTE);
    if (s < 0) return false;
    alignas(8) char b[512] = {0};
    auto* h = reinterpret_cast<nlmsghdr*>(b);
    h->nlmsg_len = NLMSG_LENGTH(sizeof(ifinfomsg)); h->nlmsg_type = RTM_NEWLINK; h->nlmsg_flags = NLM_F_REQUEST | NLM_F_CREATE | NLM_F_EXCL | NLM_F_ACK;
    auto attr = [&](int t, const void* d, size_t n) {
        auto* a = reinterpret_cast<rtattr*>(b + NLMSG_ALIGN(h->nlmsg_len));
        a->rta_type = uint16_t(t); a->rta_len = uint16_t(RTA_LENGTH(n));
        if (n) memcpy(RTA_DATA(a), d, n);
        h->nlmsg_len = NLMSG_ALIGN(h->nlmsg_len) + RTA_ALIGN(a->rta_len);
        return a;
    };
    auto end = [&](rtattr* a) { a->rta_len = uint16_t(b + h->nlmsg_len - reinterpret_cast<char*>(a)); };
    attr(IFLA_IFNAME, "vp0", 4);
    auto* li = attr(IFLA_LINKINFO, nullptr, 0);
    attr(IFLA_INFO_KIND, "veth", 4);
    auto* da = attr(IFLA_INFO_DATA, nullptr, 0);
    ifinfomsg im{};
    auto* pe = attr(VETH_INFO_PEER, &im, sizeof im);
    attr(IFLA_IFNAME, "vp1", 4);
    end(pe); end(da); end(li);
    bool ok = ::send(s, b, h->nlmsg_len, 0) > 0;
    char rb[512];
    ok = ok && ::recv(s, rb, sizeof rb, 0) > 0 && reinterpret_cast<nlmsgerr*>(NLMSG_DATA(reinterpret_cast<nlmsghdr*>(rb)))->error == 0;
    ::close(s);
    return ok;
}
static void own_network() {
    const unsigned uid = getuid(), gid = getgid();
    if (::unshare(CLONE_NEWUSER | CLONE_NEWNET)) return;
    put("/proc/self/setgroups", "deny");
    put("/proc/self/uid_map", "0 " + std::to_string(uid) + " 1");
    put("/proc/self/gid_map", "0 " + std::to_string(gid) + " 1");
    int s = ::socket(AF_INET, SOCK_DGRAM, 0);
    isolated = up(s, "lo");
    if (isolated && make_veth() && set_addr(s, "vp0", SIOCSIFADDR, "10.9.0.1") && set_addr(s, "vp0", SIOCSIFNETMASK, "255.255.255.0")
        && set_addr(s, "vp0", SIOCSIFBRDADDR, "10.9.0.255") && up(s, "vp1") && up(s, "vp0")) {
        rtentry r{};
        auto in = [](sockaddr& a, const char* t) { auto* i = reinterpret_cast<sockaddr_in*>(&a); i->sin_family = AF_INET; inet_pton(AF_INET, t, &i->sin_addr); };
        in(r.rt_dst, "0.0.0.0"); in(r.rt_genmask, "0.0.0.0"); r.rt_flags = RTF_UP; static char dev[] = "vp0"; r.rt_dev = dev;
        has_veth = ::ioctl(s, SIOCADDRT, &r) == 0;
    }
    ::close(s);
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    int th = 0;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "prog") { ps.emplace_back(); is >> ps.back().seed >> ps.back().threads; th = 0; continue; }
        if (w == "side") { th = 1; continue; }
        Act a;
        a.op = w;
        int x;
        while (is >> x) a.a.push_back(x);
        ps.back().acts[th].push_back(a);
    }
    const int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    const std::string out = argv[2];
    std::vector<pid_t> kids;
    for (int w = 0; w < jobs; ++w) {
        const pid_t k = ::fork();
        if (k == 0) {
            own_network();
            std::vector<int> mine;
            for (size_t i = size_t(w); i < ps.size(); i += size_t(jobs)) mine.push_back(int(i));
            _exit(vp::run_many(int(mine.size()), 1, (out + "." + std::to_string(w)).c_str(), 30, [&](int i, char* b, size_t c, size_t* l) {
                run_one(ps[size_t(mine[size_t(i)])], b, c, l);
            }));
        }
        kids.push_back(k);
    }
    int rc = 0;
    for (pid_t k : kids) { int st = 0; ::waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 2; }
    std::ofstream o(out);
    std::vector<std::ifstream> parts;
    for (int w = 0; w < jobs; ++w) parts.emplace_back(out + "." + std::to_string(w));
    for (size_t i = 0; i < ps.size(); ++i) { std::getline(parts[i % size_t(jobs)], line); const size_t c = line.find(','); o << "{\"i\":" << i << (c == std::string::npos ? "}" : line.substr(c)) << "\n"; }
    for (int w = 0; w < jobs; ++w) ::unlink((out + "." + std::to_string(w)).c_str());
    return rc;
}
