// Reactions to descriptors (spec/IO.tla): pipes and socket pairs whose other ends a world thread uses.
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <sstream>
#include <string>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::Reactor;

struct Act { std::string op; std::vector<int> a; };
struct Prog { uint64_t seed = 1; int threads = 2; std::vector<Act> acts; };
static const Prog* prog;
static NUClear::PowerPlant* plant = nullptr;
constexpr int OURS = 300, THEIRS = 320;
static int kind[8];    // 0 none, then 'p' 'w' 's' 'd'

static void ev(const char* e, int a = 0, int b = 0, int c = 0, int d = 0) { vp::log("{\"e\":\"%s\",\"a\":%d,\"b\":%d,\"c\":%d,\"d\":%d}", e, a, b, c, d); }
// what the kernel says about descriptor d, and 256 if a stream is at its end
static void state(int d) {
    struct pollfd p{OURS + d, POLLIN | POLLOUT, 0};
    struct timespec ts{0, 0};
    syscall(SYS_ppoll, &p, 1, &ts, nullptr, 8);
    int m = p.revents & (POLLIN | POLLOUT | POLLHUP | POLLERR | POLLNVAL), n = 1;
    if ((m & POLLIN) && kind[d] != 'd' && ::ioctl(OURS + d, FIONREAD, &n) == 0 && n == 0) m |= 256;
    vp::fd_event();
    ev("st", d, m);
}
static void nonblock(int fd) { ::fcntl(fd, F_SETFL, ::fcntl(fd, F_GETFL) | O_NONBLOCK); }
static void do_open(int d, int k) {
    int f[2];
    if (k == 'p' || k == 'w') { if (::pipe(f)) abort(); ::fcntl(f[1], F_SETPIPE_SZ, 4096); if (k == 'w') std::swap(f[0], f[1]); }
    else if (::socketpair(AF_UNIX, k == 's' ? SOCK_STREAM : SOCK_DGRAM, 0, f)) abort();
    ::dup2(f[0], OURS + d); ::dup2(f[1], THEIRS + d);
    ::close(f[0]); ::close(f[1]);
    nonblock(OURS + d); nonblock(THEIRS + d);
    kind[d] = k;
}
static void do_write(int fd, int n) { static char buf[70000]; ssize_t r = ::write(fd, buf, size_t(n)); (void) r; }
static void do_fill(int fd) { static char buf[70000]; while (::write(fd, buf, 4096) > 0) {} while (::write(fd, buf, 1) > 0) {} }
static bool do_read(int fd, int n, bool dgram) {   // n < 0: everything
    static char buf[70000];
    if (n >= 0) return ::read(fd, buf, size_t(dgram ? 70000 : n)) >= (dgram ? 0 : 1);
    while (::read(fd, buf, sizeof(buf)) >= (dgram ? 0 : 1)) {}
    return true;
}

struct Probe {
    template <typename DSL> static bool precondition(const NUClear::threading::ReactionTask& t) { vp::Hold h; ev("made", int(t.parent->id)); return true; }
};
struct X {};
struct XP { static constexpr int concurrency = 2; };
struct R;
static R* the_reactor;
static std::atomic<int> insts{0};
struct Slot { int inst = 0, d = 0; std::atomic<int> st{0}; NUClear::threading::ReactionHandle h; };
struct R : Reactor {
    Slot slots[8];
    explicit R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) { the_reactor = this; }
    void unbind(int i) {
        int z = 2;
        if (!slots[i].st.compare_exchange_strong(z, 3)) return;
        ev("unb", slots[i].inst);
        slots[i].h.unbind();
        ev("unbd", slots[i].inst);
        slots[i].st = 0;
    }
    // what the reaction does: read mode (0 all, 1 a bit, 2 nothing at first), write mode (0 fill, 1 a bit at first), and when it stops or throws
    void run(int slot, int inst, int d, int mode, int stop, int n, const IO::Event& e) {
        { vp::Hold h; ev("run", inst, int(e.fd) - OURS, e.events, vp::tid()); }
        vp::yield();
        if (e.events & IO::READ) {
            vp::Hold h;
            if ((mode & 3) == 0 || ((mode & 3) == 2 && n > 2)) do_read(OURS + d, -1, kind[d] == 'd');
            else if ((mode & 3) == 1) do_read(OURS + d, 10, kind[d] == 'd');
            else if ((mode & 3) == 3) { if (n % 2 == 0) do_read(OURS + d, 10, kind[d] == 'd'); }
            state(d);
        }
        if (e.events & IO::WRITE) {
            vp::Hold h;
            if ((mode & 4) == 0 || n > 2) do_fill(OURS + d); else do_write(OURS + d, 100);
            state(d);
        }
        vp::yield();
        struct pollfd p{OURS + d, POLLOUT, 0};
        struct timespec ts{0, 0};
        bool broken = false;
        if (!(e.events & IO::CLOSE)) { vp::Hold h; syscall(SYS_ppoll, &p, 1, &ts, nullptr, 8); broken = (e.events & (IO::WRITE | IO::ERROR)) && (p.revents & (POLLERR | POLLHUP)); }
        if (broken || (stop > 0 && n >= stop)) unbind(slot);
        { vp::Hold h; ev("end", inst, broken); }
        if ((mode & 8) && n == 1) throw 1;
    }
    template <typename... W> void bind_as(int slot, int inst, int d, int events, int mode, int stop) {
        auto n = std::make_shared<std::atomic<int>>(0);
        slots[slot].h = on<IO, Probe, W...>(OURS + d, IO::event_t(events)).then([this, slot, inst, d, mode, stop, n](const IO::Event& e) { run(slot, inst, d, mode, stop, ++*n, e); });
    }
    struct IO : NUClear::dsl::word::IO { using event_t = NUClear::dsl::word::event_t; };
    void bind(int slot, int d, int events, int variant, int mode, int stop) {
        int z = 0;
        if (!slots[slot].st.compare_exchange_strong(z, 1)) return;
        const int inst = ++insts;
        slots[slot].inst = inst; slots[slot].d = d;
        ev("bind", inst, d, events);
        switch (variant) {
            case 0: bind_as<>(slot, inst, d, events, mode, stop); break;
            case 1: bind_as<Single>(slot, inst, d, events, mode, stop); break;
            case 2: bind_as<Sync<X>>(slot, inst, d, events, mode, stop); break;
            case 3: bind_as<Pool<XP>>(slot, inst, d, events, mode, stop); break;
            case 4: bind_as<Inline::ALWAYS>(slot, inst, d, events, mode, stop); break;
            case 5: bind_as<Buffer<2>, Priority::LOW>(slot, inst, d, events, mode, stop); break;
        }
        ev("bound", inst, int(slots[slot].h.context.lock()->id));
        slots[slot].st = 2;
    }
    void unbind_all(int d) { for (int i = 0; i < 8; ++i) { while (slots[i].d == d && (slots[i].st == 1 || slots[i].st == 3)) vp::yield(); if (slots[i].d == d) unbind(i); } }
};

static void act(const Act& a) {
    const auto& v = a.a;
    if (a.op == "open") {
        const int d = v[0];
        if (kind[d]) { the_reactor->unbind_all(d); vp::Hold h; ::close(OURS + d); ::close(THEIRS + d); vp::fd_event(); }
        vp::Hold h;
        do_open(d, v[1]);
        state(d);
    }
    else if (a.op == "wr") { vp::Hold h; do_write(THEIRS + v[0], v[1]); state(v[0]); }
    else if (a.op == "rd") { vp::Hold h; do_read(THEIRS + v[0], v[1], kind[v[0]] == 'd'); state(v[0]); }
    else if (a.op == "cl") { vp::Hold h; ::close(THEIRS + v[0]); state(v[0]); }
    else if (a.op == "steal") { vp::Hold h; do_read(OURS + v[0], v[1], kind[v[0]] == 'd'); state(v[0]); }
    else if (a.op == "b") the_reactor->bind(v[0], v[1], v[2], v[3], v[4], v[5]);
    else if (a.op == "u") the_reactor->unbind(v[0]);
    else if (a.op == "dn") {
        Slot& s = the_reactor->slots[v[0]];
        int z = 2;
        if (!s.st.compare_exchange_strong(z, 4)) return;
        ev("dis", s.inst); s.h.disable(); ev("disd", s.inst);
        for (int i = 0; i < v[1]; ++i) vp::yield();
        ev("ena", s.inst); s.h.enable(); ev("enad", s.inst);
        s.st = 2;
    }
    else if (a.op == "y") { for (int i = 0; i < v[0]; ++i) vp::yield(); }
    else if (a.op == "q") { vp::quiesce(); ev("quiet"); }
}
static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    prog = &p;
    signal(SIGPIPE, SIG_IGN);
    vp::Opts o; o.seed = p.seed; o.max_steps = 600000; o.allow_spurious = false;
    vp::start(o, buf, cap, len);
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<NUClear::extension::IOController>();
    pp.install<R>();
    // what comes before the first q happens before the start
    size_t k = 0;
    for (; k < p.acts.size() && p.acts[k].op != "q"; ++k) if (p.acts[k].op != "y") act(p.acts[k]);
    std::thread world([&p, k] {
        for (size_t i = k; i < p.acts.size(); ++i) act(p.acts[i]);
        vp::quiesce();
        ev("quiet");
        plant->shutdown();
    });
    pp.start();
    world.join();
    ev("over");
    vp::end_run("fin");
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "prog") { ps.emplace_back(); is >> ps.back().seed >> ps.back().threads; continue; }
        Act a;
        a.op = w;
        int x;
        while (is >> x) a.a.push_back(x);
        ps.back().acts.push_back(a);
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 30, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
