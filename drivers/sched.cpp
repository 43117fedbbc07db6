// Interprets randomly or model generated programs against the real PowerPlant/Reactor/DSL/Scheduler and records
// the observable events. Only the public API is used. See spec/Sched.tla for the meaning of each event.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::Reactor;

struct Op;
using Ops = std::shared_ptr<const std::vector<Op>>;
struct Op {
    char c;
    int a;
    Ops body;
};

struct Prog {
    int threads = 2;                      // default pool concurrency
    bool calm = false, jitter = false;
    bool stats = false;
    std::vector<int> install;             // reaction numbers
    Ops startup;                          // ops of the Startup reaction
    Ops init;                             // ops executed before start() on the main thread
    std::vector<Ops> early;               // ops executed by other threads while start() is called
    std::vector<std::vector<Ops>> phases; // each phase: concurrently executed op lists
    Ops atshutdown;
    uint64_t seed = 1;
};

static const char* P;
static Ops parse_ops() {
    auto v = std::make_shared<std::vector<Op>>();
    while (*P && *P != ')' && *P != '|' && *P != '\n') {
        if (*P == ' ') { ++P; continue; }
        Op o{*P++, 0, nullptr};
        while (*P >= '0' && *P <= '9') o.a = o.a * 10 + (*P++ - '0');
        if (*P == '(') { ++P; o.body = parse_ops(); if (*P == ')') ++P; }
        v->push_back(o);
    }
    return v;
}
static Ops ops(const std::string& s) { P = s.c_str(); return parse_ops(); }

static std::atomic<int> next_mid{0};
static std::atomic<int> handle_ops{0};
static bool gates[64];
// Programs generated from the specification tell each task one by one what to do: queue n * 64 + r has the commands of
// the task of reaction r for message number n.
struct Commands {
    std::mutex m;
    std::vector<Ops> list;
    std::atomic<int> given{0};
};
static Commands commands[64 * 32];
static std::atomic<bool> all_end{false};
static thread_local int current_r = 0;
static int main_tid = 0;

struct R;
static R* the_reactor = nullptr;
static NUClear::PowerPlant* plant = nullptr;

template <int K>
struct Msg {
    int mid;
    Ops body;
};
struct UserError : std::runtime_error { UserError() : std::runtime_error("user") {} };

struct SA {}; struct SB {}; struct SC {};
struct G2 { static constexpr int concurrency = 2; };
struct P1 { static constexpr const char* name = "P1"; static constexpr int concurrency = 1; };
struct P2 { static constexpr const char* name = "P2"; static constexpr int concurrency = 2; };
struct PP { static constexpr const char* name = "PP"; static constexpr int concurrency = 1; static constexpr bool persistent = true; };
struct PN { static constexpr const char* name = "PN"; static constexpr int concurrency = 1; static constexpr bool counts_for_idle = false; };

struct TS1 {}; struct TS2 {};
static int scopes() {
    return (NUClear::dsl::word::TaskScope<TS1>::in_scope() ? 1 : 0) + (NUClear::dsl::word::TaskScope<TS2>::in_scope() ? 2 : 0);
}

struct R : Reactor {
    NUClear::threading::ReactionHandle h[64];
    std::atomic<bool> bound[64] = {}, ready[64] = {};
    void put(int r, const NUClear::threading::ReactionHandle& x) { h[r] = x; ready[r] = true; }

    void exec(const Ops& os) {
        if (!os) return;
        for (const auto& o : *os) step(o);
    }
    template <int K> void do_emit(const Op& o) {
        auto m = std::make_unique<Msg<K>>();
        m->mid = next_mid++; m->body = o.body;
        int mid = m->mid;
        vp::log("{\"e\":\"emit\",\"t\":%d,\"k\":%d,\"m\":%d,\"s\":%d}", vp::tid(), K, mid, o.c == 'i' ? 1 : o.c == 'z' ? 2 : 0);
        if (o.c == 'i') plant->emit<NUClear::dsl::word::emit::Inline>(m);
        else if (o.c == 'z') plant->emit<NUClear::dsl::word::emit::Initialise>(m);
        else plant->emit(m);
        vp::log("{\"e\":\"emitted\",\"t\":%d,\"m\":%d}", vp::tid(), mid);
    }
    void step(const Op& o) {
        switch (o.c) {
            case 'e': case 'i': case 'z':
                switch (o.a) {
#define C(n) case n: do_emit<n>(o); break;
                    C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(18) C(19)
                    C(20) C(21) C(22) C(23) C(24) C(25) C(26) C(27) C(28) C(29) C(30) C(31) C(32) C(33) C(34) C(35) C(36) C(37) C(38)
#undef C
                }
                break;
            case 'y': for (int i = 0; i < o.a; ++i) vp::yield(); break;
            case 's': vp::sleep_ns(uint64_t(o.a) * 1000); break;
            case 'x': throw UserError();
            case 'w': vp::log("{\"e\":\"gwait\",\"t\":%d,\"g\":%d}", vp::tid(), o.a); { int g = o.a; std::function<bool()> p = [g] { return gates[g]; }; vp::block_until(p, 0); } vp::log("{\"e\":\"gpass\",\"t\":%d,\"g\":%d}", vp::tid(), o.a); break;
            case 'o': gates[o.a] = true; vp::log("{\"e\":\"gopen\",\"t\":%d,\"g\":%d}", vp::tid(), o.a); break;
            case 'v': {
                Commands& q = commands[o.a * 64 + current_r];
                const int r = current_r;
                for (int done = 0;; ++done) {
                    std::function<bool()> p = [&q, done] { return q.given > done || all_end; };
                    vp::block_until(p, 0);
                    if (q.given <= done) break;
                    Ops todo;
                    { std::lock_guard<std::mutex> l(q.m); todo = q.list[size_t(done)]; }
                    if (todo->empty()) break;
                    exec(todo);
                    current_r = r;
                }
            } break;
            case 'C': {
                Commands& q = commands[o.a];
                { std::lock_guard<std::mutex> l(q.m); q.list.push_back(o.body); }
                ++q.given;
            } break;
            case 'd': case 'n': case 'u':
                if (ready[o.a]) {
                    vp::log("{\"e\":\"ctl\",\"t\":%d,\"r\":%d,\"c\":%d}", vp::tid(), o.a, o.c == 'd' ? 0 : o.c == 'n' ? 1 : 2);
                    auto& hh = h[o.a];
                    if (o.c == 'u') hh.unbind();
                    else if (++handle_ops % 3 == 0) hh.enable(o.c == 'n');
                    else if (o.c == 'd') hh.disable();
                    else hh.enable();
                    vp::log("{\"e\":\"ctld\",\"t\":%d,\"r\":%d,\"c\":%d}", vp::tid(), o.a, o.c == 'd' ? 0 : o.c == 'n' ? 1 : 2);
                }
                break;
            case 'b':
                if (bound[o.a].exchange(true)) break;
                vp::log("{\"e\":\"bind\",\"t\":%d,\"r\":%d}", vp::tid(), o.a);
                bind(o.a);
                vp::log("{\"e\":\"bound\",\"t\":%d,\"r\":%d}", vp::tid(), o.a);
                break;
            case 'S': case 'F':
                vp::log("{\"e\":\"sd\",\"t\":%d,\"f\":%d}", vp::tid(), o.c == 'F');
                plant->shutdown(o.c == 'F');
                vp::log("{\"e\":\"sdd\",\"t\":%d,\"f\":%d}", vp::tid(), o.c == 'F');
                break;
        }
    }
    // Idle reactions fire again and again for as long as their own execution makes the pool busy and idle again. Each
    // disables itself after two firings and is enabled again when the next phase starts.
    std::atomic<int> fires[64] = {};
    void run_idle(int r) {
        run(r, -1, nullptr, ++fires[r] == 2);
    }
    void rearm() {
        for (int r = 0; r < 64; ++r) if (fires[r] >= 2) { fires[r] = 0; step(Op{'n', r, nullptr}); }
    }
    void run(int r, int mid, const Ops& body, bool dis = false) {
        vp::log("{\"e\":\"start\",\"t\":%d,\"r\":%d,\"m\":%d,\"sc\":%d}", vp::tid(), r, mid, scopes());
        current_r = r;
        try { exec(body); if (dis) step(Op{'d', r, nullptr}); }
        catch (const UserError&) {
            vp::log("{\"e\":\"end\",\"t\":%d,\"r\":%d,\"m\":%d,\"x\":1,\"sc\":%d}", vp::tid(), r, mid, scopes());
            throw;
        }
        vp::log("{\"e\":\"end\",\"t\":%d,\"r\":%d,\"m\":%d,\"x\":0,\"sc\":%d}", vp::tid(), r, mid, scopes());
    }
    void bind(int r) {
        switch (r) {
// every other callback is given as an lvalue, which is gone when the reaction runs
#define RX(r, k, ...) case r: if (r % 2) { put(r, on<Trigger<Msg<k>>, ##__VA_ARGS__>().then("r" #r, [this](const Msg<k>& m) { run(r, m.mid, m.body); })); } \
            else { auto me = std::make_shared<int>(r); auto f = [this, me](const Msg<k>& m) { run(*me, m.mid, m.body); }; put(r, on<Trigger<Msg<k>>, ##__VA_ARGS__>().then("r" #r, f)); *me += 0; } break;
            RX(0, 0)
            RX(1, 1, Sync<SA>)
            RX(2, 2, Sync<SA>, Priority::HIGH)
            RX(3, 3, Sync<SB>)
            RX(4, 4, Sync<SA>, Sync<SB>)
            RX(5, 5, Group<G2>)
            RX(6, 6, Pool<P1>)
            RX(7, 6, Pool<P2>, Sync<SA>)
            RX(8, 7, MainThread)
            RX(9, 8, Inline::ALWAYS)
            RX(10, 8, Inline::NEVER)
            RX(11, 8)
            RX(12, 9, Inline::ALWAYS, Sync<SA>)
            RX(13, 10, Single)
            RX(14, 10, Buffer<2>)
            RX(15, 11, Once)
            RX(16, 12, Priority::LOW, Pool<P1>)
            RX(17, 13, Priority::HIGH, Pool<P1>)
            RX(18, 14, Priority::REALTIME, Pool<P1>)
            RX(19, 15, Priority::IDLE, Pool<P1>)
            RX(20, 16, Sync<SB>, Group<G2>, Pool<P2>)
            RX(21, 17, Sync<SA>, Sync<SB>, Priority::HIGH)
            RX(22, 18, Pool<P1>, Sync<SA>, Priority::LOW)
            RX(23, 19, Pool<PP>)
            RX(24, 20, MainThread, Sync<SA>)
            RX(25, 21, Pool<P1>, Sync<SA>, Sync<SB>)
            RX(26, 22, Priority::LOW)
            RX(27, 23, Priority::HIGH)
            RX(28, 24, Priority::REALTIME)
            RX(29, 25, Priority::IDLE)
            RX(30, 26, Sync<SA>, Priority::LOW)
            RX(31, 27, Inline::ALWAYS, Sync<SA>, Sync<SB>)
            RX(32, 28, Buffer<2>, Pool<P2>)
            RX(33, 29, Once, Inline::ALWAYS)
            RX(34, 29, Inline::ALWAYS)
            RX(35, 30, TaskScope<TS1>)
            RX(36, 30, Inline::ALWAYS, TaskScope<TS2>)
            RX(37, 31, Sync<SC>, Sync<SB>, Priority::LOW)
            RX(38, 32, Sync<SA>, Group<G2>)
            RX(39, 33, Single, Sync<SA>)
            RX(40, 11, Once, Pool<P2>)
            RX(41, 0, Pool<P2>)
            RX(42, 34, Sync<SA>, Sync<SB>, Sync<SC>)
            RX(43, 35, Inline::ALWAYS, TaskScope<TS1>)
            RX(44, 36, Sync<SC>, Sync<SA>, Group<G2>, Pool<P2>, Priority::HIGH)
            RX(45, 36, Sync<SB>, Sync<SA>)
            RX(46, 35, TaskScope<TS1>, Sync<SC>)
            RX(47, 37, Inline::ALWAYS, TaskScope<TS2>, TaskScope<TS1>)
            RX(48, 37, Inline::ALWAYS, Sync<SA>, Buffer<2>)
            RX(49, 38, Buffer<3>, Pool<P1>)
#undef RX
            // idle reactions carry no data: mid -1
#define RI(r, ...) case r: put(r, on<__VA_ARGS__>().then("r" #r, [this] { run_idle(r); })); break;
            RI(50, Idle<>)
            RI(51, Idle<Pool<>>)
            RI(52, Idle<Pool<P1>>)
            RI(53, Idle<>, Pool<P1>)
            RI(54, Idle<Pool<P2>>, Single)
            RI(55, Idle<Pool<>>, Sync<SA>)
#undef RI
        }
    }
    R(std::unique_ptr<NUClear::Environment> env, const Prog& p) : Reactor(std::move(env)) {
        the_reactor = this;
        for (int r : p.install) { bound[r] = true; bind(r); }
        on<Startup>().then([this, &p] {
            vp::log("{\"e\":\"startup\",\"t\":%d}", vp::tid());
            try { exec(p.startup); }
            catch (const UserError&) { vp::log("{\"e\":\"startup_end\",\"t\":%d}", vp::tid()); throw; }
            vp::log("{\"e\":\"startup_end\",\"t\":%d}", vp::tid());
        });
        on<Shutdown>().then([this, &p] {
            vp::log("{\"e\":\"shutr\",\"t\":%d}", vp::tid());
            try { exec(p.atshutdown); }
            catch (const UserError&) { vp::log("{\"e\":\"shutr_end\",\"t\":%d}", vp::tid()); throw; }
            vp::log("{\"e\":\"shutr_end\",\"t\":%d}", vp::tid());
        });
        exec(p.init);
    }
};

static std::vector<Prog> load(const char* fn) {
    std::ifstream f(fn);
    std::string line;
    std::vector<Prog> out;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string w; is >> w;
        std::string rest; std::getline(is, rest);
        if (w == "prog") { out.emplace_back(); std::istringstream r(rest); int c = 0, j = 0; r >> out.back().seed >> out.back().threads >> c >> j; out.back().calm = c; out.back().jitter = j; }
        else if (w == "install") { std::istringstream r(rest); int x; while (r >> x) out.back().install.push_back(x); }
        else if (w == "startup") out.back().startup = ops(rest);
        else if (w == "init") out.back().init = ops(rest);
        else if (w == "early") { std::istringstream r(rest); std::string part; while (std::getline(r, part, '|')) out.back().early.push_back(ops(part)); }
        else if (w == "atsd") out.back().atshutdown = ops(rest);
        else if (w == "phase") {
            std::vector<Ops> ph;
            std::istringstream r(rest); std::string part;
            while (std::getline(r, part, '|')) ph.push_back(ops(part));
            out.back().phases.push_back(ph);
        }
    }
    return out;
}

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    vp::Opts o; o.seed = p.seed; o.calm = p.calm; o.time_jitter = p.jitter;
    vp::start(o, buf, cap, len);
    NUClear::Configuration cfg;
    cfg.default_pool_concurrency = p.threads;
    {
        NUClear::PowerPlant pp(cfg);
        plant = &pp;
        pp.install<R>(p);
        std::thread driver([&p] {
            // wait until the plant has started and is quiet
            std::vector<std::thread> ts;
            for (const auto& os : p.early) ts.emplace_back([os] { try { the_reactor->exec(os); } catch (const UserError&) {} });
            for (size_t i = 0; i < p.phases.size(); ++i) {
                bool fin = vp::quiesce();
                vp::log("{\"e\":\"quiet\",\"f\":%d}", int(fin));
                the_reactor->rearm();
                for (const auto& os : p.phases[i]) {
                    ts.emplace_back([os] { try { the_reactor->exec(os); } catch (const UserError&) {} });
                }
            }
            bool fin = vp::quiesce();
            vp::log("{\"e\":\"quiet\",\"f\":%d}", int(fin));
            for (auto& g : gates) g = true;
            all_end = true;
            vp::log("{\"e\":\"gall\"}");
            fin = vp::quiesce();
            vp::log("{\"e\":\"quiet\",\"f\":%d}", int(fin));
            for (auto& t : ts) t.join();
            the_reactor->step(Op{'S', 0, nullptr});
        });
        vp::log("{\"e\":\"pp_start\",\"t\":%d}", vp::tid());
        pp.start();
        vp::log("{\"e\":\"start_ret\",\"t\":%d}", vp::tid());
        driver.join();
        plant = &pp;
    }
    vp::log("{\"e\":\"destroyed\"}");
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    auto progs = load(argv[1]);
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    int only = argc > 4 ? atoi(argv[4]) : -1;
    if (only >= 0) { progs = {progs.at(size_t(only))}; }
    return vp::run_many(int(progs.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(progs[size_t(i)], b, c, l); });
}
