// Timers, watchdogs, delayed emits and time travel (spec/Chrono.tla).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::Reactor;
using std::chrono::microseconds;
using std::chrono::milliseconds;
struct Op;
using Ops = std::shared_ptr<const std::vector<Op>>;
struct Op { char c; int a; Ops body; };
static const char* P;
static Ops parse_ops() {
    auto v = std::make_shared<std::vector<Op>>();
    while (*P && *P != ')') {
        if (*P == ' ') { ++P; continue; }
        Op o{*P++, 0, nullptr};
        while (*P >= '0' && *P <= '9') o.a = o.a * 10 + (*P++ - '0');
        if (*P == '(') { ++P; o.body = parse_ops(); if (*P == ')') ++P; }
        v->push_back(o);
    }
    return v;
}
static Ops ops(const std::string& s) { P = s.c_str(); return parse_ops(); }

constexpr int64_t OFF = 1000000000;                                  // microseconds shown as 0
constexpr int64_t EP  = 1700000000LL * 1000000LL - OFF;
static long long cus(NUClear::clock::time_point t) {
    auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() - EP * 1000;
    return n >= 0 ? n / 1000 : (n - 999) / 1000;
}
static NUClear::clock::time_point tp(long long us) { return NUClear::clock::time_point(std::chrono::duration_cast<NUClear::clock::duration>(microseconds(us + EP))); }
// One event: base clock and NUClear clock, read and logged without being interrupted
static void ev(const char* e, int a = 0, int b = 0, long long x = 0) {
    vp::Hold hold;
    vp::log("{\"e\":\"%s\",\"t\":%d,\"a\":%d,\"b\":%d,\"x\":%lld,\"v\":%lld,\"c\":%lld}", e, vp::tid(), a, b, x, (long long) (vp::now() / 1000), cus(NUClear::clock::now()));
}

static std::atomic<int> next_mid{1};
template <int K> struct Msg { int mid; Ops body; };
static NUClear::PowerPlant* plant = nullptr;
struct G0 {}; struct G1 {}; struct GK {};
struct Prog {
    uint64_t seed = 1; int threads = 2; int period[32] = {}; Ops body[32];
    struct Act { char c; std::vector<Ops> th; int mode; long long off; int rtf2; };
    std::vector<Act> acts;
};
static const Prog* prog = nullptr;

template <int r> struct Probe {
    template <typename DSL> static bool precondition(const NUClear::threading::ReactionTask&) { ev("made", r); return true; }
};

struct R;
static R* the_reactor = nullptr;
struct R : Reactor {
    NUClear::threading::ReactionHandle h[32];
    std::atomic<int> st[32] = {};     // 0 free, 1 binding, 2 bound, 3 unbinding
    std::atomic<int> fires[32] = {};

    void exec(const Ops& os) { if (os) for (const auto& o : *os) step(o); }
    template <int K> void delay(const Op& o) {
        auto m = std::make_unique<Msg<K>>(); m->mid = next_mid++; m->body = o.body; int mid = m->mid;
        if (o.c == 'P') {
            auto at = NUClear::clock::now() + microseconds(o.a) - milliseconds(20);
            ev("delay", mid, 1, cus(at));
            emit<Scope::DELAY>(m, at);
        }
        else { ev("delay", mid, 0, o.a); emit<Scope::DELAY>(m, microseconds(o.a)); }
        ev("delayed", mid, 0, 1 + K);
    }
    template <typename G> void service() { emit<Scope::WATCHDOG>(ServiceWatchdog<G>()); }
    void step(const Op& o) {
        int r = o.a;
        switch (o.c) {
            case 'y': for (int i = 0; i < o.a; ++i) vp::yield(); break;
            case 's': vp::sleep_ns(uint64_t(o.a) * 1000); break;
            case 'b': { int z = 0; if (!st[r].compare_exchange_strong(z, 1)) break; ev("bind", r, 0, period(r)); bind(r); ev("bound", r); st[r] = 2; } break;
            case 'u': { int z = 2; if (!st[r].compare_exchange_strong(z, 3)) break; ev("unb", r); h[r].unbind(); ev("unbd", r); st[r] = 0; } break;
            case 'd': case 'n': {
                // only one operation on a handle at a time
                int z = 2; if (!st[r].compare_exchange_strong(z, 3)) break;
                ev("ctl", r, o.c == 'n'); h[r].enable(o.c == 'n'); ev("ctld", r, o.c == 'n'); st[r] = 2;
            } break;
            case 'D': case 'P': delay<0>(o); break;
            case 'E': delay<1>(o); break;
            case 'S':
                ev("svc", o.a);
                try {
                    switch (o.a) { case 0: service<G0>(); break; case 1: service<G1>(); break;
                        case 2: emit<Scope::WATCHDOG>(ServiceWatchdog<GK>('a')); break; case 3: emit<Scope::WATCHDOG>(ServiceWatchdog<GK>('b')); break; }
                    ev("svcd", o.a, 0);
                } catch (const std::domain_error&) { ev("svcd", o.a, 1); }
                break;
        }
    }
    void fired(int r) {
        ev("start", r, 0);
        if (fires[r]++ % 3 == 0 && fires[r] < 8) exec(prog->body[r]);
        ev("end", r, 0);
    }
    template <int K> void got(const Msg<K>& m) {
        ev("start", m.mid, 1 + K);
        exec(m.body);
        ev("end", m.mid, 1 + K);
    }
    static int period(int r) {
        switch (r) { case 6: return 7000; case 7: return 10000; case 8: return 20000; case 9: return 30000; case 10: return 10000; case 11: case 12: return 15000; case 13: return 25000; default: return prog->period[r]; }
    }
    void bind(int r) {
        auto us = microseconds(prog->period[r]);
        switch (r) {
            case 0: h[0] = on<Every<>, Probe<0>>(us).then([this] { fired(0); }); break;
            case 1: h[1] = on<Every<>, Probe<1>>(us).then([this] { fired(1); }); break;
            case 2: h[2] = on<Probe<2>, Every<>, Sync<G0>>(us).then([this] { fired(2); }); break;
            case 3: h[3] = on<Every<>, Probe<3>, Priority::HIGH>(us).then([this] { fired(3); }); break;
            case 4: h[4] = on<Every<>, Probe<4>, Inline::ALWAYS>(us).then([this] { fired(4); }); break;
            case 5: h[5] = on<Every<>, Probe<5>, Inline::ALWAYS>(us).then([this] { fired(5); }); break;
            case 6: h[6] = on<Every<7, milliseconds>, Probe<6>>().then([this] { fired(6); }); break;
            case 7: h[7] = on<Every<100, Per<std::chrono::seconds>>, Probe<7>>().then([this] { fired(7); }); break;
            case 8: h[8] = on<Watchdog<G0, 20, milliseconds>, Probe<8>>().then([this] { fired(8); }); break;
            case 9: h[9] = on<Watchdog<G0, 30, milliseconds>, Probe<9>>().then([this] { fired(9); }); break;
            case 10: h[10] = on<Watchdog<G1, 10, milliseconds>, Probe<10>, Inline::ALWAYS>().then([this] { fired(10); }); break;
            case 11: h[11] = on<Watchdog<GK, 15, milliseconds>, Probe<11>>('a').then([this] { fired(11); }); break;
            case 12: h[12] = on<Watchdog<GK, 15, milliseconds>, Probe<12>>('b').then([this] { fired(12); }); break;
            case 13: h[13] = on<Watchdog<GK, 25, milliseconds>, Probe<13>>('a').then([this] { fired(13); }); break;
        }
    }
    explicit R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        the_reactor = this;
        on<Trigger<Msg<0>>>().then([this](const Msg<0>& m) { got(m); });
        on<Trigger<Msg<1>>, Inline::ALWAYS>().then([this](const Msg<1>& m) { got(m); });
    }
};

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    prog = &p;
    vp::Opts o; o.seed = p.seed;
    vp::start(o, buf, cap, len);
    NUClear::clock::set_clock(NUClear::base_clock::now());
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<NUClear::extension::ChronoController>();
    pp.install<R>();
    std::thread driver([&p] {
        vp::quiesce();
        ev("quiet");
        for (const auto& a : p.acts) {
            if (a.c == 'p') {
                std::vector<std::thread> ts;
                for (const auto& os : a.th) ts.emplace_back([os] { the_reactor->exec(os); });
                for (auto& t : ts) t.join();
                vp::quiesce(); ev("quiet");
            }
            else if (a.c == 'a' || a.c == 'z') {
                vp::sleep_ns(uint64_t(a.off) * 1000);
                if (a.c == 'a') { vp::quiesce(); ev("quiet"); }
            }
            else {
                using T = NUClear::message::TimeTravel;
                long long target = cus(NUClear::clock::now()) + a.off;
                ev("tt", a.mode, a.rtf2, target);
                plant->emit<NUClear::dsl::word::emit::Inline>(std::make_unique<T>(tp(target), a.rtf2 / 2.0, a.mode == 0 ? T::Action::ABSOLUTE : a.mode == 1 ? T::Action::RELATIVE : T::Action::NEAREST));
                ev("ttd", a.mode, a.rtf2, target);
                if (a.c == 't') { vp::quiesce(); ev("quiet"); }
            }
        }
        ev("sd");
        plant->shutdown();
    });
    pp.start();
    driver.join();
    ev("over");
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        std::string rest;
        if (w == "prog") { ps.emplace_back(); is >> ps.back().seed >> ps.back().threads; }
        else if (w == "slot") { int r, per; is >> r >> per; std::getline(is, rest); ps.back().period[r] = per; ps.back().body[r] = ops(rest); }
        else if (w == "phase") {
            std::getline(is, rest); std::istringstream r(rest); std::string part; Prog::Act a{'p', {}, 0, 0, 0};
            while (std::getline(r, part, '|')) a.th.push_back(ops(part));
            ps.back().acts.push_back(a);
        }
        else if (w == "adv" || w == "sleep") { Prog::Act a{w == "adv" ? 'a' : 'z', {}, 0, 0, 0}; is >> a.off; ps.back().acts.push_back(a); }
        else if (w == "tt" || w == "ttr") { Prog::Act a{w == "tt" ? 't' : 'r', {}, 0, 0, 0}; is >> a.mode >> a.off >> a.rtf2; ps.back().acts.push_back(a); }
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
