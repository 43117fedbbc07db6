// What data each execution of a reaction gets to see (spec/Data.tla).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::Reactor;
struct Op;
using Ops = std::shared_ptr<const std::vector<Op>>;
struct Op { char c; int a; Ops body; };
static const char* P;
static Ops parse_ops() {
    auto v = std::make_shared<std::vector<Op>>();
    while (*P && *P != ')') {
        if (*P == ' ') { ++P; continue; }
        Op o{*P++, 0, nullptr};
        while (*P >= '0' && *P <= '9') o.a = o.a * 10 + (*P++ - '0');
        if (*P == '(') { ++P; o.body = parse_ops(); if (*P == ')') ++P; }
        v->push_back(o);
    }
    return v;
}
static Ops ops(const std::string& s) { P = s.c_str(); return parse_ops(); }

static std::atomic<int> next_mid{1};
template <int K>
struct Msg {
    int k, mid; Ops body; int check;
    Msg(int mid, Ops b) : k(K), mid(mid), body(std::move(b)), check(~mid) {}
    ~Msg() { k = -1; mid = -2; check = 0; }
};
// 0: none, otherwise the message number; a damaged one is reported as -7
template <int K> int id(const Msg<K>& m) { return m.k == K && m.check == ~m.mid ? m.mid : -7; }
template <int K> int id(const std::shared_ptr<const Msg<K>>& m) { return m ? id(*m) : 0; }
template <int K> std::string id(const std::list<std::shared_ptr<const Msg<K>>>& l) {
    std::string s = "[";
    for (const auto& m : l) { if (s.size() > 1) s += ","; s += std::to_string(id(m)); }
    return s + "]";
}
static std::string str(int i) { return "[" + std::to_string(i) + "]"; }
static std::string str(const std::string& s) { return s; }

using A = Msg<0>; using B = Msg<1>; using C = Msg<2>; using D = Msg<3>;
template <typename T> using Sp = std::shared_ptr<const T>;
struct SX {};
static NUClear::PowerPlant* plant = nullptr;

struct R;
static R* the_reactor = nullptr;
struct R : Reactor {
    void exec(const Ops& os) { if (os) for (const auto& o : *os) step(o); }
    template <int K> void do_emit(const Op& o) {
        auto m = std::make_unique<Msg<K>>(next_mid++, o.body);
        int mid = m->mid;
        vp::log("{\"e\":\"emit\",\"t\":%d,\"k\":%d,\"m\":%d,\"s\":%d}", vp::tid(), K, mid, o.c == 'i');
        if (o.c == 'i') plant->emit<NUClear::dsl::word::emit::Inline>(m); else plant->emit(m);
        vp::log("{\"e\":\"emitted\",\"t\":%d,\"m\":%d}", vp::tid(), mid);
    }
    void step(const Op& o) {
        if (o.c == 'y') { for (int i = 0; i < o.a; ++i) vp::yield(); return; }
        if (o.a == 0) do_emit<0>(o); else if (o.a == 1) do_emit<1>(o); else if (o.a == 2) do_emit<2>(o); else do_emit<3>(o);
    }
    template <typename X> static void put(std::string& s, const X& x) { if (s.size() > 1) s += ","; s += str(id(x)); }
    template <typename... T> void run(int r, const T&... xs) {
        std::string s = "[";
        int dummy[] = {(put(s, xs), 0)...}; (void) dummy;
        s += "]";
        vp::log("{\"e\":\"run\",\"t\":%d,\"r\":%d,\"d\":%s}", vp::tid(), r, s.c_str());
    }
    void bind(int r) {
        switch (r) {
            case 0: on<Trigger<A>>().then([this](const A& a) { run(0, a); exec(a.body); }); break;
            case 1: on<Trigger<A>, With<B>>().then([this](const A& a, const B& b) { run(1, a, b); }); break;
            case 2: on<Trigger<A>, Optional<With<B>>>().then([this](const A& a, const Sp<B>& b) { run(2, a, b); }); break;
            case 3: on<Trigger<A>, Trigger<B>>().then([this](const A& a, const B& b) { run(3, a, b); }); break;
            case 4: on<Last<2, Trigger<A>>>().then([this](const std::list<Sp<A>>& l) { run(4, l); }); break;
            case 5: on<Last<3, Trigger<B>>, With<C>>().then([this](const std::list<Sp<B>>& l, const C& c) { run(5, l, c); }); break;
            case 6: on<Trigger<C>, With<A>, With<B>>().then([this](const C& c, const A& a, const B& b) { run(6, c, a, b); }); break;
            case 7: on<Optional<Trigger<A>, Trigger<B>>>().then([this](const Sp<A>& a, const Sp<B>& b) { run(7, a, b); }); break;
            case 8: on<Trigger<A>, Inline::ALWAYS, With<B>>().then([this](const A& a, const B& b) { run(8, a, b); exec(a.body); }); break;
            case 9: on<Trigger<D>, With<A>, Inline::ALWAYS>().then([this](const D& d, const A& a) { run(9, d, a); exec(d.body); }); break;
            case 10: on<Last<2, Trigger<D>>, Inline::ALWAYS>().then([this](const std::list<Sp<D>>& l) { run(10, l); }); break;
            case 11: on<Last<5, Trigger<D>>, Sync<SX>>().then([this](const std::list<Sp<D>>& l) { run(11, l); }); break;
            case 12: on<Trigger<B>, With<A>, Priority::HIGH, Sync<SX>>().then([this](const B& b, const A& a) { run(12, b, a); }); break;
            case 13: on<With<B>, Trigger<C>, Inline::ALWAYS>().then([this](const B& b, const C& c) { run(13, b, c); exec(c.body); }); break;
            case 14: on<Trigger<B>>().then([this](const Sp<B>& b) { run(14, b); exec(b->body); }); break;
            case 15: on<Trigger<D>, Optional<With<C>>, With<B>>().then([this](const D& d, const Sp<C>& c, const B& b) { run(15, d, c, b); }); break;
            case 16: on<Last<1, Trigger<C>>, With<A>>().then([this](const std::list<Sp<C>>& l, const A& a) { run(16, l, a); }); break;
            case 17: on<Trigger<D>, Inline::ALWAYS>().then([this](const D& d) { run(17, d); exec(d.body); }); break;
        }
    }
    R(std::unique_ptr<NUClear::Environment> env, const std::vector<int>& inst) : Reactor(std::move(env)) {
        the_reactor = this;
        for (int r : inst) bind(r);
    }
};

struct Prog { uint64_t seed = 1; int threads = 2; std::vector<int> install; std::vector<std::vector<Ops>> phases; };

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    vp::Opts o; o.seed = p.seed;
    vp::start(o, buf, cap, len);
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<R>(p.install);
    std::thread driver([&p] {
        vp::quiesce();
        for (const auto& ph : p.phases) {
            std::vector<std::thread> ts;
            for (const auto& os : ph) ts.emplace_back([os] { the_reactor->exec(os); });
            for (auto& t : ts) t.join();
            vp::quiesce();
            vp::log("{\"e\":\"quiet\"}");
        }
        plant->shutdown();
    });
    pp.start();
    driver.join();
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "prog") { ps.emplace_back(); is >> ps.back().seed >> ps.back().threads; int r; while (is >> r) ps.back().install.push_back(r); }
        else if (w == "phase") {
            std::string rest, part; std::getline(is, rest);
            std::istringstream r(rest); std::vector<Ops> ph;
            while (std::getline(r, part, '|')) ph.push_back(ops(part));
            ps.back().phases.push_back(ph);
        }
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
