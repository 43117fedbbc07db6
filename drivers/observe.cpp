// What reaction events and log messages say about the real execution (spec/Observe.tla).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::LogLevel;
using NUClear::Reactor;
using NUClear::message::LogMessage;
using NUClear::message::ReactionEvent;
using NUClear::message::ReactionStatistics;
using NUClear::threading::ReactionTask;
struct Op;
using Ops = std::shared_ptr<const std::vector<Op>>;
struct Op { char c; int a; Ops body; };
static const char* P;
static Ops parse_ops() {
    auto v = std::make_shared<std::vector<Op>>();
    while (*P && *P != ')') {
        if (*P == ' ') { ++P; continue; }
        Op o{*P++, 0, nullptr};
        while (*P >= '0' && *P <= '9') o.a = o.a * 10 + (*P++ - '0');
        if (*P == '(') { ++P; o.body = parse_ops(); if (*P == ')') ++P; }
        v->push_back(o);
    }
    return v;
}
static Ops ops(const std::string& s) { P = s.c_str(); return parse_ops(); }

struct Prog { uint64_t seed = 1; int threads = 2; int flags = 0; int lev[4][2] = {{3, 6}, {3, 6}, {3, 6}, {3, 6}}; std::vector<int> install; std::vector<std::vector<Ops>> phases; };
static const Prog* prog = nullptr;

// Threads are named by simulated number
static std::thread::id ids[64];
static void seen() { vp::Hold h; int t = vp::tid(); if (t >= 0 && t < 64) ids[t] = std::this_thread::get_id(); }
static int tid_of(std::thread::id i) { for (int t = 0; t < 64; ++t) if (ids[t] == i && i != std::thread::id()) return t; return -7; }

static NUClear::id_t rid[256];
static int idx_of(NUClear::id_t i) { if (i == 0) return -1; for (int r = 0; r < 256; ++r) if (rid[r] == i) return r; return -7; }

struct X { static constexpr int concurrency = 1; };
struct S {};
struct N { int n; };
static int pool_of(const std::shared_ptr<const NUClear::util::ThreadPoolDescriptor>& d) {
    using namespace NUClear::dsl::word;
    if (!d) return 0;
    if (d == Pool<>::descriptor()) return 1;
    if (d == MainThread::descriptor()) return 2;
    if (d == Pool<X>::descriptor()) return 3;
    return -7;
}
template <typename T> static long long ns100(T t) { return (std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() - 1700000000000000000LL) / 100; }
static long long now100() { return (long long) (vp::now() / 100); }
static int cur_task() { const auto* t = ReactionTask::get_current_task(); return t ? int(t->id) : 0; }
static int cur_stat() { const auto* t = ReactionTask::get_current_task(); return t && t->statistics ? 1 : 0; }

static std::atomic<int> next_mid{1};
template <int K> struct Msg { int mid; Ops body; };
static NUClear::PowerPlant* plant = nullptr;
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("thrown") {} };

static Reactor* reactor[4];
static std::string rname[4];
template <LogLevel::Value L> struct AsReactor : Reactor { using Reactor::log; };
struct Open : Reactor { using Reactor::Reactor; using Reactor::log; };

static void emit_n() { plant->emit(std::make_unique<N>()); }
static void exec(const Ops& os);
template <int K> static void do_emit(char c, Ops body) {
    auto m = std::make_unique<Msg<K>>(); m->mid = next_mid++; m->body = std::move(body); int mid = m->mid;
    seen();
    vp::log("{\"e\":\"emit\",\"t\":%d,\"m\":%d,\"k\":%d,\"v\":%lld}", vp::tid(), mid, K, now100());
    if (c == 'i') plant->emit<NUClear::dsl::word::emit::Inline>(m); else plant->emit(m);
    vp::log("{\"e\":\"emitted\",\"t\":%d,\"m\":%d}", vp::tid(), mid);
}
template <LogLevel::Value L> static void log_t(char c, Reactor* r, int id) {
    if (c == 'L') reinterpret_cast<Open*>(r)->log<L>("m", id, 'c', 2.5);
    else if (c == 'G') NUClear::log<L>("m", id, 'c', 2.5);
    else plant->log<L>("m", id, 'c', 2.5);
}
static void do_log(const Op& o) {
    int level = o.a % 8, k = o.a / 8, id = next_mid++;
    bool via = o.c == 'l' || o.c == 'L' || o.c == 'q';
    seen();
    vp::log("{\"e\":\"log\",\"t\":%d,\"m\":%d,\"l\":%d,\"k\":%d}", vp::tid(), id, level, via ? k : -1);
    auto* r = reinterpret_cast<Open*>(reactor[k]);
    auto lv = LogLevel(LogLevel::Value(level));
    switch (o.c) {
        case 'l': r->log(lv, "m", id, 'c', 2.5); break;
        case 'g': NUClear::log(lv, "m", id, 'c', 2.5); break;
        case 'p': plant->log(lv, "m", id, 'c', 2.5); break;
        case 'q': plant->log(r, lv, "m", id, 'c', 2.5); break;
        default:
            switch (level) {
                case 1: log_t<LogLevel::TRACE>(o.c, r, id); break;
                case 2: log_t<LogLevel::DEBUG>(o.c, r, id); break;
                case 3: log_t<LogLevel::INFO>(o.c, r, id); break;
                case 4: log_t<LogLevel::WARN>(o.c, r, id); break;
                case 5: log_t<LogLevel::ERROR>(o.c, r, id); break;
                default: log_t<LogLevel::FATAL>(o.c, r, id); break;
            }
    }
    vp::log("{\"e\":\"logged\",\"t\":%d,\"m\":%d}", vp::tid(), id);
}
static void step(const Op& o) {
    switch (o.c) {
        case 'y': for (int i = 0; i < o.a; ++i) vp::yield(); break;
        case 's': vp::sleep_ns(uint64_t(o.a) * 1000); break;
        case 'n': vp::log("{\"e\":\"n\",\"t\":%d,\"m\":1}", vp::tid()); emit_n(); vp::log("{\"e\":\"n\",\"t\":%d,\"m\":2}", vp::tid()); break;
        case 't': if (ReactionTask::get_current_task()) throw Thrown(); break;
        case 'e': case 'i':
            if (o.a == 0) do_emit<0>(o.c, o.body); else if (o.a == 1) do_emit<1>(o.c, o.body); else if (o.a == 2) do_emit<2>(o.c, o.body); else do_emit<3>(o.c, o.body);
            break;
        case 'w': {   // only while nothing else is going on
            int k = o.a / 64;
            reactor[k]->log_level = LogLevel(LogLevel::Value(o.a / 8 % 8));
            reactor[k]->min_log_level = LogLevel(LogLevel::Value(o.a % 8));
            vp::log("{\"e\":\"lev\",\"t\":%d,\"k\":%d,\"a\":%d,\"b\":%d}", vp::tid(), k, o.a / 8 % 8, o.a % 8);
        } break;
        default: do_log(o);
    }
}
static void exec(const Ops& os) { if (os) for (const auto& o : *os) step(o); }

struct Body {   // logs the execution of one task of a reaction
    int r, task; bool threw = true;
    Body(int r, int mid) : r(r), task(cur_task()) { seen(); vp::log("{\"e\":\"run\",\"t\":%d,\"r\":%d,\"k\":%d,\"s\":%d,\"m\":%d,\"v\":%lld}", vp::tid(), r, task, cur_stat(), mid, now100()); }
    ~Body() { vp::log("{\"e\":\"done\",\"t\":%d,\"r\":%d,\"k\":%d,\"x\":%d,\"v\":%lld}", vp::tid(), r, task, threw, now100()); }
};
template <typename M> static void body(int r, const M& m) { Body b(r, m.mid); exec(m.body); b.threw = false; }

template <int K> struct R : Reactor {
    void note(int r, const NUClear::threading::ReactionHandle& h) { auto s = h.context.lock(); rid[r] = s ? s->id : 0; }
    void bind(int v) {
        const int r = K * 16 + v;
        const std::string n = "r" + std::to_string(r);
        switch (v) {
            case 0: note(r, on<Trigger<Msg<0>>>().then(n, [r](const Msg<0>& m) { body(r, m); })); break;
            case 1: note(r, on<Trigger<Msg<0>>, Inline::ALWAYS>().then(n, [r](const Msg<0>& m) { body(r, m); })); break;
            case 2: note(r, on<Trigger<Msg<1>>, Pool<X>>().then(n, [r](const Msg<1>& m) { body(r, m); })); break;
            case 3: note(r, on<Trigger<Msg<1>>, Sync<S>>().then(n, [r](const Msg<1>& m) { body(r, m); })); break;
            case 4: note(r, on<Trigger<Msg<1>>, Single>().then(n, [r](const Msg<1>& m) { body(r, m); })); break;
            case 5: note(r, on<Trigger<Msg<0>>, With<N>>().then(n, [r](const Msg<0>& m, const N&) { body(r, m); })); break;
            case 6: note(r, on<Trigger<Msg<2>>, Inline::NEVER, Buffer<2>>().then(n, [r](const Msg<2>& m) { body(r, m); })); break;
            case 7: note(r, on<Trigger<Msg<2>>, Once>().then(n, [r](const Msg<2>& m) { body(r, m); })); break;
            case 8: note(r, on<Trigger<Msg<2>>, MainThread>().then(n, [r](const Msg<2>& m) { body(r, m); })); break;
            case 9: note(r, on<Trigger<Msg<3>>, Priority::HIGH>().then(n, [r](const Msg<3>& m) { body(r, m); })); break;
            case 10: note(r, on<Trigger<Msg<4>>>().then(n, [r](const Msg<4>& m) { body(r, m); })); break;
            case 11: note(r, on<Trigger<Msg<4>>, Inline::ALWAYS>().then(n, [r](const Msg<4>& m) { body(r, m); })); break;
        }
    }
    R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        reactor[K] = this;
        rname[K] = reactor_name;
        this->log_level = LogLevel(LogLevel::Value(prog->lev[K][0]));
        this->min_log_level = LogLevel(LogLevel::Value(prog->lev[K][1]));
        for (int r : prog->install) if (r / 16 == K) bind(r % 16);
    }
};

struct H : Reactor {   // handles log messages
    void got(int h, const LogMessage& m) {
        int id = -7;
        if (m.message.size() > 8 && m.message.substr(0, 2) == "m ") {
            id = atoi(m.message.c_str() + 2);
            if (m.message != "m " + std::to_string(id) + " c 2.5") id = -7;
        }
        int k = m.reactor_name.empty() ? -1 : -7;
        for (int i = 0; i < 3; ++i) if (reactor[i] && rname[i] == m.reactor_name) k = i;
        vp::log("{\"e\":\"got\",\"t\":%d,\"r\":%d,\"m\":%d,\"l\":%d,\"d\":%d,\"k\":%d,\"s\":%d}", vp::tid(), h, id, int(m.level()), int(m.display_level()), k,
                m.statistics ? int(m.statistics->target.task_id) : 0);
    }
    H(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        auto note = [](int r, const NUClear::threading::ReactionHandle& h) { auto s = h.context.lock(); rid[r] = s ? s->id : 0; };
        if (prog->flags & 1) note(100, on<Trigger<LogMessage>, Inline::ALWAYS>().then("r100", [this](const LogMessage& m) { Body b(100, 0); got(100, m); b.threw = false; }));
        if (prog->flags & 2) note(101, on<Trigger<LogMessage>>().then("r101", [this](const LogMessage& m) { Body b(101, 0); got(101, m); b.threw = false; }));
        if (prog->flags & 4) note(102, on<Trigger<LogMessage>, Inline::NEVER>().then("r102", [this](const LogMessage& m) { Body b(102, 0); got(102, m); b.threw = false; }));
    }
};

static int named(const ReactionStatistics& s) {   // the reaction of a task, if all its identities agree
    int r = idx_of(s.target.reaction_id);
    if (r < 0 || !s.identifiers || s.identifiers->name != "r" + std::to_string(r)) return -7;
    if (r < 100 && s.identifiers->reactor != rname[r / 16]) return -7;
    if (s.identifiers->dsl.empty() || s.identifiers->function.empty()) return -7;
    return r;
}
static std::string when(const ReactionStatistics::Event& e) {
    std::ostringstream o;
    o << "[" << tid_of(e.thread.thread_id) << "," << pool_of(e.thread.pool) << "," << ns100(e.nuclear_time) << "," << ns100(e.real_time) << "]";
    return o.str();
}
struct E : Reactor {   // observes events
    E(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        on<Trigger<ReactionEvent>, Inline::ALWAYS>().then("e0", [](const ReactionEvent& e) {
            seen();
            const auto& s = *e.statistics;
            vp::log("{\"e\":\"ev\",\"t\":%d,\"y\":%d,\"k\":%d,\"r\":%d,\"ct\":%d,\"cr\":%d,\"tp\":%d,\"ng\":%d,\"c\":%s,\"s\":%s,\"f\":%s,\"x\":%d,\"v\":%lld}", vp::tid(), int(e.type), int(s.target.task_id), named(s),
                    int(s.cause.task_id), idx_of(s.cause.reaction_id), pool_of(s.target_pool), int(s.target_groups.size()), when(s.created).c_str(),
                    e.type == ReactionEvent::STARTED || e.type == ReactionEvent::FINISHED ? when(s.started).c_str() : "[]", e.type == ReactionEvent::FINISHED ? when(s.finished).c_str() : "[]", s.exception ? 1 : 0, now100());
        });
        if (prog->flags & 8) on<Trigger<ReactionStatistics>, Inline::ALWAYS>().then("e1", [](const ReactionStatistics& s) {
            vp::log("{\"e\":\"stat\",\"t\":%d,\"k\":%d,\"r\":%d,\"x\":%d}", vp::tid(), int(s.target.task_id), named(s), s.exception ? 1 : 0);
        });
        if (prog->flags & 16) on<Trigger<ReactionEvent>>().then("e2", [](const ReactionEvent& e) { observer(e.statistics->target.task_id, int(e.type)); });
        if (prog->flags & 32) on<Trigger<ReactionStatistics>>().then("e3", [](const ReactionStatistics& s) { observer(s.target.task_id, 9); });
    }
    static void observer(NUClear::id_t task, int type) {
        vp::log("{\"e\":\"obs\",\"t\":%d,\"k\":%d,\"y\":%d}", vp::tid(), int(task), type);
        if ((task + type) % 4 == 0) {
            auto b = std::make_shared<std::vector<Op>>();
            if (task % 8 == 0) { b->push_back(Op{'i', 3, nullptr}); b->push_back(Op{'g', 5, nullptr}); }
            do_emit<4>(task % 3 ? 'i' : 'e', b);
        }
        vp::log("{\"e\":\"obsd\",\"t\":%d,\"k\":%d,\"y\":%d}", vp::tid(), int(task), type);
    }
};

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    vp::Opts o; o.seed = p.seed;
    vp::start(o, buf, cap, len);
    prog = &p;
    NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
    NUClear::PowerPlant pp(cfg);
    plant = &pp;
    pp.install<E>();
    pp.install<R<0>>(); pp.install<R<1>>(); pp.install<R<2>>();
    pp.install<H>();
    std::thread driver([&p] {
        std::vector<std::thread> ts;   // joined at the end so that no thread id is used again
        vp::quiesce();
        for (const auto& ph : p.phases) {
            for (const auto& os : ph) ts.emplace_back([os] { exec(os); });
            while (!vp::quiesce()) vp::sleep_ns(1000000);
            vp::log("{\"e\":\"quiet\"}");
        }
        plant->shutdown();
        for (auto& t : ts) t.join();
    });
    pp.start();
    driver.join();
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "prog") {
            ps.emplace_back(); auto& p = ps.back();
            is >> p.seed >> p.threads >> p.flags;
            for (int k = 0; k < 3; ++k) is >> p.lev[k][0] >> p.lev[k][1];
            int r; while (is >> r) p.install.push_back(r);
        }
        else if (w == "phase") {
            std::string rest, part; std::getline(is, rest);
            std::istringstream r(rest); std::vector<Ops> ph;
            while (std::getline(r, part, '|')) ph.push_back(ops(part));
            ps.back().phases.push_back(ph);
        }
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
