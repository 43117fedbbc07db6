// The files written by the TraceController compared with the real execution (spec/TraceFile.tla).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "../sim/vp.hpp"
#include "nuclear"

using NUClear::LogLevel;
using NUClear::Reactor;
using NUClear::message::BeginTrace;
using NUClear::message::EndTrace;
using NUClear::message::LogMessage;
using NUClear::message::ReactionEvent;
using NUClear::message::ReactionStatistics;
using NUClear::threading::ReactionTask;
struct Op;
using Ops = std::shared_ptr<const std::vector<Op>>;
struct Op { char c; int a; Ops body; };
static const char* P;
static Ops parse_ops() {
    auto v = std::make_shared<std::vector<Op>>();
    while (*P && *P != ')') {
        if (*P == ' ') { ++P; continue; }
        Op o{*P++, 0, nullptr};
        while (*P >= '0' && *P <= '9') o.a = o.a * 10 + (*P++ - '0');
        if (*P == '(') { ++P; o.body = parse_ops(); if (*P == ')') ++P; }
        v->push_back(o);
    }
    return v;
}
static Ops ops(const std::string& s) { P = s.c_str(); return parse_ops(); }

struct Prog { uint64_t seed = 1; int threads = 2; int flags = 0; std::vector<int> install; std::vector<std::vector<Ops>> phases; };
static const Prog* prog = nullptr;
static std::string dir;     // scratch directory of this process tree
static std::string base;    // prefix of the files of this run
static std::atomic<int> nfiles{0};
static std::string file(int k) { return base + std::to_string(k) + ".trace"; }

static std::thread::id ids[64];
static void seen() { vp::Hold h; int t = vp::tid(); if (t >= 0 && t < 64) ids[t] = std::this_thread::get_id(); }
static int tid_of(std::thread::id i) { for (int t = 0; t < 64; ++t) if (ids[t] == i && i != std::thread::id()) return t; return -7; }

struct X { static constexpr int concurrency = 1; static constexpr const char* name = "Extra pool"; };
struct S {};
struct N {};
static std::string when(long long ns) { return "[" + std::to_string(ns / 1000000000) + "," + std::to_string(ns % 1000000000) + "]"; }
template <typename T> static std::string when(T t) { return when((long long) std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()); }

static std::atomic<int> next_mid{1};
template <int K> struct Msg { int mid; Ops body; };
static NUClear::PowerPlant* plant = nullptr;
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("thrown") {} };
struct Open : Reactor { using Reactor::Reactor; using Reactor::log; };
static Reactor* reactor[4];

// What a name becomes when it is taken from the DSL: without the namespaces
static std::string strip(const std::string& s) {
    auto word = [](char c) { return isalnum((unsigned char) c) || c == '_'; };
    std::string o;
    for (size_t i = 0; i < s.size();) {
        if (!isdigit((unsigned char) s[i]) && word(s[i])) {
            size_t j = i;
            while (j < s.size() && word(s[j])) ++j;
            if (j - i >= 2 && s.compare(j, 2, "::") == 0) { i = j + 2; continue; }
            o.append(s, i, j - i); i = j; continue;
        }
        o += s[i++];
    }
    return o;
}
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) if (c == '"' || c == '\\' || c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\\\x%02x", c); o += b; } else o += char(c);
    return o;
}
static std::string text(int id, int z) {   // the text of log message number id
    return z == 0 ? "same" : "m " + std::to_string(id) + " " + std::string(size_t(z), char('a' + id % 26));
}
static const int sizes[] = {0, 1, 100, 110, 116, 120, 124, 128, 1000, 16300, 16360, 16370, 16380, 16384, 17000, 70000};
static std::map<std::string, int> texts;
static void exec(const Ops& os);
template <int K> static void do_emit(char c, Ops body) {
    auto m = std::make_unique<Msg<K>>(); m->mid = next_mid++; m->body = std::move(body);
    seen();
    if (c == 'i') plant->emit<NUClear::dsl::word::emit::Inline>(m); else plant->emit(m);
    vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid());
}
static void do_log(const Op& o) {
    int level = o.a % 8, k = o.a / 8 % 4, z = sizes[o.a / 32 % 16], id = z ? next_mid++ : 0;
    seen();
    const auto* t = ReactionTask::get_current_task();
    const bool st = t && t->statistics;
    std::string txt = text(id, z), name, g = "PowerPlant";
    { vp::Hold h; texts[txt] = id; }
    if (st) { const auto& i = t->statistics->identifiers; if (i) { name = i->name.empty() ? strip(i->dsl) : i->name; g = i->reactor; } }
    vp::log("{\"e\":\"log\",\"t\":%d,\"m\":%d,\"l\":%d,\"n\":\"%s\",\"g\":\"%s\",\"s\":%d}", vp::tid(), id, level, esc(name).c_str(), esc(g).c_str(), t == nullptr || st);
    auto lv = LogLevel(LogLevel::Value(level));
    if (o.c == 'l' && reactor[k]) reinterpret_cast<Open*>(reactor[k])->log(lv, txt); else NUClear::log(lv, txt);
    vp::log("{\"e\":\"logged\",\"t\":%d,\"m\":%d}", vp::tid(), id);
}
static void begin(bool logs, bool now, bool bad) {
    int k = nfiles++;
    std::string f = bad ? base + "none/x.trace" : file(k);
    seen();
    vp::log("{\"e\":\"begin\",\"t\":%d,\"f\":%d,\"l\":%d,\"b\":%d}", vp::tid(), k, logs, bad);
    auto m = std::make_unique<BeginTrace>(f, logs);
    if (now) plant->emit<NUClear::dsl::word::emit::Inline>(m); else plant->emit(m);
    vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid());
}
static void step(const Op& o) {
    switch (o.c) {
        case 'y': for (int i = 0; i < o.a; ++i) vp::yield(); break;
        case 's': vp::sleep_ns(uint64_t(o.a) * 1000); break;
        case 'n': plant->emit(std::make_unique<N>()); vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid()); break;
        case 't': if (ReactionTask::get_current_task()) throw Thrown(); break;
        case 'B': begin(o.a & 1, false, (o.a & 2) != 0); break;
        case 'F': seen(); vp::log("{\"e\":\"stop\",\"t\":%d}", vp::tid()); plant->emit(std::make_unique<EndTrace>()); vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid()); break;
        case 'e': case 'i':
            if (o.a == 0) do_emit<0>(o.c, o.body); else if (o.a == 1) do_emit<1>(o.c, o.body); else if (o.a == 2) do_emit<2>(o.c, o.body); else do_emit<3>(o.c, o.body);
            break;
        default: do_log(o);
    }
}
static void exec(const Ops& os) { if (os) for (const auto& o : *os) step(o); }
struct At { ~At() { vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid()); } };
template <typename M> static void body(const M& m) { seen(); vp::log("{\"e\":\"at\",\"t\":%d}", vp::tid()); At a; exec(m.body); }

template <int K> struct R : Reactor {
    void bind(int v) {
        const std::string n = "r" + std::to_string(K * 16 + v);
        switch (v) {
            case 0: on<Trigger<Msg<0>>>().then(n, [](const Msg<0>& m) { body(m); }); break;
            case 1: on<Trigger<Msg<0>>, Inline::ALWAYS>().then(n, [](const Msg<0>& m) { body(m); }); break;
            case 2: on<Trigger<Msg<1>>, Pool<X>>().then(n, [](const Msg<1>& m) { body(m); }); break;
            case 3: on<Trigger<Msg<1>>, Sync<S>>().then([](const Msg<1>& m) { body(m); }); break;
            case 4: on<Trigger<Msg<1>>, Single>().then(n, [](const Msg<1>& m) { body(m); }); break;
            case 5: on<Trigger<Msg<0>>, With<N>>().then(n, [](const Msg<0>& m, const N&) { body(m); }); break;
            case 6: on<Trigger<Msg<2>>, Inline::NEVER, Buffer<2>>().then([](const Msg<2>& m) { body(m); }); break;
            case 7: on<Trigger<Msg<2>>, Once>().then(n, [](const Msg<2>& m) { body(m); }); break;
            case 8: on<Trigger<Msg<2>>, MainThread>().then(n, [](const Msg<2>& m) { body(m); }); break;
            case 9: on<Trigger<Msg<3>>, Priority::HIGH>().then([](const Msg<3>& m) { body(m); }); break;
            case 10: on<Trigger<Msg<3>>>().then(n, [](const Msg<3>& m) { body(m); }); break;
            case 11: on<Startup>().then(n, [] { seen(); At a; }); break;
            case 12: on<Shutdown>().then(n, [] { seen(); At a; }); break;
        }
    }
    R(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        reactor[K] = this;
        this->log_level = LogLevel(LogLevel::Value(1));
        this->min_log_level = LogLevel(LogLevel::Value(1));
        for (int r : prog->install) if (r / 16 == K) bind(r % 16);
    }
};
struct E : Reactor {   // observes events
    E(std::unique_ptr<NUClear::Environment> env) : Reactor(std::move(env)) {
        on<Trigger<ReactionEvent>, Inline::ALWAYS>().then("e0", [](const ReactionEvent& e) {
            seen();
            const auto& s = *e.statistics;
            const auto& w = e.type == ReactionEvent::STARTED ? s.started : e.type == ReactionEvent::FINISHED ? s.finished : s.created;
            const auto& i = s.identifiers;
            const std::string n = !i ? "" : i->name.empty() ? strip(i->dsl) : i->name;
            const bool own = i && i->reactor == "NUClear::extension::TraceController";
            const int q = !own ? 0 : i->dsl.find("BeginTrace") != std::string::npos ? 1 : i->dsl.find("EndTrace") != std::string::npos ? 2 : 3;
            vp::log("{\"e\":\"ev\",\"t\":%d,\"y\":%d,\"k\":%d,\"n\":\"%s\",\"g\":\"%s\",\"w\":%d,\"p\":\"%s\",\"v\":%s,\"u\":%s,\"q\":%d}", vp::tid(), int(e.type), int(s.target.task_id), esc(n).c_str(),
                    i ? esc(i->reactor).c_str() : "PowerPlant", tid_of(w.thread.thread_id), w.thread.pool ? esc(w.thread.pool->name).c_str() : "Non NUClear", when(w.real_time).c_str(), when(w.thread_time).c_str(), q);
        });
        if (prog->flags & 1) on<Trigger<ReactionEvent>>().then("e1", [](const ReactionEvent& e) {   // has no statistics
            if (e.statistics->target.task_id % 4 == 0) { seen(); do_log(Op{'g', 5 + 32 * int(e.statistics->target.task_id % 12), nullptr}); }
        });
    }
};

// ---- reading a trace file ----
struct Bad { const char* why; };
struct In {
    const unsigned char* p; const unsigned char* e;
    bool more() const { return p < e; }
    uint64_t varint() {
        uint64_t v = 0;
        for (int s = 0; s < 70; s += 7) { if (p >= e) throw Bad{"truncated"}; v |= uint64_t(*p & 0x7f) << s; if (!(*p++ & 0x80)) return v; }
        throw Bad{"varint"};
    }
    void key(unsigned& id, unsigned& wire) { uint64_t k = varint(); id = unsigned(k >> 3); wire = unsigned(k & 7); if (id == 0) throw Bad{"field 0"}; }
    uint64_t num(unsigned wire) { if (wire != 0) throw Bad{"not a varint"}; return varint(); }
    uint64_t fixed(unsigned wire) { if (wire != 1) throw Bad{"not fixed64"}; if (e - p < 8) throw Bad{"truncated"}; uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= uint64_t(*p++) << (8 * i); return v; }
    In sub(unsigned wire) { if (wire != 2) throw Bad{"not length delimited"}; uint64_t n = varint(); if (n > uint64_t(e - p)) throw Bad{"length beyond the end"}; In r{p, p + n}; p += n; return r; }
    std::string str(unsigned wire) { In s = sub(wire); return std::string(s.p, s.e); }
};
static void read_packet(In in, int f, int n) {
    unsigned id, w;
    long long ts = -1; uint64_t seq = 0; int flags = 0, first = 0, dropped = 0;
    std::string what;   // the rest of the record
    const char* kind = nullptr;
    int defs = 0;
    while (in.more()) {
        in.key(id, w);
        switch (id) {
            case 8: ts = (long long) in.num(w); break;
            case 10: seq = in.num(w); break;
            case 13: flags = int(in.num(w)); break;
            case 42: dropped = int(in.num(w)); break;
            case 87: first = int(in.num(w)); break;
            case 60: {
                In d = in.sub(w); uint64_t uuid = 0, parent = 0; int ty = 0, pid = -1, tid = -1, counter = -1; std::string name;
                while (d.more()) {
                    unsigned i2, w2; d.key(i2, w2);
                    if (i2 == 1) uuid = d.num(w2);
                    else if (i2 == 5) parent = d.num(w2);
                    else if (i2 == 3 || i2 == 4 || i2 == 8) {
                        ty = int(i2); In s = d.sub(w2);
                        while (s.more()) {
                            unsigned i3, w3; s.key(i3, w3);
                            if (i3 == 1) { if (ty == 8) counter = int(s.num(w3)); else pid = int(s.num(w3)); }
                            else if (i3 == 2 && ty == 4) tid = int(s.num(w3));
                            else if ((i3 == 6 && ty == 3) || (i3 == 5 && ty == 4)) name = s.str(w3);
                            else throw Bad{"unknown track field"};
                        }
                    }
                    else throw Bad{"unknown track descriptor field"};
                }
                vp::log("{\"e\":\"track\",\"f\":%d,\"i\":%d,\"o\":%d,\"y\":%d,\"p\":%d,\"d\":%d,\"c\":%d,\"n\":\"%s\"}", f, int(uuid), int(parent), ty, pid, tid, counter, esc(name).c_str());
                ++defs;
            } break;
            case 12: {
                In d = in.sub(w);
                while (d.more()) {
                    unsigned i2, w2; d.key(i2, w2);
                    if (i2 != 1 && i2 != 2 && i2 != 20) throw Bad{"unknown interned data"};
                    In s = d.sub(w2); uint64_t iid = 0; std::string name;
                    while (s.more()) { unsigned i3, w3; s.key(i3, w3); if (i3 == 1) iid = s.num(w3); else if (i3 == 2) name = s.str(w3); else throw Bad{"unknown interned field"}; }
                    int m = -1;
                    if (i2 == 20) { auto it = texts.find(name); m = it == texts.end() ? -7 : it->second; name = ""; }
                    vp::log("{\"e\":\"def\",\"f\":%d,\"i\":%d,\"y\":%d,\"m\":%d,\"n\":\"%s\",\"q\":%d}", f, int(iid), int(i2), m, esc(name).c_str(), int(seq));
                }
                ++defs;
            } break;
            case 11: {
                In d = in.sub(w); int ty = -1, track = -1, name = -1, log = -1, prio = -1, ctrack = -1; long long flow = -1, cval = -1, nf = 0; std::string cats;
                while (d.more()) {
                    unsigned i2, w2; d.key(i2, w2);
                    switch (i2) {
                        case 9: ty = int(d.num(w2)); break;
                        case 11: track = int(d.num(w2)); break;
                        case 10: name = int(d.num(w2)); break;
                        case 3: cats += (cats.empty() ? "" : ",") + std::to_string(d.num(w2)); break;
                        case 31: ctrack = int(d.num(w2)); break;
                        case 12: cval = (long long) d.num(w2); break;
                        case 47: flow = (long long) d.fixed(w2); ++nf; break;
                        case 21: {
                            In s = d.sub(w2);
                            while (s.more()) { unsigned i3, w3; s.key(i3, w3); if (i3 == 2) log = int(s.num(w3)); else if (i3 == 3) prio = int(s.num(w3)); else throw Bad{"unknown log field"}; }
                        } break;
                        default: throw Bad{"unknown track event field"};
                    }
                }
                if (nf > 1) throw Bad{"two flows"};
                vp::log("{\"e\":\"rec\",\"f\":%d,\"y\":%d,\"i\":%d,\"n\":%d,\"c\":[%s],\"ci\":%d,\"u\":%s,\"k\":%lld,\"b\":%d,\"p\":%d,\"v\":%s,\"q\":%d,\"s\":%d}", f, ty, track, name, cats.c_str(), ctrack, when(cval).c_str(), flow, log, prio,
                        when(ts).c_str(), int(seq), flags);
                kind = "rec";
            } break;
            default: throw Bad{"unknown packet field"};
        }
    }
    if (!kind && !defs) vp::log("{\"e\":\"clear\",\"f\":%d,\"i\":%d,\"q\":%d,\"s\":%d,\"d\":%d,\"n\":%d}", f, first, int(seq), flags, dropped, n);
}
static void read_file(int f) {
    std::ifstream is(file(f), std::ios::binary);
    if (!is) { vp::log("{\"e\":\"file\",\"f\":%d,\"x\":0}", f); return; }
    std::stringstream ss; ss << is.rdbuf();
    const std::string s = ss.str();
    is.close();
    unlink(file(f).c_str());
    vp::log("{\"e\":\"file\",\"f\":%d,\"x\":1}", f);
    In in{reinterpret_cast<const unsigned char*>(s.data()), reinterpret_cast<const unsigned char*>(s.data()) + s.size()};
    try {
        for (int n = 0; in.more(); ++n) {
            unsigned id, w; in.key(id, w);
            if (id != 1) throw Bad{"not a packet"};
            read_packet(in.sub(w), f, n);
        }
    }
    catch (const Bad& b) { vp::log("{\"e\":\"bad\",\"f\":%d,\"w\":\"%s\"}", f, b.why); }
    vp::log("{\"e\":\"eof\",\"f\":%d}", f);
}

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len, int i) {
    base = dir + "/" + std::to_string(i) + "_";
    prog = &p;
    vp::Opts o; o.seed = p.seed;
    vp::start(o, buf, cap, len);
    {
        NUClear::Configuration cfg; cfg.default_pool_concurrency = p.threads;
        NUClear::PowerPlant pp(cfg);
        plant = &pp;
        pp.install<E>();
        pp.install<NUClear::extension::TraceController>();
        pp.install<R<0>>(); pp.install<R<1>>();
        if (p.flags & 2) begin(true, true, false);
        std::vector<std::thread> ts;   // joined at the end so that no thread id is used again
        std::thread driver([&p, &ts] {
            vp::quiesce();
            for (const auto& ph : p.phases) {
                for (const auto& os : ph) ts.emplace_back([os] { exec(os); });
                while (!vp::quiesce()) vp::sleep_ns(1000000);
                vp::log("{\"e\":\"quiet\"}");
            }
            vp::log("{\"e\":\"over\"}");
            plant->shutdown();
        });
        pp.start();
        driver.join();
        for (auto& t : ts) t.join();
    }
    {
        vp::Hold h;
        for (int k = 0; k < nfiles; ++k) read_file(k);
    }
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w == "prog") {
            ps.emplace_back(); auto& p = ps.back();
            is >> p.seed >> p.threads >> p.flags;
            int r; while (is >> r) p.install.push_back(r);
        }
        else if (w == "phase") {
            std::string rest, part; std::getline(is, rest);
            std::istringstream r(rest); std::vector<Ops> ph;
            while (std::getline(r, part, '|')) ph.push_back(ops(part));
            ps.back().phases.push_back(ph);
        }
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    char tmp[] = "/tmp/vptrace.XXXXXX";
    if (!mkdtemp(tmp)) return 2;
    dir = tmp;
    int rc = vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l, i); });
    for (size_t i = 0; i < ps.size(); ++i) for (int k = 0; k < 40; ++k) unlink((dir + "/" + std::to_string(i) + "_" + std::to_string(k) + ".trace").c_str());
    rmdir(dir.c_str());
    return rc;
}
