// Concurrent use of the work queues of the scheduler, recorded as invocations and responses (spec/Queue.tla).
#include <algorithm>
#include <array>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "../sim/vp.hpp"
#include "threading/scheduler/queue/MPSCQueue.hpp"
#include "threading/scheduler/queue/TaskQueue.hpp"

namespace q = NUClear::threading::scheduler::queue;

static bool slow = false, dying = false;
struct Item {
    int v{-1};
    Item() = default;
    explicit Item(int v) : v(v) {}
    Item(Item&& o) noexcept : v(o.v) { if (slow && vp::rnd(3) == 0) vp::yield(); o.v = -1; }
    Item& operator=(Item&& o) noexcept { if (slow && vp::rnd(3) == 0) vp::yield(); v = o.v; o.v = -1; return *this; }
    ~Item() { if (v >= 0) { vp::log("{\"e\":\"%s\",\"v\":%d}", dying ? "left" : "lost", v); v = -1; } }
};

struct Prog {
    int single = 0, slow = 0, pre = 0, keep = 0, drain = 1;
    uint64_t seed = 1;
    std::vector<std::string> threads;
};

static void enq(q::Queue<Item>& Q, int v) {
    Item it(v);
    vp::log("{\"e\":\"enq\",\"t\":%d,\"v\":%d}", vp::tid(), v);
    Q.enqueue(std::move(it));
    vp::log("{\"e\":\"enqd\",\"t\":%d,\"v\":%d}", vp::tid(), v);
}
static bool deq(q::Queue<Item>& Q) {
    Item out;
    vp::log("{\"e\":\"deq\",\"t\":%d}", vp::tid());
    bool ok = Q.try_dequeue(out);
    int v = ok ? out.v : -1;
    out.v = -1;
    vp::log("{\"e\":\"deqd\",\"t\":%d,\"v\":%d,\"ok\":%d}", vp::tid(), v, int(ok));
    return ok;
}

static void run_one(const Prog& p, char* buf, size_t cap, size_t* len) {
    std::unique_ptr<q::Queue<Item>> Q;
    if (p.single) Q.reset(new q::MPSCQueue<Item>()); else Q.reset(new q::TaskQueue<Item>());
    // move to a place in the block where it becomes interesting
    for (int i = 0; i < p.pre; ++i) { Item it(1000000 + i); Q->enqueue(std::move(it)); Item o; Q->try_dequeue(o); o.v = -1; }
    vp::Opts o; o.seed = p.seed;
    vp::start(o, buf, cap, len);
    slow = p.slow;
    std::atomic<int> next{0};
    for (int i = 0; i < p.keep; ++i) enq(*Q, next++);
    std::vector<std::thread> ts;
    for (const auto& s : p.threads) {
        ts.emplace_back([&Q, &next, s] {
            for (char c : s) {
                if (c == 'e') enq(*Q, next++);
                else if (c == 'd') deq(*Q);
                else vp::yield();
            }
        });
    }
    for (auto& t : ts) t.join();
    if (p.drain) while (deq(*Q)) {}
    dying = true;
    vp::log("{\"e\":\"destroy\"}");
    Q.reset();
    vp::log("{\"e\":\"destroyed\"}");
    vp::end_run("fin");
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::vector<Prog> ps;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        std::istringstream is(line);
        Prog p; std::string w;
        is >> p.seed >> p.single >> p.slow >> p.pre >> p.keep >> p.drain;
        while (is >> w) p.threads.push_back(w);
        ps.push_back(p);
    }
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (argc > 4) ps = {ps.at(size_t(atoi(argv[4])))};
    return vp::run_many(int(ps.size()), jobs, argv[2], 20, [&](int i, char* b, size_t c, size_t* l) { run_one(ps[size_t(i)], b, c, l); });
}
