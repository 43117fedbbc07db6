#include <algorithm>
// Controlled-schedule runtime. Compiled WITHOUT -fsanitize=thread; the code under test is compiled WITH it, so every
// std::atomic operation calls one of the __tsan_atomic* functions defined here and every plain memory access calls
// __tsan_read*/__tsan_write*. pthread, clock, sleep and poll entry points are interposed as ordinary symbols.
#include "vp.hpp"

#include <dlfcn.h>
#include <execinfo.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>

#include <new>
#include <string>
#include <vector>

namespace {

// ---------------------------------------------------------------------------------------------------------------
struct Rng {
    uint64_t s = 88172645463325252ULL;
    void seed(uint64_t x) {
        s = x * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL;
        if (s == 0) s = 1;
        for (int i = 0; i < 8; ++i) next();
    }
    uint64_t next() {
        s ^= s >> 12; s ^= s << 25; s ^= s >> 27;
        return s * 0x2545F4914F6CDD1DULL;
    }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : uint32_t((next() >> 33) % n); }
    bool chance(uint32_t inv) { return inv != 0 && below(inv) == 0; }
};

enum State { RUN, MUTEX, COND, JOIN, SLEEP, POLL, QUIESCE, GUARD, RWR, RWW, PRED, DONE };

struct Thread {
    int id        = 0;
    State state   = RUN;
    void* addr    = nullptr;    // mutex / cond / guard
    void* mtx     = nullptr;    // mutex to reacquire after cond
    uint64_t deadline = 0;      // virtual ns; 0 = none
    bool timed_out = false;
    int join_id   = -1;
    struct pollfd* fds = nullptr;
    nfds_t nfds   = 0;
    uint64_t poll_epoch = ~0ULL;
    bool poll_ready = false;
    bool quiet_timer = false;
    const std::function<bool()>* pred = nullptr;
    uint64_t prio = 0;
    int futex     = 0;
    pthread_t pt{};
    int inherited = 0;
    void* (*fn)(void*) = nullptr;
    void* arg     = nullptr;
};

constexpr int MAXT = 64;
Thread* threads[MAXT];
int nthreads      = 0;
bool sim_active   = false;
thread_local Thread* self_ __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int in_rt __attribute__((tls_model("initial-exec"))) = 0;

Rng sched_rng, scen_rng;
vp::Opts O;
uint64_t nsteps = 0, vtime = 0, fdepoch = 1;
int mode = 0;
uint32_t inv_hi = 2, inv_lo = 16, inv_plain = 0, inv_jit = 0, inv_spur = 0;
std::vector<uint64_t>* changepts;
size_t next_cp = 0;
uint64_t csteps = 0;
uint64_t nplain = 0;
uint64_t low_prio = 1ULL << 40;
bool fair_mode = false;
constexpr uint64_t EPOCH0 = 1700000000ULL * 1000000000ULL;

char* tbuf = nullptr; size_t tcap = 0; size_t* tlen = nullptr;

// mutex ownership table -------------------------------------------------------------------------------------------
struct MEnt { void* a; int owner; int count; int readers; };
constexpr int MT = 1 << 14;
MEnt mtab[MT];
MEnt* ment(void* a) {
    size_t h = (size_t(a) >> 3) * 0x9E3779B97F4A7C15ULL >> 50;
    for (int i = 0; i < MT; ++i) {
        MEnt* e = &mtab[(h + i) & (MT - 1)];
        if (e->a == a) return e;
        if (e->a == nullptr) { e->a = a; e->owner = -1; e->count = 0; e->readers = 0; return e; }
    }
    abort();
}
// Is something used by several threads? 2: the last one to use it was another thread, 1: others have used it before
struct CEnt { void* a; int tid; bool shared; };
CEnt ctab[4096];
int contended(void* a) {
    size_t h = (size_t(a) >> 2) * 0x9E3779B97F4A7C15ULL >> 52;
    CEnt& e = ctab[h];
    if (e.a != a) { e.a = a; e.tid = self_->id; e.shared = false; return 0; }
    bool other = e.tid != self_->id;
    e.shared = e.shared || other;
    e.tid = self_->id;
    return other ? 2 : e.shared;
}

void fwait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void fwake(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

int real_poll0(struct pollfd* fds, nfds_t n) {
    struct timespec ts{0, 0};
    return (int) syscall(SYS_ppoll, fds, n, &ts, nullptr, 8);
}

bool enabled(Thread* t, bool repoll) {
    switch (t->state) {
        case RUN: return true;
        case MUTEX: { MEnt* e = ment(t->addr); return e->owner == -1 && e->readers == 0; }
        case RWR: { MEnt* e = ment(t->addr); return e->owner == -1; }
        case RWW: { MEnt* e = ment(t->addr); return e->owner == -1 && e->readers == 0; }
        case COND: return t->deadline != 0 && t->deadline <= vtime;
        case JOIN: return threads[t->join_id]->state == DONE;
        case SLEEP: return t->deadline <= vtime;
        case GUARD: { return *((volatile char*) t->addr + 1) == 0; }
        case PRED: return (*t->pred)() || (t->deadline != 0 && t->deadline <= vtime);
        case POLL:
            if (t->deadline != 0 && t->deadline <= vtime) return true;
            if (repoll || t->poll_epoch != fdepoch) {
                t->poll_ready = vp::poll_hook(t->fds, t->nfds) > 0;
                t->poll_epoch = fdepoch;
            }
            return t->poll_ready;
        case QUIESCE:
        case DONE: return false;
    }
    return false;
}

// pick the next thread to run; never returns null (ends the run on deadlock)
Thread* pick(Thread* cur, bool want_switch) {
    bool repoll = false;
    while (true) {
        Thread* en[MAXT]; int n = 0;
        for (int i = 0; i < nthreads; ++i) if (enabled(threads[i], repoll)) en[n++] = threads[i];
        if (n == 0 && !repoll) { repoll = true; continue; }
        if (n > 0) {
            if (mode == 1 && !fair_mode) {
                Thread* b = en[0];
                for (int i = 1; i < n; ++i) if (en[i]->prio > b->prio) b = en[i];
                return b;
            }
            if (n > 1 && want_switch && cur != nullptr) {
                // choose among the others
                int k = 0; Thread* ot[MAXT];
                for (int i = 0; i < n; ++i) if (en[i] != cur) ot[k++] = en[i];
                return ot[sched_rng.below(k)];
            }
            if (cur != nullptr && cur->state == RUN && !want_switch) return cur;
            return en[sched_rng.below(n)];
        }
        // nobody can run: quiescence, then time, then deadlock
        Thread* q = nullptr;
        for (int i = 0; i < nthreads; ++i) if (threads[i]->state == QUIESCE) { q = threads[i]; break; }
        uint64_t best = ~0ULL;
        for (int i = 0; i < nthreads; ++i) {
            Thread* t = threads[i];
            if ((t->state == COND || t->state == SLEEP || t->state == POLL || t->state == PRED) && t->deadline != 0 && t->deadline < best) best = t->deadline;
        }
        if (q != nullptr) {
            q->quiet_timer = best != ~0ULL;
            return q;
        }
        if (best != ~0ULL) {
            if (best > vtime) vtime = best;
            continue;
        }
        // deadlock
        for (int i = 0; i < nthreads; ++i) {
            Thread* t = threads[i];
            if (t->state != DONE) vp::log("{\"e\":\"dl_thread\",\"t\":%d,\"st\":%d}", t->id, int(t->state));
        }
        vp::end_run("deadlock");
    }
}

void switch_to(Thread* n) {
    Thread* me = self_;
    if (n == me) return;
    fwake(&n->futex);
    fwait(&me->futex);
}

enum Kind { K_ATOMIC, K_LOCK, K_UNLOCK, K_PLAIN, K_YIELD, K_SYS };

void budget(bool plain = false) {
    // plain memory accesses only count when they go on without anything else
    if (plain && ++nplain % 64 != 0) return;
    ++nsteps;
    if (nsteps > O.max_steps / 8 && !fair_mode) { fair_mode = true; mode = 0; inv_hi = 3; inv_lo = 8; inv_spur = 0; inv_jit = 0; inv_plain = 0; }
    if (nsteps > O.max_steps) vp::end_run("hang");
}

void sched_point(Kind k, void* addr) {
    Thread* me = self_;
    if (me == nullptr || !sim_active || in_rt) return;
    in_rt = 1;
    budget(k == K_PLAIN);
    bool sw = false;
    const int cont = k == K_ATOMIC || k == K_LOCK ? contended(addr) : 0;
    if (O.calm) {
        sw = k == K_YIELD;
    }
    else if (mode == 1 && !fair_mode) {
        if (k == K_YIELD) { me->prio = --low_prio; }
        // preemptions are spread over the operations that others can notice, so that none of the gaps between them is
        // less likely just because little happens in it
        if (k == K_PLAIN ? inv_plain != 0 && sched_rng.chance(1 + inv_plain / 4) : k != K_ATOMIC || cont != 0) {
            ++csteps;
            while (next_cp < changepts->size() && csteps >= (*changepts)[next_cp]) { me->prio = --low_prio; ++next_cp; }
        }
        sw = true;
        if (k == K_PLAIN && inv_plain == 0) { in_rt = 0; return; }
    }
    else {
        switch (k) {
            case K_YIELD: sw = true; break;
            case K_PLAIN: sw = sched_rng.chance(inv_plain); break;
            case K_ATOMIC: sw = sched_rng.chance(cont == 2 ? inv_hi : cont == 1 && inv_hi * 2 < inv_lo ? inv_hi * 2 : inv_lo); break;
            case K_LOCK: sw = sched_rng.chance(cont == 2 ? inv_hi : cont == 1 && inv_hi * 2 < inv_lo ? inv_hi * 2 : inv_lo); break;
            default: sw = sched_rng.chance(inv_hi); break;
        }
    }
    if (inv_jit && sched_rng.chance(inv_jit)) vtime += sched_rng.below(20000000);
    if (inv_spur && sched_rng.chance(inv_spur)) {
        for (int i = 0; i < nthreads; ++i) {
            Thread* t = threads[(i + me->id + 1) % nthreads];
            if (t->state == COND) { t->state = MUTEX; t->addr = t->mtx; t->timed_out = false; break; }
        }
    }
    if (sw) {
        Thread* n = (mode == 1 && !fair_mode) ? pick(me, false) : pick(me, true);
        switch_to(n);
    }
    in_rt = 0;
}

// block the current thread (state already set by the caller) until chosen again
void block() {
    budget();
    Thread* n = pick(nullptr, false);
    switch_to(n);
}

template <typename F>
F real(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

bool sim() { return sim_active && self_ != nullptr && in_rt == 0; }

uint64_t abs_ns(const struct timespec* ts, bool realtime) {
    uint64_t v = uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec);
    (void) realtime;
    if (ts->tv_sec < 0) return 1;
    return v <= EPOCH0 ? 1 : (v - EPOCH0 == 0 ? 1 : v - EPOCH0);
}

// mutex primitives in the simulation ------------------------------------------------------------------------------
void sim_lock(void* m, bool recursive) {
    Thread* me = self_;
    MEnt* e = ment(m);
    if (recursive && e->owner == me->id) { ++e->count; return; }
    while (e->owner != -1 || e->readers != 0) {
        if (e->owner == me->id) { vp::log("{\"e\":\"self_deadlock\"}"); vp::end_run("deadlock"); }
        me->state = MUTEX; me->addr = m;
        in_rt = 1; block(); in_rt = 0;
        me->state = RUN;
    }
    e->owner = me->id; e->count = 1;
}
void sim_unlock(void* m) {
    MEnt* e = ment(m);
    if (--e->count <= 0) { e->owner = -1; e->count = 0; }
}

int cond_wait_common(void* c, void* m, uint64_t deadline) {
    Thread* me = self_;
    sched_point(K_SYS, c);
    MEnt* e = ment(m);
    e->owner = -1; e->count = 0;
    me->state = COND; me->addr = c; me->mtx = m; me->deadline = deadline; me->timed_out = false;
    in_rt = 1;
    block();
    bool to = false;
    if (me->state == COND) to = true;  // chosen because the deadline passed
    me->deadline = 0;
    me->state = RUN;
    in_rt = 0;
    sim_lock(m, false);
    return to ? ETIMEDOUT : 0;
}
}  // namespace

// -------------------------------------------------------------------------------------------------------------------
namespace vp {
int (*poll_hook)(struct pollfd*, nfds_t) = real_poll0;

void fd_event() { ++fdepoch; }
bool active() { return sim_active && self_ != nullptr; }
Hold::Hold() { ++in_rt; }
Hold::~Hold() { --in_rt; }
int tid() { return self_ ? self_->id : -1; }
uint64_t now() { return vtime; }
uint64_t steps() { return nsteps; }
uint32_t rnd(uint32_t n) { return scen_rng.below(n); }
int inherited() { return self_ ? self_->inherited : 0; }
void set_inherited(int v) { if (self_) self_->inherited = v; }

void log(const char* fmt, ...) {
    if (tbuf == nullptr) return;
    va_list ap; va_start(ap, fmt);
    size_t l = *tlen;
    if (l + 512 < tcap) {
        if (l > 0) tbuf[l++] = ',';
        int k = vsnprintf(tbuf + l, tcap - l - 1, fmt, ap);
        if (k > 0 && l + size_t(k) < tcap - 1) l += size_t(k);
        *tlen = l;
    }
    va_end(ap);
}

void end_run(const char* why) {
    log("{\"e\":\"%s\"}", why);
    _exit(strcmp(why, "deadlock") == 0 ? 101 : strcmp(why, "hang") == 0 ? 102 : 0);
}

void start(const Opts& opts, char* buf, size_t cap, size_t* len) {
    O = opts; tbuf = buf; tcap = cap; tlen = len; *len = 0;
    sched_rng.seed(opts.seed);
    scen_rng.seed(opts.seed ^ 0xABCDEF12345ULL);
    changepts = new std::vector<uint64_t>();
    mode = sched_rng.below(5) < 2 ? 0 : 1;
    static const uint32_t HI[] = {2, 3, 6, 16}; static const uint32_t LO[] = {4, 32, 200};
    inv_hi = HI[sched_rng.below(4)]; inv_lo = LO[sched_rng.below(3)];
    static const uint32_t PL[] = {0, 0, 0, 60, 400, 4000};
    inv_plain = opts.plain ? PL[sched_rng.below(6)] : 0;
    inv_jit = opts.time_jitter && sched_rng.chance(2) ? 40 : 0;
    inv_spur = opts.allow_spurious && sched_rng.chance(3) ? 60 : 0;
    if (mode == 1) {
        static const uint32_t D[] = {0, 1, 2, 3, 4, 6, 10, 20}; static const uint32_t K[] = {50, 200, 600, 2000};
        uint32_t d = D[sched_rng.below(8)], k = K[sched_rng.below(4)];
        for (uint32_t i = 0; i < d; ++i) changepts->push_back(1 + sched_rng.below(k));
        for (size_t i = 0; i < changepts->size(); ++i) for (size_t j = i + 1; j < changepts->size(); ++j) if ((*changepts)[j] < (*changepts)[i]) std::swap((*changepts)[i], (*changepts)[j]);
    }
    if (O.calm) { mode = 0; inv_plain = inv_jit = inv_spur = 0; }
    Thread* t = new Thread(); t->id = 0; t->pt = pthread_self(); t->prio = (1ULL << 41) + sched_rng.next() % 100000;
    threads[0] = t; nthreads = 1; self_ = t; sim_active = true;
}

bool quiesce() {
    if (!sim()) return true;
    in_rt = 1;
    self_->state = QUIESCE;
    block();
    self_->state = RUN;
    if (mode == 1 && !fair_mode && !O.calm && sched_rng.chance(2)) {
        // preemptions close to what is going to happen next
        static const uint32_t K[] = {15, 50, 150, 500};
        uint32_t d = 1 + sched_rng.below(4), k = K[sched_rng.below(4)];
        std::vector<uint64_t> v(changepts->begin() + long(next_cp), changepts->end());
        for (uint32_t i = 0; i < d; ++i) v.push_back(csteps + 1 + sched_rng.below(k));
        std::sort(v.begin(), v.end());
        *changepts = v; next_cp = 0;
    }
    in_rt = 0;
    return !self_->quiet_timer;
}
void yield() { sched_point(K_YIELD, nullptr); }
void sleep_ns(uint64_t ns) {
    in_rt = 1;
    self_->state = SLEEP; self_->deadline = vtime + (ns ? ns : 1);
    block();
    self_->state = RUN; self_->deadline = 0;
    in_rt = 0;
}
bool block_until(const std::function<bool()>& pred, uint64_t deadline) {
    in_rt = 1;
    self_->state = PRED; self_->pred = &pred; self_->deadline = deadline;
    block();
    self_->state = RUN; self_->pred = nullptr; self_->deadline = 0;
    in_rt = 0;
    return pred();
}

// ---- many runs ----------------------------------------------------------------------------------------------------
int run_many(int n, int jobs, const char* out, unsigned timeout_s,
             const std::function<void(int, char*, size_t, size_t*)>& body) {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (jobs > n) jobs = n > 0 ? n : 1;
    std::vector<pid_t> ws;
    for (int w = 0; w < jobs; ++w) {
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            const size_t CAP = 8u << 20;
            char* buf = (char*) mmap(nullptr, CAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            size_t* len = (size_t*) (buf + CAP);
            std::string part = std::string(out) + "." + std::to_string(w);
            FILE* f = fopen(part.c_str(), "w");
            int bad = 0;
            for (int i = w; i < n; i += jobs) {
                *len = 0;
                fflush(f);
                pid_t c = fork();
                if (c == 0) {
                    if (getenv("VP_DEBUG") == nullptr) {
                        int dn = open("/dev/null", O_WRONLY);
                        dup2(dn, 2); dup2(dn, 1);
                    }
                    struct itimerval it{};
                    it.it_value.tv_sec = timeout_s;
                    signal(SIGALRM, SIG_DFL);
                    setitimer(ITIMER_REAL, &it, nullptr);
                    if (getenv("VP_BT") != nullptr) {
                        for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGALRM}) signal(sg, [](int n) {
                            signal(n, SIG_DFL); in_rt = 1;
                            void* fr[64]; int k = backtrace(fr, 64); backtrace_symbols_fd(fr, k, 2); raise(n);
                        });
                    }
                    body(i, buf, CAP, len);
                    _exit(0);
                }
                int st = 0;
                waitpid(c, &st, 0);
                std::string end = "ok";
                if (WIFSIGNALED(st)) end = WTERMSIG(st) == SIGALRM ? "timeout" : "crash:" + std::to_string(WTERMSIG(st));
                else if (WEXITSTATUS(st) == 101) end = "deadlock";
                else if (WEXITSTATUS(st) == 102) end = "hang";
                else if (WEXITSTATUS(st) != 0) end = "exit:" + std::to_string(WEXITSTATUS(st));
                if (end != "ok") ++bad;
                fprintf(f, "{\"i\":%d,\"end\":\"%s\",\"ev\":[", i, end.c_str());
                fwrite(buf, 1, *len, f);
                fprintf(f, "]}\n");
            }
            fclose(f);
            _exit(0);
        }
        ws.push_back(p);
    }
    int rc = 0;
    for (pid_t p : ws) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) rc = 2; }
    FILE* o = fopen(out, "w");
    std::vector<FILE*> fs;
    for (int w = 0; w < jobs; ++w) fs.push_back(fopen((std::string(out) + "." + std::to_string(w)).c_str(), "r"));
    char* line = nullptr; size_t lc = 0;
    for (int i = 0; i < n; ++i) {
        FILE* f = fs[i % jobs];
        if (f == nullptr) { rc = 2; continue; }
        ssize_t r = getline(&line, &lc, f);
        if (r <= 0) { rc = 2; continue; }
        fwrite(line, 1, size_t(r), o);
    }
    fclose(o);
    for (int w = 0; w < jobs; ++w) { if (fs[w]) fclose(fs[w]); unlink((std::string(out) + "." + std::to_string(w)).c_str()); }
    return rc;
}
}  // namespace vp

// ---- interposed pthread -----------------------------------------------------------------------------------------------
extern "C" {

static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sim()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
        if (sim_active) return 0;
        return r(m);
    }
    sched_point(K_LOCK, m);
    sim_lock(m, is_rec(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!sim()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
        if (sim_active) return 0;
        return r(m);
    }
    sched_point(K_LOCK, m);
    MEnt* e = ment(m);
    if (is_rec(m) && e->owner == self_->id) { ++e->count; return 0; }
    if (e->owner != -1) return EBUSY;
    e->owner = self_->id; e->count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!sim()) {
        static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
        if (sim_active) return 0;
        return r(m);
    }
    sim_unlock(m);
    sched_point(K_UNLOCK, m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!sim()) return 0;
    sched_point(K_LOCK, m);
    MEnt* e = ment(m);
    while (e->owner != -1) { self_->state = RWR; self_->addr = m; in_rt = 1; block(); in_rt = 0; self_->state = RUN; }
    ++e->readers;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!sim()) return 0;
    sched_point(K_LOCK, m);
    MEnt* e = ment(m);
    while (e->owner != -1 || e->readers) { self_->state = RWW; self_->addr = m; in_rt = 1; block(); in_rt = 0; self_->state = RUN; }
    e->owner = self_->id; e->count = 1;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!sim()) return 0;
    sched_point(K_LOCK, m);
    MEnt* e = ment(m);
    if (e->owner != -1) return EBUSY;
    ++e->readers;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if (!sim()) return 0;
    sched_point(K_LOCK, m);
    MEnt* e = ment(m);
    if (e->owner != -1 || e->readers) return EBUSY;
    e->owner = self_->id; e->count = 1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!sim()) return 0;
    MEnt* e = ment(m);
    if (e->owner == self_->id) { e->owner = -1; e->count = 0; }
    else if (e->readers > 0) --e->readers;
    sched_point(K_UNLOCK, m);
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!sim()) abort();
    return cond_wait_common(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!sim()) abort();
    return cond_wait_common(c, m, abs_ns(ts, true));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!sim()) abort();
    return cond_wait_common(c, m, abs_ns(ts, clk == CLOCK_REALTIME));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!sim()) return 0;
    sched_point(K_SYS, c);
    int cand[MAXT], n = 0;
    for (int i = 0; i < nthreads; ++i) if (threads[i]->state == COND && threads[i]->addr == c) cand[n++] = i;
    if (n > 0) {
        Thread* t = threads[cand[sched_rng.below(n)]];
        t->state = MUTEX; t->addr = t->mtx;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!sim()) return 0;
    sched_point(K_SYS, c);
    for (int i = 0; i < nthreads; ++i) {
        Thread* t = threads[i];
        if (t->state == COND && t->addr == c) { t->state = MUTEX; t->addr = t->mtx; }
    }
    return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

static void* tramp(void* p) {
    Thread* t = (Thread*) p;
    self_ = t;
    in_rt = 1;
    fwait(&t->futex);
    in_rt = 0;
    void* r = t->fn(t->arg);
    in_rt = 1;
    t->state = DONE;
    Thread* n = pick(nullptr, false);
    self_ = nullptr;
    fwake(&n->futex);
    return r;
}

int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*)>("pthread_create");
    if (!sim()) return r(pt, a, fn, arg);
    sched_point(K_SYS, nullptr);
    if (nthreads >= MAXT) { vp::end_run("too_many_threads"); }
    Thread* t = new Thread();
    t->id = nthreads; t->fn = fn; t->arg = arg; t->state = RUN; t->inherited = self_->inherited;
    t->prio = (1ULL << 41) + sched_rng.next() % 100000;
    in_rt = 1;
    int rc = r(&t->pt, a, tramp, t);
    in_rt = 0;
    if (rc != 0) { vp::end_run("pthread_create_failed"); }
    *pt = t->pt;
    threads[nthreads++] = t;
    sched_point(K_SYS, nullptr);
    return 0;
}
int pthread_join(pthread_t pt, void** ret) {
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!sim()) return r(pt, ret);
    sched_point(K_SYS, nullptr);
    for (int i = 0; i < nthreads; ++i) {
        if (threads[i]->id != self_->id && pthread_equal(threads[i]->pt, pt) && threads[i]->join_id != -2) {
            if (threads[i]->state != DONE) {
                self_->state = JOIN; self_->join_id = i;
                in_rt = 1; block(); in_rt = 0;
                self_->state = RUN;
            }
            threads[i]->join_id = -2;
            threads[i]->pt = pthread_t{};
            self_->join_id = -1;
            return r(pt, ret);
        }
    }
    return EDEADLK;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
int pthread_setname_np(pthread_t, const char*) { return 0; }
int sched_yield(void) {
    if (sim()) sched_point(K_YIELD, nullptr);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (__atomic_load_n((int*) o, __ATOMIC_ACQUIRE) == 2) return 0;
    if (*(int*) o == 0) { *(int*) o = 1; fn(); *(int*) o = 2; return 0; }
    while (*(int*) o != 2) vp::yield();
    return 0;
}

// static-local guards
int __cxa_guard_acquire(long long* g) {
    volatile char* b = (volatile char*) g;
    if (b[0]) return 0;
    if (sim()) {
        while (b[1]) {
            self_->state = GUARD; self_->addr = g;
            in_rt = 1; block(); in_rt = 0;
            self_->state = RUN;
            if (b[0]) return 0;
        }
        if (b[0]) return 0;
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) { volatile char* b = (volatile char*) g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long long* g) { volatile char* b = (volatile char*) g; b[1] = 0; }

// ---- time ----------------------------------------------------------------------------------------------------------
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!(sim_active && self_ != nullptr) || c == CLOCK_THREAD_CPUTIME_ID || c == CLOCK_PROCESS_CPUTIME_ID)
        return (int) syscall(SYS_clock_gettime, c, ts);
    if (!in_rt) vtime += 100;
    uint64_t v = EPOCH0 + vtime;
    ts->tv_sec = v / 1000000000ULL; ts->tv_nsec = v % 1000000000ULL;
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!sim()) return (int) syscall(SYS_nanosleep, ts, rem);
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) { errno = EINVAL; return -1; }
    vp::sleep_ns(uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
    if (!sim()) return (int) syscall(SYS_clock_nanosleep, c, flags, ts, rem);
    if (flags & TIMER_ABSTIME) {
        uint64_t d = abs_ns(ts, true);
        if (d > vtime) vp::sleep_ns(d - vtime);
    }
    else vp::sleep_ns(uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec));
    return 0;
}
int usleep(useconds_t us) {
    if (!sim()) { struct timespec ts{us / 1000000, long(us % 1000000) * 1000}; return (int) syscall(SYS_nanosleep, &ts, nullptr); }
    vp::sleep_ns(uint64_t(us) * 1000ULL);
    return 0;
}

// ---- poll -----------------------------------------------------------------------------------------------------------
int poll(struct pollfd* fds, nfds_t n, int timeout) {
    if (!sim()) {
        if (timeout < 0) return (int) syscall(SYS_ppoll, fds, n, nullptr, nullptr, 8);
        struct timespec ts{timeout / 1000, long(timeout % 1000) * 1000000};
        return (int) syscall(SYS_ppoll, fds, n, &ts, nullptr, 8);
    }
    sched_point(K_SYS, nullptr);
    in_rt = 1;
    int r = vp::poll_hook(fds, n);
    if (r == 0 && timeout != 0) {
        Thread* me = self_;
        me->state = POLL; me->fds = fds; me->nfds = n; me->poll_epoch = fdepoch; me->poll_ready = false;
        me->deadline = timeout < 0 ? 0 : vtime + uint64_t(timeout) * 1000000ULL;
        block();
        me->state = RUN; me->deadline = 0;
        r = vp::poll_hook(fds, n);
    }
    in_rt = 0;
    return r;
}

#define FDCALL(ret, name, sig, sysno, ...)             \
    ret name sig {                                     \
        if (sim()) { sched_point(K_SYS, nullptr); }    \
        ret r = (ret) syscall(sysno, __VA_ARGS__);     \
        if (sim_active) ++fdepoch;                     \
        return r;                                      \
    }
FDCALL(ssize_t, write, (int fd, const void* b, size_t n), SYS_write, fd, b, n)
FDCALL(ssize_t, read, (int fd, void* b, size_t n), SYS_read, fd, b, n)
int __attribute__((weak)) close(int fd) {
    if (sim()) sched_point(K_SYS, nullptr);
    int r = (int) syscall(SYS_close, fd);
    if (sim_active) ++fdepoch;
    return r;
}

// ---- tsan interface ---------------------------------------------------------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
static inline void plain(void* a) {
    if (inv_plain == 0 || !sim_active || self_ == nullptr || in_rt) return;
    // the schedule is only perturbed at memory that is not on the current stack
    char here;
    size_t d = size_t(&here) > size_t(a) ? size_t(&here) - size_t(a) : size_t(a) - size_t(&here);
    if (d < (1u << 20)) return;
    sched_point(K_PLAIN, a);
}
#define RW(n) \
    void __tsan_read##n(void* a) { plain(a); } \
    void __tsan_write##n(void* a) { plain(a); } \
    void __tsan_unaligned_read##n(void* a) { plain(a); } \
    void __tsan_unaligned_write##n(void* a) { plain(a); } \
    void __tsan_volatile_read##n(void* a) { plain(a); } \
    void __tsan_volatile_write##n(void* a) { plain(a); } \
    void __tsan_read_write##n(void* a) { plain(a); } \
    void __tsan_unaligned_read_write##n(void* a) { plain(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t) { plain(a); }
void __tsan_write_range(void* a, size_t) { plain(a); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
typedef unsigned __int128 a128;
#define AT(n) \
    a##n __tsan_atomic##n##_load(const volatile a##n* a, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); __atomic_store_n(a, v, 5); } \
    a##n __tsan_atomic##n##_exchange(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_exchange_n(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_add(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_add(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_sub(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_sub(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_and(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_and(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_or(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_or(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_xor(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_xor(a, v, 5); } \
    a##n __tsan_atomic##n##_fetch_nand(volatile a##n* a, a##n v, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_fetch_nand(a, v, 5); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile a##n* a, a##n* e, a##n v, int, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile a##n* a, a##n* e, a##n v, int, int) { sched_point(K_ATOMIC, (void*) a); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    a##n __tsan_atomic##n##_compare_exchange_val(volatile a##n* a, a##n e, a##n v, int, int) { sched_point(K_ATOMIC, (void*) a); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---- memory: freed blocks are scrambled and quarantined so that a use after free shows ----------------------------------
namespace {
struct Q { void* p; size_t n; };
Q qring[8192];
unsigned qpos = 0;
int qlock = 0;
}
// While vp::guard is set, heap allocations end at an inaccessible page, so that going beyond them crashes
namespace vp { std::atomic<int> guard{0}; }
namespace {
constexpr uintptr_t GBASE = 0x100000000000ULL, GSIZE = 0x4000000000ULL;
std::atomic<uintptr_t> gnext{GBASE};
void* guarded(size_t n) {
    size_t pages = (n + 4095) / 4096 * 4096;
    if (pages == 0) pages = 4096;
    uintptr_t a = gnext.fetch_add(pages + 4096);
    if (a + pages + 4096 > GBASE + GSIZE) abort();
    if (mmap((void*) a, pages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) abort();
    return (void*) (a + pages - n);
}
}
void* operator new(size_t n) {
    void* p = vp::guard.load(std::memory_order_relaxed) ? guarded(n) : malloc(n ? n : 1);
    if (p == nullptr) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
static void qfree(void* p) noexcept {
    if (p == nullptr) return;
    if ((uintptr_t) p >= GBASE && (uintptr_t) p < GBASE + GSIZE) { munmap((void*) ((uintptr_t) p & ~4095ULL), 4096); return; }
    size_t n = malloc_usable_size(p);
    // freed again while it is in the ring
    uint64_t first = 0;
    memcpy(&first, p, 8);
    if (first == 0xDBDBDBDBDBDBDBDBULL) for (auto& q : qring) if (q.p == p) abort();
    memset(p, 0xDB, n);
    while (__atomic_exchange_n(&qlock, 1, __ATOMIC_ACQUIRE)) {}
    Q old = qring[qpos & 8191];
    qring[qpos & 8191] = Q{p, n};
    ++qpos;
    __atomic_store_n(&qlock, 0, __ATOMIC_RELEASE);
    if (old.p) { memset(old.p, 0, 8); free(old.p); }
}
void operator delete(void* p) noexcept { qfree(p); }
void operator delete[](void* p) noexcept { qfree(p); }
void operator delete(void* p, size_t) noexcept { qfree(p); }
void operator delete[](void* p, size_t) noexcept { qfree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { qfree(p); }
