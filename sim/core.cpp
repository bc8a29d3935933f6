// Simulator core: scheduler, simulated clock, pthread/futex/socket/epoll replacement.
#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <queue>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>
#include <utility>

namespace sim {

const char* fault_names[] = {
#define X(n) #n,
    FAULT_LIST(X)
#undef X
        nullptr
};
const char* probe_names[] = {
#define X(n) #n,
    PROBE_LIST(X)
#undef X
        nullptr
};

Shared* sh = nullptr;
Config cfg;
char target[16];
__thread int inlib = 0;
u32 memLeft = 0;

static inline long rawsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static inline long sysret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ---------------------------------------------------------------- threads ----
enum { RUN, BLK, DONE };
struct Thr {
    int id = 0;
    pthread_t real {};
    volatile int baton = 0;
    int st = RUN;
    const void* obj = nullptr;
    const char* why = "";
    u64 deadline = NEVER;
    bool timedout = false;
    bool joined = false, detached = false, lib = false, reaped = false;
    bool idleWaiter = false;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    u64 jump = 0;
    int prio = 0;
    int inlib0 = 0;
    volatile int arrived = 0;
    long tid = 0;
};
static Thr thr[MAXT];
static int nthr = 0;
static __thread Thr* me = nullptr;
static bool active = false;
static bool inEvent = false;
static int noSw = 0;
static u64 nowNs = 0, progressNs = 0;
static u64 realSkew = 0;
static u64 seqCtr = 0;
static int pendingReap = -1;
static bool wantLog = false;
static u32 sinceSched = 0;
static u64 pctSeen = 0;
static std::vector<u64> pctPoints;
static int pctLow = 0;

static inline bool on() { return active && me != nullptr; }

static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);

static void futexWait(volatile int* p, int v) { rawsys(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0); }
static void futexWake(volatile int* p) { rawsys(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1); }

// ---------------------------------------------------------------- choices ----
struct Rng {
    u64 s[2];
    u64 next()
    {
        u64 a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    void seed(u64 x)
    {
        for (int i = 0; i < 2; ++i) {
            x += 0x9e3779b97f4a7c15ull;
            u64 z = x;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            s[i] = z ^ (z >> 31);
        }
    }
};
static Rng rng[NSTREAM];
static const Replay* rep = nullptr;

static void mix(u64& h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

u32 draw(int st, u32 n, double p)
{
    if (n <= 1)
        return 0;
    u32 v = 0;
    u32 i = sh->n[st];
    if (rep) {
        if (st == ST_S)
            v = i < rep->S.size() ? rep->S[i] : 0;
        else
            v = i < rep->F.size() ? rep->F[i] : 0;
        v %= n;
    } else if (p >= 1.0 || (p > 0 && rng[st].unit() < p))
        v = 1 + rng[st].next() % (n - 1);
    if (st == ST_S) {
        if (i < CAP_S)
            sh->S[i] = (uint8_t)v, sh->n[st]++;
    } else {
        if (i < CAP_F)
            sh->F[i] = (uint16_t)v, sh->n[st]++;
    }
    return v;
}
u32 drawU(u32 n) { return draw(ST_F, n, (double)(n - 1) / n); }
bool chance(double p, int f)
{
    if (p <= 0)
        return false;
    bool r = draw(ST_F, 2, p);
    if (r)
        fault(f);
    return r;
}
void fault(int f, u32 k) { sh->faults[f] += k; }
void probe(int p) { sh->probes[p]++; }
u64 now() { return nowNs; }
void progress() { sh->progress = sh->steps; progressNs = nowNs; }
u64 waited() { return nowNs - sh->steps * cfg.stepCost; }
u64 seqno() { return ++seqCtr; }
int self() { return me ? me->id : -1; }
u64 selfJump() { return me ? me->jump : 0; }
void noSwitch(bool o) { noSw += o ? 1 : -1; }

static void drawGap()
{
    u32 i = sh->n[ST_M];
    u32 g = 0;
    if (rep)
        g = i < rep->M.size() ? rep->M[i] : 0;
    else if (cfg.memGap) {
        double u = rng[ST_M].unit();
        g = 1 + (u32)(-log(1.0 - u) * cfg.memGap);
        if (g > 0x7fffffff)
            g = 0x7fffffff;
    }
    if (i < CAP_M)
        sh->M[i] = g, sh->n[ST_M]++;
    else
        g = 0;
    memLeft = g; // 0: the countdown wraps, effectively never
}

// -------------------------------------------------------------------- log ----
void logev(const char* fmt, ...)
{
    char b[512];
    int o = snprintf(b, sizeof b, "%llu t%d ", (unsigned long long)nowNs / 1000, me ? me->id : -1);
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b + o, sizeof b - o, fmt, ap);
    va_end(ap);
    int len = std::min<int>(sizeof b - 2, o + n);
    for (int i = 0; i < len; ++i)
        mix(sh->hash, (unsigned char)b[i]);
    sh->events++;
    if (wantLog) {
        b[len++] = '\n';
        if (sh->logLen + len > sizeof sh->log) { // keep the tail
            u32 half = sizeof(sh->log) / 2;
            memmove(sh->log, sh->log + (sh->logLen - half), half);
            sh->logLen = half;
        }
        memcpy(sh->log + sh->logLen, b, len);
        sh->logLen += len;
    }
}

void finishRun(int code)
{
    sh->simtime = nowNs;
    rawsys(SYS_exit_group, code);
    __builtin_unreachable();
}

bool tagsInclude(const char* tags, const char* id)
{
    if (!strcmp(id, "ALL") || strstr(tags, "ANY"))
        return true;
    return strstr(tags, id) != nullptr;
}

void violation(const char* tags, const char* cls, const char* fmt, ...)
{
    char m[1100];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    logev("VIOLATION[%s] %s: %s", tags, cls, m);
    if (!tagsInclude(tags, target)) {
        if (!sh->nviol++) {
            snprintf(sh->other.cls, sizeof sh->other.cls, "%s", cls);
            snprintf(sh->other.tags, sizeof sh->other.tags, "%s", tags);
            snprintf(sh->other.msg, sizeof sh->other.msg, "%s", m);
        }
        return;
    }
    if (sh->finished == 2)
        return;
    snprintf(sh->v.cls, sizeof sh->v.cls, "%s", cls);
    snprintf(sh->v.tags, sizeof sh->v.tags, "%s", tags);
    snprintf(sh->v.msg, sizeof sh->v.msg, "%s", m);
    sh->finished = 2;
    finishRun(66);
}

std::string describeThreads()
{
    std::string r;
    for (int i = 0; i < nthr; ++i) {
        char b[160];
        snprintf(b, sizeof b, "%sthread %d%s %s%s%s", i ? "; " : "", i, thr[i].lib ? " (library)" : "", thr[i].st == RUN ? "runnable" : thr[i].st == BLK ? "blocked in " : "done",
            thr[i].st == BLK ? thr[i].why : "", thr[i].st == BLK && thr[i].deadline != NEVER ? " (timed)" : "");
        r += b;
    }
    return r;
}

// ----------------------------------------------------------------- events ----
struct Ev {
    u64 t, seq;
    std::function<void()> fn;
};
struct EvCmp {
    bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
};
static std::vector<Ev>* evq;
static u64 evSeq = 0;
void at(u64 when, std::function<void()> fn)
{
    if (when < nowNs)
        when = nowNs;
    evq->push_back(Ev { when, ++evSeq, std::move(fn) });
    std::push_heap(evq->begin(), evq->end(), EvCmp());
}
bool pendingEvents() { return !evq->empty(); }
static void runDue()
{
    if (inEvent)
        return;
    while (!evq->empty() && evq->front().t <= nowNs) {
        std::pop_heap(evq->begin(), evq->end(), EvCmp());
        Ev e = std::move(evq->back());
        evq->pop_back();
        inEvent = true;
        int s = inlib;
        inlib = 0;
        e.fn();
        inlib = s;
        inEvent = false;
    }
}

// -------------------------------------------------------------- scheduler ----
// wait until a finished thread has really left the process, so that its exit
// code (allocator caches, stack caches) never overlaps with another thread
static void reap()
{
    int r = pendingReap;
    if (r >= 0) {
        pendingReap = -1;
        long pid = rawsys(SYS_getpid);
        while (rawsys(SYS_tgkill, pid, thr[r].tid, 0) == 0)
            rawsys(SYS_sched_yield);
        thr[r].reaped = true;
        if (thr[r].detached)
            real_join(thr[r].real, nullptr);
    }
}
static void handOver(Thr* t, bool dying)
{
    Thr* m = me;
    sh->switches++;
    mix(sh->schedHash, (u64)t->id * 131 + (u64)(m->st == RUN));
    m->baton = 0;
    t->baton = 1;
    futexWake(&t->baton);
    if (dying)
        return;
    while (m->baton == 0)
        futexWait(&m->baton, 0);
    reap();
}
static int collect(int* out)
{
    int n = 0;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st == RUN)
            out[n++] = i;
    return n;
}
static void wakeThr(Thr* t, bool timeout)
{
    t->st = RUN;
    t->timedout = timeout;
    t->obj = nullptr;
    t->deadline = NEVER;
}
static void expireDeadlines()
{
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st == BLK && thr[i].deadline <= nowNs)
            wakeThr(&thr[i], true);
}
static void advanceTo(u64 t)
{
    u64 d = t - nowNs;
    for (int i = 0; i < nthr; ++i)
        thr[i].jump += d;
    nowNs = t;
}
// find a runnable thread other than the current one can be chosen; advances time when idle
static Thr* choose(bool selfRunnable, bool force, bool dying)
{
    for (;;) {
        runDue();
        expireDeadlines();
        int r[MAXT], n = collect(r);
        if (n == 0) {
            u64 t = evq->empty() ? NEVER : evq->front().t;
            bool otherDeadline = false;
            u64 idleDl = NEVER;
            Thr* idle = nullptr;
            for (int i = 0; i < nthr; ++i)
                if (thr[i].st == BLK) {
                    if (thr[i].idleWaiter)
                        idle = &thr[i], idleDl = thr[i].deadline;
                    else if (thr[i].deadline != NEVER) {
                        // the library's event loop wakes up every five minutes to do nothing
                        if (strcmp(thr[i].why, "epoll_wait") || thr[i].deadline < nowNs + 60 * SEC)
                            otherDeadline = true;
                        t = std::min(t, thr[i].deadline);
                    }
                }
            if (idle && evq->empty() && !otherDeadline) {
                wakeThr(idle, false);
                continue;
            }
            if (idle)
                t = std::min(t, idleDl);
            if (t == NEVER) {
                inlib = 0;
                violation("ANY", "deadlock", "nothing can run any more: %s", describeThreads().c_str());
                finishRun(67);
            }
            if (t > nowNs)
                advanceTo(t);
            continue;
        }
        int cur = selfRunnable ? me->id : -1;
        if (rep || cfg.mode == 0) {
            // choice 0 = stay (or lowest-numbered successor of the current thread)
            int order[MAXT], k = 0;
            if (cur >= 0)
                order[k++] = cur;
            int base = me->id;
            for (int d = 1; d <= MAXT; ++d) {
                int id = (base + d) % MAXT;
                for (int j = 0; j < n; ++j)
                    if (r[j] == id && id != cur)
                        order[k++] = id;
            }
            double p = force ? 1.0 : selfRunnable ? cfg.pSwitch : 0.7;
            u32 c = draw(ST_S, k, p);
            return &thr[order[c]];
        }
        // PCT: highest priority runs; change points lower the current thread
        ++pctSeen;
        for (u64 pt : pctPoints)
            if (pt == pctSeen)
                me->prio = --pctLow;
        if (force)
            me->prio = --pctLow;
        int best = r[0];
        for (int j = 1; j < n; ++j)
            if (thr[r[j]].prio > thr[best].prio)
                best = r[j];
        // record as an ordinary choice so that replay needs no strategy
        int order[MAXT], k = 0;
        if (cur >= 0)
            order[k++] = cur;
        for (int d = 1; d <= MAXT; ++d) {
            int id = (me->id + d) % MAXT;
            for (int j = 0; j < n; ++j)
                if (r[j] == id && id != cur)
                    order[k++] = id;
        }
        u32 c = 0;
        for (int j = 0; j < k; ++j)
            if (order[j] == best)
                c = j;
        if (k > 1) {
            u32 i = sh->n[ST_S];
            if (i < CAP_S)
                sh->S[i] = (uint8_t)c, sh->n[ST_S]++;
        }
        return &thr[best];
    }
}
static void countStep()
{
    nowNs += cfg.stepCost;
    if (++sh->steps - sh->progress > cfg.maxSteps) {
        inlib = 0;
        violation("ANY", "livelock", "%llu steps without a byte transferred or a message dispatched: %s", (unsigned long long)cfg.maxSteps, describeThreads().c_str());
        finishRun(68);
    }
    if (sh->steps > cfg.allSteps) { // too long to be worth while: say nothing about this run
        inlib = 0;
        logev("abandoned");
        sh->stepcap = 1;
        sh->finished = 1;
        finishRun(0);
    }
}
static void spuriousWake();
static void point(bool force)
{
    if (!on() || inEvent || noSw)
        return;
    OutLib ol; // inline functions may be shared with the instrumented library
    sinceSched = 0;
    countStep();
    if (cfg.pSpurious > 0)
        spuriousWake();
    if (cfg.pStop > 0 && chance(cfg.pStop, F_process_stop)) { // the whole process is stopped for a while
        cfg.pStop = 0;
        nowNs += (1 + drawU(10)) * SEC;
    }
    Thr* t = choose(true, force, false);
    if (t != me) {
        sh->faults[F_sync_preempt]++;
        handOver(t, false);
    }
}
void yieldPoint() { point(true); }
// block the current thread until woken; returns false on timeout
static bool block(const void* obj, const char* why, u64 deadline)
{
    OutLib ol;
    if (inEvent) {
        inlib = 0;
        violation("ANY", "harness-block", "blocking call inside a simulated event (%s)", why);
        finishRun(69);
    }
    Thr* m = me;
    m->obj = obj;
    m->why = why;
    m->deadline = deadline;
    m->timedout = false;
    m->st = BLK;
    sinceSched = 0;
    countStep();
    Thr* t = choose(false, false, false);
    if (t != m)
        handOver(t, false);
    return !m->timedout;
}
static int wakeObj(const void* obj, int max)
{
    int n = 0;
    for (int i = 0; i < nthr && n < max; ++i)
        if (thr[i].st == BLK && thr[i].obj == obj) {
            wakeThr(&thr[i], false);
            ++n;
        }
    return n;
}
void sleepFor(u64 ns)
{
    static char sleepObj;
    block(&sleepObj, "sleep", nowNs + ns);
}
bool waitOn(void* obj, u64 deadline)
{
    bool r = block(obj, "harness wait", deadline);
    vcAcquireObj(obj);
    return r;
}
void wakeAll(void* obj)
{
    vcReleaseObj(obj);
    wakeObj(obj, MAXT);
}
bool waitIdle(u64 maxNs)
{
    static char idleObj;
    me->idleWaiter = true;
    bool r = block(&idleObj, "idle wait", nowNs + maxNs);
    while (!r && nowNs - progressNs < 60 * SEC) // slow, but not stuck
        r = block(&idleObj, "idle wait", nowNs + maxNs);
    me->idleWaiter = false;
    return r;
}
int liveThreads()
{
    int n = 0;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st != DONE && &thr[i] != me)
            ++n;
    return n;
}
int libThreads()
{
    int n = 0;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st != DONE && thr[i].lib)
            ++n;
    return n;
}

// called by the memory hooks when the countdown reaches zero
void memCountdown()
{
    if (!on() || inEvent || noSw || !inlib) {
        memLeft = 1;
        return;
    }
    drawGap();
    sh->faults[F_mem_preempt]++;
    point(true);
}
void onBudget() // too many hooks without a scheduling point
{
    inlib = 0;
    violation("ANY", "hang", "library code runs without end (no synchronisation, system call or return for a very long time)");
    finishRun(70);
}

// thread lifecycle
static pthread_key_t endKey;
static __thread int endIter = 0;
static void threadEnd()
{
    OutLib ol;
    Thr* m = me;
    m->st = DONE;
    vcReleaseObj(m);
    wakeObj(m, MAXT);
    sinceSched = 0;
    countStep();
    // choose a successor; the dying thread must not run events needing itself
    Thr* t = choose(false, false, true);
    pendingReap = m->id;
    me = nullptr;
    Thr* save = m;
    sh->switches++;
    mix(sh->schedHash, (u64)t->id * 131 + 77);
    save->baton = 0;
    t->baton = 1;
    futexWake(&t->baton);
}
static void keyDtor(void*)
{
    if (++endIter < 3) { // let the library's own thread-specific destructors run first
        pthread_setspecific(endKey, (void*)1);
        return;
    }
    threadEnd();
}
static void* tramp(void* p)
{
    Thr* t = (Thr*)p;
    t->tid = rawsys(SYS_gettid);
    t->arrived = 1;
    futexWake(&t->arrived);
    while (t->baton == 0)
        futexWait(&t->baton, 0);
    me = t;
    inlib = t->inlib0;
    reap();
    vcAcquireObj(t);
    pthread_setspecific(endKey, (void*)1);
    t->ret = t->fn(t->arg);
    return t->ret;
}

void start(u64 seed, const Replay* rp, const char* tgt, bool wl)
{
    wantLog = wl;
    rep = rp;
    snprintf(target, sizeof target, "%s", tgt);
    for (int i = 0; i < NSTREAM; ++i)
        rng[i].seed(seed * 7919 + 1000003 * (i + 1));
    evq = new std::vector<Ev>();
    pthread_key_create(&endKey, keyDtor);
    nthr = 1;
    me = &thr[0];
    me->id = 0;
    me->st = RUN;
    me->baton = 1;
    me->prio = 1000 + (rp ? 0 : (int)(rng[ST_S].next() % 1000));
    nowNs = 1000 * SEC;
    if (!rp && cfg.mode == 1)
        for (int i = 0; i < cfg.pctDepth; ++i)
            pctPoints.push_back(1 + rng[ST_S].next() % std::max(1u, cfg.pctSteps));
    vcInit();
    active = true;
    drawGap();
}

// -------------------------------------------------------------------- fds ----
enum { FD_SOCK, FD_EPOLL, FD_EVENT };
struct EpItem {
    int fd;
    u32 events;
    u64 data;
    bool inReady;
};
struct FD {
    int type;
    Sock* s = nullptr;
    // epoll
    std::map<int, EpItem> items;
    std::deque<int> ready;
    // eventfd
    u64 counter = 0;
    bool nb = true;
};
struct Sock {
    int fd = -1;
    bool nb = false, connected = false, shutR = false, shutW = false, closed = false;
    Peer* peer = nullptr;
    std::string rx;
    bool rxEof = false;
    int err = 0; // pending error for recv
    std::string tx;
    bool drainScheduled = false;
    bool peerClosed = false;
    bool writeDead = false; // a write failed on this stream
    struct Queue { // taking from its front costs no more than what is taken
        std::string b;
        size_t off = 0;
        size_t size() const { return b.size() - off; }
        bool empty() const { return size() == 0; }
        void clear() { b.clear(), off = 0; }
        void operator+=(const std::string& x) { b += x; }
        void moveTo(std::string& d, size_t n)
        {
            d.append(b, off, n);
            off += n;
            if (off > 4096 && off * 2 > b.size())
                b.erase(0, off), off = 0;
        }
    } out; // peer -> client not yet delivered
    bool outEof = false, deliverScheduled = false;
    u64 stallR = 0, stallW = 0;
    size_t rdTotal = 0, txTotal = 0;
    bool toldClosed = false;
};
static std::map<int, FD*>* fds;
static std::map<std::string, std::function<Peer*()>>* listeners;
static int nextFd = 1000;
static std::vector<Sock*>* socks;
static u32 failUsed = 0, sysUsed = 0;

static FD* fdGet(int fd)
{
    if (!fds)
        return nullptr;
    auto it = fds->find(fd);
    return it == fds->end() ? nullptr : it->second;
}
static int fdNew(int type)
{
    if (!fds)
        fds = new std::map<int, FD*>();
    FD* f = new FD();
    f->type = type;
    int n = nextFd++;
    (*fds)[n] = f;
    return n;
}
int openFds() { return fds ? (int)fds->size() : 0; }

static bool sysFail(int f)
{
    if (cfg.pSys <= 0 || sysUsed >= cfg.sysBudget)
        return false;
    if (!draw(ST_F, 2, cfg.pSys))
        return false;
    ++sysUsed;
    fault(f);
    logev("inject %s", fault_names[f]);
    return true;
}

static u32 pollState(Sock* s)
{
    u32 e = 0;
    if (!s->connected)
        return EPOLLOUT | EPOLLHUP;
    if (!s->rx.empty() || s->rxEof || s->shutR || s->err)
        e |= EPOLLIN | EPOLLRDNORM;
    if (s->rxEof || s->shutR)
        e |= EPOLLRDHUP;
    if (s->err)
        e |= EPOLLERR;
    if ((s->peerClosed || s->shutR) && (s->shutW || s->peerClosed))
        e |= EPOLLHUP;
    if (s->tx.size() * 4 <= cfg.txCap)
        e |= EPOLLOUT | EPOLLWRNORM;
    return e;
}
static u32 fdPoll(int fd)
{
    FD* f = fdGet(fd);
    if (!f)
        return 0;
    if (f->type == FD_SOCK)
        return pollState(f->s);
    if (f->type == FD_EVENT)
        return (f->counter ? EPOLLIN : 0) | EPOLLOUT;
    return 0;
}
// state change on fd: put matching epoll items on their ready lists
static void notifyFd(int fd, u32 key)
{
    if (!fds)
        return;
    for (auto& p : *fds) {
        FD* f = p.second;
        if (f->type != FD_EPOLL)
            continue;
        auto it = f->items.find(fd);
        if (it == f->items.end())
            continue;
        if (!((it->second.events | EPOLLERR | EPOLLHUP) & key))
            continue;
        if (!it->second.inReady) {
            it->second.inReady = true;
            f->ready.push_back(fd);
        }
        wakeObj(f, MAXT);
    }
    static char pollObj;
    (void)pollObj;
    FD* f = fdGet(fd);
    if (f)
        wakeObj(f, MAXT); // threads blocked directly on the descriptor
}

// ---- peer side
static u64 netDelay()
{
    if (cfg.pDelay <= 0)
        return 1 * US;
    u32 c = draw(ST_F, 5, cfg.pDelay);
    switch (c) {
    case 0:
        return 1 * US;
    case 1:
        return cfg.delayScale / 4;
    case 2:
        return cfg.delayScale;
    case 3:
        fault(F_delayed_delivery);
        return cfg.delayScale * 10;
    default:
        fault(F_delayed_delivery);
        return cfg.delayScale * 100;
    }
}
static void scheduleDrain(Sock* s);
static void drain(Sock* s)
{
    s->drainScheduled = false;
    if (s->tx.empty()) {
        if (s->shutW && !s->toldClosed && s->peer) {
            s->toldClosed = true;
            s->peer->onClientClosed();
        }
        return;
    }
    if (s->peerClosed) {
        s->tx.clear();
        return;
    }
    if (nowNs < s->stallR) {
        if (s->stallR != NEVER) {
            s->drainScheduled = true;
            at(s->stallR, [s] { drain(s); });
        }
        return;
    }
    size_t n = s->tx.size();
    if (n > 1 && cfg.pSeg > 0) {
        u32 c = draw(ST_F, 4, cfg.pSeg);
        if (c == 1)
            n = 1;
        else if (c == 2)
            n = 1 + drawU(std::min<size_t>(n, 60));
        else if (c == 3)
            n = 1 + drawU((u32)std::min<size_t>(n, 60000));
        n = std::min(n, s->tx.size());
    }
    bool wasW = s->tx.size() * 4 <= cfg.txCap;
    std::string chunk = s->tx.substr(0, n);
    s->tx.erase(0, n);
    bool isW = s->tx.size() * 4 <= cfg.txCap;
    if (s->peer)
        s->peer->onBytes(chunk.data(), chunk.size());
    (void)wasW;
    if (isW && !s->closed) // the kernel wakes writers whenever space is freed and the socket is writable
        notifyFd(s->fd, EPOLLOUT | EPOLLWRNORM);
    scheduleDrain(s);
}
static void scheduleDrain(Sock* s)
{
    if (s->drainScheduled || (s->tx.empty() && !(s->shutW && !s->toldClosed)))
        return;
    s->drainScheduled = true;
    at(nowNs + netDelay(), [s] { drain(s); });
}
static void scheduleDeliver(Sock* s);
static void deliver(Sock* s)
{
    s->deliverScheduled = false;
    if (s->closed || s->rxEof || s->err)
        return;
    if (nowNs < s->stallW) {
        if (s->stallW != NEVER) {
            s->deliverScheduled = true;
            at(s->stallW, [s] { deliver(s); });
        }
        return;
    }
    if (s->out.empty()) {
        if (s->outEof) {
            s->rxEof = true;
            s->peerClosed = true;
            fault(F_peer_eof);
            logev("net eof fd%d", s->fd);
            notifyFd(s->fd, EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLOUT);
        }
        return;
    }
    size_t room = cfg.rxCap > s->rx.size() ? cfg.rxCap - s->rx.size() : 0;
    if (room == 0)
        return; // resumed by recv
    size_t n = std::min(room, s->out.size());
    if (n > 1 && (cfg.pSeg > 0 || cfg.byteMode)) {
        u32 c = cfg.byteMode ? draw(ST_F, 4, 0.9) : draw(ST_F, 4, cfg.pSeg);
        if (cfg.byteMode && c >= 2)
            c = 1;
        if (c == 1)
            n = 1, fault(F_byte_delivery);
        else if (c == 2)
            n = 1 + drawU((u32)std::min<size_t>(n, 40)), fault(F_segmented_delivery);
        else if (c == 3)
            n = 1 + drawU((u32)std::min<size_t>(n, 60000)), fault(F_segmented_delivery);
        n = std::min(n, std::min(room, s->out.size()));
    }
    s->out.moveTo(s->rx, n);
    if (s->peer)
        s->peer->onArrive(n);
    notifyFd(s->fd, EPOLLIN | EPOLLRDNORM);
    scheduleDeliver(s);
}
static void scheduleDeliver(Sock* s)
{
    if (s->deliverScheduled || (s->out.empty() && !s->outEof))
        return;
    s->deliverScheduled = true;
    at(nowNs + netDelay(), [s] { deliver(s); });
}
void listen(const std::string& path, std::function<Peer*()> a)
{
    if (!listeners)
        listeners = new std::map<std::string, std::function<Peer*()>>();
    (*listeners)[path] = a;
}
void peerSend(Sock* s, const std::string& b)
{
    if (s->closed || s->outEof || s->peerClosed)
        return;
    s->out += b;
    scheduleDeliver(s);
}
void peerClose(Sock* s)
{
    if (s->outEof || s->peerClosed)
        return;
    s->outEof = true;
    scheduleDeliver(s);
}
void peerReset(Sock* s)
{
    if (s->closed || s->peerClosed)
        return;
    s->out.clear();
    s->peerClosed = true;
    s->outEof = true;
    s->tx.clear();
    // data already in the receive queue stays readable; then ECONNRESET
    s->err = ECONNRESET;
    fault(F_recv_reset);
    logev("net reset fd%d", s->fd);
    notifyFd(s->fd, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
void peerStallRead(Sock* s, u64 until)
{
    s->stallR = until;
    fault(F_peer_stall_read);
    scheduleDrain(s);
}
void peerStallWrite(Sock* s, u64 until)
{
    s->stallW = until;
    fault(F_peer_stall_write);
}
void releaseStalls()
{
    if (socks)
        for (Sock* s : *socks) {
            s->stallR = s->stallW = 0;
            scheduleDrain(s);
            scheduleDeliver(s);
        }
}
size_t clientBacklog(Sock* s) { return s->tx.size(); }
size_t peerBacklog(Sock* s) { return s->out.size() + s->rx.size(); }
bool sockOpen(Sock* s) { return !s->closed; }
u64 sockTxTotal(Sock* s) { return s->txTotal; }

// ---- client side operations
static ssize_t doSend(Sock* s, const iovec* iov, size_t cnt, int flags)
{
    size_t total = 0;
    for (size_t i = 0; i < cnt; ++i)
        total += iov[i].iov_len;
    bool nb = s->nb || (flags & MSG_DONTWAIT);
    size_t done = 0;
    for (;;) {
        if (s->shutW || s->peerClosed) {
            if (done)
                return done;
            if (!s->shutW) {
                fault(F_send_epipe);
                s->writeDead = true;
            }
            errno = EPIPE;
            return -1;
        }
        if (!s->connected) {
            errno = ENOTCONN;
            return -1;
        }
        if (done == 0) {
            if (chance(cfg.pEintr, F_send_eintr)) {
                errno = EINTR;
                return -1;
            }
            if (cfg.pSendFail > 0 && failUsed < cfg.failBudget && draw(ST_F, 2, cfg.pSendFail)) {
                ++failUsed;
                u32 k = drawU(3);
                int e = k == 0 ? EPIPE : k == 1 ? ECONNRESET : ENOBUFS;
                fault(k == 0 ? F_send_epipe : k == 1 ? F_send_reset : F_send_enobufs);
                logev("inject send error %d fd%d", e, s->fd);
                s->writeDead = true;
                if (s->peer)
                    s->peer->onWriteFailed(e);
                errno = e;
                return -1;
            }
            if (nb && cfg.pSpuriousAgain > 0 && draw(ST_F, 2, cfg.pSpuriousAgain)) {
                fault(F_send_spurious_eagain);
                at(nowNs + netDelay(), [s] {
                    if (!s->closed)
                        notifyFd(s->fd, EPOLLOUT | EPOLLWRNORM);
                });
                errno = EAGAIN;
                return -1;
            }
        }
        size_t room = cfg.txCap > s->tx.size() ? cfg.txCap - s->tx.size() : 0;
        if (room == 0) {
            if (nb) {
                if (done)
                    return done;
                fault(F_send_eagain_full);
                errno = EAGAIN;
                return -1;
            }
            fault(F_send_blocked);
            FD* f = fdGet(s->fd);
            block(f, "send (socket buffer full)", NEVER);
            if (s->closed) {
                errno = EBADF;
                return -1;
            }
            continue;
        }
        size_t n = std::min(room, total - done);
        if (n > 1 && cfg.pPartial > 0) {
            u32 c = draw(ST_F, 3, cfg.pPartial);
            if (c == 1)
                n = 1 + drawU((u32)std::min<size_t>(n, 60000));
            else if (c == 2)
                n = n > 2 ? n - 1 : 1;
            n = std::min(n, std::min(room, total - done));
        }
        // append [done, done+n)
        size_t off = 0, left = n, pos = done;
        for (size_t i = 0; i < cnt && left; ++i) {
            size_t l = iov[i].iov_len;
            if (pos < off + l) {
                size_t st = pos - off, k = std::min(left, l - st);
                s->tx.append((const char*)iov[i].iov_base + st, k);
                pos += k;
                left -= k;
            }
            off += l;
        }
        done += n;
        s->txTotal += n;
        progress();
        scheduleDrain(s);
        if (done == total)
            return done;
        if (nb) {
            fault(F_partial_write);
            return done;
        }
    }
}
static ssize_t doRecv(Sock* s, const iovec* iov, size_t cnt, int flags)
{
    size_t total = 0;
    for (size_t i = 0; i < cnt; ++i)
        total += iov[i].iov_len;
    bool nb = s->nb || (flags & MSG_DONTWAIT);
    if (total == 0)
        return 0;
    for (;;) {
        if (!s->connected) {
            errno = ENOTCONN;
            return -1;
        }
        if (!s->rx.empty()) {
            if (chance(cfg.pEintr, F_recv_eintr)) {
                errno = EINTR;
                return -1;
            }
            if (cfg.pRecvFail > 0 && failUsed < cfg.failBudget && draw(ST_F, 2, cfg.pRecvFail)) {
                ++failUsed;
                fault(F_recv_error);
                int e = drawU(2) ? ENOMEM : ECONNRESET;
                logev("inject recv error %d fd%d", e, s->fd);
                // the connection is gone for the peer as well
                s->peerClosed = true;
                s->err = e;
                s->rx.clear();
                s->out.clear();
                s->tx.clear();
                errno = e;
                if (s->peer)
                    s->peer->onRead(s->rdTotal, true);
                return -1;
            }
            size_t n = std::min(total, s->rx.size());
            if (n > 1 && cfg.pShort > 0) {
                u32 c = draw(ST_F, 3, cfg.pShort);
                if (c == 1)
                    n = 1 + drawU((u32)std::min<size_t>(n, 60000)), fault(F_short_read);
                else if (c == 2)
                    n = 1, fault(F_short_read);
            }
            n = std::min(n, s->rx.size());
            size_t o = 0;
            for (size_t i = 0; i < cnt && o < n; ++i) {
                size_t k = std::min(iov[i].iov_len, n - o);
                memcpy(iov[i].iov_base, s->rx.data() + o, k);
                o += k;
            }
            if (!(flags & MSG_PEEK)) {
                s->rx.erase(0, n);
                s->rdTotal += n;
                progress();
                if (s->peer)
                    s->peer->onRead(s->rdTotal, false);
                scheduleDeliver(s);
            }
            return n;
        }
        if (s->err) {
            int e = s->err;
            errno = e;
            if (s->peer)
                s->peer->onRead(s->rdTotal, true);
            s->rxEof = true; // reported once, then EOF
            s->err = 0;
            return -1;
        }
        if (s->rxEof || s->shutR) {
            if (s->peer)
                s->peer->onRead(s->rdTotal, true);
            return 0;
        }
        if (nb) {
            errno = EAGAIN;
            return -1;
        }
        FD* f = fdGet(s->fd);
        block(f, "recv", NEVER);
        if (s->closed) {
            errno = EBADF;
            return -1;
        }
    }
}

// ------------------------------------------------- shared-memory sync state ---
struct MState { // overlays pthread_mutex_t (40 bytes); zero = unlocked
    int lock;
    u32 count;
    int owner;
    u32 nusers;
    int kind;
    int shared;
    u64 pad1, pad2;
};
static_assert(sizeof(MState) <= sizeof(pthread_mutex_t), "mutex layout");

static void mutexLock(MState* m, const char* why)
{
    while (m->lock && m->owner != me->id + 1)
        block(m, why, NEVER);
    if (m->lock) {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            m->count++;
            return;
        }
        // self-deadlock
        for (;;)
            block(m, "mutex already held by this thread", NEVER);
    }
    m->lock = 1;
    m->owner = me->id + 1;
    m->count = 1;
    vcAcquireObj(m);
}
static bool mutexUnlock(MState* m)
{
    if (!m->lock || m->owner != me->id + 1) {
        int s = inlib;
        inlib = 0;
        violation("P16 P14 P12", "mutex-misuse", "thread %d unlocks a mutex it does not hold", me->id);
        inlib = s;
        return false;
    }
    if (--m->count == 0) {
        m->lock = 0;
        m->owner = 0;
        vcReleaseObj(m);
        wakeObj(m, MAXT);
    }
    return true;
}
static void spuriousWake()
{
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st == BLK && thr[i].why && !strncmp(thr[i].why, "cond", 4))
            if (draw(ST_F, 2, cfg.pSpurious)) {
                fault(F_cond_spurious);
                wakeThr(&thr[i], false);
            }
}
static u64 absNs(const timespec* ts, bool realtime)
{
    if (ts->tv_sec < 0)
        return 0;
    u64 t = (u64)ts->tv_sec > 4000000000ull * 4 ? NEVER / 2 : (u64)ts->tv_sec * SEC + ts->tv_nsec;
    if (realtime) {
        u64 off = 1600000000ull * SEC + realSkew;
        t = t > off ? t - off : 0;
    }
    return t;
}
static u64 clockNs(int id)
{
    bool mono = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME || id == CLOCK_THREAD_CPUTIME_ID || id == CLOCK_PROCESS_CPUTIME_ID;
    return mono ? nowNs : nowNs + 1600000000ull * SEC + realSkew;
}
struct CState {
    int clock;
    u32 pad[11];
};
static_assert(sizeof(CState) <= sizeof(pthread_cond_t), "cond layout");

#ifdef SIM_ASAN
extern "C" int __asan_address_is_poisoned(void const volatile*);
static void checkAddr(const void* p, const char* what)
{
    if (__asan_address_is_poisoned(p)) {
        int s = inlib;
        inlib = 0;
        violation("ANY", "sync-use-after-free", "%s on a synchronisation object in freed memory", what);
        inlib = s;
    }
}
#else
static void checkAddr(const void*, const char*) {}
#endif
} // namespace sim

using namespace sim;

// ============================================================ interposition ===
extern "C" {

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!real_create) {
        real_create = (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
        real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
    }
    if (!on())
        return real_create(out, attr, fn, arg);
    if (inlib && sysFail(F_thread_fail))
        return EAGAIN;
    if (nthr >= MAXT) {
        inlib = 0;
        violation("P12 P18", "thread-leak", "more than %d threads were created", MAXT);
        finishRun(71);
    }
    Thr* t = &thr[nthr];
    *t = Thr();
    t->id = nthr;
    t->fn = fn;
    t->arg = arg;
    t->lib = inlib;
    t->inlib0 = inlib;
    t->st = RUN;
    t->prio = 1000;
    if (attr) {
        int ds = 0;
        pthread_attr_getdetachstate(attr, &ds);
        t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    if (!rep && cfg.mode == 1)
        t->prio = 1000 + (int)(rng[ST_S].next() % 1000);
    vcReleaseObj(t);
    vcThreadStart(me->id, t->id);
    int sv = inlib;
    inlib = 0;
    int r = real_create(&t->real, nullptr, tramp, t);
    inlib = sv;
    if (r)
        return r;
    while (!t->arrived)
        futexWait(&t->arrived, 0);
    nthr++;
    *out = t->real;
    logev("thread %d created%s", t->id, t->lib ? " by library" : "");
    point(false);
    return 0;
}
static Thr* findThr(pthread_t p)
{
    for (int i = nthr - 1; i >= 0; --i)
        if (thr[i].real == p && !thr[i].joined && !(thr[i].detached && thr[i].reaped))
            return &thr[i];
    return nullptr;
}
int pthread_join(pthread_t p, void** ret)
{
    if (!on()) {
        if (!real_join)
            real_join = (decltype(real_join))dlsym(RTLD_NEXT, "pthread_join");
        return real_join(p, ret);
    }
    Thr* t = findThr(p);
    if (!t)
        return ESRCH;
    if (t == me)
        return EDEADLK;
    point(false);
    while (t->st != DONE)
        block(t, "pthread_join", NEVER);
    t->joined = true;
    real_join(t->real, nullptr);
    vcAcquireObj(t);
    if (ret)
        *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t p)
{
    if (!on())
        return 0;
    Thr* t = findThr(p);
    if (t && t->reaped)
        t->joined = true, real_join(t->real, nullptr);
    else if (t)
        t->detached = true;
    return t ? 0 : ESRCH;
}

// ---- mutexes
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset((void*)m, 0, sizeof *m);
    if (a) {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        ((MState*)m)->kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (((MState*)m)->lock)
        return EBUSY;
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on())
        return 0;
    checkAddr(m, "lock");
    if (inlib)
        point(false);
    mutexLock((MState*)m, "mutex");
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* mm)
{
    if (!on())
        return 0;
    if (inlib)
        point(false);
    MState* m = (MState*)mm;
    if (m->lock && !(m->owner == me->id + 1 && (m->kind & 3) == PTHREAD_MUTEX_RECURSIVE))
        return EBUSY;
    mutexLock(m, "mutex");
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* mm, const timespec* ts)
{
    if (!on())
        return 0;
    if (inlib)
        point(false);
    MState* m = (MState*)mm;
    u64 dl = absNs(ts, true);
    while (m->lock && m->owner != me->id + 1)
        if (!block(m, "mutex (timed)", dl))
            return ETIMEDOUT;
    mutexLock(m, "mutex");
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* mm, clockid_t c, const timespec* ts)
{
    if (!on())
        return 0;
    if (inlib)
        point(false);
    MState* m = (MState*)mm;
    u64 dl = absNs(ts, c == CLOCK_REALTIME);
    while (m->lock && m->owner != me->id + 1)
        if (!block(m, "mutex (timed)", dl))
            return ETIMEDOUT;
    mutexLock(m, "mutex");
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on())
        return 0;
    checkAddr(m, "unlock");
    if (!mutexUnlock((MState*)m))
        return EPERM;
    if (inlib)
        point(false);
    return 0;
}
// spin locks
int pthread_spin_init(pthread_spinlock_t* l, int)
{
    *l = 0;
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l)
{
    if (!on())
        return 0;
    point(false);
    while (*l)
        block((void*)l, "spinlock", NEVER);
    *l = 1;
    vcAcquireObj((void*)l);
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l)
{
    if (!on())
        return 0;
    point(false);
    if (*l)
        return EBUSY;
    *l = 1;
    vcAcquireObj((void*)l);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l)
{
    if (!on())
        return 0;
    vcReleaseObj((void*)l);
    *l = 0;
    wakeObj((void*)l, MAXT);
    point(false);
    return 0;
}
// ---- rwlocks (56 bytes; zero = free)
struct RState {
    int writer;
    int readers;
    int pad[12];
};
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset((void*)l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rdlock(RState* r, u64 dl, bool tryOnly)
{
    if (!on())
        return 0;
    if (inlib)
        point(false);
    while (r->writer) {
        if (tryOnly)
            return EBUSY;
        if (!block(r, "rwlock (shared)", dl))
            return ETIMEDOUT;
    }
    r->readers++;
    vcAcquireObj(r);
    return 0;
}
static int wrlock(RState* r, u64 dl, bool tryOnly)
{
    if (!on())
        return 0;
    if (inlib)
        point(false);
    while (r->writer || r->readers) {
        if (tryOnly)
            return EBUSY;
        if (!block(r, "rwlock (exclusive)", dl))
            return ETIMEDOUT;
    }
    r->writer = me->id + 1;
    vcAcquireObj(r);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rdlock((RState*)l, NEVER, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rdlock((RState*)l, NEVER, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* t) { return rdlock((RState*)l, absNs(t, true), false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wrlock((RState*)l, NEVER, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wrlock((RState*)l, NEVER, true); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* t) { return wrlock((RState*)l, absNs(t, true), false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!on())
        return 0;
    RState* r = (RState*)l;
    vcReleaseObj(r); // conservative: readers also release
    if (r->writer)
        r->writer = 0;
    else if (r->readers)
        r->readers--;
    wakeObj(r, MAXT);
    if (inlib)
        point(false);
    return 0;
}
// ---- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
{
    memset((void*)c, 0, sizeof *c);
    if (a) {
        clockid_t k = CLOCK_REALTIME;
        pthread_condattr_getclock(a, &k);
        ((CState*)c)->clock = k;
    }
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on())
        return 0;
    checkAddr(c, "signal");
    int w[MAXT], n = 0;
    for (int i = 0; i < nthr; ++i)
        if (thr[i].st == BLK && thr[i].obj == c)
            w[n++] = i;
    if (n) {
        u32 k = draw(ST_S, n, 0.3);
        wakeThr(&thr[w[k]], false);
    }
    if (inlib)
        point(false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on())
        return 0;
    checkAddr(c, "broadcast");
    wakeObj(c, MAXT);
    if (inlib)
        point(false);
    return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* mm, u64 dl)
{
    MState* m = (MState*)mm;
    if (inlib)
        point(false);
    u32 cnt = m->count;
    m->count = 1;
    if (!mutexUnlock(m))
        return EPERM;
    bool ok = block(c, "cond wait", dl);
    mutexLock(m, "mutex (after wait)");
    m->count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on())
        return 0;
    return condWait(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!on())
        return ETIMEDOUT;
    return condWait(c, m, absNs(ts, ((CState*)c)->clock == CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!on())
        return ETIMEDOUT;
    return condWait(c, m, absNs(ts, k == CLOCK_REALTIME));
}
// ---- semaphores (32 bytes)
int sem_init(sem_t* s, int, unsigned v)
{
    memset((void*)s, 0, sizeof *s);
    *(u32*)s = v;
    return 0;
}
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s)
{
    (*(u32*)s)++;
    if (on()) {
        vcReleaseObj(s);
        wakeObj(s, MAXT);
        point(false);
    }
    return 0;
}
int sem_wait(sem_t* s)
{
    if (!on())
        return 0;
    point(false);
    while (*(u32*)s == 0)
        block(s, "semaphore", NEVER);
    (*(u32*)s)--;
    vcAcquireObj(s);
    return 0;
}
int sem_trywait(sem_t* s)
{
    if (*(u32*)s == 0) {
        errno = EAGAIN;
        return -1;
    }
    (*(u32*)s)--;
    return 0;
}
int sem_timedwait(sem_t* s, const timespec* ts)
{
    if (!on())
        return 0;
    point(false);
    while (*(u32*)s == 0)
        if (!block(s, "semaphore (timed)", absNs(ts, true))) {
            errno = ETIMEDOUT;
            return -1;
        }
    (*(u32*)s)--;
    vcAcquireObj(s);
    return 0;
}
// ---- once and static-initialisation guards
int pthread_once(pthread_once_t* o, void (*fn)())
{
    volatile int* v = (volatile int*)o;
    if (*v == 2) {
        if (on())
            vcAcquireObj((void*)o);
        return 0;
    }
    if (on()) {
        while (*v == 1)
            block((void*)o, "once", NEVER);
        if (*v == 2) {
            vcAcquireObj((void*)o);
            return 0;
        }
    }
    *v = 1;
    try {
        fn();
    } catch (...) {
        *v = 0;
        if (on())
            wakeObj((void*)o, MAXT);
        throw;
    }
    *v = 2;
    if (on()) {
        vcReleaseObj((void*)o);
        wakeObj((void*)o, MAXT);
    }
    return 0;
}
int __cxa_guard_acquire(u64* g)
{
    volatile unsigned char* b = (volatile unsigned char*)g;
    if (b[0]) {
        if (on())
            vcAcquireObj(g);
        return 0;
    }
    if (on()) {
        if (inlib)
            point(false);
        while (b[1])
            block(g, "static initialisation", NEVER);
        if (b[0]) {
            vcAcquireObj(g);
            return 0;
        }
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(u64* g)
{
    volatile unsigned char* b = (volatile unsigned char*)g;
    b[1] = 0;
    b[0] = 1;
    if (on()) {
        vcReleaseObj(g);
        wakeObj(g, MAXT);
    }
}
void __cxa_guard_abort(u64* g)
{
    ((volatile unsigned char*)g)[1] = 0;
    if (on())
        wakeObj(g, MAXT);
}

// ---- time
int clock_gettime(clockid_t id, timespec* ts)
{
    if (!on())
        return (int)sysret(rawsys(SYS_clock_gettime, id, (long)ts));
    if (cfg.pJump > 0 && id == CLOCK_REALTIME && chance(cfg.pJump, F_clock_jump))
        realSkew += (drawU(2) ? 3600 * SEC : -(u64)(1800 * SEC));
    u64 t = clockNs(id);
    ts->tv_sec = t / SEC;
    ts->tv_nsec = t % SEC;
    return 0;
}
int gettimeofday(timeval* tv, void* tz)
{
    if (!on())
        return (int)sysret(rawsys(SYS_gettimeofday, (long)tv, (long)tz));
    u64 t = clockNs(CLOCK_REALTIME);
    tv->tv_sec = t / SEC;
    tv->tv_usec = t % SEC / 1000;
    return 0;
}
time_t time(time_t* p)
{
    time_t t;
    if (!on())
        t = rawsys(SYS_time, 0);
    else
        t = clockNs(CLOCK_REALTIME) / SEC;
    if (p)
        *p = t;
    return t;
}
int nanosleep(const timespec* a, timespec* b)
{
    if (!on())
        return (int)sysret(rawsys(SYS_nanosleep, (long)a, (long)b));
    sleepFor((u64)a->tv_sec * SEC + a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* a, timespec* b)
{
    if (!on())
        return (int)-rawsys(SYS_clock_nanosleep, id, flags, (long)a, (long)b);
    u64 t = (u64)a->tv_sec * SEC + a->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        u64 n = clockNs(id);
        t = t > n ? t - n : 0;
    }
    sleepFor(t);
    return 0;
}
int usleep(useconds_t u)
{
    timespec ts { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 };
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec ts { (time_t)s, 0 };
    nanosleep(&ts, nullptr);
    return 0;
}
int sched_yield()
{
    if (on()) {
        if (cfg.mode == 1 && !rep)
            me->prio = --pctLow;
        point(true);
    }
    return 0;
}

// ---- futex (used by libstdc++ waits)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        int op = (int)a[1] & 0x7f;
        int* addr = (int*)a[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(false);
            if (*addr != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            u64 dl = NEVER;
            if (a[3]) {
                const timespec* ts = (const timespec*)a[3];
                dl = op == FUTEX_WAIT ? nowNs + (u64)ts->tv_sec * SEC + ts->tv_nsec : absNs(ts, a[1] & FUTEX_CLOCK_REALTIME);
            }
            if (!block(addr, "futex", dl)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            int k = wakeObj(addr, a[2] > MAXT ? MAXT : (int)a[2]);
            point(false);
            return k;
        }
    }
    return sysret(rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---- descriptors
int socket(int dom, int type, int proto)
{
    OutLib ol;
    if (!on())
        return (int)sysret(rawsys(SYS_socket, dom, type, proto));
    point(false);
    if (sysFail(F_socket_fail)) {
        errno = drawU(2) ? ENFILE : EMFILE;
        return -1;
    }
    int fd = fdNew(FD_SOCK);
    Sock* s = new Sock();
    s->fd = fd;
    s->nb = type & SOCK_NONBLOCK;
    (*fds)[fd]->s = s;
    if (!socks)
        socks = new std::vector<Sock*>();
    socks->push_back(s);
    return fd;
}
static Sock* sockOf(int fd)
{
    FD* f = fdGet(fd);
    return f && f->type == FD_SOCK ? f->s : nullptr;
}
uid_t getuid() { return simUid; }
uid_t geteuid() { return simUid; }
int connect(int fd, const sockaddr* sa, socklen_t len)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return (int)sysret(rawsys(SYS_connect, fd, (long)sa, len));
    point(false);
    if (s->connected) {
        errno = EISCONN;
        return -1;
    }
    std::string path;
    const sockaddr_un* u = (const sockaddr_un*)sa;
    size_t plen = len > offsetof(sockaddr_un, sun_path) ? len - offsetof(sockaddr_un, sun_path) : 0;
    if (plen) {
        if (u->sun_path[0] == 0)
            path.assign(u->sun_path, plen);
        else
            path.assign(u->sun_path, strnlen(u->sun_path, plen));
    }
    // abstract names arrive with their exact length; pad-insensitive look-up
    if (sysFail(F_connect_other)) {
        u32 k = drawU(4);
        int e[4] = { EINTR, ECONNREFUSED, EACCES, ENOMEM };
        if (k == 0)
            fault(F_connect_eintr);
        errno = e[k];
        return -1;
    }
    if (!listeners || !listeners->count(path)) {
        fault(F_connect_noent);
        errno = ENOENT;
        return -1;
    }
    Peer* p = (*listeners)[path]();
    if (!p) {
        fault(F_connect_refused);
        errno = ECONNREFUSED;
        return -1;
    }
    s->connected = true;
    s->peer = p;
    p->sock = s;
    p->onConnect();
    logev("connect fd%d", fd);
    point(false);
    return 0;
}
static ssize_t sendOn(Sock* s, const iovec* iov, size_t n, int flags)
{
    OutLib ol;
    point(false);
    ssize_t r = doSend(s, iov, n, flags);
    int e = errno;
    logev("send fd%d -> %zd%s", s->fd, r, r < 0 ? (e == EAGAIN ? " EAGAIN" : e == EINTR ? " EINTR" : e == EPIPE ? " EPIPE" : " error") : "");
    point(false);
    errno = e;
    return r;
}
static ssize_t recvOn(Sock* s, const iovec* iov, size_t n, int flags)
{
    OutLib ol;
    point(false);
    ssize_t r = doRecv(s, iov, n, flags);
    int e = errno;
    logev("recv fd%d -> %zd", s->fd, r);
    point(false);
    errno = e;
    return r;
}
ssize_t send(int fd, const void* b, size_t n, int flags)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_sendto, fd, (long)b, n, flags, 0, 0));
    iovec v { (void*)b, n };
    return sendOn(s, &v, 1, flags);
}
ssize_t sendto(int fd, const void* b, size_t n, int flags, const sockaddr* sa, socklen_t l)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_sendto, fd, (long)b, n, flags, (long)sa, l));
    iovec v { (void*)b, n };
    return sendOn(s, &v, 1, flags);
}
ssize_t sendmsg(int fd, const msghdr* m, int flags)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_sendmsg, fd, (long)m, flags));
    return sendOn(s, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t recv(int fd, void* b, size_t n, int flags)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_recvfrom, fd, (long)b, n, flags, 0, 0));
    iovec v { b, n };
    return recvOn(s, &v, 1, flags);
}
ssize_t recvfrom(int fd, void* b, size_t n, int flags, sockaddr* sa, socklen_t* l)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_recvfrom, fd, (long)b, n, flags, (long)sa, (long)l));
    iovec v { b, n };
    return recvOn(s, &v, 1, flags);
}
ssize_t recvmsg(int fd, msghdr* m, int flags)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_recvmsg, fd, (long)m, flags));
    return recvOn(s, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t read(int fd, void* b, size_t n)
{
    OutLib ol;
    FD* f = on() ? fdGet(fd) : nullptr;
    if (!f)
        return sysret(rawsys(SYS_read, fd, (long)b, n));
    if (f->type == FD_SOCK) {
        iovec v { b, n };
        return recvOn(f->s, &v, 1, 0);
    }
    if (f->type == FD_EVENT) {
        point(false);
        while (!f->counter) {
            if (f->nb) {
                errno = EAGAIN;
                return -1;
            }
            block(f, "eventfd read", NEVER);
        }
        vcAcquireObj(f);
        memcpy(b, &f->counter, 8);
        f->counter = 0;
        return 8;
    }
    errno = EINVAL;
    return -1;
}
ssize_t write(int fd, const void* b, size_t n)
{
    OutLib ol;
    FD* f = on() ? fdGet(fd) : nullptr;
    if (!f)
        return sysret(rawsys(SYS_write, fd, (long)b, n));
    if (f->type == FD_SOCK) {
        iovec v { (void*)b, n };
        return sendOn(f->s, &v, 1, 0);
    }
    if (f->type == FD_EVENT) {
        point(false);
        vcReleaseObj(f);
        u64 v;
        memcpy(&v, b, 8);
        f->counter += v;
        notifyFd(fd, EPOLLIN);
        return 8;
    }
    errno = EINVAL;
    return -1;
}
ssize_t readv(int fd, const iovec* v, int n)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_readv, fd, (long)v, n));
    return recvOn(s, v, n, 0);
}
ssize_t writev(int fd, const iovec* v, int n)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return sysret(rawsys(SYS_writev, fd, (long)v, n));
    return sendOn(s, v, n, 0);
}
int shutdown(int fd, int how)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return (int)sysret(rawsys(SYS_shutdown, fd, how));
    point(false);
    if (!s->connected) {
        errno = ENOTCONN;
        return -1;
    }
    if (how == SHUT_RD || how == SHUT_RDWR)
        s->shutR = true;
    if (how == SHUT_WR || how == SHUT_RDWR)
        s->shutW = true;
    logev("shutdown fd%d", fd);
    scheduleDrain(s);
    notifyFd(fd, EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP);
    point(false);
    return 0;
}
int close(int fd)
{
    OutLib ol;
    FD* f = on() ? fdGet(fd) : nullptr;
    if (!f) {
        if (on() && fd >= 1000 && fd < nextFd) {
            int s = inlib;
            inlib = 0;
            violation("P12 P18", "double-close", "descriptor %d closed twice", fd);
            inlib = s;
            errno = EBADF;
            return -1;
        }
        return (int)sysret(rawsys(SYS_close, fd));
    }
    point(false);
    if (f->type == FD_SOCK) {
        Sock* s = f->s;
        s->closed = true;
        s->shutW = s->shutR = true;
        logev("close fd%d", fd);
        scheduleDrain(s);
        wakeObj(f, MAXT);
    }
    for (auto& p : *fds)
        if (p.second->type == FD_EPOLL && p.second != f) {
            p.second->items.erase(fd);
            auto& r = p.second->ready;
            r.erase(std::remove(r.begin(), r.end(), fd), r.end());
        }
    fds->erase(fd);
    delete f;
    return 0;
}
int ioctl(int fd, unsigned long req, ...)
{
    OutLib ol;
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    FD* f = on() ? fdGet(fd) : nullptr;
    if (!f)
        return (int)sysret(rawsys(SYS_ioctl, fd, req, (long)p));
    if (req == FIONBIO) {
        if (f->s)
            f->s->nb = *(int*)p;
        return 0;
    }
    if (req == FIONREAD) {
        *(int*)p = f->s ? (int)f->s->rx.size() : 0;
        return 0;
    }
    errno = EINVAL;
    return -1;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    FD* f = on() ? fdGet(fd) : nullptr;
    if (!f)
        return (int)sysret(rawsys(SYS_fcntl, fd, cmd, a));
    if (cmd == F_GETFL)
        return O_RDWR | (f->s && f->s->nb ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) {
        if (f->s)
            f->s->nb = a & O_NONBLOCK;
        return 0;
    }
    return 0;
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int getsockopt(int fd, int level, int name, void* v, socklen_t* l)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return (int)sysret(rawsys(SYS_getsockopt, fd, level, name, (long)v, (long)l));
    if (v && l && *l >= 4)
        *(int*)v = 0;
    return 0;
}
int setsockopt(int fd, int level, int name, const void* v, socklen_t l)
{
    OutLib ol;
    Sock* s = on() ? sockOf(fd) : nullptr;
    if (!s)
        return (int)sysret(rawsys(SYS_setsockopt, fd, level, name, (long)v, l));
    return 0;
}
int getsockname(int fd, sockaddr* sa, socklen_t* l)
{
    if (!(on() && sockOf(fd)))
        return (int)sysret(rawsys(SYS_getsockname, fd, (long)sa, (long)l));
    if (*l >= sizeof(sa_family_t))
        sa->sa_family = AF_UNIX;
    *l = sizeof(sa_family_t);
    return 0;
}
int poll(pollfd* p, nfds_t n, int timeout)
{
    OutLib ol;
    bool any = false;
    if (on())
        for (nfds_t i = 0; i < n; ++i)
            if (fdGet(p[i].fd))
                any = true;
    if (!any)
        return (int)sysret(rawsys(SYS_poll, (long)p, n, timeout));
    point(false);
    u64 dl = timeout < 0 ? NEVER : nowNs + (u64)timeout * MS;
    for (;;) {
        int r = 0;
        for (nfds_t i = 0; i < n; ++i) {
            u32 e = fdPoll(p[i].fd);
            p[i].revents = (short)(e & (p[i].events | POLLERR | POLLHUP));
            if (p[i].revents)
                ++r;
        }
        if (r || timeout == 0)
            return r;
        if (nowNs >= dl)
            return 0;
        block(fdGet(p[0].fd), "poll", dl);
    }
}
int epoll_create1(int flags)
{
    OutLib ol;
    if (!on())
        return (int)sysret(rawsys(SYS_epoll_create1, flags));
    point(false);
    if (sysFail(F_epoll_create_fail)) {
        errno = EMFILE;
        return -1;
    }
    return fdNew(FD_EPOLL);
}
int epoll_create(int)
{
    return epoll_create1(0);
}
int epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    OutLib ol;
    FD* f = on() ? fdGet(ep) : nullptr;
    if (!f)
        return (int)sysret(rawsys(SYS_epoll_ctl, ep, op, fd, (long)ev));
    point(false);
    if (!fdGet(fd)) {
        errno = EBADF;
        return -1;
    }
    if (op == EPOLL_CTL_DEL) {
        if (!f->items.erase(fd)) {
            errno = ENOENT;
            return -1;
        }
        f->ready.erase(std::remove(f->ready.begin(), f->ready.end(), fd), f->ready.end());
        return 0;
    }
    if (op == EPOLL_CTL_ADD && sysFail(F_epoll_ctl_fail)) {
        errno = drawU(2) ? ENOSPC : ENOMEM;
        return -1;
    }
    if (op == EPOLL_CTL_ADD && f->items.count(fd)) {
        errno = EEXIST;
        return -1;
    }
    if (op == EPOLL_CTL_MOD && !f->items.count(fd)) {
        errno = ENOENT;
        return -1;
    }
    vcReleaseObj(f);
    EpItem& it = f->items[fd];
    if (op == EPOLL_CTL_ADD)
        it.inReady = false;
    it.fd = fd;
    it.events = ev->events;
    it.data = ev->data.u64;
    if (fdPoll(fd) & (it.events | EPOLLERR | EPOLLHUP)) {
        if (!it.inReady) {
            it.inReady = true;
            f->ready.push_back(fd);
        }
        wakeObj(f, MAXT);
    }
    return 0;
}
int epoll_wait(int ep, epoll_event* evs, int maxev, int timeout)
{
    OutLib ol;
    FD* f = on() ? fdGet(ep) : nullptr;
    if (!f)
        return (int)sysret(rawsys(SYS_epoll_wait, ep, (long)evs, maxev, timeout));
    point(false);
    u64 dl = timeout < 0 ? NEVER : nowNs + (u64)timeout * MS;
    if (chance(cfg.pEintr, F_epoll_eintr)) {
        errno = EINTR;
        return -1;
    }
    for (;;) {
        int n = 0;
        std::deque<int> again;
        while (!f->ready.empty() && n < maxev) {
            int fd = f->ready.front();
            f->ready.pop_front();
            auto it = f->items.find(fd);
            if (it == f->items.end())
                continue;
            it->second.inReady = false;
            u32 e = fdPoll(fd) & (it->second.events | EPOLLERR | EPOLLHUP);
            if (!e)
                continue;
            evs[n].events = e;
            evs[n].data.u64 = it->second.data;
            ++n;
            if (!(it->second.events & EPOLLET) && !(it->second.events & EPOLLONESHOT)) {
                it->second.inReady = true;
                again.push_back(fd);
            }
            if (it->second.events & EPOLLONESHOT)
                it->second.events = 0;
        }
        for (int fd : again)
            f->ready.push_back(fd);
        if (n) {
            vcAcquireObj(f);
            return n;
        }
        if (timeout == 0 || nowNs >= dl)
            return 0;
        block(f, "epoll_wait", dl);
    }
}
int epoll_pwait(int ep, epoll_event* evs, int maxev, int timeout, const sigset_t*) { return epoll_wait(ep, evs, maxev, timeout); }
int eventfd(unsigned v, int flags)
{
    OutLib ol;
    if (!on())
        return (int)sysret(rawsys(SYS_eventfd2, v, flags));
    point(false);
    if (sysFail(F_eventfd_fail)) {
        errno = EMFILE;
        return -1;
    }
    int fd = fdNew(FD_EVENT);
    (*fds)[fd]->counter = v;
    (*fds)[fd]->nb = flags & EFD_NONBLOCK;
    return fd;
}
int pipe(int* p)
{
    if (on() && inlib) { // fallback of the reactor's wake-up descriptor: treat as exhausted
        errno = EMFILE;
        return -1;
    }
    return (int)sysret(rawsys(SYS_pipe, (long)p));
}
int pipe2(int* p, int fl)
{
    if (on() && inlib) {
        errno = EMFILE;
        return -1;
    }
    return (int)sysret(rawsys(SYS_pipe2, (long)p, fl));
}
int timerfd_create(int clk, int flags)
{
    if (on()) {
        errno = ENOSYS;
        return -1;
    }
    return (int)sysret(rawsys(SYS_timerfd_create, clk, flags));
}
} // extern "C"
