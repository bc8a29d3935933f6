// Memory hooks.  In the race build the library is compiled with -fsanitize=thread
// but linked against this runtime: every access is a potential preemption point and
// is checked by a deterministic vector-clock happens-before race detector.
// In the ASan build only the preemption countdown is used (via trace-pc).
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <map>
#include <sys/mman.h>
#include <unordered_map>

using namespace sim;

namespace sim {
static u64 budget = 0; // hooks since the last step change
static u64 lastSteps = 0;
static u64 allocBase = 0;
u64 memLimit = ~0ull;
u32 simUid = 0;

extern "C" {
#ifdef SIM_ASAN
size_t __sanitizer_get_current_allocated_bytes();
#endif
}
#ifdef SIM_ASAN
u64 liveBytes() { return __sanitizer_get_current_allocated_bytes(); }
const char* flavour() { return "asan"; }
#else
static u64 liveCtr = 0;
u64 liveBytes() { return liveCtr; }
const char* flavour() { return "race"; }
#endif

// bytes allocated by library code and not yet freed (only when tracking is on)
bool memTrack = false;
static u64 libLiveBytes = 0;
u64 libLive() { return libLiveBytes; }
struct MemEnt {
    const volatile void* p;
    u32 n;
};
static MemEnt* memTab;
static const u32 MT = 1u << 18;
static int memLock = 0;
struct MemGuard {
    MemGuard()
    {
        while (__atomic_exchange_n(&memLock, 1, __ATOMIC_ACQUIRE))
            ;
    }
    ~MemGuard() { __atomic_store_n(&memLock, 0, __ATOMIC_RELEASE); }
};
static u32 memHash(const volatile void* p) { return (u32)(((u64)p * 0x9e3779b97f4a7c15ull) >> 46) & (MT - 1); }
static void memAlloc(const volatile void* p, size_t n)
{
    if (!memTrack || !inlib || !p)
        return;
    MemGuard g;
    u32 h = memHash(p);
    while (memTab[h].p)
        h = (h + 1) & (MT - 1);
    memTab[h].p = p;
    memTab[h].n = (u32)n;
    libLiveBytes += n;
}
static void memFree(const volatile void* p)
{
    if (!memTrack || !p)
        return;
    MemGuard g;
    u32 h = memHash(p);
    while (memTab[h].p && memTab[h].p != p)
        h = (h + 1) & (MT - 1);
    if (!memTab[h].p)
        return;
    libLiveBytes -= memTab[h].n;
    for (u32 i = h;;) { // backward-shift deletion
        i = (i + 1) & (MT - 1);
        if (!memTab[i].p)
            break;
        u32 want = memHash(memTab[i].p);
        if (((i - want) & (MT - 1)) >= ((i - h) & (MT - 1))) {
            memTab[h] = memTab[i];
            h = i;
        }
    }
    memTab[h].p = nullptr;
}
#ifdef SIM_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
static u64 bigAlloc = 0;
static void bigHook(const volatile void*, size_t n)
{
    if (inlib && n >= (48u << 20))
        bigAlloc = n;
}
static void noFree(const volatile void*) { }
void watchBigAllocations()
{
#ifdef SIM_ASAN
    __sanitizer_install_malloc_and_free_hooks(bigHook, noFree);
#endif
}
void trackMemory()
{
    memTab = (MemEnt*)mmap(nullptr, sizeof(MemEnt) * MT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#ifdef SIM_ASAN
    __sanitizer_install_malloc_and_free_hooks(memAlloc, memFree);
#endif
    memTrack = true;
}

static inline void budgetTick()
{
    if (sh->steps != lastSteps) {
        lastSteps = sh->steps;
        budget = 0;
    }
    if (bigAlloc) {
        u64 n = bigAlloc;
        bigAlloc = 0;
        inlib = 0;
        violation("P10", "memory-growth", "the library allocated %llu bytes at once, far more than the data received justifies", (unsigned long long)n);
    }
    if ((++budget & 0xffff) == 0) {
        if (budget > 400000000ull)
            onBudget();
        if (liveBytes() > memLimit) {
            inlib = 0;
            violation("P10", "memory-growth", "the library holds %llu bytes, far more than the data received justifies", (unsigned long long)liveBytes());
        }
    }
}
static inline void tick()
{
    ++sh->memhooks;
    budgetTick();
    if (memLeft && --memLeft == 0)
        memCountdown();
}
} // namespace sim

#ifdef SIM_ASAN
extern "C" void __sanitizer_cov_trace_pc()
{
    if (inlib)
        tick();
}
namespace sim {
void vcAcquireObj(const void*) {}
void vcReleaseObj(const void*) {}
void vcThreadStart(int, int) {}
void vcThreadJoin(int) {}
void vcInit() {}
}
#else
// ------------------------------------------------------------ race runtime ---
namespace sim {
struct VC {
    u32 c[MAXT];
};
static VC vc[MAXT];
static bool raceOn = false;
struct Cell {
    u64 meta; // clk(32) | mask(8) | tid(6) | write(1) | atomic(1)
    u64 pc;
};
struct Granule {
    Cell c[4];
};
struct Page { // 4 KB of application memory
    Granule g[512];
};
// open-addressing page table
static const u32 PT = 1 << 16;
static u64* ptKey;
static Page** ptVal;
static u64 lastKey = ~0ull;
static Page* lastPage = nullptr;
static char* arena = nullptr;
static size_t arenaLeft = 0;

static void* rawAlloc(size_t n)
{
    if (arenaLeft < n) {
        size_t k = 8 << 20;
        arena = (char*)mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arenaLeft = k;
    }
    void* p = arena;
    arena += n;
    arenaLeft -= n;
    return p;
}
static Page* pageOf(u64 addr, bool create)
{
    u64 k = addr >> 12;
    if (k == lastKey)
        return lastPage;
    u32 h = (u32)((k * 0x9e3779b97f4a7c15ull) >> 48) & (PT - 1);
    for (;;) {
        if (ptKey[h] == k) {
            lastKey = k;
            return lastPage = ptVal[h];
        }
        if (ptKey[h] == 0) {
            if (!create)
                return nullptr;
            ptKey[h] = k;
            ptVal[h] = (Page*)rawAlloc(sizeof(Page));
            lastKey = k;
            return lastPage = ptVal[h];
        }
        h = (h + 1) & (PT - 1);
    }
}
struct SyncTab {
    std::unordered_map<const void*, VC> m;
};
static SyncTab* syncs;

void vcInit()
{
    memset(vc, 0, sizeof vc);
    ptKey = (u64*)mmap(nullptr, PT * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ptVal = (Page**)mmap(nullptr, PT * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    syncs = new SyncTab();
    for (int i = 0; i < MAXT; ++i)
        vc[i].c[i] = 1;
    raceOn = true;
}
void vcAcquireObj(const void* o)
{
    int s = self();
    if (!raceOn || s < 0)
        return;
    auto it = syncs->m.find(o);
    if (it == syncs->m.end())
        return;
    VC& me = vc[s];
    for (int i = 0; i < MAXT; ++i)
        if (it->second.c[i] > me.c[i])
            me.c[i] = it->second.c[i];
}
void vcReleaseObj(const void* o)
{
    int s = self();
    if (!raceOn || s < 0)
        return;
    VC& v = syncs->m[o];
    VC& me = vc[s];
    for (int i = 0; i < MAXT; ++i)
        if (me.c[i] > v.c[i])
            v.c[i] = me.c[i];
    me.c[s]++;
}
void vcThreadStart(int parent, int child)
{
    if (!raceOn)
        return;
    for (int i = 0; i < MAXT; ++i)
        if (vc[parent].c[i] > vc[child].c[i])
            vc[child].c[i] = vc[parent].c[i];
    vc[parent].c[parent]++;
}
void vcThreadJoin(int) {}

static void clearRange(u64 a, u64 n)
{
    if (!raceOn)
        return;
    u64 e = a + n;
    for (u64 p = a & ~7ull; p < e;) {
        Page* pg = pageOf(p, false);
        u64 pe = (p & ~4095ull) + 4096;
        if (pe > e)
            pe = e;
        if (pg) {
            u64 f = (p & 4095) >> 3, l = ((pe - 1) & 4095) >> 3;
            memset(&pg->g[f], 0, (l - f + 1) * sizeof(Granule));
        }
        p = (p & ~4095ull) + 4096;
    }
}

static void report(u64 addr, bool w, u64 pc, const Cell& o)
{
    int s = inlib;
    inlib = 0;
    violation("P16", "data-race", "conflicting unsynchronised accesses to one location: %s by thread %d at pc=%#llx, %s by thread %d at pc=%#llx", w ? "write" : "read", self(), (unsigned long long)pc,
        (o.meta & 2) ? "write" : "read", (int)((o.meta >> 2) & 63), (unsigned long long)o.pc);
    inlib = s;
    (void)addr;
}
static inline void check8(u64 addr, u32 mask, bool w, bool at, u64 pc)
{
    Page* pg = pageOf(addr, true);
    Granule& g = pg->g[(addr & 4095) >> 3];
    int t = self();
    u32 clk = vc[t].c[t];
    u64 mine = ((u64)clk << 32) | ((u64)mask << 8) | ((u64)t << 2) | (w ? 2 : 0) | (at ? 1 : 0);
    int slot = -1;
    for (int i = 0; i < 4; ++i) {
        Cell& c = g.c[i];
        if (!c.meta) {
            if (slot < 0)
                slot = i;
            continue;
        }
        u32 cm = (c.meta >> 8) & 0xff;
        int ct = (c.meta >> 2) & 63;
        u32 cc = c.meta >> 32;
        if (ct == t) {
            if (cm == mask && !!(c.meta & 2) == w && !!(c.meta & 1) == at)
                slot = i;
            continue;
        }
        if (!(cm & mask))
            continue;
        if (!(w || (c.meta & 2)))
            continue;
        if (at && (c.meta & 1))
            continue;
        if (cc <= vc[t].c[ct]) {
            // ordered before us: replaceable when fully covered by a write
            if (w && (cm & ~mask) == 0 && slot < 0)
                slot = i;
            continue;
        }
        report(addr, w, pc, c);
    }
    if (slot < 0)
        slot = (int)((clk + addr) & 3);
    g.c[slot].meta = mine;
    g.c[slot].pc = pc;
}
static inline void access(u64 a, u32 n, bool w, bool at, u64 pc)
{
    if (!inlib || !raceOn || self() < 0)
        return;
    tick();
    while (n) {
        u32 off = a & 7;
        u32 k = 8 - off;
        if (k > n)
            k = n;
        check8(a & ~7ull, ((1u << k) - 1) << off, w, at, pc);
        a += k;
        n -= k;
    }
}
} // namespace sim

#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(sz)                                                                          \
    void __tsan_read##sz(void* p) { access((u64)p, sz, false, false, PC); }            \
    void __tsan_write##sz(void* p) { access((u64)p, sz, true, false, PC); }            \
    void __tsan_unaligned_read##sz(void* p) { access((u64)p, sz, false, false, PC); }  \
    void __tsan_unaligned_write##sz(void* p) { access((u64)p, sz, true, false, PC); }  \
    void __tsan_volatile_read##sz(void* p) { access((u64)p, sz, false, false, PC); }   \
    void __tsan_volatile_write##sz(void* p) { access((u64)p, sz, true, false, PC); }
RW(1)
RW(2) RW(4) RW(8) RW(16) void __tsan_read_range(void* p, size_t n)
{
    access((u64)p, (u32)n, false, false, PC);
}
void __tsan_write_range(void* p, size_t n) { access((u64)p, (u32)n, true, false, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    // writing the value it already has is no race; but the schedule must not depend on what the memory held before
    if (*p != v)
        access((u64)p, 8, true, false, PC);
    else if (inlib && raceOn && self() >= 0)
        tick();
}
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, false, PC); }
// memory functions of the library objects are redirected here (objcopy)
void* simrt_memcpy(void* d, const void* s, size_t n)
{
    if (n) {
        access((u64)s, (u32)n, false, false, PC);
        access((u64)d, (u32)n, true, false, PC);
    }
    return memcpy(d, s, n);
}
void* simrt_memmove(void* d, const void* s, size_t n)
{
    if (n) {
        access((u64)s, (u32)n, false, false, PC);
        access((u64)d, (u32)n, true, false, PC);
    }
    return memmove(d, s, n);
}
void* simrt_memset(void* d, int c, size_t n)
{
    if (n)
        access((u64)d, (u32)n, true, false, PC);
    return memset(d, c, n);
}
int simrt_memcmp(const void* a, const void* b, size_t n)
{
    if (n) {
        access((u64)a, (u32)n, false, false, PC);
        access((u64)b, (u32)n, false, false, PC);
    }
    return memcmp(a, b, n);
}
// atomics: every atomic access is a preemption point and an acquire-release edge
static inline void apre(volatile void* p, u32 n, bool w, u64 pc)
{
    if (!inlib || self() < 0)
        return;
    access((u64)p, n, w, true, pc);
    vcAcquireObj((const void*)p);
    if (w)
        vcReleaseObj((const void*)p);
}
#define ATOMIC(bits, T)                                                                                                                           \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { apre((volatile void*)p, bits / 8, false, PC); return *p; }                           \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); *p = v; }                            \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = v; return o; }        \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = o + v; return o; }   \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = o - v; return o; }   \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = o & v; return o; }   \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = o | v; return o; }    \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = o ^ v; return o; }   \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { apre((volatile void*)p, bits / 8, true, PC); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)                                                         \
    {                                                                                                                                             \
        apre((volatile void*)p, bits / 8, true, PC);                                                                                              \
        if (*p == *e) {                                                                                                                           \
            *p = v;                                                                                                                               \
            return 1;                                                                                                                             \
        }                                                                                                                                         \
        *e = *p;                                                                                                                                  \
        return 0;                                                                                                                                 \
    }                                                                                                                                             \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b)                                                       \
    {                                                                                                                                             \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, a, b);                                                                      \
    }                                                                                                                                             \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int)                                                               \
    {                                                                                                                                             \
        apre((volatile void*)p, bits / 8, true, PC);                                                                                              \
        T o = *p;                                                                                                                                 \
        if (o == e)                                                                                                                               \
            *p = v;                                                                                                                               \
        return o;                                                                                                                                 \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// allocation: forget shadow state of recycled memory, account live bytes
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static void* got(void* p, bool clear)
{
    if (p) {
        size_t n = malloc_usable_size(p);
        liveCtr += n;
        if (clear && raceOn)
            clearRange((u64)p, n);
        memAlloc(p, n);
    }
    return p;
}
// uninitialised memory always looks the same (ASan does likewise)
static void* filled(void* p, size_t n)
{
    if (p)
        memset(p, 0xbe, n < 4096 ? n : 4096);
    return p;
}
void* malloc(size_t n) { return got(filled(__libc_malloc(n), n), true); }
void* calloc(size_t a, size_t b) { return got(__libc_calloc(a, b), true); }
void free(void* p)
{
    if (p) {
        memFree(p);
        liveCtr -= malloc_usable_size(p);
        __libc_free(p);
    }
}
void* realloc(void* p, size_t n)
{
    if (p) {
        memFree(p);
        liveCtr -= malloc_usable_size(p);
    }
    return got(__libc_realloc(p, n), true);
}
void* memalign(size_t a, size_t n) { return got(filled(__libc_memalign(a, n), n), true); }
void* aligned_alloc(size_t a, size_t n) { return got(filled(__libc_memalign(a, n), n), true); }
int posix_memalign(void** o, size_t a, size_t n)
{
    *o = got(filled(__libc_memalign(a, n), n), true);
    return *o ? 0 : 12;
}
}
#endif
