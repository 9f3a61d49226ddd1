// Program memory: an arena at a fixed address (so that a run never depends on
// where the host put things), injected allocation failure, buffers owned by
// unfinished message operations, and the data-race detector.
#include "sim.hh"
#include <sys/mman.h>
#include <cstdlib>
#include <new>
#include <exception>
#include <deque>
#include <array>
#include <dlfcn.h>
#include <unordered_map>

static const uintptr_t BASE = 0x100000000000ull;
static const u64 ARENA = 512ull << 20, STACKS = (u64)MAXRANK * FIBSLOT << 20, REGION = ARENA + STACKS;
static const u64 SEGMAX = 4ull << 20;
static const u64 STK = 1ull << 20;

struct Sh {
    u32 wclk, wpc;
    u8 wtid, wmask, watom;
    u8 rmask[MAXTHR];
    unsigned short ratom;
    u32 rclk[MAXTHR];
};
static u8 *pinMap;
static u8 *own;   // per 8 bytes of the heap: how many of them belong to a live allocation
static Sh *shadow, *segShadow;
static u64 bump;
static int nPins;

struct Hdr { u64 size; u32 cap16; u32 magic; };
static const u32 LIVE = 0xa110c8ed, DEAD = 0xdeadf5ee;
static std::unordered_map<u32, std::vector<uintptr_t>> freeLists;
static std::deque<uintptr_t> quarantine;
static u64 quarBytes;

void memInit() {
    void *p = mmap((void *)BASE, REGION, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)BASE) { fprintf(stderr, "sim: cannot map the arena\n"); exit(3); }
    auto map = [](u64 n) {
        void *q = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) { fprintf(stderr, "sim: cannot map shadow\n"); exit(3); }
        return q;
    };
    pinMap = (u8 *)map(REGION >> 3);
    own = (u8 *)map((ARENA >> 3) + 8);
    shadow = (Sh *)map((REGION >> 3) * sizeof(Sh));
    segShadow = (Sh *)map(MAXRANK * (SEGMAX >> 3) * sizeof(Sh));
    for (int i = 0; i < MAXRANK * FIBSLOT; i++)   // guard page below each stack
        mprotect((void *)(BASE + ARENA + i * STK), 4096, PROT_NONE);
}
char *stackRegion(int id, u64 size) { return (char *)(BASE + ARENA + (u64)(id + 1) * STK - size); }
void memReset() {
    if (bump) memset(own, 0, (bump >> 3) + 1);
    bump = 4096;
    freeLists.clear();
    quarantine.clear();
    quarBytes = 0;
    nPins = 0;
}
bool inArena(const void *p) { return (uintptr_t)p - BASE < ARENA; }
static inline bool inRegion(uintptr_t a) { return a - BASE < REGION; }

static u32 capClass(size_t n) {   // capacity in 16-byte units
    u64 u = (n + 15) / 16;
    if (u == 0) u = 1;
    if (u <= 64) return (u32)u;
    u64 step = 64;
    while (step * 8 < u) step *= 2;
    return (u32)((u + step - 1) / step * step);
}
// Where in the program an allocation is made: the innermost return addresses on the stack.
std::vector<u64> allocPicks;
bool recordAllocs;
static __attribute__((noinline)) void noteAlloc(Rank *r, u64 i) {
    static std::map<u64, size_t> sites[MAXRANK];
    static std::vector<u64> seen;
    uintptr_t hi = r->segLo, lo = hi - (16u << 20), top = (uintptr_t)cur->stack + cur->stackSize;
    u64 h = 1; int k = 0;
    for (uintptr_t p = (uintptr_t)__builtin_frame_address(0) & ~7ull; p + 8 <= top && k < 4; p += 8) {
        uintptr_t w = *(uintptr_t *)p;
        if (w - lo < hi - lo) { h = hash64(h ^ (w - lo)); k++; }
    }
    auto it = sites[r->id].find(h);
    u64 v = (u64)r->id << 40 | i;
    if (it == sites[r->id].end()) {
        if (sites[r->id].size() >= 2000) return;
        sites[r->id][h] = seen.size();
        seen.push_back(1);
        for (int j = 0; j < 3; j++) allocPicks.push_back(v);
        return;
    }
    u64 n = ++seen[it->second];
    allocPicks[3 * it->second + 1] = v;
    if (hash64(i * 31 + n) % n == 0) allocPicks[3 * it->second + 2] = v;
}
void *arenaAlloc(size_t n, bool count, bool *failed) {
    if (failed) *failed = false;
    if (count && cur) {
        Rank *r = cur->rank;
        u64 i = r->allocCount++;
        st.allocs[r->id]++;
        if (recordAllocs) noteAlloc(r, i);
        if (!cfg.faults.empty() && faultAt(F_ALLOC, r->id, (i64)i)) {
            if (failed) *failed = true;
            return nullptr;
        }
    }
    if (n > (256ull << 20)) { if (failed) *failed = true; return nullptr; }
    u32 c = capClass(n);
    uintptr_t a = 0;
    auto it = freeLists.find(c);
    if (it != freeLists.end() && !it->second.empty()) {
        a = it->second.back();
        it->second.pop_back();
    } else {
        u64 need = 16ull + 16ull * c + 16;
        if (bump + need > ARENA) { if (failed) *failed = true; return nullptr; }
        a = BASE + bump;
        bump += need;
    }
    Hdr *h = (Hdr *)a;
    h->size = n; h->cap16 = c; h->magic = LIVE;
    if (cur) cur->rank->liveBytes += (i64)n;
    uintptr_t u = a + 16;
    memset((void *)u, 0xf7, 16ull * c);
    raceClear(u, 16ull * c);
    u8 *o = own + ((u - BASE) >> 3);
    memset(o, 8, n >> 3);
    if (n & 7) o[n >> 3] = (u8)(n & 7);
    return (void *)u;
}
size_t arenaSize(void *p) { return ((Hdr *)p - 1)->size; }
void arenaFree(void *p) {
    if (!p) return;
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != LIVE) {
        violate("memory.free", "invalid or double free");
        return;
    }
    uintptr_t lo = (uintptr_t)p, hi = lo + h->size;
    if (nPins && cur && !std::uncaught_exceptions())
        for (Pin &q : cur->rank->pins)
            if (q.lo < hi && lo < q.hi) {
                violate("mpi.buffer.freed", "memory of an unfinished %s is freed at %s", q.recv ? "receive" : "send",
                        whereIs(__builtin_return_address(0)));
                break;
            }
    h->magic = DEAD;
    if (cur) cur->rank->liveBytes -= (i64)h->size;
    memset(own + ((lo - BASE) >> 3), 0, (h->size + 7) >> 3);
    memset(p, 0xdb, 16ull * h->cap16);
    quarantine.push_back((uintptr_t)h);
    quarBytes += 16ull * h->cap16;
    while (quarBytes > (4u << 20) && !quarantine.empty()) {
        Hdr *o = (Hdr *)quarantine.front();
        quarantine.pop_front();
        quarBytes -= 16ull * o->cap16;
        freeLists[o->cap16].push_back((uintptr_t)o);
    }
}

// ---------------------------------------------------------------- pins
void pinAdd(Rank *r, const void *p, size_t n, bool recv) {
    if (!n) return;
    uintptr_t lo = (uintptr_t)p, hi = lo + n;
    for (Pin &q : r->pins)
        if (q.lo < hi && lo < q.hi && (recv || q.recv))
            violate("mpi.buffer.overlap", "a %s buffer overlaps the buffer of an unfinished %s",
                    recv ? "receive" : "send", q.recv ? "receive" : "send");
    r->pins.push_back({lo, hi, recv});
    nPins++;
    st.sendPins++;
    if (inRegion(lo) && inRegion(hi))
        for (u64 g = (lo - BASE) >> 3; g <= (hi - 1 - BASE) >> 3; g++) if (pinMap[g] < 255) pinMap[g]++;
}
void pinDel(Rank *r, const void *p, size_t n, bool recv) {
    if (!n) return;
    uintptr_t lo = (uintptr_t)p, hi = lo + n;
    for (size_t i = 0; i < r->pins.size(); i++)
        if (r->pins[i].lo == lo && r->pins[i].hi == hi && r->pins[i].recv == recv) {
            r->pins[i] = r->pins.back();
            r->pins.pop_back();
            nPins--;
            if (inRegion(lo) && inRegion(hi))
                for (u64 g = (lo - BASE) >> 3; g <= (hi - 1 - BASE) >> 3; g++) if (pinMap[g] && pinMap[g] < 255) pinMap[g]--;
            return;
        }
}
static __attribute__((noinline)) void pinCheck(uintptr_t a, size_t n, bool w, void *pc) {
    if (cur->hostDepth) return;
    for (Pin &q : cur->rank->pins)
        if (q.lo < a + n && a < q.hi) {
            if (q.recv)
                violate("mpi.recvbuf.access", "%s of the buffer of an unfinished receive at %s",
                        w ? "write" : "read", whereIs(pc));
            else if (w)
                violate("mpi.sendbuf.write", "write into the buffer of an unfinished send at %s", whereIs(pc));
        }
}

// ---------------------------------------------------------------- races
bool multi(Fiber *f) { return f->team && f->team->live > 1; }
void regSegment(int rank, uintptr_t lo, uintptr_t hi) {
    if (hi - lo > SEGMAX) hi = lo + SEGMAX;
    ranks[rank].segLo = lo;
    ranks[rank].segHi = hi;
    ranks[rank].segShadow = (u64)rank * (SEGMAX >> 3);
}
static inline Sh *shadowOf(Fiber *f, uintptr_t a) {
    if (a - BASE < REGION) return shadow + ((a - BASE) >> 3);
    Rank *r = f->rank;
    if (a >= r->segLo && a < r->segHi) return segShadow + r->segShadow + ((a - (r->segLo & ~7ull)) >> 3);
    return nullptr;
}
void raceClear(uintptr_t a, size_t n) {
    if (!inRegion(a) || !n) return;
    memset(shadow + ((a - BASE) >> 3), 0, (((a + n - 1 - BASE) >> 3) - ((a - BASE) >> 3) + 1) * sizeof(Sh));
}
const char *whereIs(void *pc) {
    static char buf[4][300];
    static int k;
    char *b = buf[k++ & 3];
    HostGuard g;
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_fname) {
        const char *s = strrchr(di.dli_fname, '/');
        s = s ? s + 1 : di.dli_fname;
        snprintf(b, 300, "%.60s+0x%lx", s, (unsigned long)((char *)pc - (char *)di.dli_fbase));
    } else {
        snprintf(b, 300, "?");
    }
    return b;
}
static __attribute__((noinline)) void raceReport(Fiber *f, int other, bool w, bool ow, uintptr_t a, void *pc, u32 opc) {
    st.races++;
    if (st.races > 6) return;
    uintptr_t full = ((uintptr_t)pc & ~0xffffffffull) | opc;
    violate("race", "thread %d %s and thread %d %s the same memory (%s) unordered: %s / %s", other,
            ow ? "writes" : "reads", f->tid, w ? "writes" : "reads", inRegion(a) ? "heap or stack" : "global",
            whereIs(pc), opc ? whereIs((void *)full) : "?");
}
static inline void raceOne(Fiber *f, uintptr_t a, Sh *s, u8 mask, bool w, bool atomic, void *pc) {
    int t = f->tid;
    u32 *vc = f->vc;
    if ((s->wmask & mask) && s->wtid != t && s->wclk > vc[s->wtid] && !(atomic && s->watom))
        raceReport(f, s->wtid, w, true, a, pc, s->wpc);
    if (w) {
        int n = f->team->n;
        for (int u = 0; u < n; u++)
            if (u != t && (s->rmask[u] & mask) && s->rclk[u] > vc[u] && !(atomic && (s->ratom >> u & 1)))
                raceReport(f, u, true, false, a, pc, 0);
        if (s->wtid == t && s->wclk == vc[t]) s->wmask |= mask; else s->wmask = mask;
        s->wclk = vc[t]; s->wtid = (u8)t; s->watom = atomic; s->wpc = (u32)(uintptr_t)pc;
    } else {
        if (s->rclk[t] == vc[t]) s->rmask[t] |= mask;
        else s->rmask[t] = mask, s->rclk[t] = vc[t], s->ratom = (unsigned short)(s->ratom & ~(1u << t));
        if (atomic) s->ratom = (unsigned short)(s->ratom | 1u << t); else s->ratom = (unsigned short)(s->ratom & ~(1u << t));
    }
}
static inline void raceRange(Fiber *f, uintptr_t a, size_t n, bool w, bool atomic, void *pc) {
    while (n) {
        unsigned o = a & 7, k = 8 - o;
        if (k > n) k = (unsigned)n;
        Sh *s = shadowOf(f, a);
        if (s) raceOne(f, a, s, (u8)(((1u << k) - 1) << o), w, atomic, pc);
        a += k; n -= k;
    }
}
void yieldPoint() {
    Fiber *f = cur;
    u64 d = cfg.yieldMean ? draw(S_YIELD) : 0;
    f->countdown = d ? 1 + (i64)((d >> 20) % (2 * cfg.yieldMean)) : 20000;
    st.yields++;
    u64 slow = gapMode && ++f->spin > 5 ? (f->spin - 5) * 20 : 0;   // writes nothing the others can see
    fibSleep(1 + (d ? (d >> 4) % 64 : 0) + (slow > 2000 ? 2000 : slow));
}
static __attribute__((noinline)) void notOwn(uintptr_t a, size_t n, bool w, void *pc) {
    if (cur->hostDepth) return;
    // which block is it nearest to?
    uintptr_t h = a & ~15ull;
    const char *what = "outside every allocation";
    for (int i = 0; i < 4096 && h > BASE + 4096; i++, h -= 16) {
        Hdr *q = (Hdr *)h;
        if (q->magic == LIVE) { what = "beyond the end of an allocation"; break; }
        if (q->magic == DEAD) { what = "in memory already freed"; break; }
    }
    violate(what[0] == 'i' ? "memory.freed" : "memory.bounds", "%s of %zu bytes %s at %s", w ? "write" : "read", n, what, whereIs(pc));
}
static inline bool owned(uintptr_t a, size_t n) {
    u64 o = a - BASE;
    while (n) {
        unsigned k = 8 - (o & 7);
        if (k > n) k = (unsigned)n;
        if (own[o >> 3] < (o & 7) + k) return false;
        o += k; n -= k;
    }
    return true;
}
static __attribute__((noinline)) void hang() { jobEnd(J_HANG, cur->rank->id, 0, "no progress: computes without end"); }
// The second way of building the program (SAN=addr in build.sh) puts gaps
// between the arrays of a stack frame and between globals, and marks them in a
// shadow map, one byte for each eight of the program's.
static const uintptr_t SHOFF = 0x200000000000ull, HILO = 0x700000000000ull, HIHI = 0x800000000000ull;
bool gapMode;
void gapInit() {
    gapMode = true;
    for (auto r : {std::make_pair(BASE + (uintptr_t)ARENA, BASE + (uintptr_t)REGION), std::make_pair(HILO, HIHI)}) {
        void *q = (void *)((r.first >> 3) + SHOFF);
        if (mmap(q, (r.second - r.first) >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != q) { fprintf(stderr, "sim: cannot map the gaps\n"); exit(3); }
    }
}
void gapClear(uintptr_t a, size_t n) { if (gapMode && n) memset((void *)((a >> 3) + SHOFF), 0, n >> 3); }
static __attribute__((noinline)) void gapReport(uintptr_t a, size_t n, bool w, void *pc) {
    if (cur->hostDepth) return;
    violate(a < HILO ? "memory.stack" : "memory.global", "%s of %zu bytes outside every variable of the %s at %s", w ? "write" : "read", n, a < HILO ? "stack" : "program", whereIs(pc));
}
static inline void gapCheck(uintptr_t a, size_t n, bool w, void *pc) {
    if (!(a - BASE - ARENA < STACKS) && !(a - HILO < HIHI - HILO)) return;
    for (uintptr_t b = a, e = a + n; b < e;) {
        uintptr_t q = (b | 7) + 1;
        if (q > e) q = e;
        signed char c = *(signed char *)((b >> 3) + SHOFF);
        if (c && (c < 0 || (int)((q - 1) & 7) >= c)) { gapReport(a, n, w, pc); return; }
        b = q;
    }
}
static inline void hook(uintptr_t a, size_t n, bool w, bool atomic, void *pc) {
    Fiber *f = cur;
    if (!f) return;
    if (gapMode) gapCheck(a, n, w, pc);
    st.accesses++;
    if (++f->slice > cfg.accTotal / 3 || st.accesses > cfg.accTotal) hang();
    if (nPins && inRegion(a)) {
        u64 g = (a - BASE) >> 3, g2 = (a + n - 1 - BASE) >> 3;
        u8 any = 0;
        for (; g <= g2; g++) any |= pinMap[g];
        if (any) pinCheck(a, n, w, pc);
    }
    if (a - BASE < ARENA && !owned(a, n)) notOwn(a, n, w, pc);
    Team *t = f->team;
    if (t && t->live > 1) {
        if (gapMode) {   // atomic accesses look like all others: a thread that waits for another has to be stopped soon
            if (w && a - (uintptr_t)f->stack >= f->stackSize) f->spin = 0;
            if (f->countdown > 1000) f->countdown = 1000;
        } else
            raceRange(f, a, n, w, atomic, pc);
        if (!atomic && --f->countdown <= 0) yieldPoint();
    }
}
void memAccess(uintptr_t a, size_t n, bool w, bool atomic, void *pc) { if (n) hook(a, n, w, atomic, pc); }

// Atomics order everything (stronger than relaxed, so an ordering the program
// gets from them is never reported as a race).
static std::map<uintptr_t, std::array<u32, MAXTHR>> syncVar;
void syncAcquire(Fiber *f, const u32 *vc) { for (int i = 0; i < MAXTHR; i++) if (i != f->tid && vc[i] > f->vc[i]) f->vc[i] = vc[i]; }
void syncRelease(Fiber *f, u32 *vc) {
    for (int i = 0; i < MAXTHR; i++) if (f->vc[i] > vc[i]) vc[i] = f->vc[i];
    f->vc[f->tid]++;
}
static void atomicOp(volatile void *a, size_t n, bool w, void *pc) {
    Fiber *f = cur;
    if (!f) return;
    if (!multi(f)) { hook((uintptr_t)a, n, w, true, pc); return; }
    HostGuard g;
    u64 d = draw(S_YIELD), val = 0, slow = 0;
    memcpy(&val, (void *)a, n < 8 ? n : 8);
    if (!w && f->spinAt == (uintptr_t)a && f->spinVal == val) slow = ++f->spin > 10 ? (f->spin - 10) * 5 : 0; else f->spin = 0;
    f->spinAt = (uintptr_t)a; f->spinVal = val;
    fibSleep(1 + (d ? (d >> 4) % 40 : 0) + (slow > 500 ? 500 : slow));
    auto &s = syncVar[(uintptr_t)a];
    syncAcquire(f, s.data());
    hook((uintptr_t)a, n, w, true, pc);
    syncRelease(f, s.data());
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *a) { hook((uintptr_t)a, n, false, false, PC); } \
    void __tsan_write##n(void *a) { hook((uintptr_t)a, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *a) { hook((uintptr_t)a, n, false, false, PC); } \
    void __tsan_volatile_write##n(void *a) { hook((uintptr_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
    void __tsan_unaligned_read##n(void *a) { hook((uintptr_t)a, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { hook((uintptr_t)a, n, true, false, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { hook((uintptr_t)a, n, false, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { hook((uintptr_t)a, n, true, false, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void *a, size_t n) { memAccess((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void *a, size_t n) { memAccess((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_update(void **a, void *v) { (void)v; hook((uintptr_t)a, 8, true, false, PC); }
void __tsan_vptr_read(void **a) { hook((uintptr_t)a, 8, false, false, PC); }
void __tsan_atomic_thread_fence(int) { if (cur && multi(cur)) { HostGuard g; fibSleep(1); } }
void __tsan_atomic_signal_fence(int) {}
#define GAP(n) \
    void __asan_load##n##_noabort(uintptr_t a) { hook(a, n, false, false, PC); } \
    void __asan_store##n##_noabort(uintptr_t a) { hook(a, n, true, false, PC); }
GAP(1) GAP(2) GAP(4) GAP(8) GAP(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { memAccess(a, n, false, false, PC); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { memAccess(a, n, true, false, PC); }
void __asan_handle_no_return() { if (cur) gapClear((uintptr_t)cur->stack, cur->stackSize); }
struct GapGlobal { uintptr_t at; size_t size, padded; const char *name, *module; size_t init, where, odr; };
static void gapGlobals(GapGlobal *g, size_t n, bool on) {
    for (size_t i = 0; i < n; i++)
        if (g[i].at - HILO < HIHI - HILO)
            for (uintptr_t k = 0; k < g[i].padded; k += 8)
                *(signed char *)(((g[i].at + k) >> 3) + SHOFF) = !on || k + 8 <= g[i].size ? 0 : k >= g[i].size ? -7 : (signed char)(g[i].size - k);
}
void __asan_register_globals(GapGlobal *g, size_t n) { gapGlobals(g, n, true); }
void __asan_unregister_globals(GapGlobal *g, size_t n) { gapGlobals(g, n, false); }
void __asan_alloca_poison(uintptr_t, size_t) {}
void __asan_allocas_unpoison(uintptr_t, uintptr_t) {}
void __asan_before_dynamic_init(const char *) {}
void __asan_after_dynamic_init() {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { atomicOp((volatile void *)a, sizeof(T), false, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { atomicOp(a, sizeof(T), true, PC); T o = *a; *a = (T) ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { \
        atomicOp(a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { \
        atomicOp(a, sizeof(T), true, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { \
        atomicOp(a, sizeof(T), true, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---------------------------------------------------------------- program allocation and memory functions
void *__wrap_malloc(size_t n) {
    if (!cur || cur->hostDepth) return malloc(n);
    bool bad; void *p;
    { HostGuard g; p = arenaAlloc(n, true, &bad); }
    return bad ? nullptr : p;
}
void __wrap_free(void *p) {
    if (!p) return;
    if (inArena(p)) {
        if (cur && multi(cur)) memAccess((uintptr_t)p, arenaSize(p) < 4096 ? arenaSize(p) : 4096, true, false, PC);
        HostGuard g; arenaFree(p);
    } else free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!cur || cur->hostDepth) return calloc(a, b);
    if (b && a > SIZE_MAX / b) return nullptr;
    void *p = __wrap_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void *__wrap_realloc(void *o, size_t n) {
    if (!o) return __wrap_malloc(n);
    if (!inArena(o)) return realloc(o, n);
    void *p = __wrap_malloc(n);
    if (!p) return nullptr;
    size_t k = arenaSize(o) < n ? arenaSize(o) : n;
    memcpy(p, o, k);
    __wrap_free(o);
    return p;
}
int __wrap_posix_memalign(void **out, size_t, size_t n) {
    void *p = __wrap_malloc(n);
    if (!p) return 12;
    *out = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    memAccess((uintptr_t)s, n, false, false, PC); memAccess((uintptr_t)d, n, true, false, PC);
    return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    memAccess((uintptr_t)s, n, false, false, PC); memAccess((uintptr_t)d, n, true, false, PC);
    return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    memAccess((uintptr_t)d, n, true, false, PC);
    return memset(d, c, n);
}
}

static inline void *opNew(size_t n, bool *bad) {
    *bad = false;
    if (!cur || cur->hostDepth) { void *p = malloc(n ? n : 1); if (!p) *bad = true; return p; }
    HostGuard g;
    return arenaAlloc(n, true, bad);
}
void *operator new(size_t n) { bool bad; void *p = opNew(n, &bad); if (bad) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { bool bad; void *p = opNew(n, &bad); if (bad) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { bool bad; void *p = opNew(n, &bad); return bad ? nullptr : p; }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { bool bad; void *p = opNew(n, &bad); return bad ? nullptr : p; }
static inline void opDel(void *p, void *pc) {
    if (!p) return;
    if (!inArena(p)) { free(p); return; }
    if (cur && !cur->hostDepth && multi(cur)) memAccess((uintptr_t)p, arenaSize(p) < 4096 ? arenaSize(p) : 4096, true, false, pc);
    HostGuard g;
    arenaFree(p);
}
void operator delete(void *p) noexcept { opDel(p, PC); }
void operator delete[](void *p) noexcept { opDel(p, PC); }
void operator delete(void *p, size_t) noexcept { opDel(p, PC); }
void operator delete[](void *p, size_t) noexcept { opDel(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { opDel(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { opDel(p, PC); }
