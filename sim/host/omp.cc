// OpenMP runtime of the simulator: teams are fibers, and the draws decide who
// runs.  Nested regions are serialised.
#include "sim.hh"
#include <array>
#include <cstdlib>

struct Lock { Fiber *owner = nullptr; int depth = 0; u32 vc[MAXTHR] = {}; std::vector<Fiber *> q; };
static std::map<std::pair<int, uintptr_t>, Lock> locks;
void ompReset() { locks.clear(); }

static void ompYield() {
    if (!cur || !multi(cur)) return;
    u64 d = draw(S_THREAD);
    fibSleep(1 + (d ? (d >> 8) % 60 : 0));
}
static void lockIt(Lock &l, bool nest) {
    Fiber *f = cur;
    if (nest && l.owner == f) { l.depth++; return; }
    ompYield();
    while (l.owner) { l.q.push_back(f); fibBlock("omp lock"); }
    l.owner = f; l.depth = 1;
    syncAcquire(f, l.vc);
}
static void unlockIt(Lock &l) {
    if (l.depth > 1) { l.depth--; return; }
    syncRelease(cur, l.vc);
    l.owner = nullptr; l.depth = 0;
    if (!l.q.empty()) {
        size_t k = drawN(S_PICK, l.q.size());
        Fiber *w = l.q[k];
        l.q.erase(l.q.begin() + k);
        fibWake(w, 1);
    }
    ompYield();
}
static void teamBarrier(Team *t) {
    Fiber *f = cur;
    if (t->n == 1) return;
    ompYield();
    syncRelease(f, t->bar);
    u64 g = t->gen;
    if (++t->arrived == t->n) {
        t->arrived = 0;
        t->gen++;
        memcpy(t->barOut, t->bar, sizeof t->bar);
        for (Fiber *x : t->fib) if (x != f && x->state == Fiber::BLOCKED && x->where == std::string("omp barrier")) {
            u64 d = draw(S_THREAD);
            fibWake(x, 1 + (d ? (d >> 8) % 60 : 0));
        }
    } else {
        while (t->gen == g) fibBlock("omp barrier");
    }
    syncAcquire(f, t->barOut);
}
static void worker(void *p) {
    Team *t = (Team *)p;
    {
        ProgGuard g;
        t->fn(t->data);
    }
    HostGuard g;
    teamBarrier(t);
    t->live--;
    if (t->live == 1) fibWake(t->fib[0], 1);
}

static void parallel(void (*fn)(void *), void *data, unsigned n) {
    Fiber *f = cur;
    if (!f) { fn(data); return; }
    Rank *r = f->rank;
    f->hostDepth++;
    if (n == 0) n = r->nthreadsDefault;
    if (f->team) n = 1;
    if (n > MAXTHR) n = MAXTHR;
    Team *t = new Team();
    t->rank = r; t->n = (int)n; t->live = (int)n; t->arrived = 0; t->gen = 0;
    t->fn = fn; t->data = data; t->parent = f->team; t->parentTid = f->tid;
    memset(t->bar, 0, sizeof t->bar);
    u64 savedRound = f->wsRound;
    f->wsRound = 0;
    if (n > 1) {
        st.teams++;
        u32 base = r->clkBase + 1;
        t->fib.push_back(f);
        f->team = t;
        for (unsigned i = 1; i < n; i++) {
            Fiber *w = fiberNew(r, (int)i, worker, t);
            w->team = t;
            t->fib.push_back(w);
        }
        for (unsigned i = 0; i < n; i++) {
            Fiber *w = t->fib[i];
            for (unsigned k = 0; k < MAXTHR; k++) w->vc[k] = base;
            w->vc[i] = base + 1;
            u64 d = cfg.yieldMean ? draw(S_YIELD) : 0;
            w->countdown = d ? 1 + (i64)((d >> 20) % (2 * cfg.yieldMean)) : 20000;
        }
        for (unsigned i = 1; i < n; i++) {
            u64 d = draw(S_THREAD);
            fiberStart(t->fib[i], 1 + (d ? (d >> 8) % 200 : 0));
        }
        ompYield();
    } else {
        t->fib.push_back(f);
        f->team = t;
    }
    {
        ProgGuard g;
        fn(data);
    }
    if (n > 1) {
        teamBarrier(t);
        while (t->live > 1) fibBlock("omp join");
        u32 m = 0;
        for (Fiber *w : t->fib) for (int k = 0; k < MAXTHR; k++) if (w->vc[k] > m) m = w->vc[k];
        r->clkBase = m + 1;
        // a worker that has been woken but not yet finished is never left behind
        for (size_t i = 1; i < t->fib.size(); i++)
            while (t->fib[i]->state != Fiber::DONE) fibSleep(1);
    }
    f->team = t->parent;
    f->tid = t->parentTid;
    f->wsRound = savedRound;
    delete t;
    f->hostDepth--;
}

// Work sharing: each construct of a team is one round, counted per thread.
static Team soloTeam;
static Team::WS &wsEnter(bool *first) {
    Fiber *f = cur;
    Team *t = f->team ? f->team : &soloTeam;
    if (!f->team) { soloTeam.n = 1; soloTeam.rank = f->rank; soloTeam.ws.clear(); }
    u64 k = ++f->wsRound;
    auto it = t->ws.find(k);
    *first = it == t->ws.end();
    Team::WS &w = t->ws[k];
    if (*first) w = Team::WS();
    w.round = k;
    return w;
}
static Team::WS &wsCur() {
    Fiber *f = cur;
    Team *t = f->team ? f->team : &soloTeam;
    return t->ws[f->wsRound];
}

static bool wsNext(Team::WS &w, long *s, long *e) {
    ompYield();
    if (w.step > 0 ? w.next >= w.end : w.next <= w.end) return false;
    i64 c = w.chunk < 1 ? 1 : w.chunk;
    i64 hi = w.next + c * w.step;
    if (w.step > 0 ? hi > w.end : hi < w.end) hi = w.end;
    *s = w.next; *e = hi;
    w.next = hi;
    return true;
}
static bool wsNextU(Team::WS &w, unsigned long long *s, unsigned long long *e) {
    ompYield();
    if (w.up ? w.unext >= w.uend : w.unext <= w.uend) return false;
    u64 c = w.uchunk < 1 ? 1 : w.uchunk;
    u64 hi = w.unext;
    for (u64 i = 0; i < c; i++) {
        if (w.up ? hi >= w.uend : hi <= w.uend) break;
        hi += w.ustep;
    }
    if (w.up ? hi > w.uend : hi < w.uend) hi = w.uend;
    *s = w.unext; *e = hi;
    w.unext = hi;
    return true;
}


extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n); return cur ? (unsigned)cur->rank->nthreadsDefault : 1; }
void GOMP_barrier() { if (cur && cur->team) { HostGuard g; teamBarrier(cur->team); } }
void GOMP_critical_start() { HostGuard g; lockIt(locks[{cur->rank->id, 0}], false); }
void GOMP_critical_end() { HostGuard g; unlockIt(locks[{cur->rank->id, 0}]); }
void GOMP_critical_name_start(void **p) { HostGuard g; lockIt(locks[{cur->rank->id, (uintptr_t)p}], false); }
void GOMP_critical_name_end(void **p) { HostGuard g; unlockIt(locks[{cur->rank->id, (uintptr_t)p}]); }
void GOMP_atomic_start() { HostGuard g; lockIt(locks[{cur->rank->id, 1}], false); }
void GOMP_atomic_end() { HostGuard g; unlockIt(locks[{cur->rank->id, 1}]); }
bool GOMP_single_start() {
    HostGuard g;
    ompYield();
    bool first;
    wsEnter(&first);
    return first;
}
struct CopyPriv { void *p; };
static std::map<std::pair<Team *, u64>, void *> copyPriv;
void *GOMP_single_copy_start() {
    HostGuard g;
    ompYield();
    bool first;
    wsEnter(&first);
    if (first) return nullptr;
    Team *t = cur->team;
    teamBarrier(t);
    return copyPriv[{t, cur->wsRound}];
}
void GOMP_single_copy_end(void *p) {
    HostGuard g;
    Team *t = cur->team;
    if (!t) return;
    copyPriv[{t, cur->wsRound}] = p;
    teamBarrier(t);
}
unsigned GOMP_sections_start(unsigned n) {
    HostGuard g;
    bool first;
    Team::WS &w = wsEnter(&first);
    if (first) { w.next = 1; w.end = (i64)n + 1; w.step = 1; w.chunk = 1; }
    long s, e;
    return wsNext(w, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next() { HostGuard g; long s, e; return wsNext(wsCur(), &s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long inc, long chunk, long *is, long *ie) { \
        HostGuard g; bool first; Team::WS &w = wsEnter(&first); \
        if (first) { w.next = s; w.end = e; w.step = inc; w.chunk = chunk; } \
        return wsNext(w, is, ie); } \
    bool GOMP_loop_##kind##_next(long *is, long *ie) { HostGuard g; return wsNext(wsCur(), is, ie); } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, \
                                      unsigned long long chunk, unsigned long long *is, unsigned long long *ie) { \
        HostGuard g; bool first; Team::WS &w = wsEnter(&first); \
        if (first) { w.up = up; w.unext = s; w.uend = e; w.ustep = inc; w.uchunk = chunk; } \
        return wsNextU(w, is, ie); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { HostGuard g; return wsNextU(wsCur(), is, ie); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_dynamic_start(s, e, inc, 1, is, ie); } \
    bool GOMP_loop_##kind##_next(long *is, long *ie) { return GOMP_loop_dynamic_next(is, ie); } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, \
                                      unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_dynamic_start(up, s, e, inc, 1, is, ie); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_dynamic_next(is, ie); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
// combined parallel loops: every thread's own start call sets up the round
struct PL { void (*fn)(void *); void *data; long s, e, inc, chunk; };
static void plRun(void *p) {
    PL *l = (PL *)p;
    Fiber *f = cur;
    Team *t = f->team;
    {
        HostGuard g;
        u64 k = ++f->wsRound;
        if (t->ws.find(k) == t->ws.end()) {
            Team::WS &w = t->ws[k];
            w = Team::WS();
            w.next = l->s; w.end = l->e; w.step = l->inc; w.chunk = l->chunk;
        }
    }
    l->fn(l->data);
}
#define PLOOP(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, unsigned) { \
        PL l = {fn, data, s, e, inc, chunk}; parallel(plRun, &l, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned) { \
        PL l = {fn, data, s, e, inc, 1}; parallel(plRun, &l, n); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
    PL l = {fn, data, 1, (long)count + 1, 1, 1}; parallel(plRun, &l, n); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int) {
    if (cpy) {
        std::vector<char> buf;
        char *b;
        { HostGuard g; buf.resize((size_t)size + (size_t)align + 16); b = (char *)(((uintptr_t)buf.data() + (align ? align - 1 : 0)) & ~(uintptr_t)(align ? align - 1 : 0)); }
        cpy(b, data);
        fn(b);
        { HostGuard g; std::vector<char>().swap(buf); }
    } else {
        fn(data);
    }
}
void GOMP_taskwait() {}
void GOMP_taskyield() { HostGuard g; ompYield(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
// ordered: a piece of the loop may go in when all earlier pieces are through
static void ordTurn(Team::WS &w, int tid) {
    auto it = w.mine.find(tid);
    if (it == w.mine.end()) return;
    while ((i64)it->second != w.ordNext) { w.ordWait.push_back(cur); fibBlock("omp ordered"); }
    syncAcquire(cur, w.ordClk);
}
static void ordPass(Team::WS &w, int tid) {
    auto it = w.mine.find(tid);
    if (it == w.mine.end()) return;
    ordTurn(w, tid);
    syncRelease(cur, w.ordClk);
    w.mine.erase(tid);
    w.ordNext++;
    for (Fiber *x : w.ordWait) fibWake(x, 1);
    w.ordWait.clear();
}
static bool ordNext(Team::WS &w, long *is, long *ie) {
    ordPass(w, cur->tid);
    if (!wsNext(w, is, ie)) return false;
    w.mine[cur->tid] = w.issued++;
    return true;
}
static bool ordNextU(Team::WS &w, unsigned long long *is, unsigned long long *ie) {
    ordPass(w, cur->tid);
    if (!wsNextU(w, is, ie)) return false;
    w.mine[cur->tid] = w.issued++;
    return true;
}
void GOMP_ordered_start() { HostGuard g; ordTurn(wsCur(), cur->tid); }
void GOMP_ordered_end() {}
#define LOOPO(kind) \
    bool GOMP_loop_ordered_##kind##_start(long s, long e, long inc, long chunk, long *is, long *ie) { \
        HostGuard g; bool first; Team::WS &w = wsEnter(&first); \
        if (first) { w.next = s; w.end = e; w.step = inc; w.chunk = chunk; } \
        return ordNext(w, is, ie); } \
    bool GOMP_loop_ordered_##kind##_next(long *is, long *ie) { HostGuard g; return ordNext(wsCur(), is, ie); } \
    bool GOMP_loop_ull_ordered_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc, \
                                      unsigned long long chunk, unsigned long long *is, unsigned long long *ie) { \
        HostGuard g; bool first; Team::WS &w = wsEnter(&first); \
        if (first) { w.up = up; w.unext = s; w.uend = e; w.ustep = inc; w.uchunk = chunk; } \
        return ordNextU(w, is, ie); } \
    bool GOMP_loop_ull_ordered_##kind##_next(unsigned long long *is, unsigned long long *ie) { HostGuard g; return ordNextU(wsCur(), is, ie); }
LOOPO(static) LOOPO(dynamic) LOOPO(guided)
bool GOMP_loop_ordered_runtime_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_ordered_dynamic_start(s, e, inc, 1, is, ie); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return GOMP_loop_ordered_dynamic_next(is, ie); }
bool GOMP_loop_ull_ordered_runtime_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc,
                                         unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_ordered_dynamic_start(up, s, e, inc, 1, is, ie); }
bool GOMP_loop_ull_ordered_runtime_next(unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_ordered_dynamic_next(is, ie); }

int omp_get_thread_num() { return cur && cur->team ? (cur->team->n > 1 ? cur->tid : 0) : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return cur ? cur->rank->nthreadsDefault : 1; }
int omp_get_num_procs() { return cfg.threads; }
int omp_get_thread_limit() { return MAXTHR; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
void omp_set_num_threads(int n) { if (cur && n > 0) cur->rank->nthreadsDefault = n > MAXTHR ? MAXTHR : n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { int k = 0; for (Team *t = cur ? cur->team : nullptr; t; t = t->parent) k++; return k; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return cur ? clockNow(cur->rank) * 1e-9 : 0; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *p) { HostGuard g; locks[{cur->rank->id, (uintptr_t)p}] = Lock(); }
void omp_destroy_lock(void *p) { HostGuard g; locks.erase({cur->rank->id, (uintptr_t)p}); }
void omp_set_lock(void *p) { HostGuard g; lockIt(locks[{cur->rank->id, (uintptr_t)p}], false); }
void omp_unset_lock(void *p) { HostGuard g; unlockIt(locks[{cur->rank->id, (uintptr_t)p}]); }
int omp_test_lock(void *p) {
    HostGuard g;
    ompYield();
    Lock &l = locks[{cur->rank->id, (uintptr_t)p}];
    if (l.owner) return 0;
    l.owner = cur; l.depth = 1;
    syncAcquire(cur, l.vc);
    return 1;
}
void omp_init_nest_lock(void *p) { omp_init_lock(p); }
void omp_destroy_nest_lock(void *p) { omp_destroy_lock(p); }
void omp_set_nest_lock(void *p) { HostGuard g; lockIt(locks[{cur->rank->id, (uintptr_t)p}], true); }
void omp_unset_nest_lock(void *p) { HostGuard g; unlockIt(locks[{cur->rank->id, (uintptr_t)p}]); }
}
// function-local statics of the program: guarded construction orders threads
extern "C" int __wrap___cxa_guard_acquire(char *g) {
    if (!cur) { if (*g) return 0; return 1; }
    HostGuard h;
    Lock &l = locks[{cur->rank->id, (uintptr_t)g}];
    if (*g) { syncAcquire(cur, l.vc); return 0; }
    lockIt(l, false);
    if (*g) { unlockIt(l); return 0; }
    return 1;
}
extern "C" void __wrap___cxa_guard_release(char *g) {
    *g = 1;
    if (!cur) return;
    HostGuard h;
    unlockIt(locks[{cur->rank->id, (uintptr_t)g}]);
}
extern "C" void __wrap___cxa_guard_abort(char *g) {
    (void)g;
    if (!cur) return;
    HostGuard h;
    unlockIt(locks[{cur->rank->id, (uintptr_t)g}]);
}
// std::mutex and the like: one OS thread runs all fibers, so the real ones would never return
#include <pthread.h>
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!cur) return pthread_mutex_lock(m); HostGuard g; lockIt(locks[{cur->rank->id, (uintptr_t)m}], false); return 0; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur) return pthread_mutex_unlock(m); HostGuard g; unlockIt(locks[{cur->rank->id, (uintptr_t)m}]); return 0; }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!cur) return pthread_mutex_trylock(m); return omp_test_lock(m) ? 0 : 16; }
