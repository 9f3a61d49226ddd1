#include <unordered_map>
#include "sim.hh"
#include <queue>
#include <cstdarg>
#include <cstdlib>
#include <exception>
#include <link.h>
#include <cxxabi.h>

const char *streamName[S_NUM] = {"cost", "yield", "delay", "proto", "late", "pick", "probe",
                                 "reduce", "coll", "stall", "clock", "thread", "file"};
const char *faultName[F_NUM] = {
    "none", "alloc_fail", "mpiio_write_eio", "mpiio_write_enospc", "mpiio_write_short",
    "mpiio_openw_fail", "mpiio_delete_fail", "mpiio_close_fail", "mpiio_openr_fail",
    "mpiio_read_eio", "mpiio_read_short", "kill_job", "stdio_open_fail", "stdio_read_eio",
    "stdio_read_short", "stdio_write_eio", "stdio_write_short", "stdio_close_fail",
    "stdio_disk_full", "process_stall", "clock_jump", "file_damage",
    "deck_open_fail", "deck_read_eio", "deck_read_short", "deck_read_cut"};

Fiber *cur;
Rank ranks[MAXRANK];
JobCfg cfg;
u64 now;
Outcome out;
std::vector<Violation> viols;
Stats st;
std::string rankOut[MAXRANK];
u64 logHash, schedHash;

u64 hash64(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
u64 draw(int s) {
    Draws &d = cfg.draws;
    u64 i = d.n[s]++;
    if (!d.all) {
        bool on = false;
        for (auto &r : d.act[s]) if (i >= r.lo && i < r.hi) { on = true; break; }
        if (!on) return 0;
    }
    u64 h = hash64(d.seed * 0x9e3779b97f4a7c15ull + hash64((u64)s * 0xd1342543de82ef95ull + i));
    return h ? h : 1;
}
void logEvent(u64 a, u64 b, u64 c) {
    u64 h = logHash ^ (now * 0x100000001b3ull) ^ ((u64)(cur ? cur->id + 1 : 0) << 56);
    h = hash64(h + a * 0x9e3779b97f4a7c15ull);
    logHash = hash64(h ^ hash64(b + (c << 20)));
}
void violate(const char *cls, const char *fmt, ...) {
    char buf[600];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    HostGuard g;
    for (auto &v : viols) if (v.cls == cls && v.detail == buf) return;
    if (viols.size() < 40) viols.push_back({cls, buf});
}
Fault *faultAt(int kind, int rank, i64 index) {
    for (auto &f : cfg.faults)
        if (f.kind == kind && (f.rank == rank || f.rank < 0) && f.index == index && !f.fired) {
            f.fired = true;
            st.faultsFired[kind]++;
            logEvent(0xfa, kind, index);
            return &f;
        }
    return nullptr;
}

// ---------------------------------------------------------------- switching
asm(R"(
.text
.globl fib_switch
.type fib_switch,@function
fib_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size fib_switch,.-fib_switch
)");
extern "C" void fib_switch(void **save, void *to);
static void *schedSp;
static bool ended;
static std::vector<Fiber *> allFibers;

struct Event { u64 t, seq; Fiber *f; void (*fn)(void *); void *p; };
struct EvCmp { bool operator()(const Event &a, const Event &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Event, std::vector<Event>, EvCmp> heap;
static u64 evSeq;

// The C++ runtime keeps the stack of caught exceptions per OS thread; each
// fiber needs its own, and its own copy of the program's thread-local data.
static void **ehGlobals() { return (void **)abi::__cxa_get_globals(); }
struct TlsInfo { size_t modid, size; const void *img; size_t imgSize; };
static TlsInfo tlsOf[MAXRANK];
extern "C" void *__tls_get_addr(void *);
static void *tlsBlock(int r) {
    size_t ti[2] = {tlsOf[r].modid, 0};
    return __tls_get_addr(ti);
}
void setTls(int r, size_t modid, size_t size) { tlsOf[r].modid = modid; tlsOf[r].size = size; }

static void enter(Fiber *f) {   // scheduler -> fiber
    void **eh = ehGlobals();
    void *save[2] = {eh[0], eh[1]};
    eh[0] = f->eh[0]; eh[1] = f->eh[1];
    size_t ts = tlsOf[f->rank->id].size;
    if (ts && !f->tls.empty()) memcpy(tlsBlock(f->rank->id), f->tls.data(), ts);
    f->state = Fiber::RUNNING;
    f->slice = 0;
    cur = f;
    schedHash = hash64(schedHash ^ (u64)f->id);
    fib_switch(&schedSp, f->sp);
    if (ts) { f->tls.resize(ts); memcpy(f->tls.data(), tlsBlock(f->rank->id), ts); }
    f->eh[0] = eh[0]; f->eh[1] = eh[1];
    eh[0] = save[0]; eh[1] = save[1];
    cur = nullptr;
}
static void leave() { fib_switch(&cur->sp, schedSp); }

static void fiberMain() noexcept;
static void fiberMain() noexcept {
    Fiber *f = cur;
    f->hostDepth = 0;
    f->fn(f->arg);
    f->hostDepth = 1;
    f->state = Fiber::DONE;
    leave();
    abort();
}
extern "C" void fiber_entry_c() { fiberMain(); }
asm(R"(
.text
.globl fiber_entry
fiber_entry:
    xorq %rbp, %rbp
    pushq $0
    call fiber_entry_c
    ud2
)");
extern "C" void fiber_entry();

Fiber *fiberNew(Rank *r, int tid, void (*fn)(void *), void *arg) {
    int id = r->id * FIBSLOT + tid;
    Fiber *f = nullptr;
    for (Fiber *x : allFibers) if (x->id == id) { f = x; break; }
    if (f) {
        if (f->state != Fiber::DONE) abort();
        *f = Fiber();
    } else {
        f = new Fiber;
        allFibers.push_back(f);
    }
    f->rank = r; f->tid = tid; f->fn = fn; f->arg = arg; f->id = id;
    f->stackSize = 512 * 1024;
    f->stack = stackRegion(f->id, f->stackSize);
    gapClear((uintptr_t)f->stack, f->stackSize);
    size_t dirty = tid ? 16384 : 65536;   // what is not initialised does not happen to be zero
    memset(f->stack + f->stackSize - dirty, 0xf7, dirty);
    f->hostDepth = 1;
    if (tlsOf[r->id].size) {
        size_t ts = tlsOf[r->id].size;
        f->tls.resize(ts);
        // a fresh thread starts from the image of the rank's first thread
        memcpy(f->tls.data(), tlsBlock(r->id), ts);
    }
    char *top = f->stack + f->stackSize - 64;
    void **sp = (void **)((uintptr_t)top & ~15ull);
    *--sp = nullptr;
    *--sp = (void *)fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    --sp;
    u32 mx; unsigned short cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((u32 *)sp)[0] = mx; ((u32 *)sp)[1] = cw;
    f->sp = sp;
    return f;
}
void fiberStart(Fiber *f, u64 dt) { f->state = Fiber::READY; heap.push({now + dt, evSeq++, f, nullptr, nullptr}); }
void at(u64 dt, void (*fn)(void *), void *p) { heap.push({now + dt, evSeq++, nullptr, fn, p}); }

// Steps are counted without those that drawn preemptions add.
static i64 novelAt;
static std::unordered_map<u64, u64> lastContent;
static inline i64 effSteps() { return (i64)st.steps - 2 * (i64)st.yields; }
static inline bool livelock() { return effSteps() - novelAt > (i64)cfg.stepLimit || effSteps() > (i64)cfg.stepTotal; }
void novelty(u64 channel, u64 content) {
    u64 &l = lastContent[channel];
    if (l == content + 1) return;
    l = content + 1;
    novelAt = std::max(novelAt, effSteps());
}
void fibSleep(u64 dt) {
    HostGuard g;
    if (dt == 0) dt = 1;
    st.steps++;
    if (livelock()) jobEnd(J_LIVELOCK, cur->rank->id, 0, "step limit");
    cur->slice = 0;
    if (heap.empty() || heap.top().t > now + dt) { now += dt; return; }
    fiberStart(cur, dt);
    leave();
}
void fibBlock(const char *where) {
    HostGuard g;
    cur->state = Fiber::BLOCKED;
    cur->where = where;
    leave();
    cur->where = "";
}
void fibWake(Fiber *f, u64 dt) {
    if (f->state == Fiber::BLOCKED) fiberStart(f, dt);
}
void waitOn(Rank *r, const char *where) {
    HostGuard g;
    r->waiters.push_back(cur);
    fibBlock(where);
}
void rankChanged(Rank *r) {
    if (r->waiters.empty()) return;
    std::vector<Fiber *> w;
    w.swap(r->waiters);
    for (Fiber *f : w) fibWake(f, 1);
}
static void jobSet(JobStatus s, int rank, int code, const char *why, const std::string &d) {
    if (ended) return;
    ended = true;
    out.status = s; out.rank = rank; out.code = code; out.why = why; out.detail = d;
    logEvent(0xe0d, s, code);
}
void jobEnd(JobStatus s, int rank, int code, const char *why, const std::string &d) {
    if (cur) cur->hostDepth++;
    jobSet(s, rank, code, why, d);
    if (cur) { cur->state = Fiber::DONE; leave(); }
    abort();
}
void rankExit(int code, const char *how) {
    Rank *r = cur->rank;
    stdioAtExit(r);
    cur->hostDepth++;
    code &= 0xff;
    logEvent(0xe1, r->id, code);
    if (code) jobEnd(J_FAILED, r->id, code, how);
    // mpirun makes a failure of this; a process started alone just ends with 0
    if (r->inited && !r->finalized) {
        if (cfg.ranks > 1) jobEnd(J_FAILED, r->id, code, "exit without MPI_Finalize");
        jobEnd(J_OK, r->id, 0, "exit without MPI_Finalize");
    }
    r->done = true;
    r->exitCode = code;
    mpiAtRankEnd(r);
    bool all = true;
    for (int i = 0; i < cfg.ranks; i++) all &= ranks[i].done;
    if (all) { mpiAtJobEnd(); jobSet(J_OK, -1, 0, "all ranks finished", ""); }
    cur->state = Fiber::DONE;
    leave();
    abort();
}
// abort(), a failed assertion, an uncaught exception: the program's own handler
// for SIGABRT runs first, as it would.
void rankAbort(const char *how) {
    Rank *r = cur->rank;
    void (*h)(int) = r->sigh[6];
    cur->hostDepth = 1;
    if (h && (uintptr_t)h > 1) {
        r->sigh[6] = nullptr;
        ProgGuard g;
        h(6);
    }
    jobEnd(J_FAILED, r->id, 134, how);
}

static void rankMain(void *p) {
    typedef int (*MainFn)(int, char **);
    Rank *r = cur->rank;
    int argc; char **argv;
    {
        HostGuard g;
        // arguments live in the program's memory
        std::vector<std::string> a = cfg.args;
        a.insert(a.begin(), "./program");
        argc = (int)a.size();
        argv = (char **)arenaAlloc(sizeof(char *) * (argc + 1), false, nullptr);
        for (int i = 0; i < argc; i++) {
            argv[i] = (char *)arenaAlloc(a[i].size() + 1, false, nullptr);
            memcpy(argv[i], a[i].c_str(), a[i].size() + 1);
        }
        argv[argc] = nullptr;
    }
    int code = ((MainFn)p)(argc, argv);
    (void)r;
    rankExit(code, "main returned");
}

void runJob(void *const entry[]) {
    now = 0; ended = false; evSeq = 0;
    while (!heap.empty()) heap.pop();
    memReset(); mpiReset(); fileReset(); stdioReset(); ompReset(); petscReset();
    out = Outcome();
    logHash = 1; schedHash = 1;
    for (int i = 0; i < MAXRANK; i++) rankOut[i].clear();
    for (int i = 0; i < cfg.ranks; i++) {
        Rank &r = ranks[i];
        uintptr_t lo = r.segLo, hi = r.segHi; u64 ss = r.segShadow;
        r = Rank();
        r.segLo = lo; r.segHi = hi; r.segShadow = ss;
        r.id = i;
        r.nthreadsDefault = cfg.threads;
        r.speed = 1;
        if (cfg.speedSpread > 1) r.speed = 1 + (double)drawN(S_COST, 1000) / 1000.0 * (cfg.speedSpread - 1);
        r.main = fiberNew(&r, 0, rankMain, entry[i]);
        r.main->isMain = true;
    }
    for (int i = 0; i < cfg.ranks; i++) fiberStart(ranks[i].main, 1 + drawN(S_COST, cfg.costJit + 1));
    while (!ended) {
        if (heap.empty()) {
            std::string d;
            for (Fiber *f : allFibers)
                if (f->state == Fiber::BLOCKED)
                    d += "rank " + std::to_string(f->rank->id) + " thread " + std::to_string(f->tid) +
                         " in " + f->where + "; ";
            jobSet(J_DEADLOCK, -1, 0, "no process can continue", d);
            break;
        }
        Event e = heap.top();
        heap.pop();
        now = e.t;
        if (e.f) {
            st.steps++;
            st.switches++;
            if (livelock()) { jobSet(J_LIVELOCK, -1, 0, "step limit", ""); break; }
            enter(e.f);
        } else {
            e.fn(e.p);
        }
    }
    for (Fiber *f : allFibers) delete f;
    allFibers.clear();
    while (!heap.empty()) heap.pop();
}
// used by the signal handler: abandon the program at once
bool inProgram() { return cur != nullptr; }
