// Core of the simulator: ranks and threads as fibers of one OS thread, a
// virtual clock, seeded draws, fault injection, and the record of one run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <array>
#include <vector>
#include <map>
#include <set>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static const int MAXRANK = 16, MAXTHR = 10, FIBSLOT = 12;   // stacks are laid out FIBSLOT to a process

// ---------------------------------------------------------------- draws
// Every nondeterministic choice is draw(stream): a hash of (seed, stream, how
// many draws this stream has made).  A replay file lists which ranges of each
// stream are active; an inactive draw returns 0, which every user of a draw
// takes as the calm choice (no delay, in order, no preemption).
enum Stream { S_COST, S_YIELD, S_DELAY, S_PROTO, S_LATE, S_PICK, S_PROBE, S_REDUCE, S_COLL,
              S_STALL, S_CLOCK, S_THREAD, S_FILE, S_NUM };
extern const char *streamName[S_NUM];
struct DrawRange { u64 lo, hi; };   // active draws: lo <= index < hi
struct Draws {
    u64 seed = 1;
    bool all = true;
    std::vector<DrawRange> act[S_NUM];
    u64 n[S_NUM] = {};
};

// ---------------------------------------------------------------- faults
enum FaultKind { F_NONE, F_ALLOC, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT, F_OPENW_FAIL,
                 F_DELETE_FAIL, F_CLOSE_FAIL, F_OPENR_FAIL, F_READ_EIO, F_READ_SHORT, F_KILL,
                 F_STDIO_OPEN, F_STDIO_READ, F_STDIO_READSHORT, F_STDIO_WRITE, F_STDIO_WSHORT,
                 F_STDIO_CLOSE, F_STDIO_ENOSPC, F_STALL, F_CLOCKJUMP, F_FLIP,
                 F_DECK_OPEN, F_DECK_EIO, F_DECK_SHORT, F_DECK_CUT, F_NUM };
extern const char *faultName[F_NUM];
struct Fault {
    int kind = F_NONE;
    int rank = 0;      // rank whose operation is hit (-1: any rank, global count)
    i64 index = 0;     // which operation of that class on that rank
    i64 param = 0;     // bytes kept by a short operation, ticks of a jump, ...
    bool fired = false;
};

// ---------------------------------------------------------------- config
struct JobCfg {
    int ranks = 1, threads = 1;
    Draws draws;
    // schedule and message behaviour
    int delayMean = 0;      // extra message latency
    int protoMode = 0;      // 0 eager 1 late capture 2 rendezvous 3 mixed
    int yieldMean = 0;      // accesses between preemptions in a team (0: only at sync points)
    int lateRecv = 0;       // 1: completion of a matched receive is delayed at random
    int costJit = 0;        // jitter of each call's cost
    int speedSpread = 0;    // ranks differ in speed by up to this factor
    int stallPm = 0;        // per-mille chance of a long stall at a call
    int probeMiss = 0;      // percent of polls that miss an arrived message
    int reduceMode = 0;     // 1: reductions combine in random order
    bool builds = false;    // the job works out sweep schedules before its first sweep
    int clockMode = 0;      // 0 steady 1 jumps 2 frozen 3 backwards 4 per-rank skew and drift 5 long stops before most readings 6 before all
    std::vector<Fault> faults;
    u64 stepLimit = 3000000;          // steps without anything new before a livelock is reported
    u64 stepTotal = ~0ull >> 2, accTotal = 1200000000ull;   // of the whole run
    // program
    std::string entry = "tycho_main";
    std::vector<std::string> args;
    int lib = 0;            // which library family holds the entry
};

// ---------------------------------------------------------------- disk
struct DiskFile { std::vector<u8> data; };
struct WriteLog { int op; std::string path; u64 off, len; std::vector<u8> old; bool existed; };
extern std::map<std::string, DiskFile> disk;
bool isSimPath(const char *p);

// ---------------------------------------------------------------- outcome
enum JobStatus { J_RUNNING, J_OK, J_FAILED, J_DEADLOCK, J_LIVELOCK, J_HANG, J_KILLED };
struct Outcome {
    JobStatus status = J_RUNNING;
    int rank = -1;          // rank that decided it
    int code = 0;
    std::string why;        // "exit", "abort", "MPI_Abort", "signal 8", ...
    std::string detail;
};
struct Violation { std::string cls, detail; };
struct Stats {
    u64 steps, msgs, bytes, colls, reorder, lateRecv, rndv, lateCap, eager, probeMiss, stalls,
        yields, switches, teams, races, allocs[MAXRANK], accesses, fileOps, clockReads, clockJumps,
        faultsFired[F_NUM], rndReduce, sendPins, mpiCalls[MAXRANK], fwrites[MAXRANK],
        freads[MAXRANK], closes[MAXRANK], opens[MAXRANK], sReads, sWrites, sOpens, sCloses,
        deckReads[MAXRANK], deckOpens[MAXRANK];
};
void novelty(u64 channel, u64 content);   // a message or contribution: progress when it differs from the last one there
extern Outcome out;
extern std::vector<Violation> viols;
extern std::vector<u64> allocPicks;      // allocations of a fault-free run, three from each place in the program: rank << 40 | index
extern bool recordAllocs;
extern Stats st;
extern std::string rankOut[MAXRANK];
extern u64 logHash, schedHash;
void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void logEvent(u64 a, u64 b = 0, u64 c = 0);

// ---------------------------------------------------------------- fibers
struct Team; struct Fiber; struct Rank;
struct Fiber {
    void *sp = nullptr;
    Rank *rank = nullptr;
    int tid = 0, id = 0;
    Team *team = nullptr;
    enum { READY, RUNNING, BLOCKED, DONE } state = READY;
    int hostDepth = 0;
    void *eh[2] = {nullptr, nullptr};
    void (*fn)(void *) = nullptr;
    void *arg = nullptr;
    u32 vc[MAXTHR] = {};
    i64 countdown = 0;
    u64 slice = 0;
    bool isMain = false;
    u64 idle = 0, spin = 0, spinVal = 0; uintptr_t spinAt = 0;   // fruitless polls in a row
    u64 wsRound = 0;     // work-sharing constructs entered
    char *stack = nullptr;
    u64 stackSize = 0;
    const char *where = "";
    std::vector<u8> tls;
};
struct Pin { uintptr_t lo, hi; bool recv; };
struct Rank {
    int id = 0;
    Fiber *main = nullptr;
    bool inited = false, finalized = false, done = false;
    int exitCode = 0;
    int threadLevel = 0;
    int inMpi = 0;
    Fiber *mpiOwner = nullptr;
    int nthreadsDefault = 1;
    u32 clkBase = 0;            // largest clock used by finished teams
    std::vector<Pin> pins;
    u64 collSeq = 0;
    double speed = 1;
    i64 clockOff = 0;
    u64 stall = 0;
    u64 allocCount = 0;
    i64 liveBytes = 0, solverObjs = 0;
    std::vector<std::array<i64, 4>> holds;   // at each collective: live bytes, requests, solver objects, length of the first process's output
    unsigned randState = 1;
    void (*sigh[65])(int) = {};
    uintptr_t segLo = 0, segHi = 0;
    u64 segShadow = 0;
    std::vector<Fiber *> waiters;
    u32 mpiClk[MAXTHR] = {};    // clock of each thread's last call
};
extern Fiber *cur;
extern Rank ranks[MAXRANK];
extern JobCfg cfg;
extern u64 now;

u64 draw(int stream);
static inline u64 drawN(int s, u64 n) { u64 d = draw(s); return n ? d % n : 0; }
static inline bool chance(int s, u64 permille) {
    if (!permille) return false;
    u64 d = draw(s);
    return d && (d >> 8) % 1000 < permille;
}
Fault *faultAt(int kind, int rank, i64 index);

Fiber *fiberNew(Rank *r, int tid, void (*fn)(void *), void *arg);
void fiberStart(Fiber *f, u64 dt);
void fibSleep(u64 dt);
void fibBlock(const char *where);
void fibWake(Fiber *f, u64 dt);
void waitOn(Rank *r, const char *where);   // block until the rank's state changes
void rankChanged(Rank *r);
struct EventFn { void (*fn)(void *); };
void at(u64 dt, void (*fn)(void *), void *p);
[[noreturn]] void jobEnd(JobStatus s, int rank, int code, const char *why, const std::string &d = "");
[[noreturn]] void rankExit(int code, const char *how);
void rankAbort(const char *how);
void runJob(void *const entry[]);

struct HostGuard {
    Fiber *f; HostGuard() : f(cur) { if (f) f->hostDepth++; }
    ~HostGuard() { if (f) f->hostDepth--; }
};
struct ProgGuard {   // back into program code from a host function
    Fiber *f; int d; ProgGuard() : f(cur), d(0) { if (f) { d = f->hostDepth; f->hostDepth = 0; } }
    ~ProgGuard() { if (f) f->hostDepth = d; }
};

// ---------------------------------------------------------------- memory, races
void memInit();
void memReset();
void *arenaAlloc(size_t n, bool count, bool *failed);
void arenaFree(void *p);
bool inArena(const void *p);
size_t arenaSize(void *p);
char *stackRegion(int fiberId, u64 size);
void pinAdd(Rank *r, const void *p, size_t n, bool recv);
void pinDel(Rank *r, const void *p, size_t n, bool recv);
void raceClear(uintptr_t a, size_t n);
extern bool gapMode;
void gapInit();
void gapClear(uintptr_t a, size_t n);
void memAccess(uintptr_t a, size_t n, bool write, bool atomic, void *pc);
void regSegment(int rank, uintptr_t lo, uintptr_t hi);
const char *whereIs(void *pc);
void syncAcquire(Fiber *f, const u32 *vc);
void syncRelease(Fiber *f, u32 *vc);
struct Team {
    Rank *rank; int n; int live; int arrived; u64 gen;
    void (*fn)(void *); void *data;
    std::vector<Fiber *> fib;
    u32 bar[MAXTHR], barOut[MAXTHR];
    Team *parent; int parentTid;
    struct WS { u64 round; i64 next, end, step, chunk; u64 unext, uend, ustep, uchunk; bool up; int arrived; int single; i64 ordNext; u64 issued; std::map<int, u64> mine; std::vector<Fiber *> ordWait; u32 ordClk[MAXTHR]; };
    std::map<u64, WS> ws;
};
bool multi(Fiber *f);
void ompReset();
void mpiReset();
void mpiAtRankEnd(Rank *r);
void mpiAtJobEnd();
void fileReset();
void stdioReset();
void stdioAtExit(Rank *r);
void captureOutput();
void setTls(int rank, size_t modid, size_t size);
void reportClear();
void petscReset();
void yieldPoint();
void mpiAllreduceHost(double *v, int n);   // collective used by the solver stub
void callCost(const char *name);           // one call into the outside world takes simulated time
u64 clockNow(Rank *r);
u64 hash64(u64 x);
