// Scenarios, meshes, the reference model and the oracles.
#pragma once
#include "sim.hh"
#include <array>
#include <functional>

struct Rng {   // host-side generator, never used inside a run
    u64 s;
    explicit Rng(u64 seed) : s(hash64(seed ^ 0x5eed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return hash64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
    double uni() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool pm(int n) { return below(1000) < (u64)n; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

static const u64 NONE = ~0ull;
struct Mesh {
    struct Cell { u64 face[4], node[4], mat; };
    struct Face { u64 cell[2], node[3]; };
    std::vector<Cell> cells; std::vector<Face> faces; std::vector<std::array<double, 3>> nodes;
};
typedef std::vector<u8> Bytes;
Mesh meshBox(int nx, int ny, int nz, int style, double half, double jitter, u64 seed, int mats);
bool meshParse(const Bytes &b, Mesh &m);
Bytes meshBytes(const Mesh &m);
std::string meshCheck(const Mesh &m);               // "" or what is inconsistent
std::vector<int> partition(const Mesh &m, const std::string &kind, int np, u64 seed);
Bytes pmeshBytes(const Mesh &m, const std::vector<int> &part, int np);
void damagePmesh(Bytes &b, const std::string &kind, u64 v);
void damageSmesh(Bytes &b, u64 v);
std::string pmeshCompare(const Bytes &b, const Mesh &m, std::vector<int> *partOut, int np);

// ---- reference model of the physics
struct Quad { int n, na; std::vector<double> ox, oy, oz, w; };
Quad quadMake(int n);
struct Geo {   // per mesh: volumes, face areas and normals, local neighbours
    std::vector<double> vol;
    std::vector<std::array<std::array<double, 3>, 4>> nrm;   // area * outward unit normal
    std::vector<std::array<int, 4>> nbr;                     // neighbour across face opposite vertex i, -1 outside
    std::vector<std::array<std::array<int, 4>, 4>> map;      // map[c][f][v] = vertex of the neighbour at vertex v of c
};
Geo geoMake(const Mesh &m);
bool geoOk(const Mesh &m, const Geo &g, const Quad &q, double minDot);
struct RefDeck { int sn, ng; double st[2], ss[2]; };
struct RefRun {
    std::vector<double> psi;              // [c][a][v], same for each group
    std::vector<double> errs;             // relative change of each iteration
    u64 iters = 0;
    double margin = 1e9;                  // how clear every stopping decision was: min |ln(change/tolerance)|
};
struct RefModel {
    Mesh m; Geo g; Quad q; RefDeck d; std::vector<int> part; int np;
    std::vector<std::vector<int>> order, orderL;     // per angle: full and per-partition sweep order
    std::vector<double> src;
    bool setup();
    void sweep(const std::vector<double> &tot, std::vector<double> &psi, const std::vector<double> *bound, bool local) const;
    void phiOf(const std::vector<double> &psi, std::vector<double> &phi) const;
    void total(const std::vector<double> &phi, std::vector<double> &tot) const;
    RefRun si(u64 iterMax, double errMax) const;      // full sweeps, source iteration
    RefRun krylov(u64 iterMax, double rtol, std::vector<double> *res) const;
    RefRun pbjsi(u64 ddMax, double ddErr) const;
    RefRun pbjOuter(u64 ddMax, double ddErr, u64 itMax, double errMax, std::vector<u64> *inner) const;
    RefRun pbj(u64 ddMax, double ddErr, u64 itMax, double errMax, std::vector<u64> *inner) const;
    RefRun exact() const;                              // converged flux
    double l2(const std::vector<double> &psi) const;
    double relErr(const std::vector<double> &a, const std::vector<double> &b) const;
};

// ---- scenarios
struct Scenario {
    std::map<std::string, std::string> kv;
    std::string get(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    i64 num(const std::string &k, i64 d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), nullptr, 0); }
    double dbl(const std::string &k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), nullptr); }
    void set(const std::string &k, const std::string &v) { kv[k] = v; }
    void set(const std::string &k, i64 v) { kv[k] = std::to_string(v); }
    void setd(const std::string &k, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; }
    std::string text() const { std::string s; for (auto &p : kv) s += p.first + "=" + p.second + "\n"; return s; }
    static Scenario parse(const std::string &t);
};
struct RunResult {
    bool done = false;             // a verdict came back
    std::vector<Violation> viols;
    u64 hash = 0, sched = 0;
    Stats st = {};
    u64 simTime = 0;
    std::string status, note;
    u64 drawsUsed[S_NUM] = {};
    std::string err;               // the harness itself failed
    double wall = 0;
    int nontrivial = 0;
    u64 runs = 0;
    std::string concrete;          // the scenario with its fault plan resolved, when a planned fault broke it
    std::vector<u64> scheds;       // schedules of the inner runs
};
void armTimer();
std::vector<std::string> splitStr(const std::string &s, char c);
bool buildMesh(const Scenario &s, Mesh &m);
JobCfg cfgFrom(const Scenario &s);
bool startJob(const std::string &lib, const std::string &entry, const JobCfg &c, RunResult &r);
bool isolated(RunResult &r, const std::function<void(RunResult &)> &f);
bool endedWell(RunResult &r);
void addViols(RunResult &r);
std::string aimFault(const std::string &group, Rng &g, const Stats &t, int np);
const char *statusName(JobStatus s);
struct Report { int rank, tid, tag; std::vector<u64> v; };
extern std::vector<Report> reports;
void genScenario(const std::string &prop, bool thorough, u64 index, Rng &g, Scenario &s);
bool classOf(const std::string &prop, const std::string &cls);
void runScenario(const Scenario &s, RunResult &r);   // in the child

// libraries
struct Lib { void *h[MAXRANK]; };
void *libSym(const std::string &lib, int rank, const std::string &entry);   // null when the library or entry is missing
extern std::string verifDir, repoDir, buildDir;

// driver reports (filled by extern "C" functions the drivers call)
