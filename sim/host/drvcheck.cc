// Drivers: small clients linked with the program that record what its parts
// do, and the mesh tools.  What they report is checked here against the mesh.
#include "vs.hh"
#include <cmath>
#include <cstdarg>
#include <algorithm>

std::vector<Report> reports;
void reportClear() { reports.clear(); }
extern "C" void simReport(int tag, int n, const unsigned long long *v) {
    HostGuard g;
    if (!cur) return;
    reports.push_back({cur->rank->id, cur->tid, tag, std::vector<u64>(v, v + n)});
}
static void fail(RunResult &r, const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void fail(RunResult &r, const std::string &cls, const char *fmt, ...) {
    char b[900];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (auto &v : r.viols) if (v.cls == cls) return;
    r.viols.push_back({cls, b});
}
// ---- the same encodings as the drivers use
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static u64 key(u64 a, u64 b, u64 c, u64 d, u64 e) { return mix(mix(mix(mix(mix(a + 1) + b) + c) + d) + e); }
static double keyVal(u64 k) { return (double)(k >> 12) / 4096.0 - 1e9; }
static u64 bits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static double dbl(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static bool near(double a, double b, double rel) { return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)); }

struct DW {
    Mesh m; Geo g; Quad q; std::vector<int> part; int np, ng, threads;
    std::vector<std::array<int, 4>> back;    // my face as the neighbour's face
    std::vector<std::array<u64, 4>> gface;   // global face opposite vertex f
    std::vector<std::vector<std::array<char, 4>>> out;   // [a][c][f] 1: flows out, 2: parallel to the angle
    bool ok(u64 c) const { return c < m.cells.size(); }
    int nb(u64 c, int f) const { return g.nbr[c][(size_t)f]; }
    bool cut(u64 c, int f) const { int o = nb(c, f); return o >= 0 && part[(size_t)o] != part[c]; }
};
static bool world(const Scenario &s, DW &w, RunResult &r) {
    w.np = (int)s.num("np", 1); w.ng = (int)s.num("ng", 1); w.threads = (int)s.num("threads", 1);
    if (!buildMesh(s, w.m)) { r.err = "no usable mesh for this seed"; return false; }
    if ((int)w.m.cells.size() < w.np) { r.err = "mesh smaller than the job"; return false; }
    w.part = partition(w.m, s.get("part", "blob"), w.np, (u64)s.num("pseed", 1));
    w.g = geoMake(w.m);
    w.q = quadMake((int)s.num("sn", 2));
    size_t n = w.m.cells.size();
    w.back.resize(n); w.gface.resize(n);
    for (size_t c = 0; c < n; c++) for (int f = 0; f < 4; f++) {
        int o = w.nb(c, f);
        w.back[c][(size_t)f] = -1;
        if (o >= 0) for (int k = 0; k < 4; k++) if (w.nb((u64)o, k) == (int)c) w.back[c][(size_t)f] = k;
        for (u64 gf : w.m.cells[c].face) {
            auto &F = w.m.faces[gf];
            if (std::find(F.node, F.node + 3, w.m.cells[c].node[f]) == F.node + 3) w.gface[c][(size_t)f] = gf;
        }
    }
    w.out.resize((size_t)w.q.na);
    for (size_t a = 0; a < (size_t)w.q.na; a++) {
        w.out[a].resize(n);
        for (size_t c = 0; c < n; c++) for (size_t f = 0; f < 4; f++) {
            auto &N = w.g.nrm[c][f];
            double x = N[0] * w.q.ox[a] + N[1] * w.q.oy[a] + N[2] * w.q.oz[a];
            w.out[a][c][f] = x * x < 1e-20 * (N[0] * N[0] + N[1] * N[1] + N[2] * N[2]) ? 2 : x > 0;
        }
    }
    disk.clear();
    disk["mesh.pmesh"].data = pmeshBytes(w.m, w.part, w.np);
    return true;
}
static std::vector<std::string> baseArgs(const Scenario &s) {
    return {"mesh.pmesh", std::to_string(s.num("sn", 2)), std::to_string(s.num("ng", 1)), s.get("mpi") == "CapsaicinTwoSided" ? "1" : "0"};
}
#define L(x) ((unsigned long long)(x))

// ---- traversals
static void checkTraverse(const Scenario &s, const DW &w, RunResult &r) {
    std::string plan = s.get("plan", "F");
    size_t n = w.m.cells.size(), na = (size_t)w.q.na;
    int size = (int)s.num("dsize", 24);
    struct Ev { i64 b = -1, e = -1; int cnt = 0; };
    for (size_t t = 0; t < plan.size(); t++) {
        bool fwd = plan[t] == 'f' || plan[t] == 'F', comm = plan[t] == 'F' || plan[t] == 'B';
        std::vector<Ev> ev(n * na);
        std::vector<std::array<i64, 4>> got(n * na, {-1, -1, -1, -1});
        auto isIn = [&](size_t a, size_t c, int f) { return w.out[a][c][(size_t)f] == (fwd ? 0 : 1); };
        auto isPar = [&](size_t a, size_t c, int f) { return w.out[a][c][(size_t)f] == 2; };   // may be taken either way
        const char *what = fwd ? comm ? "forward, with communication" : "forward, local" : comm ? "backward, with communication" : "backward, local";
        for (size_t i = 0; i < reports.size(); i++) {
            const Report &p = reports[i];
            if (p.v[0] != t || p.tag < 10 || p.tag > 12) continue;
            u64 c = p.v[1], a = p.v[2];
            if (p.tag == 12) a = p.v[3];
            if (!w.ok(c) || a >= na) { fail(r, "trv.pair", "traversal %zu (%s): a callback names cell %llu angle %llu, which do not exist", t, what, L(c), L(a)); return; }
            if (w.part[c] != p.rank) { fail(r, "trv.pair", "traversal %zu (%s): rank %d handles cell %llu of rank %d", t, what, p.rank, L(c), w.part[c]); return; }
            if (p.tag == 10) {
                ev[c * na + a].cnt++;
                ev[c * na + a].b = (i64)i;
                if (ev[c * na + a].cnt > 1) { fail(r, "trv.twice", "traversal %zu (%s): cell %llu angle %llu is processed twice", t, what, L(c), L(a)); return; }
                for (int f = 0; f < 4; f++) {
                    u64 ty = p.v[(size_t)(3 + 2 * f)], ad = p.v[(size_t)(4 + 2 * f)];
                    int o = w.nb(c, f);
                    bool outw = isPar(a, c, f) ? ty == 4 || ty == 2 || ty == 0 : w.out[a][c][(size_t)f];
                    u64 want = o < 0 ? (outw ? 4 : 5) : w.cut(c, f) ? (outw ? 2 : 3) : (outw ? 0 : 1);
                    if (ty != want) { fail(r, "trv.label", "traversal %zu (%s): face %d of cell %llu at angle %llu is labelled %llu, expected %llu", t, what, f, L(c), L(a), L(ty), L(want)); return; }
                    if (o >= 0 && ad != (w.cut(c, f) ? w.gface[c][(size_t)f] : (u64)o)) { fail(r, "trv.label", "traversal %zu (%s): face %d of cell %llu names neighbour %llu", t, what, f, L(c), L(ad)); return; }
                }
                for (int f = 0; f < 4; f++) {
                    int o = w.nb(c, f);
                    if (o < 0 || !isIn(a, c, f)) continue;
                    if (!comm && w.cut(c, f)) continue;
                    if (ev[(size_t)o * na + a].e < 0) { fail(r, "trv.order", "traversal %zu (%s): cell %llu angle %llu starts before its upstream cell %d is done", t, what, L(c), L(a), o); return; }
                    if (w.cut(c, f) && got[c * na + a][(size_t)f] < 0) { fail(r, "trv.data", "traversal %zu (%s): cell %llu angle %llu starts before the data of face %d arrived", t, what, L(c), L(a), f); return; }
                }
            } else if (p.tag == 11) {
                ev[c * na + a].e = (i64)i;
            } else {
                int f = (int)p.v[2];
                if (!comm || f > 3 || !w.cut(c, f) || !(isIn(a, c, f) || isPar(a, c, f))) { fail(r, "trv.data", "traversal %zu (%s): data is delivered to face %d of cell %llu at angle %llu, which expects none", t, what, f, L(c), L(a)); return; }
                if (got[c * na + a][(size_t)f] >= 0) { fail(r, "trv.data", "traversal %zu (%s): data for face %d of cell %llu at angle %llu is delivered twice", t, what, f, L(c), L(a)); return; }
                got[c * na + a][(size_t)f] = (i64)i;
                u64 k = key((u64)w.nb(c, f), (u64)w.back[c][(size_t)f], a, t, 7), h = 1469598103934665603ull;
                for (int b = 0; b < size; b++) h = (h ^ (u8)(mix(k + (u64)b) >> 20)) * 1099511628211ull;
                if (h != p.v[4]) { fail(r, "trv.value", "traversal %zu (%s): the data delivered to face %d of cell %llu at angle %llu is not what its neighbour sent", t, what, f, L(c), L(a)); return; }
            }
        }
        for (size_t c = 0; c < n; c++) for (size_t a = 0; a < na; a++)
            if (ev[c * na + a].cnt != 1 || ev[c * na + a].e < 0) { fail(r, "trv.missed", "traversal %zu (%s): cell %zu angle %zu is processed %d times", t, what, c, a, ev[c * na + a].cnt); return; }
    }
}
// ---- schedules
static std::vector<std::vector<int>> angleLists(const Scenario &s, const DW &w) {
    // groups=K: the program's own split; otherwise a drawn one
    int K = (int)s.num("groups", 1);
    std::vector<std::vector<int>> v((size_t)K);
    if (s.get("split") == "mixed") {
        Rng g((u64)s.num("gseed", 1));
        std::vector<int> cut{0, w.q.na};   // blocks with drawn ends
        for (int i = 1; i < K; i++) cut.push_back((int)g.below((u64)w.q.na + 1));
        std::sort(cut.begin(), cut.end());
        for (int k = 0; k < K; k++) for (int a = cut[(size_t)k]; a < cut[(size_t)k + 1]; a++) v[(size_t)k].push_back(a);
    } else {
        int a = 0;
        for (int k = 0; k < K; k++) for (int i = 0; i < w.q.na / K + (k < w.q.na % K); i++) v[(size_t)k].push_back(a++);
    }
    std::vector<std::vector<int>> u;
    for (auto &x : v) if (!x.empty() || s.num("gseed", 1) % 4 == 0) u.push_back(x);   // a group may be empty
    return u;
}
static void checkSchedule(const Scenario &s, const DW &w, const std::vector<std::vector<int>> &grp, RunResult &r) {
    size_t n = w.m.cells.size(), na = (size_t)w.q.na;
    u64 limit = (u64)s.num("mcps", 10);
    for (size_t g = 0; g < grp.size(); g++) {
        std::vector<i64> step(n * na, -1), pos(n * na, -1);
        std::vector<i64> steps((size_t)w.np, -1);
        std::map<std::array<int, 3>, int> snd, rcv;   // (step, from, to)
        for (auto &p : reports) {
            if (p.v[0] != g) continue;
            if (p.tag == 20) steps[(size_t)p.rank] = (i64)p.v[1];
            if (p.tag == 21) {
                if ((p.v.size() - 2) / 2 > limit) { fail(r, "sch.limit", "rank %d step %llu holds %zu pairs, the limit is %llu", p.rank, L(p.v[1]), (p.v.size() - 2) / 2, L(limit)); return; }
                for (size_t i = 2; i + 1 < p.v.size(); i += 2) {
                    u64 c = p.v[i], a = p.v[i + 1];
                    if (!w.ok(c) || a >= na || w.part[c] != p.rank || std::find(grp[g].begin(), grp[g].end(), (int)a) == grp[g].end()) { fail(r, "sch.pair", "rank %d schedules cell %llu angle %llu, which is not its work", p.rank, L(c), L(a)); return; }
                    if (step[c * na + a] >= 0) { fail(r, "sch.twice", "cell %llu angle %llu is scheduled twice", L(c), L(a)); return; }
                    step[c * na + a] = (i64)p.v[1]; pos[c * na + a] = (i64)i;
                }
            }
            if (p.tag == 22) for (size_t i = 2; i < p.v.size(); i++) snd[{(int)p.v[1], p.rank, (int)p.v[i]}]++;
            if (p.tag == 23) for (size_t i = 2; i < p.v.size(); i++) rcv[{(int)p.v[1], (int)p.v[i], p.rank}]++;
        }
        for (int i = 0; i < w.np; i++) if (steps[(size_t)i] != steps[0] || steps[0] < 0) { fail(r, "sch.steps", "rank %d plans %lld steps, rank 0 plans %lld", i, (long long)steps[(size_t)i], (long long)steps[0]); return; }
        if (snd != rcv) {
            for (auto &e : snd) if (rcv.count(e.first) == 0 || rcv[e.first] != e.second) { fail(r, "sch.match", "in step %d rank %d plans to send to %d (%d times) but %d plans to receive %d times", e.first[0], e.first[1], e.first[2], e.second, e.first[2], rcv.count(e.first) ? rcv[e.first] : 0); return; }
            for (auto &e : rcv) if (snd.count(e.first) == 0) { fail(r, "sch.match", "in step %d rank %d plans to receive from %d, which does not plan to send", e.first[0], e.first[2], e.first[1]); return; }
        }
        for (int ai : grp[g]) for (size_t c = 0; c < n; c++) {
            size_t a = (size_t)ai;
            if (step[c * na + a] < 0) { fail(r, "sch.missed", "cell %zu angle %zu is in no step", c, a); return; }
            for (int f = 0; f < 4; f++) {
                int o = w.nb(c, f);
                if (o < 0 || w.out[a][c][(size_t)f]) continue;   // outgoing or parallel
                size_t u = (size_t)o * na + a, d = c * na + a;
                if (w.cut(c, f) ? step[u] >= step[d] : step[u] > step[d] || (step[u] == step[d] && pos[u] >= pos[d])) {
                    fail(r, "sch.order", "cell %zu angle %zu is in step %lld, its upstream cell %d (%s) in step %lld", c, a, (long long)step[d], o, w.cut(c, f) ? "another rank" : "same rank", (long long)step[u]); return;
                }
                if (w.cut(c, f) && !snd.count({(int)step[u], w.part[(size_t)o], w.part[c]})) {
                    fail(r, "sch.send", "rank %d does cell %d angle %zu in step %lld but plans no message to rank %d, which needs it", w.part[(size_t)o], o, a, (long long)step[u], w.part[c]); return;
                }
            }
        }
    }
}
// ---- boundary exchange
static void checkSides(const Scenario &s, const DW &w, RunResult &r) {
    size_t na = (size_t)w.q.na, n = w.m.cells.size();
    int reps = (int)s.num("reps", 2);
    std::vector<int> seen(n * 4 * (size_t)reps, 0);
    for (auto &p : reports) {
        if (p.tag == 31) { fail(r, "bnd.sender", "exchange %llu changes the cell values of cell %llu", L(p.v[0]), L(p.v[1])); return; }
        if (p.tag != 30) continue;
        u64 t = p.v[0], c = p.v[1]; int f = (int)p.v[2];
        if (!w.ok(c) || f > 3 || w.part[c] != p.rank || (w.nb(c, f) >= 0 && !w.cut(c, f)) || t >= (u64)reps) { fail(r, "bnd.side", "rank %d has a side at face %d of cell %llu, which is no side", p.rank, f, L(c)); return; }
        seen[(c * 4 + (size_t)f) * (size_t)reps + t]++;
        size_t i = 6;
        for (size_t a = 0; a < na; a++) for (size_t k = 0; k < 3; k++) for (size_t g = 0; g < (size_t)w.ng; g++, i++) {
            double want = -1.5 - (double)t;
            bool par = w.cut(c, f) && w.out[a][c][(size_t)f] == 2 && p.v[i] != bits(want);
            bool in = w.cut(c, f) && (!w.out[a][c][(size_t)f] || par);
            if (in) {
                if (p.v[3 + k] > 3) { fail(r, "bnd.side", "vertex %llu", L(p.v[3 + k])); return; }
                u64 nd = w.m.cells[c].node[p.v[3 + k]];
                u64 o = (u64)w.nb(c, f), ov = 9;
                for (u64 j = 0; j < 4; j++) if (w.m.cells[o].node[j] == nd) ov = j;
                want = keyVal(key(o, ov, a, g, t));
            }
            if (p.v[i] != bits(want)) { fail(r, in ? "bnd.value" : "bnd.touched", "exchange %llu: face %d of cell %llu angle %zu vertex %zu group %zu holds %.17g, expected %.17g (%s)", L(t), f, L(c), a, k, g, dbl(p.v[i]), want, in ? "incoming" : "not incoming"); return; }
        }
    }
    for (size_t c = 0; c < n; c++) for (int f = 0; f < 4; f++) for (size_t t = 0; t < (size_t)reps; t++)
        if (seen[(c * 4 + (size_t)f) * (size_t)reps + t] != (w.nb(c, f) < 0 || w.cut(c, f) ? 1 : 0)) { fail(r, "bnd.side", "face %d of cell %zu is a side %d times", f, c, seen[(c * 4 + (size_t)f) * (size_t)reps + t]); return; }
}
// ---- adjacency
static void checkAdjacency(const Scenario &s, const DW &w, RunResult &r) {
    (void)s;
    size_t n = w.m.cells.size();
    struct FR { const std::vector<u64> *v = nullptr; int rank = -1; };
    std::vector<std::map<u64, u64>> l2g((size_t)w.np);
    std::vector<std::array<FR, 4>> fr(n);
    std::vector<u64> nc((size_t)w.np, 0), ns((size_t)w.np, 0);
    for (auto &p : reports) {
        if (p.tag == 40) {
            u64 c = p.v[1];
            if (!w.ok(c) || w.part[c] != p.rank || l2g[(size_t)p.rank].count(p.v[0])) { fail(r, "adj.cell", "rank %d holds cell %llu", p.rank, L(c)); return; }
            l2g[(size_t)p.rank][p.v[0]] = c;
            if (p.v[2] != w.m.cells[c].mat) { fail(r, "adj.cell", "cell %llu has material %llu, expected %llu", L(c), L(p.v[2]), L(w.m.cells[c].mat)); return; }
            if (!near(dbl(p.v[3]), w.g.vol[c], 1e-9)) { fail(r, "adj.cell", "cell %llu has volume %g, expected %g", L(c), dbl(p.v[3]), w.g.vol[c]); return; }
            for (size_t i = 0; i < 4; i++) for (size_t d = 0; d < 3; d++) if (p.v[4 + 3 * i + d] != bits(w.m.nodes[w.m.cells[c].node[i]][d])) { fail(r, "adj.cell", "vertex %zu of cell %llu is elsewhere", i, L(c)); return; }
        }
        if (p.tag == 42) { nc[(size_t)p.rank] = p.v[0]; ns[(size_t)p.rank] = p.v[1]; }
    }
    for (int k = 0; k < w.np; k++) {
        u64 cells = 0, sides = 0;
        for (size_t c = 0; c < n; c++) if (w.part[c] == k) { cells++; for (int f = 0; f < 4; f++) sides += w.nb(c, f) < 0 || w.cut(c, f); }
        if (l2g[(size_t)k].size() != cells || nc[(size_t)k] != cells || ns[(size_t)k] != sides) { fail(r, "adj.cell", "rank %d holds %llu cells and %llu sides, expected %llu and %llu", k, L(nc[(size_t)k]), L(ns[(size_t)k]), L(cells), L(sides)); return; }
    }
    for (auto &p : reports) if (p.tag == 41) {
        auto it = l2g[(size_t)p.rank].find(p.v[0]);
        if (it == l2g[(size_t)p.rank].end()) return;
        fr[it->second][p.v[1]] = {&p.v, p.rank};
    }
    std::vector<std::set<u64>> gs((size_t)w.np), lsd((size_t)w.np);
    for (size_t c = 0; c < n; c++) for (int f = 0; f < 4; f++) {
        if (!fr[c][(size_t)f].v) { fail(r, "adj.face", "face %d of cell %zu is not reported", f, c); return; }
        const std::vector<u64> &v = *fr[c][(size_t)f].v;
        int rk = w.part[c], o = w.nb(c, f), of = w.back[c][(size_t)f];
        bool cut = w.cut(c, f);
        auto &N = w.g.nrm[c][(size_t)f];
        if (!near(dbl(v[12]), sqrt(N[0] * N[0] + N[1] * N[1] + N[2] * N[2]), 1e-9)) { fail(r, "adj.face", "face %d of cell %zu has area %g", f, c, dbl(v[12])); return; }
        if (v[2] != (u64)(o < 0 || cut)) { fail(r, "adj.kind", "face %d of cell %zu: boundary flag %llu", f, c, L(v[2])); return; }
        u64 wantRank = o < 0 ? NONE : (u64)w.part[(size_t)o];
        if (v[5] != wantRank) { fail(r, "adj.rank", "face %d of cell %zu names rank %lld as its neighbour, expected %lld", f, c, (long long)v[5], (long long)wantRank); return; }
        for (size_t k = 0; k < 3; k++) if (v[13 + k] > 3 || v[13 + k] == (u64)f) { fail(r, "adj.vertex", "face vertex %zu of face %d of cell %zu is vertex %llu", k, f, c, L(v[13 + k])); return; }
        if (v[13] == v[14] || v[13] == v[15] || v[14] == v[15]) { fail(r, "adj.vertex", "face %d of cell %zu repeats a vertex", f, c); return; }
        for (size_t k = 0; k < 4; k++) if ((int)k != f && (v[19 + k] > 2 || v[13 + v[19 + k]] != k)) { fail(r, "adj.vertex", "vertex %zu of cell %zu is face vertex %llu of face %d", k, c, L(v[19 + k]), f); return; }
        for (size_t a = 0; a < (size_t)w.q.na; a++) if (w.out[a][c][(size_t)f] != 2 && v[23 + a] != (w.out[a][c][(size_t)f] ? 1u : 2u)) { fail(r, "adj.flow", "face %d of cell %zu flows %llu at angle %zu", f, c, L(v[23 + a]), a); return; }
        if (o >= 0 && !cut) {
            if (l2g[(size_t)rk].count(v[3]) == 0 || l2g[(size_t)rk][v[3]] != (u64)o || v[4] != (u64)of) { fail(r, "adj.mutual", "face %d of cell %zu leads to local cell %llu face %llu, expected cell %d face %d", f, c, L(v[3]), L(v[4]), o, of); return; }
            for (size_t k = 0; k < 3; k++) if (v[16 + k] > 3 || w.m.cells[(size_t)o].node[v[16 + k]] != w.m.cells[c].node[v[13 + k]]) { fail(r, "adj.vertex", "neighbour vertex %zu across face %d of cell %zu is another point", k, f, c); return; }
        } else {
            u64 side = v[6], ls = v[7];
            if (side >= ns[(size_t)rk] || !lsd[(size_t)rk].insert(side).second) { fail(r, "adj.side", "face %d of cell %zu has side %llu, out of range or used twice", f, c, L(side)); return; }
            if (!gs[(size_t)rk].insert(ls).second) { fail(r, "adj.side", "face %d of cell %zu has global side %llu, which another face of rank %d has too", f, c, L(ls), rk); return; }
            if (v[8] != side || v[9] != v[0]) { fail(r, "adj.side", "face %d of cell %zu: side %llu maps back to side %llu of local cell %llu", f, c, L(side), L(v[8]), L(v[9])); return; }
        }
        if (cut) {
            const std::vector<u64> &u = *fr[(size_t)o][(size_t)of].v;
            size_t ork = (size_t)w.part[(size_t)o];
            if (u[7] != v[7]) { fail(r, "adj.side", "cells %zu and %d use different global sides %llu and %llu for their common face", c, o, L(v[7]), L(u[7])); return; }
            if (l2g[ork].count(v[10]) == 0 || l2g[ork][v[10]] != (u64)o || v[11] != (u64)of) { fail(r, "adj.mutual", "face %d of cell %zu records cell %lld face %lld of rank %zu behind it, expected cell %d face %d", f, c, (long long)v[10], (long long)v[11], ork, o, of); return; }
            for (size_t k = 0; k < 3; k++) if (w.m.cells[c].node[v[13 + k]] != w.m.cells[(size_t)o].node[u[13 + k]]) { fail(r, "adj.vertex", "face vertex %zu of the common face of cells %zu and %d is not the same point on both sides", k, c, o); return; }
        }
    }
}
// ---- output pattern
static void checkPsi(const Scenario &s, const DW &w, int writes, RunResult &r) {
    size_t n = w.m.cells.size(), na = (size_t)w.q.na, ng = (size_t)w.ng;
    for (int k = 0; k < 2; k++) {
        int last = -1;
        for (int i = 0; i < writes; i++) if ((i % 2) == k) last = i;
        std::string nm = k ? "second.psi" : "out.psi";
        if (last < 0) continue;
        auto it = disk.find(nm);
        if (it == disk.end()) { fail(r, "psi.missing", "%s is missing after writing it", nm.c_str()); return; }
        Bytes want(64, 0);
        memcpy(want.data(), "Tycho 2 Psi Output", 18);
        u64 h[4] = {1, n, na, ng};
        memcpy(want.data() + 32, h, 32);
        want.resize(64 + n * na * 4 * ng * 8);
        for (size_t c = 0; c < n; c++) for (size_t a = 0; a < na; a++) for (size_t v = 0; v < 4; v++) for (size_t g = 0; g < ng; g++) {
            double d = keyVal(key(c, v, a, g, (u64)last + 5));
            memcpy(&want[64 + 8 * (((c * na + a) * 4 + v) * ng + g)], &d, 8);
        }
        const Bytes &b = it->second.data;
        if (b.size() != want.size()) { fail(r, "psi.size", "%s has %zu bytes, expected %zu", nm.c_str(), b.size(), want.size()); return; }
        for (size_t i = 0; i < b.size(); i++) if (b[i] != want[i]) { fail(r, "psi.bytes", "%s differs at byte %zu (%s)", nm.c_str(), i, i < 64 ? "header" : "data"); return; }
    }
    for (auto &d : disk) if (d.first != "mesh.pmesh" && d.first != "out.psi" && d.first != "second.psi") fail(r, "psi.extra", "an extra file %s is left", d.first.c_str());
    (void)s;
}
void runMainPublic(const Scenario &s, RunResult &r);
void runDriver(const Scenario &s, RunResult &r) {
    std::string drv = s.get("drv");
    if (!libSym("sweep", 0, "drv_" + drv)) {   // the driver does not fit this tree: use the whole program instead
        Scenario q = s;
        q.set("kind", "main");
        runMainPublic(q, r);
        r.note = "driver not available";
        return;
    }
    DW w;
    if (!world(s, w, r)) return;
    JobCfg c = cfgFrom(s);
    c.args = baseArgs(s);
    std::vector<std::vector<int>> grp;
    int writes = (int)s.num("writes", 1);
    if (drv == "traverse") { for (std::string a : {s.get("mcps", "10"), s.get("dsize", "24"), s.get("prio", "0"), s.get("plan", "F")}) c.args.push_back(a); }
    if (drv == "schedule") {
        for (std::string a : {s.get("mcps", "10"), s.get("intra", "0"), s.get("inter", "0")}) c.args.push_back(a);
        grp = angleLists(s, w);
        for (auto &g : grp) { std::string t; for (int a : g) t += (t.empty() ? "" : ",") + std::to_string(a); c.args.push_back(t); }
    }
    if (drv == "sides") { c.args.push_back(s.get("reps", "2")); c.args.push_back(s.get("fresh", "0")); }
    if (drv == "psiwrite") {
        for (int i = 0; i < writes; i++) c.args.push_back(i % 2 ? "second.psi" : "out.psi");
        std::string p = s.get("prior", "none");
        size_t len = 64 + w.m.cells.size() * (size_t)w.q.na * 4 * (size_t)w.ng * 8;
        if (p != "none") disk["out.psi"].data.assign(p == "longer" ? len * 2 : p == "shorter" ? len / 2 : p == "empty" ? 0 : len, 0x5a);
        if (p != "none" && s.num("prior2")) disk["second.psi"].data.assign(len + 999, 0x33);
    }
    if (!startJob("sweep", "drv_" + drv, c, r)) return;
    r.status = statusName(out.status);
    addViols(r);
    if (!endedWell(r)) return;
    if (drv == "traverse") checkTraverse(s, w, r);
    else if (drv == "schedule") checkSchedule(s, w, grp, r);
    else if (drv == "sides") checkSides(s, w, r);
    else if (drv == "adjacency") checkAdjacency(s, w, r);
    else if (drv == "psiwrite") checkPsi(s, w, writes, r);
}

// ---------------------------------------------------------------- mesh tools
static std::string refinedWrong(const Bytes &b, const Mesh &m) {
    Mesh f;
    char t[300];
    if (!meshParse(b, f)) return "the output is not a complete serial mesh";
    std::string e = meshCheck(f);
    if (!e.empty()) return e;
    if (f.cells.size() != 8 * m.cells.size()) { snprintf(t, sizeof t, "%zu cells, expected %zu", f.cells.size(), 8 * m.cells.size()); return t; }
    size_t bc = 0, bf = 0;
    for (auto &x : m.faces) bc += x.cell[0] == NONE || x.cell[1] == NONE;
    for (auto &x : f.faces) bf += x.cell[0] == NONE || x.cell[1] == NONE;
    if (bf != 4 * bc) { snprintf(t, sizeof t, "%zu outer faces, expected %zu", bf, 4 * bc); return t; }
    // every coarse node is there, every other node is the middle of a coarse edge
    std::map<std::array<double, 3>, int> at;
    for (auto &x : f.nodes) at[x]++;
    if (at.size() != f.nodes.size()) return "two nodes at one point";
    for (size_t i = 0; i < m.nodes.size(); i++) if (!at.count(m.nodes[i])) { snprintf(t, sizeof t, "node %zu of the input is missing", i); return t; }
    std::set<std::pair<u64, u64>> edges;
    for (auto &c : m.cells) for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) edges.insert({std::min(c.node[i], c.node[j]), std::max(c.node[i], c.node[j])});
    if (f.nodes.size() != m.nodes.size() + edges.size()) { snprintf(t, sizeof t, "%zu nodes, expected %zu", f.nodes.size(), m.nodes.size() + edges.size()); return t; }
    // volume and material by parent cell
    Geo gc = geoMake(m), gf = geoMake(f);
    std::vector<double> vol(m.cells.size(), 0);
    std::vector<int> cnt(m.cells.size(), 0);
    for (size_t c = 0; c < f.cells.size(); c++) {
        double x[3] = {0, 0, 0};
        for (u64 v : f.cells[c].node) for (int k = 0; k < 3; k++) x[k] += f.nodes[v][(size_t)k] / 4;
        size_t par = m.cells.size();
        for (size_t p = 0; p < m.cells.size(); p++) {
            bool in = true;
            for (size_t s = 0; s < 4 && in; s++) {
                const double *o = m.nodes[m.cells[p].node[s ? 0 : 1]].data();
                auto &N = gc.nrm[p][s];
                in = N[0] * (x[0] - o[0]) + N[1] * (x[1] - o[1]) + N[2] * (x[2] - o[2]) < 0;
            }
            if (in) { par = p; break; }
        }
        if (par == m.cells.size()) { snprintf(t, sizeof t, "refined cell %zu lies in no input cell", c); return t; }
        if (f.cells[c].mat != m.cells[par].mat) { snprintf(t, sizeof t, "refined cell %zu has another material than its input cell", c); return t; }
        vol[par] += gf.vol[c]; cnt[par]++;
    }
    for (size_t p = 0; p < m.cells.size(); p++) if (cnt[p] != 8 || !near(vol[p], gc.vol[p], 1e-9)) { snprintf(t, sizeof t, "input cell %zu becomes %d cells of total volume %g, not %g", p, cnt[p], vol[p], gc.vol[p]); return t; }
    return "";
}
// the numbers (and kinds of boundary) a text holds, in order
static std::vector<std::string> numbersOf(const std::string &text) {
    std::vector<std::string> v;
    std::string w;
    auto end = [&] {
        char *e;
        if (!w.empty()) { strtod(w.c_str(), &e); if (!*e || w.find("Boundary") != std::string::npos) v.push_back(w); }
        w.clear();
    };
    for (char ch : text) if (isspace((unsigned char)ch) || strchr("(),:;", ch)) end(); else w += ch;
    end();
    return v;
}
static std::string partText(const Bytes &b, size_t at, bool verbose) {
    std::string o;
    auto U = [&](size_t w) { u64 x; memcpy(&x, &b[at + 8 * w], 8); return x; };
    auto put = [&](u64 x) { o += std::to_string(x) + " "; };
    u64 nc = U(0), nf = U(1), nn = U(2);
    put(nc); put(nf); put(nn);
    if (!verbose) return o;
    size_t w = 3;
    for (u64 c = 0; c < nc; c++) { put(c); for (int k = 0; k < 10; k++) put(U(w++)); }
    static const char *B[] = {"MeshBoundary ", "PartitionBoundary ", "NotBoundary "};
    for (u64 f = 0; f < nf; f++) { put(f); for (int k = 0; k < 8; k++) put(U(w++)); o += B[U(w++) % 3]; }
    for (u64 n = 0; n < nn; n++) {
        put(n);
        for (int k = 0; k < 3; k++) { double d; u64 x = U(w++); memcpy(&d, &x, 8); char t[400]; snprintf(t, sizeof t, "%f ", d); o += t; }
        put(U(w++));
    }
    return o;
}
// what an information tool prints on each process, as far as numbers go
static std::vector<std::string> infoText(const Bytes &b, const Mesh &m, bool par, bool verbose) {
    std::string o;
    auto put = [&](u64 x) { o += std::to_string(x) + " "; };
    if (!par) {
        o = "2 2 ";   // in the name; the version
        put(m.cells.size()); put(m.faces.size()); put(m.nodes.size());
        if (verbose) {
            size_t i = 0;
            for (auto &c : m.cells) { put(i++); for (u64 x : c.face) put(x); for (u64 x : c.node) put(x); put(c.mat); }
            i = 0;
            for (auto &f : m.faces) { put(i++); for (u64 x : f.cell) put(x); for (u64 x : f.node) put(x); }
            i = 0;
            for (auto &n : m.nodes) { put(i++); char t[400]; snprintf(t, sizeof t, "%f %f %f ", n[0], n[1], n[2]); o += t; }
        }
        return {o};
    }
    auto U = [&](size_t at) { u64 x; memcpy(&x, &b[at], 8); return x; };
    u64 np = U(40);
    o = "2 ";
    put(U(32)); put(np);
    for (u64 i = 0; i <= np; i++) put(U(48 + 8 * i));
    for (u64 i = 0; i < np; i++) { put(i); o += partText(b, U(48 + 8 * i), verbose); }
    std::vector<std::string> v;
    for (u64 i = 0; i < np; i++) v.push_back((i ? "" : o) + std::to_string(i) + " " + partText(b, U(48 + 8 * i), verbose));
    return v;
}
struct ToolWorld { Mesh m; std::string tool; int px, py; std::string want; std::vector<u8> prior; };
// columns hold their share of the cells, in order of x and then of y
static std::string splitWrong(const ToolWorld &w, const std::vector<int> &part) {
    char t[200];
    size_t n = w.m.cells.size(), np = (size_t)(w.px * w.py);
    std::vector<size_t> cnt(np);
    for (int p : part) if (p >= 0 && (size_t)p < np) cnt[(size_t)p]++;
    if (w.tool == "PartitionMetis") {
        for (size_t p = 0; p < np; p++) if (np > 1 && n >= 20 * np && cnt[p] == n) { snprintf(t, sizeof t, "all cells are in partition %zu", p); return t; }
        return "";
    }
    auto even = [](size_t x, size_t size, size_t chunks) { return x == size / chunks || x == (size + chunks - 1) / chunks; };
    double big = 0;
    for (auto &x : w.m.nodes) for (int k = 0; k < 3; k++) big = std::max(big, fabs(x[k]));
    for (int i = 0; i < w.px; i++) {
        size_t col = 0;
        for (int j = 0; j < w.py; j++) col += cnt[(size_t)(i * w.py + j)];
        if (!even(col, n, (size_t)w.px)) { snprintf(t, sizeof t, "column %d has %zu of the %zu cells", i, col, n); return t; }
        for (int j = 0; j < w.py; j++) if (!even(cnt[(size_t)(i * w.py + j)], col, (size_t)w.py)) { snprintf(t, sizeof t, "partition (%d,%d) has %zu of the %zu cells of its column", i, j, cnt[(size_t)(i * w.py + j)], col); return t; }
    }
    std::vector<double> xlo((size_t)w.px, 1e300), xhi((size_t)w.px, -1e300), ylo(np, 1e300), yhi(np, -1e300);
    for (size_t c = 0; c < n; c++) {
        double x = 0, y = 0;
        for (int v = 0; v < 4; v++) { auto &q = w.m.nodes[w.m.cells[c].node[v]]; x += q[0] / 4; y += q[1] / 4; }
        size_t p = (size_t)part[c], i = p / (size_t)w.py;
        xlo[i] = std::min(xlo[i], x); xhi[i] = std::max(xhi[i], x); ylo[p] = std::min(ylo[p], y); yhi[p] = std::max(yhi[p], y);
    }
    for (int i = 0; i + 1 < w.px; i++) if (xhi[(size_t)i] > xlo[(size_t)i + 1] + 1e-9 * big) { snprintf(t, sizeof t, "column %d reaches x = %.12g, beyond the start %.12g of the next", i, xhi[(size_t)i], xlo[(size_t)i + 1]); return t; }
    for (size_t p = 0; p + 1 < np; p++) if (p / (size_t)w.py == (p + 1) / (size_t)w.py && yhi[p] > ylo[p + 1] + 1e-9 * big) { snprintf(t, sizeof t, "partition %zu reaches y = %.12g, beyond the start %.12g of the next", p, yhi[p], ylo[p + 1]); return t; }
    return "";
}
static void toolOnce(const Scenario &s, const ToolWorld &w, RunResult &r) {
    JobCfg c = cfgFrom(s);
    bool par = w.tool == "ParallelMeshInfo";
    int np = w.px * w.py;
    c.ranks = par ? np : 1; c.threads = 1;
    disk.clear();
    Bytes in = par ? pmeshBytes(w.m, partition(w.m, "blob", np, (u64)s.num("pseed", 1)), np) : meshBytes(w.m);
    Bytes orig = in;
    std::string dmg = s.get("damage");
    bool must = false;
    if (!dmg.empty()) {
        auto d = splitStr(dmg, ':');
        i64 v = d.size() > 1 ? atoll(d[1].c_str()) : 0;
        if (d[0] == "trunc") { in.resize((size_t)v % in.size()); must = true; }
        else if (d[0] == "name") { in[(size_t)v % 19] ^= 0x20; must = true; }
        else if (d[0] == "version") { u64 x = (u64)v; memcpy(&in[32], &x, 8); must = true; }
        else if (d[0] == "missing") must = true;
        else if (par && (d[0] == "offset" || d[0] == "btype" || d[0] == "index" || d[0] == "count")) { damagePmesh(in, d[0], (u64)v); must = true; }
        else if (!par && d[0] == "index") { damageSmesh(in, (u64)v); must = true; }
        st.faultsFired[F_FLIP]++;
    }
    if (dmg != "missing") disk["in.mesh"].data = in;
    bool outp = w.tool == "PartitionColumns" || w.tool == "PartitionMetis" || w.tool == "RefineSerialMesh";
    std::string prior = s.get("prior", "none");
    if (outp && prior != "none") {
        size_t len = prior == "longer" ? 400000 : prior == "shorter" ? 100 : prior == "empty" ? 0 : 5000;
        disk["out.mesh"].data.assign(len, 0x61);
    }
    if (w.tool == "PartitionColumns") c.args = {std::to_string(w.px), std::to_string(w.py), "in.mesh", "out.mesh"};
    else if (w.tool == "PartitionMetis") c.args = {std::to_string(np), "in.mesh", "out.mesh"};
    else if (w.tool == "RefineSerialMesh") c.args = {"in.mesh", "out.mesh"};
    else { c.args = {"in.mesh"}; if (s.num("verbose")) c.args.push_back("verbose"); }
    bool killed = s.get("faults").find(faultName[F_KILL]) == 0;
    std::string plain;
    if (!outp && !s.get("faults").empty()) {   // what it prints when nothing fails
        JobCfg c0 = c;
        c0.faults.clear();
        auto keep = disk;
        if (!isolated(r, [&](RunResult &q) { startJob(w.tool, "tool_main", c0, q); addViols(q); })) return;
        if (out.status == J_OK) plain = rankOut[0];
        disk = keep;
    }
    if (killed) {   // the tool dies in the middle; then it is run again over what is left
        if (!isolated(r, [&](RunResult &q) { startJob(w.tool, "tool_main", c, q); addViols(q); })) return;
        c.faults.clear();
        if (disk["in.mesh"].data != orig) { fail(r, "tool.input", "the interrupted tool changed its input"); return; }
    }
    if (!startJob(w.tool, "tool_main", c, r)) return;
    addViols(r);
    if (!dmg.empty()) r.st.faultsFired[F_FLIP]++;
    r.status = statusName(out.status);
    if (out.status == J_DEADLOCK || out.status == J_LIVELOCK || out.status == J_HANG) { fail(r, "tool.hang", "%s does not end: %s", w.tool.c_str(), out.detail.c_str()); return; }
    bool fault = !dmg.empty() || (!s.get("faults").empty() && !killed);
    if (disk["in.mesh"].data != in && dmg != "missing") fail(r, "tool.input", "%s changed its input", w.tool.c_str());
    if (out.status == J_OK && !killed) for (auto &d : disk) if (d.first != "in.mesh" && !(outp && d.first == "out.mesh")) fail(r, "tool.extra", "%s leaves an extra file %s", w.tool.c_str(), d.first.c_str());
    if (out.status != J_OK) {
        if (!fault) fail(r, "tool.failed", "%s fails on a healthy disk: %s %s", w.tool.c_str(), out.why.c_str(), out.detail.c_str());
        return;
    }
    if (must) { fail(r, "tool.accepted", "%s reports success on a damaged input (%s)", w.tool.c_str(), dmg.c_str()); return; }
    if (!outp) {
        if (fault && !plain.empty() && rankOut[0] != plain) fail(r, "tool.wrongok", "%s reports success after %s but prints something else than for the whole mesh", w.tool.c_str(), s.get("faults").c_str());
        u64 a = w.m.cells.size(), b = w.m.faces.size(), d = w.m.nodes.size();
        auto has = [&](u64 x) { return rankOut[0].find(std::to_string(x)) != std::string::npos; };
        auto want = infoText(orig, w.m, par, s.num("verbose"));
        for (size_t k = 0; k < want.size(); k++) {
            auto x = numbersOf(rankOut[k]), y = numbersOf(want[k]);
            size_t i = 0;
            while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
            if (i < x.size() || i < y.size()) {
                fail(r, "info.print", "%s reports success%s%s but process %zu prints %s as number %zu where the file holds %s", w.tool.c_str(), s.get("faults").empty() ? "" : " after ", s.get("faults").c_str(),
                     k, i < x.size() ? x[i].c_str() : "nothing", i, i < y.size() ? y[i].c_str() : "nothing");
                break;
            }
        }
        if (!par && (!has(a) || !has(b) || !has(d))) fail(r, "tool.info", "%s reports success without the sizes of the mesh (%llu cells, %llu faces, %llu nodes)", w.tool.c_str(), L(a), L(b), L(d));
        return;
    }
    auto it = disk.find("out.mesh");
    std::string e;
    if (it == disk.end()) e = "the output is missing";
    else if (w.tool == "RefineSerialMesh") e = refinedWrong(it->second.data, w.m);
    else {
        std::vector<int> part;
        e = pmeshCompare(it->second.data, w.m, &part, np);
        std::string c = e.empty() ? splitWrong(w, part) : "";
        if (!c.empty()) fail(r, "tool.columns", "%s (%d x %d): %s", w.tool.c_str(), w.px, w.py, c.c_str());
    }
    if (!e.empty()) {
        std::string how = s.get("faults").empty() ? "" : " after " + s.get("faults");
        fail(r, "tool.wrongok", "%s reports success%s although %s", w.tool.c_str(), how.c_str(), e.c_str());
    }
}
void runTool(const Scenario &s, RunResult &r) {
    ToolWorld w;
    w.tool = s.get("tool", "PartitionColumns");
    w.px = (int)s.num("px", 1); w.py = (int)s.num("py", 1);
    if (!libSym(w.tool, 0, "tool_main")) { r.note = "tool not available"; r.status = "skipped"; return; }
    if (!buildMesh(s, w.m)) { r.err = "no usable mesh for this seed"; return; }
    if (s.get("fplan").empty()) { toolOnce(s, w, r); return; }
    auto f = splitStr(s.get("fplan"), ':');
    Scenario base = s;
    base.kv.erase("fplan");
    int n = atoi(f[1].c_str());
    Rng g((u64)atoll(f[2].c_str()));
    RunResult d;
    allocPicks.clear();
    recordAllocs = f[0] != "damage" && f[0] != "kill";
    bool dryOk = isolated(d, [&](RunResult &q) { toolOnce(base, w, q); });
    recordAllocs = false;
    if (!dryOk) { r.err = d.err; return; }
    r.runs += d.runs; r.simTime += d.simTime; r.hash = hash64(r.hash ^ d.hash);
    if (!d.viols.empty()) { r.viols = d.viols; r.concrete = base.text(); r.status = d.status; return; }
    for (int i = 0; i < n && r.viols.empty() && r.err.empty(); i++) {
        Scenario q = base;
        if (f[0] == "damage") {
            std::string dm;
            bool par = w.tool == "ParallelMeshInfo";
            switch (g.below(8)) {
            case 6: case 7: dm = (par && g.below(3) == 0 ? "count:" : "index:") + std::to_string(g.next() >> 20); break;
            case 0: dm = "name:" + std::to_string(g.below(19)); break;
            case 1: { u64 vv[] = {0, 1, 3, 7, ~0ull}; dm = "version:" + std::to_string((i64)vv[g.below(5)]); break; }
            case 2: dm = "missing"; break;
            case 3: if (par) { dm = (g.below(2) ? "offset:" : "btype:") + std::to_string(g.next() >> 20); break; } // fall through
            default: dm = "trunc:" + std::to_string(g.next() >> 20);
            }
            q.set("damage", dm);
        } else {
            std::string fs = aimFault(f[0] == "kill" || f[0] == "alloc" ? f[0] : "tool", g, d.st, w.tool == "ParallelMeshInfo" ? w.px * w.py : 1);
            if (fs.empty()) { r.note = "nothing to fail"; return; }
            q.set("faults", fs);
        }
        if (!isolated(r, [&](RunResult &o) { toolOnce(q, w, o); })) return;
        if (!r.viols.empty()) r.concrete = q.text();
    }
}
