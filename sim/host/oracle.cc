// One scenario: build its world, run the job or jobs in the simulator, judge
// what happened.  Runs in a process of its own.
#include "vs.hh"
#include <cmath>
#include <cstdarg>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

std::string verifDir, repoDir, buildDir;

Scenario Scenario::parse(const std::string &t) {
    Scenario s;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i);
        if (e == std::string::npos) e = t.size();
        std::string l = t.substr(i, e - i);
        i = e + 1;
        size_t q = l.find('=');
        if (l.empty() || l[0] == '#' || q == std::string::npos) continue;
        s.kv[l.substr(0, q)] = l.substr(q + 1);
    }
    return s;
}
std::vector<std::string> splitStr(const std::string &s, char c) {
    std::vector<std::string> v;
    size_t i = 0;
    if (s.empty()) return v;
    for (;;) {
        size_t e = s.find(c, i);
        v.push_back(s.substr(i, e == std::string::npos ? e : e - i));
        if (e == std::string::npos) return v;
        i = e + 1;
    }
}
Bytes slurp(const std::string &p) {
    Bytes b;
    FILE *f = fopen(p.c_str(), "rb");
    if (!f) return b;
    u8 t[65536]; size_t k;
    while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k);
    fclose(f);
    return b;
}
bool buildMesh(const Scenario &s, Mesh &m) {
    std::string spec = s.get("mesh", "box:2,2,2,0");
    if (spec.substr(0, 5) == "file:") return meshParse(slurp(repoDir + "/util/" + spec.substr(5) + ".smesh"), m);
    auto v = splitStr(spec.substr(4), ',');
    if (v.size() < 4) return false;
    int n[4];
    for (int i = 0; i < 4; i++) n[i] = atoi(v[(size_t)i].c_str());
    double jit = s.dbl("jit", 0.2), half = s.dbl("half", 40);
    Quad q = quadMake((int)s.num("sn", 2));
    for (int k = 0; k < 25; k++) {
        m = meshBox(n[0], n[1], n[2], n[3], half * pow(0.92, k), jit * pow(0.85, k), (u64)s.num("mseed", 1) * 64 + (u64)k, (int)s.num("mats", 1));
        Geo g = geoMake(m);
        if (!geoOk(m, g, q, 1e-6)) continue;
        bool bad = false, src = false;
        for (auto &x : m.nodes) {
            double r = sqrt((x[0] - 50) * (x[0] - 50) + (x[1] - 50) * (x[1] - 50) + (x[2] - 50) * (x[2] - 50));
            if (r < 1e-3 || fabs(r - 30) < 1e-6) bad = true;
            if (r < 29) src = true;
        }
        if (bad || (!src && s.get("kind") != "drv")) continue;
        return true;
    }
    return false;
}
JobCfg cfgFrom(const Scenario &s) {
    JobCfg c;
    c.ranks = (int)s.num("np", 1);
    c.threads = (int)s.num("threads", 1);
    c.draws.seed = (u64)s.num("seed", 1);
    c.delayMean = (int)s.num("delay");
    c.protoMode = (int)s.num("proto");
    c.yieldMean = (int)s.num("yield");
    c.lateRecv = (int)s.num("late");
    c.costJit = (int)s.num("costj");
    c.speedSpread = (int)s.num("speed");
    c.stallPm = (int)s.num("stall");
    c.probeMiss = (int)s.num("miss");
    c.reduceMode = (int)s.num("reduce");
    c.clockMode = (int)s.num("clock");
    c.builds = s.get("sweep").compare(0, 8, "Original") == 0;
    // How long a run may take: far more than one with as many sweeps as its limits allow can need
    int bx = 1, by = 1, bz = 1;
    double cells = sscanf(s.get("mesh").c_str(), "box:%d,%d,%d", &bx, &by, &bz) == 3 ? 6.0 * bx * by * bz : 300, sweeps = s.num("iterMax", 4) + 4.0;
    if (s.kv.count("ddMax")) sweeps *= s.num("ddMax") + 4;
    double pairs = sweeps * cells * 2 * s.num("sn", 2) * s.num("sn", 2);
    c.stepLimit = s.get("sweep") == "OriginalTycho2" ? 15e6 : 6e6;
    c.stepTotal = (u64)std::max(24e6, 3000 * pairs);
    c.accTotal = (u64)std::max(1.2e9, 3000 * pairs * (s.num("ng", 1) + 4));
    // draws=stream:lo-hi,lo-hi;...   (absent: all active)
    std::string d = s.get("draws", "all");
    if (d != "all") {
        c.draws.all = false;
        for (auto &e : splitStr(d, ';')) {
            size_t q = e.find(':');
            if (q == std::string::npos) continue;
            for (int k = 0; k < S_NUM; k++)
                if (e.substr(0, q) == streamName[k])
                    for (auto &r : splitStr(e.substr(q + 1), ',')) {
                        u64 lo, hi;
                        if (sscanf(r.c_str(), "%lu-%lu", &lo, &hi) == 2) c.draws.act[k].push_back({lo, hi});
                    }
        }
    }
    // faults=kind,rank,index,param;...
    for (auto &e : splitStr(s.get("faults"), ';')) {
        auto p = splitStr(e, ',');
        if (p.size() < 4) continue;
        Fault f;
        for (int k = 0; k < F_NUM; k++) if (p[0] == faultName[k]) f.kind = k;
        f.rank = atoi(p[1].c_str());
        f.index = atoll(p[2].c_str());
        f.param = atoll(p[3].c_str());
        c.faults.push_back(f);
    }
    return c;
}
static std::string textFd(const std::string &t) {
    int fd = memfd_create("deck", 0);
    if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) { fprintf(stderr, "memfd failed\n"); _exit(97); }
    return "/proc/self/fd/" + std::to_string(fd);
}
void deckIs(const std::string &path);
static std::string OUTF = "out.psi";   // name of the output file (outname)
struct Deck {
    bool si, full;
    u64 iterMax, ddMax;
    double errMax, ddErr;
    std::string sweep;
};
// deckbad=KIND:SEED : a deck with one mistake that has to be refused
static const char *INTS[] = {"snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"};
static const char *DBLS[] = {"errMax", "sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2", "DD_ErrMax"};
static const char *ENUMS[] = {"OutputFile", "SourceIteration", "MPIType", "SweepType", "GaussElim"};
static const char *BADDECK[] = {"drop", "dup", "dupcase", "junk", "nan", "enum", "empty", "extra", "frac", "glue", "key", "huge", "none"};
static void spoilDeck(std::vector<std::string> &l, const std::string &kind, u64 seed) {
    Rng g(seed);
    auto find = [&](const std::string &k) { for (size_t i = 0; i < l.size(); i++) if (l[i].compare(0, k.size() + 1, k + " ") == 0) return i; return (size_t)0; };
    size_t any = g.below(l.size()), integer = find(INTS[g.below(7)]), number = g.below(2) ? integer : find(DBLS[g.below(6)]), word = find(ENUMS[g.below(5)]);
    auto key = [&](size_t i) { return l[i].substr(0, l[i].find(' ')); };
    auto val = [&](size_t i) { return l[i].substr(l[i].find(' ') + 1); };
    if (kind == "drop") l.erase(l.begin() + (long)any);
    else if (kind == "dup" || kind == "dupcase") {
        std::string k = key(any), v = val(any);
        if (kind == "dupcase") for (auto &c : k) c = g.below(2) ? (char)toupper(c) : (char)tolower(c);
        if (number == any && g.below(2)) v = "3";
        l.insert(l.begin() + (long)g.below(l.size() + 1), k + " " + v);
    } else if (kind == "junk") l[number] += g.pick<const char *>({"x", "_", "..", "e", "abc", "-", "+1", "f", "L"});
    else if (kind == "nan") l[number] = key(number) + " " + g.pick<const char *>({"abc", "true", "-", "x10", "_1", "e5", "many"});
    else if (kind == "enum") {
        std::string v = val(word);
        switch (g.below(4)) { case 0: v += g.pick<const char *>({"s", "2x", "_", "0"}); break; case 1: v = v.substr(0, v.size() - 1); if (v == "OriginalTycho") v = "Tycho"; break; case 2: v = "1"; break; default: v = "Unknown"; }
        if (v == "PBJS" || v == "CramerInte" || v.empty()) v = "None";
        l[word] = key(word) + " " + v;
    } else if (kind == "empty") l[any] = key(any) + (g.below(2) ? " " : "");
    else if (kind == "extra") l[any] += g.pick<const char *>({" 1", " true", " x", "\t2"});
    else if (kind == "frac") l[integer] += g.pick<const char *>({".5", ".", ".0x", "p3"});
    else if (kind == "glue") l[any] = key(any) + g.pick<const char *>({"=", ":", " = ", ",", " : "}) + val(any);
    else if (kind == "key") l[any] = g.below(2) ? key(any) + "x " + val(any) : key(any).substr(1) + " " + val(any);
    else if (kind == "huge") l[integer] = key(integer) + g.pick<const char *>({" 99999999999", " 123456789012345678901234567890"});
    else if (kind == "none") l.clear();
}
// the same number in another notation
static std::string restyle(std::string v, Rng &h) {
    bool dbl = v.find_first_of(".e") != std::string::npos;
    if (dbl || h.below(4) == 0) {
        size_t e = v.find('e');
        std::string m = v.substr(0, e), x = e == std::string::npos ? "" : v.substr(e);
        if (dbl) {
            if (h.below(2)) { if (m.find('.') == std::string::npos) m += "."; m += std::string(h.below(3) ? h.below(60) : h.below(6), '0'); }
            if (m.compare(0, 2, "0.") == 0 && m.size() > 2 && h.below(2)) m = m.substr(1);
            if (!x.empty() && h.below(2)) x[0] = 'E';
            if (x.empty() && h.below(3) == 0) x = h.pick<const char *>({"e0", "E+0", "e-00", "e+000"});
        }
        v = m + x;
    }
    if (v[0] != '.' || h.below(2)) switch (h.below(4)) { case 0: v = "+" + v; break; case 1: v = std::string(h.below(3) ? 1 + h.below(3) : h.below(40), '0') + v; break; }
    return v;
}
static std::string deckText(const Scenario &s, const Deck &d) {
    char b[1200];
    snprintf(b, sizeof b,
             "snOrder %d\niterMax %d\nerrMax %.17g\nmaxCellsPerStep %d\nintraAngleP %d\ninterAngleP %d\nnGroups %d\n"
             "sigmaT1 %.17g\nsigmaS1 %.17g\nsigmaT2 %.17g\nsigmaS2 %.17g\nOutputFile %s\nOutputFilename %s\n"
             "SourceIteration %s\nMPIType %s\nDD_IterMax %d\nDD_ErrMax %.17g\nSweepType %s\nGaussElim %s\n",
             (int)s.num("sn", 2), (int)d.iterMax, d.errMax, (int)s.num("mcps", 100), (int)s.num("intra"), (int)s.num("inter"),
             (int)s.num("ng", 1), s.dbl("st1", .1), s.dbl("ss1", .05), s.dbl("st2", .1), s.dbl("ss2", .05),
             s.num("outfile", 1) ? "true" : "false", OUTF.c_str(), d.si ? "true" : "false", s.get("mpi", "TychoTwoSided").c_str(),
             (int)d.ddMax, d.ddErr, d.sweep.c_str(), s.get("ge", "Original").c_str());
    std::vector<std::string> l = splitStr(b, '\n');
    while (!l.empty() && l.back().empty()) l.pop_back();
    std::string bad = s.get("deckbad");
    if (!bad.empty()) spoilDeck(l, bad.substr(0, bad.find(':')), (u64)atoll(bad.c_str() + bad.find(':') + 1));
    static const char *B0[] = {"", "", " ", "\t"};
    std::string t;
    if (!s.num("deckpad")) { for (auto &x : l) t += x + "\n"; return t; }
    // the same settings in another order among comments, so that it takes several reads
    Rng g((u64)s.num("deckpad"));
    for (size_t i = l.size(); i-- > 1;) std::swap(l[i], l[g.below(i + 1)]);
    if (s.num("deckstyle")) {
        // other ways to write the same
        Rng h((u64)s.num("deckpad") * 7 + 1);
        for (auto &x : l) {
            size_t q = x.find_first_of(" =:,");
            if (q == std::string::npos) q = x.size();
            std::string k = x.substr(0, q), rest = x.substr(q);
            if (h.below(3) == 0) for (auto &c : k) c = h.below(2) ? (char)toupper(c) : (char)tolower(c);
            if (!rest.empty() && rest[0] == ' ') {
                std::string v = rest.substr(1);
                if (v == "true" || v == "false") { if (h.below(2)) for (auto &c : v) c = h.below(2) ? (char)toupper(c) : (char)tolower(c); }
                else if (!v.empty() && x.compare(0, 15, "OutputFilename ") && isdigit((unsigned char)v[0]) && s.get("deckbad").empty() && h.below(2)) v = restyle(v, h);
                static const char *B[] = {" ", "  ", "\t", " \t ", "\t\t\t", "          "};
                rest = (h.below(12) == 0 ? std::string(h.range(20, 600), h.below(3) ? ' ' : '\t') : std::string(B[h.below(6)])) + v;
            }
            x = B0[h.below(4)] + k + rest;
        }
    }
    for (auto &x : l) {
        for (int k = g.range(0, 3); k-- > 0;) t += (s.num("deckstyle") && g.below(3) == 0 ? "  \t#=:" : "# ") + std::string(g.below(700), (char)('a' + g.below(26))) + (g.below(3) ? "\n" : " iterMax 1\n\n");
        t += std::string(g.below(3), ' ') + x + (g.below(4) ? "\n" : std::string(g.below(3) ? "   # " : s.num("deckstyle") && g.below(2) ? "#" : s.num("deckstyle") ? " ##b c #" : "   # ") + std::string(g.below(300), 'x') + "\n");
    }
    if (s.num("deckstyle") && g.below(3) == 0) while (!t.empty() && t.back() == '\n') t.pop_back();   // the last line without its end
    return t;
}
static Bytes psiHeader(u64 n, u64 na, u64 ng) {
    Bytes h(64, 0);
    memcpy(h.data(), "Tycho 2 Psi Output", 18);
    u64 v[4] = {1, n, na, ng};
    memcpy(h.data() + 32, v, 32);
    return h;
}
static Bytes priorBytes;
static void priorOutput(const Scenario &s, size_t len) {
    std::string p = s.get("prior", "none");
    disk.erase(OUTF);
    if (p == "none") return;
    size_t n = p == "longer" ? len + 4096 + len / 3 : p == "shorter" ? len / 2 : p == "empty" ? 0 : len;
    Bytes b(n);
    for (size_t i = 0; i < n; i++) b[i] = (u8)(0x41 + i % 23);
    if (p == "stale") { Bytes h = psiHeader(1, 2, 3); memcpy(b.data(), h.data(), std::min(h.size(), b.size())); }
    disk[OUTF].data = b;
    priorBytes = b;
}

// ---------------------------------------------------------------- running
static void addStats(RunResult &r) {
    u64 *a = (u64 *)&r.st, *b = (u64 *)&st;
    for (size_t i = 0; i < sizeof(Stats) / 8; i++) a[i] += b[i];
    r.hash = hash64(r.hash ^ logHash);
    r.sched = hash64(r.sched ^ schedHash);
    r.simTime += now;
    for (int i = 0; i < S_NUM; i++) r.drawsUsed[i] += cfg.draws.n[i];
    if (st.switches > 10) r.nontrivial = 1;
    r.runs++;
}
bool startJob(const std::string &lib, const std::string &entry, const JobCfg &c, RunResult &r) {
    static void *ent[MAXRANK];
    for (int i = 0; i < c.ranks; i++) {
        ent[i] = libSym(lib, i, entry);
        if (!ent[i]) { r.err = "no entry " + entry + " in " + lib; return false; }
    }
    cfg = c;
    viols.clear();
    st = Stats();
    reportClear();
    runJob(ent);
    addStats(r);
    return true;
}
const char *statusName(JobStatus s) {
    switch (s) {
    case J_OK: return "ok"; case J_FAILED: return "failed"; case J_DEADLOCK: return "deadlock";
    case J_LIVELOCK: return "livelock"; case J_HANG: return "hang"; case J_KILLED: return "killed"; default: return "running";
    }
}
// run f in a process of its own and bring back the disk
bool isolated(RunResult &r, const std::function<void(RunResult &)> &f) {
    int p[2];
    if (pipe(p)) return false;
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        RunResult q;
        armTimer();
        f(q);
        std::string o;
        auto put = [&](const void *a, size_t n) { o.append((const char *)a, n); };
        auto puts = [&](const std::string &t) { u64 n = t.size(); put(&n, 8); o += t; };
        put(&q.st, sizeof q.st); put(&q.hash, 8); put(&q.sched, 8); put(&q.simTime, 8); put(q.drawsUsed, sizeof q.drawsUsed);
        puts(q.err); puts(q.status); puts(q.note); puts(rankOut[0]);
        put(&q.nontrivial, 4); put(&q.runs, 8);
        u64 nq = q.viols.size(); put(&nq, 8);
        for (auto &v : q.viols) { puts(v.cls); puts(v.detail); }
        int stt = out.status;
        put(&stt, 4); puts(out.why); puts(out.detail);
        u64 nv = viols.size(); put(&nv, 8);
        for (auto &v : viols) { puts(v.cls); puts(v.detail); }
        u64 nd = disk.size(); put(&nd, 8);
        for (auto &d : disk) { puts(d.first); puts(std::string(d.second.data.begin(), d.second.data.end())); }
        u64 na = allocPicks.size(); put(&na, 8); put(allocPicks.data(), 8 * na);
        size_t w = 0;
        while (w < o.size()) { ssize_t k = write(p[1], o.data() + w, o.size() - w); if (k <= 0) break; w += (size_t)k; }
        _exit(0);
    }
    close(p[1]);
    std::string o;
    char b[65536]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, (size_t)k);
    close(p[0]);
    int ws; waitpid(pid, &ws, 0);
    if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { r.err = "inner job process died"; return false; }
    size_t i = 0; bool ok = true;
    auto get = [&](void *a, size_t n) { if (i + n > o.size()) { ok = false; memset(a, 0, n); return; } memcpy(a, o.data() + i, n); i += n; };
    auto gets = [&]() { u64 n; get(&n, 8); std::string t; if (!ok || i + n > o.size()) { ok = false; return t; } t = o.substr(i, n); i += n; return t; };
    RunResult q;
    get(&q.st, sizeof q.st); get(&q.hash, 8); get(&q.sched, 8); get(&q.simTime, 8); get(q.drawsUsed, sizeof q.drawsUsed);
    q.err = gets(); q.status = gets(); q.note = gets(); rankOut[0] = gets();
    get(&q.nontrivial, 4); get(&q.runs, 8);
    u64 nq; get(&nq, 8);
    for (u64 j = 0; j < nq && ok; j++) { Violation v; v.cls = gets(); v.detail = gets(); q.viols.push_back(v); }
    int stt; get(&stt, 4);
    out = Outcome(); out.status = (JobStatus)stt; out.why = gets(); out.detail = gets();
    viols.clear();
    u64 nv; get(&nv, 8);
    for (u64 j = 0; j < nv && ok; j++) { Violation v; v.cls = gets(); v.detail = gets(); viols.push_back(v); }
    u64 nd; get(&nd, 8);
    disk.clear();
    for (u64 j = 0; j < nd && ok; j++) { std::string n = gets(), d = gets(); disk[n].data.assign(d.begin(), d.end()); }
    u64 na; get(&na, 8);
    if (recordAllocs && ok && na < (1u << 20)) { allocPicks.resize(na); get(allocPicks.data(), 8 * na); }
    if (!ok || !q.err.empty()) { r.err = q.err.empty() ? "inner job result unreadable" : q.err; return false; }
    u64 *a = (u64 *)&r.st, *c = (u64 *)&q.st;
    for (size_t j = 0; j < sizeof(Stats) / 8; j++) a[j] += c[j];
    r.hash = hash64(r.hash ^ q.hash); r.sched = hash64(r.sched ^ q.sched); r.simTime += q.simTime;
    for (int j = 0; j < S_NUM; j++) r.drawsUsed[j] += q.drawsUsed[j];
    r.runs += q.runs; r.nontrivial |= q.nontrivial;
    if (r.scheds.size() < 64) r.scheds.push_back(q.sched);
    for (auto &v : q.viols) { bool dup = false; for (auto &x : r.viols) dup |= x.cls == v.cls; if (!dup) r.viols.push_back(v); }
    r.status = q.status; r.note = q.note;
    return true;
}
static void fail(RunResult &r, const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
static void fail(RunResult &r, const std::string &cls, const char *fmt, ...) {
    char b[900];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (auto &v : r.viols) if (v.cls == cls) return;
    r.viols.push_back({cls, b});
}
void addViols(RunResult &r) { for (auto &v : viols) { bool dup = false; for (auto &x : r.viols) dup |= x.cls == v.cls; if (!dup) r.viols.push_back(v); } }
static std::string tailOut() {
    std::string t;
    for (int i = 0; i < cfg.ranks; i++) {
        std::string o = rankOut[i];
        size_t a = o.find("Assertion:"); if (a == std::string::npos) a = o.find("Insist:"); if (a == std::string::npos) a = o.find("assert ");
        if (a == std::string::npos) continue;
        o = o.substr(a, 160);
        for (char &c : o) if (c == '\n') c = ' ';
        t += "[rank " + std::to_string(i) + "] " + o;
        break;
    }
    return t;
}
// the way the job ended, when it should have finished
bool endedWell(RunResult &r) {
    if (out.status == J_OK) return true;
    const char *cls = out.status == J_DEADLOCK ? "end.deadlock" : out.status == J_FAILED ? "end.abort" : "end.hang";
    fail(r, cls, "the job ends in %s (%s) on rank %d: %s %s", statusName(out.status), out.why.c_str(), out.rank, out.detail.c_str(), tailOut().c_str());
    return false;
}

// ---------------------------------------------------------------- the solver workload
struct Want {
    RefRun run;
    std::vector<u64> inner;
    double tol = 1e-9;
    bool flux = true;       // the flux is predictable
    bool exact = false;     // so are the iteration counts and printed changes
};
static void expect(const Scenario &s, RefModel &ref, Deck &d, Want &w) {
    for (int k = 0; k < 12; k++) {
        w.inner.clear();
        w.exact = true;
        w.flux = true;
        w.tol = 1e-9;
        if (d.full) {
            if (d.si) w.run = ref.si(d.iterMax, d.errMax);
            else { w.run = ref.krylov(d.iterMax, d.errMax, nullptr); w.tol = 1e-8; }
        } else if (d.si && d.sweep == "PBJ") w.run = ref.pbj(d.ddMax, d.ddErr, d.iterMax, d.errMax, &w.inner);
        else if (d.si && d.sweep == "PBJOuter") w.run = ref.pbjOuter(d.ddMax, d.ddErr, d.iterMax, d.errMax, &w.inner);
        else if (d.sweep == "PBJSI") w.run = ref.pbjsi(d.ddMax, d.ddErr);
        else { w.run = ref.exact(); w.exact = false; w.tol = 2e-7; w.flux = s.get("stop") == "conv"; return; }
        if (s.get("stop") == "conv") { w.run = ref.exact(); w.exact = false; w.tol = 2e-7; return; }
        if (w.run.margin > 0.02) return;
        d.errMax *= 1.37; d.ddErr *= 1.61;
    }
    w.exact = false; w.flux = false;
}
struct World { Mesh m; std::vector<int> part; RefModel ref; Deck d; Want w; Bytes pmesh; };
static bool makeWorld(const Scenario &s, World &W, RunResult &r) {
    int np = (int)s.num("np", 1);
    if (!buildMesh(s, W.m)) { r.err = "no usable mesh for this seed"; return false; }
    if ((int)W.m.cells.size() < np) { r.err = "mesh smaller than the job"; return false; }
    W.part = partition(W.m, s.get("part", "blob"), np, (u64)s.num("pseed", 1));
    W.d.sweep = s.get("sweep", "TraverseGraph");
    W.d.full = W.d.sweep == "OriginalTycho1" || W.d.sweep == "OriginalTycho2" || W.d.sweep == "TraverseGraph";
    W.d.si = s.num("si", 1);
    W.d.iterMax = (u64)s.num("iterMax", 100);
    W.d.errMax = s.dbl("errMax", 1e-11);
    W.d.ddMax = (u64)s.num("ddMax", 200);
    W.d.ddErr = s.dbl("ddErr", 1e-11);
    W.ref.m = W.m; W.ref.part = W.part; W.ref.np = np;
    W.ref.d.sn = (int)s.num("sn", 2); W.ref.d.ng = (int)s.num("ng", 1);
    W.ref.d.st[0] = s.dbl("st1", .1); W.ref.d.ss[0] = s.dbl("ss1", .05);
    W.ref.d.st[1] = s.dbl("st2", .1); W.ref.d.ss[1] = s.dbl("ss2", .05);
    if (!W.ref.setup()) { r.err = "cyclic mesh"; return false; }
    expect(s, W.ref, W.d, W.w);
    W.pmesh = pmeshBytes(W.m, W.part, np);
    return true;
}
struct Printed { std::vector<double> siErr, ddErr; std::vector<u64> siNo, pbj, kry; double l2 = NAN, groups = 0; bool hasL2 = false; u64 sweeps = 0, iters = ~0ull; std::vector<u64> list; };
static bool numAfter(const std::string &l, const char *key, double *v) {
    size_t p = l.find(key);
    if (p == std::string::npos) return false;
    const char *c = l.c_str() + p + strlen(key);
    char *e;
    *v = strtod(c, &e);
    return e != c;
}
static Printed parseOut(const std::string &t) {
    Printed p;
    for (auto &l : splitStr(t, '\n')) {
        double a, b;
        if (numAfter(l, "iteration:", &a) && numAfter(l, "error:", &b)) { p.siNo.push_back((u64)a); p.siErr.push_back(b); }
        else if (l.find("Traverse Timer (total)") != std::string::npos) p.sweeps++;
        else if (numAfter(l, "Num source iters:", &a)) p.iters = (u64)a;
        else if (l.find("Num source iterations:") == 0) { for (auto &w : splitStr(l.substr(22), ' ')) if (!w.empty()) p.list.push_back((u64)atoll(w.c_str())); }
        else if (numAfter(l, "L2 Relative Error:", &a)) { p.l2 = a; p.hasL2 = true; }
        else if (numAfter(l, "Diff between groups:", &a)) p.groups = a;
        else if (numAfter(l, "Relative error:", &a)) p.ddErr.push_back(a);
        else if (numAfter(l, "PBJ Iters:", &a)) p.pbj.push_back((u64)a);
        else if (numAfter(l, "Krylov iterations:", &a)) p.kry.push_back((u64)a);
    }
    return p;
}
static bool near(double a, double b, double rel, double abs) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    if (a == b) return true;
    return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + abs;
}
// the output file against the predicted flux; "" when right
static std::string fileWrong(const Scenario &s, const World &W, bool *fluxOnly) {
    *fluxOnly = false;
    auto it = disk.find(OUTF);
    if (it == disk.end()) return "the output file is missing";
    const Bytes &b = it->second.data;
    size_t n = W.m.cells.size(), na = (size_t)W.ref.q.na, ng = (size_t)W.ref.d.ng, want = 64 + n * na * 4 * ng * 8;
    char t[300];
    Bytes h = psiHeader(n, na, ng);
    if (b.size() < 64 || memcmp(b.data(), h.data(), 64)) return "the output file's header is wrong";
    if (b.size() != want) { snprintf(t, sizeof t, "the output file has %zu bytes, not %zu", b.size(), want); return t; }
    if (!W.w.flux) return "";
    double mx = 0;
    for (double v : W.w.run.psi) mx = std::max(mx, fabs(v));
    for (size_t c = 0; c < n; c++) for (size_t a = 0; a < na; a++) for (size_t v = 0; v < 4; v++) for (size_t g = 0; g < ng; g++) {
        double x;
        memcpy(&x, &b[64 + 8 * (((c * na + a) * 4 + v) * ng + g)], 8);
        double y = W.w.run.psi[(c * na + a) * 4 + v];
        if (!(fabs(x - y) <= W.w.tol * mx)) {
            snprintf(t, sizeof t, "flux of cell %zu angle %zu vertex %zu group %zu is %.12g, the serial sweep gives %.12g (largest flux %.3g)", c, a, v, g, x, y, mx);
            *fluxOnly = true;
            return t;
        }
    }
    (void)s;
    return "";
}
static void judgeRun(const Scenario &s, const World &W, RunResult &r) {
    if (const char *e = getenv("VSIM_SHOW")) if (FILE *f = fopen(e, "w")) { fputs(rankOut[0].c_str(), f); fclose(f); }
    Printed p = parseOut(rankOut[0]);
    bool fluxOnly, mem = false;
    if (W.w.flux && p.hasL2) {
        double want = W.ref.l2(W.w.run.psi);
        if (!near(p.l2, want, 2e-6 + W.w.tol * 300, 1e-12)) { mem = true; fail(r, "flux.mem", "printed L2 error %.9g, expected %.9g", p.l2, want); }
    }
    if (W.w.flux && !(p.groups <= 1e-9 || p.groups < W.w.tol)) { mem = true; fail(r, "flux.mem", "printed difference between groups %.9g, expected 0", p.groups); }
    if (s.num("outfile", 1)) {
        std::string e = fileWrong(s, W, &fluxOnly);
        if (!e.empty()) fail(r, !fluxOnly ? "file.content" : mem ? "flux.mem2" : "flux.file", "%s", e.c_str());
    }
    for (auto &d : disk) {
        if (d.first == OUTF && s.num("outfile", 1)) continue;
        if (d.first == OUTF) {
            if (s.get("prior", "none") == "none") fail(r, "file.extra", "the run creates an output file although the output is switched off");
            else if (d.second.data != priorBytes) fail(r, "file.extra", "the run changes an output file although the output is switched off");
            continue;
        }
        if (d.first == "mesh.pmesh") { if (d.second.data != W.pmesh && s.get("expect", "ok") == "ok") fail(r, "file.extra", "the run changed its mesh file"); continue; }
        fail(r, "file.extra", "the run leaves an extra file %s", d.first.c_str());
    }
    // iteration counts and printed changes
    auto cmpList = [&](const char *what, const std::vector<double> &got, const std::vector<double> &want) {
        if (got.empty()) return;
        if (got.size() != want.size()) { fail(r, "iter.count", "%zu %s, expected %zu (errMax %g, cap %lu; DD errMax %g, cap %lu)", got.size(), what, want.size(), W.d.errMax, W.d.iterMax, W.d.ddErr, W.d.ddMax); return; }
        for (size_t i = 0; i < got.size(); i++)
            if (!near(got[i], want[i], 2e-6 + 1e-12 / std::max(1e-30, want[i]), 1e-300)) { fail(r, "iter.change", "%s %zu reports change %.9g, expected %.9g", what, i, got[i], want[i]); return; }
    };
    // the counts in the report are those of the run
    if (p.iters != ~0ull && p.sweeps && p.iters != p.sweeps) fail(r, "iter.report", "%lu source iterations reported, %lu sweeps made", p.iters, p.sweeps);
    if (!p.list.empty() && W.d.sweep == "PBJOuter") {
        u64 tot = 0; for (u64 x : p.list) tot += x;
        if (p.list.size() != p.ddErr.size() || (W.d.si && !p.siNo.empty() && tot != p.siNo.size())) fail(r, "iter.report", "%zu solves with %lu source iterations reported, %zu with %zu made", p.list.size(), tot, p.ddErr.size(), p.siNo.size());
    }
    if (W.w.exact) {
        if (W.d.full && W.d.si) cmpList("source iterations", p.siErr, W.w.run.errs);
        if (W.d.full && !W.d.si && !p.kry.empty() && p.kry[0] != W.w.run.iters) fail(r, "iter.count", "%lu Krylov iterations, expected %lu", p.kry[0], W.w.run.iters);
        if (W.d.sweep == "PBJ") {
            cmpList("source iterations", p.siErr, W.w.run.errs);
            if (!p.pbj.empty() && p.pbj != W.w.inner) fail(r, "iter.count", "block Jacobi iteration counts differ from the expected ones (first: %lu, expected %lu)", p.pbj[0], W.w.inner.empty() ? 0 : W.w.inner[0]);
        }
        if (W.d.sweep == "PBJOuter" || W.d.sweep == "PBJSI") {
            cmpList("block Jacobi iterations", p.ddErr, W.w.run.errs);
            if (!p.pbj.empty() && p.pbj[0] != W.w.run.iters) fail(r, "iter.count", "PBJ iteration number ends at %lu, expected %lu", p.pbj[0], W.w.run.iters);
            u64 tot = 0; for (u64 x : W.w.inner) tot += x;
            if (W.d.sweep == "PBJOuter" && !p.siNo.empty() && p.siNo.size() != tot) fail(r, "iter.count", "%zu inner source iterations, expected %lu", p.siNo.size(), tot);
        }
    }
    for (u64 x : p.siNo) if (x >= W.d.iterMax) fail(r, "iter.cap", "source iteration number %lu with a cap of %lu", x, W.d.iterMax);
    if (W.d.full) { for (u64 k : p.kry) if (k > W.d.iterMax) fail(r, "iter.cap", "%lu Krylov iterations with a cap of %lu", k, W.d.iterMax); }
    else if (W.d.si) { for (u64 k : p.kry) if (k > W.d.ddMax) fail(r, "iter.cap", "%lu Krylov iterations with a cap of %lu", k, W.d.ddMax); }
    if (!W.d.full && W.d.sweep.substr(0, 3) == "PBJ") for (u64 k : p.pbj) if (k > W.d.ddMax) fail(r, "iter.cap", "%lu block Jacobi iterations with a cap of %lu", k, W.d.ddMax);
}
// A partition that starts outside the file, a face of no known kind, a number of a cell, face, node, material or process
// that does not exist, or a size that does not fit.
void damagePmesh(Bytes &b, const std::string &k, u64 v) {
    auto at = [&](u64 o) { u64 x; memcpy(&x, &b[o], 8); return x; };
    u64 np = at(40), part = v % np, x = 0, o = 48 + 8 * part;
    Rng g(v);
    if (k == "offset") x = b.size() + (v >> 8) % (v & 8 ? 3 : 1ull << 36);
    else {
        static const u64 KIND[] = {3, 4, 8, 255, 256, 1ull << 32, ~0ull, 1ull << 63};
        u64 q = at(o), nc = at(q), nf = at(q + 8), nn = at(q + 16), faces = q + 24 + nc * 80;
        auto beyond = [&](u64 n) { u64 r = g.below(6); return r == 0 ? n : r == 1 ? n + g.below(9) : r == 2 ? n * 2 + g.below(1000) : r == 3 ? 1ull << 32 : r == 4 ? 1ull << 63 : ~0ull; };
        if (k == "btype") { o = faces + (v >> 8) % nf * 72 + 64; x = KIND[(v >> 3) % 8]; }
        else if (k == "count") {
            int i = (int)g.below(3);
            u64 n = i == 0 ? nc : i == 1 ? nf : nn;
            o = q + 8 * (u64)i;
            x = g.below(3) == 0 ? beyond(n + 1) : g.below(2) ? n + 1 + g.below(4) : n - 1 - g.below(n);
            if (x >> 56) x = 1ull << 40;
        } else if (k == "material") {
            static const u64 M[] = {0, 3, 4, 257, 258, 1ull << 32, (1ull << 32) + 1, ~0ull, 1ull << 63};
            o = q + 24 + g.below(nc) * 80 + 72; x = M[g.below(9)];
        } else {   // index
            std::vector<u64> in, rim;
            for (u64 f = 0; f < nf; f++) { u64 t = at(faces + f * 72 + 64); if (t == 2) in.push_back(f); else if (t == 1) rim.push_back(f); }
            int w = (int)g.below(5);
            if (w == 3 && in.empty()) w = 2;
            if (w == 4 && rim.empty()) w = 0;
            if (w == 0) { o = q + 24 + g.below(nc) * 80 + 8 * g.below(4); x = beyond(nf); }
            else if (w == 1) { o = q + 24 + g.below(nc) * 80 + 32 + 8 * g.below(4); x = beyond(nn); }
            else if (w == 2) { o = faces + g.below(nf) * 72 + 16 + 8 * g.below(3); x = beyond(nn); }
            else if (w == 3) { o = faces + in[g.below(in.size())] * 72 + 8 * g.below(2); x = beyond(nc); }
            else { o = faces + rim[g.below(rim.size())] * 72 + 48 + 8 * g.below(2); x = beyond(np); }
        }
    }
    memcpy(&b[o], &x, 8);
}
// the same for a serial mesh
void damageSmesh(Bytes &b, u64 v) {
    auto at = [&](u64 o) { u64 x; memcpy(&x, &b[o], 8); return x; };
    Rng g(v);
    u64 nc = at(40), nf = at(48), nn = at(56), faces = 64 + nc * 72, o, x;
    auto beyond = [&](u64 n) { u64 r = g.below(5); return r == 0 ? n : r == 1 ? n + g.below(9) : r == 2 ? n * 2 + g.below(1000) : r == 3 ? 1ull << 32 : 1ull << 63; };
    switch (g.below(4)) {
    case 0: o = 64 + g.below(nc) * 72 + 8 * g.below(4); x = beyond(nf); break;
    case 1: o = 64 + g.below(nc) * 72 + 32 + 8 * g.below(4); x = beyond(nn); break;
    case 2: o = faces + g.below(nf) * 40 + 16 + 8 * g.below(3); x = beyond(nn); break;
    default: o = faces + g.below(nf) * 40 + 8 * g.below(2); x = beyond(nc);
    }
    memcpy(&b[o], &x, 8);
}
// damage=trunc:BYTES | name:I | version:V | np:K (file made for K parts) | missing | offset:X | btype:X | index:X | count:X | material:X
static bool damage(const Scenario &s, World &W) {
    std::string d = s.get("damage");
    Bytes &b = disk["mesh.pmesh"].data;
    if (d.empty()) return true;
    if (d == "missing") { disk.erase("mesh.pmesh"); return true; }
    size_t q = d.find(':');
    i64 v = q == std::string::npos ? 0 : atoll(d.c_str() + q + 1);
    std::string k = d.substr(0, q);
    if (k == "trunc") { if ((u64)v >= b.size()) v = (i64)b.size() - 1; b.resize((size_t)v); }
    else if (k == "permille") { size_t n = b.size() * (size_t)v / 1000; if (n >= b.size()) n = b.size() - 1; b.resize(n); }
    else if (k == "name") { b[(size_t)v % 21] ^= 0x20; }
    else if (k == "serial") { memset(b.data(), 0, 32); memcpy(b.data(), "Tycho 2 Serial Mesh", 19); }
    else if (k == "version") { u64 x = (u64)v; memcpy(&b[32], &x, 8); }
    else if (k == "offset" || k == "btype" || k == "index" || k == "count" || k == "material") damagePmesh(b, k, (u64)v);
    else if (k == "np") {
        int n = (int)v;
        if (n == (int)s.num("np", 1) || n < 1 || n > (int)W.m.cells.size()) return false;
        b = pmeshBytes(W.m, partition(W.m, s.get("part", "blob"), n, (u64)s.num("pseed", 1)), n);
    } else return false;
    st.faultsFired[F_FLIP]++;
    return true;
}

static void runConcrete(const Scenario &s, World &W, RunResult &r) {
    JobCfg c = cfgFrom(s);
    OUTF = s.get("outname", "out.psi");
    c.args = {"mesh.pmesh", textFd(deckText(s, W.d))};
    deckIs(c.args[1]);
    size_t len = 64 + W.w.run.psi.size() * (size_t)W.ref.d.ng * 8;
    disk.clear();
    disk["mesh.pmesh"].data = W.pmesh;
    priorOutput(s, len);
    if (!damage(s, W)) { r.err = "damage does not apply"; return; }
    bool dmg = !s.get("damage").empty() || !s.get("deckbad").empty();
    std::string mode = s.get("expect", "ok");
    if (s.get("kind") == "rerun") {
        // the first job is interrupted; whatever it left on disk is what the second finds
        if (!isolated(r, [&](RunResult &q) { startJob("sweep", "tycho_main", c, q); addViols(q); })) return;
        if (out.status != J_KILLED && out.status != J_OK) { r.status = "first " + std::string(statusName(out.status)); endedWell(r); return; }
        c.faults.clear();
    }
    if (!startJob("sweep", "tycho_main", c, r)) return;
    if (dmg) r.st.faultsFired[F_FLIP]++;
    r.status = statusName(out.status);
    addViols(r);
    bool fluxOnly;
    if (mode == "ok") {
        if (endedWell(r)) judgeRun(s, W, r);
        return;
    }
    if (out.status == J_DEADLOCK || out.status == J_LIVELOCK || out.status == J_HANG)
        fail(r, "fault.hang", "after the fault the job does not end: %s %s", statusName(out.status), out.detail.c_str());
    if (mode == "refuse") {
        if (out.status == J_OK) fail(r, "damage.accepted", "the damaged %s (%s) is accepted and the job reports success", s.get("deckbad").empty() ? "mesh file" : "deck", s.get(s.get("deckbad").empty() ? "damage" : "deckbad").c_str());
    } else if (out.status == J_OK) {
        std::string e = fileWrong(s, W, &fluxOnly);
        if (!e.empty()) fail(r, "fault.wrongok", "the job reports success after %s although %s", s.get("faults").c_str(), e.c_str());
    }
    bool fired = dmg;
    for (int k = 0; k < F_NUM; k++) fired |= st.faultsFired[k] > 0;
    if (!fired) r.note = "no fault reached";
}
// One fault aimed at an operation that the fault-free run performs.
std::string aimFault(const std::string &group, Rng &g, const Stats &t, int np) {
    struct Cand { int kind, rank; u64 n; };
    std::vector<Cand> v;
    auto add = [&](int kind, int rank, u64 n) { if (n) v.push_back({kind, rank, n}); };
    for (int i = 0; i < np; i++) {
        if (group == "out") {
            for (int k : {F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_SHORT}) add(k, i, t.fwrites[i]);
            add(F_CLOSE_FAIL, i, t.closes[i]);
        }
        if (group == "read" || group == "tool") { for (int k : {F_READ_EIO, F_READ_SHORT}) { add(k, i, t.freads[i]); add(k, i, t.freads[i]); } }
        if (group == "out") add(F_OPENW_FAIL, i, t.opens[i]);
        if (group == "read" || group == "tool") add(F_OPENR_FAIL, i, t.opens[i]);
        if (group == "alloc") add(F_ALLOC, i, t.allocs[i]);
    }
    if (group == "out" || group == "tool") { for (int k : {F_STDIO_WRITE, F_STDIO_ENOSPC}) add(k, -1, t.sWrites); add(F_STDIO_CLOSE, -1, t.sCloses); }
    if (group == "read" || group == "tool") { add(F_STDIO_READ, -1, t.sReads); add(F_STDIO_OPEN, -1, t.sOpens); }
    if (group == "tool") { add(F_STDIO_READSHORT, -1, t.sReads); add(F_ALLOC, 0, t.allocs[0]); }
    if (group == "deck") for (int i = 0; i < np; i++) {
        for (int k : {F_DECK_EIO, F_DECK_CUT, F_DECK_SHORT}) add(k, i, t.deckReads[i]);
        add(F_DECK_OPEN, i, t.deckOpens[i]);
    }
    if (group == "kill") add(F_KILL, -1, t.fileOps);
    if (v.empty()) return "";
    // first and last operations are the likeliest to be mishandled
    Cand c = v[g.below(v.size())];
    u64 m = g.below(6), ix = m == 0 ? 0 : m == 1 ? c.n - 1 : g.below(c.n);
    i64 par = (i64)(g.next() >> 40);
    if (c.kind == F_ALLOC && allocPicks.size() >= 3 && g.below(3)) {   // every place that allocates is as likely as any other
        u64 pick = allocPicks[g.below(allocPicks.size())];
        c.rank = (int)(pick >> 40); ix = pick & ((1ull << 40) - 1);
    }
    if (c.kind == F_KILL) par = (i64)g.below(2);
    if (g.below(4) == 0 && c.kind != F_KILL) par = 0;
    return std::string(faultName[c.kind]) + "," + std::to_string(c.rank) + "," + std::to_string(ix) + "," + std::to_string(par);
}
static void runMain(const Scenario &s, RunResult &r) {
    World W;
    if (!makeWorld(s, W, r)) return;
    if (s.get("fplan").empty()) { runConcrete(s, W, r); return; }
    // fplan=group:count:seed  one fault-free run, then count runs with a fault each
    auto f = splitStr(s.get("fplan"), ':');
    Scenario base = s;
    base.kv.erase("fplan");
    int n = atoi(f[1].c_str());
    Rng g((u64)atoll(f[2].c_str()));
    if (f[0] == "damage") {
        for (int i = 0; i < n && r.viols.empty() && r.err.empty(); i++) {
            Scenario q = base;
            std::string d;
            switch (g.below(16)) {
            case 11: case 12: case 13: d = "index:" + std::to_string(g.next() >> 20); break;
            case 14: d = "count:" + std::to_string(g.next() >> 20); break;
            case 15: d = "material:" + std::to_string(g.next() >> 20); break;
            case 9: d = "offset:" + std::to_string(g.next() >> 20); break;
            case 10: d = "btype:" + std::to_string(g.next() >> 20); break;
            case 0: d = "trunc:" + std::to_string(g.below(120)); break;
            case 1: case 2: case 3: d = "trunc:" + std::to_string(g.below(W.pmesh.size())); break;
            case 4: d = "trunc:" + std::to_string(W.pmesh.size() - 1 - g.below(40)); break;
            case 5: d = g.below(3) ? "name:" + std::to_string(g.below(21)) : "serial"; break;
            case 6: { u64 vv[] = {0, 1, 3, 4, 7, 1000, ~0ull, 1ull << 32 | 2}; d = "version:" + std::to_string((i64)vv[g.below(8)]); break; }
            case 7: { int k = g.range(1, 8); if (k == W.ref.np || k > (int)W.m.cells.size()) k = W.ref.np == 1 ? 2 : 1; d = "np:" + std::to_string(k); break; }
            default: d = g.below(4) ? "trunc:" + std::to_string(g.below(W.pmesh.size())) : "missing";
            }
            q.set("damage", d);
            if (!isolated(r, [&](RunResult &o) { runConcrete(q, W, o); })) return;
            if (!r.viols.empty()) r.concrete = q.text();
        }
        return;
    }
    if (f[0] == "deckbad") {
        for (int i = 0; i < n && r.viols.empty() && r.err.empty(); i++) {
            Scenario q = base;
            q.set("deckbad", std::string(BADDECK[g.below(sizeof BADDECK / sizeof *BADDECK)]) + ":" + std::to_string(g.below(1000000)));
            if (!isolated(r, [&](RunResult &o) { runConcrete(q, W, o); })) return;
            if (!r.viols.empty()) r.concrete = q.text();
        }
        return;
    }
    Scenario dry = base;
    dry.set("kind", "main"); dry.set("expect", "ok");
    RunResult d;
    allocPicks.clear();
    recordAllocs = f[0] == "alloc";
    bool dryOk = isolated(d, [&](RunResult &q) { runConcrete(dry, W, q); });
    recordAllocs = false;
    if (!dryOk) { r.err = d.err; return; }
    r.runs += d.runs; r.simTime += d.simTime; r.hash = hash64(r.hash ^ d.hash);
    if (d.status != "ok") { r.note = "the fault-free run does not finish"; return; }
    for (int i = 0; i < n && r.viols.empty() && r.err.empty(); i++) {
        Scenario q = base;
        std::string fs = aimFault(f[0], g, d.st, W.ref.np);
        if (fs.empty()) { r.note = "nothing to fail"; return; }
        q.set("faults", fs);
        if (!isolated(r, [&](RunResult &o) { runConcrete(q, W, o); })) return;
        if (!r.viols.empty()) r.concrete = q.text();
    }
}

void runMainPublic(const Scenario &s, RunResult &r) { runMain(s, r); }
void runDriver(const Scenario &s, RunResult &r);
void runTool(const Scenario &s, RunResult &r);
void runScenario(const Scenario &s, RunResult &r) {
    r.hash = 7; r.sched = 7;
    std::string k = s.get("kind", "main");
    if (k == "main" || k == "rerun") runMain(s, r);
    else if (k == "drv") runDriver(s, r);
    else if (k == "tool") runTool(s, r);
    else r.err = "unknown kind " + k;
    r.done = true;
}
