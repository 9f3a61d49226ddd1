// Driver: loads the program's libraries, searches over seeds with one process
// per simulated scenario, confirms, minimises and replays what it finds.
#include "vs.hh"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <dlfcn.h>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <iostream>

static double wallNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

// ---------------------------------------------------------------- libraries
static std::map<std::string, Lib> libs;
static bool loadLib(const std::string &name, int copies) {
    Lib l = {};
    for (int i = 0; i < copies; i++) {
        std::string p = buildDir + "/lib" + name + (copies > 1 ? std::to_string(i) : "") + ".so";
        l.h[i] = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        // a function the simulator lacks only matters once it is called
        if (!l.h[i]) l.h[i] = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!l.h[i]) { if (i == 0 && access(p.c_str(), F_OK)) return false; fprintf(stderr, "vsim: %s\n", dlerror()); return false; }
    }
    libs[name] = l;
    return true;
}
static int segCb(struct dl_phdr_info *in, size_t, void *d) {
    auto *want = (std::pair<const char *, int> *)d;
    char full[PATH_MAX];
    if (!in->dlpi_name || !realpath(in->dlpi_name, full) || strcmp(full, want->first)) return 0;
    uintptr_t lo = ~0ull, hi = 0;
    for (int i = 0; i < in->dlpi_phnum; i++) {
        auto &p = in->dlpi_phdr[i];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { lo = std::min<uintptr_t>(lo, in->dlpi_addr + p.p_vaddr); hi = std::max<uintptr_t>(hi, in->dlpi_addr + p.p_vaddr + p.p_memsz); }
        if (p.p_type == PT_TLS) setTls(want->second, in->dlpi_tls_modid, p.p_memsz);
    }
    if (hi) regSegment(want->second, lo, hi);
    return 1;
}
static void useSegments(const std::string &name, int rank) {
    auto &l = libs[name];
    struct link_map *lm;
    if (!l.h[rank] || dlinfo(l.h[rank], RTLD_DI_LINKMAP, &lm)) return;
    char full[PATH_MAX];
    if (!realpath(lm->l_name, full)) return;
    std::pair<const char *, int> w{full, rank};
    dl_iterate_phdr(segCb, &w);
}
void *libSym(const std::string &lib, int rank, const std::string &entry) {
    auto it = libs.find(lib);
    if (it == libs.end() || !it->second.h[rank]) return nullptr;
    useSegments(lib, rank);
    void *p = dlsym(it->second.h[rank], entry.c_str());
    if (!p) {
        char m[200];
        snprintf(m, sizeof m, "_Z%zu%siPPc", entry.size(), entry.c_str());
        p = dlsym(it->second.h[rank], m);
        if (!p) { snprintf(m, sizeof m, "_Z%zu%siPPKc", entry.size(), entry.c_str()); p = dlsym(it->second.h[rank], m); }
        if (!p) { snprintf(m, sizeof m, "_Z%zu%sv", entry.size(), entry.c_str()); p = dlsym(it->second.h[rank], m); }
    }
    return p;
}

// ---------------------------------------------------------------- one process per scenario
static void onSignal(int s, siginfo_t *, void *) {
    if (!cur || cur->hostDepth > 64) _exit(99);
    char w[40];
    snprintf(w, sizeof w, "signal %d", s);
    jobEnd(J_FAILED, cur->rank->id, 128 + s, w);
}
// A run that neither touches memory nor calls anything for a whole timer period spins for ever.
// One that is merely slow has no verdict: that must not depend on the speed of this machine.
static void onProf(int) {
    static u64 seenA = ~0ull, seenS = ~0ull;
    static int n;
    if (cur && seenA == st.accesses && seenS == st.steps) jobEnd(J_HANG, cur->rank->id, 0, "no progress: computes without end");
    seenA = st.accesses; seenS = st.steps;
    if (++n > 8) _exit(98);
}
void armTimer() {
    struct itimerval t = {};
    t.it_value.tv_sec = 20; t.it_interval.tv_sec = 5;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void childSetup() {
    static char alt[65536];
    stack_t ss = {};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction a = {};
    a.sa_sigaction = onSignal;
    a.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &a, nullptr);
    struct sigaction b = {};
    b.sa_handler = onProf;
    b.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGPROF, &b, nullptr);
    std::set_terminate([]() { if (cur) rankAbort("uncaught exception"); _exit(96); });
    struct rlimit z = {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    armTimer();
    int n = open("/dev/null", O_RDWR);
    if (!getenv("VSIM_DEBUG")) { dup2(n, 1); dup2(n, 2); }
    dup2(n, 0);
    captureOutput();
}
static std::string pack(const RunResult &q) {
    std::string o;
    auto put = [&](const void *a, size_t n) { o.append((const char *)a, n); };
    auto puts = [&](const std::string &t) { u64 n = t.size(); put(&n, 8); o += t; };
    put(&q.st, sizeof q.st); put(&q.hash, 8); put(&q.sched, 8); put(&q.simTime, 8); put(q.drawsUsed, sizeof q.drawsUsed);
    puts(q.err); puts(q.status); puts(q.note); puts(q.concrete);
    put(&q.nontrivial, 4); put(&q.runs, 8);
    u64 nq = q.viols.size(); put(&nq, 8);
    for (auto &v : q.viols) { puts(v.cls); puts(v.detail); }
    u64 ns = q.scheds.size(); put(&ns, 8);
    for (u64 x : q.scheds) put(&x, 8);
    return o;
}
static bool unpack(const std::string &o, RunResult &q) {
    size_t i = 0; bool ok = true;
    auto get = [&](void *a, size_t n) { if (i + n > o.size()) { ok = false; memset(a, 0, n); return; } memcpy(a, o.data() + i, n); i += n; };
    auto gets = [&]() { u64 n; get(&n, 8); std::string t; if (!ok || i + n > o.size()) { ok = false; return t; } t = o.substr(i, n); i += n; return t; };
    get(&q.st, sizeof q.st); get(&q.hash, 8); get(&q.sched, 8); get(&q.simTime, 8); get(q.drawsUsed, sizeof q.drawsUsed);
    q.err = gets(); q.status = gets(); q.note = gets(); q.concrete = gets();
    get(&q.nontrivial, 4); get(&q.runs, 8);
    u64 nq; get(&nq, 8);
    for (u64 j = 0; j < nq && ok; j++) { Violation v; v.cls = gets(); v.detail = gets(); q.viols.push_back(v); }
    u64 ns; get(&ns, 8);
    for (u64 j = 0; j < ns && ok; j++) { u64 x; get(&x, 8); q.scheds.push_back(x); }
    return ok;
}
struct Kid { pid_t pid = 0; int fd = -1; std::string buf; Scenario s; double t0 = 0; u64 id = 0; };
static Kid spawn(const Scenario &s) {
    Kid k;
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    k.s = s; k.t0 = wallNow();
    k.pid = fork();
    if (k.pid < 0) { perror("fork"); exit(3); }
    if (k.pid == 0) {
        close(p[0]);
        setpgid(0, 0);
        childSetup();
        RunResult r;
        runScenario(s, r);
        std::string o = pack(r);
        size_t w = 0;
        while (w < o.size()) { ssize_t n = write(p[1], o.data() + w, o.size() - w); if (n <= 0) break; w += (size_t)n; }
        _exit(0);
    }
    setpgid(k.pid, k.pid);
    close(p[1]);
    k.fd = p[0];
    return k;
}
static const double WALL_LIMIT = 180;
// poll the kids; handle finished ones
static void drain(std::vector<Kid> &kids, int timeoutMs, const std::function<void(Kid &, RunResult &)> &fin) {
    std::vector<struct pollfd> pf;
    for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), timeoutMs);
    std::vector<Kid> left;
    for (size_t i = 0; i < kids.size(); i++) {
        Kid &k = kids[i];
        bool end = false;
        if (pf[i].revents) {
            char b[65536];
            ssize_t n = read(k.fd, b, sizeof b);
            if (n > 0) k.buf.append(b, (size_t)n); else end = true;
        }
        bool late = wallNow() - k.t0 > WALL_LIMIT;
        if (!end && !late) { left.push_back(std::move(k)); continue; }
        if (late) kill(-k.pid, SIGKILL);
        close(k.fd);
        int ws; waitpid(k.pid, &ws, 0);
        RunResult r;
        r.wall = wallNow() - k.t0;
        if (late) r.err = "wall time limit";
        else if (!WIFEXITED(ws) || WEXITSTATUS(ws)) r.err = "scenario process died (" + std::to_string(ws) + ")";
        else if (!unpack(k.buf, r)) r.err = "unreadable result";
        else r.done = true;
        fin(k, r);
    }
    kids.swap(left);
}
static RunResult runOne(const Scenario &s) {
    std::vector<Kid> kids{spawn(s)};
    RunResult out;
    while (!kids.empty()) drain(kids, 1000, [&](Kid &, RunResult &r) { out = r; });
    return out;
}
static std::vector<RunResult> runMany(const std::vector<Scenario> &v) {
    std::vector<RunResult> res(v.size());
    std::vector<Kid> kids;
    size_t next = 0;
    while (next < v.size() || !kids.empty()) {
        while (next < v.size() && kids.size() < 8) { kids.push_back(spawn(v[next])); kids.back().id = next; next++; }
        drain(kids, 1000, [&](Kid &k, RunResult &r) { res[k.id] = r; });
    }
    return res;
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, match, what; };
static std::vector<Known> knowns;
static void loadKnown() {   // known: property=C.. class=.. match="text of the violation" what="..."
    FILE *f = fopen((verifDir + "/known-findings.txt").c_str(), "r");
    if (!f) return;
    char l[4000];
    while (fgets(l, sizeof l, f)) {
        std::string t = l;
        if (t.substr(0, 6) != "known:") continue;
        auto field = [&](const char *k) {
            size_t p = t.find(std::string(" ") + k + "=");
            if (p == std::string::npos) return std::string();
            p += strlen(k) + 2;
            if (t[p] == '"') { size_t e = t.find('"', p + 1); return t.substr(p + 1, e - p - 1); }
            size_t e = t.find_first_of(" \n", p);
            return t.substr(p, e - p);
        };
        knowns.push_back({field("property"), field("class"), field("match"), field("what")});
    }
    fclose(f);
}
static const Known *isKnown(const std::string &prop, const Violation &v) {
    for (auto &k : knowns) if (k.prop == prop && k.cls == v.cls && v.detail.find(k.match) != std::string::npos) return &k;
    return nullptr;
}
static const Violation *relevant(const std::string &prop, const RunResult &r) {
    for (auto &v : r.viols) if (classOf(prop, v.cls) && !isKnown(prop, v)) return &v;
    return nullptr;
}

// ---------------------------------------------------------------- minimising
static bool stillFails(const std::string &prop, const std::string &cls, const RunResult &r) {
    if (!r.done || !r.err.empty()) return false;
    for (auto &v : r.viols) if (v.cls == cls && classOf(prop, v.cls) && !isKnown(prop, v)) return true;
    return false;
}
static Scenario minimise(const std::string &prop, const std::string &cls, Scenario s, RunResult &res, double budget, int *tried) {
    double t0 = wallNow();
    auto left = [&]() { return wallNow() - t0 < budget; };
    auto attempt = [&](const std::vector<Scenario> &cand) {   // the first candidate that still fails
        if (cand.empty()) return false;
        auto rr = runMany(cand);
        *tried += (int)cand.size();
        for (size_t i = 0; i < cand.size(); i++) if (stillFails(prop, cls, rr[i])) { s = cand[i]; res = rr[i]; return true; }
        return false;
    };
    auto with = [&](const char *k, const std::string &v) { Scenario q = s; q.set(k, v); return q; };
    bool any = true;
    for (int round = 0; round < 4 && any && left(); round++) {
        any = false;
        std::vector<std::pair<const char *, std::vector<std::string>>> tries = {
            {"clock", {"0"}}, {"stall", {"0"}}, {"miss", {"0"}}, {"late", {"0"}}, {"speed", {"0"}}, {"costj", {"0"}},
            {"reduce", {"0"}}, {"delay", {"0"}}, {"yield", {"0"}}, {"proto", {"0"}}, {"prior", {"none"}}, {"ng", {"1"}},
            {"sn", {"2"}}, {"mats", {"1"}}, {"mcps", {"100"}}, {"inter", {"0"}}, {"intra", {"0"}}, {"ge", {"Original"}},
            {"mpi", {"TychoTwoSided"}}};
        for (auto &t : tries) {
            if (!left()) break;
            if (!s.kv.count(t.first) || s.get(t.first) == t.second[0]) continue;
            if (attempt({with(t.first, t.second[0])})) any = true;
        }
        std::vector<Scenario> c;
        for (int n = 1; n < s.num("threads", 1); n++) c.push_back(with("threads", std::to_string(n)));
        if (left() && attempt(c)) any = true;
        c.clear();
        for (int n = 1; n < s.num("np", 1); n++) c.push_back(with("np", std::to_string(n)));
        if (left() && attempt(c)) any = true;
        c.clear();
        if (s.get("mesh").substr(0, 4) == "box:" && s.get("mesh") != "box:1,1,1,0") {
            for (const char *m : {"box:1,1,1,1", "box:1,1,1,0", "box:2,1,1,1", "box:2,1,1,0", "box:2,2,1,0"}) {
                if (s.get("mesh") == m) break;
                c.push_back(with("mesh", m));
            }
            if (left() && attempt(c)) any = true;
        }
        c.clear();
        for (i64 n = 1; n < s.num("iterMax", 1) && n < 4; n++) c.push_back(with("iterMax", std::to_string(n)));
        if (left() && attempt(c)) any = true;
    }
    // silence draws: whole streams, then ranges of the ones that matter
    struct R { u64 lo, hi; };
    std::vector<std::vector<R>> act(S_NUM);
    for (int k = 0; k < S_NUM; k++) if (res.drawsUsed[k]) act[(size_t)k].push_back({0, res.drawsUsed[k]});
    auto enc = [&](const std::vector<std::vector<R>> &a) {
        std::string t;
        for (int k = 0; k < S_NUM; k++) {
            if (a[(size_t)k].empty()) continue;
            if (!t.empty()) t += ";";
            t += streamName[k]; t += ":";
            for (size_t i = 0; i < a[(size_t)k].size(); i++) t += (i ? "," : "") + std::to_string(a[(size_t)k][i].lo) + "-" + std::to_string(a[(size_t)k][i].hi);
        }
        return t.empty() ? std::string("none:0-0") : t;
    };
    if (left() && attempt({with("draws", enc(act))})) {
        for (int k = 0; k < S_NUM && left(); k++) {
            if (act[(size_t)k].empty()) continue;
            auto a = act; a[(size_t)k].clear();
            if (attempt({with("draws", enc(a))})) act = a;
        }
        for (int k = 0; k < S_NUM && left(); k++) {
            if (act[(size_t)k].empty()) continue;
            // delta debugging over halves of what is active
            std::vector<R> work = act[(size_t)k];
            u64 grain = 0; for (auto &x : work) grain += x.hi - x.lo;
            grain = (grain + 1) / 2;
            int guard = 0;
            while (grain >= 1 && left() && guard++ < 60) {
                std::vector<R> pieces;
                for (auto &x : act[(size_t)k]) for (u64 l = x.lo; l < x.hi; l += grain) pieces.push_back({l, std::min(x.hi, l + grain)});
                if (pieces.size() > 64) break;
                std::vector<Scenario> c; std::vector<std::vector<std::vector<R>>> as;
                for (size_t p = 0; p < pieces.size(); p++) {
                    auto a = act; a[(size_t)k].clear();
                    for (size_t q = 0; q < pieces.size(); q++) if (q != p) a[(size_t)k].push_back(pieces[q]);
                    as.push_back(a); c.push_back(with("draws", enc(a)));
                }
                auto rr = runMany(c);
                *tried += (int)c.size();
                bool hit = false;
                for (size_t i = 0; i < c.size(); i++) if (stillFails(prop, cls, rr[i])) { s = c[i]; res = rr[i]; act = as[i]; hit = true; break; }
                if (!hit) { if (grain == 1) break; grain = (grain + 1) / 2; }
            }
        }
    }
    return s;
}

// ---------------------------------------------------------------- evidence
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
static std::string oneLine(const Scenario &s) { std::string t; for (auto &p : s.kv) t += (t.empty() ? "" : " ") + p.first + "=" + p.second; return t; }

static int check(const std::string &prop, bool thorough, u64 seed, double budget, const std::string &evFile, double preWall) {
    double t0 = wallNow();
    loadKnown();
    std::vector<Kid> kids;
    u64 next = 0, scen = 0, runs = 0, nontriv = 0, errs = 0, simTime = 0;
    Stats tot = {};
    std::set<u64> scheds;
    std::map<std::string, u64> endings, bySweep, byNp, notes, knownHits;
    std::vector<std::string> samples, errList;
    bool found = false;
    Scenario bad; RunResult badR; Violation badV;
    u64 unconfirmed = 0;
    auto fin = [&](Kid &k, RunResult &r) {
        if (!r.done || !r.err.empty()) { errs++; if (errList.size() < 5) errList.push_back(r.err + ": " + oneLine(k.s)); return; }
        scen++; runs += std::max<u64>(1, r.runs); simTime += r.simTime;
        if (r.nontrivial) nontriv++;
        u64 *a = (u64 *)&tot, *b = (u64 *)&r.st;
        for (size_t i = 0; i < sizeof(Stats) / 8; i++) a[i] += b[i];
        if (r.nontrivial) { scheds.insert(r.sched); for (u64 x : r.scheds) scheds.insert(x); }
        endings[r.status.empty() ? "-" : r.status]++;
        if (!k.s.get("sweep").empty()) bySweep[k.s.get("sweep")]++;
        byNp[k.s.get("np", "1")]++;
        if (!r.note.empty()) notes[r.note]++;
        if (samples.size() < 6 && (scen % 7 == 1)) samples.push_back(oneLine(k.s));
        for (auto &v : r.viols) if (classOf(prop, v.cls)) if (auto *kn = isKnown(prop, v)) knownHits[kn->what]++;
        const Violation *v = relevant(prop, r);
        if (v && !found) {
            Scenario s = r.concrete.empty() ? k.s : Scenario::parse(r.concrete);
            // the same seed must give the same execution, in a fresh process
            RunResult x = runOne(s), y = runOne(s);
            bool same = stillFails(prop, v->cls, x) && stillFails(prop, v->cls, y) && x.hash == y.hash && (!r.concrete.empty() || x.hash == r.hash);
            if (same) { found = true; bad = s; badR = x; badV = *v; for (auto &q : x.viols) if (q.cls == v->cls) badV = q; }
            else { unconfirmed++; if (errList.size() < 5) errList.push_back("not repeatable: " + v->cls + " " + v->detail + ": " + oneLine(s)); }
        }
    };
    while (!found && wallNow() - t0 < budget && errs < 200) {
        while (kids.size() < 8 && wallNow() - t0 < budget) {
            Rng g(hash64(seed * 1000003 + next));
            Scenario s;
            genScenario(prop, thorough, next, g, s);
            s.set("seed", (i64)(hash64(seed ^ (next << 20)) >> 16));
            Kid k = spawn(s);
            k.id = next++;
            kids.push_back(std::move(k));
        }
        drain(kids, 200, fin);
    }
    double searchWall = wallNow() - t0;
    if (found) for (auto &k : kids) { kill(-k.pid, SIGKILL); close(k.fd); waitpid(k.pid, nullptr, 0); }
    else while (!kids.empty()) drain(kids, 500, fin);
    if (found) for (auto &k : kids) (void)k;
    int nviol = 0;
    int tried = 0;
    std::string replay;
    if (found) {
        nviol = 1;
        RunResult mr = badR;
        Scenario ms = minimise(prop, badV.cls, bad, mr, thorough ? 120 : 40, &tried);
        for (auto &q : mr.viols) if (q.cls == badV.cls) badV = q;
        mkdir((verifDir + "/replays").c_str(), 0755);
        replay = verifDir + "/replays/" + prop + "-" + std::to_string(seed) + ".replay";
        FILE *f = fopen(replay.c_str(), "w");
        if (f) {
            fprintf(f, "# property %s: %s\n# %s\n# replay: bash /verif/check.sh replay %s\n#property=%s\n#class=%s\n#hash=%016lx\n%s", prop.c_str(), badV.cls.c_str(), badV.detail.c_str(), replay.c_str(), prop.c_str(), badV.cls.c_str(), mr.hash, ms.text().c_str());
            fclose(f);
        }
        printf("violation of %s [%s]: %s\n  scenario: %s\n  minimised (%d runs): %s\n", prop.c_str(), badV.cls.c_str(), badV.detail.c_str(), oneLine(bad).c_str(), tried, oneLine(ms).c_str());
    }
    for (auto &k : knowns) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
    // ---- evidence
    double wall = wallNow() - t0;
    FILE *f = fopen(evFile.c_str(), "w");
    if (f) {
        auto kvmap = [&](const std::map<std::string, u64> &m) { std::string t = "{"; for (auto &p : m) t += (t.size() > 1 ? ", " : "") + jstr(p.first) + ": " + std::to_string(p.second); return t + "}"; };
        std::map<std::string, u64> fk;
        for (int k = 1; k < F_NUM; k++) if (tot.faultsFired[k]) fk[faultName[k]] = tot.faultsFired[k];
        std::map<std::string, u64> sk = {{"messages", tot.msgs}, {"messages_reordered_or_delayed", tot.reorder}, {"late_receive_completions", tot.lateRecv},
            {"rendezvous_sends", tot.rndv}, {"late_captured_sends", tot.lateCap}, {"eager_sends", tot.eager}, {"missed_polls", tot.probeMiss}, {"process_stalls", tot.stalls},
            {"thread_preemptions", tot.yields}, {"context_switches", tot.switches}, {"thread_teams", tot.teams}, {"collectives", tot.colls}, {"reordered_reductions", tot.rndReduce},
            {"clock_reads", tot.clockReads}, {"clock_jumps", tot.clockJumps}, {"memory_accesses_watched", tot.accesses}, {"buffers_watched", tot.sendPins}};
        fprintf(f, "{\n  \"property\": %s,\n  \"tier\": \"%s\",\n  \"seed\": %lu,\n  \"level\": \"exploration\",\n  \"coverage\": {\n", jstr(prop).c_str(), thorough ? "thorough" : "quick", seed);
        fprintf(f, "    \"evaluations\": %lu,\n    \"distinct_nontrivial\": %zu,\n", runs, scheds.size());
        fprintf(f, "    \"rule\": \"scenarios are drawn from the seed; a simulated run is non-trivial when its scheduler had a choice (several processes or threads, a file operation or an injected fault) and is counted once per distinct hash of the sequence of switches, deliveries and faults\",\n");
        fprintf(f, "    \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(samples[i]).c_str());
        fprintf(f, "],\n    \"scenarios\": %lu,\n    \"simulated_runs\": %lu,\n    \"scenarios_with_interleaving\": %lu,\n", scen, runs, nontriv);
        fprintf(f, "    \"runs_per_hour\": %.0f,\n    \"seeds_per_hour\": %.0f,\n    \"simulated_seconds\": %.3f,\n", (double)runs / std::max(.001, searchWall) * 3600, (double)scen / std::max(.001, searchWall) * 3600, (double)simTime * 1e-6);
        fprintf(f, "    \"faults_injected\": %s,\n    \"schedule_choices\": %s,\n", kvmap(fk).c_str(), kvmap(sk).c_str());
        fprintf(f, "    \"endings\": %s,\n    \"by_solver\": %s,\n    \"by_process_count\": %s,\n    \"notes\": %s,\n", kvmap(endings).c_str(), kvmap(bySweep).c_str(), kvmap(byNp).c_str(), kvmap(notes).c_str());
        fprintf(f, "    \"known_findings_met\": %s,\n    \"unconfirmed\": %lu,\n    \"harness_errors\": %lu,\n    \"harness_error_samples\": [", kvmap(knownHits).c_str(), unconfirmed, errs);
        for (size_t i = 0; i < errList.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(errList[i]).c_str());
        fprintf(f, "],\n    \"real_components\": \"all of /repo/src (and the mesh tools of /repo/util for C12), compiled from the working tree with memory-access hooks\",\n");
        fprintf(f, "    \"stub_components\": \"MPI and MPI-IO, OpenMP runtime, PETSc GMRES, file system, clocks, allocator, process control: simulated in one process\"\n  },\n");
        fprintf(f, "  \"assumptions\": [\"MPI, OpenMP and PETSc behave as their standards allow; the simulated versions cover the calls the program makes\", \"fiber switches happen at calls into the outside world, at atomics and at a seeded subset of memory accesses\", \"seeded search: schedules and faults not drawn are not covered\"],\n");
        fprintf(f, "  \"wall_s\": %.2f,\n  \"violations\": %d\n}\n", wall + preWall, nviol);
        fclose(f);
    }
    printf("%s %s: %lu scenarios, %lu simulated runs, %zu distinct schedules, %.1f s search, %lu harness errors\n", prop.c_str(), thorough ? "thorough" : "quick", scen, runs, scheds.size(), searchWall, errs);
    for (auto &e : errList) printf("  harness: %s\n", e.c_str());
    if (!found && !scen) { printf("no scenario gave an answer\n"); return 2; }
    if (found) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str()); return 1; }
    return 0;
}
static int replayFile(const std::string &file) {
    FILE *f = fopen(file.c_str(), "r");
    if (!f) { perror(file.c_str()); return 2; }
    std::string t; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
    fclose(f);
    auto meta = [&](const char *k) { size_t p = t.find(std::string("#") + k + "="); if (p == std::string::npos) return std::string(); p += strlen(k) + 2; return t.substr(p, t.find('\n', p) - p); };
    Scenario s = Scenario::parse(t);
    RunResult r = runOne(s);
    printf("scenario: %s\nstatus: %s %s %s\n", oneLine(s).c_str(), r.status.c_str(), r.note.c_str(), r.err.c_str());
    char h[20]; snprintf(h, sizeof h, "%016lx", r.hash);
    printf("hash: %s%s  runs %lu  simtime %lu us  steps %lu msgs %lu switches %lu accesses %lu wall %.3f\n", h, meta("hash").empty() ? "" : meta("hash") == h ? " (as recorded)" : " (DIFFERS from the recorded run)", r.runs, r.simTime, r.st.steps, r.st.msgs, r.st.switches, r.st.accesses, r.wall);
    bool hit = false;
    for (auto &v : r.viols) { printf("  [%s] %s\n", v.cls.c_str(), v.detail.c_str()); if (v.cls == meta("class")) hit = true; }
    if (!r.concrete.empty()) printf("concrete:\n%s", r.concrete.c_str());
    if (hit) { printf("VIOLATION property=%s replay=%s\n", meta("property").c_str(), file.c_str()); return 1; }
    return r.err.empty() ? 0 : 2;
}
int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("VSIM_NOREEXEC")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("VSIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    if (argc < 5) { fprintf(stderr, "usage: vsim VERIF REPO BUILD check PROP TIER SEED BUDGET EVIDENCE PREWALL | replay FILE | gen PROP N\n"); return 2; }
    verifDir = argv[1]; repoDir = argv[2]; buildDir = argv[3];
    std::string cmd = argv[4];
    memInit();
    if (!access((buildDir + "/gaps").c_str(), F_OK)) gapInit();
    if (!loadLib("sweep", MAXRANK)) { fprintf(stderr, "vsim: cannot load the program\n"); return 2; }
    for (const char *t : {"PartitionColumns", "PartitionMetis", "RefineSerialMesh", "SerialMeshInfo"}) loadLib(t, 1);
    loadLib("ParallelMeshInfo", MAXRANK);
    if (cmd == "check" && argc >= 11) return check(argv[5], !strcmp(argv[6], "thorough"), strtoull(argv[7], nullptr, 0), atof(argv[8]), argv[9], atof(argv[10]));
    if (cmd == "replay" && argc >= 6) return replayFile(argv[5]);
    if (cmd == "gen" && argc >= 7) {
        u64 i = strtoull(argv[6], nullptr, 0);
        u64 seed = argc > 7 ? strtoull(argv[7], nullptr, 0) : 1;
        Rng g(hash64(seed * 1000003 + i));
        Scenario s;
        genScenario(argv[5], false, i, g, s);
        s.set("seed", (i64)(hash64(seed ^ (i << 20)) >> 16));
        printf("%s", s.text().c_str());
        return 0;
    }
    return 2;
}
