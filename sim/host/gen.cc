// What each property's search draws, and which observations break it.
#include "vs.hh"
#include <cmath>

static const char *FULL[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"};
static const char *DD[] = {"PBJ", "PBJOuter", "PBJSI", "Schur", "SchurOuter", "SchurKrylov"};
static const char *GE[] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"};

static void genMesh(Rng &g, Scenario &s, bool thorough, int maxCells) {
    struct B { const char *spec; int cells; };
    static const B small[] = {{"box:1,1,1,0", 6}, {"box:1,1,1,1", 5}, {"box:2,1,1,0", 12}, {"box:2,1,1,1", 10}, {"box:2,2,1,0", 24},
                              {"box:2,2,1,1", 20}, {"box:2,2,2,1", 40}, {"box:2,2,2,0", 48}, {"box:3,2,1,0", 36}, {"box:3,2,2,1", 60}, {"box:4,1,1,0", 24},
                              {"box:5,1,1,1", 25}, {"box:3,3,1,1", 45}, {"box:3,2,2,0", 72}, {"box:3,3,2,1", 90}, {"box:3,3,3,1", 135}, {"box:4,4,2,1", 160}};
    for (;;) {
        const B &b = small[g.below(sizeof small / sizeof *small)];
        if (b.cells > maxCells || b.cells < s.num("np", 1)) continue;
        s.set("mesh", b.spec);
        break;
    }
    (void)thorough;
    s.set("mseed", (i64)g.below(1000000));
    s.setd("jit", g.below(6) ? 0.08 + 0.2 * g.uni() : 0.0);
    if (s.dbl("jit") == 0 && g.below(3)) s.set("sn", 2);   // a regular mesh: faces parallel to angles
    s.setd("half", s.get("mesh").find("1,1,1") != std::string::npos ? 12 + 5 * g.uni() : 15 + 20 * g.uni());
    s.set("mats", g.range(1, 2));
    s.set("part", g.pick<const char *>({"rand", "rand", "slab", "col", "blob", "blob", "shell", "stripe"}));
    s.set("pseed", (i64)g.below(1000000));
}
static void genSched(Rng &g, Scenario &s) {
    s.set("proto", g.pick<int>({0, 1, 2, 2, 3, 3}));
    s.set("delay", g.pick<int>({0, 0, 5, 50, 500}));
    s.set("yield", g.pick<int>({0, 0, 30, 300, 3000}));
    s.set("late", g.range(0, 1));
    s.set("costj", g.pick<int>({0, 3, 30}));
    s.set("speed", g.pick<int>({0, 0, 2, 10}));
    s.set("stall", g.pick<int>({0, 0, 0, 2, 20}));
    s.set("miss", g.pick<int>({0, 0, 20, 60}));
    s.set("reduce", g.range(0, 1));
}
static void genPhys(Rng &g, Scenario &s) {
    for (int i = 1; i <= 2; i++) {
        double st = g.pick<double>({0.02, 0.05, 0.2, 1.0}), c = g.pick<double>({0.0, 0.2, 0.5, 0.7});
        if (g.below(12) == 0 && i == 2) st = 5;
        s.setd("st" + std::to_string(i), st); s.setd("ss" + std::to_string(i), st * c);
    }
    if (s.num("mats", 1) == 1 && s.dbl("ss1") == 0 && g.below(3)) s.setd("ss1", s.dbl("st1") * 0.4);
}
static void genCommon(Rng &g, Scenario &s, bool thorough, int maxWork, std::vector<int> nps = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8}, std::vector<int> ths = {1, 1, 2, 2, 3, 4, 5, 6}) {
    s.set("np", nps[g.below(nps.size())]);
    s.set("threads", ths[g.below(ths.size())]);
    s.set("sn", g.pick<int>({2, 2, 2, 4, 4, thorough ? 6 : 2}));
    s.set("ng", g.pick<int>({1, 1, 2, 3}));
    if (ths.size() > 4 && g.below(25) == 0) { s.set("sn", 2); s.set("threads", g.range(8, 10)); }   // as many threads as angles, or more
    // now and then something well beyond what the tests run
    int far = maxWork >= 1000 && g.below(thorough ? 5 : 8) == 0 ? g.pick<int>({1, 1, 1, 2, 3, 4}) : 0;
    int na = (int)(2 * s.num("sn") * s.num("sn"));
    int cells = maxWork / na / (int)s.num("ng");
    if (cells < 12) cells = 12;
    genMesh(g, s, thorough, cells);
    if (far == 1) {   // many angles
        if (s.num("np") > 6) s.set("np", 4);
        s.set("sn", g.pick<int>({8, 12, 12, 12, 14, 16})); s.set("ng", 1); genMesh(g, s, thorough, s.num("sn") > 10 ? 12 : 24);
    } else if (far == 2) {   // many groups
        if (s.num("np") > 6) s.set("np", 3);
        s.set("sn", 2); s.set("ng", g.pick<int>({5, 9, 17, 40, 70})); genMesh(g, s, thorough, 24);
    } else if (far == 3) {   // many cells
        s.set("sn", 2); s.set("ng", 1);
        genMesh(g, s, thorough, 1000);
        s.set("mesh", g.pick<const char *>({"box:4,4,4,1", "box:5,4,3,0", "box:9,3,2,1", "box:5,5,3,1", "box:6,5,2,0", "box:16,2,2,1"}));
        if (thorough && g.below(2)) s.set("mesh", g.pick<const char *>({"box:8,8,3,1", "box:7,6,5,0", "box:8,8,8,1"}));
    } else if (far == 4 && nps.size() > 3) {   // many processes
        s.set("np", g.range(9, 16)); s.set("sn", 2); s.set("ng", 1);
        if (s.num("threads") > 3) s.set("threads", 2);
        genMesh(g, s, thorough, 160);
    }
    genPhys(g, s);
    genSched(g, s);
    s.set("mcps", g.below(8) ? g.pick<int>({1, 2, 3, 5, 10, 100, 1000}) : g.pick<int>({4, 8, 20, 64, 255, 256, 257, 512, 65536, 1000000}));
    s.set("intra", g.range(0, 5));
    s.set("inter", g.range(0, 2));
    s.set("ge", GE[g.below(4)]);
    s.set("mpi", g.below(3) ? "TychoTwoSided" : "CapsaicinTwoSided");
    s.set("prior", g.pick<const char *>({"none", "none", "none", "longer", "shorter", "same", "stale", "empty"}));
    if (thorough && g.below(60) == 0) { s.set("mesh", "file:cube-12"); if (s.num("np") > 12) s.set("np", 8); }
}
// messages of hundreds of kilobytes
static void bigMessages(Rng &g, Scenario &s, bool thorough) {
    s.set("np", g.range(2, 3)); s.set("sn", 2); s.set("ng", g.pick<int>({40, 70, 130, 200, 300}));
    genMesh(g, s, thorough, s.num("ng") > 100 ? 12 : 24);
    s.set("threads", g.range(1, 2)); s.set("mcps", g.pick<int>({3, 10, 100, 1000}));
    s.set("iterMax", std::min<i64>(s.num("iterMax"), 2)); s.set("ddMax", std::min<i64>(s.num("ddMax", 2), 2)); s.setd("errMax", 1e-14);
    if (s.kv.count("ddErr")) s.setd("ddErr", 1e-14);
    s.kv.erase("stop");
}
static bool in(const std::string &c, std::initializer_list<const char *> l) { for (const char *x : l) if (c == x) return true; return false; }
static void genFull(Rng &g, Scenario &s) {
    s.set("sweep", FULL[g.below(3)]);
    s.set("si", g.below(5) ? 1 : 0);
    if (g.below(2)) { s.set("iterMax", g.range(1, 3)); s.setd("errMax", 1e-14); }
    else { s.set("iterMax", 40); s.setd("errMax", pow(10, -0.5 - 5 * g.uni())); }
}
static void genDD(Rng &g, Scenario &s, bool countsOnly) {
    s.set("sweep", DD[g.below(6)]);
    s.set("si", g.below(3) ? 1 : 0);
    bool exact = s.get("sweep") == "PBJSI" || (s.num("si") && s.get("sweep").substr(0, 3) == "PBJ");
    // a strongly absorbing, short problem converges in few sweeps
    for (int i = 1; i <= 2; i++) { double st = s.dbl("st" + std::to_string(i)); if (s.dbl("ss" + std::to_string(i)) > 0.55 * st) s.setd("ss" + std::to_string(i), 0.5 * st); }
    if (exact && (countsOnly || g.below(2))) {
        if (g.below(2)) { s.set("iterMax", g.range(1, 3)); s.set("ddMax", g.range(2, 5)); s.setd("errMax", 1e-14); s.setd("ddErr", 1e-14); }
        else { s.set("iterMax", 30); s.set("ddMax", 40); s.setd("errMax", pow(10, -0.5 - 4 * g.uni())); s.setd("ddErr", pow(10, -0.5 - 4 * g.uni())); }
    } else if (countsOnly) {
        s.set("iterMax", g.range(1, 3)); s.set("ddMax", g.range(1, 4)); s.setd("errMax", 1e-14); s.setd("ddErr", 1e-14);
    } else {
        s.set("stop", "conv");
        s.set("iterMax", 60); s.set("ddMax", 120); s.setd("errMax", 1e-10); s.setd("ddErr", 1e-10);
    }
}
void genScenario(const std::string &p, bool thorough, u64 index, Rng &g, Scenario &s) {
    s.set("kind", "main");
    int work = thorough ? 6000 : 3000;
    (void)index;
    if (p == "C21") {   // every kind of run there is
        static const char *Q[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C23", "C14", "C15", "C16", "C19", "C22"};
        genScenario(Q[g.below(sizeof Q / sizeof *Q)], thorough, index, g, s);
    } else if (p == "C01") { genCommon(g, s, thorough, work); genFull(g, s); if (g.below(24) == 0) bigMessages(g, s, thorough); }
    else if (p == "C02") {
        genCommon(g, s, thorough, work / 5); genDD(g, s, false);
        if (g.below(16) == 0) {   // boundary fluxes and messages of more numbers than two bytes can count
            s.set("np", 2); s.set("sn", 2); s.set("ng", g.range(280, 300)); genMesh(g, s, thorough, 36);
            s.set("mesh", g.pick<const char *>({"box:3,2,1,0", "box:3,2,1,1", "box:6,1,1,1"})); s.set("part", "rand");
            s.set("threads", 1); s.set("mcps", 1000); s.set("yield", 0); s.set("sweep", g.pick<const char *>({"Schur", "Schur", "SchurKrylov", "PBJSI", "PBJ", "SchurOuter"})); s.set("si", 1); s.set("stop", "conv");
            for (int i = 1; i <= 2; i++) { s.setd("st" + std::to_string(i), 20); s.setd("ss" + std::to_string(i), 0.05 * g.uni()); }
            s.setd("half", 3); s.set("iterMax", 60); s.set("ddMax", 120); s.setd("errMax", 1e-9); s.setd("ddErr", 1e-9);
        }
    }
    else if ((p == "C05" || p == "C06") && g.below(16) == 0) {   // the tool that runs on several processes
        genScenario("C23", thorough, index, g, s);
        s.kv.erase("fplan");
        s.set("tool", "ParallelMeshInfo");
        s.set("proto", g.pick<int>({1, 2, 2, 3}));
    } else if ((p == "C05" || p == "C06") && g.below(5) < 2) {   // traversals and boundary exchanges one after another, without the physics: many more schedules
        genScenario(p == "C06" && g.below(3) == 0 ? "C08" : "C03", thorough, index, g, s);
        if (s.num("np") == 1 && g.below(4)) s.set("np", g.range(2, 4));
        s.set("proto", p == "C05" ? g.pick<int>({2, 2, 2, 3, 1}) : g.pick<int>({1, 1, 2, 3}));
    } else if (p == "C16" && g.below(5) == 0) {
        genScenario("C12", thorough, index, g, s);
        s.set("fplan", "alloc:" + std::to_string(thorough ? 14 : 8) + ":" + std::to_string((i64)g.below(1u << 30)));
    } else if (p == "C05" || p == "C06" || p == "C07") {
        if (p == "C07") genCommon(g, s, thorough, work / 2, {1, 2, 3}, {2, 3, 4, 5, 6});
        else genCommon(g, s, thorough, work / 2);
        if (g.below(3)) genFull(g, s); else genDD(g, s, true);
        s.set("iterMax", std::min<i64>(s.num("iterMax"), 3));
        s.set("ddMax", std::min<i64>(s.num("ddMax", 3), 4));
        s.kv.erase("stop");
        if (p != "C07" && g.below(12) == 0) {
            if (g.below(2)) { genDD(g, s, true); s.set("iterMax", g.range(1, 2)); s.set("ddMax", 2); }
            bigMessages(g, s, thorough);
        }
        if (p == "C05") { s.set("proto", g.pick<int>({2, 2, 2, 3, 1})); s.set("yield", g.pick<int>({0, 0, 0, 100})); }
        if (p == "C06") { s.set("proto", g.pick<int>({1, 1, 2, 3})); s.set("yield", g.pick<int>({0, 0, 30, 300})); }
        if (p == "C07") { s.set("yield", g.pick<int>({10, 30, 100, 300, 1000})); }
    } else if (p == "C03" || p == "C04" || p == "C08" || p == "C14") {
        genCommon(g, s, thorough, work, {1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, 7, 8});
        s.set("sweep", "TraverseGraph"); s.set("si", 1); s.set("iterMax", 1); s.setd("errMax", 1e-14);
        s.set("kind", "drv");
        if (p == "C03") {
            s.set("drv", "traverse");
            static const char *L = "FFFBBfb";
            std::string plan;
            for (int i = 0, n = g.range(1, 4); i < n; i++) plan += L[g.below(7)];
            s.set("plan", plan);
            s.set("dsize", g.pick<int>({1, 3, 8, 24, 72, 200}));
            s.set("prio", g.range(0, 5));
            if (g.below(8) == 0) {   // messages of many kilobytes
                genMesh(g, s, thorough, 60);
                s.set("sn", g.pick<int>({2, 2, 4})); s.set("ng", 1);
                s.set("dsize", g.pick<int>({1000, 4096, 9000, 20000}));
                s.set("mcps", g.pick<int>({3, 10, 100, 1000}));
                s.set("plan", plan.substr(0, 2));
                if (s.num("np") > 6) s.set("np", 2);
                if (s.num("np") < 2) s.set("np", 2);
            }
        } else if (p == "C04") {
            s.set("drv", "schedule");
            s.set("threads", 1);
            s.set("groups", g.range(1, 4));
            s.set("split", g.below(2) ? "even" : "mixed");
            s.set("gseed", (i64)g.below(1000000));
        } else if (p == "C08") {
            s.set("drv", "sides");
            s.set("threads", 1);
            s.set("reps", g.range(1, 4)); s.set("fresh", g.range(0, 1));
        } else {
            s.set("drv", "adjacency");
            s.set("threads", 1);
        }
        if ((p == "C14" || p == "C08") && g.below(8) == 0) {   // partitions of many hundred cells
            s.set("np", g.range(1, 4)); s.set("sn", 2); s.set("ng", g.range(1, 2));
            genMesh(g, s, thorough, 1000);
            s.set("mesh", g.pick<const char *>({"box:8,8,3,1", "box:7,6,5,0", "box:9,8,4,1", "box:10,6,4,0"}));
            s.setd("half", 15 + 20 * g.uni());
        }
        if (p == "C04" || p == "C14") s.set("proto", g.pick<int>({0, 1, 2, 2, 3, 3}));
    } else if (p == "C12") {
        s.set("kind", "tool");
        s.set("np", 1); s.set("sn", 2); s.set("ng", 1);
        static const char *T[] = {"PartitionColumns", "PartitionColumns", "PartitionMetis", "PartitionMetis", "RefineSerialMesh", "RefineSerialMesh", "SerialMeshInfo", "ParallelMeshInfo"};
        std::string t = T[g.below(8)];
        s.set("tool", t);
        genMesh(g, s, thorough, thorough ? 200 : 80);
        int px = g.range(1, 4), py = g.range(1, 8 / px);
        if (px * py > 5 && s.get("mesh").find("1,1,1") != std::string::npos) px = py = 2;
        s.set("px", px); s.set("py", py);
        s.set("verbose", g.range(0, 1));
        s.set("prior", g.pick<const char *>({"none", "longer", "shorter", "same", "empty"}));
        i64 fs = (i64)g.below(1u << 30);
        int n = thorough ? 14 : 8;
        const char *k = g.pick<const char *>({"tool", "tool", "tool", "kill", "damage"});
        s.set("fplan", std::string(k) + ":" + std::to_string(n) + ":" + std::to_string(fs));
    } else if (p == "C23") {
        s.set("kind", "tool");
        s.set("np", 1); s.set("sn", 2); s.set("ng", 1);
        s.set("tool", g.pick<const char *>({"SerialMeshInfo", "ParallelMeshInfo", "ParallelMeshInfo", "ParallelMeshInfo"}));
        genMesh(g, s, thorough, thorough ? 300 : 100);
        int px = g.range(1, 4), py = g.range(1, 8 / px);
        if (px * py > 5 && s.get("mesh").find("1,1,1") != std::string::npos) px = py = 2;
        s.set("px", px); s.set("py", py);
        s.set("verbose", g.below(3) > 0);
        s.set("proto", g.pick<int>({0, 1, 2, 3}));
        i64 fs = (i64)g.below(1u << 30);
        if (g.below(2)) s.set("fplan", "tool:" + std::to_string(thorough ? 10 : 5) + ":" + std::to_string(fs));
    } else if (p == "C24") {   // many iterations of a small problem
        genCommon(g, s, thorough, work / 4, {1, 2, 2, 3, 3, 4, 5}, {1, 1, 2, 3});
        s.set("sn", 2); if (s.num("ng") > 3) s.set("ng", 3);
        if (s.num("np") > 5) s.set("np", 4);
        genMesh(g, s, thorough, thorough ? 60 : 36);
        for (int i = 1; i <= 2; i++) { double st = g.pick<double>({0.3, 1.0}); s.setd("st" + std::to_string(i), st); s.setd("ss" + std::to_string(i), st * (0.5 + 0.4 * g.uni())); }
        if (g.below(2)) { genFull(g, s); s.set("iterMax", g.range(14, thorough ? 40 : 24)); s.setd("errMax", 1e-14); }
        else {
            s.set("sweep", DD[g.below(6)]); s.set("si", g.below(3) ? 1 : 0);
            bool outer = s.get("sweep") == "PBJOuter" || s.get("sweep") == "SchurOuter";
            s.set("iterMax", outer ? g.range(1, 3) : g.range(12, 18)); s.set("ddMax", outer ? g.range(12, 18) : g.range(2, 4));
            if (s.get("sweep") == "PBJSI" || s.get("sweep") == "SchurKrylov") s.set("ddMax", g.range(16, 30));
            s.setd("errMax", 1e-14); s.setd("ddErr", 1e-14);
        }
    } else if (p == "C13" || p == "C15") {
        if (p == "C15") genCommon(g, s, thorough, work / 2, {2, 3, 4, 5, 6, 8});
        else genCommon(g, s, thorough, work / 4);
        if (g.below(2)) genFull(g, s); else genDD(g, s, p == "C15" || g.below(2));
        if (p == "C15" && g.below(6) == 0) {   // many iterations
            s.set("sn", 2); s.set("ng", 1); if (s.num("np") > 4) s.set("np", 3);
            genMesh(g, s, thorough, 24);
            for (int i = 1; i <= 2; i++) { s.setd("st" + std::to_string(i), 1); s.setd("ss" + std::to_string(i), 0.8 + 0.18 * g.uni()); }
            genFull(g, s); s.set("si", 1);
            s.set("iterMax", g.pick<int>({30, 60, 90}));
            s.set("threads", g.range(1, 2)); s.set("mcps", g.pick<int>({10, 20, 1000})); s.setd("errMax", pow(10, -3 - 7 * g.uni()));
            if (g.below(3) == 0) {   // more than a byte can count
                for (int i = 1; i <= 2; i++) s.setd("ss" + std::to_string(i), 0.94 + 0.04 * g.uni());
                s.setd("half", 20); s.setd("errMax", 1e-12); s.set("iterMax", g.range(258, 290)); s.set("yield", 0);
                if (g.below(2)) { s.set("sweep", "PBJSI"); s.set("ddMax", s.num("iterMax")); s.set("iterMax", 1); s.setd("ddErr", 1e-12); }
            }
        }
        if (p == "C13") s.set("clock", g.range(1, 6));
        else s.set("reduce", 1);
    } else if (p == "C09" || p == "C10" || p == "C11" || p == "C16" || p == "C19" || p == "C22") {
        genCommon(g, s, thorough, work / 6);
        if (p == "C09" && g.below(8) == 0) {   // much data per cell
            if (s.num("np") > 4) s.set("np", 3);
            if (g.below(2)) { s.set("sn", g.pick<int>({8, 10, 14})); s.set("ng", g.pick<int>({1, 3, 5})); }
            else { s.set("sn", 2); s.set("ng", g.pick<int>({9, 17, 65, 130})); }
            genMesh(g, s, thorough, 12);
        }
        s.set("threads", g.pick<int>({1, 1, 1, 2}));
        if (g.below(4)) { s.set("sweep", "TraverseGraph"); s.set("si", 1); s.set("iterMax", g.range(1, 2)); s.setd("errMax", 1e-14); }
        else { if (g.below(2)) genFull(g, s); else genDD(g, s, true); s.set("iterMax", std::min<i64>(s.num("iterMax"), 2)); s.set("ddMax", std::min<i64>(s.num("ddMax", 3), 4)); }
        if (p != "C16") s.set("yield", 0);
        i64 fs = (i64)g.below(1u << 30);
        int n = thorough ? 12 : 6;
        if (p == "C09" && g.below(4) == 0) {
            s.set("kind", "drv"); s.set("drv", "psiwrite");
            s.set("writes", g.range(1, 4)); s.set("prior2", g.range(0, 1));
            s.set("prior", g.pick<const char *>({"none", "longer", "shorter", "same", "empty"}));
        } else if (p == "C09") {
            if (g.below(3)) {
                s.set("kind", "rerun");
                s.set("fplan", "kill:" + std::to_string(n) + ":" + std::to_string(fs));
            } else if (g.below(3) == 0) {
                s.set("outfile", 0);
                s.set("prior", g.pick<const char *>({"none", "longer", "shorter", "same", "empty"}));
            }
            if (g.below(4) == 0) s.set("outname", g.pick<const char *>({"a", "flux-1.dat", "x_Y.0.psi", "Out", "0"}));
        }
        if (p == "C19") {
            s.set("deckpad", (i64)(1 + g.below(1u << 30))); s.set("deckstyle", 1);
            if (g.below(2)) { s.set("expect", "refuse"); s.set("prior", "none"); s.set("fplan", "deckbad:" + std::to_string(2 * n) + ":" + std::to_string(fs)); }
            else {
                genFull(g, s);
                if (g.below(3) == 0) genDD(g, s, true);
                if (g.below(3) == 0) s.set("ng", g.range(8, 12));
                bool dd = !in(s.get("sweep"), {"OriginalTycho1", "OriginalTycho2", "TraverseGraph"});
                if (g.below(3) == 0 && (!dd || s.get("sweep") == "PBJSI")) { s.set(dd ? "ddMax" : "iterMax", g.range(8, 13)); s.setd("errMax", 1e-14); if (dd) s.setd("ddErr", 1e-14); }
                if (g.below(3) == 0) s.set("outfile", 0);
                if (g.below(2)) s.set("outname", g.pick<std::string>({"a", "flux-1.dat", "x_Y.0.psi", "Out", "0", std::string(180, 'n') + ".psi", "-", "..psi", "+1"}));
            }
        }
        if (p == "C10") { s.set("expect", "outfault"); s.set("fplan", "out:" + std::to_string(n) + ":" + std::to_string(fs)); }
        if (p == "C11") {
            if (g.below(2)) { s.set("expect", "refuse"); s.set("fplan", "damage:" + std::to_string(n) + ":" + std::to_string(fs)); }
            else { s.set("expect", "readfault"); s.set("fplan", "read:" + std::to_string(n) + ":" + std::to_string(fs)); }
        }
        if (p == "C22") { s.set("expect", "deckfault"); s.set("deckpad", (i64)(1 + g.below(1u << 30))); s.set("fplan", "deck:" + std::to_string(n) + ":" + std::to_string(fs)); }
        if (p == "C16") { s.set("expect", "alloc"); s.set("fplan", "alloc:" + std::to_string(n) + ":" + std::to_string(fs)); }
    }
}
bool classOf(const std::string &p, const std::string &c) {
    bool end = in(c, {"end.deadlock", "end.hang", "end.abort"}), flux = in(c, {"flux.mem", "flux.mem2", "flux.file"});
    if (p == "C01" || p == "C02") return end || flux || c == "memory.free" || c == "file.content";
    if (p == "C05") return end || c == "tool.hang";
    if (p == "C06") return c.substr(0, 4) == "mpi." || c == "file.unclosed" || c == "petsc.usage";
    if (p == "C07") return c == "race";
    if (p == "C09") return in(c, {"file.content", "file.extra", "flux.file", "file.unclosed"}) || c.substr(0, 4) == "psi.";
    if (p == "C10") return in(c, {"fault.wrongok", "fault.hang", "mpi.collective"});
    if (p == "C11") return in(c, {"fault.wrongok", "fault.hang", "damage.accepted", "mpi.collective"});
    if (p == "C19") return end || flux || c.substr(0, 5) == "iter." || c == "file.content" || c == "file.extra" || c == "damage.accepted" || c == "fault.hang" || c == "mpi.collective";
    if (p == "C22") return in(c, {"fault.wrongok", "fault.hang", "mpi.collective"});
    if (p == "C16") return in(c, {"fault.wrongok", "fault.hang", "mpi.collective", "tool.wrongok", "tool.hang"});
    if (p == "C13") return end || flux || c.substr(0, 5) == "iter." || c == "file.content";
    if (p == "C15") return c.substr(0, 5) == "iter." || c == "mpi.collective";
    if (p == "C03") return c.substr(0, 4) == "trv." || end;
    if (p == "C04") return c.substr(0, 4) == "sch." || end;
    if (p == "C08") return c.substr(0, 4) == "bnd." || end;
    if (p == "C14") return c.substr(0, 4) == "adj." || end;
    if (p == "C12") return c.substr(0, 5) == "tool.";
    if (p == "C24") return c.substr(0, 7) == "growth." || end;
    if (p == "C23") return c.substr(0, 5) == "info." || in(c, {"tool.failed", "tool.hang"});
    if (p == "C21") return c.substr(0, 7) == "memory.";
    return false;
}
