// A client of GraphTraverser that records every call it gets.
#include "drvutil.hh"
#include "GraphTraverser.hh"
namespace {
struct Recorder : public TraverseData {
    ull trav; UINT size; int prio;
    std::vector<std::vector<char>> buf;
    std::vector<double> work;      // written by the owner of a pair only
    Recorder(UINT sz) : trav(0), size(sz), prio(0), buf(64), work(g_nCells * g_nAngles, 0.0) {
        for (auto &b : buf) b.resize(sz + 1);
    }
    virtual const char *getData(UINT cell, UINT face, UINT angle) {
        std::vector<char> &b = buf[(size_t)omp_get_thread_num()];
        ull k = key(g_tychoMesh->getLGCell(cell), face, angle, trav, 7);
        for (UINT i = 0; i < size; i++) b[i] = (char)(mix(k + i) >> 20);
        return b.data();
    }
    virtual void setSideData(UINT side, UINT angle, const char *data) {
        ull h = 1469598103934665603ull;
        for (UINT i = 0; i < size; i++) h = (h ^ (unsigned char)data[i]) * 1099511628211ull;
        bool ok = side < g_tychoMesh->getNSides();
        UINT f = ok ? faceOfSide(side) : 99;
        report(12, {trav, ok ? g_tychoMesh->getLGCell(g_tychoMesh->getSideCell(side)) : ~0ull, f, angle, h});
    }
    virtual UINT getPriority(UINT cell, UINT angle) {
        switch (prio) {
        case 0: return 1;
        case 1: return cell;
        case 2: return g_nCells - cell;
        case 3: return angle;
        case 4: return mix(cell * 131 + angle) % 1000;
        default: return (mix(cell + 17 * angle) & 1) ? ~(UINT)0 : 0;
        }
    }
    virtual void update(UINT cell, UINT angle, UINT adj[g_nFacePerCell], BoundaryType bdry[g_nFacePerCell]) {
        std::vector<ull> v = {trav, cell < g_nCells ? g_tychoMesh->getLGCell(cell) : ~0ull, angle};
        for (UINT f = 0; f < g_nFacePerCell; f++) {
            ull t = 9, a = adj[f];
            switch (bdry[f]) {
            case BoundaryType_OutInt: t = 0; a = adj[f] < g_nCells ? g_tychoMesh->getLGCell(adj[f]) : ~0ull - 1; break;
            case BoundaryType_InInt: t = 1; a = adj[f] < g_nCells ? g_tychoMesh->getLGCell(adj[f]) : ~0ull - 1; break;
            case BoundaryType_OutIntBdry: t = 2; a = adj[f] < g_tychoMesh->getNSides() ? g_tychoMesh->getLGSide(adj[f]) : ~0ull - 1; break;
            case BoundaryType_InIntBdry: t = 3; a = adj[f] < g_tychoMesh->getNSides() ? g_tychoMesh->getLGSide(adj[f]) : ~0ull - 1; break;
            case BoundaryType_OutExtBdry: t = 4; break;
            case BoundaryType_InExtBdry: t = 5; break;
            }
            v.push_back(t); v.push_back(a);
        }
        report(10, v);
        if (cell < g_nCells && angle < g_nAngles)
            for (int i = 0; i < 3; i++) work[cell * g_nAngles + angle] += 1;
        report(11, {trav, v[1], angle});
    }
};
}
// argv 5: work limit per step, 6: data size, 7: priority, 8: letters f F b B (upper case: with communication)
int drv_traverse(int argc, char **argv) {
    start(argc, argv);
    UINT limit = strtoull(argv[5], NULL, 10), size = strtoull(argv[6], NULL, 10);
    Recorder rec(size);
    rec.prio = atoi(argv[7]);
    GraphTraverser *have[256] = {};
    for (const char *p = argv[8]; *p; p++) {
        unsigned char c = (unsigned char)*p;
        if (!have[c])
            have[c] = new GraphTraverser(c == 'f' || c == 'F' ? Direction_Forward : Direction_Backward, c == 'F' || c == 'B', size);
        report(13, {rec.trav});
        have[c]->traverse(limit, rec);
        report(14, {rec.trav});
        rec.trav++;
    }
    for (GraphTraverser *g : have) delete g;
    delete g_tychoMesh;
    delete g_quadrature;
    MPI_Finalize();
    return 0;
}
