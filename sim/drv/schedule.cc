// Builds sweep schedules and reports every step of them.
#include "drvutil.hh"
#include "SweepSchedule.hh"
// argv 5: cells per step, 6: intra, 7: inter, 8..: one angle list per group (comma separated)
int drv_schedule(int argc, char **argv) {
    start(argc, argv);
    g_maxCellsPerStep = strtoull(argv[5], NULL, 10);
    g_intraAngleP = (UINT)atoi(argv[6]);
    g_interAngleP = (UINT)atoi(argv[7]);
    for (int g = 8; g < argc; g++) {
        std::vector<UINT> angles;
        for (char *p = argv[g]; *p;) { angles.push_back(strtoull(p, &p, 10)); if (*p == ',') p++; }
        SweepSchedule s(angles, g_maxCellsPerStep, g_intraAngleP, g_interAngleP);
        report(20, {(ull)g - 8, s.nSteps()});
        for (UINT i = 0; i < s.nSteps(); i++) {
            std::vector<ull> v = {(ull)g - 8, i};
            for (const SweepSchedule::Work &w : s.getWork(i)) {
                v.push_back(w.getCell() < g_nCells ? g_tychoMesh->getLGCell(w.getCell()) : ~0ull);
                v.push_back(w.getAngle());
            }
            report(21, v);
            v.resize(2);
            for (UINT p : s.getSendProcs(i)) v.push_back(p);
            report(22, v);
            v.resize(2);
            for (UINT p : s.getRecvProcs(i)) v.push_back(p);
            report(23, v);
        }
    }
    delete g_tychoMesh;
    delete g_quadrature;
    MPI_Finalize();
    return 0;
}
