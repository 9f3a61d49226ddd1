// Exchanges boundary values that encode where they come from.
#include "drvutil.hh"
#include "CommSides.hh"
// argv 5: number of exchanges, 6: 1 = a new CommSides for each
int drv_sides(int argc, char **argv) {
    start(argc, argv);
    int reps = atoi(argv[5]), fresh = atoi(argv[6]);
    {
        CommSides *cs = new CommSides();
        PsiData psi;
        PsiBoundData bound;
        UINT nSides = g_tychoMesh->getNSides();
        for (int r = 0; r < reps; r++) {
            for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < g_nVrtxPerCell; v++) for (UINT g = 0; g < g_nGroups; g++)
                psi(g, v, a, c) = keyVal(key(g_tychoMesh->getLGCell(c), v, a, g, (ull)r));
            for (UINT s = 0; s < nSides; s++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < g_nVrtxPerFace; v++) for (UINT g = 0; g < g_nGroups; g++)
                bound(g, v, a, s) = -1.5 - r;
            if (fresh && r) { delete cs; cs = new CommSides(); }
            cs->commSides(psi, bound);
            // the sender may do as it likes with its data once the exchange is over
            if (r % 2) psi.setToValue(-7.0);
            for (UINT s = 0; s < nSides; s++) {
                UINT c = g_tychoMesh->getSideCell(s), f = faceOfSide(s);
                std::vector<ull> v = {(ull)r, g_tychoMesh->getLGCell(c), f};
                for (UINT k = 0; k < g_nVrtxPerFace; k++) v.push_back(f < 4 ? g_tychoMesh->getFaceToCellVrtx(c, f, k) : 99);
                for (UINT a = 0; a < g_nAngles; a++) for (UINT k = 0; k < g_nVrtxPerFace; k++) for (UINT g = 0; g < g_nGroups; g++)
                    v.push_back(bits(bound(g, k, a, s)));
                report(30, v);
            }
            for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < g_nVrtxPerCell; v++) for (UINT g = 0; g < g_nGroups; g++)
                if (psi(g, v, a, c) != (r % 2 ? -7.0 : keyVal(key(g_tychoMesh->getLGCell(c), v, a, g, (ull)r)))) { report(31, {(ull)r, g_tychoMesh->getLGCell(c), a}); v = 9; a = g_nAngles; break; }
        }
        delete cs;
    }
    delete g_tychoMesh;
    delete g_quadrature;
    MPI_Finalize();
    return 0;
}
