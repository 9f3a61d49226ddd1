// Writes a known pattern through PsiData::writeToFile, possibly several times.
#include "drvutil.hh"
// argv 5..: one file name per write
int drv_psiwrite(int argc, char **argv) {
    start(argc, argv);
    {
        PsiData psi;
        for (int w = 5; w < argc; w++) {
            for (UINT c = 0; c < g_nCells; c++) for (UINT a = 0; a < g_nAngles; a++) for (UINT v = 0; v < g_nVrtxPerCell; v++) for (UINT g = 0; g < g_nGroups; g++)
                psi(g, v, a, c) = keyVal(key(g_tychoMesh->getLGCell(c), v, a, g, (ull)w));
            psi.writeToFile(argv[w]);
            report(50, {(ull)w});
            psi.setToValue(0.25);
        }
    }
    delete g_tychoMesh;
    delete g_quadrature;
    MPI_Finalize();
    return 0;
}
