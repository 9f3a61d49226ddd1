// Reports what the loaded mesh says about every cell and face.
#include "drvutil.hh"
int drv_adjacency(int argc, char **argv) {
    start(argc, argv);
    const TychoMesh &m = *g_tychoMesh;
    for (UINT c = 0; c < g_nCells; c++) {
        std::vector<ull> v = {c, m.getLGCell(c), m.getCellMaterial(c), bits(m.getCellVolume(c))};
        for (UINT i = 0; i < 4; i++) for (UINT d = 0; d < 3; d++) v.push_back(bits(m.getNodeCoord(m.getCellNode(c, i), d)));
        report(40, v);
        for (UINT f = 0; f < 4; f++) {
            bool bd = m.getAdjCell(c, f) == TychoMesh::BOUNDARY_FACE;
            bool part = bd && m.getAdjRank(c, f) != TychoMesh::BAD_RANK;
            UINT s = m.getSide(c, f);
            bool ok = bd && s < m.getNSides();
            std::vector<ull> w = {c, f, bd, m.getAdjCell(c, f), m.getAdjFace(c, f), m.getAdjRank(c, f), s,
                                  ok ? m.getLGSide(s) : ~0ull, ok ? m.getGLSide(m.getLGSide(s)) : ~0ull, ok ? m.getSideCell(s) : ~0ull,
                                  ok && part ? m.getAdjCellFromSide(s) : ~0ull, ok && part ? m.getAdjFaceFromSide(s) : ~0ull, bits(m.getFaceArea(c, f))};
            for (UINT k = 0; k < 3; k++) w.push_back(m.getFaceToCellVrtx(c, f, k));
            for (UINT k = 0; k < 3; k++) w.push_back(bd ? ~0ull : m.getNeighborVrtx(c, f, k));
            for (UINT k = 0; k < 4; k++) w.push_back(k == f ? ~0ull : m.getCellToFaceVrtx(c, f, k));
            for (UINT a = 0; a < g_nAngles; a++) w.push_back((m.isOutgoing(a, c, f) ? 1 : 0) + (m.isIncoming(a, c, f) ? 2 : 0));
            report(41, w);
        }
    }
    report(42, {g_nCells, m.getNSides(), m.getNNodes(), g_nAngles});
    delete g_tychoMesh;
    delete g_quadrature;
    MPI_Finalize();
    return 0;
}
