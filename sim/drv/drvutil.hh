// Shared start of the drivers: bring the program up to the point where the
// mesh is loaded, the way Main.cc does.
#pragma once
#include "Global.hh"
#include "TychoMesh.hh"
#include "Quadrature.hh"
#include "PsiData.hh"
#include "Comm.hh"
#include <mpi.h>
#include <omp.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

extern "C" void simReport(int tag, int n, const unsigned long long *v);
typedef unsigned long long ull;

static inline ull mix(ull x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    return x;
}
static inline ull key(ull a, ull b, ull c, ull d, ull e) { return mix(mix(mix(mix(mix(a + 1) + b) + c) + d) + e); }
static inline double keyVal(ull k) { return (double)(k >> 12) / 4096.0 - 1e9; }
static inline ull bits(double d) { ull v; memcpy(&v, &d, 8); return v; }
static inline void report(int tag, const std::vector<ull> &v) { simReport(tag, (int)v.size(), v.data()); }
static inline UINT faceOfSide(UINT side) {
    UINT cell = g_tychoMesh->getSideCell(side);
    for (UINT f = 0; f < g_nFacePerCell; f++)
        if (g_tychoMesh->getAdjCell(cell, f) == TychoMesh::BOUNDARY_FACE && g_tychoMesh->getSide(cell, f) == side) return f;
    return 99;
}
// argv: 1 mesh, 2 snOrder, 3 nGroups, 4 mpi type, 5.. driver's own
static inline void start(int &argc, char **argv) {
    int provided = 0;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &provided);
    g_snOrder = (UINT)atoi(argv[2]);
    g_nGroups = (UINT)atoi(argv[3]);
    g_mpiType = atoi(argv[4]) ? MPIType_CapsaicinTwoSided : MPIType_TychoTwoSided;
    g_sweepType = SweepType_TraverseGraph;
    g_gaussElim = GaussElim_Original;
    g_maxCellsPerStep = 10; g_intraAngleP = 0; g_interAngleP = 0;
    g_iterMax = 1; g_errMax = 1e-10; g_ddIterMax = 1; g_ddErrMax = 1e-10;
    g_useSourceIteration = true; g_outputFile = false;
    g_nAngleGroups = 1;
    #pragma omp parallel
    {
        if (omp_get_thread_num() == 0)
            g_nAngleGroups = (UINT)omp_get_num_threads();
    }
    g_nThreads = g_nAngleGroups;
    g_quadrature = new Quadrature(g_snOrder);
    Comm::barrier();
    g_tychoMesh = new TychoMesh(argv[1]);
    Comm::barrier();
}
