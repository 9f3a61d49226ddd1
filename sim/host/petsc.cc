// Stand-in for PETSc: vectors, a shell matrix and restarted GMRES without a
// preconditioner, with the defaults PETSc documents (restart 30, relative
// tolerance against the norm of the right-hand side, zero initial guess).
#include "sim.hh"
#include "../inc/petscsys.h"
#include <cmath>

struct sim_vec { int n; long N; double *a; Rank *r; };
struct sim_mat { int n; void (*mult)(void); void *ctx; };
struct sim_ksp { Mat A; double rtol, atol; int maxit, restart, its; double rnorm; bool nonzero; int reason; };
struct sim_pc { int x; };
static sim_pc thePc;
void petscReset() {}

static double dot(const double *a, const double *b, int n) {
    double s = 0;
    for (int i = 0; i < n; i++) s += a[i] * b[i];
    mpiAllreduceHost(&s, 1);
    return s;
}
// Memory for a vector; it may be made to fail like the allocations of the program.
static Vec newVec(int n, long N, bool count = true) {
    bool bad;
    double *a = (double *)arenaAlloc(sizeof(double) * (size_t)(n ? n : 1), count, &bad);
    if (bad) return nullptr;
    Vec v = new sim_vec();
    v->n = n; v->N = N; v->r = cur->rank; v->a = a;
    memset(v->a, 0, sizeof(double) * (size_t)n);
    return v;
}
// PETSc as it is built for use does not check for vectors which were not made.
static void need(Vec v) {
    if (!v || !v->a) jobEnd(J_FAILED, cur->rank->id, 139, "segmentation violation in PETSc (no vector)");
}
static void mult(Mat A, Vec x, Vec y) {
    typedef PetscErrorCode (*F)(Mat, Vec, Vec);
    F f = (F)A->mult;
    callCost("MatMult");
    ProgGuard g;
    f(A, x, y);
}
extern "C" {
PetscErrorCode PetscInitialize(int *, char ***, const char[], const char[]) { HostGuard g; callCost("PetscInitialize"); return 0; }
PetscErrorCode PetscFinalize(void) { HostGuard g; callCost("PetscFinalize"); return 0; }
PetscErrorCode PetscPopSignalHandler(void) { return 0; }
PetscErrorCode VecCreate(MPI_Comm, Vec *v) { HostGuard g; cur->rank->solverObjs++; *v = new sim_vec(); (*v)->a = nullptr; (*v)->n = 0; (*v)->r = cur->rank; return 0; }
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N) {
    HostGuard g;
    double s = n;
    if (N > 0) {
        mpiAllreduceHost(&s, 1);
        if ((long)s != N) { violate("petsc.usage", "local vector sizes sum to %ld, global size %d", (long)s, N); jobEnd(J_FAILED, cur->rank->id, 1, "PETSc error"); }
    }
    v->n = n; v->N = N;
    return 0;
}
PetscErrorCode VecSetType(Vec v, VecType) { HostGuard g; Vec w = newVec(v->n, v->N); if (!w) return PETSC_ERR_MEM; v->a = w->a; delete w; return 0; }
PetscErrorCode VecSetFromOptions(Vec v) { return v->a ? 0 : VecSetType(v, VECMPI); }
PetscErrorCode VecDuplicate(Vec v, Vec *o) { HostGuard g; *o = nullptr; need(v); *o = newVec(v->n, v->N); if (!*o) return PETSC_ERR_MEM; cur->rank->solverObjs++; return 0; }
PetscErrorCode VecSet(Vec v, PetscScalar x) { HostGuard g; need(v); for (int i = 0; i < v->n; i++) v->a[i] = x; return 0; }
PetscErrorCode VecCopy(Vec a, Vec b) { HostGuard g; need(a); need(b); memcpy(b->a, a->a, sizeof(double) * (size_t)a->n); return 0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt *n) { *n = v->n; return 0; }
PetscErrorCode VecGetSize(Vec v, PetscInt *n) { *n = (PetscInt)v->N; return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar **a) { need(v); *a = v->a; return 0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **) { return 0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar **a) { need(v); *a = v->a; return 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **) { return 0; }
PetscErrorCode VecDestroy(Vec *v) { HostGuard g; if (*v) { cur->rank->solverObjs--; if ((*v)->a) arenaFree((*v)->a); delete *v; } *v = nullptr; return 0; }
PetscErrorCode VecNorm(Vec v, int, PetscReal *r) { HostGuard g; need(v); *r = sqrt(dot(v->a, v->a, v->n)); return 0; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt m, PetscInt, PetscInt, PetscInt, void *ctx, Mat *A) { HostGuard g; cur->rank->solverObjs++; *A = new sim_mat(); (*A)->n = m; (*A)->ctx = ctx; (*A)->mult = nullptr; return 0; }
PetscErrorCode MatShellSetOperation(Mat A, MatOperation op, void (*f)(void)) { if (op == MATOP_MULT) A->mult = f; return 0; }
PetscErrorCode MatShellSetContext(Mat A, void *c) { A->ctx = c; return 0; }
PetscErrorCode MatShellGetContext(Mat A, void *c) { *(void **)c = A->ctx; return 0; }
PetscErrorCode MatDestroy(Mat *A) { HostGuard g; if (*A) cur->rank->solverObjs--; delete *A; *A = nullptr; return 0; }
PetscErrorCode KSPCreate(MPI_Comm, KSP *k) { HostGuard g; cur->rank->solverObjs++; *k = new sim_ksp(); (*k)->rtol = 1e-5; (*k)->atol = 1e-50; (*k)->maxit = 10000; (*k)->restart = 30; return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat) { k->A = A; return 0; }
PetscErrorCode KSPSetTolerances(KSP k, PetscReal rtol, PetscReal atol, PetscReal, PetscInt it) {
    if (rtol != PETSC_DEFAULT) k->rtol = rtol;
    if (atol != PETSC_DEFAULT) k->atol = atol;
    if (it != PETSC_DEFAULT) k->maxit = it;
    return 0;
}
PetscErrorCode KSPSetType(KSP, KSPType) { return 0; }
PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
PetscErrorCode KSPGMRESSetRestart(KSP k, PetscInt n) { k->restart = n; return 0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b) { k->nonzero = b == PETSC_TRUE; return 0; }
PetscErrorCode KSPSetUp(KSP) { return 0; }
PetscErrorCode KSPGetPC(KSP, PC *p) { *p = &thePc; return 0; }
PetscErrorCode PCSetType(PC, PCType) { return 0; }
PetscErrorCode KSPGetIterationNumber(KSP k, PetscInt *i) { *i = k->its; return 0; }
PetscErrorCode KSPGetResidualNorm(KSP k, PetscReal *r) { *r = k->rnorm; return 0; }
PetscErrorCode KSPGetConvergedReason(KSP k, KSPConvergedReason *r) { *r = k->reason; return 0; }
PetscErrorCode KSPDestroy(KSP *k) { HostGuard g; if (*k) cur->rank->solverObjs--; delete *k; *k = nullptr; return 0; }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    HostGuard g;
    need(b); need(x);
    int n = b->n, m = k->restart;
    if (!k->nonzero) memset(x->a, 0, sizeof(double) * (size_t)n);
    double bnorm = sqrt(dot(b->a, b->a, n));
    double ttol = k->rtol * bnorm > k->atol ? k->rtol * bnorm : k->atol;
    std::vector<Vec> V;
    Vec w = newVec(n, b->N);
    bool full = !w;
    for (int i = 0; i <= m && !full; i++) {
        Vec v = newVec(n, b->N, i < 2);
        if (v) V.push_back(v); else full = true;
    }
    if (full) {
        for (Vec &v : V) { arenaFree(v->a); delete v; }
        if (w) { arenaFree(w->a); delete w; }
        k->its = 0; k->rnorm = 0; k->reason = 0;
        return PETSC_ERR_MEM;
    }
    std::vector<double> H((size_t)(m + 1) * m), cs(m), sn(m), e(m + 1);
    k->its = 0; k->reason = 0;
    bool first = true;
    for (;;) {
        if (first && !k->nonzero) memcpy(w->a, b->a, sizeof(double) * (size_t)n);
        else {
            mult(k->A, x, w);
            for (int i = 0; i < n; i++) w->a[i] = b->a[i] - w->a[i];
        }
        first = false;
        double beta = sqrt(dot(w->a, w->a, n));
        k->rnorm = beta;
        if (!(beta > ttol)) { k->reason = 2; break; }
        if (k->its >= k->maxit) { k->reason = -3; break; }
        for (int i = 0; i < n; i++) V[0]->a[i] = w->a[i] / beta;
        std::fill(e.begin(), e.end(), 0.0);
        e[0] = beta;
        int j = 0;
        bool stop = false;
        while (j < m && !stop) {
            mult(k->A, V[j], w);
            std::vector<double> h(j + 1);
            for (int i = 0; i <= j; i++) { double s = 0; for (int q = 0; q < n; q++) s += w->a[q] * V[i]->a[q]; h[i] = s; }
            mpiAllreduceHost(h.data(), j + 1);
            for (int i = 0; i <= j; i++) for (int q = 0; q < n; q++) w->a[q] -= h[i] * V[i]->a[q];
            double hn = sqrt(dot(w->a, w->a, n));
            for (int i = 0; i <= j; i++) H[(size_t)i * m + j] = h[i];
            H[(size_t)(j + 1) * m + j] = hn;
            bool happy = !(hn > 1e-30 * bnorm);
            if (!happy) for (int q = 0; q < n; q++) V[j + 1]->a[q] = w->a[q] / hn;
            for (int i = 0; i < j; i++) {
                double a = H[(size_t)i * m + j], c = H[(size_t)(i + 1) * m + j];
                H[(size_t)i * m + j] = cs[i] * a + sn[i] * c;
                H[(size_t)(i + 1) * m + j] = -sn[i] * a + cs[i] * c;
            }
            double a = H[(size_t)j * m + j], c = H[(size_t)(j + 1) * m + j], r = sqrt(a * a + c * c);
            if (r == 0) { cs[j] = 1; sn[j] = 0; } else { cs[j] = a / r; sn[j] = c / r; }
            H[(size_t)j * m + j] = r;
            e[j + 1] = -sn[j] * e[j];
            e[j] = cs[j] * e[j];
            k->rnorm = fabs(e[j + 1]);
            k->its++;
            j++;
            if (happy || !(k->rnorm > ttol)) { k->reason = 2; stop = true; }
            else if (k->its >= k->maxit) { k->reason = -3; stop = true; }
        }
        std::vector<double> y(j);
        for (int i = j - 1; i >= 0; i--) {
            double s = e[i];
            for (int q = i + 1; q < j; q++) s -= H[(size_t)i * m + q] * y[q];
            y[i] = H[(size_t)i * m + i] != 0 ? s / H[(size_t)i * m + i] : 0;
        }
        for (int i = 0; i < j; i++) for (int q = 0; q < n; q++) x->a[q] += y[i] * V[i]->a[q];
        if (stop) break;
    }
    for (Vec &v : V) { arenaFree(v->a); delete v; }
    arenaFree(w->a); delete w;
    return 0;
}
}
