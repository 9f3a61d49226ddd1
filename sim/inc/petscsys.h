/* PETSc interface of the simulator: the GMRES solver and vectors the program
   uses, implemented in sim/host/petsc.cc over the simulated MPI. */
#ifndef SIM_PETSC_H
#define SIM_PETSC_H
#include <mpi.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int PetscErrorCode;
typedef int PetscInt;
typedef double PetscScalar;
typedef double PetscReal;
typedef int PetscMPIInt;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef struct sim_vec *Vec;
typedef struct sim_mat *Mat;
typedef struct sim_ksp *KSP;
typedef struct sim_pc *PC;
typedef const char *VecType;
typedef const char *KSPType;
typedef const char *PCType;
typedef enum { MATOP_MULT = 3 } MatOperation;
typedef int KSPConvergedReason;
#define PETSC_ERR_MEM 55
#define PETSC_DEFAULT (-2)
#define PETSC_DECIDE (-1)
#define PETSC_COMM_WORLD MPI_COMM_WORLD
#define PETSC_COMM_SELF MPI_COMM_SELF
#define VECMPI "mpi"
#define VECSEQ "seq"
#define VECSTANDARD "standard"
#define KSPGMRES "gmres"
#define PCNONE "none"
#define PETSC_NULL 0
PetscErrorCode PetscInitialize(int *, char ***, const char[], const char[]);
PetscErrorCode PetscFinalize(void);
PetscErrorCode PetscPopSignalHandler(void);
PetscErrorCode VecCreate(MPI_Comm, Vec *);
PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt);
PetscErrorCode VecSetType(Vec, VecType);
PetscErrorCode VecSetFromOptions(Vec);
PetscErrorCode VecDuplicate(Vec, Vec *);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecCopy(Vec, Vec);
PetscErrorCode VecGetLocalSize(Vec, PetscInt *);
PetscErrorCode VecGetSize(Vec, PetscInt *);
PetscErrorCode VecGetArray(Vec, PetscScalar **);
PetscErrorCode VecRestoreArray(Vec, PetscScalar **);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **);
PetscErrorCode VecDestroy(Vec *);
PetscErrorCode VecNorm(Vec, int, PetscReal *);
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, void *, Mat *);
PetscErrorCode MatShellSetOperation(Mat, MatOperation, void (*)(void));
PetscErrorCode MatShellSetContext(Mat, void *);
PetscErrorCode MatShellGetContext(Mat, void *);
PetscErrorCode MatDestroy(Mat *);
PetscErrorCode KSPCreate(MPI_Comm, KSP *);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt);
PetscErrorCode KSPSetType(KSP, KSPType);
PetscErrorCode KSPSetFromOptions(KSP);
PetscErrorCode KSPGMRESSetRestart(KSP, PetscInt);
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool);
PetscErrorCode KSPSetUp(KSP);
PetscErrorCode KSPGetPC(KSP, PC *);
PetscErrorCode PCSetType(PC, PCType);
PetscErrorCode KSPSolve(KSP, Vec, Vec);
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt *);
PetscErrorCode KSPGetResidualNorm(KSP, PetscReal *);
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason *);
PetscErrorCode KSPDestroy(KSP *);
#define CHKERRQ(x) do { if (x) return (x); } while (0)
#define CHKERRV(x) do { if (x) return; } while (0)
#define CHKERRABORT(comm, x) do { if (x) MPI_Abort(comm, x); } while (0)
#define PetscCall(x) do { PetscErrorCode e_ = (x); if (e_) return e_; } while (0)
#define PetscCallAbort(comm, x) do { PetscErrorCode e_ = (x); if (e_) MPI_Abort(comm, e_); } while (0)
#ifdef __cplusplus
}
#endif
#endif
