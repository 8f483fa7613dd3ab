// PETSc and MPI as the harness sees them (assumed contracts of the libraries): vectors are arrays whose local form is the
// owned entries followed by the ghosts; both forms share storage.
#include <petscvec.h>
#include <petscmat.h>
struct FvVec { double *a; long nlocal; };
static int fv_mpisize = 1, fv_mpirank = 0;
static Vec fvvec(FvVec *v) { return (Vec)v; }
extern "C" {
PetscErrorCode VecGetLocalSize(Vec x, PetscInt *n) { *n = (PetscInt)((FvVec*)x)->nlocal; return 0; }
PetscErrorCode VecGetArray(Vec x, PetscScalar **a) { *a = ((FvVec*)x)->a; return 0; }
PetscErrorCode VecGetArrayRead(Vec x, const PetscScalar **a) { *a = ((FvVec*)x)->a; return 0; }
PetscErrorCode VecRestoreArray(Vec, PetscScalar **a) { *a = 0; return 0; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar **a) { *a = 0; return 0; }
PetscErrorCode VecGhostGetLocalForm(Vec x, Vec *l) { *l = x; return 0; }
PetscErrorCode VecGhostRestoreLocalForm(Vec, Vec *l) { *l = 0; return 0; }
PetscErrorCode PetscObjectGetComm(PetscObject, MPI_Comm *c) { *c = 0; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = fv_mpisize; return 0; }
int MPI_Comm_rank(MPI_Comm, int *n) { *n = fv_mpirank; return 0; }
int (MPI_Waitall)(int n, MPI_Request *, MPI_Status *) { return n == 0 ? 0 : 1; }
}
