/* Assembly of the Jacobian matrix from face blocks. */
#include "ffv.inc"
#include "petsc.inc"
typedef Eigen::Matrix<double,4,4,Eigen::RowMajor> Blk4;
// the matrix: one arbitrary block (I,J), accumulated; other blocks are not looked at
struct Acc { long I, J; int bs; double a[16]; } fv_acc;
extern "C" PetscErrorCode MatSetValuesBlocked(Mat, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *v, InsertMode mode)
{
	const int b2 = fv_acc.bs*fv_acc.bs;
	fv_ensure(m == 1 && n == 1 && mode == ADD_VALUES, "blocks are added one by one");
	if (*r == fv_acc.I && *c == fv_acc.J) for (int i = 0; i < b2; i++) fv_acc.a[i] += v[i];
	return 0;
}
extern "C" PetscErrorCode MatSetValues(Mat, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *v, InsertMode mode)
{
	fv_ensure(m == 1 && n == 1 && mode == ADD_VALUES && fv_acc.bs == 1, "blocks are added one by one");
	if (*r == fv_acc.I && *c == fv_acc.J) fv_acc.a[0] += v[0];
	return 0;
}
// face blocks: functions of face and states (the real ones are judged under C14)
static void blk(const char *nm, int nv, long f, const double *ul, const double *ur, double *b)
{
	double x[9]; x[0] = (double)f;
	for (int i = 0; i < nv; i++) { x[1+i] = ul[i]; x[1+nv+i] = ur[i]; }
	for (int i = 0; i < nv*nv; i++) b[i] = fv_fn(nm, i, x, 1+2*nv);
}
template <int nv> struct AnySpatial : public Spatial<double,nv> {
	AnySpatial(const UMesh<double,2> *m) : Spatial<double,nv>(m) { }
	void compute_local_jacobian_interior(const fint f, const double *const ul, const double *const ur,
		Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& L, Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& U) const
	{ blk("L", nv, f, ul, ur, L.data()); blk("U", nv, f, ul, ur, U.data()); }
	void compute_local_jacobian_boundary(const fint f, const double *const ul, Eigen::Matrix<double,nv,nv,Eigen::RowMajor>& L) const
	{ blk("B", nv, f, ul, ul, L.data()); }
	StatusCode compute_residual(const Vec, Vec, const bool, Vec) const { return 0; }
	void getGradients(const Vec, GradBlock_t<double,2,nv> *const) const { }
};
extern "C" void *_ZTV10AnySpatialILi4EE[], *_ZTV10AnySpatialILi1EE[];
void *fv_emit_vtables(const UMesh<double,2> *m, int n) { if (n == 4) return new AnySpatial<4>(m); return new AnySpatial<1>(m); }
template <int nv> struct AsmCase { VMesh V; double *u, *P; bool dist; };
// contribution of face f to block (I,J) of dr/du
template <int nv> static void contrib(const AsmCase<nv>& C, long f, double *d)
{
	const VMesh& V = C.V;
	const long l = V.intfac[4*f], r = V.intfac[4*f+1], I = fv_acc.I, J = fv_acc.J;
	const long gl = C.dist ? V.glob[l] : l;
	double L[nv*nv], U[nv*nv];
	for (int i = 0; i < nv*nv; i++) d[i] = 0;
	if (f < V.nb) {
		blk("B", nv, f, C.u+nv*l, C.u+nv*l, L);
		if (I == gl && J == gl) for (int i = 0; i < nv*nv; i++) d[i] -= L[i];
		return;
	}
	blk("L", nv, f, C.u+nv*l, C.u+nv*r, L); blk("U", nv, f, C.u+nv*l, C.u+nv*r, U);
	const long gr = vconn(V, f) ? V.connface[5*(f-V.nb-V.ni)+3] : C.dist ? V.glob[r] : r;
	if (I == gl && J == gl) for (int i = 0; i < nv*nv; i++) d[i] -= L[i];
	if (I == gl && J == gr) for (int i = 0; i < nv*nv; i++) d[i] += U[i];
	if (vint(V, f)) {
		if (I == gr && J == gl) for (int i = 0; i < nv*nv; i++) d[i] += L[i];
		if (I == gr && J == gr) for (int i = 0; i < nv*nv; i++) d[i] -= U[i];
	}
}
template <int nv> static void asm_inv(void *ctx, long k, int phase)
{
	const AsmCase<nv>& C = *(AsmCase<nv>*)ctx; const int b2 = nv*nv; const long k0 = fv_loop_start();
	double d[b2];
	if (phase == 2) contrib<nv>(C, k-1, d);
	for (int i = 0; i < b2; i++) {
		const double D = phase == 0 ? 0 : (phase == 1 ? C.P[b2*k+i] : C.P[b2*(k-1)+i] + d[i]) - C.P[b2*k0+i];
		fv_inv_add(&fv_acc.a[i], D, "a face contributes its blocks with the right signs and positions");
	}
}
template <int nv> static void assembly()
{
	AsmCase<nv> C; C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	const int b2 = nv*nv;
	fv_mpisize = (int)fv_int("mpisize", 1, 4);
	C.dist = fv_mpisize > 1;
	fv_assume(C.dist || V.nc == 0);
	vmesh_global(V);
	typedef AnySpatial<nv> S;
	S *s = (S*)calloc(1, sizeof(S));
	*(void***)s = (nv == 4 ? _ZTV10AnySpatialILi4EE : _ZTV10AnySpatialILi1EE) + 2;
	*(const UMesh<double,2>**)&s->m = V.m;
	C.u = fv_rarray("u", nv*(V.nelem+V.nc), 0.9, 1.1);
	C.P = fv_rarray("P", b2*(V.nf+1), 0, 0);
	FvVec uv = {C.u, nv*V.nelem};
	fv_acc.bs = nv;
	fv_acc.I = fv_int("I", 0, 1<<20); fv_acc.J = fv_int("J", 0, 1<<20);
	double e[b2];
	for (int i = 0; i < b2; i++) { fv_acc.a[i] = fv_real_i("A", i, -1, 1); e[i] = fv_acc.a[i]; }
	fv_loop_candidate(asm_inv<nv>, &C);
	s->assemble_jacobian(fvvec(&uv), (Mat)&fv_acc);
	for (int i = 0; i < b2; i++) {
		if (fv_native()) {
			double d[b2];
			for (long f = 0; f < V.nf; f++) { contrib<nv>(C, f, d); e[i] += d[i]; }
		}
		else e[i] += C.P[b2*V.nf+i] - C.P[i];
		fv_ensure_eq(fv_acc.a[i], e[i], "the matrix is the derivative of the residual, block by block");
	}
	fv_reach("end");
}
extern "C" {
void fvc_assembly_flow() { assembly<4>(); }
void fvc_assembly_scalar() { assembly<1>(); }
}
