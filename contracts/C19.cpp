/* Geometry of the mesh: cell areas and centres, face normals and lengths, face midpoints, ghost centres. */
#include "gas.hpp"
#include "mesh.inc"
#include "petsc.inc"
#include "spatial/aspatial.hpp"
struct MCase { VMesh V; int *nnode, *inpoel; long J, n; };
static void setvec(std::vector<int>& w, int *p, long n) { w._M_impl._M_start = p; w._M_impl._M_finish = w._M_impl._M_end_of_storage = p+n; }
static const double *node(const MCase& C, long c, long i) { return C.V.coords + 2*C.inpoel[4*c+i]; }
static void setup(MCase& C)
{
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	V.coords = fv_rarray("coords", 2*V.npoin, 0, 1);
	set2d(V.m->coords, V.coords, V.npoin, 2);
	C.nnode = fv_iarray("nnode", V.nelem, 3, 4, nullptr, nullptr);
	C.inpoel = fv_iarray("inpoel", 4*V.nelem, 0, V.npoin-1, nullptr, nullptr);
	setvec(V.m->nfael, C.nnode, V.nelem); setvec(V.m->nnode, C.nnode, V.nelem);
	set2d(V.m->inpoel, C.inpoel, V.nelem, 4);
	C.J = fv_int("J", 0, 1<<20); fv_assume(C.J < V.nelem);
	C.n = C.nnode[C.J];
	// own copies of what the code computes
	new ((void*)&V.m->area) amat::Array2d<double>();
	new ((void*)&V.m->facemetric) amat::Array2d<double>();
}
// shoelace formula over the nodes of the cell in order
static double polyarea(const MCase& C, long c)
{
	double a = 0;
	const long n = C.nnode[c];
	for (int i = 0; i < 4; i++)
		if (i < n) {
			const double *p = node(C, c, i), *q = node(C, c, i+1 < n ? i+1 : 0);
			a += p[0]*q[1] - q[0]*p[1];
		}
	return 0.5*a;
}
static double centre(const MCase& C, long c, int d)
{
	const long n = C.nnode[c];
	double a = node(C, c, 0)[d] + node(C, c, 1)[d] + node(C, c, 2)[d];
	if (n == 4) a += node(C, c, 3)[d];
	return a/n;
}
static void area_inv(void *ctx, long k, int phase)
{
	const MCase& C = *(MCase*)ctx;
	if (phase == 1 && fv_case(k < C.V.nelem)) { fv_case(C.nnode[k] == 3); fv_case(k == C.J); }
	if (C.J < k) fv_inv_eq(C.V.m->area.elems + C.J, polyarea(C, C.J), "areas of the cells so far");
}
static double *centres;
static void centre_inv(void *ctx, long k, int phase)
{
	const MCase& C = *(MCase*)ctx;
	if (phase == 1 && fv_case(k < C.V.nelem)) { fv_case(C.nnode[k] == 3); fv_case(k == C.J); }
	if (C.J < k) for (int d = 0; d < 2; d++) fv_inv_eq(centres + 2*C.J + d, centre(C, C.J, d), "centres of the cells so far");
}
static double midp(const MCase& C, long f, int d)
{ return 0.5*(C.V.coords[2*C.V.intfac[4*f+2]+d] + C.V.coords[2*C.V.intfac[4*f+3]+d]); }
// ---- a space discretisation without physics
struct AnySpace : public Spatial<double,4> {
	AnySpace(const UMesh<double,2> *const m) : Spatial<double,4>(m) { }
	StatusCode compute_residual(const Vec, Vec, const bool, Vec) const { return 0; }
	void compute_local_jacobian_interior(const fint, const double *const, const double *const, Eigen::Matrix<double,4,4,Eigen::RowMajor>&, Eigen::Matrix<double,4,4,Eigen::RowMajor>&) const { }
	void compute_local_jacobian_boundary(const fint, const double *const, Eigen::Matrix<double,4,4,Eigen::RowMajor>&) const { }
	void getGradients(const Vec, GradBlock_t<double,2,4> *const) const { }
};
static MCase *cur;
static FvVec rcv;
static double *received;
static bool begun, ended;
extern "C" {
PetscErrorCode VecCreateGhostBlock(MPI_Comm, PetscInt bs, PetscInt n, PetscInt N, PetscInt ng, const PetscInt *g, Vec *v)
{
	const VMesh& V = cur->V;
	fv_ensure_ieq(bs, 2, "cell centres have two coordinates");
	fv_ensure_ieq(n, 2*V.nelem, "centres of the cells of the subdomain are owned");
	fv_ensure_ieq(N, 2*V.m->nelemglobal, "global number of centres");
	fv_ensure_ieq(ng, V.nc, "one ghost centre per connectivity face");
	const long i = fv_int("ghost", 0, 1<<20);
	if (i < V.nc) fv_ensure_ieq(g[i], V.connface[5*i+3], "the ghost centre is that of the cell across the connectivity face");
	rcv.nlocal = n; rcv.a = V.rc;
	*v = (Vec)&rcv;
	return 0;
}
PetscErrorCode VecSetFromOptions(Vec) { return 0; }
PetscErrorCode VecDestroy(Vec*) { return 0; }
PetscErrorCode VecGhostUpdateBegin(Vec x, InsertMode m, ScatterMode s)
{
	const FvVec *v = (FvVec*)x;
	for (int d = 0; d < 2; d++) fv_ensure_eq(v->a[2*cur->J+d], centre(*cur, cur->J, d), "centres are computed before they are sent");
	fv_ensure(m == INSERT_VALUES && s == SCATTER_FORWARD, "owned centres are sent to the neighbours");
	begun = true;
	return 0;
}
PetscErrorCode VecGhostUpdateEnd(Vec x, InsertMode m, ScatterMode s)
{
	FvVec *v = (FvVec*)x; const VMesh& V = cur->V;
	fv_ensure(begun && m == INSERT_VALUES && s == SCATTER_FORWARD, "the exchange that was started is completed");
	for (long i = 0; i < 2*V.nc; i++) v->a[2*V.nelem+i] = received[i];
	ended = true;
	return 0;
}
void fvc_area()
{
	MCase C; setup(C);
	fv_loop_candidate(area_inv, &C);
	C.V.m->compute_areas();
	fv_ensure_eq(C.V.m->garea(C.J), polyarea(C, C.J), "area of the polygon of the cell's nodes");
	fv_reach("end");
}
void fvc_centre()
{
	MCase C; setup(C);
	centres = fv_rarray("centres", 2*C.V.nelem, 0, 1);
	fv_loop_candidate(centre_inv, &C);
	C.V.m->compute_cell_centres(centres);
	for (int d = 0; d < 2; d++) fv_ensure_eq(centres[2*C.J+d], centre(C, C.J, d), "centre is the mean of the cell's nodes");
	fv_reach("end");
}
void fvc_face()
{
	MCase C; setup(C); const VMesh& V = C.V;
	const long F = fv_int("F", 0, 1<<22); fv_assume(F < V.nf);
	const double *p = V.coords + 2*V.intfac[4*F+2], *q = V.coords + 2*V.intfac[4*F+3];
	const double dx = q[0]-p[0], dy = q[1]-p[1];
	fv_assume(dx*dx + dy*dy > 0);
	V.m->compute_face_data();
	const double l = V.m->gfacemetric(F,2), nx = V.m->gfacemetric(F,0), ny = V.m->gfacemetric(F,1);
	fv_ensure_eq(l*l, dx*dx+dy*dy, "length of the face");
	fv_ensure_lt(0, l, "length is positive");
	fv_ensure_eq(nx*nx+ny*ny, 1, "unit normal");
	fv_ensure_eq(nx*l, dy, "normal is the face vector turned clockwise");
	fv_ensure_eq(ny*l, -dx, "normal is the face vector turned clockwise");
	fv_ensure_eq(V.m->gnormal(F)[0], nx, "accessor");
	fv_ensure_eq(V.m->gnormal(F)[1], ny, "accessor");
	fv_reach("end");
}
// the faces of a cell close: normals times lengths sum to zero, and the divergence theorem gives the area
void fvc_closed()
{
	MCase C; setup(C); const VMesh& V = C.V;
	fv_case(C.n == 3);
	double sx = 0, sy = 0, a = 0;
	long F[4]; double sg[4];
	for (int j = 0; j < 4; j++) {
		F[j] = fv_int(j == 0 ? "F0" : j == 1 ? "F1" : j == 2 ? "F2" : "F3", 0, 1<<22);
		fv_assume(F[j] < V.nf);
		sg[j] = 1;
		if (j >= C.n) continue;
		const long p = C.inpoel[4*C.J+j], q = C.inpoel[4*C.J+(j+1 < C.n ? j+1 : 0)];
		const long x = V.intfac[4*F[j]+2], y = V.intfac[4*F[j]+3];
		if (fv_native()) { V.intfac[4*F[j]+2] = (int)p; V.intfac[4*F[j]+3] = (int)q; }
		else {
			const bool fwd = j == 0 && fv_int("reversed", 0, 1) == 1;	// one face seen from its other side
			if (fv_case(fwd)) { fv_assume(x == q && y == p); sg[j] = -1; }
			else fv_assume(x == p && y == q);
		}
		const double dx = node(C,C.J,j)[0]-V.coords[2*q], dy = node(C,C.J,j)[1]-V.coords[2*q+1];
		fv_assume(dx*dx + dy*dy > 0);
	}
	if (fv_native()) for (int j = 0; j < 4; j++) for (int i = 0; i < j; i++) fv_assume(F[i] != F[j]);
	V.m->compute_face_data();
	for (int j = 0; j < 4; j++)
		if (j < C.n) {
			const double *n = &V.m->facemetric(F[j],0);
			sx += sg[j]*n[2]*n[0]; sy += sg[j]*n[2]*n[1];
			a += sg[j]*0.5*n[2]*(n[0]*midp(C,F[j],0) + n[1]*midp(C,F[j],1));
		}
	fv_ensure_eq(sx, 0, "the faces of a cell close");
	fv_ensure_eq(sy, 0, "the faces of a cell close");
	fv_ensure_eq(a, polyarea(C, C.J), "divergence theorem: outward normals give the area");
	fv_reach("end");
}
void fvc_spatial()
{
	MCase C; setup(C); VMesh& V = C.V; cur = &C; begun = ended = false;
	vmesh_global(V);
	V.m->nelemglobal = (fint)fv_int("nelemglobal", 1, 1<<22);
	V.rc = centres = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1);
	received = fv_rarray("received", 2*V.nc, 0, 1);
	const long F = fv_int("F", 0, 1<<22); fv_assume(F < V.nf);
	fv_assume(C.J == V.intfac[4*F]);
	fv_loop_candidate(centre_inv, &C);
	const AnySpace s(V.m);
	fv_ensure(ended, "cell centres of the neighbours are received");
	for (int d = 0; d < 2; d++) {
		fv_ensure_eq(s.gr(F,d), midp(C, F, d), "face centre is the midpoint");
		fv_ensure_eq(s.rch.getArray()[2*C.J+d], centre(C, C.J, d), "centres of the cells");
		if (F < V.nb) {
			fv_ensure_eq(s.rcbptr[2*F+d], 2*midp(C, F, d) - centre(C, C.J, d), "ghost centre is the reflection about the face midpoint");
		}
		else if (vconn(V, F))
			fv_ensure_eq(s.rch.getArray()[2*(V.nelem + F-V.nb-V.ni)+d], received[2*(F-V.nb-V.ni)+d], "centres received from the neighbours");
	}
	fv_reach("end");
}
}
