/* Scalar diffusion: residual, time step, Jacobian blocks, gradients, cell sizes. */
#include "gas.hpp"
#include "mesh.inc"
#include "petsc.inc"
#include "spatial/diffusion.hpp"
typedef DiffusionMA<1> D;
struct DCase {
	VMesh V; D *s; double nu, b; double *u, *G, *res, *dt, *H, *h; long J, K; double r0, t0; FvVec gvv;
};
static DCase *DC;
static int n_grad, n_begin, n_end;
static double any(const char *nm, long i) { const double a[1] = {(double)i}; return fv_fn(nm, 0, a, 1); }
extern "C" PetscErrorCode VecGhostUpdateBegin(Vec, InsertMode im, ScatterMode sm)
{
	fv_ensure(im == INSERT_VALUES && sm == SCATTER_FORWARD, "ghost values are overwritten by the owners' values");
	fv_ensure(n_grad == 1, "gradients are exchanged after they have been computed");
	n_begin++; return 0;
}
extern "C" PetscErrorCode VecGhostUpdateEnd(Vec, InsertMode, ScatterMode)
{
	for (long i = 2*DC->V.nelem; i < 2*(DC->V.nelem+DC->V.nc); i++) DC->G[i] = any("GX", i);
	n_end++; return 0;
}
extern "C" PetscErrorCode VecDestroy(Vec *v) { fv_ensure(n_end == 1, "gradients are kept until the exchange is over"); *v = 0; return 0; }
extern "C" PetscErrorCode VecCreateGhostBlock(MPI_Comm, PetscInt bs, PetscInt n, PetscInt N, PetscInt ng, const PetscInt *g, Vec *v)
{
	const VMesh& V = DC->V;
	fv_ensure_ieq(bs, 2, "a gradient has two components");
	fv_ensure_ieq(n, 2*V.nelem, "one gradient per cell");
	fv_ensure_ieq(N, 2*V.m->nelemglobal, "global number of gradients");
	fv_ensure_ieq(ng, V.nc, "one ghost gradient per connectivity face");
	const long i = fv_int("ghost", 0, 1<<20);
	if (i < V.nc) fv_ensure_ieq(g[i], V.connface[5*i+3], "the ghost gradient is that of the cell across the connectivity face");
	*v = fvvec(&DC->gvv); return 0;
}
extern "C" PetscErrorCode VecSetFromOptions(Vec) { return 0; }
struct AnyGrad : public GradientScheme<double,1> {
	AnyGrad(const UMesh<double,2> *m) : GradientScheme<double,1>(m, nullptr, nullptr) { }
	void compute_gradients(const amat::Array2dView<double> u, const amat::Array2dView<double> ug, double *const G) const
	{
		const DCase& C = *DC;
		fv_ensure(&u(0,0) == C.u, "gradients of the given state");
		if (C.K < C.V.nb) fv_ensure_eq(ug((fint)C.K,0), 2*C.b - C.u[C.V.intfac[4*C.K]], "the ghost value puts the boundary value midway");
		fv_ensure(G == C.G, "gradients go to the gradient vector");
		for (long i = 0; i < 2*C.V.nelem; i++) G[i] = any("G", i);
		n_grad++;
	}
};
// gradient of cell c as the flux should see it
static double grad(const DCase& C, long c, int j)
{ return fv_native() ? C.G[2*c+j] : any(c < C.V.nelem ? "G" : "GX", 2*c+j); }
// outward diffusive flux of the left cell
static double flux(const DCase& C, long f)
{
	const VMesh& V = C.V;
	const long l = V.intfac[4*f], r = V.intfac[4*f+1];
	const bool bnd = f < V.nb;
	const double *xl = V.rc + 2*l, *xr = bnd ? V.rcb + 2*f : V.rc + 2*r, *n = V.fm + 3*f;
	const double ul = C.u[l], ur = bnd ? 2*C.b - ul : C.u[r];
	const double dx = xr[0]-xl[0], dy = xr[1]-xl[1], dist = sqrt(dx*dx+dy*dy);
	double a[2];
	for (int j = 0; j < 2; j++) a[j] = bnd ? grad(C, l, j) : 0.5*(grad(C, l, j) + grad(C, r, j));
	const double along = (ur-ul)/dist - (a[0]*dx+a[1]*dy)/dist;
	return -C.nu*n[2]*((a[0]+along*dx/dist)*n[0] + (a[1]+along*dy/dist)*n[1]);
}
static void res_inv(void *ctx, long k, int phase)
{
	const DCase& C = *(DCase*)ctx; const VMesh& V = C.V;
	if (fv_loop_array(0) != C.res) return;
	double h = C.H[k];
	if (phase == 1 && fv_case(k < V.nf)) { if (!fv_case(k < V.nb)) fv_case(vconn(V, k)); }
	if (phase == 2) {
		const double F = flux(C, k-1);
		h = C.H[k-1];
		if (V.intfac[4*(k-1)] == C.J) h -= F;
		if (V.intfac[4*(k-1)+1] == C.J) h += F;
	}
	fv_inv_eq(C.res + C.J, h, "a face adds its flux to the residual of exactly its two cells");
}
static void anysource(const double *x, double t, const double *u, double *s)
{
	const double a[4] = {x[0], x[1], t, u[0]};
	s[0] = fv_fn("S", 0, a, 4);
}
static D *object(DCase& C)
{
	DC = &C; n_grad = n_begin = n_end = 0;
	C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V); vmesh_global(V);
	D *s = C.s = (D*)calloc(1, sizeof(D));
	C.nu = fv_real("diffusivity", 0.1, 1); C.b = fv_real("bvalue", -1, 1);
	fv_assume(C.nu > 0);
	*(double*)&s->diffusivity = C.nu; *(double*)&s->bval = C.b;
	*(const UMesh<double,2>**)&s->m = V.m;
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	set2d(s->rcbp, V.rcb, V.nb, 2); s->rch.sdata = V.rc;
	C.u = fv_rarray("u", V.nelem+V.nc, -1, 1);
	C.K = fv_int("K", 0, 1<<22); fv_assume(C.K < V.nf);
	return s;
}
extern "C" {
void fvc_residual()
{
	DCase C; D *s = object(C); VMesh& V = C.V;
	AnyGrad gc(V.m);
	*(const GradientScheme<double,1>**)&s->gradcomp = &gc;
	new ((void*)&s->source) std::function<void(const double*,double,const double*,double*)>(anysource);
	C.G = fv_rarray("grad", 2*(V.nelem+V.nc), -1, 1); C.gvv.a = C.G; C.gvv.nlocal = 2*V.nelem;
	C.res = fv_rarray("res", V.nelem+V.nc, -1, 1); C.dt = fv_rarray("dt", V.nelem, 0, 1); C.H = fv_rarray("hist", V.nf+1, 0, 0);
	C.h = fv_rarray("h", V.nelem, 0.1, 1);
	s->h._M_impl._M_start = C.h; s->h._M_impl._M_finish = s->h._M_impl._M_end_of_storage = C.h + V.nelem;
	C.J = fv_int("J", 0, V.nelem-1);
	const double r0 = C.res[C.J], dt0 = C.dt[C.J];
	if (!fv_native()) fv_assume(C.H[0] == r0);
	const bool want = fv_int("want", 0, 1) == 1;
	FvVec uv = {C.u, V.nelem}, rv = {C.res, V.nelem}, tv = {C.dt, V.nelem};
	fv_loop_candidate(res_inv, &C);
	s->D::compute_residual(fvvec(&uv), fvvec(&rv), want, fvvec(&tv));
	double e = C.H[V.nf];
	if (fv_native()) {
		e = r0;
		for (long f = 0; f < V.nf; f++) {
			const double F = flux(C, f);
			if (V.intfac[4*f] == C.J) e -= F;
			if (V.intfac[4*f+1] == C.J) e += F;
		}
	}
	double S; anysource(V.rc+2*C.J, 0, C.u+C.J, &S);
	fv_ensure_eq(C.res[C.J], e + S*V.area[C.J], "residual: minus the outward fluxes plus the source times the volume");
	fv_ensure_eq(C.dt[C.J], want ? C.h[C.J]*C.h[C.J]/C.nu : dt0, "time step: square of the cell size over the diffusivity, when asked for");
	fv_reach("end");
}
void fvc_jacobian_interior()
{
	DCase C; D *s = object(C); VMesh& V = C.V;
	const long f = C.K;
	fv_assume(f >= V.nb);
	const double *xl = V.rc + 2*V.intfac[4*f], *xr = V.rc + 2*V.intfac[4*f+1], *n = V.fm + 3*f;
	const double dx = xr[0]-xl[0], dy = xr[1]-xl[1];
	fv_assume(dx*dx + dy*dy > 0);
	Eigen::Matrix<double,1,1,Eigen::RowMajor> L, U;
	const double ul = fv_real("ul", -1, 1), ur = fv_real("ur", -1, 1);
	s->D::compute_local_jacobian_interior((fint)f, &ul, &ur, L, U);
	const double e = -C.nu*n[2]*(dx*n[0]+dy*n[1])/(dx*dx+dy*dy);
	fv_ensure_eq(L(0,0), e, "lower block: minus diffusivity times length over distance, along the line of centres");
	fv_ensure_eq(U(0,0), e, "upper block: minus diffusivity times length over distance, along the line of centres");
	fv_reach("end");
}
void fvc_jacobian_boundary()
{
	DCase C; D *s = object(C); VMesh& V = C.V;
	const long f = C.K;
	fv_assume(f < V.nb);
	const double *xl = V.rc + 2*V.intfac[4*f], *xr = V.rcb + 2*f, *n = V.fm + 3*f;
	const double dx = xr[0]-xl[0], dy = xr[1]-xl[1];
	fv_assume(dx*dx + dy*dy > 0);
	Eigen::Matrix<double,1,1,Eigen::RowMajor> L;
	const double ul = fv_real("ul", -1, 1);
	s->D::compute_local_jacobian_boundary((fint)f, &ul, L);
	fv_ensure_eq(L(0,0), -C.nu*n[2]*(dx*n[0]+dy*n[1])/(dx*dx+dy*dy), "boundary block for a fixed ghost value");
	fv_reach("end");
}
void fvc_gradients()
{
	DCase C; D *s = object(C); VMesh& V = C.V;
	AnyGrad gc(V.m);
	*(const GradientScheme<double,1>**)&s->gradcomp = &gc;
	C.G = fv_rarray("grad", 2*(V.nelem+V.nc), -1, 1);
	FvVec uv = {C.u, V.nelem};
	s->D::getGradients(fvvec(&uv), (GradBlock_t<double,2,1>*)C.G);
	if (!fv_native()) fv_ensure(n_grad == 1, "the gradients are computed");
	fv_reach("end");
}
// constructor (base class and scheme selection by contract: judged under C19 and C17)
static void base(Spatial<double,1> *s, const UMesh<double,2> *m) { *(const UMesh<double,2>**)&s->m = m; }
static const GradientScheme<double,1> *scheme(const std::string&, const UMesh<double,2> *, const double *, const double *) { return nullptr; }
void fvc_cellsize()
{
	DCase C; DC = &C;
	C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V); vmesh_global(V);
	int *nf = fv_iarray("nfael", V.nelem, 3, 4, nullptr, nullptr), *ef = fv_iarray("elemface", 4*V.nelem, 0, V.nf-1, nullptr, nullptr);
	auto& v = V.m->nfael; v._M_impl._M_start = nf; v._M_impl._M_finish = v._M_impl._M_end_of_storage = nf + V.nelem;
	set2d(V.m->elemface, ef, V.nelem, 4);
	C.J = fv_int("J", 0, V.nelem-1);
	const bool quad = fv_case(nf[C.J] == 4);
	for (int i = 0; i < 3; i++) fv_assume(V.fm[3*ef[4*C.J+i]+2] > 0);
	if (quad) fv_assume(V.fm[3*ef[4*C.J+3]+2] > 0);
	C.nu = fv_real("diffusivity", 0.1, 1); C.b = fv_real("bvalue", -1, 1);
	fv_contract("_ZN5fvens7SpatialIdLi1EEC2EPKNS_5UMeshIdLi2EEE", (void*)base);
	fv_contract("_ZN5fvens27create_const_gradientschemeIdLi1EEEPKNS_14GradientSchemeIT_XT0_EEERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEPKNS_5UMeshIS2_Li2EEEPKS2_SJ_", (void*)scheme);
	if (fv_native()) fv_stop();
	D *s = (D*)calloc(1, sizeof(D));
	const std::function<void(const double*,double,const double*,double*)> f(anysource);
	const std::string g("NONE");
	new (s) D(V.m, C.nu, C.b, f, g);
	fv_ensure_eq(s->diffusivity, C.nu, "diffusivity"); fv_ensure_eq(s->bval, C.b, "boundary value");
	const double h = s->h[C.J];
	bool one = false;
	for (int i = 0; i < 3; i++) { const double l = V.fm[3*ef[4*C.J+i]+2]; fv_ensure_le(l, h, "no face of the cell is longer than its size"); one |= h == l; }
	if (quad) { const double l = V.fm[3*ef[4*C.J+3]+2]; fv_ensure_le(l, h, "no face of the cell is longer than its size"); one |= h == l; }
	fv_ensure(one, "the cell size is the length of one of its faces");
	double S; const double x[2] = {0.5, 0.25}, u = 0.125, e = 0; (void)e;
	double S2; anysource(x, 0, &u, &S2); s->source(x, 0, &u, &S);
	fv_ensure_eq(S, S2, "source");
	fv_reach("end");
}
}
