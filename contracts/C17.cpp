/* Cell gradients: Green-Gauss and weighted least squares. */
#include "gas.hpp"
#include "mesh.inc"
#include "spatial/agradientschemes.hpp"
// lin: the values are those of a linear function with gradient b
struct GCase { VMesh V; double *u, *ug, *G, *PA, *PB; long J; int nv; bool lin; double a[4], b[8]; };
static const double *other(const GCase& C, long f) { return f < C.V.nb ? C.V.rcb + 2*f : C.V.rc + 2*C.V.intfac[4*f+1]; }
static double otheru(const GCase& C, long f, int v) { return f < C.V.nb ? C.ug[C.nv*f+v] : C.u[C.nv*C.V.intfac[4*f+1]+v]; }
static double side(const GCase& C, long f, bool sgn)
{
	if (C.V.intfac[4*f] == C.J) return 1;
	if (vint(C.V, f) && C.V.intfac[4*f+1] == C.J) return sgn ? -1 : 1;
	return 0;
}
// Green-Gauss: outward normal times face value (inverse-distance weighted) over the area
static void gg(const GCase& C, long f, double *d)
{
	const VMesh& V = C.V; const double s = side(C, f, true), *n = V.fm+3*f;
	for (int i = 0; i < 2*C.nv; i++) d[i] = 0;
	if (s == 0) return;
	const int *e = V.intfac+4*f;
	const double *x = V.rc + 2*e[0], *y = other(C, f);
	const double m[2] = {0.5*(V.coords[2*e[2]]+V.coords[2*e[3]]), 0.5*(V.coords[2*e[2]+1]+V.coords[2*e[3]+1])};
	const double wl = 1/sqrt((m[0]-x[0])*(m[0]-x[0])+(m[1]-x[1])*(m[1]-x[1])), wr = 1/sqrt((m[0]-y[0])*(m[0]-y[0])+(m[1]-y[1])*(m[1]-y[1]));
	for (int v = 0; v < C.nv; v++) {
		const double w = (C.u[C.nv*e[0]+v]*wl + otheru(C, f, v)*wr)/(wl+wr);
		for (int i = 0; i < 2; i++) d[2*v+i] = s*w*n[2]*n[i]/V.area[C.J];
	}
}
static void lsa(const GCase& C, long f, double *d)
{
	const double s = side(C, f, false);
	for (int i = 0; i < 3; i++) d[i] = 0;
	if (s == 0) return;
	const double *x = C.V.rc + 2*C.V.intfac[4*f], *y = other(C, f), dx = x[0]-y[0], dy = x[1]-y[1], w = 1/(dx*dx+dy*dy);
	d[0] = w*dx*dx; d[1] = w*dx*dy; d[2] = w*dy*dy; // symmetric
}
static void lsb(const GCase& C, long f, double *d)
{
	const double s = side(C, f, false);
	for (int i = 0; i < 2*C.nv; i++) d[i] = 0;
	if (s == 0) return;
	const double *x = C.V.rc + 2*C.V.intfac[4*f], *y = other(C, f), dx = x[0]-y[0], dy = x[1]-y[1], w = 1/(dx*dx+dy*dy);
	for (int v = 0; v < C.nv; v++) {
		const double du = C.u[C.nv*C.V.intfac[4*f]+v] - otheru(C, f, v);
		d[2*v] = w*dx*du; d[2*v+1] = w*dy*du;
	}
}
static double part(const double *P, int n, int i, long k, int phase, double d)
{ return phase == 0 ? 0 : (phase == 1 ? P[n*k+i] : P[n*(k-1)+i] + d) - P[n*fv_loop_start()+i]; }
static void gg_inv(void *ctx, long k, int phase)
{
	const GCase& C = *(GCase*)ctx; const int n = 2*C.nv;
	double d[8] = {0};
	if (phase == 2) gg(C, k-1, d);
	for (int i = 0; i < n; i++) fv_inv_add(C.G+n*C.J+i, part(C.PB, n, i, k, phase, d[i]), "a face adds its Green-Gauss contribution to exactly its two cells");
}
static bool assembling_lhs;
static void ls_inv(void *ctx, long k, int phase)
{
	const GCase& C = *(GCase*)ctx;
	double *F = (double*)fv_loop_array(0);
	if (!F || F == C.G) return;
	double d[8] = {0}, b[8] = {0}; const int n = assembling_lhs ? 4 : 2*C.nv;
	if (phase == 2) { if (assembling_lhs || C.lin) lsa(C, k-1, d); if (!assembling_lhs && !C.lin) lsb(C, k-1, b); }
	for (int i = 0; i < n; i++) {
		double e;
		if (assembling_lhs) { const int j = i/2+i%2; e = part(C.PA, 3, j, k, phase, d[j]); }
		else if (C.lin) {
			const int v = i/2, r = i%2;
			e = part(C.PA, 3, r, k, phase, d[r])*C.b[2*v] + part(C.PA, 3, r+1, k, phase, d[r+1])*C.b[2*v+1];
		}
		else e = part(C.PB, n, i, k, phase, b[i]);
		fv_inv_add(F+n*C.J+i, e, "a face adds its least-squares contribution to exactly its two cells");
	}
}
static void setup(GCase& C, int nv, bool lin)
{
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	C.nv = nv; C.lin = lin;
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	V.coords = fv_rarray("coords", 2*V.npoin, 0, 1);
	set2d(V.m->coords, V.coords, V.npoin, 2);
	C.u = fv_rarray("u", nv*(V.nelem+V.nc), -1, 1); C.ug = fv_rarray("ug", nv*V.nb, -1, 1);
	C.G = fv_rarray("grad", 2*nv*V.nelem, -1, 1);
	C.PA = fv_rarray("PA", 3*(V.nf+1), 0, 0); C.PB = fv_rarray("PB", 2*nv*(V.nf+1), 0, 0);
	C.J = fv_int("J", 0, 1<<20); fv_assume(C.J < V.nelem);
	if (lin) {
		for (int i = 0; i < nv; i++) { C.a[i] = fv_real_i("a", i, -1, 1); C.b[2*i] = fv_real_i("bx", i, -1, 1); C.b[2*i+1] = fv_real_i("by", i, -1, 1); }
		for (long c = 0; c < V.nelem+V.nc; c++) for (int v = 0; v < nv; v++) C.u[nv*c+v] = C.a[v] + C.b[2*v]*V.rc[2*c] + C.b[2*v+1]*V.rc[2*c+1];
		for (long c = 0; c < V.nb; c++) for (int v = 0; v < nv; v++) C.ug[nv*c+v] = C.a[v] + C.b[2*v]*V.rcb[2*c] + C.b[2*v+1]*V.rcb[2*c+1];
	}
}
static void total(const GCase& C, void (*fn)(const GCase&, long, double*), const double *P, int n, double *S)
{
	double d[8];
	for (int i = 0; i < n; i++) S[i] = fv_native() ? 0 : P[n*C.V.nf+i] - P[i];
	if (fv_native()) for (long f = 0; f < C.V.nf; f++) { fn(C, f, d); for (int i = 0; i < n; i++) S[i] += d[i]; }
}
template <int nv> static void greengauss()
{
	GCase C; setup(C, nv, false); const VMesh& V = C.V;
	GreenGaussGradients<double,nv> gs(V.m, V.rc, V.rcb);
	fv_loop_candidate(gg_inv, &C);
	gs.compute_gradients(amat::Array2dView<double>(C.u, V.nelem+V.nc, nv), amat::Array2dView<double>(C.ug, V.nb, nv), C.G);
	double S[8];
	total(C, gg, C.PB, 2*nv, S);
	for (int i = 0; i < 2*nv; i++) fv_ensure_eq(C.G[2*nv*C.J+i], S[i], "gradient is the area average of face values times outward normals");
	fv_reach("end");
}
template <int nv> static void zero()
{
	GCase C; setup(C, nv, false); const VMesh& V = C.V;
	ZeroGradients<double,nv> gs(V.m, V.rc, V.rcb);
	gs.compute_gradients(amat::Array2dView<double>(C.u, V.nelem+V.nc, nv), amat::Array2dView<double>(C.ug, V.nb, nv), C.G);
	for (int i = 0; i < 2*nv; i++) fv_ensure_eq(C.G[2*nv*C.J+i], 0, "zero gradients");
	fv_reach("end");
}
template <int nv> static void leastsq(bool lin)
{
	GCase C; setup(C, nv, lin); const VMesh& V = C.V;
	fv_loop_candidate(ls_inv, &C);
	assembling_lhs = true;
	WeightedLeastSquaresGradients<double,nv> gs(V.m, V.rc, V.rcb);
	assembling_lhs = false;
	gs.compute_gradients(amat::Array2dView<double>(C.u, V.nelem+V.nc, nv), amat::Array2dView<double>(C.ug, V.nb, nv), C.G);
	double A[8], B[8];
	total(C, lsa, C.PA, 3, A);
	total(C, lsb, C.PB, 2*nv, B);
	const double det = A[0]*A[2]-A[1]*A[1];
	if (fv_native() && !(fabs(det) > 1e-3*(A[0]+A[2])*(A[0]+A[2]))) fv_stop();
	fv_assume(det != 0);
	const double *g = C.G + 2*nv*C.J;
	for (int v = 0; v < nv; v++) {
		if (lin) {
			fv_ensure_eq(g[2*v], C.b[2*v], "the gradient of a linear function is exact");
			fv_ensure_eq(g[2*v+1], C.b[2*v+1], "the gradient of a linear function is exact");
		}
		else {
			fv_ensure_eq(g[2*v], (A[2]*B[2*v]-A[1]*B[2*v+1])/det, "gradient solves the weighted least-squares problem");
			fv_ensure_eq(g[2*v+1], (A[0]*B[2*v+1]-A[1]*B[2*v])/det, "gradient solves the weighted least-squares problem");
		}
	}
	fv_reach("end");
}
extern "C" {
void fvc_greengauss_flow() { greengauss<4>(); }
void fvc_greengauss_scalar() { greengauss<1>(); }
void fvc_zero_flow() { zero<4>(); }
void fvc_zero_scalar() { zero<1>(); }
void fvc_leastsq_flow() { leastsq<4>(false); }
void fvc_leastsq_scalar() { leastsq<1>(false); }
void fvc_linear_flow() { leastsq<4>(true); }
void fvc_linear_scalar() { leastsq<1>(true); }
}
