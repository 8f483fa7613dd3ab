/* Reconstruction of face values: formulas, stencils, limiter ranges. */
#include "gas.hpp"
#include "mesh.inc"
#include "spatial/areconstruction.hpp"
#include "spatial/limitedlinearreconstruction.hpp"
#include "spatial/musclreconstruction.hpp"
// a face F, its cells L and R (if real) with F as their local faces jL, jR
struct RCase {
	VMesh V; double *u, *ug, *G, *ul, *ur, *gr; int nv; long F, L, R, jL, jR;
	int *esuel, *elemface, *nfael, *inpoel;
	double el[4] = {}, er[4] = {}, l0[4] = {}, r0[4] = {};
};
static void esuel_inv(void *ctx, long idx, long v)
{
	const RCase& C = *(RCase*)ctx;
	const long c = idx/4, j = idx%4;
	fv_assume(v >= 0 && v < C.V.nelem+C.V.nc+C.V.nb); fv_assume(v != c);
	fv_assume((c != C.L) | (j != C.jL) | (v == C.R));
	fv_assume((C.R >= C.V.nelem) | (c != C.R) | (j != C.jR) | (v == C.L));
}
static void elemface_inv(void *ctx, long idx, long v)
{
	const RCase& C = *(RCase*)ctx;
	const long c = idx/4, j = idx%4;
	fv_assume(v >= 0 && v < C.V.nf);
	const bool atl = (c == C.L) & (j == C.jL), atr = (C.R < C.V.nelem) & (c == C.R) & (j == C.jR);
	fv_assume((v == C.F) == (atl | atr));
}
static void nfael_inv(void *ctx, long idx, long v)
{
	const RCase& C = *(RCase*)ctx;
	fv_assume((idx != C.L) | (v > C.jL));
	fv_assume((idx != C.R) | (v > C.jR));
}
static void setvec(std::vector<int>& w, int *p, long n) { w._M_impl._M_start = p; w._M_impl._M_finish = w._M_impl._M_end_of_storage = p+n; }
static void setup(RCase& C, int nv)
{
	C.nv = nv; C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V);
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	C.gr = fv_rarray("gr", 2*V.nf, 0, 1);
	C.u = fv_rarray("u", nv*(V.nelem+V.nc), -1, 1); C.ug = fv_rarray("ug", nv*V.nb, -1, 1);
	C.G = fv_rarray("grad", 2*nv*(V.nelem+V.nc), -1, 1);
	C.ul = fv_rarray("ul", nv*V.nf, -1, 1); C.ur = fv_rarray("ur", nv*V.nf, -1, 1);
	C.F = fv_int("F", 0, 1<<22); fv_assume(C.F < V.nf);
	C.L = V.intfac[4*C.F]; C.R = V.intfac[4*C.F+1];
	C.jL = fv_int("jL", 0, 3); C.jR = fv_int("jR", 0, 3);
}
static MVector<double>& vec(double *p, long r, long c)
{
	auto *M = (MVector<double>*)calloc(1, sizeof(MVector<double>));
	M->m_storage.m_data = p; M->m_storage.m_rows = r; M->m_storage.m_cols = c;
	return *M;
}
static amat::Array2d<double>& arr2(double *p, long r, long c)
{
	auto *M = (amat::Array2d<double>*)calloc(1, sizeof(amat::Array2d<double>));
	set2d(*M, p, r, c);
	return *M;
}
static double extrap(const RCase& C, long c, long f, int v, double lim)
{
	double w = C.u[C.nv*c+v];
	for (int i = 0; i < 2; i++) w += lim*C.G[2*C.nv*c+2*v+i]*(C.gr[2*f+i]-C.V.rc[2*c+i]);
	return w;
}
template <typename S> static void call(const S& s, RCase& C)
{
	const VMesh& V = C.V;
	amat::Array2dMutableView<double> l(C.ul, V.nf, C.nv), r(C.ur, V.nf, C.nv);
	s.compute_face_values(vec(C.u, V.nelem+V.nc, C.nv), amat::Array2dView<double>(C.ug, V.nb, C.nv), C.G, l, r);
}
template <int nv> static void linear()
{
	RCase C; setup(C, nv); const VMesh& V = C.V;
	LinearUnlimitedReconstruction<double,nv> s(V.m, V.rc, V.rcb, arr2(C.gr, V.nf, 2));
	call(s, C);
	for (int v = 0; v < nv; v++) {
		fv_ensure_eq(C.ul[nv*C.F+v], extrap(C, C.L, C.F, v, 1), "left value extrapolates the left cell");
		if (vint(V, C.F)) fv_ensure_eq(C.ur[nv*C.F+v], extrap(C, C.R, C.F, v, 1), "right value extrapolates the right cell");
	}
	fv_reach("end");
}
template <int nv> static void muscl()
{
	RCase C; setup(C, nv); const VMesh& V = C.V;
	MUSCLVanAlbada<double,nv> s(V.m, V.rc, V.rcb, arr2(C.gr, V.nf, 2));
	call(s, C);
	const bool phys = C.F < V.nb;
	const double *x = V.rc + 2*C.L, *y = phys ? V.rcb + 2*C.F : V.rc + 2*C.R, eps = s.eps, k = s.k;
	for (int v = 0; v < nv; v++) {
		const double a = C.u[nv*C.L+v], b = phys ? C.ug[nv*C.F+v] : C.u[nv*C.R+v], d = b - a;
		const double *g = C.G + 2*nv*C.L + 2*v, *h = C.G + 2*nv*C.R + 2*v;
		const double dm = 2*(g[0]*(y[0]-x[0]) + g[1]*(y[1]-x[1])) - d;
		const double pl = fmax((2*dm*d + eps)/(dm*dm + d*d + eps), 0);
		fv_ensure_eq(C.ul[nv*C.F+v], a + pl/4*((1-k*pl)*dm + (1+k*pl)*d), "left value is the limited MUSCL extrapolation");
		if (!phys) {
			const double dp = 2*(h[0]*(y[0]-x[0]) + h[1]*(y[1]-x[1])) - d;
			const double pr = fmax((2*dp*d + eps)/(dp*dp + d*d + eps), 0);
			if (vint(V, C.F)) fv_ensure_eq(C.ur[nv*C.F+v], b - pr/4*((1-k*pr)*dp + (1+k*pr)*d), "right value is the limited MUSCL extrapolation");
		}
	}
	fv_reach("end");
}
// ---- schemes that loop over cells
static void cells(RCase& C)
{
	VMesh& V = C.V;
	const bool nat = fv_native();
	C.nfael = fv_iarray("nfael", V.nelem, 3, 4, nat ? nullptr : nfael_inv, &C);
	C.esuel = fv_iarray("esuel", 4*V.nelem, 0, 1<<30, nat ? nullptr : esuel_inv, &C);
	C.elemface = fv_iarray("elemface", 4*V.nelem, 0, 1<<30, nat ? nullptr : elemface_inv, &C);
	if (nat) {		// make the sampled arrays satisfy the invariants
		const long n = V.nelem+V.nc+V.nb;
		fv_assume(n > 1 && V.nf > 1 && C.L != C.R);
		for (long c = 0; c < V.nelem; c++)
			for (long j = 0; j < 4; j++) {
				const bool atl = c == C.L && j == C.jL, atr = c == C.R && j == C.jR;
				int &e = C.esuel[4*c+j], &f = C.elemface[4*c+j];
				e %= n; f %= V.nf;
				if (e == c) e = (e+1)%n;
				if (f == C.F) f = (f+1)%V.nf;
				if (atl) e = C.R;
				if (atr) e = C.L;
				if (atl || atr) { f = C.F; C.nfael[c] = 4; }
			}
	}
	C.inpoel = fv_iarray("inpoel", 4*V.nelem, 0, V.npoin-1, nullptr, nullptr);
	V.coords = fv_rarray("coords", 2*V.npoin, 0, 1);
	setvec(V.m->nfael, C.nfael, V.nelem); setvec(V.m->nnode, C.nfael, V.nelem);
	set2d(V.m->esuel, C.esuel, V.nelem, 4); set2d(V.m->elemface, C.elemface, V.nelem, 4); set2d(V.m->inpoel, C.inpoel, V.nelem, 4);
	set2d(V.m->coords, V.coords, V.npoin, 2);
	fv_assume(C.R >= V.nelem || C.L < C.R);
	for (int v = 0; v < C.nv; v++) { C.l0[v] = C.ul[C.nv*C.F+v]; C.r0[v] = C.ur[C.nv*C.F+v]; }
}
static void rec_inv(void *ctx, long k, int phase)
{
	const RCase& C = *(RCase*)ctx;
	if (phase == 1 && fv_loop_array(0) && fv_case(k < C.V.nelem)) {
		const bool l = fv_case(k == C.L), r = fv_case(k == C.R);
		fv_case(C.nfael[k] == 4);
		if (!l) fv_case(k > C.L);
		if (l) for (int j = 0; j < 3; j++) fv_case(C.jL == j);
		else if (r) for (int j = 0; j < 3; j++) fv_case(C.jR == j);
		else fv_case(k > C.R);
	}
	for (int v = 0; v < C.nv; v++) {
		fv_inv_eq(C.ul+C.nv*C.F+v, k > C.L ? C.el[v] : C.l0[v], "the left value is set in the iteration of the left cell");
		if (C.R < C.V.nelem)
			fv_inv_eq(C.ur+C.nv*C.F+v, k > C.R ? C.er[v] : C.r0[v], "the right value is set in the iteration of the right cell");
	}
}
static double g2(const RCase& C, long c, int v) { const double *g = C.G+2*C.nv*c+2*v; return g[0]*g[0]+g[1]*g[1]; }
static double weno(const RCase& C, long c, int v, double lambda, double eps)
{
	double a = g2(C, c, v)+eps, w = lambda/(a*a*a*a), s = w, g[2] = {w*C.G[2*C.nv*c+2*v], w*C.G[2*C.nv*c+2*v+1]};
	for (int j = 0; j < C.nfael[c]; j++) {
		const long e = C.esuel[4*c+j];
		if (e < C.V.nelem+C.V.nc) {
			a = g2(C, e, v)+eps; w = 1/(a*a*a*a); s += w;
			g[0] += w*C.G[2*C.nv*e+2*v]; g[1] += w*C.G[2*C.nv*e+2*v+1];
		}
	}
	return C.u[C.nv*c+v] + g[0]/s*(C.gr[2*C.F]-C.V.rc[2*c]) + g[1]/s*(C.gr[2*C.F+1]-C.V.rc[2*c+1]);
}
// limiters: smallest over the faces of the cell of phi(difference at the face, min and max difference to the neighbours)
static double limited(const RCase& C, long c, int v, bool venkat, double K3)
{
	double lo = 0, hi = 0, lim = 1;
	const double u = C.u[C.nv*c+v];
	for (int j = 0; j < C.nfael[c]; j++) {
		const long e = C.esuel[4*c+j], ng = C.V.nelem+C.V.nc;
		const double d = (e < ng ? C.u[C.nv*e+v] : C.ug[C.nv*(e-ng)+v]) - u;
		if (d > hi) hi = d;
		if (d < lo) lo = d;
	}
	for (int j = 0; j < C.nfael[c]; j++) {
		const double d = extrap(C, c, C.elemface[4*c+j], v, 1) - u;
		double phi;
		if (venkat) {
			const double p = d < 0 ? lo : hi;
			phi = (p*p + 2*p*d + K3)/(p*p + p*d + 2*d*d + K3);
		}
		else {
			phi = 1;
			if (d > 0) phi = 1 < hi/d ? 1 : hi/d;
			else if (d < 0) phi = 1 < lo/d ? 1 : lo/d;
		}
		if (phi < lim) lim = phi;
	}
	return extrap(C, c, C.F, v, lim);
}
static double charlen3(const RCase& C, long c, double K)
{
	double m = 0;
	for (int j = 0; j < C.nfael[c]; j++) {
		const double *p = C.V.coords+2*C.inpoel[4*c+j], *q = C.V.coords+2*C.inpoel[4*c+(j+1)%C.nfael[c]];
		const double l = (p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]);
		if (m < l) m = l;
	}
	return pow(K*sqrt(m), 3);
}
static void final(const RCase& C)
{
	for (int v = 0; v < C.nv; v++) {
		fv_ensure_eq(C.ul[C.nv*C.F+v], C.el[v], "left value is the scheme's extrapolation from the left cell");
		if (C.R < C.V.nelem) fv_ensure_eq(C.ur[C.nv*C.F+v], C.er[v], "right value is the scheme's extrapolation from the right cell");
	}
	fv_reach("end");
}
template <int nv> static void wenorec()
{
	RCase C; setup(C, nv); cells(C); const VMesh& V = C.V;
	const double lambda = fv_real("lambda", 10, 30);
	WENOReconstruction<double,nv> s(V.m, V.rc, V.rcb, arr2(C.gr, V.nf, 2), lambda);
	for (int v = 0; v < nv; v++) {
		C.el[v] = weno(C, C.L, v, lambda, s.epsilon);
		if (C.R < V.nelem) C.er[v] = weno(C, C.R, v, lambda, s.epsilon);
	}
	fv_loop_candidate(rec_inv, &C);
	call(s, C);
	final(C);
}
template <int nv> static void bj()
{
	RCase C; setup(C, nv); cells(C); const VMesh& V = C.V;
	BarthJespersenLimiter<double,nv> s(V.m, V.rc, V.rcb, arr2(C.gr, V.nf, 2));
	for (int v = 0; v < nv; v++) {
		C.el[v] = limited(C, C.L, v, false, 0);
		if (C.R < V.nelem) C.er[v] = limited(C, C.R, v, false, 0);
	}
	fv_loop_candidate(rec_inv, &C);
	call(s, C);
	final(C);
}
template <int nv> static void venkat()
{
	RCase C; setup(C, nv); cells(C); const VMesh& V = C.V;
	const double K = fv_real("K", 1, 30);
	VenkatakrishnanLimiter<double,nv> s(V.m, V.rc, V.rcb, arr2(C.gr, V.nf, 2), K);
	for (int v = 0; v < nv; v++) {
		C.el[v] = limited(C, C.L, v, true, charlen3(C, C.L, K));
		if (C.R < V.nelem) C.er[v] = limited(C, C.R, v, true, charlen3(C, C.R, K));
	}
	fv_loop_candidate(rec_inv, &C);
	call(s, C);
	final(C);
}
extern "C" {
void fvc_linear_flow() { linear<4>(); }
void fvc_linear_scalar() { linear<1>(); }
void fvc_muscl_flow() { muscl<4>(); }
void fvc_muscl_scalar() { muscl<1>(); }
void fvc_weno_flow() { wenorec<4>(); }
void fvc_weno_scalar() { wenorec<1>(); }
void fvc_bj_flow() { bj<4>(); }
void fvc_bj_scalar() { bj<1>(); }
void fvc_venkat_flow() { venkat<4>(); }
void fvc_venkat_scalar() { venkat<1>(); }
}
