/* Residual assembly: conservation, one contribution per face and side. */
#include "gas.hpp"
#include "mesh.inc"
#include "spatial/flow_spatial.hpp"
// the inviscid flux is any deterministic function of the two states and the normal
struct AnyFlux : public InviscidFlux<double> {
	AnyFlux(const IdealGasPhysics<double> *const p) : InviscidFlux<double>(p) { }
	void get_flux(const double *const ul, const double *const ur, const double *const n, double *const flux) const
	{
		double a[10];
		for (int i = 0; i < 4; i++) { a[i] = ul[i]; a[4+i] = ur[i]; }
		a[8] = n[0]; a[9] = n[1];
		for (int i = 0; i < 4; i++) flux[i] = fv_fn("F", i, a, 10);
	}
	void get_jacobian(const double *const, const double *const, const double *const, double *const, double *const) const {}
};
template <bool order2, bool cv>
struct FluxCase {
	typedef FlowFV<double,order2,cv> S;
	S *s; VMesh V; IdealGasPhysics<double> ph; bool visc;
	double *u, *g, *ul, *ur, *ug, *res, *hist, *tot; double r0[4], t0[4];
	long J;
	FluxCase() : ph(fv_gas()) {}
};
// what face f contributes to the net outflow of its left cell
template <bool o2, bool cv>
static void faceflux(const FluxCase<o2,cv>& C, long f, double F[4])
{
	const VMesh& V = C.V;
	const double n[2] = {V.fm[3*f], V.fm[3*f+1]}, len = V.fm[3*f+2];
	const long l = V.intfac[4*f], r = V.intfac[4*f+1];
	C.s->inviflux->get_flux(C.ul+4*f, C.ur+4*f, n, F);
	if (C.visc) {
		double vf[4];
		typedef GradBlock_t<double,NDIM,NVARS> GB;
		const GB *G = (const GB*)C.g;
		if (f < V.nb)
			C.s->compute_viscous_flux(n, V.rc+2*l, V.rcb+2*f, C.u+4*l, C.ug+4*f, G[l], G[l], C.ul+4*f, C.ur+4*f, vf);
		else
			C.s->compute_viscous_flux(n, V.rc+2*l, V.rc+2*r, C.u+4*l, C.u+4*r, G[l], G[r], C.ul+4*f, C.ur+4*f, vf);
		for (int i = 0; i < 4; i++) F[i] += vf[i];
	}
	for (int i = 0; i < 4; i++) F[i] *= len;
}
template <bool o2, bool cv>
static void assembly_inv(void *ctx, long k, int phase)
{
	FluxCase<o2,cv>& C = *(FluxCase<o2,cv>*)ctx;
	double F[4] = {0,0,0,0};
	bool l = false, r = false, inner = false;
	if (phase == 2) {
		faceflux(C, k-1, F);
		l = C.V.intfac[4*(k-1)] == C.J; r = C.V.intfac[4*(k-1)+1] == C.J;
		inner = C.V.intfac[4*(k-1)+1] < C.V.nelem;
	}
	for (int i = 0; i < 4; i++) {
		double h, t;
		if (phase == 0) { h = k == 0 ? C.r0[i] : C.hist[4*k+i]; t = k == 0 ? C.t0[i] : C.tot[4*k+i]; }
		else if (phase == 1) { h = C.hist[4*k+i]; t = C.tot[4*k+i]; }
		else {
			h = C.hist[4*(k-1)+i]; t = C.tot[4*(k-1)+i];
			if (l) h -= F[i];
			if (r) h += F[i];
			if (!inner) t -= F[i];
		}
		fv_inv_eq(&C.res[4*C.J+i], h, "a face adds its flux to the residual of exactly its two cells");
		fv_inv_sum(C.res, 4, i, t, "interior faces conserve the total");
	}
}
// contract of compute_viscous_flux: a deterministic function of its arguments (judged under C09 and C12)
template <bool o2, bool cv>
static void anyvisc(const FlowFV<double,o2,cv> *s, const double *n, const double *xl, const double *xr, const double *ucl, const double *ucr,
	const GradBlock_t<double,NDIM,NVARS>& gl, const GradBlock_t<double,NDIM,NVARS>& gr, const double *ul, const double *ur, double *vf)
{
	double a[40]; int c = 0;
	for (int i = 0; i < 2; i++) { a[c++] = n[i]; a[c++] = xl[i]; a[c++] = xr[i]; }
	for (int i = 0; i < 4; i++) { a[c++] = ucl[i]; a[c++] = ucr[i]; a[c++] = ul[i]; a[c++] = ur[i]; }
	if (o2) for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { a[c++] = gl(i,j); a[c++] = gr(i,j); }
	for (int i = 0; i < 4; i++) vf[i] = fv_fn("V", i, a, c);
}
#define VISC(o2,cv,b2,bcv) fv_contract("_ZNK5fvens6FlowFVIdLb" #b2 "ELb" #bcv "EE20compute_viscous_fluxEPKdS3_S3_S3_S3_RKN5Eigen5ArrayIdLi2ELi4ELi2ELi2ELi4EEES8_S3_S3_Pd", (void*)anyvisc<o2,cv>)
template <bool o2, bool cv>
static void assembly()
{
	FluxCase<o2,cv> C;
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	typedef FlowFV<double,o2,cv> S;
	S *s = C.s = (S*)calloc(1, sizeof(S));
	AnyFlux fl(&C.ph);
	new ((void*)&s->physics) IdealGasPhysics<double>(C.ph);
	*(const InviscidFlux<double>**)&s->inviflux = &fl;
	*(const UMesh<double,2>**)&s->m = V.m;
	C.visc = fv_int("viscous", 0, 1) == 1;
	const_cast<FlowPhysicsConfig&>(s->pconfig).viscous_sim = C.visc;
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	set2d(s->rcbp, V.rcb, V.nb, 2);
	s->rch.sdata = V.rc;
	C.u = fv_rarray("u", 4*(V.nelem+V.nc), 0.9, 1.1); C.g = fv_rarray("grad", 8*(V.nelem+V.nc), -1, 1);
	C.ul = fv_rarray("ul", 4*V.nf, 0.9, 1.1); C.ur = fv_rarray("ur", 4*V.nf, 0.9, 1.1);
	C.ug = fv_rarray("ug", 4*V.nb, 0.9, 1.1);
	if (fv_native()) {	// admissible states: positive pressure
		for (long i = 0; i < V.nelem+V.nc; i++) C.u[4*i+3] += 3;
		for (long i = 0; i < V.nf; i++) { C.ul[4*i+3] += 3; C.ur[4*i+3] += 3; }
		for (long i = 0; i < V.nb; i++) C.ug[4*i+3] += 3;
	}
	C.res = fv_rarray("res", 4*V.nelem, -1, 1);
	C.hist = fv_rarray("hist", 4*(V.nf+1), 0, 0); C.tot = fv_rarray("tot", 4*(V.nf+1), 0, 0);
	C.J = fv_int("J", 0, V.nelem-1);
	for (int i = 0; i < 4; i++) { C.r0[i] = C.res[4*C.J+i]; C.t0[i] = fv_ghost_sum(C.res, 4, i); }
	fv_loop_candidate(assembly_inv<o2,cv>, &C);
	s->compute_fluxes(C.u, C.g, C.ul, C.ur, C.ug, C.res);
	for (int i = 0; i < 4; i++) {
		double e, t;
		if (fv_native()) {
			e = C.r0[i];
			for (long f = 0; f < V.nf; f++) {
				double F[4];
				faceflux(C, f, F);
				if (V.intfac[4*f] == C.J) e -= F[i];
				if (V.intfac[4*f+1] == C.J) e += F[i];
			}
		}
		else e = C.hist[4*V.nf+i];
		fv_ensure_eq(C.res[4*C.J+i], e, "residual is the initial value minus the sum of outward fluxes");
		if (!fv_native()) {
			t = C.tot[4*V.nf+i];
			fv_ensure_eq(fv_ghost_sum(C.res, 4, i), t, "the total changes by the boundary fluxes only");
		}
	}
	fv_reach("end");
}
extern "C" {
void fvc_fluxes_1_cv() { VISC(false,true,0,1); assembly<false,true>(); }
void fvc_fluxes_2_cv() { VISC(true,true,1,1); assembly<true,true>(); }
void fvc_fluxes_2_sv() { VISC(true,false,1,0); assembly<true,false>(); }
void fvc_fluxes_1_sv() { VISC(false,false,0,0); assembly<false,false>(); }
}
