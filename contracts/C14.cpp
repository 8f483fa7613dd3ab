/* Jacobian blocks of one face, boundary states by tag. */
#include "ffv.inc"
#include "physics/viscousphysics.hpp"
static void dviscosity(const IdealGasPhysics<double> *ph, const double *u, double *d)
{
	double dt[4] = {0,0,0,0};
	ph->getJacobianTemperatureWrtConserved(u,dt);
	const double T = ph->getTemperatureFromConserved(u), S = 110.5/ph->Tinf;
	for(int i=0;i<4;i++) d[i] += (1+S)/ph->Reinf*sqrt(T)*(1.5*(T+S)-T)/((T+S)*(T+S))*dt[i];
}
struct FaceCase { VMesh V; double *rc, *rcb; long f; };
template <class S> static S *facecase(FaceCase& C, const IdealGasPhysics<double>& ph, const InviscidFlux<double> *fl, bool visc, bool boundary)
{
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	S *s = flowobj<S>(V, ph, fl, visc);
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	set2d(s->rcbp, V.rcb, V.nb, 2);
	s->rch.sdata = V.rc;
	if (boundary) { fv_assume(V.nb > 0); C.f = fv_int("f", 0, 1<<22); fv_assume(C.f < V.nb); }
	else { C.f = fv_int("f", 0, 1<<22); fv_assume(C.f >= V.nb); fv_assume(C.f < V.nf); }
	return s;
}
// derivative of the thin-layer viscous flux; convention: minus that for the left, plus that for the right state, added
template <bool o2, bool cv, bool boundary> static void vjac()
{
	typedef FlowFV<double,o2,cv> S;
	const IdealGasPhysics<double> ph = fv_gas();
	if(!cv) fv_contract("_ZNK5fvens15IdealGasPhysicsIdE42getJacobianSutherlandViscosityWrtConservedEPKdPd",(void*)dviscosity);
	FaceCase C;
	S *s = facecase<S>(C, ph, nullptr, true, boundary);
	const VMesh& V = C.V;
	double u0[4], w0[4], u[4], w[4], a[16], b[16], a0[16], b0[16], tl[4], tr[4], g[2][4], f[4];
	fv_cons("ul",ph.g,u0); fv_cons("ur",ph.g,w0);
	for(int i=0;i<4;i++) { u[i] = u0[i] + fv_real_i("el",i,0,0); w[i] = w0[i] + fv_real_i("er",i,0,0); }
	if(!fv_native()) for(int i=0;i<4;i++) { fv_assume(fv_real_i("el",i,0,0)==0); fv_assume(fv_real_i("er",i,0,0)==0); }
	for(int i=0;i<16;i++) { a[i] = a0[i] = fv_real_i("a",i,-1,1); b[i] = b0[i] = fv_real_i("b",i,-1,1); }
	const double *xl = V.rc + 2*V.intfac[4*C.f], *xr = boundary ? V.rcb + 2*C.f : V.rc + 2*V.intfac[4*C.f+1];
	const double d[2] = {xr[0]-xl[0], xr[1]-xl[1]}, d2 = d[0]*d[0]+d[1]*d[1];
	fv_assume(d2 > 0);
	s->compute_viscous_flux_jacobian((fint)C.f, u0, w0, a, b);
	ph.getPrimitive2FromConserved(u, tl); ph.getPrimitive2FromConserved(w, tr);
	for (int j = 0; j < 4; j++) for (int i = 0; i < 2; i++) g[i][j] = (tr[j]-tl[j])*d[i]/d2;
	computeViscousFlux<double,2,4,cv>(ph, V.fm+3*C.f, g, u, w, f);
	for(int i=0;i<4;i++) for(int k=0;k<4;k++) {
		fv_ensure_eq(a[4*i+k],a0[4*i+k]-fv_diff_i(f[i],"el",k),"derivative with respect to the left state");
		fv_ensure_eq(b[4*i+k],b0[4*i+k]+fv_diff_i(f[i],"er",k),"derivative with respect to the right state");
	}
	fv_reach("end");
}
// contract of compute_viscous_flux_jacobian: adds something that depends on face and states only (judged above)
template <bool o2, bool cv>
static void anyvjac(const FlowFV<double,o2,cv> *s, fint f, const double *ul, const double *ur, double *a, double *b)
{
	double x[9]; x[0] = f;
	for (int i = 0; i < 4; i++) { x[1+i] = ul[i]; x[5+i] = ur[i]; }
	for (int i = 0; i < 16; i++) { a[i] += fv_fn("VL", i, x, 9); b[i] += fv_fn("VR", i, x, 9); }
}
#define VJAC(o2,cv,b2,bcv) fv_contract("_ZNK5fvens6FlowFVIdLb" #b2 "ELb" #bcv "EE29compute_viscous_flux_jacobianEiPKdS3_PdS4_", (void*)anyvjac<o2,cv>)
typedef Eigen::Matrix<double,4,4,Eigen::RowMajor> Blk;
template <class S> static void faceder(const S *s, const FaceCase& C, const double *ul, const double *ur, double *L, double *R)
{
	s->jiflux->get_jacobian(ul, ur, C.V.fm+3*C.f, L, R);
	if (s->pconfig.viscous_sim) s->compute_viscous_flux_jacobian((fint)C.f, ul, ur, L, R);
}
template <bool o2, bool cv> static void interior()
{
	typedef FlowFV<double,o2,cv> S;
	const IdealGasPhysics<double> ph = fv_gas();
	AnyFlux fl(&ph); FaceCase C;
	S *s = facecase<S>(C, ph, &fl, fv_int("viscous",0,1) == 1, false);
	double ul[4], ur[4], l[16], r[16];
	fv_state("ul",ph.g,ul); fv_state("ur",ph.g,ur);
	Blk L, U;
	for (int i = 0; i < 16; i++) { L.data()[i] = fv_real_i("L",i,-1,1); U.data()[i] = fv_real_i("U",i,-1,1); }
	s->S::compute_local_jacobian_interior((fint)C.f, ul, ur, L, U);
	faceder(s, C, ul, ur, l, r);
	const double len = C.V.fm[3*C.f+2];
	for (int i = 0; i < 16; i++) {
		fv_ensure_eq(L.data()[i], len*l[i], "left block: minus the derivative of the flux through the face");
		fv_ensure_eq(U.data()[i], len*r[i], "right block: derivative of the flux through the face");
	}
	fv_reach("end");
}
template <bool o2, bool cv> static void boundary()
{
	typedef FlowFV<double,o2,cv> S;
	const IdealGasPhysics<double> ph = fv_gas();
	AnyFlux fl(&ph); AnyBC b1(ph, 1), b2(ph, 2); FaceCase C;
	S *s = facecase<S>(C, ph, &fl, fv_int("viscous",0,1) == 1, true);
	bcmap(s->bcs, &b1, &b2);
	double ul[4], ug[4], l[16], r[16], d[16];
	fv_state("ul",ph.g,ul);
	Blk L;
	for (int i = 0; i < 16; i++) L.data()[i] = fv_real_i("L",i,-1,1);
	s->S::compute_local_jacobian_boundary((fint)C.f, ul, L);
	const AnyBC& b = C.V.btags[C.f] == 1 ? b1 : b2;
	b.computeGhostStateAndJacobian(ul, C.V.fm+3*C.f, ug, d);
	faceder(s, C, ul, ug, l, r);
	const double len = C.V.fm[3*C.f+2];
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
		double e = l[4*i+j];
		for (int k = 0; k < 4; k++) e -= r[4*i+k]*d[4*k+j];
		fv_ensure_eq(L(i,j), len*e, "boundary block: minus the total derivative of the flux through the face");
	}
	fv_reach("end");
}
// ghost states: condition of the face's tag, with the face's normal and interior state
struct GhostCase { FaceCase *c; double *in, *gs; const AnyBC *b1, *b2; };
static void ghost_inv(void *ctx, long k, int phase)
{
	const GhostCase& G = *(GhostCase*)ctx; const long f = G.c->f;
	double ug[4];
	if (f >= k) return;
	(G.c->V.btags[f] == 1 ? G.b1 : G.b2)->computeGhostState(G.in+4*f, G.c->V.fm+3*f, ug);
	for (int i = 0; i < 4; i++) fv_inv_eq(G.gs+4*f+i, ug[i], "ghost states of the faces so far");
}
static void ghosts()
{
	typedef FlowFV<double,true,true> S;
	const IdealGasPhysics<double> ph = fv_gas();
	AnyBC b1(ph, 1), b2(ph, 2); FaceCase C;
	S *s = facecase<S>(C, ph, nullptr, false, true);
	bcmap(s->bcs, &b1, &b2);
	double *in = fv_rarray("in", 4*C.V.nb, 0.9, 1.1), *gs = fv_rarray("gs", 4*C.V.nb, 0.9, 1.1), ug[4];
	GhostCase G = {&C, in, gs, &b1, &b2};
	fv_loop_candidate(ghost_inv, &G);
	s->compute_boundary_states(in, gs);
	(C.V.btags[C.f] == 1 ? b1 : b2).computeGhostState(in+4*C.f, C.V.fm+3*C.f, ug);
	for (int i = 0; i < 4; i++) fv_ensure_eq(gs[4*C.f+i], ug[i], "ghost state of a face comes from the condition with the face's tag");
	fv_reach("end");
}
extern "C" {
void fvc_vjac_int_cv() { vjac<true,true,false>(); }
void fvc_vjac_bou_cv() { vjac<false,true,true>(); }
void fvc_vjac_int_sv() { vjac<false,false,false>(); }
void fvc_vjac_bou_sv() { vjac<true,false,true>(); }
void fvc_interior_1_cv() { VJAC(false,true,0,1); interior<false,true>(); }
void fvc_interior_2_cv() { VJAC(true,true,1,1); interior<true,true>(); }
void fvc_interior_1_sv() { VJAC(false,false,0,0); interior<false,false>(); }
void fvc_interior_2_sv() { VJAC(true,false,1,0); interior<true,false>(); }
void fvc_boundary_1_cv() { VJAC(false,true,0,1); boundary<false,true>(); }
void fvc_boundary_2_cv() { VJAC(true,true,1,1); boundary<true,true>(); }
void fvc_boundary_1_sv() { VJAC(false,false,0,0); boundary<false,false>(); }
void fvc_boundary_2_sv() { VJAC(true,false,1,0); boundary<true,false>(); }
void fvc_ghosts() { ghosts(); }
}
