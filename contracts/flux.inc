/* Contracts of the inviscid numerical fluxes (value). */
#include "gas.hpp"

template<class F> static void consistency()
{
	const IdealGasPhysics<double> ph = fv_gas(); F fl(&ph);
	double u[4], n[2], f[4], ex[4];
	const FvState s = fv_state("u",ph.g,u);
	fv_unit2("n",n);
	fl.get_flux(u,u,n,f);
	fv_euler_flux(s,u,n,ex);
	fv_ensure_eq(f[0],ex[0],"mass flux"); fv_ensure_eq(f[1],ex[1],"x momentum flux");
	fv_ensure_eq(f[2],ex[2],"y momentum flux"); fv_ensure_eq(f[3],ex[3],"energy flux");
	fv_reach("end");
}
#include "pair.inc"
/* Einfeldt's signal speeds and the contact speed between them; for these estimates sl < sm < sr (Batten et al. 1997),
 * which is assumed, not proved; sm != 0 (at sm = 0 both star states give the same flux) */
static inline void fv_contact_between(const FvPair& o, const double *u, const double *w)
{
	const double vl = o.l.vn, vr = o.r.vn;
	const double sl = fmin(vl-o.l.c, o.vn-o.c), sr = fmax(vr+o.r.c, o.vn+o.c);
	const double d = w[0]*(sr-vr) - u[0]*(sl-vl);
	fv_assume(d > 0);
	const double sm = (w[0]*vr*(sr-vr) - u[0]*vl*(sl-vl) + o.l.p - o.r.p)/d;
	fv_assume(sm - sl > 0); fv_assume(sr - sm > 0);
	fv_assume(sm != 0);
}
template<class F> static void conservation(bool split, bool roe)
{
	fv_split(split);
	const IdealGasPhysics<double> ph = fv_gas(); F fl(&ph);
	double u[4], w[4], n[2], m[2], f[4], b[4];
	fv_unit2("n",n);
	if(roe) { const FvPair o = fv_pair(ph.g,n,u,w); if(split) fv_contact_between(o,u,w); }
	else { fv_state_n("ul",ph.g,n,u); fv_state_n("ur",ph.g,n,w); }
	m[0] = -n[0]; m[1] = -n[1];
	fl.get_flux(u,w,n,f);
	fl.get_flux(w,u,m,b);
	fv_ensure_eq(f[0],-b[0],"mass flux"); fv_ensure_eq(f[1],-b[1],"x momentum flux");
	fv_ensure_eq(f[2],-b[2],"y momentum flux"); fv_ensure_eq(f[3],-b[3],"energy flux");
	fv_reach("end");
}
/* AUSM+: states given through the critical speeds; lower: which side has the lower interface sound speed */
static void conservation_ausmplus(bool left_lower)
{
	fv_split(true);
	const IdealGasPhysics<double> ph = fv_gas(); AUSMPlusFlux<double> fl(&ph);
	double u[4], w[4], n[2], m[2], f[4], b[4];
	fv_unit2("n",n);
	const FvState l = fv_state_cs("ul",ph.g,n,u), r = fv_state_cs("ur",ph.g,n,w);
	const double cl = l.c*l.c/fmax(l.c,l.vn), cr = r.c*r.c/fmax(r.c,-r.vn);
	if(left_lower) fv_assume(cr-cl > 0); else fv_assume(cl-cr > 0);
	m[0] = -n[0]; m[1] = -n[1];
	fl.get_flux(u,w,n,f);
	fl.get_flux(w,u,m,b);
	fv_ensure_eq(f[0],-b[0],"mass flux"); fv_ensure_eq(f[1],-b[1],"x momentum flux");
	fv_ensure_eq(f[2],-b[2],"y momentum flux"); fv_ensure_eq(f[3],-b[3],"energy flux");
	fv_reach("end");
}
/* no mass and no energy through a mirror */
template<class F> static void mirror()
{
	const IdealGasPhysics<double> ph = fv_gas(); F fl(&ph);
	double u[4], w[4], n[2], f[4];
	fv_unit2("n",n);
	fv_state_n("u",ph.g,n,u);
	const double mn = u[1]*n[0]+u[2]*n[1];
	w[0]=u[0]; w[1]=u[1]-2*mn*n[0]; w[2]=u[2]-2*mn*n[1]; w[3]=u[3];
	fl.get_flux(u,w,n,f);
	fv_ensure_eq(f[0],0,"mass flux through mirror"); fv_ensure_eq(f[3],0,"energy flux through mirror");
	fv_reach("end");
}
/* all signal speeds positive: the flux is the physical flux of the left state */
template<class F> static void upwind(double margin, bool rev)
{
	const IdealGasPhysics<double> ph = fv_gas(); F fl(&ph);
	double u[4], w[4], n[2], f[4], ex[4];
	fv_unit2("n",n);
	FvState l, r; double rvn = 0, rc = 0;
	if(margin < -1) { l = fv_state_cs("ul",ph.g,n,u); r = fv_state_cs("ur",ph.g,n,w); }
	else if(margin < 0) { l = fv_state_n("ul",ph.g,n,u); r = fv_state_n("ur",ph.g,n,w); }
	else {
		const FvPair o = fv_pair(ph.g,n,u,w); l = o.l; r = o.r; rvn = o.vn; rc = o.c;
		/* Roe's intermediate state is supersonic too */
		fv_assume((rev ? -o.vn : o.vn) - o.c > margin*o.c);
	}
	if(rev) { fv_assume(l.vn + l.c < 0); fv_assume(r.vn + r.c < 0); }
	else { fv_assume(l.vn - l.c > 0); fv_assume(r.vn - r.c > 0); }
	if(margin == 0.001) { FvPair o; o.l = l; o.r = r; o.vn = rvn; o.c = rc; fv_contact_between(o,u,w); }
	fl.get_flux(u,w,n,f);
	if(rev) fv_euler_flux(r,w,n,ex); else fv_euler_flux(l,u,n,ex);
	fv_ensure_eq(f[0],ex[0],"mass flux"); fv_ensure_eq(f[1],ex[1],"x momentum flux");
	fv_ensure_eq(f[2],ex[2],"y momentum flux"); fv_ensure_eq(f[3],ex[3],"energy flux");
	fv_reach("end");
}
extern "C" {
#define ALLF(X) X(llf,LocalLaxFriedrichsFlux) X(vanleer,VanLeerFlux) X(ausm,AUSMFlux) X(ausmplus,AUSMPlusFlux) \
	X(roe,RoeFlux) X(hll,HLLFlux) X(hllc,HLLCFlux)
#ifdef P_CONSISTENCY
#define D(n,F) void fvc_consistency_##n() { consistency<F<double>>(); }
ALLF(D)
#undef D
#endif
#ifdef P_CONSERVATION
void fvc_conservation_llf() { conservation<LocalLaxFriedrichsFlux<double>>(false,false); }
void fvc_conservation_vanleer() { conservation<VanLeerFlux<double>>(false,false); }
void fvc_conservation_ausm() { conservation<AUSMFlux<double>>(true,false); }
void fvc_conservation_ausmplus_l() { conservation_ausmplus(true); }
void fvc_conservation_ausmplus_r() { conservation_ausmplus(false); }
void fvc_conservation_roe() { conservation<RoeFlux<double>>(false,true); }
void fvc_conservation_hll() { conservation<HLLFlux<double>>(false,true); }
void fvc_conservation_hllc() { conservation<HLLCFlux<double>>(true,true); }
#define D(n,F) void fvc_mirror_##n() { mirror<F<double>>(); }
ALLF(D)
#undef D
#endif
#ifdef P_UPWIND
void fvc_upwind_vanleer() { upwind<VanLeerFlux<double>>(-1,false); }
void fvc_upwind_back_vanleer() { upwind<VanLeerFlux<double>>(-1,true); }
void fvc_upwind_ausm() { upwind<AUSMFlux<double>>(-1,false); }
void fvc_upwind_back_ausm() { upwind<AUSMFlux<double>>(-1,true); }
void fvc_upwind_ausmplus() { upwind<AUSMPlusFlux<double>>(-2,false); }
void fvc_upwind_back_ausmplus() { upwind<AUSMPlusFlux<double>>(-2,true); }
void fvc_upwind_roe() { upwind<RoeFlux<double>>(0.01,false); }
void fvc_upwind_back_roe() { upwind<RoeFlux<double>>(0.01,true); }
void fvc_upwind_hll() { upwind<HLLFlux<double>>(0,false); }
void fvc_upwind_back_hll() { upwind<HLLFlux<double>>(0,true); }
void fvc_upwind_hllc() { upwind<HLLCFlux<double>>(0,false); }
void fvc_upwind_back_hllc() { upwind<HLLCFlux<double>>(0.001,true); }
#endif
}
