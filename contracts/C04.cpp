/* Jacobians of the inviscid numerical fluxes. */
#include "gas.hpp"
#include "spatial/anumericalflux.hpp"
#include "pair.inc"
struct Pair { double u[4], w[4], n[2], a[16], b[16]; FvState l, r; double vn, c; };
static void inputs(const IdealGasPhysics<double>& ph, Pair& p, bool roe)
{
	fv_unit2("n",p.n);
	if(roe) { const FvPair q = fv_pair(ph.g,p.n,p.u,p.w); p.l = q.l; p.r = q.r; p.vn = q.vn; p.c = q.c; }
	else { p.l = fv_state_n("ul",ph.g,p.n,p.u); p.r = fv_state_n("ur",ph.g,p.n,p.w); }
	for(int i=0;i<16;i++) { p.a[i] = fv_real_i("a",i,-1,1); p.b[i] = fv_real_i("b",i,-1,1); }
}
/* convention: the left block is minus the derivative with respect to the left state.  The states are given by eight
 * parameters in a smooth bijection, so the blocks are the derivatives exactly if the chain rule holds for every parameter */
template<class F> static void exact(const F& flux, const IdealGasPhysics<double>& ph, bool roe, int fix = 0)
{
	fv_split(true);
	Pair p; double f[4];
	inputs(ph,p,roe);
	if(fix==3) {   /* the flux is not differentiable where the two spectral radii meet, or at zero normal velocity */
		const double x = std::fabs(p.l.vn)+p.l.c - (std::fabs(p.r.vn)+p.r.c);
		fv_assume(x < 0 || x > 0); fv_assume(p.l.vn < 0 || p.l.vn > 0); fv_assume(p.r.vn < 0 || p.r.vn > 0);
	}
	else if(fix) {
		/* is an eigenvalue of the Roe matrix within the entropy fix, whose relative width is 1e-4? */
		const double e = 1.0e-4*p.c;
		const bool in = std::fabs(p.vn) < e || std::fabs(p.vn-p.c) < e || std::fabs(p.vn+p.c) < e;
		fv_assume(fix==1 ? !in : in);
	}
	flux.get_flux(p.u,p.w,p.n,f);
	flux.get_jacobian(p.u,p.w,p.n,p.a,p.b);
	for(int s=0;s<2;s++) for(int m=0;m<4;m++) {
		const char *nm = s ? "ur" : "ul";
		double du[4], dw[4];
		for(int k=0;k<4;k++) { du[k] = fv_diff_i(p.u[k],nm,m); dw[k] = fv_diff_i(p.w[k],nm,m); }
		for(int i=0;i<4;i++) {
			double d = 0;
			for(int k=0;k<4;k++) d += p.b[4*i+k]*dw[k] - p.a[4*i+k]*du[k];
			fv_ensure_eq(d,fv_diff_i(f[i],nm,m),s ? "derivative of the flux along right parameters" : "derivative of the flux along left parameters");
		}
	}
	fv_reach("end");
}
/* flux t1 F(w) + t2 F(u) - t3 (w-u) with t1, t2, t3 frozen */
static void frozen(const IdealGasPhysics<double>& ph, const Pair& p, const double *f, double t1, double t2, double t3)
{
	double A[16], B[16], F[4], G[4];
	for(int i=0;i<16;i++) A[i] = B[i] = 0;
	ph.getJacobianDirectionalFluxWrtConserved(p.u,p.n,A);
	ph.getJacobianDirectionalFluxWrtConserved(p.w,p.n,B);
	ph.getDirectionalFluxFromConserved(p.u,p.n,F);
	ph.getDirectionalFluxFromConserved(p.w,p.n,G);
	for(int i=0;i<4;i++) {
		fv_ensure_eq(f[i],t1*G[i]+t2*F[i]-t3*(p.w[i]-p.u[i]),"flux in terms of frozen wave speeds");
		for(int k=0;k<4;k++) {
			const double d = i==k ? t3 : 0;
			fv_ensure_eq(p.a[4*i+k],-(t2*A[4*i+k]+d),"left block is minus the derivative at frozen wave speeds");
			fv_ensure_eq(p.b[4*i+k],t1*B[4*i+k]-d,"right block is the derivative at frozen wave speeds");
		}
	}
	fv_reach("end");
}
extern "C" {
void fvc_llf()
{
	const IdealGasPhysics<double> ph = fv_gas();
	LocalLaxFriedrichsFlux<double> flux(&ph);
	Pair p; double f[4];
	inputs(ph,p,false);
	flux.get_flux(p.u,p.w,p.n,f);
	flux.get_jacobian(p.u,p.w,p.n,p.a,p.b);
	const FvState& l = p.l, &r = p.r;
	const double sl = std::fabs(l.vn)+l.c, sr = std::fabs(r.vn)+r.c;
	frozen(ph,p,f,0.5,0.5,0.5*(sl>=sr ? sl : sr));
}
void fvc_hll()
{
	fv_split(true);
	const IdealGasPhysics<double> ph = fv_gas();
	HLLFlux<double> flux(&ph);
	Pair p; double f[4];
	inputs(ph,p,true);
	flux.get_flux(p.u,p.w,p.n,f);
	flux.get_jacobian(p.u,p.w,p.n,p.a,p.b);
	const FvState& l = p.l, &r = p.r; const double vn = p.vn, c = p.c;
	double sl = l.vn-l.c, sr = r.vn+r.c;
	if(sl > vn-c) sl = vn-c;
	if(sr < vn+c) sr = vn+c;
	/* the flux of the upwind side, or the HLL average (sr Fl - sl Fr + sl sr (ur-ul))/(sr-sl) */
	if(sl > 0) frozen(ph,p,f,0,1,0);
	else if(sr <= 0) frozen(ph,p,f,1,0,0);
	else frozen(ph,p,f,-sl/(sr-sl),sr/(sr-sl),-sl*sr/(sr-sl));
}
void fvc_roe() { const IdealGasPhysics<double> ph = fv_gas(); exact(RoeFlux<double>(&ph),ph,true,1); }
void fvc_roe_entropyfix() { const IdealGasPhysics<double> ph = fv_gas(); exact(RoeFlux<double>(&ph),ph,true,2); }
struct FullLLF : LocalLaxFriedrichsFlux<double> {
	FullLLF(const IdealGasPhysics<double> *p) : LocalLaxFriedrichsFlux<double>(p) { }
	void get_jacobian(const double *l, const double *r, const double *n, double *a, double *b) const { get_jacobian_2(l,r,n,a,b); }
};
void fvc_llf_full() { const IdealGasPhysics<double> ph = fv_gas(); exact(FullLLF(&ph),ph,false,3); }
void fvc_hllc() { const IdealGasPhysics<double> ph = fv_gas(); exact(HLLCFlux<double>(&ph),ph,true); }
void fvc_ausm() { const IdealGasPhysics<double> ph = fv_gas(); exact(AUSMFlux<double>(&ph),ph,false); }
}
