/* Jacobians of the stress tensor and the viscous flux. */
#include "gas.hpp"
#include "physics/viscousphysics.hpp"
/* contract of getJacobianSutherlandViscosityWrtConserved: the derivative of Sutherland's law is added.  The function itself
 * is judged under C06, where it is a known finding; here its callers are checked against the contract. */
static void dviscosity(const IdealGasPhysics<double> *ph, const double *u, double *d)
{
	double dt[4] = {0,0,0,0};
	ph->getJacobianTemperatureWrtConserved(u,dt);
	const double T = ph->getTemperatureFromConserved(u), S = 110.5/ph->Tinf;
	for(int i=0;i<4;i++) d[i] += (1+S)/ph->Reinf*sqrt(T)*(1.5*(T+S)-T)/((T+S)*(T+S))*dt[i];
}
/* face gradient that depends on the two states in an arbitrary differentiable way: value gr and derivatives dl, dr are
 * independent inputs; the function differentiated is gr + dl (u-u0) + dr (w-w0) at u = u0, w = w0 */
template<bool cv> static void jac()
{
	const IdealGasPhysics<double> ph = fv_gas();
	if(!cv) fv_contract("_ZNK5fvens15IdealGasPhysicsIdE42getJacobianSutherlandViscosityWrtConservedEPKdPd",(void*)dviscosity);
	double u[4], w[4], u0[4], w0[4], gr[2][4], gx[2][4], dl[2][4][4], dr[2][4][4], n[2], a[16], b[16], f[4];
	fv_cons("ul",ph.g,u0); fv_cons("ur",ph.g,w0);
	n[0] = fv_real("nx",-1,1); n[1] = fv_real("ny",-1,1);
	/* u = u0 + eps with eps zero: differentiate with respect to eps */
	for(int i=0;i<4;i++) { u[i] = u0[i] + fv_real_i("el",i,0,0); w[i] = w0[i] + fv_real_i("er",i,0,0); }
	if(!fv_native()) for(int i=0;i<4;i++) { fv_assume(fv_real_i("el",i,0,0)==0); fv_assume(fv_real_i("er",i,0,0)==0); }
	for(int d=0;d<2;d++) for(int j=0;j<4;j++) {
		gr[d][j] = gx[d][j] = fv_real_i("gr",4*d+j,-1,1);
		for(int k=0;k<4;k++) {
			dl[d][j][k] = fv_real_i("dl",16*d+4*j+k,-1,1); dr[d][j][k] = fv_real_i("dr",16*d+4*j+k,-1,1);
			gx[d][j] += dl[d][j][k]*fv_real_i("el",k,0,0) + dr[d][j][k]*fv_real_i("er",k,0,0);
		}
	}
	for(int i=0;i<16;i++) { a[i] = b[i] = 0; }
	computeViscousFluxJacobian<double,2,4,cv>(ph,n,u0,w0,gr,dl,dr,a,b);
	computeViscousFlux<double,2,4,cv>(ph,n,gx,u,w,f);
	/* convention of the assembly: minus the derivative with respect to the left state, plus that with respect to the right */
	for(int i=0;i<4;i++) for(int k=0;k<4;k++) {
		fv_ensure_eq(a[4*i+k],-fv_diff_i(f[i],"el",k),"derivative with respect to the left state");
		fv_ensure_eq(b[4*i+k],fv_diff_i(f[i],"er",k),"derivative with respect to the right state");
	}
	fv_reach("end");
}
extern "C" {
void fvc_stress()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double mu = fv_real("mu",0.1,1), m = mu, gr[2][4], gx[2][4], dm[4], dg[2][4][4], s[2][2], t[2][2], ds[2][2][4];
	for(int k=0;k<4;k++) { dm[k] = fv_real_i("dm",k,-1,1); if(!fv_native()) fv_assume(fv_real_i("e",k,0,0)==0); m += dm[k]*fv_real_i("e",k,0,0); }
	for(int d=0;d<2;d++) for(int j=0;j<4;j++) {
		gr[d][j] = gx[d][j] = fv_real_i("gr",4*d+j,-1,1);
		for(int k=0;k<4;k++) { dg[d][j][k] = fv_real_i("dg",16*d+4*j+k,-1,1); gx[d][j] += dg[d][j][k]*fv_real_i("e",k,0,0); }
	}
	ph.getJacobianStress(mu,dm,gr,dg,s,ds);
	ph.getStressTensor(m,gx,t);
	for(int i=0;i<2;i++) for(int j=0;j<2;j++) {
		fv_ensure_eq(s[i][j],t[i][j],"stress of the Jacobian routine");
		for(int k=0;k<4;k++) fv_ensure_eq(ds[i][j][k],fv_diff_i(t[i][j],"e",k),"derivative of the stress");
	}
	fv_reach("end");
}
void fvc_flux_const() { jac<true>(); }
void fvc_flux_sutherland() { jac<false>(); }
}
