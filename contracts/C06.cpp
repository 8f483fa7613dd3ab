/* Derivatives of the thermodynamic functions: each equals the derivative of the function it differentiates. */
#include "gas.hpp"
#define NV 4
static void init(double *a, int n) { for(int i=0;i<n;i++) a[i] = fv_real_i("a",i,-1,1); }
/* out - initial contents = derivative of f wrt the conserved variables */
static void grad_of(double f, const double *d, const double *a, const char *label)
{
	for(int k=0;k<NV;k++) fv_ensure_eq(d[k]-(a ? a[k] : 0),fv_diff_i(f,"u",k),label);
}
extern "C" {
void fvc_pressure()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4]; fv_cons("u",ph.g,u);
	const double p = ph.getPressureFromConserved(u);
	ph.getJacobianPressureWrtConserved(u,d);
	grad_of(p,d,0,"pressure derivative");
	ph.getJacobianPressureWrtConserved(u,u[1]*u[1]+u[2]*u[2],d);
	grad_of(p,d,0,"pressure derivative (given momentum magnitude)");
	fv_reach("end");
}
void fvc_temperature()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], a[4]; fv_cons("u",ph.g,u);
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianTemperatureWrtConserved(u,d);
	grad_of(ph.getTemperatureFromConserved(u),d,a,"temperature derivative (added)");
	fv_reach("end");
}
void fvc_soundspeed()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], a[4]; fv_cons("u",ph.g,u);
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianSoundSpeedWrtConserved(u,d);
	grad_of(ph.getSoundSpeedFromConserved(u),d,a,"sound speed derivative (added)");
	fv_reach("end");
}
void fvc_machnormal()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], a[4]; fv_cons("u",ph.g,u);
	const double n[2] = {fv_real("nx",-1,1),fv_real("ny",-1,1)};
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianMachNormalWrtConserved(u,n,d);
	grad_of((u[1]*n[0]+u[2]*n[1])/u[0]/ph.getSoundSpeedFromConserved(u),d,a,"normal Mach number derivative (added)");
	fv_reach("end");
}
void fvc_vmag2()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], a[4]; fv_cons("u",ph.g,u);
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianVmag2WrtConserved(u,d);
	grad_of((u[1]*u[1]+u[2]*u[2])/(u[0]*u[0]),d,a,"squared speed derivative (added)");
	fv_reach("end");
}
void fvc_vars()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4]; fv_cons("u",ph.g,u);
	const double n[2] = {fv_real("nx",-1,1),fv_real("ny",-1,1)};
	double v[2], vn, p, H, dv[8], dvn[4], dp[4], dH[4];
	for(int i=0;i<8;i++) dv[i]=0;
	for(int i=0;i<4;i++) dvn[i]=dp[i]=dH[i]=0;
	ph.getVarsFromConserved(u,n,v,vn,p,H);
	ph.getJacobianVarsWrtConserved(u,n,dv,dvn,dp,dH);
	grad_of(v[0],dv,0,"x velocity derivative"); grad_of(v[1],dv+4,0,"y velocity derivative");
	grad_of(vn,dvn,0,"normal velocity derivative"); grad_of(p,dp,0,"pressure derivative"); grad_of(H,dH,0,"enthalpy derivative");
	fv_reach("end");
}
void fvc_directionalflux()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4]; fv_cons("u",ph.g,u);
	const double n[2] = {fv_real("nx",-1,1),fv_real("ny",-1,1)};
	double f[4], d[16];
	ph.getDirectionalFluxFromConserved(u,n,f);
	ph.getJacobianDirectionalFluxWrtConserved(u,n,d);
	for(int i=0;i<4;i++) grad_of(f[i],d+4*i,0,"directional flux derivative");
	fv_reach("end");
}
void fvc_primitive2()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], t[4], d[16], a[16]; fv_cons("u",ph.g,u);
	init(a,16); for(int i=0;i<16;i++) d[i] = a[i];
	ph.getPrimitive2FromConserved(u,t);
	ph.getJacobianPrimitive2WrtConserved(u,d);
	for(int i=0;i<4;i++) grad_of(t[i],d+4*i,a+4*i,"primitive-2 derivative (added)");
	fv_reach("end");
}
void fvc_viscosity()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], a[4]; fv_cons("u",ph.g,u);
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	const double mu = ph.getViscosityCoeffFromConserved(u);
	ph.getJacobianSutherlandViscosityWrtConserved(u,d);
	grad_of(mu,d,a,"viscosity derivative (added)");
	fv_reach("end");
}
void fvc_viscosity_direction()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], dt[4]; fv_cons("u",ph.g,u);
	for(int i=0;i<4;i++) d[i] = dt[i] = 0;
	ph.getJacobianSutherlandViscosityWrtConserved(u,d);
	ph.getJacobianTemperatureWrtConserved(u,dt);
	/* the viscosity depends on the temperature only */
	for(int i=0;i<4;i++) for(int j=0;j<i;j++) fv_ensure_eq(d[i]*dt[j],d[j]*dt[i],"viscosity derivative parallel to temperature derivative");
	fv_reach("end");
}
void fvc_viscosity_reference()
{
	/* at the reference temperature, T = 1 */
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4], dt[4];
	const double r = fv_real("r",0.3,3), vx = fv_real("vx",-2,2), vy = fv_real("vy",-2,2); fv_assume(r>0);
	u[0] = r; u[1] = r*vx; u[2] = r*vy; u[3] = r/(ph.g*ph.Minf*ph.Minf)/(ph.g-1)+0.5*r*(vx*vx+vy*vy);
	for(int i=0;i<4;i++) d[i] = dt[i] = 0;
	ph.getJacobianSutherlandViscosityWrtConserved(u,d);
	ph.getJacobianTemperatureWrtConserved(u,dt);
	const double S = 110.5/ph.Tinf;
	for(int i=0;i<4;i++) fv_ensure_eq(d[i],(1.5*(1+S)-1)/((1+S)*ph.Reinf)*dt[i],"viscosity derivative at the reference temperature");
	fv_reach("end");
}
void fvc_conductivity()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double m[4], dk[4]; init(m,4);
	ph.getJacobianThermCondWrtConservedFromJacobianSutherViscWrtConserved(m,dk);
	/* the conductivity is linear in the viscosity */
	for(int i=0;i<4;i++) fv_ensure_eq(dk[i],ph.getThermalConductivityFromViscosity(m[i]),"conductivity derivative");
	fv_reach("end");
}
/* chain rules: the functions taking the derivatives of their arguments */
void fvc_chain()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], a[4], d[4], da[4], db[4]; const double p = fv_cons("u",ph.g,u);
	/* two arbitrary smooth functions of the state with all derivatives nonzero, both positive */
	const double T = ph.getTemperatureFromConserved(u), q = (u[1]*u[1]+u[2]*u[2])/(u[0]*u[0]);
	for(int i=0;i<4;i++) da[i]=db[i]=0;
	ph.getJacobianTemperatureWrtConserved(u,da); ph.getJacobianVmag2WrtConserved(u,db);
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianEnergyFromJacobiansTemperatureVmag2(T,u[0],q,da,db,d);
	grad_of(ph.getEnergyFromTemperature(T,u[0],q),d,a,"energy derivative from temperature and speed");
	double dp[4]; ph.getJacobianPressureWrtConserved(u,dp);
	const double w = p*u[0], z = T*T+q; double dw[4], dz[4];
	for(int k=0;k<4;k++) { dw[k] = dp[k]*u[0] + (k==0 ? p : 0); dz[k] = 2*T*da[k]+db[k]; }
	for(int i=0;i<4;i++) d[i] = a[i];
	ph.getJacobianDensityFromJacobiansPressureTemperature(w,z,dw,dz,d);
	grad_of(ph.getDensityFromPressureTemperature(w,z),d,a,"density derivative from pressure and temperature");
	fv_reach("end");
}
/* spatial derivatives: chain rule along a direction in which the conserved variables vary with slopes s */
void fvc_gradients()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], s[4], t[4], gp[4], gt[4]; fv_cons("u",ph.g,u);
	for(int i=0;i<4;i++) s[i] = fv_real_i("s",i,-2,2);
	const double p = ph.getPressureFromConserved(u), T = ph.getTemperatureFromConserved(u);
	double gradp = 0, gradT = 0, gradprim[4] = {0,0,0,0};
	ph.getPrimitive2FromConserved(u,t);
	for(int k=0;k<4;k++) {
		gradp += fv_diff_i(p,"u",k)*s[k]; gradT += fv_diff_i(T,"u",k)*s[k];
		for(int i=0;i<4;i++) gradprim[i] += fv_diff_i(t[i],"u",k)*s[k];
	}
	fv_ensure_eq(ph.getGradPressureFromConservedAndGradConserved(u,s),gradp,"pressure gradient");
	fv_ensure_eq(ph.getGradTemperatureFromConservedAndGradConserved(u,s),gradT,"temperature gradient");
	fv_ensure_eq(ph.getGradTemperature(u[0],s[0],p,gradp),gradT,"temperature gradient from density and pressure");
	gp[0]=s[0]; gp[1]=gradprim[1]; gp[2]=gradprim[2]; gp[3]=gradp;
	fv_ensure_eq(ph.getGradTemperatureFromConservedAndGradPrimitive(u,gp),gradT,"temperature gradient from primitive gradients");
	ph.getGradPrimitive2FromConservedAndGradConserved(u,s,gt);
	for(int i=0;i<4;i++) fv_ensure_eq(gt[i],gradprim[i],"primitive-2 gradients");
	for(int i=0;i<4;i++) gt[i] = s[i];
	ph.getGradPrimitive2FromConservedAndGradConserved(u,gt,gt);
	for(int i=0;i<4;i++) fv_ensure_eq(gt[i],gradprim[i],"primitive-2 gradients in place");
	fv_reach("end");
}
void fvc_quotient()
{
	double x[4], y[4], d[4], a[4];
	const double f = fv_real("f",1,2), g = fv_real("h",1,2); fv_assume(g>0);
	for(int i=0;i<4;i++) { x[i] = fv_real_i("x",i,-1,1); y[i] = fv_real_i("y",i,-1,1); }
	init(a,4); for(int i=0;i<4;i++) d[i] = a[i];
	getQuotientDerivatives(f,x,g,y,d);
	for(int i=0;i<4;i++) fv_ensure_eq(d[i]-a[i],x[i]/g-f*y[i]/(g*g),"quotient rule");
	fv_reach("end");
}
}
