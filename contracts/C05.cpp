/* The gas model: conversions between variable sets, thermodynamic relations, free stream. */
#include "gas.hpp"
extern "C" {
void fvc_conversions()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], q[4], b[4];
	const FvState s = fv_state("u",ph.g,u);
	ph.getPrimitiveFromConserved(u,q);
	fv_ensure_eq(q[0],s.r,"primitive density"); fv_ensure_eq(q[1],s.vx,"primitive x velocity");
	fv_ensure_eq(q[2],s.vy,"primitive y velocity"); fv_ensure_eq(q[3],s.p,"primitive pressure");
	ph.getConservedFromPrimitive(q,b);
	for(int i=0;i<4;i++) fv_ensure_eq(b[i],u[i],"conserved from primitive inverts primitive from conserved");
	fv_ensure_eq(ph.getEnergyFromPrimitive(q),u[3],"total energy from primitive");
	/* in place */
	double w[4] = {u[0],u[1],u[2],u[3]};
	ph.getPrimitiveFromConserved(w,w);
	for(int i=0;i<4;i++) fv_ensure_eq(w[i],q[i],"in-place primitive from conserved");
	ph.getConservedFromPrimitive(w,w);
	for(int i=0;i<4;i++) fv_ensure_eq(w[i],u[i],"in-place conserved from primitive");
	double t[4], t2[4] = {u[0],u[1],u[2],u[3]};
	ph.getPrimitive2FromConserved(u,t);
	fv_ensure_eq(t[0],s.r,"primitive-2 density"); fv_ensure_eq(t[1],s.vx,"primitive-2 x velocity");
	fv_ensure_eq(t[2],s.vy,"primitive-2 y velocity");
	fv_ensure_eq(t[3],ph.g*ph.Minf*ph.Minf*s.p/s.r,"primitive-2 temperature");
	fv_ensure_eq(ph.getEnergyFromPrimitive2(t),u[3],"total energy from primitive-2");
	ph.getPrimitive2FromConserved(t2,t2);
	for(int i=0;i<4;i++) fv_ensure_eq(t2[i],t[i],"in-place primitive-2 from conserved");
	fv_ensure_eq(ph.getDensityFromPressureTemperature(s.p,t[3]),s.r,"density from pressure and temperature");
	fv_ensure_eq(ph.getTemperatureFromPrimitive(q),t[3],"temperature from primitive");
	fv_ensure_eq(ph.getTemperatureFromConserved(u),t[3],"temperature from conserved");
	fv_ensure_eq(ph.getEnergyFromTemperature(t[3],s.r,s.vx*s.vx+s.vy*s.vy),u[3],"energy from temperature");
	fv_ensure_eq(ph.getEnergyFromPressure(s.p,s.r,s.vx*s.vx+s.vy*s.vy),u[3],"energy from pressure");
	fv_reach("end");
}
void fvc_thermodynamics()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4];
	const FvState s = fv_state("u",ph.g,u);
	fv_ensure_eq(ph.getPressureFromConserved(u),s.p,"pressure");
	fv_ensure_eq(ph.getPressure(u[3]-0.5*s.r*(s.vx*s.vx+s.vy*s.vy)),s.p,"pressure from internal energy");
	fv_ensure_eq(ph.getSoundSpeed(s.r,s.p),s.c,"sound speed");
	fv_ensure_eq(ph.getSoundSpeedFromConserved(u),s.c,"sound speed from conserved");
	fv_ensure_eq(ph.getTemperature(s.r,s.p),ph.g*ph.Minf*ph.Minf*s.p/s.r,"temperature");
	fv_reach("end");
}
void fvc_entropy()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4];
	const FvState s = fv_state("u",ph.g,u);
	fv_ensure_eq(ph.getEntropyFromConserved(u)*pow(s.r,ph.g), s.p, "entropy");
	fv_reach("end");
}
void fvc_flux()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], n[2], f[4], ex[4], v[2], vn, p, H;
	const FvState s = fv_state("u",ph.g,u);
	n[0] = fv_real("nx",-1,1); n[1] = fv_real("ny",-1,1);     /* any vector, unit or not */
	fv_euler_flux(s,u,n,ex);
	ph.getDirectionalFluxFromConserved(u,n,f);
	for(int i=0;i<4;i++) fv_ensure_eq(f[i],ex[i],"directional flux from conserved");
	ph.getDirectionalFlux(u,n,s.vx*n[0]+s.vy*n[1],s.p,f);
	for(int i=0;i<4;i++) fv_ensure_eq(f[i],ex[i],"directional flux");
	ph.getVarsFromConserved(u,n,v,vn,p,H);
	fv_ensure_eq(v[0],s.vx,"x velocity"); fv_ensure_eq(v[1],s.vy,"y velocity");
	fv_ensure_eq(vn,s.vx*n[0]+s.vy*n[1],"normal velocity"); fv_ensure_eq(p,s.p,"pressure");
	fv_ensure_eq(H,(u[3]+s.p)/s.r,"specific total enthalpy");
	fv_reach("end");
}
void fvc_freestream()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double a = fv_real("aoa",-3,3);
	const std::array<double,4> u = ph.compute_freestream_state(a);
	fv_ensure_eq(u[0],1,"unit free-stream density");
	fv_ensure_eq(u[1],cos(a),"free-stream x momentum"); fv_ensure_eq(u[2],sin(a),"free-stream y momentum");
	const double p = (ph.g-1)*(u[3]-0.5);
	fv_ensure_eq(p,1/(ph.g*ph.Minf*ph.Minf),"free-stream pressure");
	fv_ensure_eq(ph.getFreestreamPressure(),p,"free-stream pressure function");
	fv_ensure_eq(ph.getTemperatureFromConserved(&u[0]),1,"unit free-stream temperature");
	const double c = ph.getSoundSpeedFromConserved(&u[0]);
	fv_ensure_eq(c*ph.Minf,1,"free-stream Mach number");
	fv_ensure_eq(ph.getViscosityCoeffFromTemperature(1),1/ph.Reinf,"free-stream viscosity");
	fv_ensure_eq(ph.getConstantViscosityCoeff(),1/ph.Reinf,"constant viscosity");
	fv_ensure_eq(ph.getThermalConductivityFromViscosity(1/ph.Reinf),
	             1/(ph.Reinf*ph.Pr*(ph.g-1)*ph.Minf*ph.Minf),"thermal conductivity");
	fv_reach("end");
}
void fvc_sutherland()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double T = fv_real("T",0.5,2); fv_assume(T>0);
	/* dimensional law: mu/mu_inf = (T/Tinf)^1.5 (Tinf+S)/(T+S), S = 110.5 K; T here is in units of Tinf */
	const double S = ph.sC;
	fv_ensure_eq(S,110.5,"Sutherland constant of air");
	const double rt = sqrt(T);
	fv_ensure_eq(ph.getViscosityCoeffFromTemperature(T),rt*T*(ph.Tinf+S)/(T*ph.Tinf+S)/ph.Reinf,"Sutherland's law");
	double u[4]; fv_state("u",ph.g,u);
	fv_ensure_eq(ph.getViscosityCoeffFromConserved(u),
	             ph.getViscosityCoeffFromTemperature(ph.getTemperatureFromConserved(u)),"viscosity of a state");
	fv_reach("end");
}
/* the exact change of pressure under a finite change of state */
void fvc_deltapressure()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], w[4], d[4];
	const FvState s = fv_state("u",ph.g,u), t = fv_state("w",ph.g,w);
	for(int i=0;i<4;i++) d[i] = w[i]-u[i];
	fv_ensure_eq(ph.getDeltaPressureFromConserved(u,d),t.p-s.p,"finite pressure change");
	fv_reach("end");
}
void fvc_deltapressure_zero()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], d[4] = {0,0,0,0};
	fv_state("u",ph.g,u);
	fv_ensure_eq(ph.getDeltaPressureFromConserved(u,d),0,"no change of state, no change of pressure");
	fv_reach("end");
}
}
