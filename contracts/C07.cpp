/* Ghost states of the flow boundary conditions. */
#include "gas.hpp"
#include "spatial/abc.hpp"
extern "C" {
void fvc_slipwall()
{
	const IdealGasPhysics<double> ph = fv_gas();
	Slipwall<double> bc(1,ph);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	const FvState s = fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	fv_ensure_eq(w[0],u[0],"slip wall: density of the mirror state");
	fv_ensure_eq(w[1]*n[0]+w[2]*n[1],-(u[1]*n[0]+u[2]*n[1]),"slip wall: normal momentum is reversed");
	fv_ensure_eq(w[2]*n[0]-w[1]*n[1],u[2]*n[0]-u[1]*n[1],"slip wall: tangential momentum is kept");
	fv_ensure_eq(ph.getPressureFromConserved(w),s.p,"slip wall: pressure of the mirror state");
	fv_ensure_eq(w[3],u[3],"slip wall: energy of the mirror state");
	fv_reach("end");
}
static void noslip(const double *u, const double *w, double vx, double vy)
{
	fv_ensure_eq(0.5*(u[1]/u[0]+w[1]/w[0]),vx,"no-slip wall: x velocity at the wall is the wall's");
	fv_ensure_eq(0.5*(u[2]/u[0]+w[2]/w[0]),vy,"no-slip wall: y velocity at the wall is the wall's");
}
void fvc_adiabaticwall2d()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double vt = fv_real("vt",-1,1);
	Adiabaticwall2D<double> bc(1,ph,vt);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	fv_ensure_eq(w[0],u[0],"adiabatic wall: density");
	noslip(u,w,vt*n[1],-vt*n[0]);
	fv_reach("end");
}
void fvc_adiabaticwall2d_rest()
{
	const IdealGasPhysics<double> ph = fv_gas();
	Adiabaticwall2D<double> bc(1,ph,0);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	noslip(u,w,0,0);
	fv_ensure_eq(ph.getTemperatureFromConserved(w),ph.getTemperatureFromConserved(u),"adiabatic wall at rest: no temperature difference");
	fv_ensure_eq(ph.getPressureFromConserved(w),ph.getPressureFromConserved(u),"adiabatic wall at rest: no pressure difference");
	fv_reach("end");
}
void fvc_adiabaticwall2d_moving()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double vt = fv_real("vt",-1,1);
	Adiabaticwall2D<double> bc(1,ph,vt);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	fv_ensure_eq(ph.getTemperatureFromConserved(w),ph.getTemperatureFromConserved(u),"moving adiabatic wall: no temperature difference");
	fv_reach("end");
}
void fvc_adiabaticwall()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const std::array<double,2> v = {fv_real("vx",-1,1),fv_real("vy",-1,1)};
	Adiabaticwall<double> bc(1,ph,v);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	fv_ensure_eq(w[0],u[0],"adiabatic wall (general): density");
	noslip(u,w,v[0],v[1]);
	fv_ensure_eq(ph.getTemperatureFromConserved(w),ph.getTemperatureFromConserved(u),"adiabatic wall (general): no temperature difference");
	fv_reach("end");
}
void fvc_isothermalwall()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double vt = fv_real("vt",-1,1), T = fv_real("Tw",0.5,2); fv_assume(T>0);
	Isothermalwall2D<double> bc(1,ph,vt,T);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	noslip(u,w,vt*n[1],-vt*n[0]);
	fv_ensure_eq(0.5*(ph.getTemperatureFromConserved(u)+ph.getTemperatureFromConserved(w)),T,
	             "isothermal wall: temperature at the wall is the wall's");
	fv_reach("end");
}
void fvc_farfield()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double f[4]; fv_state("f",ph.g,f);
	const std::array<double,4> uf = {f[0],f[1],f[2],f[3]};
	Farfield<double> bc(1,ph,uf);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	for(int i=0;i<4;i++) fv_ensure_eq(w[i],f[i],"far field: ghost state is the far-field state");
	fv_reach("end");
}
void fvc_extrapolation()
{
	const IdealGasPhysics<double> ph = fv_gas();
	Extrapolation<double> bc(1,ph);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	fv_state("u",ph.g,u);
	bc.computeGhostState(u,n,w);
	for(int i=0;i<4;i++) fv_ensure_eq(w[i],u[i],"extrapolation: ghost state is the interior state");
	fv_reach("end");
}
void fvc_inoutflow()
{
	const IdealGasPhysics<double> ph = fv_gas();
	/* the far-field state of the solver is the free stream, whose direction is arbitrary */
	double d[2]; fv_unit2("d",d);
	const double pf = 1.0/(ph.g*ph.Minf*ph.Minf);
	const std::array<double,4> f = {1.0,d[0],d[1],pf/(ph.g-1)+0.5};
	InOutFlow<double> bc(1,ph,f);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	const FvState s = fv_state_n("u",ph.g,n,u);
	if(fv_native()) { fv_assume(std::fabs(s.vn) > 1e-6); fv_assume(std::fabs(s.vn-s.c) > 1e-6); }   /* rounding at the ties */
	bc.computeGhostState(u,n,w);
	if(s.vn <= 0) {
		for(int i=0;i<4;i++) fv_ensure_eq(w[i],f[i],"inflow: ghost state is the far-field state");
		fv_reach("inflow");
	} else if(s.vn < s.c) {
		for(int i=0;i<3;i++) fv_ensure_eq(w[i],u[i],"subsonic outflow: density and momentum from the interior");
		fv_ensure_eq(ph.getPressureFromConserved(w),pf,"subsonic outflow: pressure from the far field");
		fv_reach("subsonic");
	} else {
		for(int i=0;i<4;i++) fv_ensure_eq(w[i],u[i],"supersonic outflow: ghost state is the interior state");
		fv_reach("supersonic");
	}
	fv_reach("end");
}
void fvc_inflow()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double p0 = fv_real("pt",0.5,2), T0 = fv_real("Tt",0.8,2); fv_assume(p0>0); fv_assume(T0>0);
	InFlow<double> bc(1,ph,p0,T0);
	double u[4], n[2], w[4]; fv_unit2("n",n);
	const FvState s = fv_state_n("u",ph.g,n,u);
	/* subsonic inflow; the outgoing invariant, formed with the speed into the domain, and the stagnation sound speed */
	fv_assume(-s.vn > 0); fv_assume(s.vn + s.c > 0);
	const double g = ph.g, R = -s.vn - 2*s.c/(g-1), c02 = s.c*s.c+(g-1)/2*(s.vx*s.vx+s.vy*s.vy);
	const double disc = (g+1)*c02/((g-1)*R*R) - (g-1)/2;
	fv_assume(disc > 0);
	const double c = -R*(g-1)/(g+1)*(1+sqrt(disc));
	fv_assume(c02 - c*c > 0);   /* a subsonic inflow exists */
	bc.computeGhostState(u,n,w);
	const double M2 = ph.Minf*ph.Minf;
	const double T = ph.getTemperatureFromConserved(w), p = ph.getPressureFromConserved(w);
	fv_ensure_eq(T + (g-1)/2*M2*(w[1]*w[1]+w[2]*w[2])/(w[0]*w[0]),T0,"subsonic inflow: total temperature");
	fv_ensure_eq(p,p0*pow(T/T0,g/(g-1)),"subsonic inflow: total pressure");
	fv_ensure_eq(w[1]*n[1],w[2]*n[0],"subsonic inflow: normal to the boundary");
	fv_ensure_eq(w[1]*n[0]+w[2]*n[1],-w[0]*sqrt(2/(g-1)*T0/M2*(1-c*c/c02)),"subsonic inflow: into the domain");
	/* Mach number from the invariant and the stagnation sound speed */
	fv_ensure_eq(T,T0*c*c/c02,"subsonic inflow: outgoing invariant");
	fv_reach("end");
}
}
