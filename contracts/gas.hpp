/* Common symbolic inputs: the gas, admissible states, unit normals. */
#ifndef FV_GAS_HPP
#define FV_GAS_HPP
#include "fvspec.hpp"
#include "physics/aphysics.hpp"
#include "spatial/anumericalflux.hpp"
#include <cmath>
using namespace fvens;

static inline double fv_gamma() { double g = fv_real("g",1.1,2.0); fv_assume(g>1); return g; }

static inline IdealGasPhysics<double> fv_gas()
{
	const double g = fv_gamma();
	const double minf = fv_real("Minf",0.1,2); fv_assume(minf>0);
	const double tinf = fv_real("Tinf",200,300); fv_assume(tinf>0);
	const double re = fv_real("Re",10,100); fv_assume(re>0);
	const double pr = fv_real("Pr",0.5,1); fv_assume(pr>0);
	return IdealGasPhysics<double>(g,minf,tinf,re,pr);
}

/* any conserved state with positive density and pressure, given through density, velocity and sound speed
 * (p = rho c^2 / g covers every positive pressure) */
struct FvState { double r, vx, vy, c, p, vn; };
static inline FvState fv_state(const char *n, double g, double *u)
{
	FvState s;
	s.r = fv_real_i(n,0,0.3,3); s.vx = fv_real_i(n,1,-2.5,2.5); s.vy = fv_real_i(n,2,-2.5,2.5); s.c = fv_real_i(n,3,0.3,2);
	fv_assume(s.r>0); fv_assume(s.c>0);
	s.p = s.r*s.c*s.c/g;
	u[0]=s.r; u[1]=s.r*s.vx; u[2]=s.r*s.vy; u[3]=s.p/(g-1)+0.5*s.r*(s.vx*s.vx+s.vy*s.vy);
	return s;
}

/* the same, the velocity given by its components vn along the unit vector n and vt along (-n1,n0) */
static inline FvState fv_state_n(const char *nm, double g, const double *n, double *u)
{
	FvState s;
	s.r = fv_real_i(nm,0,0.3,3); s.c = fv_real_i(nm,3,0.3,2);
	s.vn = fv_real_i(nm,1,-2.5,2.5); const double vt = fv_real_i(nm,2,-2.5,2.5);
	s.vx = s.vn*n[0] - vt*n[1]; s.vy = s.vn*n[1] + vt*n[0];
	fv_assume(s.r>0); fv_assume(s.c>0);
	s.p = s.r*s.c*s.c/g;
	u[0]=s.r; u[1]=s.r*s.vx; u[2]=s.r*s.vy; u[3]=s.p/(g-1)+0.5*s.r*(s.vn*s.vn+vt*vt);
	return s;
}

/* the same, given by density, velocity components along n and (-n1,n0), and the critical sound speed cs,
 * cs^2 = 2/(g+1) c^2 + (g-1)/(g+1) |v|^2; s.c is then the critical speed */
static inline FvState fv_state_cs(const char *nm, double g, const double *n, double *u)
{
	FvState s;
	s.r = fv_real_i(nm,0,0.3,3); s.c = fv_real_i(nm,3,0.6,2);
	s.vn = fv_real_i(nm,1,-2.5,2.5); const double vt = fv_real_i(nm,2,-1.,1.);
	s.vx = s.vn*n[0] - vt*n[1]; s.vy = s.vn*n[1] + vt*n[0];
	fv_assume(s.r>0); fv_assume(s.c>0);
	const double c2 = s.c*s.c*(g+1)/2 - (g-1)/2*(s.vn*s.vn+vt*vt);
	fv_assume(c2>0);
	s.p = s.r*c2/g;
	u[0]=s.r; u[1]=s.r*s.vx; u[2]=s.r*s.vy; u[3]=s.p/(g-1)+0.5*s.r*(s.vn*s.vn+vt*vt);
	return s;
}

/* any conserved state with positive density and pressure, given by its conserved variables n0..n3 */
static inline double fv_cons(const char *n, double g, double *u)
{
	u[0] = fv_real_i(n,0,0.3,3); u[1] = fv_real_i(n,1,-2,2); u[2] = fv_real_i(n,2,-2,2); u[3] = fv_real_i(n,3,0.5,9);
	fv_assume(u[0]>0);
	const double p = (g-1)*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0]);
	fv_assume(p>0);
	if(fv_native()) fv_assume(p>0.02);
	return p;
}

/* the physical flux of a state through the unit normal n: the specification, written from the Euler equations */
static inline void fv_euler_flux(const FvState& s, const double *u, const double *n, double *f)
{
	const double vn = s.vx*n[0]+s.vy*n[1];
	f[0] = s.r*vn; f[1] = s.r*vn*s.vx + s.p*n[0]; f[2] = s.r*vn*s.vy + s.p*n[1]; f[3] = vn*(u[3]+s.p);
}
#endif
