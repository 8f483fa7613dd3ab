/* Jacobians of the ghost states: the same ghost state, and its exact derivative. */
#include "gas.hpp"
#include "spatial/abc.hpp"
static void jac(const IdealGasPhysics<double>& ph, const FlowBC<double>& bc, const bool outflow = false)
{
	double u[4], n[2], w[4], w2[4], d[16]; fv_unit2("n",n);
	fv_cons("u",ph.g,u);
	if(outflow) {   /* the ghost state is not differentiable at zero and sonic normal velocity */
		const double vn = u[1]*n[0]+u[2]*n[1], c2 = ph.g*(ph.g-1)*(u[3]*u[0]-0.5*(u[1]*u[1]+u[2]*u[2]));
		fv_assume(vn < 0 || vn > 0); fv_assume(vn < 0 || vn*vn < c2 || vn*vn > c2);
	}
	for(int i=0;i<16;i++) d[i] = fv_real_i("a",i,-1,1);
	bc.computeGhostState(u,n,w);
	bc.computeGhostStateAndJacobian(u,n,w2,d);
	for(int i=0;i<4;i++) {
		fv_ensure_eq(w2[i],w[i],"ghost state of the Jacobian routine");
		for(int k=0;k<4;k++) fv_ensure_eq(d[i*4+k],fv_diff_i(w[i],"u",k),"derivative of the ghost state");
	}
	fv_reach("end");
}
extern "C" {
void fvc_slipwall() { const IdealGasPhysics<double> ph = fv_gas(); Slipwall<double> bc(1,ph); jac(ph,bc); }
void fvc_adiabaticwall2d() { const IdealGasPhysics<double> ph = fv_gas(); Adiabaticwall2D<double> bc(1,ph,fv_real("vt",-1,1)); jac(ph,bc); }
void fvc_adiabaticwall() { const IdealGasPhysics<double> ph = fv_gas();
	const std::array<double,2> v = {fv_real("vx",-1,1),fv_real("vy",-1,1)}; Adiabaticwall<double> bc(1,ph,v); jac(ph,bc); }
void fvc_isothermalwall() { const IdealGasPhysics<double> ph = fv_gas(); const double T = fv_real("Tw",0.5,2); fv_assume(T>0);
	Isothermalwall2D<double> bc(1,ph,fv_real("vt",-1,1),T); jac(ph,bc); }
void fvc_farfield() { const IdealGasPhysics<double> ph = fv_gas(); double f[4]; fv_state("f",ph.g,f);
	const std::array<double,4> uf = {f[0],f[1],f[2],f[3]}; Farfield<double> bc(1,ph,uf); jac(ph,bc); }
void fvc_extrapolation() { const IdealGasPhysics<double> ph = fv_gas(); Extrapolation<double> bc(1,ph); jac(ph,bc); }
void fvc_inoutflow() { const IdealGasPhysics<double> ph = fv_gas(); double d[2]; fv_unit2("d",d);
	/* the far-field state of the solver is the free stream, whose direction is arbitrary */
	const std::array<double,4> uf = {1.0,d[0],d[1],1.0/(ph.g*ph.Minf*ph.Minf)/(ph.g-1)+0.5};
	InOutFlow<double> bc(1,ph,uf); jac(ph,bc,true); }
}
