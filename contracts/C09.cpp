/* Stress tensor and viscous flux. */
#include "gas.hpp"
#include "physics/viscousphysics.hpp"
extern "C" {
static void grads(double gr[2][4]) { for(int i=0;i<2;i++) for(int j=0;j<4;j++) gr[i][j] = fv_real_i("gr",4*i+j,-2,2); }
void fvc_stress()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double mu = fv_real("mu",0.1,1); double gr[2][4], s[2][2];
	for(int i=0;i<4;i++) s[i/2][i%2] = fv_real_i("s",i,-1,1);
	grads(gr);
	ph.getStressTensor(mu,gr,s);
	const double div = gr[0][1]+gr[1][2];
	fv_ensure_eq(s[0][0],mu*(2*gr[0][1]-2.0/3*div),"normal stress xx");
	fv_ensure_eq(s[1][1],mu*(2*gr[1][2]-2.0/3*div),"normal stress yy");
	fv_ensure_eq(s[0][1],mu*(gr[0][2]+gr[1][1]),"shear stress");
	fv_ensure_eq(s[1][0],s[0][1],"symmetry of the stress tensor");
	fv_reach("end");
}
}
template<bool cv> static void flux()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], w[4], gr[2][4], f[4], n[2];
	const FvState l = fv_state("ul",ph.g,u), r = fv_state("ur",ph.g,w);
	n[0] = fv_real("nx",-1,1); n[1] = fv_real("ny",-1,1);
	grads(gr);
	computeViscousFlux<double,2,4,cv>(ph,n,gr,u,w,f);
	const double g = ph.g, M2 = ph.Minf*ph.Minf;
	double mu;
	if(cv) mu = 1/ph.Reinf;
	else {
		const double S = 110.5/ph.Tinf;
		const double tl = g*M2*l.p/l.r, tr = g*M2*r.p/r.r;
		mu = 0.5*((1+S)/(tl+S)*tl*sqrt(tl) + (1+S)/(tr+S)*pow(tr,1.5))/ph.Reinf;
	}
	const double div = gr[0][1]+gr[1][2];
	const double txx = mu*(2*gr[0][1]-2.0/3*div), tyy = mu*(2*gr[1][2]-2.0/3*div), txy = mu*(gr[0][2]+gr[1][1]);
	const double k = mu/(M2*(g-1)*ph.Pr), vx = 0.5*(l.vx+r.vx), vy = 0.5*(l.vy+r.vy);
	/* the flux that leaves the left cell: minus the stress, minus work and conduction */
	fv_ensure_eq(f[0],0,"viscous mass flux");
	fv_ensure_eq(f[1],-(txx*n[0]+txy*n[1]),"viscous x momentum flux");
	fv_ensure_eq(f[2],-(txy*n[0]+tyy*n[1]),"viscous y momentum flux");
	fv_ensure_eq(f[3],-((txx*vx+txy*vy+k*gr[0][3])*n[0]+(txy*vx+tyy*vy+k*gr[1][3])*n[1]),"viscous energy flux");
	/* seen from the other side the same amount enters */
	double m[2] = {-n[0],-n[1]}, b[4];
	computeViscousFlux<double,2,4,cv>(ph,m,gr,w,u,b);
	for(int i=0;i<4;i++) fv_ensure_eq(f[i],-b[i],"viscous flux is conservative");
	/* uniform flow: no flux */
	double z[2][4] = {{0,0,0,0},{0,0,0,0}};
	computeViscousFlux<double,2,4,cv>(ph,n,z,u,w,f);
	for(int i=0;i<4;i++) fv_ensure_eq(f[i],0,"no viscous flux without gradients");
	fv_reach("end");
}
/* cell states and gradients in density, velocity, temperature */
template<bool second> static void prim2()
{
	const IdealGasPhysics<double> ph = fv_gas();
	double u[4], w[4], gl[8], gr[8], a[4], b[4], ga[8], gb[8];
	const FvState l = fv_state("ul",ph.g,u), r = fv_state("ur",ph.g,w);
	for(int i=0;i<8;i++) { gl[i] = fv_real_i("gl",i,-2,2); gr[i] = fv_real_i("gr",i,-2,2); }
	for(int i=0;i<8;i++) { ga[i] = fv_real_i("oa",i,-2,2); gb[i] = fv_real_i("ob",i,-2,2); }
	getPrimitive2StatesAndGradients<double,2,second>(ph,u,w,second ? gl : nullptr,second ? gr : nullptr,a,b,ga,gb);
	const double k = ph.g*ph.Minf*ph.Minf;
	const FvState st[2] = {l,r}; const double *pt[2] = {a,b}, *gi[2] = {gl,gr}, *go[2] = {ga,gb};
	for(int s=0;s<2;s++) {
		fv_ensure_eq(pt[s][0],st[s].r,"cell density"); fv_ensure_eq(pt[s][1],st[s].vx,"cell x velocity");
		fv_ensure_eq(pt[s][2],st[s].vy,"cell y velocity"); fv_ensure_eq(pt[s][3],k*st[s].p/st[s].r,"cell temperature");
		for(int d=0;d<2;d++) {
			if(second) {
				for(int j=0;j<3;j++) fv_ensure_eq(go[s][4*d+j],gi[s][4*d+j],"cell gradients of density and velocity");
				fv_ensure_eq(go[s][4*d+3],k*(gi[s][4*d+3]*st[s].r-st[s].p*gi[s][4*d])/(st[s].r*st[s].r),"cell temperature gradient");
			} else for(int j=0;j<4;j++) fv_ensure_eq(go[s][4*d+j],fv_real_i(s ? "ob" : "oa",4*d+j,-2,2),"gradients untouched at first order");
		}
	}
	fv_reach("end");
}
extern "C" {
void fvc_flux_const() { flux<true>(); }
void fvc_flux_sutherland() { flux<false>(); }
void fvc_prim2_second() { prim2<true>(); }
void fvc_prim2_first() { prim2<false>(); }
}
