/* Gradients at faces and the viscous face flux built from them. */
#include "ffv.inc"
#include "physics/viscousphysics.hpp"
typedef FlowFV<double,true,true> S2;
static void cells(double *xl, double *xr, double *d)
{
	for (int i = 0; i < 2; i++) { xl[i] = fv_real_i("xl",i,-1,1); xr[i] = fv_real_i("xr",i,-1,1); d[i] = xr[i]-xl[i]; }
	fv_assume(d[0]*d[0]+d[1]*d[1] > 0);
}
template <class S, int nv> static void modavg()
{
	const S *s = (const S*)calloc(1, sizeof(S));
	double xl[2], xr[2], d[2], ul[nv], ur[nv], gl[2*nv], gr[2*nv], g[2][nv], h[2][nv];
	cells(xl, xr, d);
	for (int i = 0; i < nv; i++) { ul[i] = fv_real_i("ul",i,-1,1); ur[i] = fv_real_i("ur",i,-1,1); }
	for (int i = 0; i < 2*nv; i++) { gl[i] = fv_real_i("gl",i,-1,1); gr[i] = fv_real_i("gr",i,-1,1); }
	s->getFaceGradient_modifiedAverage(xl, xr, ul, ur, gl, gr, g);
	s->getFaceGradient_modifiedAverage(xr, xl, ur, ul, gr, gl, h);
	for (int i = 0; i < nv; i++) {
		fv_ensure_eq(g[0][i]*d[0]+g[1][i]*d[1], ur[i]-ul[i], "gradient along the line of centres is the difference of the states");
		fv_ensure_eq(-g[0][i]*d[1]+g[1][i]*d[0], 0.5*(-(gl[i]+gr[i])*d[1]+(gl[nv+i]+gr[nv+i])*d[0]), "across it, the average of the cell gradients");
		for (int j = 0; j < 2; j++) fv_ensure_eq(g[j][i], h[j][i], "the same from both sides of the face");
	}
	fv_reach("end");
}
template <class S, int nv> static void thin()
{
	const S *s = (const S*)calloc(1, sizeof(S));
	double xl[2], xr[2], d[2], ul[nv], ur[nv], dul[nv*nv], dur[nv*nv], g[2][nv], dl[2][nv][nv], dr[2][nv][nv];
	cells(xl, xr, d);
	for (int i = 0; i < nv; i++) { ul[i] = fv_real_i("ul",i,-1,1); ur[i] = fv_real_i("ur",i,-1,1); }
	for (int i = 0; i < nv*nv; i++) { dul[i] = fv_real_i("dul",i,-1,1); dur[i] = fv_real_i("dur",i,-1,1); }
	s->getFaceGradientAndJacobian_thinLayer(xl, xr, ul, ur, dul, dur, g, dl, dr);
	for (int i = 0; i < nv; i++) {
		fv_ensure_eq(g[0][i]*d[0]+g[1][i]*d[1], ur[i]-ul[i], "thin-layer gradient along the line of centres");
		fv_ensure_eq(-g[0][i]*d[1]+g[1][i]*d[0], 0, "thin-layer gradient has no other component");
		for (int k = 0; k < nv; k++) {
			fv_ensure_eq(dl[0][i][k]*d[0]+dl[1][i][k]*d[1], -dul[i*nv+k], "its derivative with respect to the left state");
			fv_ensure_eq(-dl[0][i][k]*d[1]+dl[1][i][k]*d[0], 0, "its derivative with respect to the left state, across");
			fv_ensure_eq(dr[0][i][k]*d[0]+dr[1][i][k]*d[1], dur[i*nv+k], "its derivative with respect to the right state");
			fv_ensure_eq(-dr[0][i][k]*d[1]+dr[1][i][k]*d[0], 0, "its derivative with respect to the right state, across");
		}
	}
	fv_reach("end");
}
// The viscous face flux: Navier-Stokes flux (C09) of the modified-average gradient of the density-velocity-temperature states
template <bool o2, bool cv> static void vflux()
{
	typedef FlowFV<double,o2,cv> S;
	const IdealGasPhysics<double> ph = fv_gas();
	VMesh V = {};
	S *s = flowobj<S>(V, ph, nullptr, true);
	double xl[2], xr[2], d[2], n[2], cl[4], cr[4], ul[4], ur[4], vf[4], ex[4];
	GradBlock_t<double,2,4> gl, gr;
	cells(xl, xr, d);
	n[0] = fv_real("nx",-1,1); n[1] = fv_real("ny",-1,1);
	fv_state("cl", ph.g, cl); fv_state("cr", ph.g, cr); fv_state("ul", ph.g, ul); fv_state("ur", ph.g, ur);
	for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { gl(i,j) = fv_real_i("gl",4*i+j,-1,1); gr(i,j) = fv_real_i("gr",4*i+j,-1,1); }
	s->compute_viscous_flux(n, xl, xr, cl, cr, gl, gr, ul, ur, vf);
	// independent: states and cell gradients in density, velocity, temperature
	double tl[4], tr[4], a[8], g[2][4];
	ph.getPrimitive2FromConserved(cl, tl); ph.getPrimitive2FromConserved(cr, tr);
	for (int i = 0; i < 8; i++) a[i] = 0;
	if (o2)
		for (int k = 0; k < 2; k++) {
			const double *u = k ? cr : cl; const GradBlock_t<double,2,4>& G = k ? gr : gl;
			const double p = (ph.g-1)*(u[3]-0.5*(u[1]*u[1]+u[2]*u[2])/u[0]);
			for (int i = 0; i < 2; i++) {
				for (int j = 0; j < 3; j++) a[4*i+j] += 0.5*G(i,j);
				a[4*i+3] += 0.5*ph.Minf*ph.Minf*ph.g*(G(i,3)*u[0]-p*G(i,0))/(u[0]*u[0]);	// T = gamma Minf^2 p/rho
			}
		}
	const double d2 = d[0]*d[0]+d[1]*d[1];
	for (int j = 0; j < 4; j++) {
		const double c = (tr[j]-tl[j]-a[j]*d[0]-a[4+j]*d[1])/d2;
		g[0][j] = a[j] + c*d[0]; g[1][j] = a[4+j] + c*d[1];
	}
	computeViscousFlux<double,2,4,cv>(ph, n, g, ul, ur, ex);
	for (int i = 0; i < 4; i++) fv_ensure_eq(vf[i], ex[i], "viscous face flux is the Navier-Stokes flux of the face gradient");
	fv_reach("end");
}
extern "C" {
void fvc_modavg_flow() { modavg<S2,4>(); }
void fvc_modavg_scalar() { modavg<Spatial<double,1>,1>(); }
void fvc_thin_flow() { thin<S2,4>(); }
void fvc_thin_scalar() { thin<Spatial<double,1>,1>(); }
void fvc_vflux_1_cv() { vflux<false,true>(); }
void fvc_vflux_2_cv() { vflux<true,true>(); }
void fvc_vflux_1_sv() { vflux<false,false>(); }
void fvc_vflux_2_sv() { vflux<true,false>(); }
}
