/* Time-step limits: area over the sum of the face-integrated spectral radii, one contribution per face and side. */
#include "gas.hpp"
#include "mesh.inc"
#include "spatial/flow_spatial.hpp"
struct StepCase {
	VMesh V; double *ul, *ur, *hist, *dt; long J; bool visc, cv; double g; const IdealGasPhysics<double> *ph;
};
// integral over face f of the spectral radius of the flux Jacobian in state u, seen from a cell of the given area
static double specrad(const StepCase& C, const double *u, long f, double area)
{
	const double g = C.g, *n = C.V.fm+3*f, len = n[2];
	const double vn = (u[1]*n[0] + u[2]*n[1])/u[0];
	const double p = (g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]);
	const double s = (fabs(vn) + sqrt(g*p/u[0]))*len;
	if (!C.visc) return s;
	const double mu = C.cv ? C.ph->getConstantViscosityCoeff() : C.ph->getViscosityCoeffFromConserved(u);
	return s + fmax(4.0/(3*u[0]), g/u[0])*mu/C.ph->Pr*len*len/area;
}
static double faceadd(const StepCase& C, long f, double h)
{
	if (C.V.intfac[4*f] == C.J) h += specrad(C, C.ul+4*f, f, C.V.area[C.J]);
	if (C.V.intfac[4*f+1] == C.J) h += specrad(C, C.ur+4*f, f, C.V.area[C.J]);
	return h;
}
static void step_inv(void *ctx, long k, int phase)
{
	StepCase& C = *(StepCase*)ctx;
	double *integ = (double*)fv_loop_array(0);
	if (!integ) return;
	if (integ == C.dt) {	// the loop that divides
		if (C.J < k) fv_inv_eq(C.dt + C.J, C.V.area[C.J]/C.hist[C.V.nf], "time steps of the cells so far");
		return;
	}
	double h;
	if (phase == 0) h = k == 0 ? 0 : C.hist[k];
	else if (phase == 1) h = C.hist[k];
	else h = faceadd(C, k-1, C.hist[k-1]);
	fv_inv_eq(integ + C.J, h, "a face adds its spectral radius to exactly its two cells");
}
template <bool o2, bool cv>
static void steps()
{
	StepCase C;
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	const IdealGasPhysics<double> ph = fv_gas();
	C.ph = &ph; C.g = ph.g; C.cv = cv;
	typedef FlowFV<double,o2,cv> S;
	S *s = (S*)calloc(1, sizeof(S));
	new ((void*)&s->physics) IdealGasPhysics<double>(ph);
	*(const UMesh<double,2>**)&s->m = V.m;
	C.visc = fv_int("viscous", 0, 1) == 1;
	const_cast<FlowPhysicsConfig&>(s->pconfig).viscous_sim = C.visc;
	C.ul = fv_rarray("ul", 4*V.nf, 0.9, 1.1); C.ur = fv_rarray("ur", 4*V.nf, 0.9, 1.1);
	if (fv_native())
		for (long i = 0; i < V.nf; i++) { C.ul[4*i+3] += 3; C.ur[4*i+3] += 3; }
	double *dt = C.dt = fv_rarray("dt", V.nelem, -1, 1);
	C.hist = fv_rarray("hist", V.nf+1, 0, 0);
	C.J = fv_int("J", 0, V.nelem-1);
	fv_loop_candidate(step_inv, &C);
	s->compute_max_timestep(amat::Array2dView<double>(C.ul, (fint)V.nf, 4), amat::Array2dView<double>(C.ur, (fint)V.nf, 4), dt);
	double h = 0;
	if (fv_native()) {
		for (long f = 0; f < V.nf; f++) h = faceadd(C, f, h);
		if (h == 0) fv_stop();
	}
	else h = C.hist[V.nf];
	fv_ensure_eq(dt[C.J], V.area[C.J]/h, "time step is the cell area over the sum of spectral radii of its faces");
	fv_reach("end");
}
extern "C" {
void fvc_step_1_cv() { steps<false,true>(); }
void fvc_step_2_cv() { steps<true,true>(); }
void fvc_step_1_sv() { steps<false,false>(); }
void fvc_step_2_sv() { steps<true,false>(); }
}
