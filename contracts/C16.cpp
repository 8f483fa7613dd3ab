/* The residual routine: which states reach the faces, which gradients and ghost states reach the flux loop. */
#include "ffv.inc"
#include "petsc.inc"
static int n_begin, n_end, n_sbegin, n_send, n_grad, n_flux, n_step;
extern "C" PetscErrorCode VecGhostUpdateBegin(Vec, InsertMode im, ScatterMode sm)
{
	fv_ensure(im == INSERT_VALUES && sm == SCATTER_FORWARD, "ghost values are overwritten by the owners' values");
	fv_ensure(n_grad == 1, "gradients are exchanged after they have been computed");
	n_begin++; return 0;
}
extern "C" PetscErrorCode VecGhostUpdateEnd(Vec, InsertMode, ScatterMode) { n_end++; return 0; }
struct RCase {
	VMesh V; const IdealGasPhysics<double> *ph; AnyBC *b1, *b2; bool o2, weno; long F, K;
	double *u, *gv, *ul, *ur, *res, *dt; Vec gvec; void *uf;
};
static RCase *RC;
static void ghost(const RCase& C, long f, const double *in, double *g)
{ (C.V.btags[f] == 1 ? C.b1 : C.b2)->computeGhostState(in, C.V.fm+3*f, g); }
// reconstructed primitive face values and cell gradients: anything that depends on face or cell only
static void faceval(const char *nm, long f, double *w)
{
	const double a[1] = {(double)f};
	double r = fv_fn(nm, 0, a, 1), p = fv_fn(nm, 3, a, 1);
	w[0] = r; w[1] = fv_fn(nm, 1, a, 1); w[2] = fv_fn(nm, 2, a, 1); w[3] = p;
}
static void cons(const double g, const double *w, double *u)
{
	u[0] = w[0]; u[1] = w[0]*w[1]; u[2] = w[0]*w[2];
	u[3] = w[3]/(g-1) + 0.5*w[0]*(w[1]*w[1]+w[2]*w[2]);
}
static void prim(const double g, const double *u, double *w)
{
	w[0] = u[0]; w[1] = u[1]/u[0]; w[2] = u[2]/u[0];
	w[3] = (g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]);
}
struct AnyGrad : public GradientScheme<double,4> {
	AnyGrad(const UMesh<double,2> *m) : GradientScheme<double,4>(m, nullptr, nullptr) { }
	void compute_gradients(const amat::Array2dView<double> u, const amat::Array2dView<double> ug, double *const G) const
	{
		const RCase& C = *RC; const double g = C.ph->g;
		double w[4], b[4];
		prim(g, C.u+4*C.K, w);
		for (int i = 0; i < 4; i++) fv_ensure_eq(u((fint)C.K,i), w[i], "gradients are those of the primitive variables");
		if (C.F < C.V.nb) {
			ghost(C, C.F, C.u+4*C.V.intfac[4*C.F], b); prim(g, b, w);
			for (int i = 0; i < 4; i++) fv_ensure_eq(ug((fint)C.F,i), w[i], "ghost values for the gradients come from the cell values through the boundary condition");
		}
		fv_ensure(G == C.gv, "gradients are written to the gradient vector");
		const long n = C.V.nelem;
		for (long i = 0; i < 8*n; i++) { const double a[1] = {(double)i}; G[i] = fv_fn("G", 0, a, 1); }
		n_grad++;
	}
};
struct AnyRecon : public SolutionReconstruction<double,4> {
	AnyRecon(const UMesh<double,2> *m, const amat::Array2d<double>& g) : SolutionReconstruction<double,4>(m, nullptr, nullptr, g) { }
	void compute_face_values(const MVector<double>& up, const amat::Array2dView<double> ug, const double *const G,
		amat::Array2dMutableView<double> ul, amat::Array2dMutableView<double> ur) const
	{
		const RCase& C = *RC; const double g = C.ph->g;
		double w[4], b[4];
		prim(g, C.u+4*C.K, w);
		for (int i = 0; i < 4; i++) fv_ensure_eq(up((fint)C.K,i), w[i], "primitive variables are reconstructed");
		if (C.F < C.V.nb) {
			ghost(C, C.F, C.u+4*C.V.intfac[4*C.F], b); prim(g, b, w);
			for (int i = 0; i < 4; i++) fv_ensure_eq(ug((fint)C.F,i), w[i], "primitive ghost values for the reconstruction");
		}
		fv_ensure(G == C.gv && n_grad == 1, "gradients are computed before the reconstruction");
		if (C.weno) fv_ensure(n_begin == 1 && n_end == 1, "WENO sees the gradients of the neighbouring subdomains");
		for (long f = 0; f < C.V.nf; f++) { faceval("UL", f, w); for (int i = 0; i < 4; i++) ul((fint)f,i) = w[i]; }
		for (long f = C.V.nb; f < C.V.nb+C.V.ni; f++) { faceval("UR", f, w); for (int i = 0; i < 4; i++) ur((fint)f,i) = w[i]; }
	}
};
// contract of the exchange of face values
static void sbegin(void *t)
{
	const RCase& C = *RC; double w[4], e[4];
	fv_ensure(t == C.uf, "the face values are exchanged");
	if (vconn(C.V, C.F)) {
		faceval("UL", C.F, w); cons(C.ph->g, w, e);
		for (int i = 0; i < 4; i++) fv_ensure_eq(C.ul[4*C.F+i], e[i], "the neighbour is sent conserved face values");
	}
	n_sbegin++;
}
static void send(void *t)
{
	RCase& C = *RC; double w[4];
	fv_ensure(t == C.uf && n_sbegin == 1, "the exchange is completed once");
	for (long f = C.V.nb+C.V.ni; f < C.V.nf; f++) { faceval("XR", f, w); for (int i = 0; i < 4; i++) C.ur[4*f+i] = w[i]; }
	n_send++;
}
// left and right states of face f as the fluxes should see them
static void facestates(const RCase& C, long f, double *l, double *r)
{
	const VMesh& V = C.V; const double g = C.ph->g;
	double w[4];
	if (C.o2) { faceval("UL", f, w); cons(g, w, l); }
	else for (int i = 0; i < 4; i++) l[i] = C.u[4*V.intfac[4*f]+i];
	if (f < V.nb) ghost(C, f, l, r);
	else if (!C.o2) for (int i = 0; i < 4; i++) r[i] = C.u[4*V.intfac[4*f+1]+i];
	else if (vconn(V, f)) { if (fv_native()) for (int i = 0; i < 4; i++) r[i] = C.ur[4*f+i]; else faceval("XR", f, r); }
	else { faceval("UR", f, w); cons(g, w, r); }
}
static void checkfaces(const double *ul, const double *ur)
{
	const RCase& C = *RC; double l[4], r[4];
	facestates(C, C.F, l, r);
	for (int i = 0; i < 4; i++) {
		fv_ensure_eq(ul[4*C.F+i], l[i], "left state of the face");
		fv_ensure_eq(ur[4*C.F+i], r[i], "right state of the face");
	}
}
static void fluxes(const void *, const double *u, const double *G, const double *ul, const double *ur, const double *ug, double *res)
{
	const RCase& C = *RC; double b[4];
	fv_ensure(n_flux == 0, "fluxes are added once");
	fv_ensure(u == C.u && res == C.res, "fluxes of this state are added to the residual");
	checkfaces(ul, ur);
	if (C.F < C.V.nb) {
		ghost(C, C.F, C.u+4*C.V.intfac[4*C.F], b);
		for (int i = 0; i < 4; i++) fv_ensure_eq(ug[4*C.F+i], b[i], "cell-centred ghost state of the boundary face");
	}
	if (C.o2) {
		fv_ensure(G == C.gv && n_begin == 1 && n_end == 1, "viscous fluxes see the exchanged gradients");
		const double a[1] = {(double)(8*C.K+3)};
		fv_ensure_eq(G[8*C.K+3], fv_fn("G", 0, a, 1), "gradients reach the fluxes unchanged");
	}
	n_flux++;
}
static void steps(const void *, const amat::Array2dView<double> ul, const amat::Array2dView<double> ur, double *dt)
{
	fv_ensure(dt == RC->dt, "time steps go to the given vector");
	checkfaces(&ul(0,0), &ur(0,0));
	n_step++;
}
template <bool o2, bool cv> static void residual(const char *rec)
{
	typedef FlowFV<double,o2,cv> S;
	RCase C; RC = &C;
	n_begin = n_end = n_sbegin = n_send = n_grad = n_flux = n_step = 0;
	const IdealGasPhysics<double> ph = fv_gas();
	C.ph = &ph; C.o2 = o2;
	C.V = vmesh(); VMesh& V = C.V;
	vmesh_arrays(V);
	AnyFlux fl(&ph); AnyBC b1(ph,1), b2(ph,2);
	C.b1 = &b1; C.b2 = &b2;
	S *s = flowobj<S>(V, ph, &fl, false);
	bcmap(s->bcs, &b1, &b2);
	new ((void*)&s->nconfig.reconstruction) std::string(rec);
	C.weno = rec[0] == 'W';
	amat::Array2d<double> gr;
	AnyGrad gc(V.m); AnyRecon lim(V.m, gr);
	*(const GradientScheme<double,4>**)&s->gradcomp = &gc;
	*(const SolutionReconstruction<double,4>**)&s->lim = &lim;
	V.rc = fv_rarray("rc", 2*(V.nelem+V.nc), 0, 1); V.rcb = fv_rarray("rcb", 2*V.nb, 0, 1);
	set2d(s->rcbp, V.rcb, V.nb, 2); s->rch.sdata = V.rc;
	C.u = fv_rarray("u", 4*(V.nelem+V.nc), 0.9, 1.1);
	if (fv_native()) for (long i = 0; i < V.nelem+V.nc; i++) C.u[4*i+3] += 3;
	C.ul = fv_rarray("ul", 4*V.nf, 0.9, 1.1); C.ur = fv_rarray("ur", 4*V.nf, 0.9, 1.1);
	C.gv = fv_rarray("grad", 8*(V.nelem+V.nc), -1, 1);
	C.res = fv_rarray("res", 4*V.nelem, -1, 1); C.dt = fv_rarray("dt", V.nelem, 0, 1);
	C.uf = &s->uface;
	*(const UMesh<double,2>**)&s->uface = V.m;
	auto& L = s->uface.left; L._M_impl._M_start = C.ul; L._M_impl._M_finish = L._M_impl._M_end_of_storage = C.ul + 4*V.nf;
	auto& R = s->uface.right; R._M_impl._M_start = C.ur; R._M_impl._M_finish = R._M_impl._M_end_of_storage = C.ur + 4*V.nf;
	FvVec uv = {C.u, 4*V.nelem}, gvv = {C.gv, 8*V.nelem}, rv = {C.res, 4*V.nelem}, tv = {C.dt, V.nelem};
	s->gradvec = fvvec(&gvv);
	C.F = fv_int("F", 0, 1<<22); fv_assume(C.F < V.nf);
	C.K = fv_int("K", 0, 1<<22); fv_assume(C.K < V.nelem);
	const bool want = fv_int("want", 0, 1) == 1;
	s->S::compute_residual(fvvec(&uv), fvvec(&rv), want, fvvec(&tv));
	checkfaces(C.ul, C.ur);
	if (!fv_native()) {
		fv_ensure(n_flux == 1, "the fluxes are computed");
		fv_ensure(n_step == (want ? 1 : 0), "time steps are computed when asked for");
		fv_ensure(n_sbegin == (o2 ? 1 : 0) && n_send == n_sbegin, "face values are exchanged once");
	}
	fv_ensure(n_begin == n_end, "every exchange is completed");
	fv_reach("end");
}
#define STUBS(b2,bcv) fv_contract("_ZNK5fvens6FlowFVIdLb" #b2 "ELb" #bcv "EE14compute_fluxesEPKdS3_S3_S3_S3_Pd", (void*)fluxes); \
	fv_contract("_ZNK5fvens6FlowFVIdLb" #b2 "ELb" #bcv "EE20compute_max_timestepENS_4amat11Array2dViewIdEES4_Pd", (void*)steps); \
	fv_contract("_ZN5fvens13L2TraceVectorIdLi4EE22updateSharedFacesBeginEv", (void*)sbegin); \
	fv_contract("_ZN5fvens13L2TraceVectorIdLi4EE20updateSharedFacesEndEv", (void*)send)
extern "C" {
void fvc_residual_1_cv() { STUBS(0,1); residual<false,true>("NONE"); }
void fvc_residual_1_sv() { STUBS(0,0); residual<false,false>("NONE"); }
void fvc_residual_2_cv() { STUBS(1,1); residual<true,true>("NONE"); }
void fvc_residual_2_sv() { STUBS(1,0); residual<true,false>("NONE"); }
void fvc_residual_2_weno() { STUBS(1,1); residual<true,true>("WENO"); }
}
