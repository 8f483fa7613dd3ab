/* Pseudo-time and time stepping. */
#include "ffv.inc"
#include "petsc.inc"
#include "ode/aodesolver.hpp"
#include "ode/nonlinearrelaxation.hpp"
#include <string>
// ---- step-size control
struct Steady : public SteadySolver<4> { StatusCode solve(Vec) { return 0; } };
static Steady *steady() { return (Steady*)calloc(1, sizeof(Steady)); }
// contracts of the gas routines (judged under C05)
static double anyp(const IdealGasPhysics<double> *, const double *u) { return fv_fn("p", 0, u, 4); }
static double anydp(const IdealGasPhysics<double> *, const double *u, const double *du)
{ double a[8]; for (int i = 0; i < 4; i++) { a[i] = u[i]; a[4+i] = du[i]; } return fv_fn("dp", 0, a, 8); }
extern "C" {
void fvc_linear_ramp()
{
	const double c0 = fv_real("cstart", 0.1, 10), c1 = fv_real("cend", 0.1, 100);
	const long a = fv_int("itstart", 0, 1<<20), b = fv_int("itend", 0, 1<<20), i = fv_int("it", 0, 1<<20);
	const double c = steady()->linearRamp(c0, c1, (int)a, (int)b, (int)i);
	if (i < a) fv_ensure_eq(c, c0, "the initial value before the ramp");
	else if (i >= b) fv_ensure_eq(c, c1, "the final value after the ramp");
	else fv_ensure_eq((c-c0)*(b-a), (c1-c0)*(i-a), "linear in between");
	fv_reach("end");
}
void fvc_residual_ramp()
{
	const double lo = fv_real("cflmin", 0.1, 10), hi = fv_real("cflmax", 10, 100), prev = fv_real("prev", 0, 100),
		up = fv_real("up", 0.1, 1), down = fv_real("down", 0.1, 1), ratio = fv_real("ratio", 0.1, 10);
	fv_assume(0 < lo); fv_assume(lo <= hi); fv_assume(0 < ratio);
	const double c = steady()->expResidualRamp(lo, hi, prev, ratio, up, down);
	fv_ensure_le(lo, c, "not below the minimum"); fv_ensure_le(c, hi, "not above the maximum");
	const double e = ratio > 1 ? prev*std::pow(ratio, up) : prev*std::pow(ratio, down);
	if (e >= lo && e <= hi) fv_ensure_eq(c, e, "grows and falls with the power of the residual ratio");
	fv_ensure(e < lo ? c == lo : e > hi ? c == hi : true, "clipped to the nearer bound");
	fv_reach("end");
}
void fvc_relaxation()
{
	const IdealGasPhysics<double> ph = fv_gas();
	const double mf = fv_real("minfactor", 0.1, 1);
	fv_assume(mf > 0); fv_assume(mf <= 1);
	const FlowSimpleUpdate<4> up(ph, mf);
	double u[4], du[4];
	for (int i = 0; i < 4; i++) { u[i] = fv_real_i("u", i, 0.9, 1.1); du[i] = fv_real_i("du", i, -1, 1); }
	if (fv_native()) u[3] += 3;
	fv_contract("_ZNK5fvens15IdealGasPhysicsIdE24getPressureFromConservedEPKd", (void*)anyp);
	fv_contract("_ZNK5fvens15IdealGasPhysicsIdE29getDeltaPressureFromConservedEPKdS3_", (void*)anydp);
	const double p = ph.getPressureFromConserved(u);
	fv_assume(u[0] > 0); fv_assume(p > 0);
	const double w = up.getLocalRelaxationFactor(du, u);
	fv_ensure_le(mf, w, "at least the minimum factor"); fv_ensure_le(w, 1, "no over-relaxation");
	const double dp = std::fabs(ph.getDeltaPressureFromConserved(u, du))/p, dr = std::fabs(du[0])/u[0];
	if (w > mf) { fv_ensure_le(w, 1-dp, "reduced by the relative pressure change"); fv_ensure_le(w, 1-dr, "reduced by the relative density change"); }
	fv_ensure(w == mf || w == 1-dp || w == 1-dr, "one less the larger relative change, or the minimum");
	fv_reach("end");
}
}
// ---- time loops: residual and time steps are arbitrary functions of the cell and of the number of the evaluation
struct TCase {
	VMesh V; double *u, *r, *dt, *du, *st; Vec uv, rv, dtv, duv; FvVec fu, fr, fdt, fdu; long J; int ncall, nrev, nfwd, nrevend, nfwdend, stage;
	double u0[4], cfl, us[4], dtmin; long K[2]; int order; SteadySolverConfig *conf; bool implicit;
};
static TCase *TC;
static double any(const char *nm, int call, long i) { const double a[2] = {(double)call, (double)i}; return fv_fn(nm, 0, a, 2); }
extern "C" {
PetscErrorCode VecDuplicate(Vec x, Vec *y) { fv_ensure(x == TC->uv, "residual has the layout of the state"); *y = TC->rv; return 0; }
PetscErrorCode VecDestroy(Vec *x) { *x = 0; return 0; }
PetscErrorCode VecGhostUpdateBegin(Vec x, InsertMode im, ScatterMode sm)
{
	if (x == TC->rv) {
		fv_ensure(im == ADD_VALUES && sm == SCATTER_REVERSE, "contributions to the neighbours' residuals are sent to their owners");
		TC->nrev++;
	} else {
		fv_ensure(x == TC->uv && im == INSERT_VALUES && sm == SCATTER_FORWARD, "the neighbours get the new state");
		TC->nfwd++;
	}
	return 0;
}
PetscErrorCode VecGhostUpdateEnd(Vec x, InsertMode, ScatterMode) { if (x == TC->rv) TC->nrevend++; else TC->nfwdend++; return 0; }
int (MPI_Allreduce)(const void *in, void *out, int n, MPI_Datatype, MPI_Op op, MPI_Comm)
{
	const double *x = (const double*)(in == MPI_IN_PLACE ? out : in);
	double *y = (double*)out;
	fv_ensure(in != out, "input and output of a reduction do not overlap");
	if (TC->order) {
		fv_ensure(op == MPI_MIN && n == 1, "the time step is the least of all processes");
		y[0] = std::min(x[0], any("othermin", TC->ncall, 0));
	}
	else {
		fv_ensure(op == MPI_SUM && n == 1, "residual energies are added");
		y[0] = x[0] + any("others", TC->ncall, 0);
	}
	return 0;
}
}
static int sysvec(const UMesh<double,2> *m, int nv, Vec *v)
{
	if (nv == 1) *v = TC->dtv; else *v = TC->duv;
	return 0;
}
static double X(long c, int i) { return any("X", TC->ncall, 4*c+i); }
static double omega(const double *du, const double *u)
{ double a[8]; for (int i = 0; i < 4; i++) { a[i] = du[i]; a[4+i] = u[i]; } return fv_fn("omega", 0, a, 8); }
static void step(TCase& C)
{
	const long J = C.J; double e[4], x[4];
	for (int i = 0; i < 4; i++) x[i] = X(J, i);
	const double w = C.implicit ? omega(x, C.u0) : 0;
	for (int i = 0; i < 4; i++)
		e[i] = C.implicit ? C.u0[i] + w*x[i] : C.u0[i] + C.conf->cflinit*any("dt", C.ncall, J)/C.V.area[J]*any("R", C.ncall, 4*J+i);
	for (int i = 0; i < 4; i++) {
		fv_ensure_eq(C.u[4*J+i], e[i], C.implicit ? "implicit step: relaxed solution of the linear system" : "explicit step of every cell with its own time step");
		C.u0[i] = e[i];
	}
	fv_ensure(C.nrev == C.ncall && C.nfwd == C.ncall && C.nrevend == C.ncall && C.nfwdend == C.ncall, "residual contributions and new states are exchanged once per step");
	if (C.implicit) fv_ensure(C.stage == 5*C.ncall, "one linear solve per step");
}
// Runge-Kutta: the state of each evaluation is the stage the scheme of this order (Shu and Osher) prescribes
static void rk(TCase& C, Vec u, Vec r, Vec dt)
{
	static const double c1[3] = {1, 0, 1}, c2[2][3] = {{1, 0, 1}, {0.5, 0.5, 0.5}},
		c3[3][3] = {{1, 0, 1}, {0.75, 0.25, 0.25}, {0.3333333333333333, 0.6666666666666667, 0.6666666666666667}};
	const double *c = C.order == 1 ? c1 : C.order == 2 ? &c2[0][0] : &c3[0][0];
	const long J = C.J, n = C.V.nelem;
	double *ua = ((FvVec*)u)->a, *ra = ((FvVec*)r)->a, *da = ((FvVec*)dt)->a;
	for (int i = 0; i < 4; i++) fv_ensure_eq(ra[4*J+i], 0, "the residual is accumulated from nothing");
	if (C.ncall > 0) {
		const int k = C.ncall - 1, s = k % C.order;
		if (s == 0) {
			C.dtmin = std::min(any("dt", C.ncall, C.K[k/C.order]), any("othermin", C.ncall, 0));
			for (int i = 0; i < 4; i++) C.us[i] = C.u0[i];
		}
		for (int i = 0; i < 4; i++)
			C.us[i] = c[3*s]*C.u0[i] + c[3*s+1]*C.us[i] + c[3*s+2]*C.dtmin*C.cfl/C.V.area[J]*any("R", C.ncall, 4*J+i);
		if (s == C.order-1) for (int i = 0; i < 4; i++) C.u0[i] = C.us[i];
	}
	else for (int i = 0; i < 4; i++) C.us[i] = C.u0[i];
	for (int i = 0; i < 4; i++) fv_ensure_eq(ua[4*J+i], C.us[i], "each evaluation is at the stage the scheme of this order prescribes");
	fv_ensure(C.nrevend == C.ncall && C.nfwdend == C.ncall, "residual contributions and new states are exchanged once per stage");
	if (C.ncall == 2*C.order) { fv_reach("end"); fv_stop(); }
	C.ncall++;
	for (long i = 0; i < 4*n; i++) ra[i] = any("R", C.ncall, i);
	for (long i = 0; i < n; i++) da[i] = any("dt", C.ncall, i);
}
static const double *minel(const double *a, const double *b)
{
	TCase& C = *TC;
	fv_ensure(a == C.dt && b == C.dt + C.V.nelem, "least time step of all cells");
	const double *m = a + C.K[(C.ncall-1)/C.order];
	fv_assume(*m <= a[C.J]);
	return m;
}
struct AnySpace : public Spatial<double,4> {
	StatusCode compute_residual(const Vec u, Vec r, const bool want, Vec dt) const
	{
		TCase& C = *TC; const long n = C.V.nelem;
		if (C.order) { rk(C, u, r, dt); return 0; }
		fv_ensure(u == C.uv && r == C.rv && want && dt == C.dtv, "residual and time steps of the current state");
		for (int i = 0; i < 4; i++) fv_ensure_eq(C.r[4*C.J+i], 0, "the residual is accumulated from nothing");
		if (C.ncall == 0) { for (int i = 0; i < 4; i++) fv_ensure_eq(C.u[4*C.J+i], C.u0[i], "starts from the given state"); }
		else {
			step(C);
			if (C.ncall == 2) { fv_reach("end"); fv_stop(); }
		}
		C.ncall++;
		for (long c = 0; c < 4*n; c++) C.r[c] = any("R", C.ncall, c);
		for (long c = 0; c < n; c++) C.dt[c] = any("dt", C.ncall, c);
		return 0;
	}
	void compute_local_jacobian_interior(const fint, const freal *const, const freal *const, Eigen::Matrix<freal,4,4,Eigen::RowMajor>&, Eigen::Matrix<freal,4,4,Eigen::RowMajor>&) const {}
	void compute_local_jacobian_boundary(const fint, const freal *const, Eigen::Matrix<freal,4,4,Eigen::RowMajor>&) const {}
	void getGradients(const Vec, GradBlock_t<freal,2,4> *const) const {}
	AnySpace(const UMesh<freal,2> *m) : Spatial<double,4>(m) {}
};
static void base(Spatial<double,4> *s, const UMesh<double,2> *m) { *(const UMesh<double,2>**)&s->m = m; }
static void tcase(TCase& C)
{
	if (fv_native()) fv_stop();
	TC = &C; C.ncall = C.nrev = C.nfwd = C.nrevend = C.nfwdend = C.stage = 0; C.implicit = false; C.order = 0;
	C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V);
	C.u = fv_rarray("u", 4*(V.nelem+V.nc), 0.9, 1.1); C.r = fv_rarray("r", 4*(V.nelem+V.nc), -1, 1);
	C.dt = fv_rarray("dtm", V.nelem, 0.1, 1); C.du = fv_rarray("du", 4*V.nelem, -1, 1);
	C.fu = {C.u, 4*V.nelem}; C.fr = {C.r, 4*V.nelem}; C.fdt = {C.dt, V.nelem}; C.fdu = {C.du, 4*V.nelem};
	C.uv = fvvec(&C.fu); C.rv = fvvec(&C.fr); C.dtv = fvvec(&C.fdt); C.duv = fvvec(&C.fdu);
	C.J = fv_int("J", 0, V.nelem-1);
	for (int i = 0; i < 4; i++) C.u0[i] = C.u[4*C.J+i];
	fv_contract("_ZN5fvens7SpatialIdLi4EEC2EPKNS_5UMeshIdLi2EEE", (void*)base);
	fv_contract("_ZN5fvens18createSystemVectorEPKNS_5UMeshIdLi2EEEiPP6_p_Vec", (void*)sysvec);
}
extern "C" void fvc_forward_euler()
{
	TCase C; tcase(C);
	AnySpace sp(C.V.m);
	SteadySolverConfig conf = {};
	conf.cflinit = fv_real("cflinit", 0.1, 1); conf.cflfin = fv_real("cflfin", 1, 10); conf.tol = fv_real("tol", 0, 1e-3);
	conf.maxiter = (int)fv_int("maxiter", 3, 1<<20); fv_assume(conf.tol < 1);
	conf.lognres = false;
	C.conf = &conf;
	typedef SteadyForwardEulerSolver<4> S;
	S *s = (S*)calloc(1, sizeof(S));
	*(const Spatial<double,4>**)&s->space = &sp;
	*(const SteadySolverConfig**)((char*)&s->space + sizeof(void*)) = &conf;
	s->S::solve(C.uv);
}
// ---- implicit: the pseudo-time term
struct Acc { long I, J; double a[16]; } fv_acc;
extern "C" PetscErrorCode MatSetValuesBlocked(Mat, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *v, InsertMode mode)
{
	fv_ensure(m == 1 && n == 1 && mode == ADD_VALUES, "blocks are added one by one");
	if (*r == fv_acc.I && *c == fv_acc.J) for (int i = 0; i < 16; i++) fv_acc.a[i] += v[i];
	return 0;
}
extern "C" PetscErrorCode MatSetValues(Mat, PetscInt m, const PetscInt *r, PetscInt n, const PetscInt *c, const PetscScalar *v, InsertMode mode)
{
	fv_ensure(m == 1 && n == 1 && mode == ADD_VALUES, "values are added one by one");
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++)
		if (*r == 4*fv_acc.I+i && *c == 4*fv_acc.J+j) fv_acc.a[4*i+j] += v[0];
	return 0;
}
struct PCase { VMesh V; double *dt, *dt0, *P; double cfl; };
static double pterm(const PCase& C, long c) { return C.V.area[c]/(C.cfl*C.dt0[c]); }
static void pseudo_inv(void *ctx, long k, int phase)
{
	const PCase& C = *(PCase*)ctx;
	double d = phase == 0 ? 0 : phase == 1 ? C.P[k] : C.P[k-1];
	if (phase == 2 && C.V.glob[k-1] == fv_acc.I && fv_acc.I == fv_acc.J) d += pterm(C, k-1);
	if (phase) d -= C.P[0];
	for (int i = 0; i < 16; i++) fv_inv_add(&fv_acc.a[i], i%5 ? 0 : d, "a cell adds volume over CFL times its time step to its own diagonal block");
}
static void pseudo(bool slow)
{
	PCase C; C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V); vmesh_global(V);
	C.dt = fv_rarray("dtm", V.nelem, 0.1, 1); C.dt0 = fv_rarray("dtm0", V.nelem, 0.1, 1);
	C.P = fv_rarray("P", V.nelem+1, 0, 0);
	for (long c = 0; c < V.nelem; c++) C.dt[c] = C.dt0[c];
	C.cfl = fv_real("cfl", 1, 10);
	TCase T; TC = &T;
	fv_contract("_ZN5fvens7SpatialIdLi4EEC2EPKNS_5UMeshIdLi2EEE", (void*)base);
	if (fv_native()) fv_stop();
	AnySpace sp(V.m);
	typedef SteadyBackwardEulerSolver<4> S;
	S *s = (S*)calloc(1, sizeof(S));
	*(const Spatial<double,4>**)&s->space = &sp;
	FvVec dv = {C.dt, V.nelem};
	fv_acc.I = fv_int("I", 0, 1<<20); fv_acc.J = fv_int("J", 0, 1<<20);
	double e[16];
	for (int i = 0; i < 16; i++) e[i] = fv_acc.a[i] = fv_real_i("A", i, -1, 1);
	const long K = fv_int("K", 0, V.nelem-1);
	fv_loop_candidate(pseudo_inv, &C);
	if (slow) s->S::addPseudoTimeTerm_slow(C.cfl, fvvec(&dv), (Mat)&fv_acc); else s->S::addPseudoTimeTerm(C.cfl, fvvec(&dv), (Mat)&fv_acc);
	for (int i = 0; i < 4; i++) e[5*i] += C.P[V.nelem] - C.P[0];
	for (int i = 0; i < 16; i++) fv_ensure_eq(fv_acc.a[i], e[i], "the matrix grows by the pseudo-time term on the diagonal only");
	fv_ensure_eq(C.dt[K], pterm(C, K), "the vector holds the diagonal term for the matrix-free operator");
	fv_reach("end");
}
extern "C" void fvc_pseudo_time() { pseudo(false); }
extern "C" void fvc_pseudo_time_slow() { pseudo(true); }
// ---- implicit loop: the linear solver and the matrix by contract
static int themat;
#define MATRIX ((Mat)&themat)
static bool notfree(Mat) { return false; }
static std::vector<int> nooption(const std::string, const int) { return std::vector<int>(); }
static void stage(int n, const char *what) { fv_ensure(TC->stage % 5 == n, what); TC->stage++; }
extern "C" {
PetscErrorCode KSPGetOperators(KSP, Mat *A, Mat *M) { *A = *M = MATRIX; return 0; }
PetscErrorCode MatZeroEntries(Mat M) { fv_ensure(M == MATRIX, "the solver's matrix"); stage(0, "the matrix is emptied before it is assembled"); return 0; }
PetscErrorCode MatAssemblyBegin(Mat M, MatAssemblyType) { fv_ensure(M == MATRIX, "the solver's matrix"); stage(3, "the matrix is finished after all terms have been added"); return 0; }
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType) { return 0; }
PetscErrorCode KSPSolve(KSP, Vec b, Vec x)
{
	TCase& C = *TC;
	stage(4, "the system is solved after its matrix is finished");
	fv_ensure(b == C.rv && x == C.duv, "right-hand side is the residual, solution the update");
	fv_ensure(C.nrevend == C.ncall, "residual contributions have arrived");
	for (int i = 0; i < 4; i++) fv_ensure_eq(C.r[4*C.J+i], any("R", C.ncall, 4*C.J+i), "right-hand side is the residual");
	for (long c = 0; c < 4*C.V.nelem; c++) C.du[c] = any("X", C.ncall, c);
	return 0;
}
}
static int jacobian(const void *, Vec u, Mat M)
{
	fv_ensure(u == TC->uv && M == MATRIX, "Jacobian of the current state");
	stage(1, "the Jacobian is added to the empty matrix"); return 0;
}
static int pseudoterm(void *, double cfl, Vec dt, Mat M)
{
	TCase& C = *TC;
	fv_ensure(dt == C.dtv && M == MATRIX, "local time steps");
	fv_ensure_eq(C.dt[C.J], any("dt", C.ncall, C.J), "time steps of the current state");
	fv_ensure_le(C.conf->cflinit, cfl, "CFL at least the initial one"); fv_ensure_le(cfl, C.conf->cflfin, "CFL at most the final one");
	stage(2, "the pseudo-time term is added once");
	for (long c = 0; c < C.V.nelem; c++) C.dt[c] = any("D", C.ncall, c);
	return 0;
}
struct AnyUpdate : public NonlinearUpdate<4> {
	double getLocalRelaxationFactor(const double du[4], const double u[4]) const { return omega(du, u); }
};
extern "C" void fvc_backward_euler()
{
	TCase C; tcase(C); C.implicit = true;
	AnySpace sp(C.V.m); AnyUpdate up;
	SteadySolverConfig conf = {};
	conf.cflinit = fv_real("cflinit", 0.1, 1); conf.cflfin = fv_real("cflfin", 1, 10); conf.tol = fv_real("tol", 0, 1e-3);
	conf.maxiter = (int)fv_int("maxiter", 3, 1<<20); fv_assume(conf.tol < 1); fv_assume(0 < conf.cflinit); fv_assume(conf.cflinit <= conf.cflfin);
	C.conf = &conf;
	fv_contract("_ZN5fvens12isMatrixFreeEP6_p_Mat", (void*)notfree);
	fv_contract("_ZN5fvens30parseOptionalPetscCmd_intArrayENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi", (void*)nooption);
	fv_contract("_ZNK5fvens7SpatialIdLi4EE17assemble_jacobianEP6_p_VecP6_p_Mat", (void*)jacobian);
	fv_contract("_ZN5fvens25SteadyBackwardEulerSolverILi4EE17addPseudoTimeTermEdP6_p_VecP6_p_Mat", (void*)pseudoterm);
	typedef SteadyBackwardEulerSolver<4> S;
	S *s = (S*)calloc(1, sizeof(S));
	*(const Spatial<double,4>**)&s->space = &sp;
	*(const SteadySolverConfig**)((char*)&s->space + sizeof(void*)) = &conf;
	*(const NonlinearUpdate<4>**)&s->update_relax = &up;
	s->S::solve(C.uv);
}
static void closefile(void *) { }
static void rungekutta(int order)
{
	if (fv_native()) fv_stop();
	TCase C; tcase(C); C.order = order;
	AnySpace sp(C.V.m);
	C.cfl = fv_real("cfl", 0.1, 1);
	C.K[0] = fv_int("argmin1", 0, C.V.nelem-1); C.K[1] = fv_int("argmin2", 0, C.V.nelem-1);
	fv_contract("_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev", (void*)closefile);
	fv_contract("_ZSt11min_elementIPKdET_S2_S2_", (void*)minel);
	typedef TVDRKSolver<4> S;
	S *s = (S*)calloc(1, sizeof(S));
	const std::string log("log");
	new (s) S(&sp, C.uv, order, log, C.cfl);
	s->S::solve(fv_real("finaltime", 1, 2));
}
extern "C" void fvc_rungekutta_1() { rungekutta(1); }
extern "C" void fvc_rungekutta_2() { rungekutta(2); }
extern "C" void fvc_rungekutta_3() { rungekutta(3); }
