/* Output quantities: surface coefficients, lift and drag, entropy error, nodal and cell values. */
#include "ffv.inc"
#include "petsc.inc"
#include "spatial/aoutput.hpp"
#include "spatial/diffusion.hpp"
typedef FlowFV_base<double> FB;
struct AnyFlow : public FlowFV<double,false,false> { };
typedef FlowFV<double,false,false> S;
static double others[4];	// what the other processes contribute to a sum
extern "C" int (MPI_Allreduce)(const void *in, void *out, int n, MPI_Datatype, MPI_Op op, MPI_Comm)
{
	fv_ensure(op == MPI_SUM, "contributions of the processes are added");
	fv_ensure(in != out, "input and output of a reduction do not overlap");
	const double *x = (const double*)(in == MPI_IN_PLACE ? out : in);
	for (int i = 0; i < n; i++) ((double*)out)[i] = x[i] + others[i];
	return 0;
}
struct OCase {
	VMesh V; double *u, *G, *P, *A, *out; int *N, *nnode, *inpoel; long rows, F, J, Pt, nv; int w; double g, aoa;
	const IdealGasPhysics<double> *ph; amat::Array2d<double> *ps;
};
static void setvec(std::vector<int>& w, int *p, long n) { w._M_impl._M_start = p; w._M_impl._M_finish = w._M_impl._M_end_of_storage = p+n; }
static S *flow(OCase& C, const IdealGasPhysics<double>& ph)
{
	C.V = vmesh(); vmesh_arrays(C.V);
	C.ph = &ph; C.g = ph.g;
	S *s = flowobj<S>(C.V, ph, nullptr, true);
	C.aoa = fv_real("aoa", -1, 1);
	const_cast<FlowPhysicsConfig&>(s->pconfig).aoa = C.aoa;
	for (int i = 0; i < 4; i++) others[i] = fv_real_i("others", i, 0, 1);
	C.u = fv_rarray("u", 4*(C.V.nelem+C.V.nc), 0.9, 1.1);
	if (fv_native()) for (long i = 0; i < C.V.nelem+C.V.nc; i++) C.u[4*i+3] += 3;
	return s;
}
// ---- surface data
static bool on(const OCase& C, long f) { return C.V.btags[f] == C.w; }
static double cp(const OCase& C, long f)
{
	const double *u = C.u + 4*C.V.intfac[4*f];
	return 2*((C.g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]) - C.ph->getFreestreamPressure());
}
// wall shear stress: (n2,-n1) . mu (grad v + grad v^T) n
static double cf(const OCase& C, long f)
{
	const long e = C.V.intfac[4*f];
	const double *u = C.u + 4*e, *g = C.G + 8*e, *n = C.V.fm + 3*f;
	const double r2 = u[0]*u[0];
	// columns of G are variables, rows directions
	const double dxu = (g[2]*u[0] - u[1]*g[0])/r2, dxv = (g[4]*u[0] - u[2]*g[0])/r2;
	const double dyu = (g[3]*u[0] - u[1]*g[1])/r2, dyv = (g[5]*u[0] - u[2]*g[1])/r2;
	const double t = (2*dxu*n[0] + (dyu+dxv)*n[1])*n[1] - ((dxv+dyu)*n[0] + 2*dyv*n[1])*n[0];
	return 2*C.ph->getViscosityCoeffFromConserved(u)*t;
}
static void contrib(const OCase& C, long f, double *d)
{
	for (int i = 0; i < 4; i++) d[i] = 0;
	if (!on(C, f)) return;
	const double *n = C.V.fm + 3*f, wx = cos(C.aoa), wy = sin(C.aoa), l = n[2];
	d[0] = cp(C, f)*(n[1]*wx - n[0]*wy)*l;		// lift: along the normal of the free stream
	d[1] = cp(C, f)*(n[0]*wx + n[1]*wy)*l;		// pressure drag
	d[2] = cf(C, f)*(n[1]*wx - n[0]*wy)*l;		// friction drag
	d[3] = l;
}
static const char *accname[4] = {"lift sums over the faces of the marker", "pressure drag sums over the faces of the marker",
	"friction drag sums over the faces of the marker", "surface length sums over the faces of the marker"};
static double out(const OCase& C, long f, int j)
{
	const int *e = C.V.intfac + 4*f;
	return j < 2 ? 0.5*(C.V.coords[2*e[2]+j] + C.V.coords[2*e[3]+j]) : j == 2 ? cp(C, f) : cf(C, f);
}
static void surf_inv(void *ctx, long k, int phase)
{
	const OCase& C = *(OCase*)ctx;
	double d[4] = {0, 0, 0, 0};
	long c = 0;
	if (phase == 1) {
		for (int i = 0; i < 4; i++) d[i] = C.P[4*k+i];
		c = C.N[k];
		if (fv_case(k < C.V.nb)) {
			if (fv_case(on(C, k))) fv_assume(c + 1 <= C.rows);	// the count of all faces includes this one
			fv_case(k == C.F);
		}
	}
	if (phase == 2) {
		contrib(C, k-1, d);
		for (int i = 0; i < 4; i++) d[i] += C.P[4*(k-1)+i];
		c = C.N[k-1] + (on(C, k-1) ? 1 : 0);
	}
	if (phase) { for (int i = 0; i < 4; i++) d[i] -= C.P[i]; c -= C.N[0]; }
	for (int i = 0; i < 4; i++) fv_inv_acc(d[i], accname[i]);
	fv_inv_iacc(c, "rows count the faces of the marker");
	if (k > C.F) {
		fv_inv(c >= C.N[C.F]+1, "later faces come in later rows");
		for (int j = 0; j < 4; j++) fv_inv_eq(C.out + 4*C.N[C.F] + j, out(C, C.F, j), "data of the face in its row");
	}
}
static MVector<double>& vec(double *p, long r, long c)
{
	auto *M = (MVector<double>*)calloc(1, sizeof(MVector<double>));
	M->m_storage.m_data = p; M->m_storage.m_rows = r; M->m_storage.m_cols = c;
	return *M;
}
extern "C" void fvc_surface()
{
	OCase C; const IdealGasPhysics<double> ph = fv_gas();
	S *s = flow(C, ph); VMesh& V = C.V;
	V.coords = fv_rarray("coords", 2*V.npoin, 0, 1);
	set2d(V.m->coords, V.coords, V.npoin, 2);
	C.w = (int)fv_int("marker", 1, 2);
	C.G = fv_rarray("grad", 8*V.nelem, -1, 1);
	C.P = fv_rarray("P", 4*(V.nb+1), 0, 0);
	C.rows = fv_int("rows", 1, 1<<20);
	C.N = fv_iarray("N", V.nb+1, 0, C.rows, nullptr, nullptr);
	C.F = fv_int("F", 0, 1<<20);
	fv_assume(C.F < V.nb); fv_assume(on(C, C.F));
	double S4[4] = {0, 0, 0, 0}, d[4];
	if (fv_native()) {
		C.rows = 0;
		for (long f = 0; f <= V.nb; f++) {
			C.N[f] = (int)C.rows;
			if (f == V.nb) break;
			if (on(C, f)) C.rows++;
			contrib(C, f, d);
			for (int i = 0; i < 4; i++) S4[i] += d[i];
		}
	}
	else {
		fv_assume(C.N[0] == 0); fv_assume(C.N[V.nb] == C.rows);
		for (int i = 0; i < 4; i++) S4[i] = C.P[4*V.nb+i] - C.P[i];
	}
	C.out = fv_rarray("out", 4*C.rows, -1, 1);
	MVector<double>& M = vec(C.out, C.rows, 4);
	fv_loop_candidate(surf_inv, &C);
	const auto r = s->computeSurfaceData(amat::Array2dView<double>(C.u, V.nelem, 4), (GradBlock_t<double,2,4>*)C.G, C.w, M);
	const double area = S4[3] + others[3];
	fv_ensure_eq(std::get<0>(r), (S4[0]+others[0])/area, "lift coefficient");
	fv_ensure_eq(std::get<1>(r), (S4[1]+others[1])/area, "pressure drag coefficient");
	fv_ensure_eq(std::get<2>(r), (S4[2]+others[2])/area, "friction drag coefficient");
	for (int j = 0; j < 4; j++) fv_ensure_eq(C.out[4*C.N[C.F]+j], out(C, C.F, j), "position, pressure and friction coefficients of the face");
	fv_reach("end");
}
// ---- entropy error
static double ent(const OCase& C, long c)
{
	const std::array<double,4> f = C.ph->compute_freestream_state(C.aoa);
	const double s0 = C.ph->getEntropyFromConserved(&f[0]), s = (C.ph->getEntropyFromConserved(C.u+4*c) - s0)/s0;
	return s*s*C.V.area[c];
}
static double entpart(const OCase& C, long k, int phase)
{ return phase == 0 ? 0 : (phase == 1 ? C.P[k] : C.P[k-1] + ent(C, k-1)) - C.P[0]; }
static void ent_inv(void *ctx, long k, int phase)
{ fv_inv_acc(entpart(*(OCase*)ctx, k, phase), "entropy error sums over the cells"); }
extern "C" void fvc_entropy()
{
	OCase C; const IdealGasPhysics<double> ph = fv_gas();
	S *s = flow(C, ph); VMesh& V = C.V;
	C.P = fv_rarray("P", V.nelem+1, 0, 0);
	double e = others[0];
	if (fv_native()) for (long c = 0; c < V.nelem; c++) e += ent(C, c);
	else e += C.P[V.nelem] - C.P[0];
	const FlowOutput o(s, &ph, C.aoa);
	FvVec uv = {C.u, 4*V.nelem};
	fv_loop_candidate(ent_inv, &C);
	const double r = o.compute_entropy_cell(fvvec(&uv));
	fv_ensure_eq(r, sqrt(e), "area-weighted L2 norm of the relative entropy error over all cells of all processes");
	fv_reach("end");
}
// ---- cell and nodal values
static void cells(OCase& C)
{
	VMesh& V = C.V;
	V.coords = fv_rarray("coords", 2*V.npoin, 0, 1);
	set2d(V.m->coords, V.coords, V.npoin, 2);
	C.nnode = fv_iarray("nnode", V.nelem, 3, 4, nullptr, nullptr);
	C.inpoel = fv_iarray("inpoel", 4*V.nelem, 0, V.npoin-1, nullptr, nullptr);
	setvec(V.m->nfael, C.nnode, V.nelem); setvec(V.m->nnode, C.nnode, V.nelem);
	set2d(V.m->inpoel, C.inpoel, V.nelem, 4);
	C.P = fv_rarray("P", V.nelem+1, 0, 0);
	C.A = fv_rarray("A", 5*(V.nelem+1), 0, 0);
}
static void values(const OCase& C, const double *u, double *v)
{
	const double p = (C.g-1)*(u[3] - 0.5*(u[1]*u[1]+u[2]*u[2])/u[0]);
	v[4] = u[1]/u[0]; v[5] = u[2]/u[0];
	v[0] = u[0]; v[1] = sqrt(v[4]*v[4]+v[5]*v[5])/C.ph->getSoundSpeedFromConserved(u); v[2] = p;
	v[3] = C.ph->getTemperatureFromConserved(u);
}
extern "C" void fvc_cellvalues()
{
	OCase C; const IdealGasPhysics<double> ph = fv_gas();
	S *s = flow(C, ph); VMesh& V = C.V; cells(C);
	const FlowOutput o(s, &ph, C.aoa);
	FvVec uv = {C.u, 4*V.nelem};
	C.J = fv_int("J", 0, V.nelem-1);
	amat::Array2d<double> sc, ve;
	o.postprocess_cell(fvvec(&uv), sc, ve);
	double v[6]; values(C, C.u+4*C.J, v);
	fv_ensure_eq(sc(C.J,0), v[0], "density"); fv_ensure_eq(sc(C.J,1), v[1], "Mach number"); fv_ensure_eq(sc(C.J,2), v[2], "pressure");
	fv_ensure_eq(ve(C.J,0), v[4], "velocity"); fv_ensure_eq(ve(C.J,1), v[5], "velocity");
	fv_reach("end");
}
// area-weighted contribution of cell c to point Pt: sums of nv variables, then of the area
static void nodal(const OCase& C, long c, double *d)
{
	double m = 0;
	for (int i = 0; i < 4; i++) if (i < C.nnode[c] && C.inpoel[4*c+i] == C.Pt) m += 1;
	for (int v = 0; v < C.nv; v++) d[v] = m*C.u[C.nv*c+v]*C.V.area[c];
	d[C.nv] = m*C.V.area[c];
}
static void node_inv(void *ctx, long k, int phase)
{
	const OCase& C = *(OCase*)ctx; const int n = C.nv+1;
	fv_inv_acc(entpart(C, k, phase), "entropy error sums over the cells");
	double d[5] = {0, 0, 0, 0, 0};
	if (phase == 1 && fv_loop_array(0) && fv_case(k < C.V.nelem)) fv_case(C.nnode[k] == 3);
	for (int a = 0; a < 2; a++) {
		double *x = (double*)fv_loop_array(a);
		if (!x) continue;
		if (phase == 2 && a == 0) nodal(C, k-1, d);
		const bool area = fv_length(x) == C.V.npoin;
		for (int i = 0; i < n; i++)
			if (area == (i == C.nv)) {
				const double part = phase == 0 ? 0 : phase == 1 ? C.A[n*k+i] - C.A[i] : C.A[n*(k-1)+i] + d[i] - C.A[i];
				fv_inv_add(area ? x + C.Pt : x + C.nv*C.Pt + i, part, "a cell contributes to each of its nodes");
			}
	}
}
static void snode_inv(void *ctx, long k, int phase)
{
	const OCase& C = *(OCase*)ctx;
	double d[2] = {0, 0};
	if (phase == 1 && fv_loop_array(0) && fv_case(k < C.V.nelem)) fv_case(C.nnode[k] == 3);
	for (int a = 0; a < 2; a++) {
		double *x = (double*)fv_loop_array(a);
		if (!x) continue;
		if (phase == 2 && a == 0) nodal(C, k-1, d);
		const int i = x == C.ps->elems ? 0 : 1;
		fv_inv_add(x + C.Pt, phase == 0 ? 0 : phase == 1 ? C.A[2*k+i] - C.A[i] : C.A[2*(k-1)+i] + d[i] - C.A[i], "a cell contributes to each of its nodes");
	}
}
extern "C" void fvc_nodalvalues()
{
	OCase C; const IdealGasPhysics<double> ph = fv_gas();
	S *s = flow(C, ph); VMesh& V = C.V; cells(C);
	const FlowOutput o(s, &ph, C.aoa);
	FvVec uv = {C.u, 4*V.nelem};
	C.nv = 4;
	C.Pt = fv_int("Pt", 0, 1<<20); fv_assume(C.Pt < V.npoin);
	amat::Array2d<double> sc, ve;
	for (int i = 0; i < 5; i++) fv_assume(C.A[i] == 0);	// partial sums start from nothing
	fv_loop_candidate(node_inv, &C);
	o.postprocess_point(fvvec(&uv), sc, ve);
	double T[5] = {0, 0, 0, 0, 0}, d[5];
	if (fv_native()) for (long c = 0; c < V.nelem; c++) { nodal(C, c, d); for (int i = 0; i < 5; i++) T[i] += d[i]; }
	else for (int i = 0; i < 5; i++) T[i] = C.A[5*V.nelem+i] - C.A[i];
	if (fv_native() && T[4] == 0) fv_stop();
	fv_assume(T[4] > 0); fv_assume(T[0] > 0);	// some cell has this node; volumes and densities are positive
	for (int i = 0; i < 4; i++) T[i] /= T[4];
	double v[6]; values(C, T, v);
	static const char *name[4] = {"density of the area-weighted mean state", "Mach number of the area-weighted mean state",
		"pressure of the area-weighted mean state", "temperature of the area-weighted mean state"};
	for (int i = 0; i < 4; i++) fv_ensure_eq(sc(C.Pt,i), v[i], name[i]);
	for (int i = 0; i < 2; i++) fv_ensure_eq(ve(C.Pt,i), v[4+i], "velocity of the area-weighted mean state");
	fv_reach("end");
}
extern "C" void fvc_nodalscalar()
{
	OCase C;
	C.V = vmesh(); VMesh& V = C.V; vmesh_arrays(V); cells(C);
	C.u = fv_rarray("u", V.nelem, -1, 1);
	FvVec uv = {C.u, V.nelem};
	C.nv = 1;
	C.Pt = fv_int("Pt", 0, 1<<20); fv_assume(C.Pt < V.npoin);
	C.ps = new ((void*)calloc(1, sizeof(amat::Array2d<double>))) amat::Array2d<double>();
	fv_loop_candidate(snode_inv, &C);
	scalar_postprocess_point<1>(V.m, fvvec(&uv), *C.ps);
	double T[2] = {0, 0}, d[2];
	if (fv_native()) for (long c = 0; c < V.nelem; c++) { nodal(C, c, d); for (int i = 0; i < 2; i++) T[i] += d[i]; }
	else for (int i = 0; i < 2; i++) T[i] = C.A[2*V.nelem+i] - C.A[i];
	if (fv_native() && T[1] == 0) fv_stop();
	fv_assume(T[1] != 0);
	fv_ensure_eq((*C.ps)(C.Pt,0), T[0]/T[1], "area-weighted mean of the cells around the point");
	fv_reach("end");
}
