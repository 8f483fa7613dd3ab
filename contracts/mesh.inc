// A symbolic mesh: real UMesh object whose arrays are symbolic; the preconditions are the mesh invariants
// (established by the mesh contracts): left cells are real, right cells of boundary faces are the ghosts of the face.
#include "mesh/mesh.hpp"
#include <cstdlib>
#include <new>
using namespace fvens;
struct VMesh {
	long nelem, nb, nc, ni, nf;
	int *intfac; int *glob; int *connface; double *fm; double *area; int *btags; double *coords; double *gr; double *rc; double *rcb;
	long npoin;
	UMesh<double,2> *m;
};
static void vm_intfac(void *c, long idx, long v)
{
	VMesh& M = *(VMesh*)c;
	const long f = idx/4, col = idx%4;
	if (col == 0) fv_assume(v >= 0 && v < M.nelem);
	else if (col == 1) {
		if (f < M.nb) fv_assume(v == M.nelem + M.nc + f);
		else if (f >= M.nb+M.ni) fv_assume(v == M.nelem + f - M.nb - M.ni);
		else { fv_assume(v >= 0 && v < M.nelem); fv_assume(v != M.intfac[4*f]); }
	}
	else fv_assume(v >= 0 && v < M.npoin);
}
template <typename T> static void set2d(fvens::amat::Array2d<T>& a, T *p, long r, long c)
{ a.elems = p; a.nrows = (fint)r; a.ncols = (fint)c; a.size = (fint)(r*c); }
// faces are numbered: physical boundary, interior, connectivity (as compute_faceConnectivity numbers them)
static bool vconn(const VMesh& V, long f) { return f >= V.nb+V.ni; }
static bool vint(const VMesh& V, long f) { return f >= V.nb && f < V.nb+V.ni; }
static VMesh vmesh()
{
	VMesh V;
	V.nelem = fv_int("nelem", 2, 1<<20); V.nb = fv_int("nbface", 0, 1<<20); V.nc = fv_int("nconn", 0, 1<<20);
	V.ni = fv_int("ninface", 1, 1<<20); V.nf = V.nb + V.nc + V.ni; V.npoin = fv_int("npoin", 3, 1<<20);
	V.m = (UMesh<double,2>*)calloc(1, sizeof(UMesh<double,2>));
	UMesh<double,2>& m = *V.m;
	m.nelem = (fint)V.nelem; m.nbface = (fint)V.nb; m.nconnface = (fint)V.nc; m.ninface = (fint)V.ni; m.naface = (fint)V.nf;
	m.npoin = (fint)V.npoin; m.nnofa = 2; m.nbtag = 1; m.ndtag = 1; m.maxnnode = 4; m.maxnfael = 4;
	m.phyBFaceStart = 0; m.phyBFaceEnd = m.subDomFaceStart = m.domFaceStart = (fint)V.nb;
	m.subDomFaceEnd = m.connBFaceStart = (fint)(V.nb+V.ni); m.connBFaceEnd = m.domFaceEnd = (fint)V.nf;
	return V;
}
// arrays (called with the final address of V, which the invariant callback refers to)
static void vmesh_arrays(VMesh& V)
{
	V.fm = fv_rarray("facemetric", 3*V.nf, 0.1, 1.0);
	V.area = fv_rarray("area", V.nelem, 0.1, 1.0);
	if (fv_native()) {
		V.intfac = (int*)calloc(4*V.nf+16, sizeof(int));
		for (long f = 0; f < V.nf; f++) {
			V.intfac[4*f] = (int)(fv_real_i("left", f, 0, V.nelem-1e-9));
			V.intfac[4*f+1] = f < V.nb ? V.nelem+V.nc+f : f >= V.nb+V.ni ? V.nelem+f-V.nb-V.ni
				: (V.intfac[4*f] + 1 + (int)fv_real_i("right", f, 0, V.nelem-1-1e-9)) % V.nelem;
			V.intfac[4*f+2] = (int)(fv_real_i("p1", f, 0, V.npoin-1e-9));
			V.intfac[4*f+3] = (int)(fv_real_i("p2", f, 0, V.npoin-1e-9));
			const double x = V.fm[3*f]-0.55, y = V.fm[3*f+1]-0.55, l = __builtin_sqrt(x*x+y*y)+1e-30;
			V.fm[3*f] = x/l; V.fm[3*f+1] = y/l;
		}
	}
	else
		V.intfac = fv_iarray("intfac", 4*V.nf, 0, 1<<30, vm_intfac, &V);
	V.btags = fv_iarray("btags", V.nf, 1, 2, nullptr, nullptr);
	set2d(V.m->btags, V.btags, V.nf, 1);
	set2d(V.m->intfac, V.intfac, V.nf, 4);
	set2d(V.m->facemetric, V.fm, V.nf, 3);
	set2d(V.m->area, V.area, V.nelem, 1);
}
// data of a distributed mesh: global indices of the cells and connectivity faces (columns: cell, ..., global index of the neighbour, ...)
static void vmesh_global(VMesh& V)
{
	V.glob = fv_iarray("glob", V.nelem, 0, 1<<20, nullptr, nullptr);
	V.connface = fv_iarray("connface", 5*V.nc, 0, 1<<20, nullptr, nullptr);
	set2d(V.m->connface, V.connface, V.nc, 5);
	auto& g = V.m->globalElemIndex;
	g._M_impl._M_start = V.glob; g._M_impl._M_finish = V.glob + V.nelem; g._M_impl._M_end_of_storage = V.glob + V.nelem;
}
