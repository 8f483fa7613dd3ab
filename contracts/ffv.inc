// FlowFV objects with the members a contract needs; flux and boundary conditions are arbitrary deterministic functions
#include "gas.hpp"
#include "mesh.inc"
#include "spatial/flow_spatial.hpp"
struct AnyFlux : public InviscidFlux<double> {
	AnyFlux(const IdealGasPhysics<double> *const p) : InviscidFlux<double>(p) { }
	static int args(const double *ul, const double *ur, const double *n, double *a)
	{
		for (int i = 0; i < 4; i++) { a[i] = ul[i]; a[4+i] = ur[i]; }
		a[8] = n[0]; a[9] = n[1];
		return 10;
	}
	void get_flux(const double *const ul, const double *const ur, const double *const n, double *const flux) const
	{
		double a[10]; args(ul, ur, n, a);
		for (int i = 0; i < 4; i++) flux[i] = fv_fn("F", i, a, 10);
	}
	// minus the derivative for the left state, the derivative for the right state (judged under C04)
	void get_jacobian(const double *const ul, const double *const ur, const double *const n, double *const dl, double *const dr) const
	{
		double a[10]; args(ul, ur, n, a);
		for (int i = 0; i < 16; i++) { dl[i] = fv_fn("FL", i, a, 10); dr[i] = fv_fn("FR", i, a, 10); }
	}
};
struct AnyBC : public FlowBC<double> {
	int id;
	AnyBC(const IdealGasPhysics<double>& p, int i) : FlowBC<double>(SLIP_WALL_BC, i, p), id(i) { }
	void computeGhostState(const double *const u, const double *const n, double *const __restrict ug) const
	{
		double a[7] = {(double)id, n[0], n[1], u[0], u[1], u[2], u[3]};
		for (int i = 0; i < 4; i++) ug[i] = fv_fn("B", i, a, 7);
	}
	void computeGhostStateAndJacobian(const double *const u, const double *const n, double *const __restrict ug, double *const __restrict d) const
	{
		double a[7] = {(double)id, n[0], n[1], u[0], u[1], u[2], u[3]};
		computeGhostState(u, n, ug);
		for (int i = 0; i < 16; i++) d[i] = fv_fn("BJ", i, a, 7);
	}
};
typedef std::map<int,const FlowBC<double>*> BCMap;
typedef std::_Rb_tree_node<std::pair<const int,const FlowBC<double>*>> BCNode;
// a map with two entries, tags 1 and 2 (built by hand: the tree insertion lives in the C++ library)
static void bcmap(const BCMap& cm, const FlowBC<double> *b1, const FlowBC<double> *b2)
{
	BCMap& m = const_cast<BCMap&>(cm);
	BCNode *x = (BCNode*)calloc(1, sizeof(BCNode)), *y = (BCNode*)calloc(1, sizeof(BCNode));
	auto *h = &m._M_t._M_impl._M_header;
	const_cast<int&>(x->_M_valptr()->first) = 1; x->_M_valptr()->second = b1;
	const_cast<int&>(y->_M_valptr()->first) = 2; y->_M_valptr()->second = b2;
	x->_M_color = std::_S_black; x->_M_parent = h; x->_M_right = y;
	y->_M_color = std::_S_red; y->_M_parent = x;
	h->_M_color = std::_S_red; h->_M_parent = x; h->_M_left = x; h->_M_right = y;
	m._M_t._M_impl._M_node_count = 2;
}
template <class S>
static S *flowobj(const VMesh& V, const IdealGasPhysics<double>& ph, const InviscidFlux<double> *fl, bool visc)
{
	S *s = (S*)calloc(1, sizeof(S));
	new ((void*)&s->physics) IdealGasPhysics<double>(ph);
	new ((void*)&s->jphy) IdealGasPhysics<double>(ph);
	*(const InviscidFlux<double>**)&s->inviflux = fl;
	*(const InviscidFlux<double>**)&s->jiflux = fl;
	*(const UMesh<double,2>**)&s->m = V.m;
	const_cast<FlowPhysicsConfig&>(s->pconfig).viscous_sim = visc;
	return s;
}
