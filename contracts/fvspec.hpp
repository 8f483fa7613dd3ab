/* Specification vocabulary of the contract harnesses.
 * Under the verifier these are interpreted symbolically (fvc/intrinsics.py);
 * in the native replay they are implemented by native/fvrt.cpp on concrete inputs.
 */
#ifndef FVSPEC_HPP
#define FVSPEC_HPP
extern "C" {
/* inputs: unconstrained real / integer in [lo,hi]; lo/hi of reals only guide the search for counterexamples */
double fv_real(const char *name, double lo, double hi);
double fv_real_i(const char *name, long i, double lo, double hi);
/* a unit vector of the plane (all of them: any (x,y) with x^2+y^2=1) */
void fv_unit2(const char *name, double *xy);
long fv_int(const char *name, long lo, long hi);
/* arrays of symbolic length n; for reals lo/hi guide the search only; for integers lo <= value <= hi is assumed,
 * and inv(ctx, index, value) may assume more */
double *fv_rarray(const char *name, long n, double lo, double hi);
int *fv_iarray(const char *name, long n, long lo, long hi, void (*inv)(void *ctx, long idx, long val), void *ctx);
/* precondition */
void fv_assume(bool c);
/* postconditions */
void fv_ensure(bool c, const char *label);
void fv_ensure_eq(double a, double b, const char *label);
void fv_ensure_le(double a, double b, const char *label);
void fv_ensure_lt(double a, double b, const char *label);
void fv_ensure_ieq(long a, long b, const char *label);
/* proved here, then used as a hypothesis */
void fv_lemma(bool c, const char *label);
/* partial derivative of an output with respect to a named real input */
double fv_diff(double e, const char *var);
double fv_diff_i(double e, const char *var, long i);
/* the contract is not vacuous: this point must be reachable */
void fv_reach(const char *label);
bool fv_native();
/* replace calls to function f (mangled name) by stub (function pointer) from here on */
void fv_contract(const char *mangled, void *stub);
/* loops: cb(ctx, k, phase) states the invariant (phase 0 loop entry, 1 loop head, 2 end of the iteration; k = value of
 * the loop counter there) through fv_inv*: proved in phases 0 and 2, assumed in phase 1.
 * fv_inv_eq/fv_inv_sum on memory the loop does not modify are skipped. */
void fv_loop_candidate(void (*cb)(void *ctx, long k, int phase), void *ctx);
void fv_clear_candidates();
void fv_inv(bool c, const char *label);
void fv_inv_eq(const double *p, double value, const char *label);
void fv_inv_sum(const double *p, long stride, long col, double value, const char *label);
/* in a loop callback: the i-th array (in order of allocation) the loop modifies and that has no exact summary, or null */
void *fv_loop_array(int i);
/* *p (the column sum) has grown by delta since the loop was entered; value of the loop counter at entry */
void fv_inv_add(const double *p, double delta, const char *label);
void fv_inv_sum_add(const double *p, long stride, long col, double delta, const char *label);
long fv_loop_start();
/* number of elements of an array (0 natively) */
long fv_length(const void *p);
/* some variable of the loop has grown by sum since the loop was entered (which one is found by its increments; needs
 * option 'acc') */
void fv_inv_acc(double sum, const char *label);
void fv_inv_iacc(long sum, const char *label);
/* ghost: sum over rows of a column of an array */
double fv_ghost_sum(const double *p, long stride, long col);
/* component i of an unknown but deterministic function of n values */
double fv_fn(const char *name, int i, const double *args, int n);
void fv_stop();
/* separate paths for c and not c; returns c */
bool fv_case(bool c);
/* from here on: one path per branch of every conditional expression */
void fv_split(bool on);
}
#endif
