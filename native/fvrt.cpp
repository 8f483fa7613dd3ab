// Native meaning of the specification vocabulary: runs a contract on concrete inputs.
//   replay --run CONTRACT INPUTFILE          run once on the recorded inputs
//   replay --search CONTRACT N SECONDS SEED OUT   random inputs; first failing input is written to OUT
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <set>
#include <random>
#include <chrono>
#include <algorithm>
#include <csetjmp>
#include <csignal>
#include <dlfcn.h>
#include <exception>

struct Rejected {};
static std::map<std::string, double> values;
static std::map<std::string, double> perturb;
static std::set<std::string> used;
static bool searching = false;
static std::mt19937_64 rng;
static sigjmp_buf jb;
static volatile int jmpcode = 0;
static bool reached = false;
static double scale = 1;
struct Fail { std::string label; double a, b; };
static std::vector<Fail> fails;
static int nensure = 0;
// derivative machinery
struct DCall { std::string var; double val; };
static int phase = 0;     // 0 record, 1 perturbed record, 2 final
static std::vector<DCall> dcalls;
static std::vector<std::vector<double>> dvals;   // per call: values at the perturbations
static std::vector<double> dres, derr;
static size_t dnext = 0;
static double tolabs = 1e-7;
static double tolmul = 1;

static double uni() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static std::vector<double> recent;

static double get(const std::string& n, double lo, double hi)
{
	used.insert(n);
	auto it = values.find(n);
	double v;
	if (it != values.end()) v = it->second;
	else {
		double u = uni();
		if (u < 0.75 || !searching) v = lo + (hi - lo) * uni();
		else if (u < 0.80) v = lo;
		else if (u < 0.84) v = hi;
		else if (u < 0.90 && lo <= 0 && hi >= 0) v = 0;
		else if (u < 0.93 && lo <= 1 && hi >= 1) v = 1;
		else if (!recent.empty()) { v = recent[rng() % recent.size()]; if (v < lo || v > hi) v = lo + (hi - lo) * uni(); }
		else v = lo + (hi - lo) * uni();
		values[n] = v;
		recent.push_back(v);
	}
	auto p = perturb.find(n);
	if (p != perturb.end()) v += p->second;
	scale = std::max(scale, std::fabs(v));
	return v;
}

extern "C" {
double fv_real(const char *n, double lo, double hi) { return get(n, lo, hi); }
double fv_real_i(const char *n, long i, double lo, double hi) { return get(std::string(n) + std::to_string(i), lo, hi); }
void fv_unit2(const char *n, double *xy)
{
	std::string s(n);
	if (values.count(s + "x") && values.count(s + "y")) {
		double x = values[s + "x"], y = values[s + "y"];
		double l = std::sqrt(x*x + y*y);
		xy[0] = x / l; xy[1] = y / l;
		return;
	}
	double t = get(s + "t", -3.15, 3.15);
	xy[0] = std::cos(t); xy[1] = std::sin(t);
}
long fv_int(const char *n, long lo, long hi)
{
	std::string s(n);
	used.insert(s);
	auto it = values.find(s);
	if (it == values.end()) {
		long h = std::min(hi, lo + 6);
		values[s] = (double)(lo + (long)(rng() % (unsigned long)(h - lo + 1)));
	}
	long v = (long)values[s];
	if (v < lo || v > hi) throw Rejected();
	return v;
}
double *fv_rarray(const char *n, long len, double lo, double hi)
{
	double *p = (double*)calloc((size_t)len + 16, sizeof(double));
	for (long i = 0; i < len; i++) p[i] = get(std::string(n) + "[" + std::to_string(i) + "]", lo, hi);
	return p;
}
int *fv_iarray(const char *n, long len, long lo, long hi, void (*inv)(void*, long, long), void *ctx)
{
	int *p = (int*)calloc((size_t)len + 16, sizeof(int));
	for (long i = 0; i < len; i++) {
		std::string s = std::string(n) + "[" + std::to_string(i) + "]";
		bool have = values.count(s);
		for (int att = 0; ; att++) {
			if (!have) {
				if (hi < lo) throw Rejected();
				values[s] = (double)(lo + (long)(rng() % (unsigned long)(hi - lo + 1)));
			}
			p[i] = (int)values[s];
			if (p[i] < lo || p[i] > hi) throw Rejected();
			try { if (inv) inv(ctx, i, p[i]); break; }
			catch (Rejected&) { if (have || att > 50) throw; }
		}
	}
	return p;
}
void fv_assume(bool c) { if (!c) throw Rejected(); }
static void chk(bool ok, const char *l, double a, double b)
{
	nensure++;
	if (!ok) fails.push_back({l, a, b});
}
void fv_ensure(bool c, const char *l) { chk(c, l, c, 1); }
void fv_lemma(bool c, const char *l) { chk(c, l, c, 1); }
static double etol() { double e = 0; for (double d : derr) e = std::max(e, d); return e; }
void fv_ensure_eq(double a, double b, const char *l)
{
	if (phase != 2) return;
	if (!std::isfinite(a) && !std::isfinite(b)) return;	// degenerate input: the specification has no value either
	double t = tolmul * tolabs * (scale + std::fabs(a) + std::fabs(b)) + 50 * tolmul * etol();
	chk(std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= t, l, a, b);
}
void fv_ensure_le(double a, double b, const char *l)
{
	double t = tolmul * tolabs * (scale + std::fabs(a) + std::fabs(b)) + 50 * tolmul * etol();
	if (phase != 2) return;
	chk(a <= b + t, l, a, b);
}
void fv_ensure_lt(double a, double b, const char *l)
{
	double t = tolmul * 1e-11 * (scale + std::fabs(a) + std::fabs(b)) + 50 * tolmul * etol();
	if (phase != 2) return;
	chk(a < b + t, l, a, b);
}
void fv_ensure_ieq(long a, long b, const char *l) { chk(a == b, l, (double)a, (double)b); }
double fv_diff(double e, const char *var)
{
	size_t k = dnext++;
	if (phase == 0) { dcalls.push_back({var, e}); return 0; }
	if (phase == 1) { if (k < dvals.size()) dvals[k].push_back(e); return 0; }
	scale = std::max(scale, k < dres.size() ? std::fabs(dres[k]) : 0);
	return k < dres.size() ? dres[k] : 0;
}
double fv_diff_i(double e, const char *var, long i) { return fv_diff(e, (std::string(var) + std::to_string(i)).c_str()); }
void fv_reach(const char*) { reached = true; }
bool fv_native() { return true; }
void fv_contract(const char*, void*) {}
void fv_loop_candidate(void (*)(void*, long, int), void*) {}
void fv_clear_candidates() {}
void *fv_loop_array(int) { return nullptr; }
long fv_loop_start() { return 0; }
void fv_inv_add(const double*, double, const char*) {}
void fv_inv_sum_add(const double*, long, long, double, const char*) {}
void fv_inv_acc(double, const char*) {}
void fv_inv_iacc(long, const char*) {}
long fv_length(const void*) { return 0; }
void fv_inv(bool, const char*) {}
void fv_inv_eq(const double*, double, const char*) {}
void fv_inv_sum(const double*, long, long, double, const char*) {}
double fv_ghost_sum(const double *, long, long) { return 0; }
double fv_fn(const char *name, int i, const double *args, int n)
{
	double s = 0.1 * i;
	for (const char *c = name; *c; c++) s += 0.37 * (*c & 31);
	double r = 0;
	for (int k = 0; k < n; k++) { s = 1.7 * s + 0.31; s -= std::floor(s); r += std::sin(3 * args[k] + 6 * s) * (0.3 + s); }
	return r;
}
void fv_split(bool) {}
bool fv_case(bool c) { return c; }
void fv_stop() { throw Rejected(); }
}

static void onsig(int s) { jmpcode = s; siglongjmp(jb, 1); }

typedef void (*cfun)();
// 0 ok, 1 failure, 2 rejected
static int onepass(cfun f)
{
	fails.clear(); nensure = 0; dnext = 0; reached = false; scale = 1;
	if (sigsetjmp(jb, 1)) {
		char b[64];
		snprintf(b, sizeof b, "abnormal termination (signal %d)", jmpcode);
		fails.push_back({b, 0, 0});
		return 1;
	}
	try { f(); }
	catch (Rejected&) { return 2; }
	catch (std::exception& e) { fails.push_back({std::string("exception: ") + e.what(), 0, 0}); return 1; }
	catch (...) { fails.push_back({"exception", 0, 0}); return 1; }
	return fails.empty() ? 0 : 1;
}

static int once(cfun f)
{
	dcalls.clear(); dvals.clear(); dres.clear(); derr.clear(); perturb.clear();
	phase = 0;
	int r = onepass(f);
	if (r == 2) return 2;
	if (r == 1 && dcalls.empty()) {
		phase = 2;
		return onepass(f);
	}
	if (!dcalls.empty()) {
		std::vector<DCall> calls = dcalls;
		std::set<std::string> vars;
		for (auto& c : calls) vars.insert(c.var);
		dres.assign(calls.size(), 0); derr.assign(calls.size(), 0);
		phase = 1;
		for (auto& v : vars) {
			double x = values.count(v) ? values[v] : 1.0;
			double h = 1e-4 * std::max(0.05, std::fabs(x));
			std::vector<std::vector<double>> all;
			dvals.assign(calls.size(), {});
			double hs[4] = {h, -h, h / 2, -h / 2};
			for (double hh : hs) {
				perturb.clear(); perturb[v] = hh;
				std::vector<Fail> keep;
				if (onepass(f) == 2) return 2;
			}
			perturb.clear();
			for (size_t k = 0; k < calls.size(); k++)
				if (calls[k].var == v) {
					if (dvals[k].size() != 4) return 2;
					double d1 = (dvals[k][0] - dvals[k][1]) / (2 * h), d2 = (dvals[k][2] - dvals[k][3]) / h;
					dres[k] = (4 * d2 - d1) / 3;
					// kinks: one-sided slopes disagree
					double fp = (dvals[k][0] - calls[k].val) / h, fm = (calls[k].val - dvals[k][1]) / h;
					double sc = 1 + std::fabs(dres[k]);
					if (std::fabs(fp - fm) > 0.05 * sc) return 2;
					derr[k] = std::fabs(dres[k] - d2) + 1e-8 * std::fabs(calls[k].val) ;
				}
		}
	}
	phase = 2;
	return onepass(f);
}

static void dump(const char *out, const char *name)
{
	FILE *o = fopen(out, "w");
	if (!o) return;
	fprintf(o, "contract %s\n", name);
	for (auto& f : fails) fprintf(o, "# FAIL %s: %.17g vs %.17g\n", f.label.c_str(), f.a, f.b);
	for (auto& v : values) fprintf(o, "%s %.17g\n", v.first.c_str(), v.second);
	fclose(o);
}

int main(int argc, char **argv)
{
	if (argc < 4) return 64;
	signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
	std::string mode = argv[1];
	cfun f = (cfun)dlsym(RTLD_DEFAULT, argv[2]);
	if (!f) { fprintf(stderr, "no contract %s\n", argv[2]); return 64; }
	if (mode == "--run") {
		FILE *in = fopen(argv[3], "r");
		if (!in) return 64;
		char line[4096];
		while (fgets(line, sizeof line, in)) {
			if (line[0] == '#') continue;
			char n[3000]; double v;
			if (sscanf(line, "%2999s %lf", n, &v) == 2) values[n] = v;
		}
		fclose(in);
		int r = once(f);
		if (r == 1) {
			for (auto& x : fails) printf("FAIL %s: %.17g vs %.17g\n", x.label.c_str(), x.a, x.b);
			if (argc > 4) dump(argv[4], argv[2]);
			return 1;
		}
		printf(r == 0 ? "HOLDS\n" : "PRECONDITION-NOT-MET\n");
		return r == 0 ? 0 : 2;
	}
	long n = atol(argv[3]);
	double secs = atof(argv[4]);
	unsigned long seed = strtoul(argv[5], nullptr, 10);
	searching = true;
	auto t0 = std::chrono::steady_clock::now();
	long ran = 0, rej = 0;
	int only = 0;
	std::set<std::string> want, known;
	if (argc > 7 && argv[7][0] == '1') tolmul = 1000;
	// argv[8...]: label prefixes ('=x' only these, '-x' failures to ignore)
	for (int i = 8; i < argc; i++) {
		if (argv[i][0] == '=') want.insert(argv[i] + 1);
		if (argv[i][0] == '-') known.insert(argv[i] + 1);
	}
	std::map<std::string, double> fixed = values;
	for (long i = 0; i < n; i++) {
		if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
		rng.seed(seed * 1000003UL + (unsigned long)i);
		values = fixed; recent.clear();
		int r = once(f);
		if (r == 2) { rej++; continue; }
		ran++;
		if (r == 1) {
			std::vector<Fail> keep;
			for (auto& x : fails) {
				bool k = false;
				for (auto& p : known) if (x.label.compare(0, p.size(), p) == 0) k = true;
				if (!want.empty() && !want.count(x.label)) k = true;
				if (!k) keep.push_back(x);
			}
			if (keep.empty()) continue;
			fails = keep;
			dump(argv[6], argv[2]);
			for (auto& x : fails) printf("FAIL %s: %.17g vs %.17g\n", x.label.c_str(), x.a, x.b);
			printf("RAN %ld REJECTED %ld\n", ran, rej);
			return 1;
		}
	}
	(void)only;
	printf("RAN %ld REJECTED %ld\n", ran, rej);
	return 0;
}
