// Iterative solvers on small systems: families of iteration limits, reuse of solver objects, faulty operators.
// usage: krylov OUT.ndjson MODE SEED COUNT [ONLY-ID]      MODE: family | reuse
#include "common.h"
#include "hiopKrylovSolver.hpp"
#include "LinAlgFactory.hpp"
#include <memory>
using namespace hiop;
using vh::J;
static const long long NOTN = -999000000;
static long long lg(double v) { return v != v || v == INFINITY ? 2000000000 : v <= 1e-18 ? -18000000 : v > 1e300 ? 300000000 : (long long)std::llround(std::log10(v) * 1e6); }
struct Mat {
  int n; std::vector<double> a;
  void mul(const double* x, double* y) const { for(int i = 0; i < n; i++) { double s = 0; for(int j = 0; j < n; j++) s += a[i * n + j] * x[j]; y[i] = s; } }
};
struct Opr : hiopLinearOperator {
  const Mat& A; long apps = 0; long bad_from = -1; double bad = NAN; bool aliased = false;
  Opr(const Mat& A_) : A(A_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) override {
    std::vector<double> xx(x.local_data_const(), x.local_data_const() + A.n);
    A.mul(xx.data(), y.local_data());
    if(bad_from >= 0 && apps >= bad_from) y.local_data()[apps % A.n] = bad;
    apps++; return true;
  }
  bool trans_times_vec(hiopVector&, const hiopVector&) override { abort(); }
};
struct Case {
  vh::Rng rng; int n; Mat A, M; int kind, prec; bool pcg; double tol; bool spd = false, good = false; std::vector<double> b, x0; bool hasx0;
  Case(unsigned long long s) : rng(s) {
    n = 1 + rng.below(6); A.n = M.n = n; A.a.assign(n * n, 0); M.a.assign(n * n, 0);
    pcg = rng.below(2); kind = rng.below(9); prec = rng.below(4);
    auto r = [&](int lo, int hi) { return lo + (int)rng.below(hi - lo + 1); };
    std::vector<double> B(n * n); for(auto& v : B) v = r(-3, 3);
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
      double& a = A.a[i * n + j];
      double bb = 0; for(int k = 0; k < n; k++) bb += B[k * n + i] * B[k * n + j];
      double sy = B[std::min(i, j) * n + std::max(i, j)];
      switch(kind) {
        case 0: case 1: a = bb + (i == j ? 1 : 0); break;                                          // positive definite
        case 2: a = i == j ? 1 + std::fabs(B[i * n + i]) : 0; break;                               // diagonal
        case 3: a = sy; break;                                                                      // symmetric, indefinite
        case 4: a = i == j ? 12 + 2 * std::fabs(B[i * n + i]) : B[i * n + j] / 2; break;           // nonsymmetric, dominant
        case 5: a = B[i * n + j]; break;                                                            // nonsymmetric
        case 6: a = bb; for(int q = 0; q < 1; q++) if(i == n - 1 || j == n - 1) a = 0; break;      // semidefinite (singular)
        case 7: a = (i == j ? (i % 2 ? -1. : 1.) * (1 + i) : 0); break;                            // diagonal, indefinite
        case 8: a = (i == j ? std::pow(10., 2 * i - 4) : 0); break;                                // badly scaled
      }
    }
    spd = kind <= 2; good = kind == 2 || kind == 4;
    for(int i = 0; i < n; i++) M.a[i * n + i] = A.a[i * n + i] != 0 ? 1 / std::fabs(A.a[i * n + i]) : 1;
    tol = std::pow(10., -r(1, 10));
    b.resize(n); for(auto& v : b) v = r(-4, 4);
    if(rng.below(12) == 0) for(auto& v : b) v = 0;
    if(rng.below(20) == 0) for(auto& v : b) v *= 1e150;
    hasx0 = rng.below(2); x0.resize(n); for(auto& v : x0) v = r(-3, 3);
  }
  std::unique_ptr<hiopVector> vec(const std::vector<double>& v) {
    std::unique_ptr<hiopVector> p(LinearAlgebraFactory::create_vector("DEFAULT", n)); for(int i = 0; i < n; i++) p->local_data()[i] = v[i]; return p;
  }
  struct S { std::unique_ptr<Opr> A, L, R; std::unique_ptr<hiopKrylovSolver> k; bool pcg;
    bool solve(hiopVector* b) { return pcg ? static_cast<hiopPCGSolver*>(k.get())->solve(b) : static_cast<hiopBiCGStabSolver*>(k.get())->solve(b); } };
  S solver(const hiopVector* x0v) {
    S s; s.pcg = pcg; s.A.reset(new Opr(A));
    if(prec & 1) s.L.reset(new Opr(M));
    if(prec & 2) s.R.reset(new Opr(M));
    if(pcg) s.k.reset(new hiopPCGSolver(n, s.A.get(), s.L.get(), s.R.get(), x0v)); else s.k.reset(new hiopBiCGStabSolver(n, s.A.get(), s.L.get(), s.R.get(), x0v));
    s.k->set_tol(tol); return s;
  }
  // one solve and what can be observed of it
  void go(S& s, const std::vector<double>& rhs, int lim, const char* what, int k) {
    auto v = vec(rhs); s.A->apps = 0; s.k->set_max_num_iter(lim);
    bool ret = s.solve(v.get());
    const double* x = v->local_data();
    long double nb = 0, nr = 0; bool fin = true, zero = true, zx = true;
    long double mx = 0; for(double d : rhs) { mx = std::max(mx, (long double)std::fabs(d)); if(d != 0) zero = false; }
    if(mx == 0) mx = 1;
    for(int i = 0; i < n; i++) { if(!std::isfinite(x[i])) fin = false; if(x[i] != 0) zx = false; }
    for(int i = 0; i < n; i++) { long double t = rhs[i]; nb += (t / mx) * (t / mx); for(int j = 0; j < n; j++) t -= (long double)A.a[i * n + j] * x[j]; nr += (t / mx) * (t / mx); }
    double rel = zero ? (double)std::sqrt((double)nr) : (double)(sqrtl(nr) / sqrtl(nb));
    unsigned long long h = 1469598103934665603ull; for(int i = 0; i < n; i++) { double d = x[i] == 0 ? 0 : x[i]; unsigned char c[8]; memcpy(c, &d, 8); for(auto q : c) { h ^= q; h *= 1099511628211ull; } }
    std::string info = s.k->get_convergence_info(); int said = (info.find("converged: actual") != std::string::npos ? 1 : 0) + (info.find("NOT converged") != std::string::npos ? 2 : 0);
    double n2 = (double)(sqrtl(nb) * mx);
    bool bfin = true; for(double d : rhs) if(!std::isfinite(d)) bfin = false;
    vh::ev(J::obj().kv("e", what).kv("k", k).kv("lim", lim).kv("ret", ret).kv("flag", s.k->get_convergence_flag()).kv("it2", (long long)std::llround(2 * s.k->get_sol_num_iter()))
      .kv("tol", lg(tol)).kv("rel", bfin ? lg(rel) : 2000000000).kv("rr", lg(s.k->get_sol_rel_resid())).kv("ra", zero ? lg(s.k->get_sol_abs_resid()) : lg(s.k->get_sol_abs_resid() / n2))
      .kv("fin", fin).kv("zero", zero).kv("zx", zx).kv("apps", (long long)s.A->apps).kv("said", said).kv("hx", std::to_string(h)));
  }
  std::string meta(const char* mode) { return J::obj().kv("mode", mode).kv("pcg", pcg).kv("n", n).kv("kind", kind).kv("prec", prec).kv("spd", spd).kv("good", good).kv("hasx0", hasx0).str(); }
};
static void family(Case& c) {
  int K = c.rng.below(6) == 0 ? 260 : 3 + (int)c.rng.below(14); bool inf = c.rng.below(25) == 0;
  auto b = c.b; if(inf) b[c.rng.below(c.n)] = c.rng.below(2) ? INFINITY : NAN;
  long badf = c.rng.below(6) == 0 ? (long)c.rng.below(8) : -1; double bad = c.rng.below(2) ? NAN : INFINITY;
  vh::ev(J::obj().kv("e", "new").kv("fault", badf >= 0).kv("inf", inf));
  for(int k = 0; k <= K; k = K > 100 && k > 8 ? k + 35 : k + 1) {
    auto x0 = c.vec(c.x0); auto s = c.solver(c.hasx0 ? x0.get() : nullptr); s.A->bad_from = badf; s.A->bad = bad;
    c.go(s, b, k, "fam", k);
  }
  vh::ev(J::obj().kv("e", "end"));
}
static void reuse(Case& c) {
  vh::ev(J::obj().kv("e", "new").kv("fault", false).kv("inf", false));
  auto x0 = c.vec(c.x0); auto s = c.solver(c.hasx0 ? x0.get() : nullptr);
  for(int q = 0; q < 4; q++) {
    auto b = c.b; for(auto& v : b) v = c.rng.below(8) ? v * (1 + (int)c.rng.below(3)) - (int)c.rng.below(3) : v;
    if(c.rng.below(5) == 0) for(auto& v : b) v = 0;
    int lim = 1 + (int)c.rng.below(12); double st = (int)c.rng.below(3) - 1;
    if(c.rng.below(2)) { c.tol = std::pow(10., -1 - (int)c.rng.below(10)); s.k->set_tol(c.tol); }
    bool warm = q > 0 && c.rng.below(3) == 0;
    s.A->bad_from = c.rng.below(8) == 0 ? (long)c.rng.below(4) : -1;
    if(!warm) s.k->set_x0(st);
    if(s.A->bad_from >= 0) { c.go(s, b, lim, "broken", q); s.A->bad_from = -1; s.k->set_x0(st); warm = false; }
    c.go(s, b, lim, warm ? "warm" : "old", q);
    if(warm) { c.go(s, b, lim, "again", q); continue; }
    auto xs = c.vec(std::vector<double>(c.n, st)); auto f = c.solver(xs.get());
    c.go(f, b, lim, "fresh", q);
  }
  vh::ev(J::obj().kv("e", "end"));
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; unsigned long long seed = strtoull(argv[3], 0, 10); long N = atol(argv[4]); if(argc > 5) R.only = argv[5];
  for(long i = 0; i < N; i++) {
    unsigned long long s = seed * 1000003ull + i * 7919 + (mode == "reuse" ? 500000011ull : 0);
    Case c(s);
    R.run(mode + "-" + std::to_string(i), c.meta(mode.c_str()), [&] { mode == "reuse" ? reuse(c) : family(c); });
  }
  return 0;
}
