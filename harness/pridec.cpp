// Drives hiopAlgPrimalDecomposition on the deterministic MPI and records what the user's problem sees.
// usage: pridec OUT.ndjson MODE SEED COUNT [ONLY-ID]
//   MODE: rand  - random sizes, policies, seeds;   dfs - systematic delivery orders of small configurations
//         outer - outer loop comparisons (same problem, all process counts)
#include "fakempi.h"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include "LinAlgFactory.hpp"
#include <mpi.h>
using namespace hiop;
using vh::J;

struct Par {
  int P, S, n, nc, maxit, local, policy; uint64_t seed; bool coarse = false, eager = true; std::vector<int> choices; std::vector<int> xi; int kind = 0;
  double tol = 1e-300, acctol = 1e-300; int acccnt = 10; double amin = 1e-5, amax = 1e6;
};

static std::string ivec(const double* x, int n) { J a = J::arr(); for(int i = 0; i < n; i++) a.add(vh::i_or(x[i])); return a.str(); }

// scripted problem: all values are integers that identify term, point and component
struct Scripted : public hiopInterfacePriDecProblem {
  const Par& p; int k = 0; double obj = 0;
  std::vector<double> x;
  Scripted(const Par& p_) : p(p_), x(p_.n, 0.) {}
  static int xval(int k, int j) { return 1 + ((k * 13 + j * 7 + k * j) % 50); }
  hiopSolveStatus solve_master(hiopVector& xv, const bool& inc, const double& rval, const double* g, const double* h, const char* of) override {
    double* a = xv.local_data();
    for(int j = 0; j < p.n; j++) x[j] = a[j] = xval(k, j);
    k++;
    obj = 5000. - 100. * k;
    vh::ev(J::obj().kv("e", "master").kv("r", fm::rank()).kv("inc", inc).raw("x", ivec(a, p.n)));
    return Solve_Success;
  }
  static long long fval(int S, int idx, int nc, const double* x) {
    long long v = (long long)(idx + 1) * (idx + 1) * 3 + 100; for(int j = 0; j < nc; j++) v += (long long)(idx % 5 + j + 1) * (long long)x[j]; return v * S;
  }
  static long long gval(int S, int idx, int j, const double* x) { return (long long)S * ((idx + 1) * (j + 2) + (long long)x[j] * (idx % 3 + 1)); }
  bool eval_f_rterm(size_type idx, const int& n, const double* x, double& r) override {
    r = n == p.nc ? (double)fval(p.S, (int)idx, n, x) : 0.;
    vh::ev(J::obj().kv("e", "f").kv("r", fm::rank()).kv("i", (long long)idx).raw("x", ivec(x, n)).kv("v", vh::i_or(r)));
    return true;
  }
  bool eval_grad_rterm(size_type idx, const int& n, double* x, hiopVector& grad) override {
    double* g = grad.local_data();
    for(int j = 0; j < n; j++) g[j] = (double)gval(p.S, (int)idx, j, x);
    vh::ev(J::obj().kv("e", "g").kv("r", fm::rank()).kv("i", (long long)idx).raw("x", ivec(x, n)).raw("v", ivec(g, n)).kv("n", (long long)grad.get_size()));
    return true;
  }
  size_type get_num_rterms() const override { return p.S; }
  size_type get_num_vars() const override { return p.n; }
  void get_solution(double* o) const override { for(int j = 0; j < p.n; j++) o[j] = x[j]; }
  double get_objective() override { return obj; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* e) override {
    double amin = p.amin, amax = p.amax; bool hok = true; const double* h = e->get_rhess()->local_data();
    for(int j = 0; j < n; j++) if(!(h[j] >= amin && h[j] <= amax) || h[j] != h[0]) hok = false;
    vh::ev(J::obj().kv("e", "approx").kv("r", fm::rank()).kv("v", vh::i_or(e->get_rval())).raw("g", ivec(e->get_rgrad()->local_data(), n))
             .raw("x", ivec(e->get_x0()->local_data(), n)).kv("hok", hok).kv("S", e->get_S()));
    return true;
  }
};

static std::string meta(const Par& p) {
  return J::obj().kv("P", p.P).kv("S", p.S).kv("n", p.n).kv("nc", p.nc).raw("xi", vh::jints(p.xi)).kv("maxit", p.maxit).kv("local", p.local).kv("policy", p.policy).kv("seed", (long long)(p.seed % 1000000000)).kv("coarse", p.coarse).kv("eager", p.eager).raw("choices", vh::jints(p.choices)).str();
}

static fm::Result exec(const Par& p) {
  fm::Config c; c.P = p.P; c.seed = p.seed; c.policy = p.policy; c.coarse = p.coarse; c.choices = p.choices; c.allow_eager = p.eager; c.trace_msgs = p.P > 1;
  fm::on_event = [](const J& j) { vh::ev(j); };
  fm::Result r = fm::run(c, [&](int rank) {
    Scripted prob(p);
    hiopAlgPrimalDecomposition* a = p.nc == p.n && p.xi.empty() ? new hiopAlgPrimalDecomposition(&prob, MPI_COMM_WORLD)
                                                                : new hiopAlgPrimalDecomposition(&prob, p.nc, p.xi.data(), MPI_COMM_WORLD);
    a->set_max_iteration(p.maxit); a->set_tolerance(p.tol); a->set_acceptable_tolerance(p.acctol); a->set_acceptable_count(p.acccnt);
    a->set_verbosity(0);
    if(p.local) a->set_local_accum("yes");
    hiopSolveStatus st = a->run();
    vh::ev(J::obj().kv("e", "ret").kv("r", rank).kv("st", (int)st).kv("it", a->getNumIterations()));
    delete a;
  });
  vh::ev(J::obj().kv("e", "end").kv("ok", r.ok).kv("why", r.why).kv("detail", r.detail).kv("lm", r.leftover_msgs).kv("lr", r.leftover_recvs).kv("dang", r.dangling));
  return r;
}


// ---------------------------------------------------------------- outer loop
struct OPar {
  int S, n, nc, maxit, acccnt; std::vector<int> xi; double tol, acctol, amin, amax, ratio; std::vector<double> a; uint64_t pseed; bool viafile; int laststat; double off;
};
static std::string hx(const double* x, long n) { std::string r; char b[32]; for(long i = 0; i < n; i++) { uint64_t u; double v = x[i] == 0 ? 0. : x[i]; memcpy(&u, &v, 8); snprintf(b, 32, "%016llx", (unsigned long long)u); r += b; } return r; }
static const double G = 1048576.;   // values and gradients are multiples of 2^-20: sums are exact in every order
struct Quad : public hiopInterfacePriDecProblem {
  const OPar& o; std::vector<double> x; double obj = 0; RecourseApproxEvaluator* e = nullptr; int it = -1;
  std::vector<double> pg, px0; double pval = 0, ph = 0, pbase = 0; int calls = 0;
  Quad(const OPar& o_) : o(o_), x(o_.n, 0.) {}
  double fterm(int i, const double* xc) const { double v = o.off + i; for(int j = 0; j < o.nc; j++) { double c = 0.5 + ((i * 7 + j * 3 + (int)(o.pseed % 11)) % 5), b = ((i * 5 + j * 11 + (int)(o.pseed % 7)) % 9) - 4.; v += 0.5 * c * (xc[j] - b) * (xc[j] - b); } return std::nearbyint(v * G) / G; }
  double gterm(int i, int j, const double* xc) const { double c = 0.5 + ((i * 7 + j * 3 + (int)(o.pseed % 11)) % 5), b = ((i * 5 + j * 11 + (int)(o.pseed % 7)) % 9) - 4.; return std::nearbyint(c * (xc[j] - b) * G) / G; }
  int cidx(int j) const { return o.xi.empty() ? j : o.xi[j]; }
  double base(const double* y) const { double v = 10; for(int j = 0; j < o.n; j++) v += 0.5 * (1. + j % 3) * (y[j] - o.a[j]) * (y[j] - o.a[j]); return v; }
  hiopSolveStatus solve_master(hiopVector& xv, const bool& inc, const double&, const double*, const double*, const char*) override {
    double* y = xv.local_data(); double w; std::vector<double> h(o.nc, 0.), z(o.n, 0.), gz(o.n, 0.); bool ok = true;
    for(int j = 0; j < o.n; j++) y[j] = o.a[j];
    if(inc) {
      // the model must be the quadratic it describes; read it only through its evaluation functions
      hiopVector* hv = e->get_rhess()->alloc_clone(); hv->setToZero();
      e->eval_hess(o.n, xv, true, *hv);
      for(int j = 0; j < o.nc; j++) h[j] = hv->local_data()[j];
      delete hv;
      const double* x0 = e->get_x0()->local_data(); const double* g = e->get_rgrad()->local_data();
      for(int j = 0; j < o.n; j++) z[j] = o.a[j];
      for(int j = 0; j < o.nc; j++) z[cidx(j)] = x0[j];
      e->eval_grad(o.n, z.data(), true, gz.data());     // gradient of the model at x0, full size
      for(int j = 0; j < o.nc; j++) { double d = 1. + cidx(j) % 3; y[cidx(j)] = std::min(6., std::max(-6., (d * o.a[cidx(j)] + h[j] * x0[j] - gz[cidx(j)]) / (d + h[j]))); }
      for(int j = 0; j < o.n; j++) { bool c = false; for(int q = 0; q < o.nc; q++) if(cidx(q) == j) { c = true; ok = ok && gz[j] == g[q]; } ok = ok && (c || gz[j] == 0); }
      double m = 0; e->eval_f(o.n, y, true, m);
      double r = e->get_rval(); for(int j = 0; j < o.nc; j++) { double d = y[cidx(j)] - x0[j]; r += g[j] * d + 0.5 * h[j] * d * d; }
      ok = ok && std::fabs(m - r) <= 1e-9 * (1 + std::fabs(r));
      obj = base(y) + m;
    } else obj = base(y);
    for(int j = 0; j < o.n; j++) x[j] = y[j];
    calls++;
    vh::ev(J::obj().kv("e", "master").kv("r", fm::rank()).kv("inc", inc).kv("x", hx(y, o.n)).kv("obj", hx(&obj, 1)).kv("ok", ok));
    static const hiopSolveStatus st[] = {Solve_Success, Solve_Acceptable_Level, Max_Iter_Exceeded};
    return st[(o.laststat + calls) % 3];
  }
  bool eval_f_rterm(size_type i, const int& n, const double* xc, double& r) override { r = fterm((int)i, xc); return true; }
  bool eval_grad_rterm(size_type i, const int& n, double* xc, hiopVector& g) override { for(int j = 0; j < n; j++) g.local_data()[j] = gterm((int)i, j, xc); return true; }
  size_type get_num_rterms() const override { return o.S; }
  size_type get_num_vars() const override { return o.n; }
  void get_solution(double* p) const override { for(int j = 0; j < o.n; j++) p[j] = x[j]; }
  double get_objective() override { return obj; }
  static const char* cmp(double v, double lim, double sc) { if(std::fabs(v - lim) <= 1e-6 * lim + 1e-11 * sc) return "near"; return v < lim ? "lt" : "gt"; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* ev_) override {
    e = ev_; it++;
    const double* x0 = e->get_x0()->local_data(); const double* g = e->get_rgrad()->local_data(); const double* h = e->get_rhess()->local_data(); double v = e->get_rval();
    double s = 0; bool vok, gok = true, cok = true, xok = true;
    for(int i = 0; i < o.S; i++) s += fterm(i, x0);
    vok = std::fabs(s / o.S - v) <= 1e-14 * std::fabs(v);
    for(int j = 0; j < o.nc; j++) { double t = 0; for(int i = 0; i < o.S; i++) t += gterm(i, j, x0); gok = gok && std::fabs(t / o.S - g[j]) <= 1e-14 * std::fabs(t); xok = xok && x0[j] == x[cidx(j)]; cok = cok && h[j] == h[0] && h[j] >= o.amin && h[j] <= o.amax; }
    std::string ct = "gt", ca = "gt"; double convg = 1e20, cf = 0, cg = 0;
    if(it == 0) pbase = obj;   // objective of the base case
    else {
      double lin = 0, s2 = 0, num = 0, den = 0, sc = std::fabs(obj) + std::fabs(v) + std::fabs(pval);
      for(int j = 0; j < o.nc; j++) { double d = x0[j] - px0[j]; lin += pg[j] * d; s2 += d * d; }
      double b = obj - (pval + lin + 0.5 * ph * s2);
      cf = std::fabs(lin + 0.5 * h[0] * s2 + b - pbase);
      for(int j = 0; j < o.nc; j++) { double d = x0[j] - px0[j], q = g[j] - pg[j] - h[0] * d; num += q * q; den += g[j] * g[j]; }
      cg = std::sqrt(num) / std::sqrt(den);
      convg = cg < cf ? cg : cf;
      ct = cmp(convg, o.tol, sc); ca = cmp(convg, o.acctol, sc);
      pbase = b;
    }
    pg.assign(g, g + o.nc); px0.assign(x0, x0 + o.nc); pval = v; ph = h[0];
    vh::ev(J::obj().kv("e", "model").kv("r", fm::rank()).kv("v", hx(&v, 1)).kv("g", hx(g, o.nc)).kv("h", hx(h, o.nc)).kv("x0", hx(x0, o.nc)).kv("vok", vok).kv("gok", gok).kv("cok", cok).kv("xok", xok).kv("nok", n == o.nc && e->get_S() == o.S).kv("ct", ct).kv("ca", ca));
    return true;
  }
};

static void outer(const OPar& o, vh::Rng g) {
  if(o.viafile) {
    FILE* f = fopen("hiop_pridec.options", "w");
    fprintf(f, "tolerance %.17g\nacceptable_tolerance %.17g\nacceptable_iterations %d\nmax_iter %d\nalpha_min %.17g\nalpha_max %.17g\n", o.tol, o.acctol, o.acccnt, o.maxit, o.amin, o.amax);
    fclose(f);
  }
  struct V { int P, local, again; } ; std::vector<V> vs; vs.push_back({1, 0, 0});
  for(int q = 2; q <= 6 && q - 1 <= o.S; q++) { vs.push_back({q, 0, g.coin(.3)}); if(g.coin(.5)) vs.push_back({q, 1, g.coin(.3)}); }
  vs.push_back({1, 0, 1});
  for(auto& v : vs) {
    fm::Config c; c.P = v.P; c.seed = g.next(); c.policy = g.below(4);
    vh::ev(J::obj().kv("e", "run").kv("P", v.P).kv("local", v.local).kv("again", v.again));
    fm::on_event = [](const J&) {};
    fm::Result r = fm::run(c, [&](int rank) {
      Quad prob(o);
      hiopAlgPrimalDecomposition* a = o.xi.empty() ? new hiopAlgPrimalDecomposition(&prob, MPI_COMM_WORLD) : new hiopAlgPrimalDecomposition(&prob, o.nc, o.xi.data(), MPI_COMM_WORLD);
      if(!o.viafile) { a->set_max_iteration(o.maxit); a->set_tolerance(o.tol); a->set_acceptable_tolerance(o.acctol); a->set_acceptable_count(o.acccnt); a->set_alpha_min(o.amin); a->set_alpha_max(o.amax); }
      a->set_verbosity(0); a->set_initial_alpha_ratio(o.ratio);
      if(v.local) a->set_local_accum("yes");
      for(int w = 0; w <= v.again; w++) {
        if(rank == 0 && w) vh::ev(J::obj().kv("e", "run").kv("P", v.P).kv("local", v.local).kv("again", 2));
        if(w) { prob.it = -1; prob.calls = 0; }
        hiopSolveStatus st = a->run();
        double ob = a->getObjective(); hiopVector* sx = LinearAlgebraFactory::create_vector("DEFAULT", o.n); sx->setToConstant(-777.);
        if(rank == 0) a->getSolution(*sx);
        vh::ev(J::obj().kv("e", "ret").kv("r", rank).kv("st", (int)st).kv("exp", (o.laststat + prob.calls) % 3 == 0 ? (int)Solve_Success : (o.laststat + prob.calls) % 3 == 1 ? (int)Solve_Acceptable_Level : (int)Max_Iter_Exceeded)
                 .kv("it", a->getNumIterations()).kv("obj", hx(&ob, 1)).kv("x", hx(sx->local_data(), o.n)));
        delete sx;
        if(v.again && !w) MPI_Barrier(MPI_COMM_WORLD);
      }
      delete a;
    });
    vh::ev(J::obj().kv("e", "end").kv("ok", r.ok).kv("why", r.why));
  }
  if(o.viafile) unlink("hiop_pridec.options");
}

int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); long count = atol(argv[4]);
  if(argc > 5) R.only = argv[5];
  if(mode == "rand") {
    for(long t = 0; t < count; t++) {
      vh::Rng g(seed * 1000003 + t); Par p;
      p.P = t % 9 == 0 ? 1 : g.range(2, 6); p.S = g.range(std::max(1, p.P - 1), g.coin(.3) ? p.P - 1 + 1 : 11); if(p.S < p.P - 1) p.S = p.P - 1;
      p.n = g.range(1, 5); p.nc = g.range(1, p.n);
      if(p.nc < p.n || g.coin(.3)) { std::vector<int> all; for(int i = 0; i < p.n; i++) all.push_back(i); for(int i = p.n - 1; i > 0; i--) std::swap(all[i], all[g.below(i + 1)]); all.resize(p.nc); if(p.nc == p.n) { p.xi.clear(); for(int i = 0; i < p.n; i++) p.xi.push_back(i); } else p.xi = all; }
      p.maxit = g.range(1, 4); p.local = g.coin(.3); p.policy = g.below(4); p.seed = g.next(); p.eager = g.coin(.7);
      R.run("rand-" + std::to_string(seed) + "-" + std::to_string(t), meta(p), [&] { exec(p); });
    }
  } else if(mode == "outer") {
    for(long t = 0; t < count; t++) {
      vh::Rng g(seed * 7000003 + t); OPar o;
      o.S = g.coin(.2) ? g.range(1, 3) : g.range(2, 12); o.n = g.range(1, 5); o.nc = g.coin(.5) ? o.n : g.range(1, o.n); o.pseed = g.next() >> 8;
      if(o.nc < o.n || g.coin(.3)) { std::vector<int> all; for(int i = 0; i < o.n; i++) all.push_back(i); if(o.nc < o.n) for(int i = o.n - 1; i > 0; i--) std::swap(all[i], all[g.below(i + 1)]); all.resize(o.nc); o.xi = all; }
      o.maxit = g.coin(.4) ? g.range(1, 6) : g.range(7, 30);
      static const double tl[] = {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7}; o.tol = tl[g.below(7)]; o.acctol = o.tol * (g.coin(.3) ? 1. : std::pow(10., g.range(1, 3)));
      if(o.acctol > 0.1) o.acctol = 0.1; o.acccnt = g.range(1, 6); o.amin = g.coin(.5) ? 1e-5 : g.coin() ? 0.5 : 2.; o.amax = g.coin(.5) ? 1e6 : o.amin * (1 + g.below(4)); if(o.amax <= o.amin) o.amax = o.amin * 1.5; if(o.amin < 0.1 && o.amax < 1e6) o.amax = o.amin * 1000;  o.ratio = g.coin(.5) ? 1. : 0.3 + g.below(5);
      for(int j = 0; j < o.n; j++) o.a.push_back(g.range(-20, 20) / 4.);
      o.viafile = g.coin(.3) && o.amax >= 1; o.laststat = g.below(3); o.off = g.coin(.5) ? 1. : 50.;
      std::string m = J::obj().kv("S", o.S).kv("n", o.n).kv("nc", o.nc).kv("maxit", o.maxit).kv("acc", o.acccnt).kv("file", o.viafile).str();
      R.run("outer-" + std::to_string(seed) + "-" + std::to_string(t), m, [&] { outer(o, g); });
    }
  } else if(mode == "dfs") {
    // all delivery orders (ranks run until they block; then every choice of the next message), depth first
    struct C { int P, S, it, local; } cs[] = {{2, 1, 2, 0}, {2, 3, 2, 0}, {3, 2, 1, 0}, {3, 3, 1, 0}, {3, 4, 1, 0}, {4, 3, 1, 0}, {3, 3, 1, 1}, {3, 2, 2, 0}, {4, 4, 1, 0}, {3, 5, 1, 0}, {4, 5, 1, 0}, {3, 4, 2, 1}};
    int id = 0; long per = count / (long)(sizeof cs / sizeof cs[0]);
    for(auto& c : cs) {
      id++;
      std::vector<int> ch; long done = 0; bool more = true;
      while(more && done < per) {
        Par p; p.P = c.P; p.S = c.S; p.n = 2; p.nc = 2; p.maxit = c.it; p.local = c.local; p.policy = 4; p.seed = 1; p.coarse = true; p.choices = ch; p.eager = (id % 2) == 0;
        // the child reports the widths through a pipe
        int fd[2]; if(pipe(fd)) return 98;
        std::string nm = "dfs-" + std::to_string(id); for(int x : ch) nm += "." + std::to_string(x);
        std::string keep = R.only; bool skip = !keep.empty() && keep != nm;
        R.only.clear();
        FILE* save = R.out; static FILE* nul = fopen("/dev/null", "w"); if(skip) R.out = nul;
        R.run(nm, meta(p), [&] { fm::Result r = exec(p); int n = (int)r.taken.size(); if(n > 4000) n = 4000; if(write(fd[1], &n, sizeof n) < 0) {} for(int i = 0; i < n; i++) { int v[2] = {r.taken[i], r.width[i]}; if(write(fd[1], v, sizeof v) < 0) {} } });
        R.out = save; R.only = keep;
        close(fd[1]);
        int n = 0; std::vector<int> tk, wd;
        if(read(fd[0], &n, sizeof n) == sizeof n) for(int i = 0; i < n; i++) { int v[2]; if(read(fd[0], v, sizeof v) != sizeof v) break; tk.push_back(v[0]); wd.push_back(v[1]); }
        close(fd[0]);
        done++;
        int i = (int)tk.size() - 1;
        while(i >= 0 && tk[i] + 1 >= wd[i]) i--;
        if(i < 0) more = false; else { ch.assign(tk.begin(), tk.begin() + i); ch.push_back(tk[i] + 1); }
      }
      fprintf(stderr, "dfs P=%d S=%d it=%d local=%d: %ld schedules%s\n", c.P, c.S, c.it, c.local, done, more ? " (cut)" : " (all)");
    }
  }
  return 0;
}
