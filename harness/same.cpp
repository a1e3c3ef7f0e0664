// Runs that must not differ: the same problem on fresh and on reused solver objects (mode again), and one problem presented
// in different ways (mode same).  Each run is reduced to a digest of everything the user sees.
#include "ipmgen.h"
#include <malloc.h>
#include <fcntl.h>
static int nsess = 0;
static void perturb() { static const int b[] = {0, 0x55, 0xAA, 0x3C, 0xFF, 0x81}; mallopt(M_PERTURB, b[nsess++ % 6]); }
struct Sil { int o; Sil() { fflush(stdout); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Sil() { fflush(stdout); dup2(o, 1); close(o); } };
static std::string hex(uint64_t d) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)d); return b; }
static void ran(const std::string& key, const char* how, Sess& s, int st) {
  Watch& w = s.u->w;
  vh::ev(J::obj().kv("e", "ran").kv("key", key).kv("how", how).kv("dig", hex(w.digest)).kv("st", st).kv("it", s.alg->getNumIterations()).kv("ns", w.nsol).kv("ni", w.niter).kv("fr", w.nfr > 0 ? 1 : 0).kv("ovf", w.ovf ? 1 : 0));
}
static bool randomized(const std::vector<Opt>& o) { for(auto& p : o) if(p.second == "randomized") return true; return false; }
static std::vector<Opt> opts_for(Rng& r, bool mds, const std::string& m) { for(;;) { auto o = rnd_opts(r, mds, m); if(!randomized(o)) return o; } }
static void silent(Sess& s, bool cb) { s.quiet = true; s.digcb = cb; }
struct Cfg { RunCfg c; Prob p; bool warm = false; };   // warm: starts from the solution of the run before
// ---- fresh and reused solver objects
static void again(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 2000003ull + i * 6007ull + 17);
  bool mds = r.coin(0.5), one = r.coin(0.3); std::string id = "again-" + std::to_string(i);
  static const char* fam[] = {"basic", "infeas", "elastic", "rerun", "resto", "every", "fixed"};
  std::string m = fam[r.coin(0.5) ? 0 : r.below(7)];
  np::Gen g = rnd_gen(r, m, mds); if(m == "infeas") { g.infeasible = true; if(g.neq + g.nin == 0) g.nin = 1; }
  if(m == "fixed") { g.n = std::max(g.n, 3); g.fixed = 1; }
  auto opts = [&]() { auto o = opts_for(r, mds, m); if(m == "resto" && r.coin()) o.push_back(O("force_resto", r.coin(0.7) ? "yes" : "no")); if(m == "every") o.push_back(O("accept_every_trial_step", r.coin(0.7) ? "yes" : "no"));
                     if(m == "fixed") { bool rem = !mds && r.coin(); o.push_back(O("fixed_var", rem ? "remove" : "relax")); o.push_back(Opt("bound_relax_perturb", fmt(!rem && r.coin() ? 0. : 1e-8))); } return o; };
  int k = r.range(2, 4); std::vector<Cfg> cf; std::vector<Opt> eff; Prob p = np::gen(r, g); std::string os;
  for(int t = 0; t < k; t++) {
    Cfg c; if(t == 0 || r.coin(0.6)) { auto o = opts(); eff.insert(eff.end(), o.begin(), o.end()); c.c.opts = o; }
    if(t && r.coin(0.4)) for(auto& v : p.x0) v += np::dy(r, -1, 1, 4);
    if(t && r.coin(0.3)) { for(auto& v : p.f.lin) v += np::dy(r, -1, 1, 4); for(int q = 0; q < p.m; q++) { double d = np::dy(r, -1, 1, 8); bool e = p.cl[q] == p.cu[q]; if(p.cl[q] > -np::INF) p.cl[q] += d; if(p.cu[q] < np::INF) p.cu[q] += e ? d : std::fabs(d); } for(auto& v : p.xu) if(v < np::INF && g.fixed == 0) v += 0.25; }
    if(t && r.coin(0.12)) p = np::gen(r, g);                           // other sparsity of bounds, other constraints
    if(t && r.coin(0.1)) { np::Gen h = g; h.n = g.n + 1; h.neq = std::min(g.neq + 1, h.n - 1); h.nsp = mds ? std::min(g.nsp, h.n) : 0; p = np::gen(r, h); }
    if(r.coin(0.15)) c.c.stop_at = r.below(6);
    if(r.coin(0.15)) { c.c.fail_kind = r.below(mds ? 5 : 4); c.c.fail_at = r.below(12); c.c.fail_n = r.coin(0.3) ? 1000 : 1; }
    if(r.coin(0.15)) c.c.duals = 1;
    if(t && r.coin(0.2)) { c.warm = true; c.c.opts.push_back(Opt("acceptable_tolerance", fmt(0.1))); c.c.opts.push_back(Opt("acceptable_iterations", std::to_string(r.range(2, 6)))); eff.insert(eff.end(), c.c.opts.begin(), c.c.opts.end()); }
    c.p = p; c.c.setx0 = true; c.c.x0 = p.x0; cf.push_back(c); os += optstr(c.c.opts) + "; ";
  }
  // a configuration returns at the end if no option was set meanwhile
  if(r.coin(0.5)) { Cfg c = cf.back(); c.c.opts.clear(); c.warm = false; cf.push_back(c); }
  R.run(id, J::obj().kv("mode", "again").kv("mds", mds).kv("n", g.n).kv("one", one).kv("opts", os).str(), [&]() {
    std::vector<Opt> all; std::vector<std::string> keys; V sol;
    for(size_t t = 0; t < cf.size(); t++) {
      bool rep = t + 1 == cf.size() && t >= 1 && cf[t].c.opts.empty() && t > (size_t)k - 1;
      all.insert(all.end(), cf[t].c.opts.begin(), cf[t].c.opts.end());
      if(cf[t].warm && sol.size() == cf[t].c.x0.size()) cf[t].c.x0 = sol;
      if(rep) cf[t].c.x0 = cf[t - 1].c.x0;
      std::string key = rep ? keys.back() : "c" + std::to_string(t); keys.push_back(key);
      for(int q = 0; q < 2; q++) {
        perturb(); Sess s(cf[t].p, one); silent(s, true); RunCfg c = cf[t].c; c.opts = all;
        if(q) c.opts.push_back(O("verbosity_level", "5"));
        Sil z; int st = s.run(c); ran(key, q ? "fresh again, more verbose" : "fresh", s, st); sol = s.u->w.solx;
      }
    }
    perturb(); Sess s(cf[0].p, one); silent(s, true);
    for(size_t t = 0; t < cf.size(); t++) { s.p = cf[t].p; Sil z; int st = s.run(cf[t].c); ran(keys[t], "reused", s, st); }
  });
}
// ---- one problem presented in different ways
static double pow2ge(double v) { double p = 1; while(p < v) p *= 2; while(p / 2 >= v && p > 1) p /= 2; return p; }
static void same(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 3000017ull + i * 4001ull + 29);
  static const char* kinds[] = {"one-call", "order", "fixed", "relaxed", "scaled", "infinite", "start"};
  std::string kind = kinds[i % 7]; bool mds = kind != "fixed" && r.coin(0.5); std::string id = "same-" + std::to_string(i);
  np::Gen g = rnd_gen(r, "basic", mds); if(g.x0 == 3 && (kind == "scaled" || kind == "start")) g.x0 = 0;
  if(kind == "fixed") { g.n = std::max(g.n, 3); }
  if(kind == "order" || kind == "one-call") { g.neq = r.range(0, 2); g.nin = r.range(g.neq ? 0 : 1, 3); g.n = std::max(g.n, 3); if(mds) g.nsp = std::min(g.nsp, g.n); }
  std::vector<Opt> o = opts_for(r, mds, "basic"); Prob a = np::gen(r, g); RunCfg ca, cb; bool one = r.coin(0.3), oneb = one;
  if(kind == "one-call" || kind == "order") if(r.coin(0.4)) ca.duals = 1;
  if(r.coin(0.1)) { ca.fail_kind = r.below(2); ca.fail_at = r.below(12); }
  auto strip = [&](const char* k) { for(size_t q = 0; q < o.size();) if(o[q].first == k) o.erase(o.begin() + q); else q++; };
  double nf = 1; V nc; std::vector<int> sa, sb, va, vb;       // canonical orders of constraints and variables
  auto eqin = [](const Prob& p) { std::vector<int> v = p.eqs(); for(int q : p.ins()) v.push_back(q); return v; };
  Prob b = a; std::vector<Opt> ob;
  if(kind == "one-call") { one = false; oneb = true; ob = o; }
  else if(kind == "order") {
    std::vector<int> ord, e = a.eqs(), n = a.ins(); size_t x = 0, y = 0;
    while(x < e.size() || y < n.size()) { bool te = y == n.size() || (x < e.size() && r.coin()); ord.push_back(te ? e[x++] : n[y++]); }
    for(int q = 0; q < a.m; q++) { b.g[q] = a.g[ord[q]]; b.cl[q] = a.cl[ord[q]]; b.cu[q] = a.cu[ord[q]]; }
    sa = eqin(a); sb = eqin(b); oneb = r.coin(0.3); ob = o;
    ca.duals = 0;
  } else if(kind == "fixed") {
    strip("bound_relax_perturb"); int nf = r.range(1, std::min(2, g.n - 2)); if(a.m > g.n - nf - 1) nf = 1;
    V v(a.n); std::vector<int> keep; std::vector<char> fx(a.n, 0);
    for(int t = 0; t < nf; t++) { int q = r.below(a.n); fx[q] = 1; }
    for(int q = 0; q < a.n; q++) { v[q] = a.xl[q] > -np::INF ? a.xl[q] : a.xu[q] < np::INF ? a.xu[q] : np::dy(r, -1, 1, 4); if(fx[q]) { a.xl[q] = a.xu[q] = v[q]; a.x0[q] = r.coin() ? v[q] : v[q] + 0.5; } else keep.push_back(q); }
    b = a; b.n = (int)keep.size(); b.f = a.f.embed(keep, v); b.g.clear(); for(auto& h : a.g) b.g.push_back(h.embed(keep, v));
    b.xl.clear(); b.xu.clear(); b.x0.clear(); for(int q : keep) { b.xl.push_back(a.xl[q]); b.xu.push_back(a.xu[q]); b.x0.push_back(a.x0[q]); }
    va = keep; ob = o; o.push_back(O("fixed_var", "remove"));
  } else if(kind == "relaxed") {
    strip("bound_relax_perturb"); double e = std::ldexp(1., -r.range(10, 26)); ob = o; ob.push_back(Opt("bound_relax_perturb", "0.0"));
    char buf[40]; snprintf(buf, 40, "%.17e", e); o.push_back(Opt("bound_relax_perturb", buf));
    auto lo = [&](double& x) { if(x > -np::INF) x -= e * std::max(1., std::fabs(x)); }; auto up = [&](double& x) { if(x < np::INF) x += e * std::max(1., std::fabs(x)); };
    for(auto& x : b.xl) lo(x); for(auto& x : b.xu) up(x);
    for(int q = 0; q < b.m; q++) if(b.cl[q] != b.cu[q]) { lo(b.cl[q]); up(b.cu[q]); }
  } else if(kind == "scaled") {
    strip("bound_relax_perturb"); strip("scaling_type"); strip("scaling_max_grad"); strip("comp_tol");
    double mg = std::ldexp(1., r.range(-2, 3)); a.has_x0 = true; std::vector<double> G(a.n);
    auto fit = [&](np::Fn& h, double& lo, double& up, bool obj) {   // make the largest gradient entry at x0 a power of two
      if(r.coin(0.5)) { double s = std::ldexp(1., r.range(1, 10)); h.scale(s); if(!obj) { bool e = lo == up; if(lo > -np::INF) lo *= s; if(up < np::INF) up *= s; if(e) up = lo; } }
      h.grad(a.x0.data(), G.data()); double mx = 0; int at = 0; for(int q = 0; q < a.n; q++) if(std::fabs(G[q]) > mx) { mx = std::fabs(G[q]); at = q; }
      if(mx == 0) { mx = 1; h.lin[at] += 1; if(!obj) { if(lo > -np::INF) lo += a.x0[at]; if(up < np::INF) up += a.x0[at]; } return 1.; }
      double t = pow2ge(mx), d = (G[at] > 0 ? t : -t) - G[at]; h.lin[at] += d; if(!obj) { bool e = lo == up; if(lo > -np::INF) lo += d * a.x0[at]; if(up < np::INF) up += d * a.x0[at]; if(e) up = lo; }
      h.grad(a.x0.data(), G.data()); double m2 = 0; for(double v : G) m2 = std::max(m2, std::fabs(v)); return m2; };
    bool okp = true; int ex; double dum1 = 0, dum2 = 0; std::vector<double> gr; double go = fit(a.f, dum1, dum2, true); bool any = go >= mg; okp = okp && std::frexp(go, &ex) == 0.5;
    for(int q = 0; q < a.m; q++) { gr.push_back(fit(a.g[q], a.cl[q], a.cu[q], false)); okp = okp && std::frexp(gr.back(), &ex) == 0.5; any = any || gr.back() >= mg; }
    b = a; double mn = 1e-8;
    if(any) {
      double fs = go > mg ? mg / go : 1.; if(fs < mn) okp = false; b.f.scale(fs); nf = fs;
      for(int q = 0; q < a.m; q++) { double s = 1. / std::max(1., gr[q] / mg); if(s < mn) okp = false; b.g[q].scale(s); nc.push_back(s); if(b.cl[q] > -np::INF) b.cl[q] *= s; if(b.cu[q] < np::INF) b.cu[q] *= s; }
    }
    if(!okp) { a = np::gen(r, g); b = a; nf = 1; nc.clear(); ob = o; o.push_back(O("scaling_type", "none")); ob = o; kind = "none"; }
    else {
      o.push_back(Opt("bound_relax_perturb", "0.0")); ob = o; ob.push_back(O("scaling_type", "none"));
      char buf[40]; snprintf(buf, 40, "%.17e", mg); o.push_back(Opt("scaling_max_grad", buf));
    }
  } else if(kind == "infinite") {
    double inf = r.coin() ? INFINITY : 3e20; auto w = [&](V& v) { for(double& x : v) if(std::fabs(x) >= np::INF) x = x > 0 ? inf : -inf; };
    w(b.xl); w(b.xu); w(b.cl); w(b.cu); ob = o;
  } else { ob = o; for(auto& v : b.xl) (void)v; }                            // start: the same starting point by the other function
  ca.opts = o; cb = ca; cb.opts = ob;
  R.run(id, J::obj().kv("mode", "same").kv("kind", kind).kv("mds", mds).kv("n", a.n).kv("m", a.m).kv("one", one).kv("opts", optstr(o)).str(), [&]() {
    auto go = [&](const Prob& p, RunCfg c, bool oc, const std::vector<int>& vx, const std::vector<int>& vc, const char* how, bool second) {
      perturb(); Sess s(p, oc); silent(s, false); s.u->w.selx = vx; s.u->w.selc = vc; if(second) { s.u->w.nfs = nf; s.u->w.ncs = nc; s.u->fullstart = kind == "start"; } Sil z; int st = s.run(c); ran("k", how, s, st);
    };
    go(a, ca, one, va, sa, "plain", false); go(b, cb, oneb, vb, sb, kind.c_str(), true);
  });
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]);
  if(argc > 5) R.only = argv[5]; R.cpu_limit = 100;
  int part = getenv("VH_PART") ? atoi(getenv("VH_PART")) : 0, parts = getenv("VH_PARTS") ? atoi(getenv("VH_PARTS")) : 1;
  for(int i = part; i < n; i += parts) { if(mode == "again") again(R, seed, i); else same(R, seed, i); }
  return 0;
}
