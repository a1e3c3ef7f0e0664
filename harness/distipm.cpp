// Quasi-Newton solves with distributed variables (P14): one problem solved by one process and by several, under many schedules.
// The user functions gather the point, so that values do not depend on the partition.
// usage: distipm OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: dist
#include "ipmgen.h"
#include <mpi.h>
typedef std::vector<int> I;
struct Call { char kind; uint64_t dig; };
struct Iter { int k; uint64_t rep; double obj, mu, pr, du; V x; };   // what one rank saw until (and at) an iterate callback
struct Seen { std::vector<std::string> calls; std::vector<Iter> it; std::string cur; uint64_t dig = 1469598103934665603ull; int st = -999, nsol = 0, nit = -1; V x, lam; double obj = 0, robj = 0; int sst = -999; };
static void fold(uint64_t& d, const void* v, size_t n) { const unsigned char* c = (const unsigned char*)v; for(size_t i = 0; i < n; i++) { d ^= c[i]; d *= 1099511628211ull; } }
static void fold(uint64_t& d, double v) { if(v == 0) v = 0; fold(d, &v, sizeof v); }
static void setopt(hiopOptions* q, const Opt& o) {
  char* e; double v = strtod(o.second.c_str(), &e); bool num = *e == 0 && o.second.size();
  if(num && (o.second.find('.') != std::string::npos || o.second.find('e') != std::string::npos)) q->SetNumericValue(o.first.c_str(), v);
  else if(num) q->SetIntegerValue(o.first.c_str(), (int)v); else q->SetStringValue(o.first.c_str(), o.second.c_str()); }
static std::string frfile;      // restoration problems stop after 40 iterations
struct DP : public hiopInterfaceDenseConstraints {
  const Prob* p; I part; MPI_Comm comm; int rk; Seen& s; RunCfg rc; int nc[5] = {0, 0, 0, 0, 0}; bool one = false, start = true, ovf = false;
  DP(const Prob* p_, I part_, MPI_Comm c, int r, Seen& s_) : p(p_), part(part_), comm(c), rk(r), s(s_) {}
  int lo() const { return part[rk]; } int nl() const { return part[rk + 1] - part[rk]; }
  V full(const double* x) { V a(p->n, 0.), b(p->n, 0.); for(int i = 0; i < nl(); i++) a[lo() + i] = x[i]; MPI_Allreduce(a.data(), b.data(), p->n, MPI_DOUBLE, MPI_SUM, comm); return b; }
  bool call(char k, int kind, bool nx) { s.cur += k; s.cur += nx ? '+' : '-'; int c = nc[kind]++; return rc.fail_kind == kind && c >= rc.fail_at && c < rc.fail_at + rc.fail_n; }
  void rng(double v) { if(!ovf && !(std::fabs(v) < 1e60)) { ovf = true; vh::ev(J::obj().kv("e", "ovf")); } }
  bool get_prob_sizes(size_type& n, size_type& m) override { n = p->n; m = p->m; return true; }
  bool get_vars_info(const size_type&, double* a, double* b, NonlinearityType* t) override { for(int i = 0; i < nl(); i++) { a[i] = p->xl[lo() + i]; b[i] = p->xu[lo() + i]; t[i] = hiopNonlinear; } return true; }
  bool get_cons_info(const size_type&, double* a, double* b, NonlinearityType* t) override { for(int i = 0; i < p->m; i++) { a[i] = p->cl[i]; b[i] = p->cu[i]; t[i] = hiopNonlinear; } return true; }
  bool eval_f(const size_type&, const double* x, bool nx, double& f) override { bool bad = call('f', 0, nx); V X = full(x); if(bad) return false; f = p->f.val(X.data()); rng(f); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool nx, double* g) override { bool bad = call('g', 1, nx); V X = full(x), G(p->n, 0.); if(bad) return false; p->f.grad(X.data(), G.data()); for(int i = 0; i < nl(); i++) { g[i] = G[lo() + i]; } for(double v : G) rng(v); return true; }
  bool cons(I idx, const double* x, double* c, bool bad) { V X = full(x); if(bad) return false; for(size_t i = 0; i < idx.size(); i++) { c[i] = p->g[idx[i]].val(X.data()); rng(c[i]); } return true; }
  bool jac(I idx, const double* x, double* J, bool bad) { V X = full(x), G(p->n); if(bad) return false; for(size_t i = 0; i < idx.size(); i++) { std::fill(G.begin(), G.end(), 0.); p->g[idx[i]].grad(X.data(), G.data()); for(int j = 0; j < nl(); j++) J[i * nl() + j] = G[lo() + j]; for(double v : G) rng(v); } return true; }
  I all() const { I v(p->m); for(int i = 0; i < p->m; i++) v[i] = i; return v; }
  bool eval_cons(const size_type&, const size_type&, const size_type& k, const index_type* ix, const double* x, bool nx, double* c) override { if(one) return false; I v(ix, ix + k); bool bad = call(k && v == p->eqs() ? 'c' : 'd', 2, nx); return cons(v, x, c, bad); }
  bool eval_cons(const size_type&, const size_type&, const double* x, bool nx, double* c) override { if(!one) return false; bool bad = call('a', 2, nx); return cons(all(), x, c, bad); }
  bool eval_Jac_cons(const size_type&, const size_type&, const size_type& k, const index_type* ix, const double* x, bool nx, double* J) override { if(one) return false; I v(ix, ix + k); bool bad = call(k && v == p->eqs() ? 'J' : 'K', 3, nx); return jac(v, x, J, bad); }
  bool eval_Jac_cons(const size_type&, const size_type&, const double* x, bool nx, double* J) override { if(!one) return false; bool bad = call('A', 3, nx); return jac(all(), x, J, bad); }
  bool get_vecdistrib_info(size_type, index_type* c) override { if(part.size() <= 2) return false; for(size_t i = 0; i < part.size(); i++) c[i] = part[i]; return true; }
  bool get_MPI_comm(MPI_Comm& c) override { c = comm; return true; }
  bool get_starting_point(const size_type&, double* x0) override { if(!p->has_x0) return false; for(int i = 0; i < nl(); i++) x0[i] = p->x0[lo() + i]; return true; }
  bool get_starting_point(const size_type&, const size_type&, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* sl) override {
    da = sa = false; if(!rc.duals || !p->has_x0) return false; da = true;
    for(int i = 0; i < nl(); i++) { int q = lo() + i; x0[i] = p->x0[q]; zl[i] = p->xl[q] > -np::INF ? 1.5 : 0; zu[i] = p->xu[q] < np::INF ? 0.75 : 0; } for(int i = 0; i < p->m; i++) lam[i] = 0.25 * ((i % 5) - 2); return true; }
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double o) override {
    s.nsol++; s.sst = st; s.cur += 'S'; s.x.assign(x, x + nl()); s.obj = o; s.lam.assign(lam, lam + p->m); fold(s.dig, o); for(int i = 0; i < p->m; i++) { fold(s.dig, g[i]); fold(s.dig, lam[i]); } }
  bool iterate_callback(int k, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* sl, int m, const double* g, const double* lam, double ipr, double idu, double opr, double mu, double adu, double apr, int lst) override {
    Iter t; t.k = k; uint64_t d = s.dig; fold(d, k); for(double v : {obj, lb, ipr, idu, opr, mu, adu, apr}) fold(d, v); fold(d, lst); if(sl) for(int i = 0; i < mi; i++) fold(d, sl[i]); for(int i = 0; i < p->m; i++) { fold(d, g[i]); fold(d, lam[i]); }
    s.dig = d; t.rep = d; t.obj = obj; t.mu = mu; t.pr = ipr; t.du = idu; t.x.assign(x, x + nl()); s.it.push_back(t); s.calls.push_back(s.cur); s.cur.clear(); return !(rc.stop_at >= 0 && k >= rc.stop_at); }
};
static I cuts(Rng& r, int n, int P) { I v = {0}; int style = r.below(3); for(int q = 1; q < P; q++) v.push_back(style == 0 ? n * q / P : style == 1 ? r.below(n + 1) : (r.coin() ? 0 : n)); v.push_back(n); std::sort(v.begin(), v.end()); return v; }
static std::string hex(uint64_t d) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)d); return b; }
static int agree(double a, double b, double tol) { if(std::isnan(a) || std::isnan(b)) return 2; return std::fabs(a - b) <= tol * std::max({1., std::fabs(a), std::fabs(b)}) ? 1 : 0; }
static void scenario(vh::Runner& Rn, uint64_t seed, int i) {
  Rng r(seed * 7000003ull + i * 1013ull + 5); static const char* fam[] = {"basic", "infeas", "elastic", "rerun", "resto", "every", "fixed"}; std::string m = fam[r.coin(0.6) ? 0 : r.below(7)];
  np::Gen g = rnd_gen(r, m == "fixed" ? "basic" : m, false); if(m == "fixed") { g.n = std::max(g.n, 3); g.fixed = 1; } if(r.coin(0.7)) { g.convex = true; g.nonconvex_con = false; } g.n = std::max(g.n, 2);
  auto o = rnd_opts(r, false, m); if(m == "resto") o.push_back(O("force_resto", r.coin(0.7) ? "yes" : "no")); if(m == "fixed") o.push_back(O("fixed_var", r.coin() ? "remove" : "relax"));
  // large bound multipliers that enter the scaled optimality error
  Rng q = r; q = Rng(q.next() ^ 0x5851f42d4c957f2dull); bool bigz = q.coin(0.3);
  if(bigz) { g.convex = g.lincons = true; g.nonconvex_con = g.infeasible = g.badscale = g.degenerate = false; g.bounds = 3; o.push_back(O("scaling_type", "none")); o.push_back(Opt("smax", fmt(1.))); }
  Prob p = np::gen(r, g); if(bigz) p.f.scale(32.); int P = r.range(2, 4); I part = cuts(r, p.n, P); RunCfg rc; rc.opts = o; if(r.coin(0.1)) rc.stop_at = r.below(6); if(r.coin(0.1)) { rc.fail_kind = r.below(4); rc.fail_at = r.below(12); rc.fail_n = r.coin(0.3) ? 1000 : 1; } if(r.coin(0.15)) rc.duals = 1;
  bool one = r.coin(0.3), twice = r.coin(0.2); fm::Config fc; fc.P = P; fc.seed = r.next(); fc.policy = r.below(4); fc.max_steps = 40000000;
  bool cvx = g.convex && !g.infeasible && (g.lincons || p.m == 0);
  Rn.run("dist-" + std::to_string(i), J::obj().kv("n", p.n).kv("P", P).kv("convex", cvx).kv("fam", m).raw("part", vh::jints(part)).kv("one", one).kv("opts", optstr(o)).str(), [&]() {
    std::vector<std::vector<Seen>> runs(2, std::vector<Seen>(P));
    auto solve = [&](int rk, const I& pt, MPI_Comm c, Seen& s) {
      DP u(&p, pt, c, rk, s); u.rc = rc; u.one = one; hiopNlpDenseConstraints nlp(u, "none.options"); nlp.options->SetIntegerValue("verbosity_level", 0);
      for(auto& q : rc.opts) setopt(nlp.options, q);
      nlp.options->SetStringValue("options_file_fr_prob", frfile.c_str()); 
      hiopAlgFilterIPM alg(&nlp); s.st = alg.run(); s.nit = alg.getNumIterations(); s.robj = alg.getObjective(); V x(u.nl() + 1); alg.getSolution(x.data()); x.pop_back(); if(s.nsol == 0) s.x = x; fold(s.dig, s.robj); fold(s.dig, s.st); fold(s.dig, s.nit); s.calls.push_back(s.cur);
      };
    Seen q; { fm::Config f1; f1.P = 1; f1.max_steps = fc.max_steps; fm::run(f1, [&](int) { solve(0, {0, p.n}, MPI_COMM_SELF, q); }); }
    vh::ev(J::obj().kv("e", "seq").kv("st", q.st).kv("it", q.nit));
    for(int w = 0; w < (twice ? 2 : 1); w++) {
      auto& S = runs[w]; fm::Config f = fc; f.seed += w; f.policy = (fc.policy + w) % 4; fm::Result res = fm::run(f, [&](int rk) { solve(rk, part, MPI_COMM_WORLD, S[rk]); });
        if(!res.ok) { vh::ev(J::obj().kv("e", "mpi").kv("why", res.why)); return; }
      vh::ev(J::obj().kv("e", "run").kv("w", w));
      bool lost = false; size_t K = 0; for(auto& s : S) K = std::max(K, s.calls.size());
      for(size_t k = 0; k < K; k++) {
        J c = J::arr(), d = J::arr(); for(auto& s : S) { c.add(k < s.calls.size() ? s.calls[k] : "none"); d.add(k < s.it.size() ? hex(s.it[k].rep) : k < s.calls.size() ? hex(s.dig) : "none"); }
        J e = J::obj().kv("e", "iter").kv("k", (int)k).raw("calls", c.str()).raw("rep", d.str());
        if(k < q.calls.size() && q.calls[k].size() > 60) lost = true;      // a long line search or a restoration: rounding may decide
        if(!lost && k < q.it.size() && k < S[0].it.size()) { V x; for(auto& s : S) if(k < s.it.size()) x.insert(x.end(), s.it[k].x.begin(), s.it[k].x.end()); double tol = k == 0 ? 1e-11 : k == 1 ? 1e-7 : k == 2 ? 1e-5 : 1e-3; int a = 1; if(x.size() != q.it[k].x.size()) a = 0; else for(size_t z = 0; z < x.size(); z++) a = iw::and3(a, agree(x[z], q.it[k].x[z], tol)); e.kv("x", a).kv("mu", agree(S[0].it[k].mu * 1e10, q.it[k].mu * 1e10, 1e-9)); a = agree(S[0].it[k].obj, q.it[k].obj, tol); e.kv("f", a); e.kv("pr", agree(S[0].it[k].pr, q.it[k].pr, tol)).kv("du", agree(S[0].it[k].du, q.it[k].du, 10 * tol)); }
        vh::ev(e); }
      V x, st; J sts = J::arr(), its = J::arr(), ns = J::arr(); for(auto& s : S) { sts.add(s.st); its.add(s.nit); ns.add(s.nsol); x.insert(x.end(), s.x.begin(), s.x.end()); }
      int a = 1; if(x.size() != q.x.size()) a = 0; else for(size_t z = 0; z < x.size(); z++) a = iw::and3(a, agree(x[z], q.x[z], 2e-2)); uint64_t dg = 1469598103934665603ull; for(double v : x) fold(dg, v); fold(dg, S[0].dig);
      vh::ev(J::obj().kv("e", "end").raw("st", sts.str()).raw("it", its.str()).raw("ns", ns.str()).kv("x", a).kv("f", agree(S[0].robj, q.robj, 1e-3)).kv("dig", hex(dg)));
    }
  });
}
int main(int argc, char** argv) {
  vh::Runner Rn(argv[1]); frfile = std::string(argv[1]) + ".fr"; { FILE* f = fopen(frfile.c_str(), "w"); fputs("max_iter 40\n", f); fclose(f); } uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) Rn.only = argv[5];
  for(int i = 0; i < N; i++) scenario(Rn, seed, i);
  return 0;
}
