// The regularization protocol (P11): the real perturbation, acceptor and factorization-loop classes are driven through scripted
// sequences of factorization outcomes; every matrix that is built is reported with its regularization.
#include "ipmgen.h"
#include "hiopKKTLinSys.hpp"
#include "hiopFactAcceptor.hpp"
#include "hiopPDPerturbation.hpp"
#include "LinAlgFactory.hpp"
static int lg(double v) { return v == 0 ? -1000000000 : (std::isfinite(v) && v > 0) ? (int)std::lround(1e6 * std::log10(v)) : 1999999999; }
static J rng2(const hiopVector* v) { V a = iw::vec(v); J j = J::arr(); if(a.empty()) return j; double lo = a[0], hi = a[0]; for(double x : a) { if(!(x >= lo)) lo = x; if(!(x <= hi)) hi = x; } j.add(lg(lo)).add(lg(hi)); return j; }
struct Scripted : public hiopKKTLinSysCompressed {
  std::vector<int> outcome; size_t pos = 0; std::vector<char> buildok; size_t nb = 0; bool over = false;
  Scripted(hiopNlpFormulation* n) : hiopKKTLinSysCompressed(n) {}
  bool update(const hiopIterate*, const hiopVector*, const hiopMatrix*, const hiopMatrix*, hiopMatrix*) override { return true; }
  bool computeDirections(const hiopResidual*, hiopIterate*) override { return true; }
  bool build_kkt_matrix(const hiopPDPerturbation& q) override {
    bool ok = nb >= buildok.size() || buildok[nb]; nb++;
    vh::ev(J::obj().kv("e", "build").raw("wx", rng2(q.get_curr_delta_wx()).str()).raw("wd", rng2(q.get_curr_delta_wd()).str()).raw("cc", rng2(q.get_curr_delta_cc()).str()).raw("cd", rng2(q.get_curr_delta_cd()).str()).kv("ok", ok ? 1 : 0));
    return ok;
  }
  int factorizeWithCurvCheck() override { int o = pos < outcome.size() ? outcome[pos] : last; pos++; vh::ev(J::obj().kv("e", "fact").kv("n", o)); return o; }
  int last = 0;
  // the curvature test
  void setup(hiopMatrix* H, hiopVector* Dx, hiopVector* Dd) { delete Dx_; delete Dd_; Hess_ = H; Dx_ = Dx; Dd_ = Dd; }
};
struct Fixed : public hiopPDPerturbationNull { hiopVector *wx() { return delta_wx_curr_; } hiopVector* wd() { return delta_wd_curr_; } };
static void scenario(vh::Runner& R, uint64_t seed, int i, bool exh, int depth) {
  Rng r(exh ? 77 + i % 8 : seed * 5000011ull + i * 911ull + 3);
  bool dual = exh ? i & 1 : r.coin(), rnd = exh ? false : r.coin(0.3), dwd = exh ? (i >> 1) & 1 : r.coin(0.4); int nreq = exh ? ((i >> 2) & 1 ? 2 : 0) : r.below(3);
  np::Gen g; g.n = 3; g.neq = r.below(3); g.nin = r.below(3); if(exh) g.neq = g.nin = 1;
  Prob p = np::gen(r, g);
  std::vector<std::pair<const char*, double>> o;
  if(exh) o = {{"delta_w_min_bar", 1e-7}, {"delta_w_max_bar", 3.1e1}, {"delta_0_bar", 1.3e-3}, {"kappa_w_minus", 0.21}, {"kappa_w_plus", 11.7}, {"kappa_w_plus_bar", 131.}, {"delta_c_bar", 1.7e-6}, {"kappa_c", 0.25}};
  else if(r.coin(0.7)) {
    o.push_back({"delta_w_min_bar", r.coin() ? 1.1e-20 : 1.3e-6}); o.push_back({"delta_w_max_bar", r.coin(0.3) ? 1.9e20 : r.coin() ? 1.7e3 : 2.3e-1}); o.push_back({"delta_0_bar", r.coin() ? 1.3e-4 : 2.9e-2});
    o.push_back({"kappa_w_minus", r.coin() ? 1. / 3 : 0.013}); o.push_back({"kappa_w_plus", 1.7 + r.below(9)}); o.push_back({"kappa_w_plus_bar", 13.3 + 20 * r.below(6)}); o.push_back({"delta_c_bar", r.coin() ? 1.1e-8 : 3.3e-3}); o.push_back({"kappa_c", r.below(4) * 0.25});
  }
  int calls = exh ? 1 : r.range(1, 8); std::string id = (exh ? "exh-" : "reg-") + std::to_string(i);
  // a history: calls of the factorization loop, each with its outcomes
  struct Call { bool free_; std::vector<int> out; std::vector<char> bok; double mu; int last; bool reinit = false; };
  std::vector<Call> cs;
  auto alph = [&](int k) { return k == 0 ? -1 : k == 1 ? nreq : nreq + 1; };
  if(exh) { // all outcome sequences of a given length, spread over as many factorizations as they take
    int q = i >> 3; std::vector<int> seq; for(int t = 0; t < depth; t++) { seq.push_back(alph(q % 3)); q /= 3; }
    Call c; c.free_ = false; c.mu = 0.1; c.last = nreq; c.out = seq; cs.push_back(c);
  } else {
    int style = r.below(4);   // persistent singularity, persistent wrong inertia, mixed
    for(int t = 0; t < calls; t++) {
      Call c; c.free_ = dwd && t > 0 && r.coin(0.5); c.mu = std::pow(10., -r.below(10)) * (1 + r.below(3)); int len = r.coin(0.15) ? 14 : r.below(6);
      for(int q = 0; q < len; q++) c.out.push_back(style == 0 && r.coin(0.8) ? -1 : style == 1 && r.coin(0.8) ? nreq + 1 : alph(r.coin(0.15) ? 1 : 2 * r.below(2)));
      c.last = nreq; if(r.coin(0.04)) { c.bok.assign(r.below(3) + 1, 1); c.bok.back() = 0; }
      c.reinit = t > 0 && r.coin(0.03);
      cs.push_back(c);
    }
  }
  R.run(id, J::obj().kv("mode", exh ? "exhaustive" : "history").kv("dual", dual).kv("rand", rnd).kv("dwd", dwd).kv("nreq", nreq).str(), [&]() {
    iw::Sess s(p); s.quiet = true; s.create({}); for(auto& q : o) s.nlp->options->SetNumericValue(q.first, q.second);
    auto N = [&](const char* k) { return s.nlp->options->GetNumeric(k); };
    hiopPDPerturbation* pd = dual ? (rnd ? (hiopPDPerturbation*)new hiopPDPerturbationDualFirstRand : new hiopPDPerturbationDualFirstScalar) : (rnd ? (hiopPDPerturbation*)new hiopPDPerturbationPrimalFirstRand : new hiopPDPerturbationPrimalFirstScalar);
    hiopFactAcceptor* fa = dwd ? (hiopFactAcceptor*)new hiopFactAcceptorInertiaFreeDWD(pd, nreq) : new hiopFactAcceptorIC(pd, nreq);
    auto init = [&]() { bool ok = pd->initialize(s.nlp); vh::ev(J::obj().kv("e", "new").kv("wmin", lg(N("delta_w_min_bar"))).kv("wmax", lg(N("delta_w_max_bar"))).kv("w0", lg(N("delta_0_bar"))).kv("km", lg(N("kappa_w_minus"))).kv("kp", lg(N("kappa_w_plus"))).kv("kpb", lg(N("kappa_w_plus_bar"))).kv("ok", ok ? 1 : 0)); };
    init();
    Scripted k(s.nlp); k.set_PD_perturb_calc(pd); k.set_fact_acceptor(fa);
    for(auto& c : cs) {
      if(c.reinit) { delete fa; delete pd; pd = dual ? (rnd ? (hiopPDPerturbation*)new hiopPDPerturbationDualFirstRand : new hiopPDPerturbationDualFirstScalar) : (rnd ? (hiopPDPerturbation*)new hiopPDPerturbationPrimalFirstRand : new hiopPDPerturbationPrimalFirstScalar);
        fa = dwd ? (hiopFactAcceptor*)new hiopFactAcceptorInertiaFreeDWD(pd, nreq) : new hiopFactAcceptorIC(pd, nreq); init(); k.set_PD_perturb_calc(pd); k.set_fact_acceptor(fa); }
      k.outcome = c.out; k.pos = 0; k.buildok = c.bok; k.nb = 0; k.last = c.last; pd->set_mu(c.mu);
      int reps = 0;
      do { // an exhaustive sequence is consumed by consecutive factorizations
        vh::ev(J::obj().kv("e", "call").kv("f", c.free_ ? "inertia-free" : "factorize").kv("dc", lg(N("delta_c_bar") * std::pow(c.mu, N("kappa_c")))));
        bool ok = c.free_ ? k.factorize_inertia_free() : k.factorize();
        vh::ev(J::obj().kv("e", "ret").kv("ok", ok ? 1 : 0));
      } while(exh && k.pos < c.out.size() && ++reps < 12);
    }
    vh::ev(J::obj().kv("e", "end"));
    delete fa; delete pd;
  });
}
static void curv(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 5000077ull + i * 313ull + 3);
  np::Gen g; g.n = r.range(1, 4); g.neq = 0; g.nin = r.below(3); Prob p = np::gen(r, g);
  R.run("curv-" + std::to_string(i), J::obj().kv("mode", "curvature").str(), [&]() {
    iw::Sess s(p); s.quiet = true; s.create({}); s.nlp->options->SetIntegerValue("verbosity_level", 0);
    int n = s.nlp->n(), m = s.nlp->m_ineq();
    for(int t = 0; t < 6; t++) {
      int den = 1 << r.below(5), num = r.coin(0.3) ? 0 : r.range(0, 3); s.nlp->options->SetNumericValue("neg_curv_test_fact", num / (double)den);
      Fixed pd; pd.initialize(s.nlp); Scripted k(s.nlp); k.set_PD_perturb_calc(&pd);
      auto fill = [&](hiopVector* v, int lo, int hi) { double* a = v->local_data(); for(int q = 0; q < v->get_local_size(); q++) a[q] = r.coin(0.2) ? 0 : r.range(lo, hi); };
      auto out = [&](const hiopVector* v) { J j = J::arr(); for(double x : iw::vec(v)) j.add((int)x); return j.str(); };
      hiopVector *Dx = s.nlp->alloc_primal_vec(), *Dd = s.nlp->alloc_dual_ineq_vec(); fill(Dx, 0, 5); fill(Dd, 0, 5); fill(pd.wx(), 0, 3); fill(pd.wd(), 0, 3);
      hiopIterate dir(s.nlp); fill(dir.get_x(), -4, 4); fill(dir.get_d(), -4, 4);
      auto* H = LinearAlgebraFactory::create_matrix_dense("DEFAULT", n, n); double* h = H->local_data(); J hj = J::arr();
      for(int a = 0; a < n; a++) for(int b = 0; b <= a; b++) h[a * n + b] = h[b * n + a] = r.range(-6, 4);
      for(int a = 0; a < n * n; a++) hj.add((int)h[a]);
      k.setup(H, Dx, Dd); bool ok = k.test_direction(&dir, H);
      vh::ev(J::obj().kv("e", "curv").kv("n", n).kv("m", m).raw("H", hj.str()).raw("Dx", out(Dx)).raw("Dd", out(Dd)).raw("wx", out(pd.wx())).raw("wd", out(pd.wd())).raw("x", out(dir.get_x())).raw("d", out(dir.get_d())).kv("num", num).kv("den", den).kv("ok", ok ? 1 : 0));
      delete H;
    }
    vh::ev(J::obj().kv("e", "end"));
  });
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]), depth = atoi(argv[5]);
  if(argc > 6) R.only = argv[6];
  int part = getenv("VH_PART") ? atoi(getenv("VH_PART")) : 0, parts = getenv("VH_PARTS") ? atoi(getenv("VH_PARTS")) : 1;
  if(mode == "exh") { n = 8; for(int d = 0; d < depth; d++) n *= 3; }
  for(int i = part; i < n; i += parts) { if(mode == "curv") curv(R, seed, i); else scenario(R, seed, i, mode == "exh", depth); }
  return 0;
}
