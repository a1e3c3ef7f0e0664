#include "ipmwatch_impl.h"
#include "ipmgen.h"
using namespace iw; using vh::Rng;
struct Out { std::string meta; };
static void scenario(vh::Runner& R, const std::string& mode, uint64_t seed, int i) {
  Rng r(seed * 1000003ull + i * 7919ull + (uint64_t)mode[0] * 131 + mode.size());
  bool mds = r.coin(0.55); std::string id = mode + "-" + std::to_string(i);
  np::Gen g = rnd_gen(r, mode, mds); std::vector<RunCfg> runs; bool one = r.coin(0.4);
  std::string m = mode;
  if(m == "basic") { RunCfg c; c.opts = rnd_opts(r, mds, m); if(r.coin(0.12)) c.stop_at = r.below(6); if(r.coin(0.2)) c.duals = 1; runs.push_back(c); }
  else if(m == "infeas") { g.infeasible = true; if(g.neq + g.nin == 0) g.nin = 1; RunCfg c; c.opts = rnd_opts(r, mds, m); runs.push_back(c); }
  else if(m == "fail") { RunCfg c; c.opts = rnd_opts(r, mds, m); c.fail_kind = r.below(mds ? 5 : 4); c.fail_at = r.coin(0.4) ? r.below(3) : r.below(25); c.fail_n = r.coin(0.3) ? 1000 : 1; runs.push_back(c); RunCfg d; if(r.coin(0.5)) runs.push_back(d); }
  else if(m == "fixed") { g.fixed = 1 + r.below(2); g.n = std::max(g.n, 3); RunCfg c; c.opts = rnd_opts(r, mds, m); c.opts.push_back(O("fixed_var", mds || r.coin() ? "relax" : "remove")); if(c.opts.back().second == std::string("relax")) c.opts.push_back(Opt("bound_relax_perturb", fmt(r.coin() ? 0. : 1e-8))); runs.push_back(c); }
  else if(m == "elastic") { RunCfg c; c.opts = rnd_opts(r, mds, m); runs.push_back(c); }
  else if(m == "rerun") { int k = r.range(2, 4); RunCfg c; c.opts = rnd_opts(r, mds, m); runs.push_back(c); for(int t = 1; t < k; t++) { RunCfg d; if(r.coin(0.6)) d.opts = rnd_opts(r, mds, m); if(r.coin()) d.setx0 = true; if(r.coin(0.2)) d.stop_at = r.below(4); runs.push_back(d); } }
  else if(m == "resto") { RunCfg c; c.opts = rnd_opts(r, mds, m); c.opts.push_back(O("force_resto", "yes")); if(r.coin(0.5)) c.opts.push_back(Opt("kappa_resto", fmt(r.coin() ? 0.5 : 0.125))); runs.push_back(c); }
  else if(m == "every") { RunCfg c; c.opts = rnd_opts(r, mds, m); c.opts.push_back(O("accept_every_trial_step", "yes")); runs.push_back(c); }
  np::Prob p = np::gen(r, g);
  for(auto& c : runs) if(c.setx0) { c.x0 = p.x0; for(auto& v : c.x0) v += np::dy(r, -1, 1, 4); }
  std::string os; for(auto& c : runs) os += optstr(c.opts) + "; ";
  R.run(id, J::obj().kv("mode", mode).kv("mds", mds).kv("n", p.n).kv("nsp", p.nsp).kv("m", p.m).kv("one", one).kv("opts", os).str(), [&]() {
    Sess s(p, one);
    for(auto& c : runs) s.run(c);
  });
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int n = atoi(argv[4]);
  if(argc > 5) R.only = argv[5];
  int part = getenv("VH_PART") ? atoi(getenv("VH_PART")) : 0, parts = getenv("VH_PARTS") ? atoi(getenv("VH_PARTS")) : 1;
  for(int i = part; i < n; i += parts) scenario(R, mode, seed, i);
  return 0;
}
