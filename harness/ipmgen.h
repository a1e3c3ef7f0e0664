// Random options and problems of the interior-point scenarios.
#pragma once
#include "ipmwatch_impl.h"
using namespace iw; using vh::Rng;
static const char* pick(Rng& r, std::initializer_list<const char*> l) { return *(l.begin() + r.below((int)l.size())); }
static std::string fmt(double v) { char b[40]; snprintf(b, 40, "%.9e", v); return b; }

static Opt O(const char* k, const char* v) { return Opt(k, v); }
static std::vector<Opt> rnd_opts(Rng& r, bool mds, const std::string& mode) {
  std::vector<Opt> o;
  o.push_back(O("max_iter", r.coin(0.15) ? (r.coin() ? "3" : "0") : r.coin(0.2) ? "7" : "60"));
  if(o[0].second == "0") o[0].second = "1";
  if(r.coin(0.3)) o.push_back(Opt("mu0", fmt(std::pow(10., -r.range(0, 3)))));
  if(r.coin(0.2)) o.push_back(Opt("kappa_mu", fmt(r.coin() ? 0.5 : 0.125)));
  if(r.coin(0.2)) o.push_back(Opt("theta_mu", fmt(r.coin() ? 1.25 : 1.75)));
  if(r.coin(0.2)) o.push_back(Opt("tau_min", fmt(r.coin() ? 0.9 : 0.995)));
  if(r.coin(0.15)) o.push_back(Opt("kappa_eps", fmt(r.coin() ? 5. : 20.)));
  if(r.coin(0.3)) o.push_back(Opt("tolerance", fmt(std::pow(10., -r.range(4, 9)))));
  if(r.coin(0.1)) o.push_back(Opt("dual_tol", fmt(1e-7)));
  if(r.coin(0.1)) o.push_back(Opt("cons_tol", fmt(1e-7)));
  if(r.coin(0.1)) o.push_back(Opt("comp_tol", fmt(std::pow(10., -r.range(5, 8)))));
  if(r.coin(0.25)) { o.push_back(Opt("acceptable_tolerance", fmt(std::pow(10., -r.range(1, 4))))); o.push_back(O("acceptable_iterations", r.coin() ? "2" : "4")); }
  if(r.coin(0.1)) o.push_back(Opt("rel_tolerance", fmt(1e-4)));
  if(r.coin(0.25)) o.push_back(O("scaling_type", "none"));
  else if(r.coin(0.3)) o.push_back(Opt("scaling_max_grad", fmt(r.coin() ? 1. : 10.)));
  if(r.coin(0.3)) o.push_back(Opt("bound_relax_perturb", fmt(r.coin() ? 1e-6 : 1e-10)));
  if(!mds && r.coin(0.4)) o.push_back(O("duals_update_type", r.coin() ? "linear" : "lsq"));
  if(!mds && r.coin(0.4)) o.push_back(O("duals_init", r.coin() ? "zero" : "lsq"));
  if(r.coin(0.15)) o.push_back(O("max_soc_iter", r.coin() ? "0" : "2"));
  if(r.coin(0.15)) o.push_back(Opt("eta_phi", fmt(0.25)));
  if(r.coin(0.1)) o.push_back(Opt("theta_min_fact", fmt(1e-1)));
  if(r.coin(0.1)) o.push_back(Opt("theta_max_fact", fmt(10.)));
  if(r.coin(0.15)) { if(r.coin()) o.push_back(Opt("moving_lim_abs", fmt(r.coin() ? 0.25 : 0.03125))); else o.push_back(Opt("moving_lim_rel", fmt(r.coin() ? 0.5 : 0.25))); }
  if(r.coin(0.15)) { o.push_back(Opt("kappa1", fmt(r.coin() ? 1e-4 : 0.125))); o.push_back(Opt("kappa2", fmt(0.25))); }
  if(mds && r.coin(0.15)) o.push_back(O("linsol_mode", pick(r, {"stable", "speculative", "forcequick"})));
  if(mds && r.coin(0.1)) o.push_back(O("fact_acceptor", "inertia_free"));
  if(mds && r.coin(0.1)) o.push_back(O("regularization_method", "randomized"));
  if(!mds && r.coin(0.3)) { o.push_back(O("secant_memory_len", r.coin() ? "1" : "3")); }
  if(!mds && r.coin(0.2)) o.push_back(O("sigma0", "1.0"));
  if(!mds && r.coin(0.3)) o.push_back(O("sigma_update_strategy", pick(r, {"sigma0", "sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm"})));
  if(mode == "elastic") { o.push_back(O("elastic_mode", pick(r, {"tighten_bound", "correct_it", "correct_it_adjust_bound"}))); if(r.coin()) o.push_back(O("elastic_bound_strategy", pick(r, {"mu_scaled", "mu_projected"}))); }
  // tight complementarity together with a scaled objective (drawn from a copy: the other draws stay as they were)
  Rng q = r; q = Rng(q.next() ^ 0x5851f42d4c957f2dull);
  if(q.coin(0.12) && mode != "elastic") { o.push_back(Opt("comp_tol", fmt(std::pow(10., -q.range(8, 10))))); o.push_back(O("scaling_type", "gradient")); o.push_back(Opt("scaling_max_grad", fmt(q.coin() ? 0.125 : 0.5))); }
  if(q.coin(0.3)) o.push_back(Opt("smax", fmt(q.coin() ? 1. : 4.)));
  return o;
}
static np::Gen rnd_gen(Rng& r, const std::string& mode, bool mds) {
  np::Gen g; g.mds = mds; g.n = r.range(2, 6); g.nsp = mds ? r.below(g.n + 1) : 0;
  if(mds && mode == "basic" && g.nsp == 0 && r.coin(0.7)) g.nsp = 1;
  g.neq = r.below(std::min(3, g.n)); g.nin = r.below(4);
  g.convex = r.coin(0.7); g.bounds = r.below(4); g.x0 = r.below(4); if(g.x0 == 3 && r.coin(0.6)) g.x0 = 0;
  g.badscale = r.coin(0.2); g.interleave = true; g.lincons = r.coin(0.25); g.degenerate = r.coin(0.15); g.nonconvex_con = r.coin(0.2);
  return g;
}
static std::string optstr(const std::vector<Opt>& o) { std::string s; for(auto& p : o) s += p.first + "=" + p.second + " "; return s; }
