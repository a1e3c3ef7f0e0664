#pragma once
#include "ipmwatch.h"
namespace iw {
struct Sess {
  Prob p; bool onecall = false, quiet = false, digx = false, digcb = true;
  DenseP* dp = nullptr; MdsP* mp = nullptr; hiopNlpFormulation* nlp = nullptr; hiopAlgFilterIPMBase* alg = nullptr; User* u = nullptr;
  int nrun = 0; RunCfg rc; std::string optfile;
  explicit Sess(const Prob& p_, bool one = false) : p(p_), onecall(one) {
    if(p.mds) { mp = new MdsP; u = &mp->u; } else { dp = new DenseP; u = &dp->u; }
    u->p = &p; u->onecall = one; u->w.p = &p; u->w.s = this; u->w.x0user = p.x0;
  }
  void create(const std::vector<Opt>& o) {      // options known before the solver is created
    if(p.mds) nlp = new hiopNlpMDS(*mp, "none.options"); else nlp = new hiopNlpDenseConstraints(*dp, "none.options");
    nlp->options->SetIntegerValue("verbosity_level", 0);
    set(o);
    if(p.mds) alg = new hiopAlgFilterIPMNewton(nlp); else alg = new hiopAlgFilterIPMQuasiNewton(static_cast<hiopNlpDenseConstraints*>(nlp));
    u->w.nlp = nlp; u->w.alg = alg;
  }
  void set(const std::vector<Opt>& os) {
    for(auto& o : os) {
      char* e; double v = strtod(o.second.c_str(), &e);
      if(*e == 0 && o.second.size() && (o.second.find('.') != std::string::npos || o.second.find('e') != std::string::npos)) nlp->options->SetNumericValue(o.first.c_str(), v);
      else if(*e == 0 && o.second.size()) nlp->options->SetIntegerValue(o.first.c_str(), (int)v);
      else nlp->options->SetStringValue(o.first.c_str(), o.second.c_str());
    }
  }
  int run(const RunCfg& c) {
    rc = c; if(!alg) create(rc.opts); else set(rc.opts);
    if(rc.setx0) u->w.x0user = rc.x0;
    Watch& w = u->w; w.rc = &rc; w.quiet = quiet; w.digx_only = digx; w.digcb = digcb; w.begin(nrun++);
    int st = (int)alg->run();
    w.finish(st);
    return st;
  }
  ~Sess() { delete alg; delete nlp; delete dp; delete mp; }
};
inline bool MdsP::eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const size_type& nsp, const size_type& nde, const size_type& nnzs, index_type* iH, index_type* jH, double* MH, double* HD, size_type& nsd, index_type* iSD, index_type* jSD, double* MSD) {
  bool bad = u.w.inject(4); const Prob* p = u.p; Watch& w = u.w;
  V l(lam, lam + p->m); int lamok = 2, ofok = 2;
  if(w.alg && w.in_run) {
    V xi = w.inner(V(x, x + p->n));
    for(const hiopIterate* it : {(const hiopIterate*)w.alg->get_it_trial(), (const hiopIterate*)w.alg->get_it_curr()}) {
      if(vec(it->get_x()) != xi) continue;
      V yc = vec(it->get_yc()), yd = vec(it->get_yd()); V e(p->m);
      for(size_t i = 0; i < w.doc.eq.size(); i++) e[i] = yc[i] * w.doc.ce[i];     // documented order: equalities, inequalities
      for(size_t i = 0; i < w.doc.in.size(); i++) e[w.doc.eq.size() + i] = yd[i] * w.doc.ci[i];
      bool ok = true; for(int i = 0; i < p->m; i++) if(!close(e[i], l[i], 1e-9, 1e-300)) ok = false;
      if(lamok != 1) lamok = ok; ofok = close(of, w.doc.fs, 1e-9, 0);
      if(ok) break;
    }
  }
  if(w.nfor > 0) { if(!lamok) lamok = 2; if(!ofok) ofok = 2; }      // evaluations of the restoration problem
  if(w.blow) { if(!lamok) lamok = 2; if(!ofok) ofok = 2; }
  bool samel = w.havel && w.prevlam == l; 
  w.callback("H", "", x, nx, n == p->n && m == p->m && nsp == p->nsp && nde == p->n - p->nsp && nnzs == p->nsp, true, bad, J::obj().kv("nl", nl ? 1 : 0).kv("sl", samel ? 1 : 0).kv("lam", lamok).kv("of", ofok), (!nl && !samel) || !lamok || !ofok);
  w.cnt_h++; w.prevlam = l; w.havel = true;
  if(bad) return false;
  V H((size_t)p->n * p->n, 0.); p->f.hess(x, of, H.data());
  { auto eq = p->eqs(), in = p->ins(); for(size_t i = 0; i < eq.size(); i++) p->g[eq[i]].hess(x, lam[i], H.data()); for(size_t i = 0; i < in.size(); i++) p->g[in[i]].hess(x, lam[eq.size() + i], H.data()); }
  for(int j = 0; j < nsp; j++) { if(iH && jH) { iH[j] = jH[j] = j; } if(MH) MH[j] = H[(size_t)j * p->n + j]; }
  if(HD) for(int a = 0; a < nde; a++) for(int b = 0; b < nde; b++) HD[a * nde + b] = H[(size_t)(nsp + a) * p->n + nsp + b];
  nsd = 0;
  return true;
}

inline void Watch::begin(int r) {
  run = r; for(int& c : ncall) c = 0; lastk = -1; failed = false; havep = false; havel = false; x0seen = false; in_run = true; first_failed = -1;
  nclean = niter = 0; smallstep = blow = false; adset.clear();
  cnt_f = cnt_g = cnt_c = cnt_j = cnt_h = 0; ntrial = nfor = nfr = 0; ovf = false; havecur = false; nsol = 0; solst = -999; digest = 1469598103934665603ull;
  auto& o = *nlp->options;
  auto N = [&](const char* k) { return o.GetNumeric(k); };
  mu0 = N("mu0"); kmu = N("kappa_mu"); tmu = N("theta_mu"); taumin = N("tau_min"); keps = N("kappa_eps"); tol = N("tolerance"); dtol = N("dual_tol"); ctol = N("cons_tol"); cmtol = N("comp_tol"); kresto = N("kappa_resto");
  acctol = N("acceptable_tolerance"); rtol_ = N("rel_tolerance"); eta = N("eta_phi"); smax = N("smax"); thmaxf = N("theta_max_fact"); thminf = N("theta_min_fact"); minstep = N("min_step_size");
  mlrel = N("moving_lim_rel"); mlabs = N("moving_lim_abs"); pert = N("bound_relax_perturb"); maxit = o.GetInteger("max_iter"); accit = o.GetInteger("acceptable_iterations");
  lsqdual = !p->mds && o.GetString("duals_update_type") == "lsq"; lsqtol = N("recalc_lsq_duals_tol"); elastic = o.GetString("elastic_mode"); linsol = o.GetString("linsol_mode"); fixedopt = o.GetString("fixed_var");
  everystep = o.GetString("accept_every_trial_step") == "yes"; force = o.GetString("force_resto") == "yes";
  randreg = o.GetString("regularization_method") == "randomized";
  make_doc(); scale_doc();
  muchain.clear(); double fl = std::min(tol, cmtol / doc.fs) / 11.;
  double m = mu0; muchain.push_back(m);
  for(int i = 0; i < 200; i++) { double q = std::max(0., std::min(kmu * m, std::pow(m, tmu))); q = std::max(q, fl); if(q > m || std::fabs(q - m) < 1e-16) break; m = q; muchain.push_back(m); }
  emit(J::obj().kv("e", "run0").kv("r", r).kv("maxit", maxit).kv("accit", accit).kv("qn", p->mds ? 0 : 1).kv("elastic", elastic == "none" ? 0 : 1).kv("force", force ? 1 : 0).kv("every", everystep ? 1 : 0)
         .kv("stable", !p->mds || linsol == "stable" ? 1 : 0).kv("rel", rtol_ > 0 ? 1 : 0).kv("chain", (int)muchain.size()).kv("lsq", lsqdual ? 1 : 0).kv("ws", o.GetString("warm_start") == "yes" ? 1 : 0)
         .kv("failk", rc->fail_kind).kv("stop", rc->stop_at).kv("scaled", doc.scaled ? 1 : 0).kv("m", p->m).kv("maxsoc", o.GetInteger("max_soc_iter")));
}
inline void Watch::make_doc() {
  doc = Doc(); auto& o = *nlp->options; double ft = o.GetNumeric("fixed_var_tolerance"), fp = o.GetNumeric("fixed_var_perturb");
  V xl = p->xl, xu = p->xu; doc.fixed.assign(p->n, std::nan(""));
  for(int i = 0; i < p->n; i++) {
    bool fx = xu[i] < 1e20 && std::fabs(xl[i] - xu[i]) <= ft * std::max(1., std::fabs(xu[i]));
    if(fx && fixedopt == "remove") { doc.fixed[i] = p->xl[i]; continue; }
    doc.vars.push_back(i);
    if(fx && fixedopt == "relax" && pert == 0) { double t = fp * std::max(1., std::fabs(xu[i])); xl[i] -= t; xu[i] += t; }
  }
  double pe = elastic != "none" ? o.GetNumeric("elastic_mode_bound_relax_initial") : pert;
  auto rl = [&](double v) { return v > -1e20 ? v - pe * std::max(1., std::fabs(v)) : v; };
  auto ru = [&](double v) { return v < 1e20 ? v + pe * std::max(1., std::fabs(v)) : v; };
  for(int i : doc.vars) { doc.ixl.push_back(xl[i] > -1e20); doc.ixu.push_back(xu[i] < 1e20); doc.xl.push_back(rl(xl[i])); doc.xu.push_back(ru(xu[i])); doc.ncompl += doc.ixl.back() + doc.ixu.back(); }
  doc.eq = p->eqs(); doc.in = p->ins();
  for(int i : doc.eq) doc.crhs.push_back(p->cl[i]);
  for(int i : doc.in) { doc.idl.push_back(p->cl[i] > -1e20); doc.idu.push_back(p->cu[i] < 1e20); doc.dl.push_back(rl(p->cl[i])); doc.du.push_back(ru(p->cu[i])); doc.ncompl += doc.idl.back() + doc.idu.back(); }
  doc.ce.assign(doc.eq.size(), 1.); doc.ci.assign(doc.in.size(), 1.);
}
// documented gradient-based scaling, judged at the user's starting point
inline void Watch::scale_doc() {
  auto& o = *nlp->options; if(o.GetString("scaling_type") == "none") return;
  double mg = o.GetNumeric("scaling_max_grad"), mo = o.GetNumeric("scaling_max_obj_grad"), mc = o.GetNumeric("scaling_max_con_grad"), mn = o.GetNumeric("scaling_min_grad");
  double to = mo > 0 ? mo : mg, tc = mc > 0 ? mc : mg;
  V x0 = doc.fixed; for(int i : doc.vars) x0[i] = p->has_x0 ? x0user[i] : 0.;
  V g(p->n), ge, gi; p->f.grad(x0.data(), g.data()); V gint; for(int i : doc.vars) gint.push_back(g[i]);
  double go = ninf(gint), ce = 0, ci = 0; V re, ri;
  for(int i : doc.eq) { p->g[i].grad(x0.data(), g.data()); V h; for(int j : doc.vars) h.push_back(g[j]); re.push_back(ninf(h)); ce = std::max(ce, re.back()); }
  for(int i : doc.in) { p->g[i].grad(x0.data(), g.data()); V h; for(int j : doc.vars) h.push_back(g[j]); ri.push_back(ninf(h)); ci = std::max(ci, ri.back()); }
  if(go < to && ce < tc && ci < tc) return;
  doc.scaled = true;
  doc.fs = mo == 0 ? (go > mg ? mg / go : 1.) : mo / go;
  if(mn > 0) doc.fs = std::max(doc.fs, mn);
  auto rowsc = [&](double r, double mx) { double f = mc == 0 ? 1. / std::max(1., r / mg) : mc / mx; if(mn > 0) f = std::max(f, mn); return f; };
  for(size_t i = 0; i < re.size(); i++) doc.ce[i] = rowsc(re[i], ce);
  for(size_t i = 0; i < ri.size(); i++) doc.ci[i] = rowsc(ri[i], ci);
  for(size_t i = 0; i < re.size(); i++) doc.crhs[i] *= doc.ce[i];
  for(size_t i = 0; i < ri.size(); i++) { if(doc.idl[i]) doc.dl[i] *= doc.ci[i]; if(doc.idu[i]) doc.du[i] *= doc.ci[i]; }
}
inline Watch::Ev Watch::eval(const V& xi, bool der) const {
  Ev e; V u = user(xi); e.f = doc.fs * p->f.val(u.data());
  for(size_t i = 0; i < doc.eq.size(); i++) e.c.push_back(doc.ce[i] * p->g[doc.eq[i]].val(u.data()));
  for(size_t i = 0; i < doc.in.size(); i++) e.d.push_back(doc.ci[i] * p->g[doc.in[i]].val(u.data()));
  if(der) {
    V g(p->n); auto red = [&](double s) { V r; for(int j : doc.vars) r.push_back(s * g[j]); return r; };
    p->f.grad(u.data(), g.data()); e.gf = red(doc.fs);
    for(size_t i = 0; i < doc.eq.size(); i++) { p->g[doc.eq[i]].grad(u.data(), g.data()); e.Jc.push_back(red(doc.ce[i])); }
    for(size_t i = 0; i < doc.in.size(); i++) { p->g[doc.in[i]].grad(u.data(), g.data()); e.Jd.push_back(red(doc.ci[i])); }
  }
  return e;
}
const double KD = 1e-5;
inline double Watch::phi_barrier(const Pt& q, double f, double mu) const {
  double r = f, l = 0, dmp = 0;
  for(size_t i = 0; i < doc.xl.size(); i++) { if(doc.ixl[i]) l += std::log(q.sxl[i]); if(doc.ixu[i]) l += std::log(q.sxu[i]); if(doc.ixl[i] && !doc.ixu[i]) dmp += q.sxl[i]; if(!doc.ixl[i] && doc.ixu[i]) dmp += q.sxu[i]; }
  for(size_t i = 0; i < doc.dl.size(); i++) { if(doc.idl[i]) l += std::log(q.sdl[i]); if(doc.idu[i]) l += std::log(q.sdu[i]); if(doc.idl[i] && !doc.idu[i]) dmp += q.sdl[i]; if(!doc.idl[i] && doc.idu[i]) dmp += q.sdu[i]; }
  return r - mu * l + KD * mu * dmp;
}
inline Watch::Err Watch::errors(const Pt& q, const Ev& e, double mu) const {
  V dl_ = doc.dl, du_ = doc.du; if(elastic != "none") { dl_ = vec(&nlp->get_dl()); du_ = vec(&nlp->get_du()); }      // the bounds in force
  Err r; r.optim = r.feas = r.viol = r.compl_ = 0; double bo = 0, bc = 0, nb = 0, ne = 0; size_t n = doc.vars.size();
  for(size_t j = 0; j < n; j++) {
    double t = e.gf[j] - q.zl[j] + q.zu[j]; for(size_t i = 0; i < e.Jc.size(); i++) t += e.Jc[i][j] * q.yc[i]; for(size_t i = 0; i < e.Jd.size(); i++) t += e.Jd[i][j] * q.yd[i];
    r.optim = std::max(r.optim, std::fabs(t)); double dm = doc.ixl[j] && !doc.ixu[j] ? KD * mu : !doc.ixl[j] && doc.ixu[j] ? -KD * mu : 0; bo = std::max(bo, std::fabs(t + dm));
    if(doc.ixl[j]) { double s = q.sxl[j] * q.zl[j]; r.compl_ = std::max(r.compl_, std::fabs(s)); bc = std::max(bc, std::fabs(mu - s)); nb += std::fabs(q.zl[j]); }
    if(doc.ixu[j]) { double s = q.sxu[j] * q.zu[j]; r.compl_ = std::max(r.compl_, std::fabs(s)); bc = std::max(bc, std::fabs(mu - s)); nb += std::fabs(q.zu[j]); }
  }
  for(size_t i = 0; i < doc.eq.size(); i++) { double t = std::fabs(doc.crhs[i] - e.c[i]); r.feas = std::max(r.feas, t); r.viol = std::max(r.viol, t); ne += std::fabs(q.yc[i]); }
  for(size_t i = 0; i < doc.in.size(); i++) {
    double t = -q.yd[i] - q.vl[i] + q.vu[i]; r.optim = std::max(r.optim, std::fabs(t)); double dm = doc.idl[i] && !doc.idu[i] ? KD * mu : !doc.idl[i] && doc.idu[i] ? -KD * mu : 0; bo = std::max(bo, std::fabs(t + dm)); ne += std::fabs(q.yd[i]);
    r.feas = std::max(r.feas, std::fabs(q.d[i] - e.d[i]));
    if(doc.idl[i]) { r.viol = std::max(r.viol, dl_[i] - e.d[i]); double s = q.sdl[i] * q.vl[i]; r.compl_ = std::max(r.compl_, std::fabs(s)); bc = std::max(bc, std::fabs(mu - s)); nb += std::fabs(q.vl[i]); }
    if(doc.idu[i]) { r.viol = std::max(r.viol, e.d[i] - du_[i]); double s = q.sdu[i] * q.vu[i]; r.compl_ = std::max(r.compl_, std::fabs(s)); bc = std::max(bc, std::fabs(mu - s)); nb += std::fabs(q.vu[i]); }
  }
  int nc = doc.ncompl, m = p->m; double sd = nc + m == 0 ? 1. : std::min(1e8, std::max(smax, (nb + ne) / (nc + m)) / smax), sc = nc == 0 ? 1. : std::min(1e8, std::max(smax, nb / nc) / smax);
  r.overall = std::max(r.optim / sd, std::max(r.viol, r.compl_ / sc)); r.blog = std::max(bo / sd, std::max(r.viol, bc / sc));
  return r;
}
inline int Watch::bndfact(const double* x) const {
  bool exact0 = lastk < 0;
  if(exact0) { V x0 = doc.fixed; for(int i : doc.vars) x0[i] = p->has_x0 ? x0user[i] : 0.; bool eq = true; for(int i = 0; i < p->n; i++) if(x0[i] != x[i]) eq = false; if(eq) return 2; }
  V lo = vec(&nlp->get_xl()), up = vec(&nlp->get_xu()); int r = 1; if(lo.size() != doc.vars.size()) return 0;
  for(size_t j = 0; j < doc.vars.size(); j++) {
    double v = x[doc.vars[j]]; if(!std::isfinite(v)) return 0;
    if(doc.ixl[j]) { double b = doc.xl[j], t = 1e-7 * std::max(1., std::fabs(b)), e = 4e-16 * std::max(1., std::fabs(b)); if(v < b - t) return 0; if(lo[j] > -1e20) { if(v < lo[j] - e) { if(v < b - e) return 0; } else if(v <= lo[j] + e) r = 2; } }
    if(doc.ixu[j]) { double b = doc.xu[j], t = 1e-7 * std::max(1., std::fabs(b)), e = 4e-16 * std::max(1., std::fabs(b)); if(v > b + t) return 0; if(up[j] < 1e20) { if(v > up[j] + e) { if(v > b + e) return 0; } else if(v >= up[j] - e) r = 2; } }
  }
  return r;
}
inline void Watch::callback(const char* kind, const char* part, const double* x, bool newx, bool sz, bool idx, bool fail, J extra, bool hbad) {
  int id = point_id(x); V xv(x, x + p->n); bool same = havep && !memcmp(prevx.data(), xv.data(), p->n * sizeof(double)); prevx = xv; havep = true;
  int fix = 1; for(int i = 0; i < p->n; i++) if(!std::isnan(doc.fixed[i]) && x[i] != doc.fixed[i]) fix = 0;
  int bndok = bndfact(x); if(!bndok && blow) bndok = 2;
  if(!digx_only && digcb) { dig(kind, 1); double nxd = newx; dig(nxd); dig(xv); }
  extra.kv("e", "cb").kv("k", kind).kv("p", part).kv("nx", newx ? 1 : 0).kv("same", same ? 1 : 0).kv("id", id).kv("sz", sz ? 1 : 0).kv("idx", idx ? 1 : 0).kv("fix", fix).kv("bnd", bndok).kv("bad", fail ? 1 : 0);
  bool notable = fail || !sz || !idx || !fix || !bndok || (!newx && !same) || hbad;
  if(notable || ++nclean <= 60) emit(extra);
}
static inline std::string num(double d) { char b[40]; if(std::isnan(d)) return "\"nan\""; if(std::isinf(d)) return d > 0 ? "1e308" : "-1e308"; snprintf(b, 40, "%.17g", d); return b; }

static inline double amaxp(const Doc& doc, const Pt& q, const Pt& dd, double tau) {
  double a = 1; auto f = [&](double s, double ds) { if(ds < 0) a = std::min(a, -tau * s / ds); };
  for(size_t j = 0; j < doc.vars.size(); j++) { if(doc.ixl[j]) f(q.sxl[j], dd.sxl[j]); if(doc.ixu[j]) f(q.sxu[j], dd.sxu[j]); }
  for(size_t j = 0; j < doc.in.size(); j++) { if(doc.idl[j]) f(q.sdl[j], dd.sdl[j]); if(doc.idu[j]) f(q.sdu[j], dd.sdu[j]); }
  return a;
}
static inline double amaxd(const Doc& doc, const Pt& q, const Pt& dd, double tau) {
  double a = 1; auto f = [&](double s, double ds) { if(ds < 0) a = std::min(a, -tau * s / ds); };
  for(size_t j = 0; j < doc.vars.size(); j++) { if(doc.ixl[j]) f(q.zl[j], dd.zl[j]); if(doc.ixu[j]) f(q.zu[j], dd.zu[j]); }
  for(size_t j = 0; j < doc.in.size(); j++) { if(doc.idl[j]) f(q.vl[j], dd.vl[j]); if(doc.idu[j]) f(q.vu[j], dd.vu[j]); }
  return a;
}
// a system of the size of the constraints is numerically close to singular (scaled Cholesky pivots)
inline bool Watch::illcond(const Pt& q, const Ev& e, bool lsq) const {
  size_t n = doc.vars.size(), me = doc.eq.size(), mi = doc.in.size(), m = me + mi; if(m == 0) return false;
  V D(n, 1.); if(!lsq) for(size_t j = 0; j < n; j++) { if(doc.ixl[j]) D[j] += q.zl[j] / q.sxl[j]; if(doc.ixu[j]) D[j] += q.zu[j] / q.sxu[j]; }
  V N(m * m, 0.); auto row = [&](size_t i) -> const V& { return i < me ? e.Jc[i] : e.Jd[i - me]; };
  for(size_t a = 0; a < m; a++) for(size_t b = 0; b < m; b++) { double t = 0; for(size_t j = 0; j < n; j++) t += row(a)[j] * row(b)[j] / D[j]; N[a * m + b] = t; }
  for(size_t i = 0; i < mi; i++) { double d = 1; if(!lsq) { d = 0; if(doc.idl[i]) d += q.vl[i] / q.sdl[i]; if(doc.idu[i]) d += q.vu[i] / q.sdu[i]; } N[(me + i) * m + me + i] += 1. / d; }
  for(size_t a = 0; a < m; a++) if(!(N[a * m + a] > 1e-10)) return true;
  V s(m); for(size_t a = 0; a < m; a++) s[a] = std::sqrt(N[a * m + a]);
  for(size_t a = 0; a < m; a++) for(size_t b = 0; b < m; b++) N[a * m + b] /= s[a] * s[b];
  for(size_t k = 0; k < m; k++) { if(!(N[k * m + k] > 1e-7)) return true; for(size_t i = k + 1; i < m; i++) { double f = N[i * m + k] / N[k * m + k]; for(size_t j = k; j < m; j++) N[i * m + j] -= f * N[k * m + j]; } }
  return false;
}
// the direction against the linearized system at q; *pert: 0 no regularization, 1 some
inline int Watch::dirfact(const Pt& q, const Pt& dd, double mu, int* pertu) {
  size_t n = doc.vars.size(), me = doc.eq.size(), mi = doc.in.size(); Ev e = eval(q.x, true);
  for(const V* v : {&dd.x, &dd.d, &dd.yc, &dd.yd, &dd.zl, &dd.zu, &dd.vl, &dd.vu, &dd.sxl, &dd.sxu, &dd.sdl, &dd.sdu}) for(double t : *v) if(!std::isfinite(t)) return 0;
  V W(n, 0.), Wa(n, 0.);
  if(p->mds) {
    V u = user(q.x), H((size_t)p->n * p->n, 0.); p->f.hess(u.data(), doc.fs, H.data());
    for(size_t i = 0; i < me; i++) p->g[doc.eq[i]].hess(u.data(), doc.ce[i] * q.yc[i], H.data());
    for(size_t i = 0; i < mi; i++) p->g[doc.in[i]].hess(u.data(), doc.ci[i] * q.yd[i], H.data());
    for(size_t a = 0; a < n; a++) for(size_t b = 0; b < n; b++) { double t = H[(size_t)doc.vars[a] * p->n + doc.vars[b]] * dd.x[b]; W[a] += t; Wa[a] += std::fabs(t); }
  } else {
    hiopVector* a = alg->get_dir()->get_x()->new_copy(); hiopVector* b = alg->get_dir()->get_x()->alloc_clone(); b->setToZero();
    static_cast<hiopMatrix*>(alg->get_Hess_Lagr())->timesVec(0., *b, 1., *a); W = vec(b); for(size_t i = 0; i < n; i++) Wa[i] = std::fabs(W[i]); delete a; delete b;
  }
  V r1(n), s1(n), r2(mi), s2(mi), r3(me), s3(me), r4(mi), s4(mi); double worst = 0;
  auto acc = [](double& r, double& s, double t) { r += t; s += std::fabs(t); };
  for(size_t j = 0; j < n; j++) {
    double r = W[j], s = Wa[j];
    for(size_t i = 0; i < me; i++) { acc(r, s, e.Jc[i][j] * dd.yc[i]); acc(r, s, e.Jc[i][j] * q.yc[i]); }
    for(size_t i = 0; i < mi; i++) { acc(r, s, e.Jd[i][j] * dd.yd[i]); acc(r, s, e.Jd[i][j] * q.yd[i]); }
    acc(r, s, e.gf[j]); acc(r, s, -q.zl[j]); acc(r, s, q.zu[j]); acc(r, s, -dd.zl[j]); acc(r, s, dd.zu[j]);
    if(doc.ixl[j] && !doc.ixu[j]) acc(r, s, KD * mu); if(!doc.ixl[j] && doc.ixu[j]) acc(r, s, -KD * mu);
    r1[j] = r; s1[j] = s;
  }
  for(size_t i = 0; i < mi; i++) {
    double r = 0, s = 0; acc(r, s, -dd.yd[i]); acc(r, s, -q.yd[i]); acc(r, s, -dd.vl[i]); acc(r, s, dd.vu[i]); acc(r, s, -q.vl[i]); acc(r, s, q.vu[i]);
    if(doc.idl[i] && !doc.idu[i]) acc(r, s, KD * mu); if(!doc.idl[i] && doc.idu[i]) acc(r, s, -KD * mu);
    r2[i] = r; s2[i] = s;
    r = s = 0; for(size_t j = 0; j < n; j++) acc(r, s, e.Jd[i][j] * dd.x[j]); acc(r, s, -dd.d[i]); acc(r, s, e.d[i]); acc(r, s, -q.d[i]); r4[i] = r; s4[i] = s;
  }
  for(size_t i = 0; i < me; i++) { double r = 0, s = 0; for(size_t j = 0; j < n; j++) acc(r, s, e.Jc[i][j] * dd.x[j]); acc(r, s, e.c[i]); acc(r, s, -doc.crhs[i]); r3[i] = r; s3[i] = s; }
  // best non-negative scalar regularizations
  double ab = 0, bb = 0; for(size_t j = 0; j < n; j++) { ab += r1[j] * dd.x[j]; bb += dd.x[j] * dd.x[j]; } for(size_t i = 0; i < mi; i++) { ab += r2[i] * dd.d[i]; bb += dd.d[i] * dd.d[i]; }
  double dw = bb > 0 ? std::max(0., -ab / bb) : 0; ab = bb = 0;
  for(size_t i = 0; i < me; i++) { ab -= r3[i] * dd.yc[i]; bb += dd.yc[i] * dd.yc[i]; } for(size_t i = 0; i < mi; i++) { ab -= r4[i] * dd.yd[i]; bb += dd.yd[i] * dd.yd[i]; }
  double dc = bb > 0 ? std::max(0., -ab / bb) : 0;
  double sc12 = 0, sc34 = 0, re12 = 0, re34 = 0;
  for(size_t j = 0; j < n; j++) { double t = dw * dd.x[j]; re12 = std::max(re12, std::fabs(r1[j] + t)); sc12 = std::max(sc12, s1[j] + std::fabs(t)); }
  for(size_t i = 0; i < mi; i++) { double t = dw * dd.d[i]; re12 = std::max(re12, std::fabs(r2[i] + t)); sc12 = std::max(sc12, s2[i] + std::fabs(t)); }
  for(size_t i = 0; i < me; i++) { double t = -dc * dd.yc[i]; re34 = std::max(re34, std::fabs(r3[i] + t)); sc34 = std::max(sc34, s3[i] + std::fabs(t)); }
  for(size_t i = 0; i < mi; i++) { double t = -dc * dd.yd[i]; re34 = std::max(re34, std::fabs(r4[i] + t)); sc34 = std::max(sc34, s4[i] + std::fabs(t)); }
  if(sc12 > 0) worst = std::max(worst, re12 / std::max(sc12, 1e-8)); if(sc34 > 0) worst = std::max(worst, re34 / std::max(sc34, 1e-8));
  // slack and complementarity rows
  V LB = vec(&nlp->get_xl()), UB = vec(&nlp->get_xu()), DL = vec(&nlp->get_dl()), DU = vec(&nlp->get_du());
  double re5 = 0; auto row = [&](double r, double s) { re5 = std::max(re5, std::fabs(r) / std::max(s, 1e-10)); };
  auto cmp = [&](double z, double s, double dz, double ds) { row(z * ds + s * dz + s * z - mu, std::fabs(z * ds) + std::fabs(s * dz) + std::fabs(s * z) + mu); };
  for(size_t j = 0; j < n; j++) {
    if(doc.ixl[j]) { row(dd.sxl[j] - dd.x[j] - (q.x[j] - LB[j] - q.sxl[j]), std::fabs(dd.x[j]) + std::fabs(q.sxl[j]) + 1e-9 * std::max(1., std::fabs(q.x[j]))); cmp(q.zl[j], q.sxl[j], dd.zl[j], dd.sxl[j]); }
    if(doc.ixu[j]) { row(dd.sxu[j] + dd.x[j] - (UB[j] - q.x[j] - q.sxu[j]), std::fabs(dd.x[j]) + std::fabs(q.sxu[j]) + 1e-9 * std::max(1., std::fabs(q.x[j]))); cmp(q.zu[j], q.sxu[j], dd.zu[j], dd.sxu[j]); }
  }
  for(size_t j = 0; j < mi; j++) {
    if(doc.idl[j]) { row(dd.sdl[j] - dd.d[j] - (q.d[j] - DL[j] - q.sdl[j]), std::fabs(dd.d[j]) + std::fabs(q.sdl[j]) + 1e-9 * std::max(1., std::fabs(q.d[j]))); cmp(q.vl[j], q.sdl[j], dd.vl[j], dd.sdl[j]); }
    if(doc.idu[j]) { row(dd.sdu[j] + dd.d[j] - (DU[j] - q.d[j] - q.sdu[j]), std::fabs(dd.d[j]) + std::fabs(q.sdu[j]) + 1e-9 * std::max(1., std::fabs(q.d[j]))); cmp(q.vu[j], q.sdu[j], dd.vu[j], dd.sdu[j]); }
  }
  *pertu = dw > 1e-14 || dc > 1e-14;
  if(getenv("IPM_DBG")) fprintf(stderr, "dir k=%d worst %.2e (12: %.2e/%.2e 34: %.2e/%.2e) rows %.2e dw %.2e dc %.2e\n", lastk, worst, re12, sc12, re34, sc34, re5, dw, dc);
  rowsok = elastic != "none" ? 2 : re5 <= 1e-6 ? 1 : re5 <= 1e-3 ? 2 : 0; if(!std::isfinite(re5)) rowsok = 0;
  return worst <= 1e-6 ? 1 : worst <= 5e-2 || std::max(sc12, sc34) > 1e5 ? 2 : 0;
}
inline void Watch::trial(const double* x, bool fail) {
  if(lastk < 0 || !in_run) return;
  V xi = inner(V(x, x + p->n)); Pt t = pt(alg->get_it_trial());
  if(t.x != xi) { nfor++; nfr++; return; }
  double mu = alg->get_mu(); Pt q = pt(alg->get_it_curr()), dd = pt(alg->get_dir()); Ev e0 = eval(q.x, true), e1 = eval(t.x, false);
  double th0 = theta(q, e0), th1 = theta(t, e1), f0 = phi_barrier(q, e0.f, mu), f1 = phi_barrier(t, e1.f, mu);
  double mag = std::fabs(e0.f) + std::fabs(e1.f) + std::fabs(f0) + std::fabs(f1); for(double v : e0.c) mag = std::max(mag, std::fabs(v)); for(double v : e0.d) mag = std::max(mag, std::fabs(v)); for(double v : e1.c) mag = std::max(mag, std::fabs(v)); for(double v : e1.d) mag = std::max(mag, std::fabs(v));
  double ta = 2e-14 * (1 + mag) * (1 + doc.eq.size() + doc.in.size() + doc.vars.size());
  double tau = std::max(taumin, 1. - mu), am = amaxp(doc, q, dd, tau), nx = ninf(dd.x);
  if(mlrel > 0) am *= mlrel; else if(mlabs > 0 && am * nx > mlabs) am = mlabs / nx;
  if(ntrial == 0) {
    double g = 0; for(size_t j = 0; j < q.x.size(); j++) { double b = e0.gf[j]; if(doc.ixl[j]) b -= mu / q.sxl[j]; if(doc.ixu[j]) b += mu / q.sxu[j]; if(doc.ixl[j] && !doc.ixu[j]) b += KD * mu; if(!doc.ixl[j] && doc.ixu[j]) b -= KD * mu; g += b * dd.x[j]; }
    for(size_t j = 0; j < q.d.size(); j++) { double b = 0; if(doc.idl[j]) b -= mu / q.sdl[j]; if(doc.idu[j]) b += mu / q.sdu[j]; if(doc.idl[j] && !doc.idu[j]) b += KD * mu; if(!doc.idl[j] && doc.idu[j]) b -= KD * mu; g += b * dd.d[j]; }
    if(!blow) for(const V* v : {&q.x, &q.d, &q.yc, &q.yd, &q.zl, &q.zu, &q.vl, &q.vu}) if(!(ninf(*v) <= 1e7)) blow = true;
    int pu = 0; int ok = dirfact(q, dd, mu, &pu); cur = q; havecur = true; gphi = g; if(!ok && (blow || randreg || illcond(q, e0, false))) ok = 2; prevj = -1;
    emit(J::obj().kv("e", "dir").kv("k", lastk).kv("mu", muidx(mu)).kv("ok", ok).kv("rows", rowsok == 0 && blow ? 2 : rowsok).kv("pert", pu).kv("far", not3(leq(th0, theta_min, 1e-11, ta))).raw("thm", num(theta_max)));
  }
  adset.push_back(amaxd(doc, q, dd, tau));
  bool smallstep0 = smallstep; // position along the direction
  int j = -1; double a = am; bool tiny = nx * am < 1e-13 * (1 + ninf(q.x)) && ninf(dd.d) * am < 1e-13 * (1 + ninf(q.d));
  for(int i = 0; i < 70 && j < 0; i++, a *= 0.5) {
    bool ok = true; for(size_t k = 0; k < q.x.size() && ok; k++) ok = std::fabs(q.x[k] + a * dd.x[k] - t.x[k]) <= 1e-11 * a * std::fabs(dd.x[k]) + 5e-16 * (std::fabs(q.x[k]) + std::fabs(t.x[k])) ;
    for(size_t k = 0; k < q.d.size() && ok; k++) ok = std::fabs(q.d[k] + a * dd.d[k] - t.d[k]) <= 1e-11 * a * std::fabs(dd.d[k]) + 5e-16 * (std::fabs(q.d[k]) + std::fabs(t.d[k]));
    if(ok) j = i;
  }
  double al = j >= 0 ? am * std::pow(0.5, j) : am;
  int sw, arm; { double l = gphi < 0 ? al * std::pow(-gphi, 2.3) : 0, r = std::pow(std::max(0., th0), 1.1); sw = gphi < 0 ? not3(leq(l, r, 1e-9, 0)) : 0; if(std::fabs(gphi) < 1e-12 * (1 + mag) * (1 + nx)) sw = sw == 0 && gphi >= 0 ? 2 : 2;
    arm = leq(f1, f0 + eta * al * gphi, 1e-13, ta); }
  int sdt = leq(th1, (1 - 1e-5) * th0, 1e-11, ta), sdp = leq(f1, f0 - 1e-8 * th0, 1e-13, ta);
  if(th0 == 0 && th1 == 0) sdt = 1;
  int fc = alg->filter_contains(th1, f1) ? 1 : 0, fd = alg->filter_contains(th1 * 2 + 1, f1 + 1 + std::fabs(f1)) ? 1 : 0;
  int small = leq(al, minstep * 1., 1e-9, 0); if(leq(al * 0.5, minstep, 1e-9, 0) != 0 || tiny) smallstep = true;
  if(!(th1 <= 1e7 && std::fabs(f1) <= 1e12)) blow = true;
  if(blow) { sw = arm = sdt = sdp = 2; }
  bool rep = prevj >= 0 && ((j >= 0 && j < prevj) || (prevj >= 10 && (j == prevj || j < 0)));   // no longer the backtracking along the direction
  int ss = smallstep0 || rep || (force && lastk <= 2) ? 1 : 0;
  ntrial++; if(ntrial > 20 || rep) smallstep = true; if(j >= 0) prevj = j;
  emit(J::obj().kv("e", "tr").kv("blow", blow ? 1 : 0).kv("i", ntrial).kv("j", j).kv("tiny", tiny ? 1 : 0).kv("bad", fail ? 1 : 0).raw("th", num(th1)).raw("ph", num(f1)).raw("th2", num(th1 * 2 + 1)).raw("ph2", num(f1 + 1 + std::fabs(f1))).raw("tt", num(ta)).kv("sdt", sdt).kv("sdp", sdp).kv("sw", sw).kv("arm", arm)
         .kv("up", leq(th0, th1, 1e-11, ta)).kv("fc", fc).kv("fd", fd).kv("small", small).kv("ss", ss));
}
inline bool Watch::iterate(int k, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* sl, int m, const double* g, const double* lam, double ipr, double idu, double opr, double mu, double adu, double apr, int lst) {
  V xv(x, x + (n == p->n ? n : 0)); Pt q = pt(alg->get_it_curr()); Ev e = eval(q.x, true); J j = J::obj(); j.kv("e", "it").kv("k", k);
  bool first = lastk < 0; lastk = k; V u = user(q.x);
  double mag = ninf(e.gf) + ninf(q.yc) + ninf(q.yd) + ninf(q.zl) + ninf(q.zu); for(auto& r : e.Jc) mag = std::max(mag, ninf(r) * ninf(q.yc)); for(auto& r : e.Jd) mag = std::max(mag, ninf(r) * ninf(q.yd)); mag = std::max(mag, std::max(ninf(e.c), ninf(e.d)));
  double at = 1e-13 * (1 + mag);
  Err er = errors(q, e, mu); double th = theta(q, e);
  if(getenv("IPM_DBG")) fprintf(stderr, "it k=%d mu %.3e optim %.3e feas %.3e viol %.3e compl %.3e overall %.3e blog %.3e\n", k, mu, er.optim, er.feas, er.viol, er.compl_, er.overall, er.blog);
  if(first) { theta_min = thminf * std::max(1., th); theta_max = thmaxf * std::max(1., th); optim0 = er.optim; feas0 = er.feas; compl0 = er.compl_; }
  for(const V* v : {&q.x, &q.d, &q.yc, &q.yd, &q.zl, &q.zu, &q.vl, &q.vu}) { for(double t : *v) if(!(std::fabs(t) <= 1e7)) blow = true; }
  if(!(th <= 1e7 && std::fabs(e.f) <= 1e9)) blow = true;
  j.kv("mu", muidx(mu)).kv("muq", muidx(alg->get_mu()));
  j.kv("n", n == p->n && m == p->m && mi == (int)doc.in.size() ? 1 : 0);
  bool xok = n == p->n; if(xok) for(int i = 0; i < n; i++) if(x[i] != u[i]) xok = false;
  j.kv("x", xok ? 1 : 0).kv("obj", close(obj, p->f.val(u.data()), 1e-9, 1e-11) ? 1 : 0).kv("lb", close(lb, phi_barrier(q, e.f, mu), 1e-8, 1e-9 * (1 + std::fabs(e.f))) ? 1 : 0);
  bool zok = n == p->n, lok = m == p->m, gok = m == p->m, sok = mi == (int)doc.in.size();
  if(zok) { V el(p->n, 0.), eu(p->n, 0.); for(size_t i = 0; i < doc.vars.size(); i++) { el[doc.vars[i]] = q.zl[i] / doc.fs; eu[doc.vars[i]] = q.zu[i] / doc.fs; } for(int i = 0; i < n; i++) { if(std::isnan(doc.fixed[i]) && !(close(zl[i], el[i], 1e-9, 1e-300) && close(zu[i], eu[i], 1e-9, 1e-300))) zok = false; } }
  if(lok) { for(size_t i = 0; i < doc.eq.size(); i++) if(!close(lam[doc.eq[i]], q.yc[i] * doc.ce[i] / doc.fs, 1e-9, 1e-300)) lok = false; for(size_t i = 0; i < doc.in.size(); i++) if(!close(lam[doc.in[i]], q.yd[i] * doc.ci[i] / doc.fs, 1e-9, 1e-300)) lok = false; }
  if(gok) for(int i = 0; i < m; i++) if(!close(g[i], p->g[i].val(u.data()), 1e-9, 1e-11)) gok = false;
  if(sok) for(int i = 0; i < mi; i++) if(!close(sl[i], q.d[i] / doc.ci[i], 1e-9, 1e-300)) sok = false;
  j.kv("z", zok ? 1 : 0).kv("lam", lok ? 1 : 0).kv("g", gok ? 1 : 0).kv("s", sok ? 1 : 0);
  double tolm = 1e-9, ab = 1e-12 * (1 + mag);
  j.kv("ipr", close(ipr, er.feas, tolm, ab) ? 1 : 0).kv("idu", close(idu, er.optim, tolm, ab) ? 1 : 0).kv("opr", close(opr, th, tolm, ab) ? 1 : 0);
  // internal derivatives are those of the transformed problem
  { bool ok = true; auto cmpJ = [&](hiopMatrix* M, const std::vector<V>& E) {
      if(auto* D = dynamic_cast<hiopMatrixDense*>(M)) { for(size_t r = 0; r < E.size(); r++) for(size_t c = 0; c < E[r].size(); c++) if(!close(D->local_data_const()[r * E[r].size() + c], E[r][c], 1e-9, 1e-12)) ok = false; }
      else if(auto* S = dynamic_cast<hiopMatrixMDS*>(M)) { int ns = S->n_sp(), nd = S->n_de(); std::vector<V> A(E.size(), V(doc.vars.size(), 0.)); for(int t = 0; t < S->sp_nnz(); t++) A[S->sp_irow()[t]][S->sp_jcol()[t]] += S->sp_M()[t]; for(size_t r = 0; r < E.size(); r++) for(int c = 0; c < nd; c++) A[r][ns + c] = S->de_local_data()[r * nd + c]; for(size_t r = 0; r < E.size(); r++) for(size_t c = 0; c < E[r].size(); c++) if(!close(A[r][c], E[r][c], 1e-9, 1e-12)) ok = false; } };
    cmpJ(alg->get_Jac_c(), e.Jc); cmpJ(alg->get_Jac_d(), e.Jd); j.kv("jac", ok ? 1 : 0);
    V ic = vec(alg->get_c()), id = vec(alg->get_d()); ok = ic.size() == e.c.size() && id.size() == e.d.size(); for(size_t i = 0; ok && i < ic.size(); i++) ok = close(ic[i], e.c[i], 1e-9, 1e-12); for(size_t i = 0; ok && i < id.size(); i++) ok = close(id[i], e.d[i], 1e-9, 1e-12); j.kv("cd", ok ? 1 : 0).kv("osc", close(nlp->get_obj_scale(), doc.fs, 1e-9, 0) ? 1 : 0);
    // the internal bounds and right-hand sides
    V L = vec(&nlp->get_xl()), U = vec(&nlp->get_xu()), dl = vec(&nlp->get_dl()), du = vec(&nlp->get_du()), cr = vec(&nlp->get_crhs()); ok = L.size() == doc.xl.size() && dl.size() == doc.dl.size() && cr.size() == doc.crhs.size();
    double bt = elastic == "none" ? 1e-7 : 1e-1;
    for(size_t i = 0; ok && i < L.size(); i++) { if(doc.ixl[i]) ok = ok && close(L[i], doc.xl[i], 1e-10, bt * std::max(1., std::fabs(doc.xl[i]))); if(doc.ixu[i]) ok = ok && close(U[i], doc.xu[i], 1e-10, bt * std::max(1., std::fabs(doc.xu[i]))); }
    for(size_t i = 0; ok && i < dl.size(); i++) { if(doc.idl[i]) ok = ok && close(dl[i], doc.dl[i], 1e-10, bt * std::max(1., std::fabs(doc.dl[i]))); if(doc.idu[i]) ok = ok && close(du[i], doc.du[i], 1e-10, bt * std::max(1., std::fabs(doc.du[i]))); }
    for(size_t i = 0; ok && i < cr.size(); i++) ok = close(cr[i], doc.crhs[i], 1e-10, 1e-13);
    j.kv("bd", ok ? 1 : blow ? 2 : 0);
    // slacks
    ok = true; auto sc = [&](double s, double v, double b) { if(!(s > 0)) ok = false; if(!(std::fabs(s - (v - b)) <= 1e-9 * (std::fabs(v) + std::fabs(b) + 1))) ok = false; };
    for(size_t i = 0; ok && i < L.size(); i++) { if(doc.ixl[i]) sc(q.sxl[i], q.x[i], L[i]); if(doc.ixu[i]) sc(q.sxu[i], U[i], q.x[i]); }
    for(size_t i = 0; ok && i < dl.size(); i++) { if(doc.idl[i]) sc(q.sdl[i], q.d[i], dl[i]); if(doc.idu[i]) sc(q.sdu[i], du[i], q.d[i]); }
    j.kv("sl", ok ? 1 : 0);
    ok = true; for(size_t i = 0; i < L.size(); i++) { if(doc.ixl[i] ? !(q.zl[i] > 0) : q.zl[i] != 0) ok = false; if(doc.ixu[i] ? !(q.zu[i] > 0) : q.zu[i] != 0) ok = false; }
    for(size_t i = 0; i < dl.size(); i++) { if(doc.idl[i] ? !(q.vl[i] > 0) : q.vl[i] != 0) ok = false; if(doc.idu[i] ? !(q.vu[i] > 0) : q.vu[i] != 0) ok = false; }
    j.kv("zp", ok ? 1 : 0).kv("bnd", xok ? bndfact(x) : 1);
  }
  // steps
  int st = 2, aj = -2, ad = 2, du_ = 2, yu = 2, bf = 2, mlv = 2;
  if(!first && havecur) {
    Pt dd = pt(alg->get_dir()); double M = alg->get_mu(), tau = std::max(taumin, 1. - M), am0 = amaxp(doc, cur, dd, tau), am = am0, nx = ninf(dd.x);
    if(mlrel > 0) am *= mlrel; else if(mlabs > 0 && am * nx > mlabs) am = mlabs / nx;
    st = 1; for(size_t i = 0; i < q.x.size(); i++) if(std::fabs(cur.x[i] + apr * dd.x[i] - q.x[i]) > 1e-11 * apr * std::fabs(dd.x[i]) + 5e-16 * (std::fabs(q.x[i]) + std::fabs(cur.x[i]))) st = 0;
    for(size_t i = 0; i < q.d.size(); i++) if(std::fabs(cur.d[i] + apr * dd.d[i] - q.d[i]) > 1e-11 * apr * std::fabs(dd.d[i]) + 5e-16 * (std::fabs(q.d[i]) + std::fabs(cur.d[i]))) st = 0;
    aj = -1; double a = am; for(int i = 0; i < 70; i++, a *= 0.5) if(close(a, apr, 1e-9, 0)) { aj = i; break; }
    if(aj < 0 && close(apr, am0, 1e-9, 0)) aj = -3;   // boundary rule without the moving limit (second-order correction)
    ad = close(adu, amaxd(doc, cur, dd, tau), 1e-9, 0) ? 1 : 0; for(double t : adset) if(close(adu, t, 1e-9, 0)) ad = 1;
    // fraction to the boundary between consecutive iterates
    bf = 1; auto fb = [&](double sn, double so, double b) { if(sn < (1 - tau) * so * (1 - 1e-6) - 1e-13 * (1 + std::fabs(b))) bf = 0; };
    for(size_t i = 0; i < q.x.size(); i++) { if(doc.ixl[i]) fb(q.sxl[i], cur.sxl[i], q.x[i]); if(doc.ixu[i]) fb(q.sxu[i], cur.sxu[i], q.x[i]); }
    for(size_t i = 0; i < q.d.size(); i++) { if(doc.idl[i]) fb(q.sdl[i], cur.sdl[i], q.d[i]); if(doc.idu[i]) fb(q.sdu[i], cur.sdu[i], q.d[i]); }
    if(mlrel > 0 || mlabs > 0) { double mv = 0; for(size_t i = 0; i < q.x.size(); i++) mv = std::max(mv, std::fabs(q.x[i] - cur.x[i])); mlv = mlabs > 0 && !(mlrel > 0) ? (mv <= mlabs * (1 + 1e-9) ? 1 : 0) : (apr <= mlrel * am0 * (1 + 1e-9) ? 1 : 0); }
    du_ = 1; auto zu_ = [&](double zn, double zo, double dz, double s) { double w = zo + adu * dz, lo = M / s / 1e10, hi = 1e10 * M / s; double ex = std::max(std::min(w, hi), lo); if(!close(zn, ex, 1e-8, 1e-300) && !(w > 0 && close(zn, w, 1e-8, 1e-300) && (close(w, lo, 1e-6, 0) || close(w, hi, 1e-6, 0)))) du_ = 0; };
    for(size_t i = 0; i < q.x.size(); i++) { if(doc.ixl[i]) zu_(q.zl[i], cur.zl[i], dd.zl[i], q.sxl[i]); if(doc.ixu[i]) zu_(q.zu[i], cur.zu[i], dd.zu[i], q.sxu[i]); }
    for(size_t i = 0; i < q.d.size(); i++) { if(doc.idl[i]) zu_(q.vl[i], cur.vl[i], dd.vl[i], q.sdl[i]); if(doc.idu[i]) zu_(q.vu[i], cur.vu[i], dd.vu[i], q.sdu[i]); }
    bool lin = true, lsq = true; double ys = ninf(q.yc) + ninf(q.yd) + ninf(cur.yc) + ninf(cur.yd) + 1e-300;
    for(size_t i = 0; i < q.yc.size(); i++) if(!close(q.yc[i], cur.yc[i] + apr * dd.yc[i], 1e-9, 1e-14 * ys)) lin = false;
    for(size_t i = 0; i < q.yd.size(); i++) if(!close(q.yd[i], cur.yd[i] + apr * dd.yd[i], 1e-9, 1e-14 * ys)) lin = false;
    if(lsqdual) {
      Ev eo = eval(cur.x, true); V r1(q.x.size()), r2(q.d.size()); double sc_ = 1e-300, jm = 1;
      for(size_t i = 0; i < r1.size(); i++) { r1[i] = eo.gf[i] - q.zl[i] + q.zu[i]; sc_ = std::max(sc_, std::fabs(eo.gf[i]) + q.zl[i] + q.zu[i]); for(size_t t = 0; t < eo.Jc.size(); t++) { r1[i] += eo.Jc[t][i] * q.yc[t]; jm = std::max(jm, std::fabs(eo.Jc[t][i])); sc_ = std::max(sc_, std::fabs(eo.Jc[t][i] * q.yc[t])); } for(size_t t = 0; t < eo.Jd.size(); t++) { r1[i] += eo.Jd[t][i] * q.yd[t]; jm = std::max(jm, std::fabs(eo.Jd[t][i])); sc_ = std::max(sc_, std::fabs(eo.Jd[t][i] * q.yd[t])); } }
      for(size_t i = 0; i < r2.size(); i++) { r2[i] = -q.yd[i] - q.vl[i] + q.vu[i]; sc_ = std::max(sc_, std::fabs(q.yd[i]) + q.vl[i] + q.vu[i]); }
      for(size_t t = 0; t < eo.Jc.size(); t++) { double v = 0; for(size_t i = 0; i < r1.size(); i++) v += eo.Jc[t][i] * r1[i]; if(std::fabs(v) > 1e-6 * sc_ * jm * jm) lsq = false; }
      for(size_t t = 0; t < eo.Jd.size(); t++) { double v = -r2[t]; for(size_t i = 0; i < r1.size(); i++) v += eo.Jd[t][i] * r1[i]; if(std::fabs(v) > 1e-6 * sc_ * jm * jm) lsq = false; }
      int app = leq(th, lsqtol, 1e-9, 1e-15 * (1 + mag)); if(!lsq && illcond(cur, eo, true)) { lsq = true; if(app == 1) app = 2; }
      yu = p->m == 0 ? 1 : app == 1 ? (lsq ? 1 : 0) : app == 0 ? (lin ? 1 : 0) : (lin || lsq ? 1 : 0);
    } else yu = lin ? 1 : 0;
    if(!std::isfinite(ys)) yu = 0;
  }
  bool fr = nfor > 0 || smallstep || (force && k <= 2);
  if(elastic != "none" && !bf) bf = 2;
  if(aj == -3 && !mlv) mlv = 2;
  if(fr || blow) { if(!st) st = 2; if(!ad) ad = 2; if(!du_) du_ = 2; if(!yu) yu = 2; if(!bf) bf = 2; if(!mlv) mlv = 2; }
  // restoration that evaluated its own points: sufficient reduction of the largest residual
  { int rok = 2; if(nfor > 0 && havecur && !blow) { Ev eo = eval(cur.x, false); double a = 0, b = 0; for(size_t i = 0; i < doc.eq.size(); i++) { a = std::max(a, std::fabs(eo.c[i] - doc.crhs[i])); b = std::max(b, std::fabs(e.c[i] - doc.crhs[i])); }
      for(size_t i = 0; i < doc.in.size(); i++) { a = std::max(a, std::fabs(eo.d[i] - cur.d[i])); b = std::max(b, std::fabs(e.d[i] - q.d[i])); } rok = leq(b, kresto * a, 1e-9, 1e-12); if(!rok && a <= 1e-8 && b <= 1e-8) rok = 2; if(getenv("IPM_DBG")) fprintf(stderr, "FRR %d %g %g\n", rok, a, b); }
    j.kv("rok", rok); }
  j.kv("fr", fr ? 1 : 0).kv("blow", blow ? 1 : 0).kv("st", st).kv("aj", aj).kv("ad", ad).kv("du", du_).kv("yu", yu).kv("bf", bf).kv("ml", mlv).kv("ntr", ntrial).kv("for", nfor > 0 ? 1 : 0).kv("lst", lst).raw("th", num(th));
  if(first) j.kv("a0", apr == 0 && adu == 0 ? 1 : 0); else j.kv("a0", 2);
  // termination facts
  { int s = and3(and3(leq(er.overall, tol, 1e-8, at * 1e-2), leq(er.optim, dtol, 1e-8, at * 1e-2)), and3(leq(er.viol, ctol, 1e-8, at * 1e-2), leq(er.compl_, cmtol, 1e-8, at * 1e-2)));
    int ac = leq(er.overall, acctol, 1e-8, at * 1e-2);
    int re = 0; if(rtol_ > 0) re = and3(and3(leq(er.optim, rtol_ * optim0, 1e-8, at * 1e-2), leq(er.feas, rtol_ * feas0, 1e-8, at * 1e-2)), leq(er.compl_, std::max(rtol_, 1e-6) * std::min(1., compl0), 1e-8, at * 1e-2));
    j.kv("su", s).kv("ac", ac).kv("re", re); }
  { J a = J::arr(); int i0 = std::max(0, muidx(mu)); for(size_t i = i0; i < muchain.size() && i < (size_t)i0 + 40; i++) a.add((long long)leq(errors(q, e, muchain[i]).blog, keps * muchain[i], 1e-7, at * 1e-2)); j.raw("el", a.str()); }
  bool stop = rc->stop_at == k; j.kv("stop", stop ? 1 : 0);
  emit(j);
  lx.assign(x, x + n); lzl.assign(zl, zl + n); lzu.assign(zu, zu + n); llam.assign(lam, lam + m); lg.assign(g, g + m); lobj = obj;
  dig(pickx(lx)); dig(obj / nfs); dig(mu); if(!digx_only) { dig(pickx(lzl, 1 / nfs)); dig(pickx(lzu, 1 / nfs)); dig(pickc(llam, true)); dig(pickc(lg, false)); dig(apr); dig(adu); if(digcb) { dig(ipr); dig(idu); } }
  niter++;
  ntrial = 0; nfor = 0; havecur = false; smallstep = false; adset.clear();
  return !stop;
}
inline void Watch::solution(int st, int n, const double* x, const double* zl, const double* zu, int m, const double* g, const double* lam, double obj) {
  nsol++; solst = st; solx.assign(x, x + n); solzl.assign(zl, zl + n); solzu.assign(zu, zu + n); sollam.assign(lam, lam + m); solg.assign(g, g + m); solobj = obj;
  J j = J::obj(); j.kv("e", "sol").kv("st", st).kv("n", n == p->n && m == p->m ? 1 : 0).kv("bad", failed ? 1 : 0);
  bool same = n == (int)lx.size() && m == (int)llam.size();
  auto eqv = [&](const V& a, const V& b, double r) { bool ok = a.size() == b.size(); for(size_t i = 0; ok && i < a.size(); i++) ok = close(a[i], b[i], r, 1e-300); return ok; };
  j.kv("x", solx == lx ? 1 : 0).kv("z", eqv(solzl, lzl, 1e-9) && eqv(solzu, lzu, 1e-9) ? 1 : 0).kv("lam", eqv(sollam, llam, 1e-9) ? 1 : 0).kv("g", eqv(solg, lg, 1e-9) ? 1 : 0).kv("obj", obj == lobj ? 1 : 0);
  // optimality of what the user receives, in the documented scaled problem
  int ok = 2, acc = 2; bool go = true, ub = true;
  if(n == p->n && m == p->m) {
    Pt q; q.x = inner(solx); V L = vec(&nlp->get_xl()), U = vec(&nlp->get_xu()), dl = vec(&nlp->get_dl()), du = vec(&nlp->get_du()); Pt it = pt(alg->get_it_curr());
    for(size_t i = 0; i < doc.vars.size(); i++) { q.zl.push_back(solzl[doc.vars[i]] * doc.fs); q.zu.push_back(solzu[doc.vars[i]] * doc.fs); }
    for(size_t i = 0; i < doc.eq.size(); i++) q.yc.push_back(sollam[doc.eq[i]] * doc.fs / doc.ce[i]);
    for(size_t i = 0; i < doc.in.size(); i++) q.yd.push_back(sollam[doc.in[i]] * doc.fs / doc.ci[i]);
    q.vl = it.vl; q.vu = it.vu; q.d = it.d; q.sdl = it.sdl; q.sdu = it.sdu; q.sxl = it.sxl; q.sxu = it.sxu;
    // slacks from the returned point and the bounds in force
    for(size_t i = 0; i < q.x.size(); i++) { if(doc.ixl[i]) q.sxl[i] = q.x[i] - L[i]; if(doc.ixu[i]) q.sxu[i] = U[i] - q.x[i]; }
    Ev e = eval(q.x, true); Err er = errors(q, e, mu0); double mag = ninf(e.gf) + ninf(q.yc) + ninf(q.yd) + ninf(q.zl) + ninf(q.zu); for(auto& r : e.Jc) mag = std::max(mag, ninf(r) * ninf(q.yc)); for(auto& r : e.Jd) mag = std::max(mag, ninf(r) * ninf(q.yd)); mag += ninf(e.c) + ninf(e.d); double at = 1e-12 * (1 + mag);
    ok = and3(and3(leq(er.overall, tol * 1.001, 1e-6, at), leq(er.optim, dtol * 1.001, 1e-6, at)), and3(leq(er.viol, ctol * 1.001, 1e-6, at), leq(er.compl_, cmtol * 1.001, 1e-6, at)));
    acc = leq(er.overall, acctol * 1.001, 1e-6, at);
    if(getenv("IPM_DBG")) fprintf(stderr, "sol st %d overall %.3e optim %.3e viol %.3e compl %.3e\n", st, er.overall, er.optim, er.viol, er.compl_);
    for(int i = 0; i < m; i++) if(!close(g[i], p->g[i].val(solx.data()), 1e-9, 1e-11)) go = false;
    // user-level feasibility
    for(int i = 0; i < p->n; i++) { double t = std::max(1e-6, 2 * pert) * std::max(1., std::fabs(solx[i])); if(elastic != "none" || fixedopt == "relax") t = 1e-1 * std::max(1., std::fabs(solx[i])); if(solx[i] < p->xl[i] - t || solx[i] > p->xu[i] + t) ub = false; }
    if(!close(obj, p->f.val(solx.data()), 1e-9, 1e-11)) go = false;
  }
  j.kv("kkt", ok).kv("akkt", acc).kv("gf", go ? 1 : 0).kv("ub", ub ? 1 : 0);
  if(!digx_only) { dig(pickc(sollam, true)); dig(pickx(solzl, 1 / nfs)); dig(pickx(solzu, 1 / nfs)); dig(pickc(solg, false)); }
  dig(pickx(solx)); dig(obj / nfs);
  emit(j);
}
inline void Watch::finish(int ret) {
  J j = J::obj(); j.kv("e", "ret").kv("st", ret).kv("gst", (int)alg->getSolveStatus()).kv("it", alg->getNumIterations()).kv("nsol", nsol).kv("sst", nsol ? solst : -999).kv("bad", failed ? 1 : 0);
  if(nsol) {
    V x(p->n, std::nan("")), a(p->n, std::nan("")), b(p->n, std::nan("")), l(p->m, std::nan("")); alg->getSolution(x.data()); double o = alg->getObjective();
    auto eqv = [&](const V& u, const V& v) { bool ok = u.size() == v.size(); for(size_t i = 0; ok && i < u.size(); i++) ok = close(u[i], v[i], 1e-9, 1e-300); return ok; };
    j.kv("gx", x == solx ? 1 : 0).kv("go", close(o, solobj, 1e-12, 1e-300) ? 1 : 0);
    alg->getDualSolutions(a.data(), b.data(), l.data()); bool z1 = eqv(a, solzl) && eqv(b, solzu), l1 = eqv(l, sollam);
    V l2(p->m, std::nan("")), a2(p->n, std::nan("")), b2(p->n, std::nan("")); alg->getDualSolutions(a2.data(), b2.data(), l2.data()); if(!(eqv(a2, a) && eqv(b2, b) && eqv(l2, l))) l1 = false;
    j.kv("gz", z1 ? 1 : 0).kv("gl", l1 ? 1 : 0);
  } else j.kv("gx", 2).kv("go", 2).kv("gz", 2).kv("gl", 2);
  auto& rs = nlp->runStats; int ok = 2; if(!failed) { ok = rs.nEvalObj == cnt_f && rs.nEvalGrad_f == cnt_g && rs.nIter == alg->getNumIterations() && rs.nEvalHessL == (p->mds ? cnt_h : rs.nEvalHessL); }
  j.kv("cnt", ok);
  emit(j); in_run = false;
}
} // namespace iw
