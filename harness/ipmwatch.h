// Drives the interior-point solvers through their public interface on problems of nlpprob.h and records what they do as
// facts about the user's problem, recomputed independently from the problem's own functions.
#pragma once
#include <functional>
#include "common.h"
#include <unordered_map>
#include "nlpprob.h"
#include "fakempi.h"
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopMatrixDense.hpp"
#include "hiopMatrixMDS.hpp"
#include "hiopVector.hpp"

namespace iw {
using namespace hiop;
using vh::J;
using np::Prob; using np::V; using np::INF;
typedef std::pair<std::string, std::string> Opt;

inline V vec(const hiopVector* v) { V r(v->get_local_size()); if(r.size()) memcpy(r.data(), v->local_data_const(), r.size() * sizeof(double)); return r; }
inline double ninf(const V& v) { double r = 0; for(double x : v) r = std::max(r, std::fabs(x)); return r; }
inline double none(const V& v) { double r = 0; for(double x : v) r += std::fabs(x); return r; }
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-11) { if(a == b) return true; if(!(std::isfinite(a) && std::isfinite(b))) return false; return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b)); }
// three-valued a <= b : 1 yes, 0 no, 2 too close to call
inline int leq(double a, double b, double rel, double abs_) { if(std::isnan(a) || std::isnan(b)) return 2; double t = abs_ + rel * std::max(std::fabs(a), std::fabs(b)); if(std::isinf(t)) t = 0; return a <= b - t ? 1 : a > b + t ? 0 : 2; }
inline int and3(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; }
inline int or3(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
inline int not3(int a) { return a == 2 ? 2 : 1 - a; }

struct RunCfg {
  std::vector<Opt> opts;              // options set before this run
  bool setx0 = false; V x0;           // starting point changed before this run
  int stop_at = -1;                   // iterate_callback returns false at this iteration
  int fail_kind = -1;                 // 0 f,1 grad,2 cons,3 jac,4 hess: fails at its fail_at-th call of the run
  int fail_at = -1, fail_n = 1;       // and at the fail_n-1 following ones
  int duals = 0;                      // start multipliers given by the user
  bool sprout = false;
};

struct Pt { V x, d, sxl, sxu, sdl, sdu, yc, yd, zl, zu, vl, vu; };
inline Pt pt(const hiopIterate* i) { Pt p; p.x = vec(i->get_x()); p.d = vec(i->get_d()); p.sxl = vec(i->get_sxl()); p.sxu = vec(i->get_sxu()); p.sdl = vec(i->get_sdl()); p.sdu = vec(i->get_sdu());
  p.yc = vec(i->get_yc()); p.yd = vec(i->get_yd()); p.zl = vec(i->get_zl()); p.zu = vec(i->get_zu()); p.vl = vec(i->get_vl()); p.vu = vec(i->get_vu()); return p; }

struct Sess;
struct Doc {   // the documented transformed problem of one run
  std::vector<int> vars;              // internal variable -> user variable
  V fixed;                            // user-size vector with the values of removed variables (NaN elsewhere)
  V xl, xu; std::vector<char> ixl, ixu;
  std::vector<int> eq, in;            // user constraint indices
  V crhs, dl, du; std::vector<char> idl, idu;
  double fs = 1; V ce, ci;            // scale factors
  int ncompl = 0;
  bool scaled = false;
};

struct Watch {
  Sess* s = nullptr;
  const Prob* p = nullptr;
  hiopNlpFormulation* nlp = nullptr; hiopAlgFilterIPMBase* alg = nullptr;
  RunCfg* rc = nullptr;
  Doc doc;
  int run = 0, ncall[5] = {0, 0, 0, 0, 0}, lastk = -1;
  bool in_run = false, failed = false; int first_failed = -1;
  std::unordered_map<std::string, int> points; V prevx; bool havep = false; V prevlam; bool havel = false;
  V x0user; bool x0seen = false;
  // options of the run
  double mu0, kmu, tmu, taumin, keps, tol, dtol, ctol, cmtol, kresto, acctol, rtol_, eta, smax, thmaxf, thminf, minstep, mlrel, mlabs, pert; int maxit, accit; bool lsqdual; std::string elastic, linsol, fixedopt; bool everystep, force; double lsqtol;
  bool quiet = false, digcb = true; int rowsok = 2;
  V muchain;
  Pt cur; bool havecur = false; double theta_min = 0, theta_max = 0;
  double optim0 = 0, feas0 = 0, compl0 = 0;
  bool ovf = false; int nfr = 0;      // values beyond 1e60 were returned; evaluations away from the trial point
  void range(const double* v, int n) { if(!quiet || ovf) return; for(int i = 0; i < n; i++) if(!(std::fabs(v[i]) < 1e60)) { ovf = true; vh::ev(J::obj().kv("e", "ovf")); return; } }
  int ntrial = 0, nfor = 0, nclean = 0; bool smallstep = false, blow = false, randreg = false; V adset; int prevj = -1, cond = -1;
  double gphi = 0, amax_cur = 0, adual_cur = 0; int sc_j = 0; bool dirok_emitted = false;
  uint64_t digest = 0; int niter = 0; bool digx_only = false;
  int last_newx_id = -1;
  // what the last iterate callback reported (user side)
  V lx, lzl, lzu, llam, lg; double lobj = 0;
  V solx, solzl, solzu, sollam, solg; double solobj = 0; int nsol = 0, solst = -999;
  int cnt_f = 0, cnt_g = 0, cnt_c = 0, cnt_j = 0, cnt_h = 0, parts = 0;

  void dig(const void* v, size_t n) { const unsigned char* c = (const unsigned char*)v; for(size_t i = 0; i < n; i++) { digest ^= c[i]; digest *= 1099511628211ull; } }
  void dig(const V& v) { for(double d : v) { double w = d == 0 ? 0. : d; dig(&w, sizeof w); } }
  std::vector<int> selx, selc;       // order in which variables and constraints enter the digest (empty: all, as they are)
  double nfs = 1; V ncs;             // the functions are known multiples (powers of two) of those of another presentation
  V pickx(const V& v, double s = 1) const { V r; if(selx.empty()) { r = v; for(double& d : r) d *= s; } else for(int i : selx) r.push_back(v[i] * s); return r; }
  V pickc(const V& v, bool lam) const { V w = v; for(size_t i = 0; i < ncs.size() && i < w.size(); i++) w[i] = lam ? w[i] * ncs[i] / nfs : w[i] / ncs[i]; if(selc.empty()) return w; V r; for(int i : selc) r.push_back(w[i]); return r; }
  void dig(double d) { double w = d == 0 ? 0. : d; dig(&w, sizeof w); }

  void emit(const J& j) { if(!quiet) vh::ev(j); }
  void begin(int r);
  void make_doc();
  void scale_doc();
  V user(const V& xi) const { V u = doc.fixed; for(size_t i = 0; i < doc.vars.size(); i++) u[doc.vars[i]] = xi[i]; return u; }
  V inner(const V& u) const { V r(doc.vars.size()); for(size_t i = 0; i < r.size(); i++) r[i] = u[doc.vars[i]]; return r; }
  double phi_barrier(const Pt& q, double f, double mu) const;
  struct Err { double optim, feas, viol, compl_, overall, blog; };
  struct Ev { double f; V gf, c, d; std::vector<V> Jc, Jd; };
  Ev eval(const V& xi, bool der) const;
  Err errors(const Pt& q, const Ev& e, double mu) const;
  double theta(const Pt& q, const Ev& e) const { double t = 0; for(size_t i = 0; i < doc.eq.size(); i++) t += std::fabs(doc.crhs[i] - e.c[i]); for(size_t i = 0; i < doc.in.size(); i++) t += std::fabs(q.d[i] - e.d[i]); return t; }
  int muidx(double mu) const { for(size_t i = 0; i < muchain.size(); i++) if(close(mu, muchain[i], 1e-10, 0)) return (int)i; return -1; }
  int point_id(const double* x) {
    std::string v((const char*)x, p->n * sizeof(double)); auto it = points.find(v); if(it != points.end()) return it->second;
    int k = (int)points.size(); points[v] = k; return k;
  }
  bool inject(int kind) { int k = ncall[kind]++; bool f = rc->fail_kind == kind && rc->fail_at >= 0 && k >= rc->fail_at && k < rc->fail_at + rc->fail_n; if(f) failed = true; return f; }
  void callback(const char* kind, const char* part, const double* x, bool newx, bool sz, bool idx, bool fail, J extra, bool hbad = false);
  void trial(const double* x, bool fail);
  bool iterate(int k, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* sl, int m, const double* g, const double* lam, double ipr, double idu, double opr, double mu, double adu, double apr, int lst);
  void solution(int st, int n, const double* x, const double* zl, const double* zu, int m, const double* g, const double* lam, double obj);
  void finish(int ret);
  int bndfact(const double* x) const;
  bool illcond(const Pt& q, const Ev& e, bool lsq) const;
  int dirfact(const Pt& q, const Pt& dd, double mu, int* pert);
};

// ------------------------------------------------------------------ the user's side
struct User {
  Watch w; const Prob* p; bool onecall = false, fullstart = false;
  int idxkind(size_type nc, const index_type* idx) const {   // 1 equalities, 2 inequalities, 3 all, 0 wrong
    std::vector<int> v(idx, idx + nc);
    if(v == p->eqs() && v == p->ins()) return 3;
    if(v == p->eqs()) return 1; if(v == p->ins()) return 2; return 0;
  }
  bool sizes(size_type& n, size_type& m) { n = p->n; m = p->m; return true; }
  bool vars(size_type n, double* lo, double* up, hiopInterfaceBase::NonlinearityType* t) { for(int i = 0; i < p->n; i++) { lo[i] = p->xl[i]; up[i] = p->xu[i]; t[i] = hiopInterfaceBase::hiopNonlinear; } return true; }
  bool cons(size_type m, double* lo, double* up, hiopInterfaceBase::NonlinearityType* t) { for(int i = 0; i < p->m; i++) { lo[i] = p->cl[i]; up[i] = p->cu[i]; t[i] = hiopInterfaceBase::hiopNonlinear; } return true; }
  bool ef(size_type n, const double* x, bool nx, double& o) { bool bad = w.inject(0); w.callback("f", "", x, nx, n == p->n, true, bad, J::obj()); w.cnt_f++; w.trial(x, bad); if(bad) { o = std::nan(""); return false; } o = p->f.val(x); w.range(&o, 1); return true; }
  bool egf(size_type n, const double* x, bool nx, double* g) { bool bad = w.inject(1); w.callback("g", "", x, nx, n == p->n, true, bad, J::obj()); w.cnt_g++; if(bad) { for(int i = 0; i < p->n; i++) g[i] = std::nan(""); return false; } p->f.grad(x, g); w.range(g, p->n); return true; }
  bool ec(size_type n, size_type m, size_type nc, const index_type* idx, const double* x, bool nx, double* c) {
    int k = idxkind(nc, idx); bool bad = w.inject(2);
    w.callback("c", k == 1 ? "eq" : k == 2 ? "in" : k == 3 ? "all" : "bad", x, nx, n == p->n && m == p->m, k != 0, bad, J::obj()); w.cnt_c++;
    if(bad) { for(int i = 0; i < nc; i++) c[i] = std::nan(""); return false; }
    for(int i = 0; i < nc; i++) c[i] = p->g[idx[i]].val(x); w.range(c, nc); return true;
  }
  bool eca(size_type n, size_type m, const double* x, bool nx, double* c) {
    if(!onecall) return false; bool bad = w.inject(2);
    w.callback("c", "one", x, nx, n == p->n && m == p->m, true, bad, J::obj()); w.cnt_c++;
    if(bad) { for(int i = 0; i < p->m; i++) c[i] = std::nan(""); return false; }
    for(int i = 0; i < p->m; i++) c[i] = p->g[i].val(x); w.range(c, p->m); return true;
  }
  bool start(double* x0) { if(!p->has_x0) return false; memcpy(x0, w.x0user.data(), p->n * sizeof(double)); return true; }
  bool startd(size_type n, size_type m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* sl) {
    da = sa = false; if(fullstart && p->has_x0 && !(w.rc && w.rc->duals)) { memcpy(x0, w.x0user.data(), p->n * sizeof(double)); return true; }
    if(!w.rc || !w.rc->duals || !p->has_x0) return false;
    memcpy(x0, w.x0user.data(), p->n * sizeof(double)); da = true;
    for(int i = 0; i < p->n; i++) { zl[i] = p->xl[i] > -INF ? 1.5 : 0; zu[i] = p->xu[i] < INF ? 0.75 : 0; }
    for(int i = 0; i < p->m; i++) lam[i] = 0.25 * ((i % 5) - 2);
    return true;
  }
  std::function<void(int)> hook;
  bool icb(int k, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* sl, int m, const double* g, const double* lam, double ipr, double idu, double opr, double mu, double adu, double apr, int lst) { if(hook) hook(k); return w.iterate(k, obj, lb, n, x, zl, zu, mi, sl, m, g, lam, ipr, idu, opr, mu, adu, apr, lst); }
  void scb(int st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double o) { w.solution(st, (int)n, x, zl, zu, (int)m, g, lam, o); }
};
#define IW_COMMON                                                                                                                                     \
  User u;                                                                                                                                             \
  bool get_prob_sizes(size_type& n, size_type& m) override { return u.sizes(n, m); }                                                                 \
  bool get_vars_info(const size_type& n, double* a, double* b, NonlinearityType* t) override { return u.vars(n, a, b, t); }                          \
  bool get_cons_info(const size_type& m, double* a, double* b, NonlinearityType* t) override { return u.cons(m, a, b, t); }                          \
  bool eval_f(const size_type& n, const double* x, bool nx, double& o) override { return u.ef(n, x, nx, o); }                                        \
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { return u.egf(n, x, nx, g); }                                  \
  bool eval_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool nx, double* c) override { return u.ec(n, m, nc, idx, x, nx, c); } \
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { return u.eca(n, m, x, nx, c); }             \
  bool get_starting_point(const size_type& n, double* x0) override { return u.start(x0); }                                                           \
  bool get_starting_point(const size_type& n, const size_type& m, double* x0, bool& da, double* zl, double* zu, double* lam, bool& sa, double* sl) override { return u.startd(n, m, x0, da, zl, zu, lam, sa, sl); } \
  void solution_callback(hiopSolveStatus st, size_type n, const double* x, const double* zl, const double* zu, size_type m, const double* g, const double* lam, double o) override { u.scb((int)st, n, x, zl, zu, m, g, lam, o); } \
  bool iterate_callback(int k, double obj, double lb, int n, const double* x, const double* zl, const double* zu, int mi, const double* sl, int m, const double* g, const double* lam, double ipr, double idu, double opr, double mu, double adu, double apr, int lst) override \
  { return u.icb(k, obj, lb, n, x, zl, zu, mi, sl, m, g, lam, ipr, idu, opr, mu, adu, apr, lst); }

struct DenseP : public hiopInterfaceDenseConstraints {
  IW_COMMON
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool nx, double* Jm) override {
    int k = u.idxkind(nc, idx); bool bad = u.w.inject(3); const Prob* p = u.p;
    u.w.callback("J", k == 1 ? "eq" : k == 2 ? "in" : k == 3 ? "all" : "bad", x, nx, n == p->n && m == p->m, k != 0, bad, J::obj()); u.w.cnt_j++;
    if(bad) return false;
    for(int i = 0; i < nc; i++) p->g[idx[i]].grad(x, Jm + (size_t)i * p->n); return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* Jm) override {
    if(!u.onecall) return false; bool bad = u.w.inject(3); const Prob* p = u.p;
    u.w.callback("J", "one", x, nx, n == p->n && m == p->m, true, bad, J::obj()); u.w.cnt_j++;
    if(bad) return false;
    for(int i = 0; i < p->m; i++) p->g[i].grad(x, Jm + (size_t)i * p->n); return true;
  }
};
struct MdsP : public hiopInterfaceMDS {
  IW_COMMON
  bool get_sparse_dense_blocks_info(int& ns, int& nd, int& je, int& ji, int& hss, int& hsd) override {
    const Prob* p = u.p; ns = p->nsp; nd = p->n - p->nsp; je = (int)p->eqs().size() * ns; ji = (int)p->ins().size() * ns; hss = ns; hsd = 0; return true;
  }
  bool jac(const std::vector<int>& rows, const double* x, size_type nsp, size_type nde, size_type nnz, index_type* iJ, index_type* jJ, double* M, double* Jd) {
    const Prob* p = u.p; V g(p->n); int k = 0;
    for(size_t r = 0; r < rows.size(); r++) {
      p->g[rows[r]].grad(x, g.data());
      for(int j = 0; j < nsp; j++, k++) { if(iJ && jJ) { iJ[k] = (int)r; jJ[k] = j; } if(M) M[k] = g[j]; }
      if(Jd) for(int j = 0; j < nde; j++) Jd[r * nde + j] = g[nsp + j];
    }
    return k == nnz;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool nx, const size_type& nsp, const size_type& nde, const size_type& nnz, index_type* iJ, index_type* jJ, double* M, double* Jd) override {
    int k = u.idxkind(nc, idx); bool bad = u.w.inject(3); const Prob* p = u.p;
    u.w.callback("J", k == 1 ? "eq" : k == 2 ? "in" : k == 3 ? "all" : "bad", x, nx, n == p->n && m == p->m && nsp == p->nsp && nde == p->n - p->nsp && nnz == (int)nc * p->nsp, k != 0, bad, J::obj()); u.w.cnt_j++;
    if(bad) return false;
    return jac(std::vector<int>(idx, idx + nc), x, nsp, nde, nnz, iJ, jJ, M, Jd);
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& nsp, const size_type& nde, const size_type& nnz, index_type* iJ, index_type* jJ, double* M, double* Jd) override {
    if(!u.onecall) return false; bool bad = u.w.inject(3); const Prob* p = u.p;
    u.w.callback("J", "one", x, nx, n == p->n && m == p->m && nsp == p->nsp && nde == p->n - p->nsp && nnz == p->m * p->nsp, true, bad, J::obj()); u.w.cnt_j++;
    if(bad) return false;
    std::vector<int> all; for(int i = 0; i < p->m; i++) all.push_back(i);
    return jac(all, x, nsp, nde, nnz, iJ, jJ, M, Jd);
  }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const size_type& nsp, const size_type& nde, const size_type& nnzs, index_type* iH, index_type* jH, double* MH, double* HD, size_type& nsd, index_type* iSD, index_type* jSD, double* MSD) override;
};
} // namespace iw
