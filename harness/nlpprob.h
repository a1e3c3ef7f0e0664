// Parametric user problems with exact, independently coded values and derivatives.
#pragma once
#include "common.h"
#include <memory>
namespace np {
using vh::Rng;
typedef std::vector<double> V;
// c0 + lin.x + 1/2 sum q_ij x_i x_j (i<=j listed once; off-diagonal counted twice in the Hessian as symmetric) + sum c*phi(s*x_i)
struct Fn {
  double c0 = 0; V lin;
  std::vector<int> qi, qj; V qv;
  std::vector<int> ti, tk; V tc, ts;
  std::shared_ptr<Fn> in; std::vector<int> pos; V base;     // evaluated as *in at base with entries pos replaced by x
  explicit Fn(int n = 0) : lin(n, 0.) {}
  V full(const double* x) const { V X = base; for(size_t i = 0; i < pos.size(); i++) X[pos[i]] = x[i]; return X; }
  static void phi(int k, double u, double& v, double& d, double& h) {
    switch(k) {
      case 0: v = std::exp(u); d = v; h = v; break;
      case 1: v = u * u * u * u; d = 4 * u * u * u; h = 12 * u * u; break;
      case 2: v = std::sin(u); d = std::cos(u); h = -v; break;
      case 3: v = std::sqrt(1 + u * u); d = u / v; h = 1 / (v * v * v); break;
      case 4: v = std::log(1 + u * u); d = 2 * u / (1 + u * u); h = 2 * (1 - u * u) / ((1 + u * u) * (1 + u * u)); break;
      default: v = u * u * u; d = 3 * u * u; h = 6 * u;
    }
  }
  double val(const double* x) const {
    if(in) return in->val(full(x).data());
    double r = c0;
    for(size_t i = 0; i < lin.size(); i++) r += lin[i] * x[i];
    for(size_t k = 0; k < qv.size(); k++) r += (qi[k] == qj[k] ? 0.5 : 1.) * qv[k] * x[qi[k]] * x[qj[k]];
    for(size_t k = 0; k < tc.size(); k++) { double v, d, h; phi(tk[k], ts[k] * x[ti[k]], v, d, h); r += tc[k] * v; }
    return r;
  }
  void grad(const double* x, double* g) const {
    if(in) { V G(base.size()); in->grad(full(x).data(), G.data()); for(size_t i = 0; i < pos.size(); i++) g[i] = G[pos[i]]; return; }
    for(size_t i = 0; i < lin.size(); i++) g[i] = lin[i];
    for(size_t k = 0; k < qv.size(); k++) { g[qi[k]] += qv[k] * x[qj[k]]; if(qi[k] != qj[k]) g[qj[k]] += qv[k] * x[qi[k]]; }
    for(size_t k = 0; k < tc.size(); k++) { double v, d, h; phi(tk[k], ts[k] * x[ti[k]], v, d, h); g[ti[k]] += tc[k] * ts[k] * d; }
  }
  // H (n x n, row-major, both triangles) += w * Hessian
  void hess(const double* x, double w, double* H) const {
    if(in) { size_t N = base.size(), k = pos.size(); V G(N * N, 0.); in->hess(full(x).data(), w, G.data()); for(size_t i = 0; i < k; i++) for(size_t j = 0; j < k; j++) H[i * k + j] += G[pos[i] * N + pos[j]]; return; }
    int n = (int)lin.size();
    for(size_t k = 0; k < qv.size(); k++) { H[qi[k] * n + qj[k]] += w * qv[k]; if(qi[k] != qj[k]) H[qj[k] * n + qi[k]] += w * qv[k]; }
    for(size_t k = 0; k < tc.size(); k++) { double v, d, h; phi(tk[k], ts[k] * x[ti[k]], v, d, h); H[ti[k] * n + ti[k]] += w * tc[k] * ts[k] * ts[k] * h; }
  }
  void q(int i, int j, double v) { qi.push_back(i); qj.push_back(j); qv.push_back(v); }
  void t(int i, int k, double c, double s) { ti.push_back(i); tk.push_back(k); tc.push_back(c); ts.push_back(s); }
  void scale(double s) { c0 *= s; for(auto& v : lin) v *= s; for(auto& v : qv) v *= s; for(auto& v : tc) v *= s; }
  // the function of the variables at positions p, the other ones being fixed at the values of b
  Fn embed(const std::vector<int>& p, const V& b) const { Fn r((int)p.size()); r.in = std::make_shared<Fn>(*this); r.pos = p; r.base = b; return r; }
  // the function with variable i removed and fixed at v
  Fn fix(int i, double v) const {
    int n = (int)lin.size(); Fn r(n - 1); r.c0 = c0 + lin[i] * v;
    auto m = [&](int j) { return j < i ? j : j - 1; };
    for(int j = 0; j < n; j++) if(j != i) r.lin[m(j)] = lin[j];
    for(size_t k = 0; k < qv.size(); k++) {
      bool a = qi[k] == i, b = qj[k] == i;
      if(a && b) r.c0 += 0.5 * qv[k] * v * v; else if(a) r.lin[m(qj[k])] += qv[k] * v; else if(b) r.lin[m(qi[k])] += qv[k] * v;
      else r.q(m(qi[k]), m(qj[k]), qv[k]);
    }
    for(size_t k = 0; k < tc.size(); k++) { if(ti[k] == i) { double a, b, c; phi(tk[k], ts[k] * v, a, b, c); r.c0 += tc[k] * a; } else r.t(m(ti[k]), tk[k], tc[k], ts[k]); }
    return r;
  }
};
const double INF = 1e20;
struct Prob {
  int n = 0, nsp = 0, m = 0; bool mds = false;
  Fn f; std::vector<Fn> g; V x0, xl, xu, cl, cu;
  bool has_x0 = true;
  std::string kind;
  std::vector<int> eqs() const { std::vector<int> r; for(int i = 0; i < m; i++) if(cl[i] == cu[i]) r.push_back(i); return r; }
  std::vector<int> ins() const { std::vector<int> r; for(int i = 0; i < m; i++) if(cl[i] != cu[i]) r.push_back(i); return r; }
};
inline double dy(Rng& r, int lo, int hi, int den) { return r.range(lo * den, hi * den) / (double)den; }
// generator options
struct Gen { bool mds = false; int n = 3, nsp = 0, neq = 1, nin = 1; bool convex = true; int fixed = 0; int bounds = 0 /*0 mixed 1 free 2 all two-sided 3 one-sided*/; bool badscale = false; int x0 = 0 /*0 inside 1 far 2 at bound 3 none*/; bool interleave = true; bool infeasible = false; bool lincons = false; bool degenerate = false; bool nonconvex_con = false; };
inline Fn gen_fn(Rng& r, const Gen& o, bool obj) {
  int n = o.n, nsp = o.mds ? o.nsp : 0; Fn f(n);
  f.c0 = dy(r, -2, 2, 4);
  for(int i = 0; i < n; i++) if(obj || r.coin(0.7)) f.lin[i] = dy(r, -2, 2, 4);
  bool quad = obj || !o.lincons;
  if(quad) {
    for(int i = 0; i < n; i++) if(obj || r.coin(0.5)) f.q(i, i, o.convex && (obj || !o.nonconvex_con) ? dy(r, 0, 3, 4) + (obj ? 0.5 : 0.) : dy(r, -2, 3, 4));
    for(int k = 0; k < n; k++) if(n - nsp >= 2 && r.coin(0.4)) {
      int a = nsp + r.below(n - nsp), b = nsp + r.below(n - nsp); if(a == b) continue;
      double v = dy(r, -1, 1, 4);
      f.q(a, b, v); if(o.convex && !o.nonconvex_con) { f.q(a, a, std::fabs(v)); f.q(b, b, std::fabs(v)); }
    }
    int nt = r.below(3);
    static const int cvx[] = {0, 1, 3}; static const int all[] = {0, 1, 2, 3, 4, 5};
    for(int k = 0; k < nt; k++) f.t(r.below(n), o.convex && !o.nonconvex_con ? cvx[r.below(3)] : all[r.below(6)], dy(r, 0, 2, 4) + 0.25, dy(r, -1, 1, 4));
  }
  return f;
}
inline Prob gen(Rng& r, const Gen& o) {
  Prob p; p.mds = o.mds; p.n = o.n; p.nsp = o.mds ? o.nsp : 0; p.m = o.neq + o.nin;
  p.f = gen_fn(r, o, true);
  V xf(o.n); for(auto& v : xf) v = dy(r, -2, 2, 4);    // a point kept feasible unless asked otherwise
  p.xl.assign(o.n, -INF); p.xu.assign(o.n, INF);
  for(int i = 0; i < o.n; i++) {
    int b = o.bounds == 1 ? 0 : o.bounds == 2 ? 3 : o.bounds == 3 ? 1 + r.below(2) : r.below(4);
    if(b & 1) p.xl[i] = xf[i] - dy(r, 0, 2, 4) - 0.25;
    if(b & 2) p.xu[i] = xf[i] + dy(r, 0, 2, 4) + 0.25;
  }
  for(int k = 0; k < o.fixed; k++) { int i = r.below(o.n); p.xl[i] = p.xu[i] = xf[i]; }
  std::vector<int> kinds; for(int i = 0; i < o.neq; i++) kinds.push_back(0); for(int i = 0; i < o.nin; i++) kinds.push_back(1);
  if(o.interleave) for(int i = (int)kinds.size() - 1; i > 0; i--) std::swap(kinds[i], kinds[r.below(i + 1)]);
  for(int k : kinds) {
    Fn g = gen_fn(r, o, false);
    bool any = false; for(double v : g.lin) if(v != 0) any = true; if(!any) g.lin[r.below(o.n)] = 1.;
    double v = g.val(xf.data()), lo = -INF, up = INF;
    if(k == 0) lo = up = v;
    else { int b = 1 + r.below(3); if(b & 1) lo = v - dy(r, 0, 2, 4) - (o.degenerate ? 0. : 0.25); if(b & 2) up = v + dy(r, 0, 2, 4) + (o.degenerate && !(b & 1) ? 0. : 0.25); }
    p.g.push_back(g); p.cl.push_back(lo); p.cu.push_back(up);
  }
  if(o.infeasible && p.m > 0) { // contradictory copies of one constraint
    Fn g(o.n); int i = r.below(o.n); g.q(i, i, 2.); g.lin[(i + 1) % o.n] += 0.25;
    p.g[0] = g; if(p.cl[0] == p.cu[0]) p.cl[0] = p.cu[0] = -30.; else { p.cl[0] = -INF; p.cu[0] = -30.; }
    for(int j = 0; j < o.n; j++) { p.xl[j] = std::max(p.xl[j], -8.); p.xu[j] = std::min(p.xu[j], 8.); }
  }
  if(o.badscale) { double s = std::pow(10., r.range(2, 5)); p.f.scale(s); for(int i = 0; i < p.m; i++) if(r.coin()) { double t = std::pow(10., r.range(2, 4)); p.g[i].scale(t); if(p.cl[i] > -INF) p.cl[i] *= t; if(p.cu[i] < INF) p.cu[i] *= t; if(p.cl[i] != p.cu[i] && std::fabs(p.cl[i] - p.cu[i]) == 0) p.cu[i] = p.cl[i]; } }
  p.x0.resize(o.n);
  for(int i = 0; i < o.n; i++) {
    if(o.x0 == 0) p.x0[i] = xf[i] + dy(r, -1, 1, 8);
    else if(o.x0 == 1) p.x0[i] = xf[i] + dy(r, -6, 6, 2);
    else p.x0[i] = p.xl[i] > -INF ? p.xl[i] : p.xu[i] < INF ? p.xu[i] : xf[i];
  }
  p.has_x0 = o.x0 != 3;
  return p;
}
} // namespace np
