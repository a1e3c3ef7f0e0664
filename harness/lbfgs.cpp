// The limited-memory quasi-Newton matrix (P10): histories of updates with small integer data and queries of the matrix. Every query is
// explained by the candidate memories (which updates are stored, in order, and which update set the scaling) that reproduce it.
// usage: lbfgs OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: seq | dist
#include "common.h"
#include "fakempi.h"
#include <cmath>
#include <limits>
#include <memory>
#include "hiopInterface.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopIterate.hpp"
#include "hiopHessianLowRank.hpp"
#include "LinAlgFactory.hpp"
using namespace hiop; using vh::J; using vh::Rng;
typedef long double R; typedef std::vector<R> W; typedef std::vector<double> V; typedef std::vector<int> I;
struct Toy : public hiopInterfaceDenseConstraints {
  int n, me, mi; std::vector<index_type> part; V xl, xu;
  bool get_prob_sizes(size_type& a, size_type& m) override { a = n; m = me + mi; return true; }
  bool get_vars_info(const size_type&, double* l, double* u, NonlinearityType* t) override { int r = fm::rank(); for(int i = part[r]; i < part[r + 1]; i++) { l[i - part[r]] = xl[i]; u[i - part[r]] = xu[i]; t[i - part[r]] = hiopNonlinear; } return true; }
  bool get_cons_info(const size_type&, double* l, double* u, NonlinearityType* t) override { for(int i = 0; i < me + mi; i++) { l[i] = 0; u[i] = i < me ? 0 : 1e20; t[i] = hiopNonlinear; } return true; }
  bool eval_f(const size_type&, const double*, bool, double& f) override { f = 0; return true; }
  bool eval_grad_f(const size_type&, const double*, bool, double*) override { return true; }
  bool eval_cons(const size_type&, const size_type&, const size_type&, const index_type*, const double*, bool, double*) override { return false; }
  bool eval_cons(const size_type&, const size_type&, const double*, bool, double*) override { return true; }
  bool eval_Jac_cons(const size_type&, const size_type&, const size_type&, const index_type*, const double*, bool, double*) override { return false; }
  bool eval_Jac_cons(const size_type&, const size_type&, const double*, bool, double*) override { return true; }
  bool get_vecdistrib_info(size_type, index_type* c) override { if(part.size() <= 2) return false; for(size_t i = 0; i < part.size(); i++) c[i] = part[i]; return true; }
  bool get_MPI_comm(MPI_Comm& c) override { c = part.size() <= 2 ? MPI_COMM_SELF : MPI_COMM_WORLD; return true; }
  bool get_starting_point(const size_type&, double*) override { return false; }
};
struct Upd { I x, g, jc, jd, yc, yd; };
struct Qry { int kind; I rhs, y0, X, W0; int al, be, k; std::vector<V> out; };    // 0 inverse applied, 1 matrix applied, 2 X inverse X'
struct Act { int t; Upd u; I D; Qry q; };                                   // 0 update, 1 diagonal, 2 query
static I ints(Rng& r, int n, int k) { I v(n); for(auto& x : v) x = r.range(-k, k); return v; }
struct Scn { int n, me, mi, lmax, kx, kg; std::string strat; double s0; std::vector<index_type> part; std::vector<Act> a; V xl, xu; int P; };
static Scn make(Rng& r, bool dist) {
  Scn s; s.n = r.coin(0.1) ? 1 : r.range(2, 5); s.me = r.below(3); s.mi = r.below(3); static const char* ST[] = {"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"};
  s.strat = ST[r.below(5)]; s.lmax = r.coin(0.1) ? 0 : r.range(1, 4); if(r.coin(0.08)) s.lmax = 6; s.s0 = r.coin(0.5) ? 1. : std::ldexp(1., r.range(-6, 6)); s.kx = r.range(-3, 30); s.kg = s.kx + r.range(-6, 6);
  if(r.coin(0.25)) { s.lmax = 0; s.kg = s.kx + r.range(-34, 34); } bool tiny = r.coin(0.08); if(tiny) { s.kx = 60; s.kg = 60 + r.range(-4, 4); }
  s.P = dist ? r.range(2, 3) : 1; s.part = {0}; for(int q = 1; q < s.P; q++) s.part.push_back(r.below(s.n + 1)); s.part.push_back(s.n); std::sort(s.part.begin(), s.part.end());
  for(int i = 0; i < s.n; i++) { bool l = r.coin(), u = r.coin(); s.xl.push_back(l ? -1 : -1e20); s.xu.push_back(u ? 1 : 1e20); }
  int nu = r.range(2, 8), style = r.below(4), m = s.me + s.mi; Upd p; p.x = ints(r, s.n, 5); I H(s.n * s.n, 0);      // a convex quadratic explains the gradients of some histories
  for(int q = 0; q < s.n; q++) { I v = ints(r, s.n, 1); for(int a = 0; a < s.n; a++) for(int b = 0; b < s.n; b++) H[a * s.n + b] += v[a] * v[b] + (a == b && q == 0); }
  for(int q = 0; q < nu; q++) {
    Upd u; if(q == 0) u.x = p.x; else { u.x = p.x; I d = r.coin(0.1) ? I(s.n, 0) : ints(r, s.n, 3); for(int a = 0; a < s.n; a++) u.x[a] += d[a]; }
    u.g = ints(r, s.n, 4); if(style != 0) { u.g.assign(s.n, 0); for(int a = 0; a < s.n; a++) for(int b = 0; b < s.n; b++) u.g[a] += H[a * s.n + b] * u.x[b]; if(style == 1 && r.coin(0.3)) for(auto& v : u.g) v += r.range(-3, 3); }
    u.jc = ints(r, s.me * s.n, 2); u.jd = ints(r, s.mi * s.n, 2); u.yc = ints(r, s.me, 2); u.yd = ints(r, s.mi, 2);
    if(style >= 2) { if(q) { u.jc = p.jc; u.jd = p.jd; } else if(style == 3) { } if(r.coin(0.2) && m) { if(s.me) u.jc[r.below(s.me * s.n)]++; else u.jd[r.below(s.mi * s.n)]++; } }
    bool last = q && s.n >= 2 && r.coin(0.06); if(last) { // almost no curvature: s'y = 1 with huge s and y
      u.jc = p.jc; u.jd = p.jd; u.x = p.x; u.g = p.g; u.x[0] += 16384; u.x[1] += 1; u.g[0] -= 1; u.g[1] += 16385; if(tiny) u.x[0] = p.x[0] + 1; }
    Act a; a.t = 0; a.u = u; s.a.push_back(a); p = u; if(last) nu = q;
    int rounds = !last && r.coin(0.25) ? 0 : r.range(1, 2);
    for(int w = 0; w < rounds; w++) {
      if(r.coin(0.3)) { Act b; b.t = 2; b.q.kind = 1; b.q.rhs = ints(r, s.n, 4); b.q.y0 = ints(r, s.n, 4); b.q.al = r.range(-2, 2); b.q.be = r.range(-1, 1); s.a.push_back(b); }
      Act d; d.t = 1; d.D.assign(s.n, 0); for(auto& v : d.D) v = r.coin(0.3) ? 0 : r.range(0, 9); s.a.push_back(d);
      int nq = r.range(1, 3);
      for(int z = 0; z < nq; z++) { Act b; b.t = 2; b.q.kind = z == 0 ? (r.coin() ? 0 : 2) : r.below(3); if(b.q.kind == 2 && m == 0) b.q.kind = 0; b.q.rhs = ints(r, s.n, 4); b.q.y0 = ints(r, s.n, 4); b.q.al = b.q.kind == 2 ? r.range(1, 2) : r.range(-2, 2); b.q.be = r.range(-1, 1);
        if(b.q.kind == 0) { bool nz = false; for(int v : b.q.rhs) nz |= v != 0; if(!nz) b.q.rhs[0] = 1; }
        b.q.k = m; b.q.X = ints(r, m * s.n, 3); b.q.W0.assign(m * m, 0); for(int i = 0; i < m; i++) for(int j = i; j < m; j++) b.q.W0[i * m + j] = b.q.W0[j * m + i] = r.range(-3, 3); s.a.push_back(b); }
    }
  }
  return s;
}
// ---------- candidate memories
struct Cand { I ids; int sig; W B; R tol; };
struct Oracle {
  const Scn& s; int n; std::vector<W> S, Y; W sty, ss, yy; std::vector<W> D; double fac; std::vector<char> use;
  Oracle(const Scn& s_) : s(s_), n(s_.n) { S.push_back({}); Y.push_back({}); sty = ss = yy = {0}; use = {0}; }
  void add(const Upd& a, const Upd& b) { // y: gradient difference plus the change of the Jacobians times the current multipliers
    W x(n), y(n); for(int i = 0; i < n; i++) { x[i] = ldexpl(b.x[i] - a.x[i], -s.kx); R t = b.g[i] - a.g[i]; for(int k = 0; k < s.me; k++) t += (b.jc[k * n + i] - a.jc[k * n + i]) * b.yc[k]; for(int k = 0; k < s.mi; k++) t += (b.jd[k * n + i] - a.jd[k * n + i]) * b.yd[k]; y[i] = ldexpl(t, -s.kg); }
    R p = 0, q = 0, t = 0; for(int i = 0; i < n; i++) { p += x[i] * y[i]; q += x[i] * x[i]; t += y[i] * y[i]; }
    S.push_back(x); Y.push_back(y); sty.push_back(p); ss.push_back(q); yy.push_back(t); }
  R sigma(int k) const { if(k == 0) return s.s0; R v = s.strat == "sty" ? sty[k] / ss[k] : s.strat == "sty_inv" ? yy[k] / sty[k] : s.strat == "snrm_ynrm" ? sqrtl(ss[k] / yy[k]) : s.strat == "sigma0" ? s.s0 : 0.5L * (sty[k] / ss[k] + yy[k] / sty[k]); return fmaxl(fminl(1e8L, v), 1e-8L); }
  std::vector<Cand> all(int upto) const {  // every choice of stored updates with positive curvature, at most one more than the memory holds
    std::vector<Cand> c; 
    for(int sg = 0; sg <= upto; sg++) { if(sg && (!(sty[sg] > 0) || s.strat == "sigma0")) continue;
      for(int mask = 0; mask < (1 << upto); mask++) { if(__builtin_popcount(mask) > s.lmax + 1) continue; bool ok = true; Cand d; d.sig = sg;
        for(int k = 1; k <= upto; k++) if(mask >> (k - 1) & 1) { if(!(sty[k] > 0)) ok = false; d.ids.push_back(k); } if(!ok) continue;
        W B(n * n, 0); R sv = sigma(sg); for(int i = 0; i < n; i++) B[i * n + i] = sv;
        for(int k : d.ids) { W b(n, 0); R q = 0; for(int i = 0; i < n; i++) { for(int j = 0; j < n; j++) b[i] += B[i * n + j] * S[k][j]; q += b[i] * S[k][i]; } if(!(q > 0)) continue; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) B[i * n + j] += Y[k][i] * Y[k][j] / sty[k] - b[i] * b[j] / q; }
        d.B = B; R cos2 = 1; for(int k : d.ids) cos2 = fminl(cos2, sty[k] * sty[k] / ss[k] / yy[k]); d.tol = 1e-6L + 1e-9L / cos2; c.push_back(d); } }
    return c; }
  static bool lu(W A, int n, W b, int k, W& x) { // A x = b with k right-hand sides (by columns)
    for(int c = 0; c < n; c++) { int p = c; for(int i = c; i < n; i++) if(fabsl(A[i * n + c]) > fabsl(A[p * n + c])) p = i; if(A[p * n + c] == 0) return false; if(p != c) { for(int j = 0; j < n; j++) std::swap(A[c * n + j], A[p * n + j]); for(int q = 0; q < k; q++) std::swap(b[q * n + c], b[q * n + p]); }
      for(int i = c + 1; i < n; i++) { R f = A[i * n + c] / A[c * n + c]; for(int j = c; j < n; j++) A[i * n + j] -= f * A[c * n + j]; for(int q = 0; q < k; q++) b[q * n + i] -= f * b[q * n + c]; } }
    x = b; for(int q = 0; q < k; q++) for(int i = n - 1; i >= 0; i--) { for(int j = i + 1; j < n; j++) x[q * n + i] -= A[i * n + j] * x[q * n + j]; x[q * n + i] /= A[i * n + i]; }
    return true; }
  // relative error of the observed result when the memory is d
  R err(const Cand& d, const Qry& q, const I& Dg, const V& o) const {
    W B = d.B; R worst = 0, nB = 0; for(double v : o) if(!std::isfinite(v)) return 1e30L;
    if(q.kind != 1) for(int i = 0; i < n; i++) B[i * n + i] += ldexpl(Dg[i], s.kx - s.kg);
    for(R v : B) nB = fmaxl(nB, fabsl(v));
    if(q.kind == 0) { R nx = 0, nr = 0; for(double v : o) nx = fmaxl(nx, fabsl(v)); for(int v : q.rhs) nr = fmaxl(nr, fabsl((R)v)); for(int i = 0; i < n; i++) { R t = -(R)q.rhs[i]; for(int j = 0; j < n; j++) t += B[i * n + j] * o[j]; worst = fmaxl(worst, fabsl(t)); } return worst / (nB * nx + nr); }
    if(q.kind == 1) { R sc = 0; for(int i = 0; i < n; i++) { R t = ldexpl((R)q.be * q.y0[i], s.kx - s.kg); sc = fmaxl(sc, fabsl(t)); for(int j = 0; j < n; j++) t += q.al * B[i * n + j] * q.rhs[j]; worst = fmaxl(worst, fabsl(t - o[i])); } for(int v : q.rhs) sc = fmaxl(sc, nB * abs(v) * abs(q.al)); return sc == 0 ? worst : worst / sc; }
    int k = q.k; W b(k * n), x; for(int i = 0; i < k * n; i++) b[i] = q.X[i]; if(!lu(B, n, b, k, x)) return 1e30L; R sc = 0; for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) { R t = ldexpl((R)q.be * q.W0[i * k + j], s.kg - s.kx), u = 0; for(int p = 0; p < n; p++) { u += x[i * n + p] * q.X[j * n + p]; } sc = fmaxl(sc, fmaxl(fabsl(t), fabsl(q.al * u))); worst = fmaxl(worst, fabsl(t + q.al * u - o[i * k + j])); } return sc == 0 ? worst : worst / sc; }
};
// tolerance of a query: rounding is amplified by ill-conditioned pairs and matrices
static R tolerance(const Scn& s, const Cand& c, const Qry& q, const I& D, R e) {
  if(e <= c.tol) return c.tol; int n = s.n; W B = c.B, id(n * n, 0), x; if(q.kind != 1) for(int i = 0; i < n; i++) B[i * n + i] += ldexpl(D[i], s.kx - s.kg); for(int i = 0; i < n; i++) id[i * n + i] = 1;
  if(!Oracle::lu(B, n, id, n, x)) return 1e30L; R a = 0, b = 0; for(R v : B) a = fmaxl(a, fabsl(v)); for(R v : x) b = fmaxl(b, fabsl(v)); return c.tol + 1e-10L * a * b; }
static R worstok = 0, bestbad = 1;
static void put(hiopVector* v, const V& g, int lo) { int m = v->get_local_size(); for(int i = 0; i < m; i++) v->local_data()[i] = g[lo + i]; }
static V sc(const I& v, int k) { V r; for(int x : v) r.push_back(std::ldexp((double)x, -k)); return r; }
static void body(Scn& s, int rank, Toy& toy, bool only_check) {
  hiopNlpDenseConstraints nlp(toy, "none.options"); nlp.options->SetIntegerValue("verbosity_level", 0); nlp.options->SetIntegerValue("secant_memory_len", s.lmax); nlp.options->SetStringValue("sigma_update_strategy", s.strat.c_str()); nlp.options->SetNumericValue("sigma0", s.s0); nlp.options->SetNumericValue("bound_relax_perturb", 0.);
  if(!nlp.finalizeInitialization()) { vh::ev(J::obj().kv("e", "noinit")); return; }
  int lo = s.part[rank], m = s.me + s.mi, nl = s.part[rank + 1] - lo, n = s.n;
  std::unique_ptr<hiopHessianLowRank> H(dynamic_cast<hiopHessianLowRank*>(nlp.alloc_Hess_Lagr()));
  std::unique_ptr<hiopVector> g(nlp.alloc_primal_vec()), a(nlp.alloc_primal_vec()), b(nlp.alloc_primal_vec()); std::unique_ptr<hiopMatrix> Jc(nlp.alloc_Jac_c()), Jd(nlp.alloc_Jac_d()); hiopIterate it(&nlp); it.setBoundsDualsToConstant(0.); it.get_sxl()->setToZero(); it.get_sxu()->setToZero();
  auto jac = [&](hiopMatrix* M, const I& v, int k, int kg) { double* d = dynamic_cast<hiopMatrixDense*>(M)->local_data(); for(int i = 0; i < k; i++) for(int j = 0; j < nl; j++) d[i * nl + j] = std::ldexp((double)v[i * n + lo + j], -kg); };
  for(auto& t : s.a) {
    if(t.t == 0) { put(it.get_x(), sc(t.u.x, s.kx), lo); put(g.get(), sc(t.u.g, s.kg), lo); for(int k = 0; k < s.me; k++) it.get_yc()->local_data()[k] = t.u.yc[k]; for(int k = 0; k < s.mi; k++) it.get_yd()->local_data()[k] = t.u.yd[k]; jac(Jc.get(), t.u.jc, s.me, s.kg); jac(Jd.get(), t.u.jd, s.mi, s.kg); H->update(it, *g, *Jc, *Jd);
      // whatever was passed may change afterwards
      it.get_x()->setToConstant(77.); it.get_yc()->setToConstant(5.); it.get_yd()->setToConstant(5.); g->setToConstant(-3.); Jc->setToConstant(9.); Jd->setToConstant(9.); }
    if(t.t == 1) { put(a.get(), sc(t.D, s.kg - s.kx), lo); H->updateLogBarrierDiagonal(*a); a->setToConstant(3.); }
    if(t.t == 2) { Qry& q = t.q;
      if(q.kind == 0) { V rr(q.rhs.begin(), q.rhs.end()); put(a.get(), rr, lo); b->setToConstant(4e3); H->solve(*a, *b); for(int i = 0; i < nl; i++) q.out[0][lo + i] = b->local_data()[i]; }
      if(q.kind == 1) { V rr(q.rhs.begin(), q.rhs.end()); put(a.get(), rr, lo); put(b.get(), sc(q.y0, s.kg - s.kx), lo); H->timesVec(q.be, *b, q.al, *a); for(int i = 0; i < nl; i++) q.out[0][lo + i] = b->local_data()[i]; }
      if(q.kind == 2) { std::unique_ptr<hiopMatrixDense> X(nlp.alloc_multivector_primal(m)), Wm(LinearAlgebraFactory::create_matrix_dense("DEFAULT", m, m)); jac(X.get(), q.X, m, 0); for(int i = 0; i < m * m; i++) Wm->local_data()[i] = std::ldexp((double)q.W0[i], s.kg - s.kx); H->symMatTimesInverseTimesMatTrans(q.be, *Wm, q.al, *X); for(int i = 0; i < m * m; i++) q.out[rank][i] = Wm->local_data()[i]; } }
  }
}
static void scenario(vh::Runner& Rn, bool dist, uint64_t seed, int i) {
  Rng r(seed * 9000011ull + i * 907ull + dist); Scn s = make(r, dist); fm::Config fc; fc.P = s.P; fc.seed = r.next(); fc.policy = r.below(4);
  Rn.run((dist ? "dist-" : "seq-") + std::to_string(i), J::obj().kv("n", s.n).kv("me", s.me).kv("mi", s.mi).kv("lmax", s.lmax).kv("fixed", s.strat == "sigma0" ? 1 : 0).kv("kx", s.kx).str(), [&]() {
    Toy toy; toy.n = s.n; toy.me = s.me; toy.mi = s.mi; toy.part = s.part; toy.xl = s.xl; toy.xu = s.xu;
    for(auto& t : s.a) if(t.t == 2) t.q.out.assign(t.q.kind == 2 ? s.P : 1, V(t.q.kind == 2 ? t.q.k * t.q.k : s.n, std::nan("")));
    fm::Result res = fm::run(fc, [&](int rk) { body(s, rk, toy, false); });
    if(!res.ok) vh::ev(J::obj().kv("e", "mpi").kv("why", res.why));
    Oracle o(s); const Upd* prev = nullptr; I D; int nu = 0; std::vector<Cand> cs = o.all(0);
    for(auto& t : s.a) {
      if(t.t == 0) { if(prev) { o.add(*prev, t.u); nu++; cs = o.all(nu); } prev = &t.u; vh::ev(J::obj().kv("e", "upd").raw("x", vh::jints(t.u.x)).raw("g", vh::jints(t.u.g)).raw("jc", vh::jints(t.u.jc)).raw("jd", vh::jints(t.u.jd)).raw("yc", vh::jints(t.u.yc)).raw("yd", vh::jints(t.u.yd))); }
      if(t.t == 1) D = t.D;
      if(t.t == 2) for(auto& out : t.q.out) { J m = J::arr(); for(auto& c : cs) { R e = o.err(c, t.q, D, out); R tl = tolerance(s, c, t.q, D, e); if(e <= tl) { J id = J::arr(); id.addraw(vh::jints(c.ids)); id.add(c.sig); m.addraw(id.str()); if(e > worstok) worstok = e; } else if(e < bestbad) bestbad = e; }
        if(getenv("LB_MISS")) { R bm = 1e30L, bt = 0; std::string bi; R bb=0; for(auto& c : cs) { R e = o.err(c, t.q, D, out); if(e < bm) { bm = e; bt = tolerance(s, c, t.q, D, e); bi = vh::jints(c.ids); bb=0; for(R v : c.B) bb = fmaxl(bb, fabsl(v)); } } if(bm > 0.01L * bt) fprintf(stderr, "MISS %Lg %d kind %d err %Lg %s |B| %Lg kx %d kg %d\n", bm / bt, i, t.q.kind, bm, bi.c_str(), bb, s.kx, s.kg); }
        vh::ev(J::obj().kv("e", "query").kv("kind", t.q.kind).raw("m", m.str())); }
    }
    vh::ev(J::obj().kv("e", "end"));
    if(getenv("LB_STAT")) fprintf(stderr, "%Lg %Lg\n", worstok, bestbad);
  });
}
int main(int argc, char** argv) {
  vh::Runner Rn(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) Rn.only = argv[5];
  for(int i = 0; i < N; i++) scenario(Rn, mode == "dist", seed, i);
  return 0;
}
