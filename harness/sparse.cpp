// Random programs over sparse (triplet), symmetric sparse and mixed dense-sparse matrices, every operation recorded with its operands.
// A sparse operand is [m, n, v] with v the list of its entries <<row, column, value>> in storage order.
// usage: sparse OUT.ndjson MODE SEED COUNT [ONLY-ID]      MODE: tri | mds | csr
#include "matops.h"
#include "hiopVectorPar.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "hiopMatrixSparseTriplet.hpp"
#include "hiopMatrixMDS.hpp"
#include "LinAlgFactory.hpp"
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <malloc.h>
#include "hiopMatrixSparseCSRSeq.hpp"
using namespace hiop;
using vh::J; using vh::Rng; using mo::Op; using mo::Opd; using mo::Loc;
typedef std::vector<int> I;
typedef std::unique_ptr<hiopMatrixSparse> SP; typedef std::unique_ptr<hiopMatrixDense> DP; typedef std::unique_ptr<hiopVector> VP;
static Loc trip(int m, int n, int nnz, const int* i, const int* j, const double* v) { Loc l; l.m = m; l.n = n; for(int k = 0; k < nnz; k++) l.v.push_back({i[k], j[k], sc::enc(v[k])}); return l; }
static Opd T(hiopMatrixSparse* A) { return {'r', [A] { return trip(A->m(), A->n(), A->numberOfNonzeros(), A->i_row(), A->j_col(), A->M()); }}; }
static Opd T(const SP& A) { return T(A.get()); }
static Loc dense(int m, int n, const double* p) { Loc l; l.m = m; l.n = n; for(int i = 0; i < m; i++) { l.v.emplace_back(); for(int j = 0; j < n; j++) l.v.back().push_back(sc::enc(p[(size_t)i * n + j])); } return l; }
static Opd D(hiopMatrixDense* A) { return {'r', [A] { return dense(A->m(), A->n(), A->local_data()); }}; }
static Opd D(const DP& A) { return D(A.get()); }
static Opd V(hiopVector* x) { return {'r', [x] { return dense(1, x->get_size(), x->local_data()); }}; }
static Opd V(const VP& x) { return V(x.get()); }
struct Arr { I i, j; std::vector<double> v; int m, n; Arr(int nz, int m_, int n_) : i(nz + 1, -7), j(nz + 1, -7), v(nz + 1, -7.), m(m_), n(n_) {} };
static Opd A3(std::shared_ptr<Arr> a, int nz) { return {'r', [a, nz] { return trip(a->m, a->n, nz, a->i.data(), a->j.data(), a->v.data()); }}; }

struct Run {
  Rng rng; mo::World W; int k = 0;
  explicit Run(uint64_t s) : rng(s) { W.P = 1; }
  double val() { return rng.range(-6, 6) / 2.; }
  double alpha() { static const double a[] = {1., -1., 0., 2., .5, -1.5}; return a[rng.below(6)]; }
  int sz(int cap = 4) { return rng.coin(.12) ? 0 : rng.range(1, cap); }
  void fin(Op& o, std::vector<long long> ret = {}) { o.done(W, k++, 0, ret); }
  VP vec(int n, int kind = 0) { VP x(LinearAlgebraFactory::create_vector(ExecSpaceInfo("DEFAULT"), n)); for(int i = 0; i < n; i++) x->local_data()[i] = kind == 1 ? std::ldexp(rng.coin() ? 1 : -1, rng.range(-1, 2)) : kind == 2 ? (rng.coin() ? 1. : 0.) : val(); return x; }
  DP den(int m, int n) { DP A(LinearAlgebraFactory::create_matrix_dense(ExecSpaceInfo("DEFAULT"), m, n)); for(int i = 0; i < m * n; i++) A->local_data()[i] = val(); return A; }
  // entries of an m x n matrix, sorted by rows and columns; sym: upper triangle only
  std::vector<std::pair<int, int>> pattern(int m, int n, bool sym = false) { std::vector<std::pair<int, int>> e; double p = rng.coin(.2) ? 1 : rng.coin(.15) ? 0 : .5; for(int i = 0; i < m; i++) for(int j = sym ? i : 0; j < n; j++) if(rng.coin(p)) e.push_back({i, j}); return e; }
  SP build(int m, int n, const std::vector<std::pair<int, int>>& e, bool sym = false) {
    SP A(sym ? LinearAlgebraFactory::create_matrix_sym_sparse(ExecSpaceInfo("DEFAULT"), n, e.size()) : LinearAlgebraFactory::create_matrix_sparse(ExecSpaceInfo("DEFAULT"), m, n, e.size()));
    for(size_t q = 0; q < e.size(); q++) { A->i_row()[q] = e[q].first; A->j_col()[q] = e[q].second; A->M()[q] = val(); } return A; }
  SP sp(int m, int n) { return build(m, n, pattern(m, n)); }
  SP sym(int n) { return build(n, n, pattern(n, n, true), true); }
  // use a matrix before it is changed: what it remembered about its entries must not matter afterwards
  void warm(hiopMatrixSparse& A) { if(rng.coin(.5)) { DP w = den(A.m(), A.m()); A.timesMatTrans(0., *w, 1., A); } }
  bool srt(hiopMatrixSparse& A) { for(int q = 1; q < A.numberOfNonzeros(); q++) if(!(A.i_row()[q - 1] < A.i_row()[q] || (A.i_row()[q - 1] == A.i_row()[q] && A.j_col()[q - 1] < A.j_col()[q]))) return false; for(int q = 0; q < A.numberOfNonzeros(); q++) if(A.i_row()[q] < 0 || A.i_row()[q] >= A.m() || A.j_col()[q] < 0 || A.j_col()[q] >= A.n()) return false; return true; }
  void mtm(hiopMatrixSparse* A) { if(!srt(*A)) return; SP B = sp(sz(), A->n()); DP w = den(A->m(), B->m()); double b = alpha(), a = alpha(); Op o("sp_timesMatTrans", {D(w), T(A), T(B)}, {b, a}); A->timesMatTrans(b, *w, a, *B); fin(o); }
  SP scratch(int m, int n, int nnz) { std::vector<std::pair<int, int>> e; for(int q = 0; q < nnz; q++) e.push_back({m ? rng.below(m) : 0, n ? rng.below(n) : 0}); std::sort(e.begin(), e.end()); return build(m, n, e); }
  void tri() {
    int m = sz(), n = sz(); double a = alpha(), b = alpha();
    switch(rng.below(34)) {
      case 0: { SP A = sp(m, n); bool z = rng.coin(); Op o("sp_set", {T(A)}, {z ? 0. : a}); if(z) A->setToZero(); else A->setToConstant(a); fin(o); break; }
      case 1: case 2: { SP A = sp(m, n); VP x = vec(n), y = vec(m); Op o("sp_timesVec", {V(y), T(A), V(x)}, {b, a}); if(rng.coin()) A->timesVec(b, *y, a, *x); else A->timesVec(b, y->local_data(), a, x->local_data()); fin(o); break; }
      case 3: case 4: { SP A = sp(m, n); VP x = vec(m), y = vec(n); Op o("sp_transTimesVec", {V(y), T(A), V(x)}, {b, a}); if(rng.coin()) A->transTimesVec(b, *y, a, *x); else A->transTimesVec(b, y->local_data(), a, x->local_data()); fin(o); break; }
      case 5: case 6: { SP A = sp(m, n), B = sp(sz(), n); hiopMatrixSparse* q = rng.coin(.2) ? A.get() : B.get(); DP w = den(m, q->m()); Op o("sp_timesMatTrans", {D(w), T(A), T(q)}, {b, a}); A->timesMatTrans(b, *w, a, *q); fin(o); if(rng.coin()) { for(int z = 0; z < A->numberOfNonzeros(); z++) A->M()[z] = val(); mtm(A.get()); } break; }
      case 7: { int num = rng.range(0, 3), st = rng.below(3), ex = rng.below(3), ns = rng.below(3); m = std::max(1, st + num + rng.below(2)); SP A = scratch(m, m, ns + num + ex); VP v = vec(num + rng.below(2)); Op o("sp_copySubDiag", {T(A), V(v)}, {a}, {st, num, ns}); A->copySubDiagonalFrom(st, num, *v, ns, a); fin(o); break; }
      case 8: { int num = rng.range(0, 3), st = rng.below(3), ex = rng.below(3), ns = rng.below(3); m = std::max(1, st + num + rng.below(2)); SP A = scratch(m, m, ns + num + ex); Op o("sp_setSubDiag", {T(A)}, {a}, {st, num, ns}); A->setSubDiagonalTo(st, num, a, ns); fin(o); break; }
      case 9: case 10: { SP A = sp(m, n); int r0 = rng.below(2), c0 = r0 + n + rng.below(2), s = c0 + m + rng.below(2); DP w = den(s, s); Op o("sp_transAddUT", {D(w), T(A)}, {a}, {r0, c0}); A->transAddToSymDenseMatrixUpperTriangle(r0, c0, a, *w); fin(o); break; }
      case 11: { SP A = sp(m, n); Op o("sp_maxabs", {T(A)}); double v = A->max_abs_value(); fin(o, {sc::enc(v)}); break; }
      case 12: { SP A = sp(m, n); VP v = vec(m); Op o("sp_rowmaxabs", {V(v), T(A)}); A->row_max_abs_value(*v); fin(o); break; }
      case 13: { SP A = sp(m, n); bool inv = rng.coin(); VP v = vec(m, 1); warm(*A); Op o(inv ? "sp_scale_row_inv" : "sp_scale_row", {T(A), V(v)}); A->scale_row(*v, inv); fin(o); mtm(A.get()); break; }
      case 14: { SP A = sp(m, n); if(A->numberOfNonzeros() && rng.coin()) A->M()[rng.below(A->numberOfNonzeros())] = rng.coin() ? NAN : rng.coin() ? INFINITY : -INFINITY; Op o("sp_isfinite", {T(A)}); bool f = A->isfinite(); fin(o, {f}); break; }
      case 15: { SP A = sp(m, n); warm(*A); Op o("sp_new_copy", {T(A)}); SP B(A->new_copy()); o.a.push_back(T(B)); o.r.pre.push_back(o.a[1].get()); fin(o); Op q("sp_set", {T(A)}, {a}); A->setToConstant(a); fin(q); Op p("sp_dims", {T(B)}); fin(p, {B->m(), B->n(), B->numberOfNonzeros()}); mtm(B.get()); break; }
      case 16: { SP A = sp(m, n); SP B(A->alloc_clone()); Op o("sp_clone", {T(A)}); fin(o, {B->m(), B->n(), B->numberOfNonzeros()}); break; }
      case 17: { SP A = sp(m, n); int z = A->numberOfNonzeros(); auto ar = std::make_shared<Arr>(z, m, n); Op o("sp_copy_to", {A3(ar, z), T(A)}); A->copy_to(ar->i.data(), ar->j.data(), ar->v.data()); fin(o); break; }
      case 18: { SP A = rng.coin() ? sp(m, n) : scratch(std::max(1, m), std::max(1, n), rng.range(0, 6)); DP w = den(A->m(), A->n()); Op o("sp_copy_to_dense", {D(w), T(A)}); A->copy_to(*w); fin(o); break; }
      case 19: case 20: { SP A = sp(m, n); VP d = vec(n, 1); int s = rng.below(3); DP w = den(s + m + rng.below(2), 0); int q = w->m(); w = den(q, q); Op o("sp_addMDinvMt", {D(w), T(A), V(d)}, {a}, {s}); A->addMDinvMtransToDiagBlockOfSymDeMatUTri(s, a, *d, *w); fin(o); break; }
      case 21: case 22: { SP A = sp(m, n), B = sp(sz(), n); VP d = vec(n, 1); int r0 = rng.below(2), c0 = r0 + m + rng.below(2), s = c0 + B->m() + rng.below(2); DP w = den(s, s); Op o("sp_addMDinvNt", {D(w), T(A), T(B), V(d)}, {a}, {r0, c0}); A->addMDinvNtransToSymDeMatUTri(r0, c0, a, *d, *B, *w); fin(o); break; }
      case 23: case 24: { int s = m + rng.below(3); SP S = sp(s, n); I rows; for(int i = 0; i < s; i++) rows.push_back(i); while((int)rows.size() > m) rows.erase(rows.begin() + rng.below(rows.size())); int z = 0; for(int q = 0; q < S->numberOfNonzeros(); q++) if(std::count(rows.begin(), rows.end(), S->i_row()[q])) z++;
        // the destination holds another pattern before
        std::vector<std::pair<int, int>> all; for(int i = 0; i < m; i++) for(int j = 0; j < n; j++) all.push_back({i, j}); while((int)all.size() > z) all.erase(all.begin() + rng.below(all.size())); SP A = build(m, n, all); warm(*A); warm(*S); int dum = 0;
        Op o("sp_copyRows", {T(A), T(S)}, {}, rows); A->copyRowsFrom(*S, rows.empty() ? &dum : rows.data(), m); fin(o); mtm(A.get()); break; }
      case 25: { SP S = sp(m, n); int num = rng.range(0, m), st = rng.range(0, m - num), ds = rng.below(3), ns = rng.below(3); int z = S->numberOfNonzeros(); SP A = scratch(std::max(1, ds + num + rng.below(2)), std::max(1, n + rng.below(2)), z + ns + rng.below(2)); Op o("sp_copyRowsBlock", {T(A), T(S)}, {}, {st, num, ds, ns}); A->copyRowsBlockFrom(*S, st, num, ds, ns); fin(o); break; }
      case 26: { int c = rng.range(0, 3), r0 = rng.below(3), c0 = rng.below(3), ns = rng.below(3); SP A = scratch(r0 + c + 1, c0 + c + 1, ns + c + rng.below(2)); Op o("sp_copyDiagC", {T(A)}, {a}, {r0, c0, ns, c}); A->copyDiagMatrixToSubblock(a, r0, c0, ns, c); fin(o); break; }
      case 27: { n = sz(); VP x = vec(n), ix = vec(n, 2); int c = 0; for(int i = 0; i < n; i++) c += ix->local_data()[i] != 0; int r0 = rng.below(3), c0 = rng.below(3), ns = rng.below(3); SP A = scratch(r0 + c + 1, c0 + c + 1, ns + c + rng.below(2)); Op o("sp_copyDiagPat", {T(A), V(x), V(ix)}, {}, {r0, c0, ns, c}); A->copyDiagMatrixToSubblock_w_pattern(*x, r0, c0, ns, c, *ix); fin(o); break; }
      case 28: case 29: { SP S = sp(m, n); bool tr = rng.coin(), off = rng.coin(.3); int r0 = rng.below(3), c0 = rng.below(3), ns = rng.below(3); SP A = scratch(std::max(1, r0 + (tr ? n : m) + rng.below(2)), std::max(1, c0 + (tr ? m : n) + rng.below(2)), ns + S->numberOfNonzeros() + rng.below(2)); Op o(tr ? "sp_copySubTrans" : "sp_copySub", {T(A), T(S)}, {}, {r0, c0, ns, off}); if(tr) A->copySubmatrixFromTrans(*S, r0, c0, ns, off); else A->copySubmatrixFrom(*S, r0, c0, ns, off); fin(o); break; }
      case 30: { n = sz(); VP ix = vec(n, 2); int c = 0; for(int i = 0; i < n; i++) c += ix->local_data()[i] != 0; bool row = rng.coin(); int r0 = rng.below(3), c0 = rng.below(3), ns = rng.below(3); SP A = scratch(r0 + n + 1, c0 + n + 1, ns + c + rng.below(2)); Op o(row ? "sp_diagRowPat" : "sp_diagColPat", {T(A), V(ix)}, {a}, {r0, c0, ns, c}); if(row) A->setSubmatrixToConstantDiag_w_rowpattern(a, r0, c0, ns, c, *ix); else A->setSubmatrixToConstantDiag_w_colpattern(a, r0, c0, ns, c, *ix); fin(o); break; }
      case 31: { n = std::max(1, sz(5)); std::vector<std::pair<int, int>> e; for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) if(i == j || rng.coin()) e.push_back({i, j}); if(rng.coin(.6)) for(size_t q = e.size(); q > 1; q--) std::swap(e[q - 1], e[rng.below(q)]); for(int i = 0; i < n; i++) if(rng.coin()) e.push_back({i, i}); SP A = build(n, n, e);
        int nz = 0, *ptr = nullptr, *col = nullptr, *c2t = nullptr, *x2c = nullptr; double* v = nullptr; std::unordered_map<int, int> mp; Op o("sp_csr", {T(A)}); dynamic_cast<hiopMatrixSparseTriplet&>(*A).convert_to_csr_arrays(nz, &ptr, &col, &v, &c2t, &x2c, mp);
        auto ar = std::make_shared<Arr>(nz, n, n); for(int i = 0; i < n; i++) for(int q = ptr[i]; q < ptr[i + 1] && q < nz; q++) { ar->i[q] = i; ar->j[q] = col[q]; ar->v[q] = v[q]; } std::vector<long long> ret(c2t, c2t + nz); for(int i = 0; i < n; i++) ret.push_back(x2c[i]); for(int i = 0; i < n; i++) ret.push_back(x2c[i] >= 0 && mp.count(x2c[i]) ? mp[x2c[i]] : -1); ret.push_back(mp.size());
        o.a.push_back(A3(ar, nz)); o.r.pre.push_back(o.a[1].get()); fin(o, ret); delete[] ptr; delete[] col; delete[] v; delete[] c2t; delete[] x2c; break; }
      case 32: { SP A = scratch(std::max(1, m), std::max(1, n), 0); auto e = pattern(std::max(1, m), std::max(1, n)); for(size_t q = e.size(); q > 1; q--) std::swap(e[q - 1], e[rng.below(q)]); A = build(std::max(1, m), std::max(1, n), e); Op o("sp_sort", {T(A)}); dynamic_cast<hiopMatrixSparseTriplet&>(*A).sort(); fin(o); mtm(A.get()); break; }
      case 33: { bool dg = rng.coin(); std::vector<std::pair<int, int>> e; int s = std::max(1, n); if(dg) { for(int i = 0; i < s; i++) if(rng.coin(.7)) e.push_back({i, i}); } else e = pattern(s, s); SP A = rng.coin(.2) ? sp(m, n) : build(s, s, e); Op o("sp_is_diagonal", {T(A)}); bool f = A->is_diagonal(); fin(o, {f}); if(A->m() == A->n()) { VP v = vec(A->m()); Op q("sp_extract_diag", {V(v), T(A)}); A->extract_diagonal(*v); fin(q); } break; }
    }
  }
  void jacFR() {
    int n = sz(), mc = sz(3), md = sz(3); SP C = sp(mc, n), E = sp(md, n); int z = C->numberOfNonzeros() + E->numberOfNonzeros() + 2 * (mc + md); SP A = scratch(std::max(1, mc + md), std::max(1, n + 2 * mc + 2 * md), 0); A.reset(LinearAlgebraFactory::create_matrix_sparse(ExecSpaceInfo("DEFAULT"), mc + md, n + 2 * mc + 2 * md, z));
    auto ar = std::make_shared<Arr>(z, mc + md, n + 2 * mc + 2 * md); auto f = [&]() { if(rng.coin()) { A->set_Jac_FR(*C, *E, ar->i.data(), ar->j.data(), nullptr); A->set_Jac_FR(*C, *E, nullptr, nullptr, ar->v.data()); } else A->set_Jac_FR(*C, *E, ar->i.data(), ar->j.data(), ar->v.data()); };
    for(int q = 0; q < z; q++) { A->i_row()[q] = A->j_col()[q] = 0; A->M()[q] = 0; } Op o("sp_setJacFR", {T(A), A3(ar, z), T(C), T(E)}); f(); fin(o);
    for(int q = 0; q < C->numberOfNonzeros(); q++) C->M()[q] = val(); Op p("sp_setJacFR", {T(A), A3(ar, z), T(C), T(E)}); A->set_Jac_FR(*C, *E, nullptr, nullptr, ar->v.data()); fin(p); mtm(A.get());
  }
  void hessFR() {
    int n = sz(), ex = rng.below(3); bool empty = rng.coin(.2); SP H = empty ? build(0, 0, {}, true) : sym(n); int off = H->numberOfOffDiagNonzeros(), z = n + off; SP A(LinearAlgebraFactory::create_matrix_sym_sparse(ExecSpaceInfo("DEFAULT"), n + ex, z)); for(int q = 0; q < z; q++) { A->i_row()[q] = A->j_col()[q] = 0; A->M()[q] = 0; }
    if(n + ex == 0) return; VP d = vec(n); auto ar = std::make_shared<Arr>(z, n + ex, n + ex); Op o("sy_setHessFR", {T(A), A3(ar, z), T(H), V(d)}); if(rng.coin()) { A->set_Hess_FR(*H, ar->i.data(), ar->j.data(), nullptr, *d); A->set_Hess_FR(*H, nullptr, nullptr, ar->v.data(), *d); } else A->set_Hess_FR(*H, ar->i.data(), ar->j.data(), ar->v.data(), *d); fin(o);
  }
  void symm() {
    int n = sz(); double a = alpha(), b = alpha();
    switch(rng.below(7)) {
      case 0: case 1: { SP A = sym(n); VP x = vec(n), y = vec(n); bool tr = rng.coin(), raw = rng.coin(); Op o("sy_timesVec", {V(y), T(A), V(x)}, {b, a}); if(tr) { if(raw) A->transTimesVec(b, y->local_data(), a, x->local_data()); else A->transTimesVec(b, *y, a, *x); } else { if(raw) A->timesVec(b, y->local_data(), a, x->local_data()); else A->timesVec(b, *y, a, *x); } fin(o); break; }
      case 2: { SP A = sym(n); int s = rng.below(3), q = s + n + rng.below(2); DP w = den(q, q); Op o("sy_addUT", {D(w), T(A)}, {a}, {s}); A->addUpperTriangleToSymDenseMatrixUpperTriangle(s, a, *w); fin(o); break; }
      case 3: { SP A = sym(n); int len = rng.range(0, 4), vs = rng.range(0, len), src = rng.range(0, n); bool all = rng.coin(.4); int num = all ? len - vs : rng.range(0, std::min(len - vs, n - src)); if(src + num > n) break; if(num < 0) break; VP v = vec(len); Op o("sy_startingAt", {V(v), T(A)}, {a}, {src, vs, num}); A->startingAtAddSubDiagonalToStartingAt(src, a, *v, vs, all ? -1 : num); fin(o); break; }
      case 4: { SP A = sym(n); Op o("sy_offdiag", {T(A)}); fin(o, {A->numberOfOffDiagNonzeros()}); break; }
      case 5: { SP A = sym(n); Op o("sp_new_copy", {T(A)}); SP B(A->new_copy()); o.a.push_back(T(B)); o.r.pre.push_back(o.a[1].get()); fin(o); VP x = vec(n), y = vec(n); Op p("sy_timesVec", {V(y), T(B), V(x)}, {b, a}); B->timesVec(b, *y, a, *x); fin(p); break; }
      case 6: { SP A = sym(n); SP B(A->alloc_clone()); Op o("sp_clone", {T(A)}); fin(o, {B->m(), B->n(), B->numberOfNonzeros()}); break; }
    }
  }
  // ---- compressed rows: the operand lists the entries row by row
  typedef std::unique_ptr<hiopMatrixSparseCSR> CP;
  static Opd C(hiopMatrixSparseCSR* A) { return {'r', [A] { Loc l; l.m = A->m(); l.n = A->n(); const auto *p = A->i_row(), *c = A->j_col(); if(p) for(int i = 0; i < l.m; i++) { if(p[i] < 0 || p[i + 1] > A->numberOfNonzeros() || p[i] > p[i + 1]) { l.v.push_back({-1, -1, 0}); break; } for(int q = p[i]; q < p[i + 1]; q++) l.v.push_back({i, c[q], sc::enc(A->M()[q])}); } return l; }}; }
  static Opd C(const CP& A) { return C(A.get()); }
  static hiopMatrixSparseTriplet& tr(const SP& A) { return dynamic_cast<hiopMatrixSparseTriplet&>(*A); }
  CP mkc() { return CP(LinearAlgebraFactory::create_matrix_sparse_csr("DEFAULT")); }
  CP csr(const SP& A) { CP X = mkc(); X->form_from_symbolic(tr(A)); X->form_from_numeric(tr(A)); return X; }
  CP csr(int m, int n) { SP A = sp(m, n); return csr(A); }
  CP csrd(int n) { auto e = pattern(n, n); for(int i = 0; i < n; i++) if(!std::count(e.begin(), e.end(), std::make_pair(i, i))) e.push_back({i, i}); std::sort(e.begin(), e.end()); SP A = build(n, n, e); return csr(A); }
  void revalue(hiopMatrixSparse& A) { for(int q = 0; q < A.numberOfNonzeros(); q++) A.M()[q] = val(); }
  void cs() {
    int m = sz(), n = sz(); double a = alpha(), b = alpha(); bool same = rng.coin(.4);
    auto again = [&](CP& X, bool trp) {        // an object that was used for another matrix before
      if(rng.coin(.5)) { SP B = same ? sp(m, n) : sp(sz(), sz()); if(trp) { X->form_transpose_from_symbolic(tr(B)); X->form_transpose_from_numeric(tr(B)); } else { X->form_from_symbolic(tr(B)); X->form_from_numeric(tr(B)); } } };
    switch(rng.below(16)) {
      case 0: case 1: { SP A = sp(m, n); CP X = mkc(); again(X, rng.coin()); Op o("cs_form", {C(X), T(A)}); X->form_from_symbolic(tr(A)); X->form_from_numeric(tr(A)); fin(o); revalue(*A); Op q("cs_form", {C(X), T(A)}); X->form_from_numeric(tr(A)); fin(q); break; }
      case 2: case 3: { SP A = sp(m, n); CP X = mkc(); again(X, rng.coin()); Op o("cs_formT", {C(X), T(A)}); X->form_transpose_from_symbolic(tr(A)); X->form_transpose_from_numeric(tr(A)); fin(o); revalue(*A); Op q("cs_formT", {C(X), T(A)}); X->form_transpose_from_numeric(tr(A)); fin(q); break; }
      case 4: case 5: { CP A = csr(m, n), X = mkc(); again(X, rng.coin()); Op o("cs_formT", {C(X), C(A)}); X->form_transpose_from_symbolic(*A); X->form_transpose_from_numeric(*A); fin(o); revalue(*A); Op q("cs_formT", {C(X), C(A)}); X->form_transpose_from_numeric(*A); fin(q); break; }
      case 6: { VP d = vec(n); CP X = mkc(); again(X, false); Op o("cs_diag", {C(X), V(d)}); X->form_diag_from_symbolic(*d); X->form_diag_from_numeric(*d); fin(o); break; }
      case 7: case 8: case 9: { CP X = csr(m, n), Y = rng.coin(.2) ? mkc() : csr(n, sz()); if(Y->m() != n) { VP d = vec(n, 1); Y->form_diag_from_symbolic(*d); Y->form_diag_from_numeric(*d); } CP M(X->times_mat_alloc(*Y)); X->times_mat_symbolic(*M, *Y); Op o("cs_timesMat0", {C(M), C(X), C(Y)}, {0., a}); o.r.pre[0].v.clear(); X->times_mat_numeric(0., *M, a, *Y); fin(o); revalue(*X); revalue(*Y); Op q("cs_timesMat", {C(M), C(X), C(Y)}, {b, a}); X->times_mat_numeric(b, *M, a, *Y); fin(q); break; }
      case 10: case 11: { CP X = csr(m, n), Y = csr(m, n); CP M(X->add_matrix_alloc(*Y)); X->add_matrix_symbolic(*M, *Y); Op o("cs_add", {C(M), C(X), C(Y)}, {a, b}); o.r.pre[0].v.clear(); X->add_matrix_numeric(*M, a, *Y, b); fin(o); revalue(*X); Op q("cs_add", {C(M), C(X), C(Y)}, {b, a}); X->add_matrix_numeric(*M, b, *Y, a); fin(q); break; }
      case 12: { CP X = csr(m, n); bool row = rng.coin(); VP d = vec(row ? m : n); Op o(row ? "cs_scaleRows" : "cs_scaleCols", {C(X), V(d)}); if(row) X->scale_rows(*d); else X->scale_cols(*d); fin(o); break; }
      case 13: { CP X = csrd(std::max(1, n)); int w = rng.below(3); VP d = vec(X->n()); if(w == 0) { Op o("cs_addDiag", {C(X), V(d)}, {a}); X->addDiagonal(a, *d); fin(o); } else if(w == 1) { Op o("cs_addDiagC", {C(X)}, {a}); X->addDiagonal(a); fin(o); } else { Op o("cs_setDiag", {C(X)}, {a}); X->set_diagonal(a); fin(o); } break; }
      case 14: { CP X = csr(m, n); Op o("sp_maxabs", {C(X)}); double v = X->max_abs_value(); fin(o, {sc::enc(v)}); if(X->numberOfNonzeros() && rng.coin()) X->M()[rng.below(X->numberOfNonzeros())] = NAN; Op q("sp_isfinite", {C(X)}); bool f = X->isfinite(); fin(q, {f}); Op p("cs_ordered", {C(X)}); bool g = X->check_csr_is_ordered(); fin(p, {g}); break; }
      case 15: { CP X = csr(m, n); Op o("sp_new_copy", {C(X)}); CP B((hiopMatrixSparseCSR*)X->new_copy()); o.a.push_back(C(B)); o.r.pre.push_back(o.a[1].get()); fin(o); revalue(*X); Op q("cs_copyFrom", {C(B), C(X)}); B->copyFrom(*X); fin(q); Op p("sp_set", {C(B)}, {a}); B->setToConstant(a); fin(p); break; }
    }
  }
  // ---- mixed dense-sparse: the operands are the sparse and the dense part
  typedef std::unique_ptr<hiopMatrixMDS> MP; typedef std::unique_ptr<hiopMatrixSymBlockDiagMDS> SBP;
  static hiopMatrixSparse* s_(hiopMatrixMDS& A) { return const_cast<hiopMatrixSparse*>(A.sp_mat()); } static hiopMatrixDense* d_(hiopMatrixMDS& A) { return const_cast<hiopMatrixDense*>(A.de_mat()); }
  static hiopMatrixSparse* s_(hiopMatrixSymBlockDiagMDS& A) { return const_cast<hiopMatrixSparse*>(A.sp_mat()); } static hiopMatrixDense* d_(hiopMatrixSymBlockDiagMDS& A) { return const_cast<hiopMatrixDense*>(A.de_mat()); }
  template<class M> void fill(M& A, const std::vector<std::pair<int, int>>& e) { for(size_t q = 0; q < e.size(); q++) { A.sp_irow()[q] = e[q].first; A.sp_jcol()[q] = e[q].second; A.sp_M()[q] = val(); } for(int i = 0; i < d_(A)->m() * d_(A)->n(); i++) A.de_local_data()[i] = val(); }
  MP md(int m, int ns, int nd) { auto e = pattern(m, ns); MP A(new hiopMatrixMDS(m, ns, nd, e.size(), "DEFAULT")); fill(*A, e); return A; }
  SBP sb(int ns, int nd) { auto e = pattern(ns, ns, true); SBP A(new hiopMatrixSymBlockDiagMDS(ns, nd, e.size(), "DEFAULT")); fill(*A, e); for(int i = 0; i < nd; i++) for(int j = 0; j < i; j++) A->de_local_data()[i * nd + j] = A->de_local_data()[j * nd + i]; return A; }
  void mds() {
    int m = sz(), ns = sz(3), nd = sz(3); double a = alpha(), b = alpha();
    switch(rng.below(20)) {
      case 0: case 1: { MP A = md(m, ns, nd); VP x = vec(ns + nd), y = vec(m); Op o("md_timesVec", {V(y), T(s_(*A)), D(d_(*A)), V(x)}, {b, a}); A->timesVec(b, *y, a, *x); fin(o); break; }
      case 2: case 3: { MP A = md(m, ns, nd); VP x = vec(m), y = vec(ns + nd); Op o("md_transTimesVec", {V(y), T(s_(*A)), D(d_(*A)), V(x)}, {b, a}); A->transTimesVec(b, *y, a, *x); fin(o); break; }
      case 4: case 5: { MP A = md(m, ns, nd), B = md(sz(), ns, nd); DP w = den(m, B->m()); Op o("md_timesMatTrans", {D(w), T(s_(*A)), D(d_(*A)), T(s_(*B)), D(d_(*B))}, {b, a}); A->timesMatTrans(b, *w, a, *B); fin(o); break; }
      case 6: { MP A = md(m, ns, nd); int r0 = rng.below(2), c0 = r0 + ns + nd + rng.below(2), s = c0 + m + rng.below(2); DP w = den(s, s); Op o("md_transAddUT", {D(w), T(s_(*A)), D(d_(*A))}, {a}, {r0, c0}); A->transAddToSymDenseMatrixUpperTriangle(r0, c0, a, *w); fin(o); break; }
      case 7: { MP A = md(m, ns, nd); Op o("md_maxabs", {T(s_(*A)), D(d_(*A))}); double v = A->max_abs_value(); fin(o, {sc::enc(v)}); break; }
      case 8: { MP A = md(m, ns, nd); VP v = vec(m); Op o("md_rowmaxabs", {V(v), T(s_(*A)), D(d_(*A))}); A->row_max_abs_value(*v); fin(o); break; }
      case 9: { MP A = md(m, ns, nd); bool inv = rng.coin(); VP v = vec(m, 1); Op o(inv ? "md_scale_row_inv" : "md_scale_row", {T(s_(*A)), D(d_(*A)), V(v)}); A->scale_row(*v, inv); fin(o); break; }
      case 10: { MP A = md(m, ns, nd); int w = rng.below(3); if(w == 1 && A->sp_nnz()) A->sp_M()[rng.below(A->sp_nnz())] = NAN; if(w == 2 && m * nd) A->de_local_data()[rng.below(m * nd)] = rng.coin() ? NAN : INFINITY; Op o("md_isfinite", {T(s_(*A)), D(d_(*A))}); bool f = A->isfinite(); fin(o, {f}); break; }
      case 11: { int s = m + rng.below(3); MP S = md(s, ns, nd); I rows; for(int i = 0; i < s; i++) rows.push_back(i); while((int)rows.size() > m) rows.erase(rows.begin() + rng.below(rows.size())); int z = 0; for(int q = 0; q < S->sp_nnz(); q++) if(std::count(rows.begin(), rows.end(), S->sp_irow()[q])) z++; std::vector<std::pair<int, int>> e; for(int q = 0; q < z; q++) e.push_back({0, 0}); MP A(new hiopMatrixMDS(m, ns, nd, z, "DEFAULT")); fill(*A, e); int dum = 0; Op o("md_copyRows", {T(s_(*A)), D(d_(*A)), T(s_(*S)), D(d_(*S))}, {}, rows); A->copyRowsFrom(*S, rows.empty() ? &dum : rows.data(), m); fin(o); break; }
      case 12: { MP A = md(m, ns, nd); bool z = rng.coin(); Op o("md_set", {T(s_(*A)), D(d_(*A))}, {z ? 0. : a}); if(z) A->setToZero(); else A->setToConstant(a); fin(o); break; }
      case 13: { MP A = md(m, ns, nd); Op o("md_new_copy", {T(s_(*A)), D(d_(*A))}); MP B((hiopMatrixMDS*)A->new_copy()); for(auto& x : {T(s_(*B)), D(d_(*B))}) { o.a.push_back(x); o.r.pre.push_back(x.get()); } fin(o); MP C((hiopMatrixMDS*)A->alloc_clone()); Op q("md_dims", {T(s_(*A)), D(d_(*A))}); fin(q, {C->m(), C->n(), C->n_sp(), C->n_de(), C->sp_nnz()}); break; }
      case 14: { int mc = sz(2), mdd = sz(2); MP C = md(mc, ns, nd), E = md(mdd, ns, nd); int z = C->sp_nnz() + E->sp_nnz() + 2 * (mc + mdd); MP A(new hiopMatrixMDS(mc + mdd, ns + 2 * mc + 2 * mdd, nd, z, "DEFAULT")); std::vector<std::pair<int, int>> e; for(int q = 0; q < z; q++) e.push_back({0, 0}); fill(*A, e); auto ar = std::make_shared<Arr>(z, mc + mdd, ns + 2 * mc + 2 * mdd); auto jd = std::make_shared<std::vector<double>>((mc + mdd) * nd + 1, -7.); int R = mc + mdd; Opd JD = {'r', [jd, R, nd] { return dense(R, nd, jd->data()); }};
        Op o("md_setJacFR", {T(s_(*A)), D(d_(*A)), A3(ar, z), JD, T(s_(*C)), D(d_(*C)), T(s_(*E)), D(d_(*E))}); if(rng.coin()) A->set_Jac_FR(*C, *E, ar->i.data(), ar->j.data(), ar->v.data(), jd->data()); else { A->set_Jac_FR(*C, *E, ar->i.data(), ar->j.data(), nullptr, jd->data()); A->set_Jac_FR(*C, *E, nullptr, nullptr, ar->v.data(), jd->data()); } fin(o); break; }
      // symmetric, two diagonal blocks
      case 15: case 16: { SBP A = sb(ns, nd); VP x = vec(ns + nd), y = vec(ns + nd); Op o("sb_timesVec", {V(y), T(s_(*A)), D(d_(*A)), V(x)}, {b, a}); if(rng.coin()) A->timesVec(b, *y, a, *x); else A->transTimesVec(b, *y, a, *x); fin(o); break; }
      case 17: { SBP A = sb(ns, nd); int s = rng.below(3), q = s + ns + nd + rng.below(2); DP w = den(q, q); Op o("sb_addUT", {D(w), T(s_(*A)), D(d_(*A))}, {a}, {s}); A->addUpperTriangleToSymDenseMatrixUpperTriangle(s, a, *w); fin(o); break; }
      case 18: { SBP A = sb(ns, nd); Op o("md_maxabs", {T(s_(*A)), D(d_(*A))}); double v = A->max_abs_value(); fin(o, {sc::enc(v)}); Op q("md_new_copy", {T(s_(*A)), D(d_(*A))}); SBP B((hiopMatrixSymBlockDiagMDS*)A->new_copy()); for(auto& x : {T(s_(*B)), D(d_(*B))}) { q.a.push_back(x); q.r.pre.push_back(x.get()); } fin(q); break; }
      case 19: { SBP H = sb(ns, nd); int ex = rng.below(3); if(ns + ex == 0) break; int z = ns + s_(*H)->numberOfOffDiagNonzeros(); SBP A(new hiopMatrixSymBlockDiagMDS(ns + ex, nd, z, "DEFAULT")); std::vector<std::pair<int, int>> e; for(int q = 0; q < z; q++) e.push_back({0, 0}); fill(*A, e); VP x = vec(ns), y = vec(nd); auto ar = std::make_shared<Arr>(z, ns + ex, ns + ex); auto hd = std::make_shared<std::vector<double>>(nd * nd + 1, -7.); Opd HD = {'r', [hd, nd] { return dense(nd, nd, hd->data()); }};
        Op o("sb_setHessFR", {T(s_(*A)), D(d_(*A)), A3(ar, z), HD, T(s_(*H)), D(d_(*H)), V(x), V(y)}); A->set_Hess_FR(*H, ar->i.data(), ar->j.data(), ar->v.data(), hd->data(), *x, *y); fin(o); break; }
    }
  }
};
int main(int argc, char** argv) {
  mallopt(M_PERTURB, 0xA5); vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int count = atoi(argv[4]); if(argc > 5) R.only = argv[5];
  for(int s = 0; s < count; s++) {
    Rng g(seed * 1000003 + s + (mode == "mds" ? 77777 : mode == "csr" ? 155555 : 0)); uint64_t q = g.next();
    R.run("sparse-" + mode + "-" + std::to_string(s), J::obj().kv("P", 1).str(), [&] {
      Run p(q); for(int i = 0; i < 24; i++) { if(mode == "tri") { if(p.rng.coin(.2)) p.symm(); else if(p.rng.coin(.05)) p.jacFR(); else if(p.rng.coin(.05)) p.hessFR(); else p.tri(); } else if(mode == "csr") p.cs(); else p.mds(); }
      vh::ev(J::obj().kv("e", "end").kv("ok", p.W.all_done()).kv("why", ""));
    });
  }
  return 0;
}
