// Random programs over dense matrices (local and distributed by columns), every operation recorded with its operands.
// usage: dense OUT.ndjson MODE SEED COUNT [ONLY-ID]      MODE: seq | dist
#include "matops.h"
#include "hiopVectorPar.hpp"
#include "hiopMatrixDenseRowMajor.hpp"
#include "LinAlgFactory.hpp"
#include <mpi.h>
using namespace hiop;
using vh::J; using vh::Rng; using mo::Op; using mo::Opd; using mo::Loc;
typedef hiopMatrixDense Mat; typedef hiopVector Vec;

static Loc locm(Mat& A) { Loc l; l.m = A.m(); l.n = A.get_local_size_n(); double* p = A.local_data(); for(int i = 0; i < l.m; i++) { l.v.emplace_back(); for(int j = 0; j < l.n; j++) l.v.back().push_back(sc::enc(p[i * l.n + j])); } return l; }
static Loc locv(Vec& x) { Loc l; l.m = 1; l.n = x.get_local_size(); l.v.emplace_back(); for(int j = 0; j < l.n; j++) l.v.back().push_back(sc::enc(x.local_data_host_const()[j])); return l; }

struct Prog { int P; uint64_t seed; int nops; std::vector<index_type> part; mo::World W; };

struct Run {
  Prog& G; int r; Rng rng; int k = 0; bool D;
  Run(Prog& g, int rank) : G(g), r(rank), rng(g.seed), D(g.P > 1) {}
  char dk() { return D ? 'd' : 'r'; }
  double val() { return rng.range(-6, 6) / 2.; }
  double alpha() { static const double a[] = {1., -1., 0., 2., .5, -1.5}; return a[rng.below(6)]; }
  int sz(int cap = 4) { return rng.coin(.15) ? 0 : rng.range(1, cap); }
  // local or distributed matrix filled with random values (every rank draws the global matrix)
  Mat* mk(int m, int n, bool dist, int cap = -1) {
    Mat* A = LinearAlgebraFactory::create_matrix_dense(ExecSpaceInfo("DEFAULT"), m, n, dist ? G.part.data() : nullptr, dist ? MPI_COMM_WORLD : MPI_COMM_SELF, cap);
    fill(*A, n, dist);
    if(rng.coin(.3)) { Mat* B = rng.coin() ? A->new_copy() : A->alloc_clone(); if(r == 0) {} bool c = rng.coin(); (void)c; B->copyFrom(*A); delete A; A = B; }
    return A;
  }
  void fill(Mat& A, int n, bool dist, bool bad = false) {
    int lo = dist ? G.part[r] : 0, nl = A.get_local_size_n();
    for(int i = 0; i < A.m(); i++) for(int j = 0; j < n; j++) { double v = val(); if(bad && rng.coin(.1)) v = rng.coin() ? NAN : rng.coin() ? INFINITY : -INFINITY; if(j >= lo && j < lo + nl) A.local_data()[i * nl + j - lo] = v; }
  }
  Vec* mv(int n, bool dist, int kind = 0) {
    Vec* x = LinearAlgebraFactory::create_vector(ExecSpaceInfo("DEFAULT"), n, dist ? G.part.data() : nullptr, dist ? MPI_COMM_WORLD : MPI_COMM_SELF);
    int lo = dist ? G.part[r] : 0, nl = x->get_local_size();
    for(int j = 0; j < n; j++) { double v = kind == 1 ? std::ldexp(rng.coin() ? 1 : -1, rng.range(-1, 2)) : val(); if(j >= lo && j < lo + nl) x->local_data_host()[j - lo] = v; }
    return x;
  }
  Opd M(Mat* A, bool dist) { return {dist ? 'd' : 'r', [A] { return locm(*A); }}; }
  Opd V(Vec* A, bool dist) { return {dist ? 'd' : 'r', [A] { return locv(*A); }}; }
  void fin(Op& o, std::vector<long long> ret = {}) { o.done(G.W, k++, r, ret); }
  void step() {
    int n = D ? (int)G.part.back() : sz(), m = sz(), q = sz(); double a = alpha(), b = alpha();
    bool d = D;
    int op = rng.below(40);
    if(D) { static const int ok[] = {0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 33}; op = ok[rng.below(23)]; }
    std::vector<Mat*> dm; std::vector<Vec*> dv;
    auto mat = [&](int mm, int nn, bool dd, int cap = -1) { Mat* A = mk(mm, nn, dd, cap); dm.push_back(A); return A; };
    auto vec = [&](int nn, bool dd, int kind = 0) { Vec* A = mv(nn, dd, kind); dv.push_back(A); return A; };
    switch(op) {
      case 0: { Mat* A = mat(m, n, d, rng.coin() ? -1 : m + rng.below(3)); Op o("set", {M(A, d)}, {0.}); A->setToZero(); fin(o); break; }
      case 1: { Mat* A = mat(m, n, d, rng.coin() ? -1 : m + rng.below(3)); Op o("set", {M(A, d)}, {a}); A->setToConstant(a); fin(o); break; }
      case 2: { Mat *A = mat(m, n, d), *B = mat(m, n, d); Op o("copy", {M(A, d), M(B, d)}); int w = rng.below(3); if(w == 0) A->copyFrom(*B); else if(w == 1) { if(B->local_data()) A->copyFrom(B->local_data()); else A->copyFrom(*B); } else if(A->local_data() && B->local_data()) B->copy_to(A->local_data()); else A->copyFrom(*B); fin(o); break; }
      case 3: { int ex = rng.range(1, 3); Mat* A = mat(m, n, d, m + ex); for(int i = 0; i < ex; i++) { Vec* x = vec(n, d); Op o("appendRow", {M(A, d), V(x, d)}); A->appendRow(*x); fin(o); } Op o("dims", {M(A, d)}); fin(o, {A->m(), A->n(), A->get_local_size_n(), A->get_local_size_m()}); break; }
      case 4: { Mat *A = mat(m, n, d), *B = mat(q, n, d); int num = rng.range(0, std::min(m, q)), dst = rng.range(0, m - num); Op o("copyRows", {M(A, d), M(B, d)}, {}, {num, dst}); A->copyRowsFrom(*B, num, dst); fin(o); break; }
      case 5: { int s = m + rng.below(3); Mat *A = mat(m, n, d), *B = mat(s, n, d); std::vector<int> ix(m); for(auto& i : ix) i = rng.below(s); Op o("copyRowsIdx", {M(A, d), M(B, d)}, {}, ix); A->copyRowsFrom((const hiopMatrix&)*B, ix.data(), m); fin(o); break; }
      case 8: case 9: { m = rng.range(2, 5); Mat* A = mat(m, n, d); int s = rng.range(-m, m); Op o("shiftRows", {M(A, d)}, {}, {s}); A->shiftRows(s); fin(o); break; }
      case 10: { m = rng.range(1, 4); Mat* A = mat(m, n, d); Vec* x = vec(n, d); int i = rng.below(m); Op o("replaceRow", {M(A, d), V(x, d)}, {}, {i}); A->replaceRow(i, *x); fin(o); break; }
      case 11: { m = rng.range(1, 4); Mat* A = mat(m, n, d); Vec* x = vec(n, d); int i = rng.below(m); Op o("getRow", {M(A, d), V(x, d)}, {}, {i}); A->getRow(i, *x); fin(o); break; }
      case 12: case 13: case 14: { Mat* A = mat(m, n, d); Vec *x = vec(n, d), *y = vec(m, false); if(b == 0. && rng.coin()) for(int i = 0; i < m; i++) y->local_data_host()[i] = rng.coin() ? NAN : INFINITY; Op o("timesVec", {V(y, false), M(A, d), V(x, d)}, {b, a}); if(rng.coin()) A->timesVec(b, *y, a, *x); else A->timesVec(b, y->local_data(), a, x->local_data_const()); fin(o); break; }
      case 15: case 16: { Mat* A = mat(m, n, d); Vec *x = vec(m, false), *y = vec(n, d); Op o("transTimesVec", {V(y, d), M(A, d), V(x, false)}, {b, a}); if(rng.coin()) A->transTimesVec(b, *y, a, *x); else A->transTimesVec(b, y->local_data(), a, x->local_data_const()); fin(o); break; }
      case 17: case 18: { Mat *A = mat(m, n, d), *X = mat(q, n, d), *W = mat(m, q, false); bool same = rng.coin(.2); if(same) { X = A; W = mat(m, m, false); } Op o("timesMatTrans", {M(W, false), M(A, d), M(X, d)}, {b, a}); if(D || rng.coin()) A->timesMatTrans(b, *W, a, *X); else A->timesMatTrans_local(b, *W, a, *X); fin(o); break; }
      case 19: { Mat *A = mat(m, n, d), *B = mat(m, n, d); Op o("addMatrix", {M(A, d), M(B, d)}, {a}); A->addMatrix(a, *B); fin(o); break; }
      case 20: { Mat* A = mat(m, n, d); Op o("maxabs", {M(A, d)}); double v = A->max_abs_value(); fin(o, {sc::enc(v)}); break; }
      case 21: { Mat* A = mat(m, n, d); Vec* x = vec(m, false); Op o("rowmaxabs", {V(x, false), M(A, d)}); A->row_max_abs_value(*x); fin(o); break; }
      case 22: { Mat* A = mat(m, n, d); bool inv = rng.coin(); Vec* x = vec(m, false, 1); Op o(inv ? "scale_row_inv" : "scale_row", {M(A, d), V(x, false)}); A->scale_row(*x, inv); fin(o); break; }
      case 23: { Mat* A = mat(m, n, d); bool bad = rng.coin(); if(bad) fill(*A, n, d, true); Op o(D ? "isfinite_local" : "isfinite", {M(A, d)}); bool v = A->isfinite(); fin(o, {v}); break; }
      // ---- local matrices only
      case 24: case 25: { int nn = sz(); Mat *B = mat(sz(), nn, false); int i0 = rng.range(0, 2), j0 = rng.range(0, 2); Mat* A = mat(B->m() + i0 + rng.below(2), B->n() + j0 + rng.below(2), false); Op o("copyBlock", {M(A, false), M(B, false)}, {}, {i0, j0}); A->copyBlockFromMatrix(i0, j0, *B); fin(o); break; }
      case 26: case 27: { Mat *A = mat(rng.range(1, 3), rng.range(1, 3), false); int i0 = rng.range(0, 2), j0 = rng.range(0, 2); Mat* B = mat(A->m() + i0 + rng.below(2), A->n() + j0 + rng.below(2), false); Op o("copyFromBlock", {M(A, false), M(B, false)}, {}, {i0, j0}); A->copyFromMatrixBlock(*B, i0, j0); fin(o); break; }
      case 28: { n = std::max(1, sz()); Mat *A = mat(n, n, false), *B = mat(n, n, false); Vec* x = vec(n, false); Op o("setHessFR", {M(A, false), M(B, false), V(x, false)}); A->set_Hess_FR(*B, *x); fin(o); break; }
      case 29: { n = sz(); Mat *C = mat(m, n, false), *E = mat(q, n, false), *A = mat(m + q, n + 2 * m + 2 * q, false); Op o("setJacFR", {M(A, false), M(C, false), M(E, false)}); A->set_Jac_FR(*C, *E); fin(o); break; }
      case 30: { Mat* A = mat(n, n, false); int w = rng.below(3); Op o(w == 0 ? "lowToUp" : "upToLow", {M(A, false)}); if(w == 0) A->overwriteUpperTriangleWithLower(); else if(w == 1) A->overwriteLowerTriangleWithUpper(); else A->symmetrize(); fin(o); break; }
      case 31: case 32: { Mat *A = mat(m, n, false), *X = mat(n, q, false), *W = mat(m, q, false); Op o("timesMat", {M(W, false), M(A, false), M(X, false)}, {b, a}); if(rng.coin() || n == 0 || q == 0 || m == 0) A->timesMat(b, *W, a, *X); else A->timesMat_local(b, *W, a, *X); fin(o); break; }
      case 33: { if(D) { q = (int)G.part.back(); n = sz(); } Mat *A = mat(m, n, false), *X = mat(m, q, d), *W = mat(n, q, d); Op o("transTimesMat", {M(W, d), M(A, false), M(X, d)}, {b, a}); A->transTimesMat(b, *W, a, *X); fin(o); break; }
      case 34: { Mat* A = mat(n, n, false); Vec* x = vec(n, false); if(rng.coin()) { Op o("addDiag", {M(A, false), V(x, false)}, {a}); A->addDiagonal(a, *x); fin(o); } else { Op o("addDiagC", {M(A, false)}, {a}); A->addDiagonal(a); fin(o); } break; }
      case 35: { n = rng.range(1, 5); Mat* A = mat(n, n, false); int s = rng.below(n), l = rng.range(0, n - s); Vec* x = vec(l, false); Op o("addSubDiag", {M(A, false), V(x, false)}, {a}, {s, 0, l}); A->addSubDiagonal(a, s, *x); fin(o); break; }
      case 36: { n = rng.range(1, 5); Mat* A = mat(n, n, false); int s = rng.below(n); int l = rng.range(0, 5); Vec* x = vec(l, false); int s2 = rng.range(0, l), num = rng.coin(.4) ? -1 : rng.range(0, l - s2); int eff = std::min(num < 0 ? l - s2 : num, n - s); Op o("addSubDiag", {M(A, false), V(x, false)}, {a}, {s, s2, eff}); A->addSubDiagonal(s, a, *x, s2, num); fin(o); break; }
      case 37: { n = rng.range(1, 5); Mat* A = mat(n, n, false); int s = rng.below(n), num = rng.range(0, n - s); Op o("addSubDiagC", {M(A, false)}, {a}, {s, num}); A->addSubDiagonal(s, num, a); fin(o); break; }
      case 38: { int r0 = rng.below(2), c0 = r0 + n + rng.below(2); Mat *A = mat(m, n, false), *W = mat(c0 + m, c0 + m, false); c0 = c0 + (m ? 0 : 0); Op o("transAddUT", {M(W, false), M(A, false)}, {a}, {r0, c0}); A->transAddToSymDenseMatrixUpperTriangle(r0, c0, a, *W); fin(o); break; }
      case 39: { int d0 = rng.below(3); Mat *A = mat(n, n, false), *W = mat(n + d0 + rng.below(2), 0, false); int w = W->m(); W = mat(w, w, false); Op o("addUT", {M(W, false), M(A, false)}, {a}, {d0}); A->addUpperTriangleToSymDenseMatrixUpperTriangle(d0, a, *W); fin(o); break; }
    }
    for(auto* x : dm) delete x; for(auto* x : dv) delete x;
  }
};

int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int count = atoi(argv[4]); if(argc > 5) R.only = argv[5];
  for(int s = 0; s < count; s++) {
    Rng g(seed * 1000003 + s); Prog G; G.P = mode == "seq" ? 1 : g.range(2, 4); G.W.P = G.P; G.seed = g.next(); G.nops = 30;
    G.part = {0}; for(int i = 0; i < G.P; i++) G.part.push_back(G.part.back() + (g.coin(.3) ? 0 : g.range(0, 3)));
    std::string id = "dense-" + mode + "-" + std::to_string(seed) + "-" + std::to_string(s);
    fm::Config fc; fc.P = G.P; fc.seed = g.next(); fc.policy = g.below(4);
    std::vector<int> own; for(int r = 0; r < G.P; r++) for(int j = G.part[r]; j < G.part[r + 1]; j++) own.push_back(r);
    R.run(id, J::obj().kv("P", G.P).raw("own", vh::jints(own)).str(), [&] {
      fm::Result res = fm::run(fc, [&](int r) { Run p(G, r); for(int i = 0; i < G.nops; i++) p.step(); });
      vh::ev(J::obj().kv("e", "end").kv("ok", res.ok && G.W.all_done()).kv("why", res.why));
    });
  }
  return 0;
}
