// Kron reduction of complex symmetric networks with integer data and a known result, and complex sparse/dense operations.
// usage: kron OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: red | ops
#include "common.h"
#include <complex>
#include <cmath>
#include "hiopKronReduction.hpp"
#include "hiopMatrixComplexSparseTriplet.hpp"
#include "hiopMatrixComplexDense.hpp"
using namespace hiop; using vh::J; using vh::Rng;
typedef long long L; typedef std::complex<double> C;
static const L BAD = 1000003;
struct Z { L a = 0, b = 0; };
static Z operator+(Z x, Z y) { return {x.a + y.a, x.b + y.b}; }
static Z operator*(Z x, Z y) { return {x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a}; }
static Z operator-(Z x) { return {-x.a, -x.b}; }
static Z zi(C v) { double u = std::round(v.real()), w = std::round(v.imag()); auto ok = [](double x, double y) { return std::isfinite(x) && std::fabs(x) < 1e8 && std::fabs(x - y) < 1e-4; };
  return {ok(v.real(), u) ? (L)u : BAD, ok(v.imag(), w) ? (L)w : BAD}; }
static std::string zs(const std::vector<Z>& v) { std::vector<L> w; for(auto& z : v) { w.push_back(z.a); w.push_back(z.b); } return vh::jints(w); }
static Z gauss(Rng& r, int k, bool real) { return {r.range(-k, k), real ? 0 : r.range(-k, k)}; }
struct Net { int n, a, b; std::vector<int> non, aux; std::vector<Z> Y, Xm, z; int sing = 0; };
static Net net(Rng& r) {
  Net N; N.a = r.coin(0.05) ? 0 : r.range(1, 4); N.b = r.coin(0.05) ? 0 : r.range(1, 4 + r.below(2)); int a = N.a, b = N.b; int left = r.coin(0.2) ? r.range(1, 2) : 0; N.n = a + b + left;
  std::vector<int> kind; for(int i = 0; i < a; i++) kind.push_back(0); for(int i = 0; i < b; i++) kind.push_back(1); for(int i = 0; i < left; i++) kind.push_back(2);
  for(int i = N.n - 1; i > 0; i--) std::swap(kind[i], kind[r.below(i + 1)]);
  for(int i = 0; i < N.n; i++) if(kind[i] == 0) N.non.push_back(i); else if(kind[i] == 1) N.aux.push_back(i);
  bool real = r.coin(0.2); double dens = r.coin() ? 0.4 : 0.8; int want = b > 0 && r.coin(0.25) ? 1 + r.below(4) : 0;
  std::vector<Z> Lo(b * b), D(b), B(b * b), X(b * a), Yba(b * a); N.z.assign(b, Z{});
  for(int i = 0; i < b; i++) { Lo[i * b + i] = {1, 0}; for(int j = 0; j < i; j++) if(want != 1 && r.coin(dens)) Lo[i * b + j] = gauss(r, 1, real); }
  for(int i = 0; i < b; i++) { do D[i] = gauss(r, 3, real); while(D[i].a == 0 && D[i].b == 0); }
  int k = b ? r.below(b) : 0;
  if(want == 1 || want == 4) { D[k] = {0, 0}; N.sing = want == 1 ? 1 : 2; }
  for(int i = 0; i < b; i++) for(int j = 0; j < b; j++) for(int q = 0; q < b; q++) B[i * b + j] = B[i * b + j] + Lo[i * b + q] * D[q] * Lo[j * b + q];
  if(want == 1) N.z[k] = {1, 0};
  if(want == 4) { for(int i = b - 1; i >= 0; i--) { Z s = {i == k ? 1 : 0, 0}; for(int q = i + 1; q < b; q++) s = s + -(Lo[q * b + i] * N.z[q]); N.z[i] = s; } }
  if(want == 2) { for(int j = 0; j < b; j++) B[k * b + j] = B[j * b + k] = Z{}; N.z[k] = {1, 0}; N.sing = 1; }
  if(want == 3) { // two identical buses, real network with power-of-two values
    if(b < 2) { B[0] = Z{}; N.z[0] = {1, 0}; } else { int q = (k + 1) % b; for(auto& v : B) { v.b = 0; if(v.a) v.a = v.a > 0 ? 1 : -1; } for(int j = 0; j < b; j++) if(j != q && j != k) B[q * b + j] = B[j * b + q] = B[k * b + j]; 
      B[q * b + q] = B[q * b + k] = B[k * b + q] = B[k * b + k]; N.z[k] = {1, 0}; N.z[q] = {-1, 0}; } N.sing = 1; }
  if(N.sing) for(auto& v : Yba) { if(r.coin(dens)) v = gauss(r, 2, real); }
  else { for(auto& v : X) if(r.coin(dens)) v = gauss(r, 2, real); for(int i = 0; i < b; i++) for(int j = 0; j < a; j++) for(int q = 0; q < b; q++) Yba[i * a + j] = Yba[i * a + j] + -(B[i * b + q] * X[q * a + j]); }
  N.Xm = X; N.Y.assign(N.n * N.n, Z{});
  for(int i = 0; i < N.n; i++) for(int j = 0; j <= i; j++) if(r.coin(dens)) N.Y[i * N.n + j] = N.Y[j * N.n + i] = gauss(r, 5, real);
  for(int i = 0; i < b; i++) for(int j = 0; j < b; j++) N.Y[N.aux[i] * N.n + N.aux[j]] = B[i * b + j];
  for(int i = 0; i < b; i++) for(int j = 0; j < a; j++) N.Y[N.aux[i] * N.n + N.non[j]] = N.Y[N.non[j] * N.n + N.aux[i]] = Yba[i * a + j];
  return N;
}
struct Tri { std::vector<int> i, j; std::vector<C> v; };
// the entries of a dense integer matrix as triplets: explicit zeros, and (when the storage is sorted and summed afterwards) any order and duplicates
static hiopMatrixComplexSparseTriplet* sparse(Rng& r, int m, int n, const std::vector<Z>& A, double sc, bool upper, bool sorted, Tri* out = nullptr) {
  Tri t; auto push = [&](int i, int j, Z z) { t.i.push_back(i); t.j.push_back(j); t.v.push_back(C(z.a * sc, z.b * sc)); };
  for(int i = 0; i < m; i++) for(int j = upper ? i : 0; j < n; j++) { Z z = A[i * n + j]; if(z.a == 0 && z.b == 0 && !r.coin(0.1)) continue;
    if(!sorted && r.coin(0.15)) { Z w = gauss(r, 3, false); push(i, j, w); push(i, j, z + -w); } else push(i, j, z); }
  int nnz = t.i.size();
  if(!sorted) for(int q = nnz - 1; q > 0; q--) { int s = r.below(q + 1); std::swap(t.i[q], t.i[s]); std::swap(t.j[q], t.j[s]); std::swap(t.v[q], t.v[s]); }
  auto* M = new hiopMatrixComplexSparseTriplet(m, n, nnz); M->copyFrom(t.i.data(), t.j.data(), t.v.data());
  if(!sorted) { M->storage()->sort_indexes(); M->storage()->sum_up_duplicates(); }
  if(out) { out->i.clear(); out->j.clear(); out->v.clear(); auto* s = M->storage(); for(int q = 0; q < s->numberOfNonzeros(); q++) { out->i.push_back(s->i_row()[q]); out->j.push_back(s->j_col()[q]); out->v.push_back(s->M()[q]); } }
  return M;
}
static bool same(const hiopMatrixComplexSparseTriplet& M, const Tri& t, int m, int n) {
  auto* s = M.storage(); if(s->m() != m || s->n() != n || s->numberOfNonzeros() != (int)t.i.size()) return false;
  for(size_t q = 0; q < t.i.size(); q++) if(s->i_row()[q] != t.i[q] || s->j_col()[q] != t.j[q] || s->M()[q] != t.v[q]) return false;
  return true;
}
static void red(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 7000003ull + i * 709ull + 3); int calls = r.range(1, 3);
  R.run("red-" + std::to_string(i), J::obj().kv("k", 0).str(), [&]() {
    hiopKronReduction* kr = new hiopKronReduction();
    for(int q = 0; q < calls; q++) {
      Net N = net(r); double sc = r.coin() ? 1. : std::ldexp(1., r.range(-20, 20)); bool sorted = r.coin(); Tri t;
      auto* Y = sparse(r, N.n, N.n, N.Y, sc, false, sorted, &t);
      hiopMatrixComplexDense out(N.a, N.a); for(int p = 0; p < N.a; p++) for(int s = 0; s < N.a; s++) out.get_M()[p][s] = C(7e5, r.coin() ? 0 : -3.);
      auto non = N.non, aux = N.aux;
      bool ok = kr->go(N.non, N.aux, *Y, out); bool kept = same(*Y, t, N.n, N.n) && non == N.non && aux == N.aux;
      J e = J::obj().kv("e", "go").kv("n", N.n).raw("non", vh::jints(N.non)).raw("aux", vh::jints(N.aux)).raw("Y", zs(N.Y)).raw("z", zs(N.z)).kv("sing", N.sing).kv("ok", ok ? 1 : 0).kv("kept", kept ? 1 : 0);
      if(ok && N.sing == 0) {
        std::vector<Z> Rr, Mp; for(int p = 0; p < N.a; p++) for(int s = 0; s < N.a; s++) Rr.push_back(zi(out.get_M()[p][s] / sc));
        const auto& mp = kr->map_nonaux_to_aux(); bool dims = mp.m() == N.b && mp.n() == N.a;
        if(dims) for(int p = 0; p < N.b; p++) for(int s = 0; s < N.a; s++) Mp.push_back(zi(mp.local_data()[p][s]));
        e.kv("dims", dims ? 1 : 0).raw("R", zs(Rr)).raw("M", zs(Mp)).raw("X", zs(N.Xm));
        vh::ev(e);
        int na = r.range(0, 2);
        for(int k = 0; k < na; k++) { std::vector<Z> v; std::vector<C> vin, vout; for(int s = 0; s < N.a; s++) { v.push_back(gauss(r, 4, false)); vin.push_back(C(v[s].a, v[s].b)); } for(int s = 0; s < N.b; s++) vout.push_back(C(1e4, std::nan("")));
          auto keep = vin; bool g = kr->apply_nonaux_to_aux(vin, vout); std::vector<Z> w; for(auto& c : vout) w.push_back(zi(c));
          vh::ev(J::obj().kv("e", "apply").kv("ok", g ? 1 : 0).kv("kept", keep == vin ? 1 : 0).raw("v", zs(v)).raw("w", zs(w))); }
      } else vh::ev(e);
      delete Y;
    }
    delete kr;
    vh::ev(J::obj().kv("e", "end"));
  });
}
static std::vector<Z> rnd(Rng& r, int len, double dens, int k = 5) { std::vector<Z> v(len); for(auto& z : v) if(r.coin(dens)) z = gauss(r, k, false); return v; }
static std::vector<Z> meaning(const hiopMatrixComplexSparseTriplet& M) { int m = M.m(), n = M.n(); std::vector<C> d(m * n); auto* s = M.storage();
  for(int q = 0; q < s->numberOfNonzeros(); q++) { if(s->i_row()[q] < 0 || s->i_row()[q] >= m || s->j_col()[q] < 0 || s->j_col()[q] >= n) return std::vector<Z>(m * n, Z{BAD, BAD}); d[s->i_row()[q] * n + s->j_col()[q]] += s->M()[q]; }
  std::vector<Z> z; for(auto& c : d) z.push_back(zi(c)); return z; }
static std::vector<Z> meaning(const hiopMatrixComplexDense& M) { std::vector<Z> z; for(int i = 0; i < M.m(); i++) for(int j = 0; j < M.n(); j++) z.push_back(zi(M.local_data()[i][j])); return z; }
static void fill(hiopMatrixComplexDense& M, const std::vector<Z>& A) { for(int i = 0; i < M.m(); i++) for(int j = 0; j < M.n(); j++) M.get_M()[i][j] = C(A[i * M.n() + j].a, A[i * M.n() + j].b); }
static std::vector<int> subset(Rng& r, int n) { std::vector<int> s; double p = r.coin(0.2) ? 1. : r.coin(0.2) ? 0.2 : 0.6; for(int i = 0; i < n; i++) if(r.coin(p)) s.push_back(i); return s; }
static void ops(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 8000009ull + i * 811ull + 1); static const char* OPS[] = {"slice", "slicesym", "symtosym", "stimes", "stransmat", "dtimes", "daddsparse", "daddupper", "dadd", "dneg", "dcopyrows", "dcopy", "smax", "dmax", "sconst", "dconst"};
  const char* op = OPS[i % 16]; std::string o = op; int m = r.coin(0.08) ? 0 : r.range(1, 5), n = r.coin(0.08) ? 0 : r.range(1, 5); double dens = r.coin() ? 0.3 : 0.8;
  R.run("ops-" + o + "-" + std::to_string(i), J::obj().kv("op", op).str(), [&]() {
    J e = J::obj().kv("e", "op").kv("op", op);
    bool sq = o == "slicesym" || o == "symtosym" || o == "daddsparse" || o == "daddupper"; if(sq) n = m;
    bool upper = o == "slicesym" || o == "symtosym" || o == "daddupper"; 
    std::vector<Z> A = rnd(r, m * n, dens); if(upper) for(int p = 0; p < m; p++) for(int q = 0; q < p; q++) A[p * n + q] = Z{};
    C al(r.range(-2, 3), o[0] == 's' ? 0 : r.range(-2, 2)), be(r.range(-2, 2), o[0] == 's' ? 0 : r.range(-1, 1)); if(r.coin(0.3)) be = 0;
    std::vector<Z> x, y, out, in2; std::vector<int> ri, ci; Tri t; bool kept = true;
    if(o == "slice" || o == "slicesym" || o == "symtosym" || o == "stimes" || o == "stransmat" || o == "smax" || o == "sconst") {
      auto* M = sparse(r, m, n, A, 1., upper, r.coin(), &t);
      if(o == "slice" || o == "slicesym") { ri = subset(r, m); ci = subset(r, n); auto* S = o == "slice" ? M->new_slice(ri.data(), ri.size(), ci.data(), ci.size()) : M->new_sliceFromSym(ri.data(), ri.size(), ci.data(), ci.size()); out = meaning(*S); kept = (int)S->m() == (int)ri.size() && (int)S->n() == (int)ci.size(); delete S; }
      if(o == "symtosym") { ri = ci = subset(r, m); auto* S = M->new_sliceFromSymToSym(ri.data(), ri.size()); out = meaning(*S); kept = (int)S->m() == (int)ri.size() && (int)S->n() == (int)ri.size(); delete S; }
      if(o == "stimes") { x = rnd(r, n, 0.8); y = rnd(r, m, 0.8); std::vector<C> xv, yv; for(auto& z : x) xv.push_back(C(z.a, z.b)); for(auto& z : y) yv.push_back(be == 0. && r.coin() ? C(std::nan(""), 1) : C(z.a, z.b)); xv.push_back(0); yv.push_back(0);
        M->timesVec(be.real(), yv.data(), al.real(), xv.data()); for(int q = 0; q < m; q++) out.push_back(zi(yv[q])); }
      if(o == "stransmat") { int k = r.coin(0.1) ? 0 : r.range(1, 3); x = rnd(r, m * k, 0.8); y = rnd(r, n * k, 0.8); hiopMatrixComplexDense W(n, k), X(m, k); fill(X, x); fill(W, y); ci.assign(k, 0); M->transTimesMat(be.real(), W, al.real(), X); out = meaning(W); kept = zs(meaning(X)) == zs(x); }
      if(o == "smax") { double v = M->max_abs_value(); out = {zi(C(v * v, 0))}; }
      if(o == "sconst") { Z c = gauss(r, 4, r.coin()); x = {c}; if(c.b == 0) M->setToConstant((double)c.a); else M->setToConstant(C(c.a, c.b)); for(auto& z : A) z = Z{}; for(size_t q = 0; q < t.i.size(); q++) A[t.i[q] * n + t.j[q]] = {1, 0}; for(auto& v : t.v) v = C(c.a, c.b); out = meaning(*M); }
      kept = kept && same(*M, t, m, n); delete M;
    } else {
      int mx = r.coin(0.3) ? m + r.range(0, 2) : -1; hiopMatrixComplexDense D(m, n, nullptr, MPI_COMM_SELF, mx); fill(D, A);
      if(o == "dtimes") { x = rnd(r, n, 0.8); y = rnd(r, m, 0.8); std::vector<C> xv, yv; for(auto& z : x) xv.push_back(C(z.a, z.b)); for(auto& z : y) yv.push_back(C(z.a, z.b)); xv.push_back(0); yv.push_back(0); D.timesVec(be, yv.data(), al, xv.data()); for(int q = 0; q < m; q++) out.push_back(zi(yv[q])); kept = zs(meaning(D)) == zs(A); }
      if(o == "daddsparse" || o == "daddupper") { in2 = rnd(r, m * m, dens); if(upper) for(int p = 0; p < m; p++) for(int q = 0; q < p; q++) in2[p * m + q] = Z{}; if(upper) A = rnd(r, m * m, 0.8); fill(D, A); auto* S = sparse(r, m, m, in2, 1., upper, r.coin(), &t); if(upper) D.addSparseSymUpperTriangleToSymDenseMatrixUpperTriangle(al, *S); else D.addSparseMatrix(al, *S); out = meaning(D); kept = same(*S, t, m, m); delete S; }
      if(o == "dadd") { in2 = rnd(r, m * n, dens); hiopMatrixComplexDense S(m, n, nullptr, MPI_COMM_SELF, mx); fill(S, in2); if(al.imag() == 0) D.addMatrix(al.real(), S); else D.addMatrix(al, S); out = meaning(D); kept = zs(meaning(S)) == zs(in2); }
      if(o == "dneg") { D.negate(); out = meaning(D); }
      if(o == "dcopyrows") { int k = r.range(0, m); for(int q = 0; q < k; q++) ri.push_back(r.below(m)); hiopMatrixComplexDense T(k, n); std::vector<int> idx = ri; idx.push_back(0); T.copyRowsFrom(D, idx.data(), k); out = meaning(T); kept = zs(meaning(D)) == zs(A); }
      if(o == "dcopy") { int w = r.below(3); hiopMatrixComplexDense* T = w == 0 ? D.new_copy() : new hiopMatrixComplexDense(m, n, nullptr, MPI_COMM_SELF, mx); if(w == 1) T->copyFrom(D); if(w == 2 && m * n > 0) { std::vector<C> b; for(auto& z : A) b.push_back(C(z.a, z.b)); T->copyFrom(b.data()); }
        fill(D, rnd(r, m * n, 1.)); out = meaning(*T); delete T; }
      if(o == "dmax") { double v = D.max_abs_value(); out = {zi(C(v * v, 0))}; }
      if(o == "dconst") { Z c = gauss(r, 4, r.coin()); x = {c}; C cc(c.a, c.b); if(c.a == 0 && c.b == 0) D.setToZero(); else if(c.b == 0) D.setToConstant((double)c.a); else D.setToConstant(cc); out = meaning(D); }
    }
    vh::ev(e.kv("m", m).kv("n", n).raw("A", zs(A)).raw("B", zs(in2)).raw("x", zs(x)).raw("y", zs(y)).raw("al", vh::jints(std::vector<L>{(L)al.real(), (L)al.imag()})).raw("be", vh::jints(std::vector<L>{(L)be.real(), (L)be.imag()}))
      .raw("ri", vh::jints(ri)).raw("ci", vh::jints(ci)).raw("out", zs(out)).kv("kept", kept ? 1 : 0));
    vh::ev(J::obj().kv("e", "end"));
  });
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) R.only = argv[5];
  for(int i = 0; i < N; i++) if(mode == "red") red(R, seed, i); else ops(R, seed, i);
  return 0;
}
