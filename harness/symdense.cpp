// Dense symmetric solver: sequences of factorizations and solves of matrices with a known decomposition.
// usage: symdense OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: seq
#include "ipmgen.h"
#include "hiopLinSolverSymDenseLapack.hpp"
#include "LinAlgFactory.hpp"
typedef long long L;
struct Dec { int n; std::vector<L> Lo, A; std::vector<std::vector<L>> D; std::vector<int> perm; bool sing = false; };
// P' (L D L') P with L unit lower triangular and D block diagonal: blocks [a] or [a,b,c] for the matrix [a b; b c]
static Dec dec(Rng& r, int n, bool wantsing) {
  Dec d; d.n = n; bool plain = wantsing && r.coin(); d.Lo.assign(n * n, 0); d.A.assign(n * n, 0);
  for(int i = 0; i < n; i++) { d.Lo[i * n + i] = 1; for(int j = 0; j < i; j++) d.Lo[i * n + j] = !plain && r.coin(0.6) ? (n > 5 ? r.range(-1, 1) : r.range(-2, 2)) : 0; }
  std::vector<L> B(n * n, 0); int style = r.below(4);
  for(int i = 0; i < n;) {
    if(i + 1 < n && r.coin(style == 0 ? 0.8 : 0.35)) {
      L a = r.coin() ? 0 : r.range(-3, 3), c = r.coin() ? 0 : r.range(-3, 3), b = r.range(-3, 3); if(a * c - b * b == 0) b = std::abs(b) + 4;
      d.D.push_back({a, b, c}); B[i * n + i] = a; B[i * n + i + 1] = B[(i + 1) * n + i] = b; B[(i + 1) * n + i + 1] = c; i += 2;
    } else { L a = r.range(1, 5); if(style == 1 ? false : style == 2 ? true : r.coin()) a = -a; d.D.push_back({a}); B[i * n + i] = a; i++; }
  }
  if(wantsing) { size_t k = r.below((int)d.D.size()); d.sing = true; int at = 0; for(size_t q = 0; q < k; q++) at += d.D[q].size() == 1 ? 1 : 2;
    if(d.D[k].size() == 1) { d.D[k][0] = 0; B[at * n + at] = 0; } else { d.D[k] = {1, 1, 1}; B[at * n + at] = B[at * n + at + 1] = B[(at + 1) * n + at] = B[(at + 1) * n + at + 1] = 1; } }
  for(int i = 0; i < n; i++) d.perm.push_back(i);
  if(r.coin(0.7)) for(int i = n - 1; i > 0; i--) std::swap(d.perm[i], d.perm[r.below(i + 1)]);
  for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { L s = 0; for(int k = 0; k < n; k++) for(int q = 0; q < n; q++) s += d.Lo[i * n + k] * B[k * n + q] * d.Lo[j * n + q]; d.A[d.perm[i] * n + d.perm[j]] = s; }
  return d;
}
static void scenario(vh::Runner& R, uint64_t seed, int i) {
  Rng r(seed * 6000011ull + i * 613ull + 5); int n = r.coin(0.03) ? 0 : r.coin(0.05) ? 1 : r.range(2, 7); int calls = r.range(1, 5);
  np::Gen g; g.n = 2; g.neq = 1; g.nin = 0; Prob p = np::gen(r, g);
  R.run("seq-" + std::to_string(i), J::obj().kv("n", n).str(), [&]() {
    iw::Sess s(p); s.quiet = true; s.create({});
    hiopLinSolverSymDenseLapack ls(n, s.nlp);
    for(int q = 0; q < calls; q++) {
      Dec d = dec(r, n, n > 0 && r.coin(0.2)); std::vector<double> sc(n, 1.); bool scaled = !d.sing && r.coin(0.5); double all = scaled && r.coin(0.5) ? std::ldexp(1., r.range(-12, 12)) : 1;
      if(scaled) for(auto& v : sc) v = std::ldexp(1., r.range(-6, 6));
      double* M = ls.sysMatrix().local_data(); bool junk = r.coin(0.7);
      for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) M[a * n + b] = a <= b || !junk ? d.A[a * n + b] * sc[a] * sc[b] * all : 1e3 * (r.below(7) - 3);
      J D = J::arr(); for(auto& v : d.D) D.addraw(vh::jints(v));
      int ret = ls.matrixChanged();
      vh::ev(J::obj().kv("e", "fact").raw("L", vh::jints(d.Lo)).raw("D", D.str()).raw("p", vh::jints(d.perm)).raw("A", vh::jints(d.A)).kv("ret", ret));
      if(ret < 0) continue;
      int ns = r.range(0, 3); auto v = LinearAlgebraFactory::create_vector("DEFAULT", n);
      for(int k = 0; k < ns; k++) {
        std::vector<L> xs(n), b(n, 0), x(n); for(auto& t : xs) t = r.range(-4, 4);
        for(int a = 0; a < n; a++) for(int c = 0; c < n; c++) b[a] += d.A[a * n + c] * xs[c];
        // (all S A S) y = all S b   has   y = S^-1 x
        for(int a = 0; a < n; a++) v->local_data()[a] = b[a] * sc[a] * all;
        bool ok = ls.solve(*v);
        for(int a = 0; a < n; a++) { double t = v->local_data()[a] * sc[a], u = std::round(t); x[a] = std::fabs(t - u) <= 0.2 ? (L)u : 1000003; }
        vh::ev(J::obj().kv("e", "solve").kv("ok", ok ? 1 : 0).raw("b", vh::jints(b)).raw("x", vh::jints(x)));
      }
      delete v;
    }
    vh::ev(J::obj().kv("e", "end"));
  });
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) R.only = argv[5];
  for(int i = 0; i < N; i++) scenario(R, seed, i);
  return 0;
}
