// The quasi-Newton matrix inside the solver (P10): at every iterate callback the matrix is explained by candidate memories over the
// iterates seen so far.
// usage: lbipm OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: ipm
#include "ipmgen.h"
#include "hiopHessianLowRank.hpp"
typedef long double R; typedef std::vector<R> W; typedef std::vector<int> I;
struct Pair { V s, y; double sty = 0, ss = 0, yy = 0, noise = 0; int cls = 0; };   // cls: 1 curvature, 0 none, 2 too close to the threshold
static double dot(const V& a, const V& b) { long double s = 0; for(size_t i = 0; i < a.size(); i++) s += (long double)a[i] * b[i]; return (double)s; }
static double nrm(const V& a) { return std::sqrt(dot(a, a)); }
struct It { V x, g, jc, jd, yc, yd; };
static Pair mk(const It& a, const It& b) {
  Pair p; size_t n = a.x.size(); double big = 0; p.s.resize(n); p.y.resize(n); double sinf = 0;
  for(size_t i = 0; i < n; i++) { p.s[i] = b.x[i] - a.x[i]; sinf = std::max(sinf, std::fabs(p.s[i])); long double t = (long double)b.g[i] - a.g[i]; double m = std::fabs(b.g[i]) + std::fabs(a.g[i]);
    for(size_t k = 0; k < b.yc.size(); k++) { t += ((long double)b.jc[k * n + i] - a.jc[k * n + i]) * b.yc[k]; m += (std::fabs(b.jc[k * n + i]) + std::fabs(a.jc[k * n + i])) * std::fabs(b.yc[k]); }
    for(size_t k = 0; k < b.yd.size(); k++) { t += ((long double)b.jd[k * n + i] - a.jd[k * n + i]) * b.yd[k]; m += (std::fabs(b.jd[k * n + i]) + std::fabs(a.jd[k * n + i])) * std::fabs(b.yd[k]); }
    p.y[i] = (double)t; big = std::max(big, m); }
  p.sty = dot(p.s, p.y); p.ss = dot(p.s, p.s); p.yy = dot(p.y, p.y); double ny = std::sqrt(p.yy), ns = std::sqrt(p.ss), th = std::sqrt(2.220446049250313e-16); p.noise = ny > 0 ? 1e-15 * big * std::sqrt((double)n) / ny : 1;
  double r = ns > 0 && ny > 0 ? p.sty / ns / ny : 0; double e = 2 * p.noise + 1e-14;
  p.cls = sinf < 2e-14 ? 0 : sinf < 2.5e-14 ? 2 : r > 1.01 * th + e ? 1 : r < 0.99 * th - e ? 0 : 2; if(ns > 0 && ny == 0) p.cls = 0;
  return p;
}
static void scenario(vh::Runner& Rn, uint64_t seed, int i) {
  Rng r(seed * 3000017ull + i * 1009ull + 11); np::Gen g = rnd_gen(r, "basic", false); auto o = rnd_opts(r, false, "basic"); Prob p = np::gen(r, g);
  if(r.coin(0.5)) { o.push_back(O("secant_memory_len", pick(r, {"0", "1", "2", "3", "5"}))); } bool every = r.coin(0.3); (void)every; uint64_t qs = r.next();
  Rn.run("ipm-" + std::to_string(i), J::obj().kv("n", p.n).str(), [&]() {
    Sess s(p); s.quiet = true; s.create(o); std::vector<It> its; std::vector<Pair> ps(1); Rng q(qs); bool lost = false;
    int lmax = s.nlp->options->GetInteger("secant_memory_len"); std::string strat = s.nlp->options->GetString("sigma_update_strategy"); double s0 = s.nlp->options->GetNumeric("sigma0");
    vh::ev(J::obj().kv("e", "new").kv("lmax", lmax).kv("fixed", strat == "sigma0" ? 1 : 0));
    s.u->hook = [&](int k) {
      hiopIterate* it = s.alg->get_it_curr(); It c; c.x = vec(it->get_x()); size_t n = c.x.size(); c.yc = vec(it->get_yc()); c.yd = vec(it->get_yd());
      std::unique_ptr<hiopVector> gr(s.nlp->alloc_primal_vec()), a(s.nlp->alloc_primal_vec()), b(s.nlp->alloc_primal_vec()); s.nlp->eval_grad_f(*it->get_x(), true, *gr); c.g = vec(gr.get());
      auto jm = [&](hiopMatrix* M) { auto* D = dynamic_cast<hiopMatrixDense*>(M); V v(D->local_data(), D->local_data() + (size_t)D->m() * n); return v; }; c.jc = jm(s.alg->get_Jac_c()); c.jd = jm(s.alg->get_Jac_d());
      // the matrix has seen the iterates before this one
      int K = its.size(); if((int)ps.size() < K) { vh::ev(J::obj().kv("e", "lost")); return; }
      if(lost) return;
      auto* H = dynamic_cast<hiopHessianLowRank*>(s.alg->get_Hess_Lagr());
      V x(n), out; for(auto& v : x) v = q.range(-8, 8) / 4. + 0.125; for(size_t j = 0; j < n; j++) a->local_data()[j] = x[j]; b->setToZero(); if(K > 0) H->timesVec(0., *b, 1., *a); out = vec(b.get());
      // candidates over the last updates with curvature
      I uni; int U = ps.size() - 1; double noise = 0; int univ = std::min(7, lmax + 3); for(int u = U; u >= 1 && (int)uni.size() < univ; u--) if(ps[u].cls != 0) { uni.insert(uni.begin(), u); noise = std::max(noise, ps[u].noise * ps[u].yy * ps[u].ss / (ps[u].sty * ps[u].sty)); }
      if(K > 0 && noise < 1e-7) {
        J m = J::arr(); int nm = 0; I sg = uni; sg.insert(sg.begin(), 0); R best = 1e30L;
        for(int sig : sg) { R sv = s0; if(sig) { auto& P = ps[sig]; if(strat == "sigma0") continue; sv = strat == "sty" ? P.sty / P.ss : strat == "sty_inv" ? P.yy / P.sty : strat == "snrm_ynrm" ? std::sqrt(P.ss / P.yy) : 0.5L * (P.sty / P.ss + P.yy / P.sty); sv = fmaxl(fminl(1e8L, sv), 1e-8L); }
          for(int mask = 0; mask < 1 << uni.size(); mask++) { if(__builtin_popcount(mask) > lmax + 1) continue; I ids; W B(n * n, 0); for(size_t j = 0; j < n; j++) B[j * n + j] = sv; R amp = 1, mx = sv;
            for(size_t z = 0; z < uni.size(); z++) if(mask >> z & 1) { auto& P = ps[uni[z]]; ids.push_back(uni[z]); W t(n, 0); R w = 0; for(size_t j = 0; j < n; j++) { for(size_t e = 0; e < n; e++) t[j] += B[j * n + e] * P.s[e]; w += t[j] * P.s[j]; }
              amp = fmaxl(amp, (R)P.ss * P.yy / ((R)P.sty * P.sty)); { R tn = 0; for(R v : t) tn += v * v; if(w > 0) amp = fmaxl(amp, tn * P.ss / (w * w)); }
              if(w > 0) for(size_t j = 0; j < n; j++) for(size_t e = 0; e < n; e++) B[j * n + e] += (R)P.y[j] * P.y[e] / P.sty - t[j] * t[e] / w; for(R v : B) mx = fmaxl(mx, fabsl(v)); }
            R err = 0, nx = 0; for(size_t j = 0; j < n; j++) { R t = -(R)out[j]; for(size_t e = 0; e < n; e++) t += B[j * n + e] * x[e]; err = fmaxl(err, fabsl(t)); nx = fmaxl(nx, fabsl((R)x[j])); } if(!std::isfinite((double)err)) err = 1e30L;
            R tol = (1e-6L + 10 * noise + 1e-11L * amp) * mx * nx; best = fminl(best, err / tol); if(err <= tol) { J id = J::arr(); id.addraw(vh::jints(ids)); id.add(sig); m.addraw(id.str()); nm++; } } }
        if(getenv("LB_STAT")) fprintf(stderr, "K %d best %Lg nm %d noise %g\n", K, best, nm, noise);
        vh::ev(J::obj().kv("e", "query").raw("m", m.str()));
      }
      if(K > 0) { ps.push_back(mk(its.back(), c)); vh::ev(J::obj().kv("e", "pair").kv("cls", ps.back().cls)); }
      its.push_back(c);
    };
    RunCfg rc; rc.opts = {}; int st = s.run(rc);
    vh::ev(J::obj().kv("e", "end").kv("st", st));
  });
}
int main(int argc, char** argv) {
  vh::Runner Rn(argv[1]); uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) Rn.only = argv[5];
  for(int i = 0; i < N; i++) scenario(Rn, seed, i);
  return 0;
}
