// Random programs over hiop vectors (plain, distributed, compound); every step is recorded with exact scaled integers.
// usage: vec OUT.ndjson MODE SEED COUNT [ONLY-ID]      MODE: seq | comp | dist | cdist
#include "common.h"
#include "scaled.h"
#include "fakempi.h"
#include "hiopVectorPar.hpp"
#include "hiopVectorCompoundPD.hpp"
#include "hiopVectorIntSeq.hpp"
#include "hiopVectorIntCompoundPD.hpp"
#include "LinAlgFactory.hpp"
#include <mpi.h>
#include <memory>
using namespace hiop;
using vh::J; using vh::Rng;

struct Layout { int P = 1; bool comp = false; std::vector<std::vector<index_type>> part; /* [piece][rank+1] */ int n = 0; };

// what one rank knows after one operation
struct Dep { std::vector<std::vector<long long>> loc; long long ret = 0; bool hasret = false; };
struct Step { std::string head; int got = 0; std::vector<Dep> dep; };

struct Prog {
  Layout L; uint64_t seed; int nops;
  std::vector<Step> steps; std::vector<std::vector<long long>> prev;    // per register, global order
  std::vector<std::string> names; std::vector<std::vector<std::vector<int>>> where;   // [reg kind][rank] -> global positions
  void deposit(int k, int r, const std::string& head, Dep d);
};
static const int ND = 4, NP = 2, NS = 3;   // distributed registers d0..d3, patterns p0 p1, odd-sized local registers s0..s2

void Prog::deposit(int k, int r, const std::string& head, Dep d) {
  if((int)steps.size() <= k) steps.resize(k + 1);
  Step& s = steps[k]; if(s.dep.empty()) { s.dep.resize(L.P); s.head = head; }
  bool same = s.head == head;
  s.dep[r] = std::move(d); s.got++;
  if(!same) vh::ev(J::obj().kv("e", "harness-error"));
  if(s.got < L.P) return;
  J ch = J::arr(); bool ret = s.dep[0].hasret; J rr = J::arr(); bool agree = true;
  for(size_t g = 0; g < names.size(); g++) {
    int kind = (int)g < ND + NP ? 0 : 1;
    std::vector<long long> v;
    if(kind == 0) { v.assign(L.n, 0); for(int q = 0; q < L.P; q++) for(size_t i = 0; i < where[0][q].size(); i++) v[where[0][q][i]] = s.dep[q].loc[g][i]; }
    else { v = s.dep[0].loc[g]; for(int q = 1; q < L.P; q++) if(s.dep[q].loc[g] != v) agree = false; }
    if(prev[g] != v) { ch.addraw(J::arr().add(names[g]).addraw(vh::jints(v)).str()); prev[g] = v; }
  }
  for(int q = 0; q < L.P; q++) rr.add(s.dep[q].ret);
  std::string h = s.head; h.pop_back();
  vh::emit_line(h + ",\"ret\":" + (ret ? rr.str() : std::string("[]")) + ",\"agree\":" + (agree ? "true" : "false") + ",\"ch\":" + ch.str() + "}");
}

struct VW { hiopVector* v = nullptr; std::vector<hiopVector*> pieces; };

struct RankProg {
  Prog& G; int r; Rng rng; int k = 0;
  std::vector<VW> reg; std::vector<hiopVectorPar*> sreg;
  std::vector<int> szs;
  RankProg(Prog& g, int rank) : G(g), r(rank), rng(g.seed) {}
  static std::vector<index_type> sumpart(const Layout& L) { std::vector<index_type> p(L.P + 1, 0); for(auto& q : L.part) for(int i = 0; i <= L.P; i++) p[i] += q[i]; return p; }
  hiopVector* mk(size_t piece) { return LinearAlgebraFactory::create_vector(ExecSpaceInfo("DEFAULT"), G.L.part[piece].back(), G.L.P > 1 || rng.s % 2 ? const_cast<index_type*>(G.L.part[piece].data()) : nullptr, MPI_COMM_WORLD); }
  void build() {
    for(int i = 0; i < ND + NP; i++) {
      VW w;
      for(size_t q = 0; q < G.L.part.size(); q++) w.pieces.push_back(mk(q));
      if(G.L.comp) { auto* c = new hiopVectorCompoundPD(); for(auto* x : w.pieces) c->addVector(x); w.v = c; }
      else w.v = w.pieces[0];
      if(i == 1) {   // one register is a clone of the first
        VW c; c.v = reg[0].v->alloc_clone();
        if(G.L.comp) for(size_t q = 0; q < G.L.part.size(); q++) c.pieces.push_back(&static_cast<hiopVectorCompoundPD*>(c.v)->getVector((int)q)); else c.pieces.push_back(c.v);
        w = c;
      }
      reg.push_back(w);
    }
    for(int i = 0; i < NS; i++) { szs.push_back(rng.range(0, 6)); sreg.push_back(new hiopVectorPar(szs[i])); }
    for(int i = 0; i < ND + NP; i++) setv(i, std::vector<double>(G.L.n, 0.));
    for(auto* q : sreg) q->setToZero();
    done(head("init"));
    for(int i = 0; i < ND; i++) load(i, 'a');
    for(int i = 0; i < NP; i++) load(ND + i, 'p');
    for(int i = 0; i < NS; i++) loads(i, 'a');
  }
  std::vector<std::string>& names() { return G.names; }
  void done(const std::string& head, bool hasret = false, long long ret = 0) {
    Dep d; d.hasret = hasret; d.ret = ret;
    for(auto& w : reg) { std::vector<long long> v; for(auto* p : w.pieces) for(int i = 0; i < p->get_local_size(); i++) v.push_back(sc::enc(p->local_data_host_const()[i])); d.loc.push_back(v); }
    for(auto* p : sreg) { std::vector<long long> v; for(int i = 0; i < p->get_local_size(); i++) v.push_back(sc::enc(p->local_data_host_const()[i])); d.loc.push_back(v); }
    G.deposit(k++, r, head, d);
  }
  static std::string head(const std::string& o, const std::vector<std::string>& a = {}, const std::vector<double>& c = {}, const std::vector<int>& ix = {}) {
    J cc = J::arr(); for(double x : c) cc.add(sc::enc(x));
    return J::obj().kv("e", "op").kv("o", o).raw("a", vh::jstrs(a)).raw("c", cc.str()).raw("ix", vh::jints(ix)).str();
  }
  double pick(char kind) {
    switch(kind) {
      case 'a': return rng.range(-12, 12) / 4.;
      case 'z': return rng.coin(.6) ? 0. : rng.range(-2, 2);
      case 'q': { double p = std::ldexp(1., rng.range(-2, 2)); return rng.coin() ? p : -p; }
      case 'Q': return std::ldexp(1., rng.range(-2, 2));
      case 'P': return rng.range(1, 12) / 4.;
      case 'N': return rng.range(0, 12) / 4.;
      case 's': { double b = rng.range(0, 9) / 4.; return b * b; }
      case 'D': { int q = rng.below(4); return q == 0 ? 0. : q == 1 ? rng.range(1, 8) / 4. : -std::ldexp(1., rng.range(-2, 2)); }
      case 'x': { static const double sp[] = {NAN, INFINITY, -INFINITY}; return rng.coin(.25) ? sp[rng.below(3)] : rng.range(-3, 3); }
      case 'p': return rng.coin();
    }
    return 0;
  }
  void setv(int g, const std::vector<double>& glob) {
    size_t i = 0;
    for(auto* p : reg[g].pieces) for(int j = 0; j < p->get_local_size(); j++) p->local_data_host()[j] = glob[G.where[0][r][i++]];
  }
  void load(int g, char kind) { std::vector<double> v(G.L.n); for(auto& x : v) x = pick(kind); setv(g, v); done(head("load", {names()[g]})); }
  // values of kind `kind` where the pattern is set, of kind `other` elsewhere
  std::vector<double> pat[NP];
  void loadpat(int i) { std::vector<double> v(G.L.n); int m = rng.below(6); for(auto& x : v) x = m == 0 ? 1. : m == 1 ? 0. : rng.coin(); pat[i] = v; setv(ND + i, v); done(head("load", {names()[ND + i]})); }
  void loadw(int g, int p, char kind, char other) {
    std::vector<double> v(G.L.n); for(int i = 0; i < G.L.n; i++) v[i] = pick(pat[p][i] == 1. ? kind : other);
    setv(g, v); done(head("load", {names()[g]}));
  }
  void loads(int g, char kind) { for(int i = 0; i < szs[g]; i++) sreg[g]->local_data()[i] = pick(kind); done(head("load", {names()[ND + NP + g]})); }
  void loadcopy(int g, int h) { std::vector<double> v(G.L.n); size_t i = 0; (void)i; reg[g].v->copyFrom(*reg[h].v); done(head("copyFrom", {names()[g], names()[h]})); }
  int step();
};

int RankProg::step() {
  auto N = [&](int g) { return names()[g]; };
  int x = rng.below(ND), y = rng.below(ND), z = rng.below(ND);
  while(y == x) y = rng.below(ND);
  while(z == x || z == y) z = rng.below(ND);
  hiopVector &X = *reg[x].v, &Y = *reg[y].v, &Z = *reg[z].v, &P = *reg[ND].v, &Q = *reg[ND + 1].v;
  const std::string p0 = N(ND), p1 = N(ND + 1);
  static const double alphas[] = {1., -1., 0., 2., .5, -1.5, .25};
  double al = alphas[rng.below(7)];
  double c = pick('a');
  auto A = [&](int g) { load(g, 'a'); };
  auto ret = [&](const std::string& h, double v) { done(h, true, sc::enc(v)); };
  int op = rng.below(G.L.P == 1 && !G.L.comp ? 80 : 62);
  switch(op) {
    case 0: X.setToZero(); done(head("setToZero", {N(x)})); break;
    case 1: X.setToConstant(c); done(head("setToConstant", {N(x)}, {c})); break;
    case 2: { double a = rng.range(-3, 3), b = a + rng.range(0, 3); X.set_to_random_uniform(a, b); bool in = true; for(auto* p : reg[x].pieces) for(int i = 0; i < p->get_local_size(); i++) in = in && p->local_data()[i] >= a && p->local_data()[i] <= b;
              for(auto* p : reg[x].pieces) for(int i = 0; i < p->get_local_size(); i++) p->local_data()[i] = 0; done(head("random", {N(x)}, {a, b}), true, in); break; }
    case 3: loadpat(0); X.setToConstant_w_patternSelect(c, P); done(head("setToConstant_w", {N(x), p0}, {c})); break;
    case 4: A(y); X.copyFrom(Y); done(head("copyFrom", {N(x), N(y)})); break;
    case 5: A(x); A(y); loadpat(0); X.copy_from_w_pattern(Y, P); done(head("copy_from_w_pattern", {N(x), N(y), p0})); break;
    case 6: A(x); ret(head("twonorm", {N(x)}), sc::sq(X.twonorm())); break;
    case 7: A(x); ret(head("infnorm", {N(x)}), X.infnorm()); break;
    case 8: A(x); ret(head("infnorm_local", {N(x)}), X.infnorm_local()); break;
    case 9: A(x); ret(head("onenorm", {N(x)}), X.onenorm()); break;
    case 10: A(x); ret(head("onenorm_local", {N(x)}), X.onenorm_local()); break;
    case 11: A(x); A(y); X.componentMult(Y); done(head("componentMult", {N(x), N(y)})); break;
    case 12: A(x); load(y, 'q'); X.componentDiv(Y); done(head("componentDiv", {N(x), N(y)})); break;
    case 13: A(x); loadpat(0); loadw(y, 0, 'q', 'z'); X.componentDiv_w_selectPattern(Y, P); done(head("componentDiv_w", {N(x), N(y), p0})); break;
    case 14: A(x); X.component_min(c); done(head("component_min_c", {N(x)}, {c})); break;
    case 15: A(x); A(y); X.component_min(Y); done(head("component_min", {N(x), N(y)})); break;
    case 16: A(x); X.component_max(c); done(head("component_max_c", {N(x)}, {c})); break;
    case 17: A(x); A(y); X.component_max(Y); done(head("component_max", {N(x), N(y)})); break;
    case 18: A(x); X.component_abs(); done(head("component_abs", {N(x)})); break;
    case 19: load(x, rng.coin() ? 'a' : 'z'); X.component_sgn(); done(head("component_sgn", {N(x)})); break;
    case 20: load(x, 's'); X.component_sqrt(); done(head("component_sqrt", {N(x)})); break;
    case 21: A(x); X.scale(al); done(head("scale", {N(x)}, {al})); break;
    case 22: A(x); A(y); X.axpy(al, Y); done(head("axpy", {N(x), N(y)}, {al})); break;
    case 23: A(x); A(y); loadpat(0); X.axpy_w_pattern(al, Y, P); done(head("axpy_w_pattern", {N(x), N(y), p0}, {al})); break;
    case 24: A(x); A(y); A(z); X.axzpy(al, Y, Z); done(head("axzpy", {N(x), N(y), N(z)}, {al})); break;
    case 25: A(x); A(y); load(z, 'q'); X.axdzpy(al, Y, Z); done(head("axdzpy", {N(x), N(y), N(z)}, {al})); break;
    case 26: A(x); A(y); loadpat(0); loadw(z, 0, 'q', 'z'); X.axdzpy_w_pattern(al, Y, Z, P); done(head("axdzpy_w_pattern", {N(x), N(y), N(z), p0}, {al})); break;
    case 27: A(x); X.addConstant(c); done(head("addConstant", {N(x)}, {c})); break;
    case 28: A(x); loadpat(0); X.addConstant_w_patternSelect(c, P); done(head("addConstant_w", {N(x), p0}, {c})); break;
    case 29: A(x); A(y); ret(head("dot", {N(x), N(y)}), X.dotProductWith(Y)); break;
    case 30: A(x); X.negate(); done(head("negate", {N(x)})); break;
    case 31: load(x, 'q'); X.invert(); done(head("invert", {N(x)})); break;
    case 32: loadpat(0); loadw(x, 0, 'Q', 'z'); done(head("logBarrier_local", {N(x), p0}), true, sc::log2i(X.logBarrier_local(P))); break;
    case 33: A(x); loadpat(0); loadw(y, 0, 'q', 'z'); X.addLogBarrierGrad(al, Y, P); done(head("addLogBarrierGrad", {N(x), N(y), p0}, {al})); break;
    case 34: A(x); ret(head("sum_local", {N(x)}), X.sum_local()); break;
    case 35: { A(x); loadpat(0); loadpat(1); double mu = pick('Q'), kd = rng.coin() ? .5 : 1.; ret(head("linearDampingTerm_local", {N(x), p0, p1}, {mu, kd}), X.linearDampingTerm_local(P, Q, mu, kd)); break; }
    case 36: A(x); loadpat(0); loadpat(1); X.addLinearDampingTerm(P, Q, al, c); done(head("addLinearDampingTerm", {N(x), p0, p1}, {al, c})); break;
    case 37: load(x, rng.coin(.7) ? 'P' : rng.coin() ? 'N' : 'a'); done(head("allPositive", {N(x)}), true, X.allPositive()); break;
    case 38: { loadpat(0); loadw(x, 0, rng.coin(.7) ? 'P' : rng.coin() ? 'N' : 'a', 'a'); done(head("allPositive_w", {N(x), p0}), true, X.allPositive_w_patternSelect(P)); break; }
    case 39: A(x); ret(head("min", {N(x)}), X.min()); break;
    case 40: A(x); loadpat(0); ret(head("min_w_pattern", {N(x), p0}), X.min_w_pattern(P)); break;
    case 41: case 42: {   // projection into the interior of the bounds
      A(x); loadpat(0); loadpat(1);
      std::vector<double> lo(G.L.n), up(G.L.n); bool bad = rng.coin(.1);
      for(int i = 0; i < G.L.n; i++) { bool both = pat[0][i] == 1. && pat[1][i] == 1.; lo[i] = pat[0][i] == 1. ? rng.range(-12, 8) / 4. : -1e20; up[i] = pat[1][i] == 1. ? (both ? lo[i] + (bad && rng.coin(.3) ? -rng.range(1, 3) : rng.range(1, 10)) / 4. : rng.range(-8, 12) / 4.) : 1e20; }
      setv(y, lo); done(head("load", {N(y)})); setv(z, up); done(head("load", {N(z)}));
      double k1 = rng.coin() ? .25 : .0625, k2 = rng.coin() ? .25 : .125;
      bool ok = X.projectIntoBounds_local(Y, P, Z, Q, k1, k2);
      if(bad) { setv(x, std::vector<double>(G.L.n, 0.)); }
      done(head(bad ? "projectBad" : "projectIntoBounds_local", {N(x), N(y), p0, N(z), p1}, {k1, k2}), true, ok); break; }
    case 43: case 44: { load(x, 'P'); load(y, 'D'); double tau = rng.coin() ? .5 : .75; ret(head("fractionToTheBdry_local", {N(x), N(y)}, {tau}), X.fractionToTheBdry_local(Y, tau)); break; }
    case 45: case 46: { loadpat(0); loadw(x, 0, 'P', 'a'); load(y, 'D'); double tau = rng.coin() ? .5 : .75; ret(head("fractionToTheBdry_w_pattern_local", {N(x), N(y), p0}, {tau}), X.fractionToTheBdry_w_pattern_local(Y, tau, P)); break; }
    case 47: A(x); loadpat(0); X.selectPattern(P); done(head("selectPattern", {N(x), p0})); break;
    case 48: { loadpat(0); bool m = rng.coin(.6); std::vector<double> v(G.L.n); for(int i = 0; i < G.L.n; i++) v[i] = pat[0][i] == 1. || !m || rng.coin(.05) ? pick('z') : 0.; setv(x, v); done(head("load", {N(x)})); done(head("matchesPattern", {N(x), p0}), true, X.matchesPattern(P)); break; }
    case 49: case 50: { loadpat(0); load(x, 'P'); loadw(y, 0, 'Q', 'z'); double mu = pick('Q') / 2, ka = rng.coin() ? 2. : 4.; X.adjustDuals_plh(Y, P, mu, ka); done(head("adjustDuals_plh", {N(x), N(y), p0}, {mu, ka})); break; }
    case 51: load(x, rng.coin(.3) ? 'z' : 'a'); if(rng.coin(.6)) { std::vector<double> v(G.L.n, 0.); if(G.L.n && rng.coin(.5)) v[rng.below(G.L.n)] = 1.; setv(x, v); done(head("load", {N(x)})); } done(head("is_zero", {N(x)}), true, X.is_zero()); break;
    case 52: case 53: load(x, rng.coin() ? 'x' : 'a'); if(rng.coin()) { std::vector<double> v(G.L.n, 1.); if(G.L.n) v[rng.below(G.L.n)] = pick('x'); setv(x, v); done(head("load", {N(x)})); }
      done(head("isnan_local", {N(x)}), true, X.isnan_local()); done(head("isinf_local", {N(x)}), true, X.isinf_local()); done(head("isfinite_local", {N(x)}), true, X.isfinite_local()); break;
    case 54: A(x); done(head("numOfElemsLessThan", {N(x)}, {c}), true, X.numOfElemsLessThan(c)); break;
    case 55: A(x); c = fabs(c); done(head("numOfElemsAbsLessThan", {N(x)}, {c}), true, X.numOfElemsAbsLessThan(c)); break;
    case 56: if(G.L.comp) break; A(x); loadcopy(y, x); if(rng.coin() && G.L.n) { int i = rng.below(G.L.n); size_t q = 0; for(auto* p : reg[y].pieces) for(int j = 0; j < p->get_local_size(); j++) if(G.where[0][r][q++] == i) p->local_data()[j] += 1; done(head("load", {N(y)})); }
      done(head("is_equal", {N(x), N(y)}), true, X.is_equal(Y)); break;
    case 57: done(head("get_size", {N(x)}), true, X.get_size()); if(!G.L.comp) done(head("get_local_size", {N(x)}), true, X.get_local_size()); break;
    case 58: { A(x); hiopVector* cp = X.new_copy(); Z.copyFrom(X); done(head("copyFrom", {N(z), N(x)})); X.setToZero(); done(head("setToZero", {N(x)})); Y.copyFrom(*cp); delete cp; done(head("copyFrom", {N(y), N(z)})); break; }
    case 59: case 60: {   // index set operations (within each piece, local)
      if(G.L.P > 1) break;
      A(x); A(y); bool ax = op == 59; std::vector<int> ix; int off = 0; std::vector<hiopVectorInt*> iv; std::vector<hiopVector*> xs; std::vector<double> xsv;
      hiopVectorIntCompoundPD ci; hiopVectorCompoundPD cx(false);
      for(size_t q = 0; q < G.L.part.size(); q++) { int nq = G.L.part[q].back();
        std::vector<int> perm(nq); for(int i = 0; i < nq; i++) perm[i] = i; for(int i = nq - 1; i > 0; i--) std::swap(perm[i], perm[rng.below(i + 1)]);
        int m = ax ? (G.L.comp ? nq : rng.range(0, nq)) : nq;
        if(!ax) for(auto& q2 : perm) if(rng.coin(.3)) q2 = rng.below(nq);
        auto* w = LinearAlgebraFactory::create_vector_int(ExecSpaceInfo("DEFAULT"), m); for(int i = 0; i < m; i++) { w->local_data()[i] = perm[i]; ix.push_back(off + perm[i]); }
        iv.push_back(w); ci.addVector(w); off += nq; }
      if(ax) {
        if(G.L.comp) { X.axpy(al, Y, ci); done(head("axpy_ix", {N(x), N(y)}, {al}, ix)); }
        else { auto* sv = new hiopVectorPar((int)ix.size()); for(size_t i = 0; i < ix.size(); i++) sv->local_data()[i] = reg[y].pieces[0]->local_data()[i]; X.axpy(al, *sv, *iv[0]); delete sv; done(head("axpy_ix", {N(x), N(y)}, {al}, ix)); }
      } else if(!G.L.comp && rng.coin()) { X.copy_from_indexes(reg[y].pieces[0]->local_data_const(), *iv[0]); done(head("copy_from_indexes", {N(x), N(y)}, {}, ix)); }
      else { if(G.L.comp) X.copy_from_indexes(Y, ci); else X.copy_from_indexes(Y, *iv[0]); done(head("copy_from_indexes", {N(x), N(y)}, {}, ix)); }
      break; }
    case 61: { if(G.L.comp) break; A(x); A(y); if(rng.coin()) X.copy_from_vectorpar(dynamic_cast<hiopVectorPar&>(Y)); else { std::vector<double> b(Y.get_local_size() + 1); Y.copyTo(b.data()); X.copyFrom(b.data()); } done(head("copyFrom", {N(x), N(y)})); break; }
    // ---- operations between local vectors of different sizes
    default: {
      int a = rng.below(NS), b = rng.below(NS); while(b == a) b = rng.below(NS); int na = szs[a], nb = szs[b];
      loads(a, 'a'); loads(b, 'a');
      hiopVectorPar &SA = *sreg[a], &SB = *sreg[b]; std::string sa = N(ND + NP + a), sb = N(ND + NP + b);
      switch(op) {
        case 62: case 63: { int m = rng.range(0, std::min(na, nb)), st = rng.range(0, na - m); SA.copyFromStarting(st, SB.local_data_const(), m); done(head("copyFromStarting", {sa, sb}, {}, {st, m})); break; }
        case 64: case 65: if(nb <= na) { int st = rng.range(0, na - nb); SA.copyFromStarting(st, SB); done(head("copyFromStarting", {sa, sb}, {}, {st, nb})); } break;
        case 66: case 67: { int m = rng.range(0, std::min(na, nb)), st = rng.range(0, nb - m); SA.copy_from_starting_at(SB.local_data_const(), st, m); done(head("copy_from_starting_at", {sa, sb}, {}, {st, m})); break; }
        case 68: case 69: if(na && nb) { int sd = rng.range(0, na - 1); int need = na - sd; if(need <= nb) { int ss = rng.range(0, nb - need); SA.startingAtCopyFromStartingAt(sd, SB, ss); done(head("startingAtCopyFromStartingAt", {sa, sb}, {}, {sd, ss})); } } break;
        case 70: if(nb <= na) { int st = rng.range(0, na - nb); SA.copyToStarting(st, SB); done(head("copyToStarting_from", {sb, sa}, {}, {st})); } break;
        case 71: if(na <= nb) { int st = rng.range(0, nb - na); if(st < nb || na == 0) { SA.copyToStarting(SB, st); done(head("copyToStarting_into", {sb, sa}, {}, {st})); } } break;
        case 72: case 73: { std::vector<double> pt(na); int cnt = 0; for(auto& v : pt) { v = rng.coin(); if(v == 1. && cnt >= nb) v = 0; cnt += v == 1.; } hiopVectorPar PT(na); std::vector<int> ix; for(int i = 0; i < na; i++) { PT.local_data()[i] = pt[i]; ix.push_back((int)pt[i]); }
            int st = rng.range(0, nb - cnt); SA.copyToStartingAt_w_pattern(SB, st, PT); ix.insert(ix.begin(), st); done(head("copyToStartingAt_w_pattern", {sb, sa}, {}, ix)); break; }
        case 74: case 75: { int c3 = 3 - a - b; int nc = szs[c3]; if(na + nb != nc) break; loads(c3, 'a'); std::string sc3 = N(ND + NP + c3);
            std::vector<int> perm(nc); for(int i = 0; i < nc; i++) perm[i] = i; for(int i = nc - 1; i > 0; i--) std::swap(perm[i], perm[rng.below(i + 1)]);
            hiopVectorIntSeq ca(na), cb(nb); for(int i = 0; i < na; i++) ca.local_data()[i] = perm[i]; for(int i = 0; i < nb; i++) cb.local_data()[i] = perm[na + i];
            if(op == 74) { sreg[c3]->copy_from_two_vec_w_pattern(SA, ca, SB, cb); done(head("copy_from_two_vec", {sc3, sa, sb}, {}, perm)); }
            else { sreg[c3]->copy_to_two_vec_w_pattern(SA, ca, SB, cb); done(head("copy_to_two_vec", {sc3, sa, sb}, {}, perm)); } break; }
        case 76: { int st = rng.range(0, na), sd = rng.range(0, nb), m = std::min(na - st, nb - sd); int num = rng.coin() ? -1 : rng.range(0, m); SA.startingAtCopyToStartingAt(st, SB, sd, num); done(head("startingAtCopyToStartingAt", {sb, sa}, {}, {st, sd, num})); break; }
        case 77: { int st = rng.range(0, na), sd = rng.range(0, nb), m = std::min(na - st, nb - sd); int num = rng.coin() ? -1 : rng.range(0, m); hiopVectorPar PT(nb); std::vector<int> ix{st, sd, num}; for(int i = 0; i < nb; i++) { PT.local_data()[i] = rng.coin(); ix.push_back((int)PT.local_data()[i]); }
            SA.startingAtCopyToStartingAt_w_pattern(st, SB, sd, PT, num); done(head("startingAtCopyToStartingAt_w", {sb, sa}, {}, ix)); break; }
        case 78: { int n = rng.range(0, 6); hiopVectorIntSeq iv(n); int i0 = rng.range(-5, 5), di = rng.range(-3, 3); iv.linspace(i0, di); std::vector<int> ix{i0, di}; for(int i = 0; i < n; i++) ix.push_back(iv.local_data()[i]);
            done(head("linspace", {}, {}, ix)); hiopVectorIntSeq iw(n); iw.copy_from_vectorseq(iv); hiopVectorIntSeq iu(n); iw.copy_to_vectorseq(iu); std::vector<int> iz{i0, di}; for(int i = 0; i < n; i++) iz.push_back(iu.local_data()[i]); done(head("linspace", {}, {}, iz));
            std::vector<int> tmp(n + 1); for(int i = 0; i < n; i++) tmp[i] = i0 + i * di; iw.set_to_constant(i0); std::vector<int> ic{i0, 0}; for(int i = 0; i < n; i++) ic.push_back(iw.local_data()[i]); done(head("linspace", {}, {}, ic));
            iw.set_to_zero(); std::vector<int> i00{0, 0}; for(int i = 0; i < n; i++) i00.push_back(iw.local_data()[i]); done(head("linspace", {}, {}, i00)); iw.copy_from(tmp.data()); std::vector<int> ie{i0, di}; for(int i = 0; i < n; i++) ie.push_back(iw.local_data()[i]); done(head("linspace", {}, {}, ie)); break; }
        case 79: { int n = G.L.n; std::vector<hiopInterfaceBase::NonlinearityType> arr(n + 1), src(n + 1); std::vector<int> ix; int st = rng.range(0, n), en = rng.range(st, n), s0 = rng.range(0, n - (en - st)); bool cst = rng.coin(); auto cv = (hiopInterfaceBase::NonlinearityType)rng.below(3);
            for(int i = 0; i < n; i++) { arr[i] = (hiopInterfaceBase::NonlinearityType)rng.below(3); src[i] = (hiopInterfaceBase::NonlinearityType)rng.below(3); }
            ix = {n, st, en, cst ? -1 : s0, (int)cv}; for(int i = 0; i < n; i++) ix.push_back((int)arr[i]); for(int i = 0; i < n; i++) ix.push_back((int)src[i]);
            if(cst) X.set_array_from_to(arr.data(), st, en, cv); else X.set_array_from_to(arr.data(), st, en, src.data(), s0);
            for(int i = 0; i < n; i++) ix.push_back((int)arr[i]); done(head("set_array_from_to", {}, {}, ix)); break; }
      }
    }
  }
  return 0;
}

int main(int argc, char** argv) {
  vh::Runner R(argv[1]); std::string mode = argv[2]; uint64_t seed = strtoull(argv[3], 0, 10); int count = atoi(argv[4]); if(argc > 5) R.only = argv[5];
  for(int s = 0; s < count; s++) {
    Rng g(seed * 1000003 + s);
    Prog G; G.L.comp = mode == "comp" || mode == "cdist"; G.L.P = mode == "seq" || mode == "comp" ? 1 : g.range(2, 4); G.seed = g.next(); G.nops = 40;
    int pieces = G.L.comp ? g.range(1, 4) : 1;
    for(int q = 0; q < pieces; q++) {   // ragged partition, ranks may be empty
      std::vector<index_type> p{0}; int cap = G.L.P == 1 ? (s < 60 ? s % 5 : 8) : 4;
      for(int i = 0; i < G.L.P; i++) p.push_back(p.back() + (g.coin(.25) ? 0 : g.range(G.L.P == 1 && s < 60 ? cap : 0, cap)));
      G.L.part.push_back(p); G.L.n += p.back();
    }
    G.where.resize(1); G.where[0].resize(G.L.P); std::vector<int> own(G.L.n); int off = 0;
    for(auto& p : G.L.part) { for(int r = 0; r < G.L.P; r++) for(int i = p[r]; i < p[r + 1]; i++) { G.where[0][r].push_back(off + i); own[off + i] = r; } off += p.back(); }
    for(int i = 0; i < ND; i++) G.names.push_back("d" + std::to_string(i));
    for(int i = 0; i < NP; i++) G.names.push_back("p" + std::to_string(i));
    for(int i = 0; i < NS; i++) G.names.push_back("s" + std::to_string(i));
    G.prev.resize(G.names.size());
    std::string id = mode + "-" + std::to_string(seed) + "-" + std::to_string(s);
    fm::Config fc; fc.P = G.L.P; fc.seed = g.next(); fc.policy = g.below(4);
    R.run(id, J::obj().kv("P", G.L.P).kv("n", G.L.n).raw("own", vh::jints(own)).raw("regs", vh::jstrs(G.names)).str(), [&] {
      fm::Result res = fm::run(fc, [&](int r) { RankProg p(G, r); p.build(); for(int i = 0; i < G.nops; i++) p.step(); });
      bool all = true; for(auto& st : G.steps) if(st.got < G.L.P) all = false;
      vh::ev(J::obj().kv("e", "end").kv("ok", res.ok && all).kv("why", res.why));
    });
  }
  return 0;
}
