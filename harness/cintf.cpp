// The C interface against the native interface (P22): the same problems, created, solved, changed and destroyed in any order.
// usage: cintf OUT.ndjson MODE SEED COUNT [ONLY-ID]        MODE: all
#include "ipmgen.h"
#include <malloc.h>
#include <fcntl.h>
typedef std::vector<int> I;
static std::string frfile;      // restoration problems stop after 40 iterations
struct Sil { int o; Sil() { fflush(stdout); o = dup(1); int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } ~Sil() { fflush(stdout); dup2(o, 1); close(o); } };
static void fold(uint64_t& d, const void* v, size_t n) { const unsigned char* c = (const unsigned char*)v; for(size_t i = 0; i < n; i++) { d ^= c[i]; d *= 1099511628211ull; } }
static void fold(uint64_t& d, double v) { if(v == 0) v = 0; fold(d, &v, sizeof v); }
static std::string hex(uint64_t d) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)d); return b; }
// One user of a problem: evaluates, and records every call. With `cache` all values are computed when a new point is announced and remembered.
struct Use {
  Prob p; V x0; bool cache = false; int lies = 0, strange = 0;
  uint64_t kinds, ek, flags, args; int n = 0, en = 0; V cx, ln; std::string head; bool ovf = false;
  void begin() { kinds = ek = flags = args = 1469598103934665603ull; n = en = 0; head.clear(); cx.clear(); }
  void call(char k, const double* x, int nx, int N, int M) {
    n++; en++; fold(kinds, &k, 1); fold(ek, &k, 1); fold(flags, &nx, sizeof nx); if(head.size() < 40) { head += k; head += nx == 1 ? '+' : nx == 0 ? '-' : '?'; } if(N != p.n || (M >= 0 && M != p.m)) strange++;
    for(int i = 0; i < p.n; i++) fold(args, x[i]); V v(x, x + p.n); if(nx || cx.empty()) cx = v; else if(!(cx == v)) lies++; }
  const double* at(const double* x) { return cache ? cx.data() : x; }
  double rg(double v) { if(!ovf && !(std::fabs(v) < 1e60)) { ovf = true; vh::ev(J::obj().kv("e", "ovf")); } return v; }
  void sizes(size_type* a, size_type* b) { *a = p.n; *b = p.m; char k = 's'; n++; fold(kinds, &k, 1); }
  void vars(double* a, double* b) { for(int i = 0; i < p.n; i++) { a[i] = p.xl[i]; b[i] = p.xu[i]; } char k = 'v'; n++; fold(kinds, &k, 1); }
  void cons(double* a, double* b) { for(int i = 0; i < p.m; i++) { a[i] = p.cl[i]; b[i] = p.cu[i]; } char k = 'b'; n++; fold(kinds, &k, 1); }
  void start(double* x) { for(int i = 0; i < p.n; i++) x[i] = x0[i]; char k = 'x'; n++; fold(kinds, &k, 1); }
  void f(const double* x, int nx, double* o, int N) { call('f', x, nx, N, -1); *o = rg(p.f.val(at(x))); }
  void g(const double* x, int nx, double* o, int N) { call('g', x, nx, N, -1); p.f.grad(at(x), o); for(int i = 0; i < p.n; i++) rg(o[i]); }
  void c(const double* x, int nx, double* o, int N, int M) { call('c', x, nx, N, M); for(int i = 0; i < p.m; i++) o[i] = rg(p.g[i].val(at(x))); }
  void jd(const double* x, int nx, double* o, int N, int M) { call('J', x, nx, N, M); for(int i = 0; i < p.m; i++) p.g[i].grad(at(x), o + (size_t)i * p.n); for(int i = 0; i < p.m * p.n; i++) rg(o[i]); }
  void blocks(int* ns, int* nd, int* je, int* ji, int* ss, int* sd) { *ns = p.nsp; *nd = p.n - p.nsp; *je = (int)p.eqs().size() * p.nsp; *ji = (int)p.ins().size() * p.nsp; *ss = p.nsp; *sd = 0; char k = 'k'; n++; fold(kinds, &k, 1); }
  void jm(const double* x, int nx, int nsp, int nde, int nnz, int* iJ, int* jJ, double* M, double* Jd, int N, int Mm) {
    call('J', x, nx, N, Mm); if(nsp != p.nsp || nde != p.n - p.nsp || nnz != p.m * p.nsp) strange++; int nul[4] = {!iJ, !jJ, !M, !Jd}; fold(args, nul, sizeof nul);
    V g(p.n); int k = 0; for(int r = 0; r < p.m; r++) { p.g[r].grad(at(x), g.data()); for(int j = 0; j < nsp; j++, k++) { if(iJ && jJ) { iJ[k] = r; jJ[k] = j; } if(M) M[k] = rg(g[j]); } if(Jd) for(int j = 0; j < nde; j++) Jd[(size_t)r * nde + j] = rg(g[nsp + j]); } }
  void h(const double* x, int nx, double of, const double* lam, int nl, int nsp, int nde, int nss, int* iH, int* jH, double* MH, double* HD, int nsd, int N, int Mm) {
    call('H', x, nx, N, Mm); if(nsp != p.nsp || nde != p.n - p.nsp || nss != p.nsp || nsd != 0) strange++; fold(flags, &nl, sizeof nl); fold(args, of); for(int i = 0; i < p.m; i++) fold(args, lam[i]); int nul[4] = {!iH, !jH, !MH, !HD}; fold(args, nul, sizeof nul);
    V L(lam, lam + p.m); if(nl || ln.empty()) ln = L; else if(!(ln == L)) lies++;
    V H((size_t)p.n * p.n, 0.); p.f.hess(at(x), of, H.data()); I ord = p.eqs(), in = p.ins(); ord.insert(ord.end(), in.begin(), in.end()); for(int r = 0; r < p.m; r++) p.g[ord[r]].hess(at(x), lam[r], H.data());
    for(int i = 0; i < nsp; i++) { if(iH && jH) iH[i] = jH[i] = i; if(MH) MH[i] = rg(H[(size_t)i * p.n + i]); } if(HD) for(int i = 0; i < nde; i++) for(int j = 0; j < nde; j++) HD[(size_t)i * nde + j] = rg(H[(size_t)(nsp + i) * p.n + nsp + j]); }
};
// ---- native
#define NAT_COMMON Use* u; \
  bool get_prob_sizes(size_type& n, size_type& m) override { u->sizes(&n, &m); return true; } \
  bool get_vars_info(const size_type&, double* a, double* b, NonlinearityType* t) override { u->vars(a, b); for(int i = 0; i < u->p.n; i++) t[i] = hiopNonlinear; return true; } \
  bool get_cons_info(const size_type&, double* a, double* b, NonlinearityType* t) override { u->cons(a, b); for(int i = 0; i < u->p.m; i++) t[i] = hiopNonlinear; return true; } \
  bool eval_f(const size_type& n, const double* x, bool nx, double& o) override { u->f(x, nx, &o, n); return true; } \
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) override { u->g(x, nx, g, n); return true; } \
  bool eval_cons(const size_type&, const size_type&, const size_type&, const index_type*, const double*, bool, double*) override { return false; } \
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) override { u->c(x, nx, c, n, m); return true; } \
  bool get_starting_point(const size_type&, double* x0) override { u->start(x0); return true; }
#define U ((Use*)ud)
struct NatD : public hiopInterfaceDenseConstraints { NAT_COMMON
  bool eval_Jac_cons(const size_type&, const size_type&, const size_type&, const index_type*, const double*, bool, double*) override { return false; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* Jm) override { u->jd(x, nx, Jm, n, m); return true; } };
struct NatM : public hiopInterfaceMDS { NAT_COMMON
  bool get_sparse_dense_blocks_info(int& ns, int& nd, int& je, int& ji, int& ss, int& sd) override { u->blocks(&ns, &nd, &je, &ji, &ss, &sd); return true; }
  bool eval_Jac_cons(const size_type&, const size_type&, const size_type&, const index_type*, const double*, bool, const size_type&, const size_type&, const size_type&, index_type*, index_type*, double*, double*) override { return false; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool nx, const size_type& nsp, const size_type& nde, const size_type& nnz, index_type* iJ, index_type* jJ, double* M, double* Jd) override { u->jm(x, nx, nsp, nde, nnz, iJ, jJ, M, Jd, n, m); return true; }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool nx, const double& of, const double* lam, bool nl, const size_type& nsp, const size_type& nde, const size_type& nnzs, index_type* iH, index_type* jH, double* MH, double* HD, size_type& nsd, index_type*, index_type*, double*) override { u->h(x, nx, of, lam, nl, nsp, nde, nnzs, iH, jH, MH, HD, nsd, n, m); return true; } };
// ---- C: plain functions, the user data selects the problem
extern "C" {
static int c_x0(size_type, double* x, void* ud) { U->start(x); return 0; }
static int c_sz(size_type* n, size_type* m, void* ud) { U->sizes(n, m); return 0; }
static int c_vi(size_type, double* a, double* b, void* ud) { U->vars(a, b); return 0; }
static int c_ci(size_type, double* a, double* b, void* ud) { U->cons(a, b); return 0; }
static int c_f(size_type n, double* x, int nx, double* o, void* ud) { U->f(x, nx, o, n); return 0; }
static int c_g(size_type n, double* x, int nx, double* o, void* ud) { U->g(x, nx, o, n); return 0; }
static int c_c(size_type n, size_type m, double* x, int nx, double* o, void* ud) { U->c(x, nx, o, n, m); return 0; }
static int c_jd(size_type n, size_type m, double* x, int nx, double* o, void* ud) { U->jd(x, nx, o, n, m); return 0; }
static int c_bl(size_type* a, size_type* b, size_type* c, size_type* d, size_type* e, size_type* f, void* ud) { U->blocks(a, b, c, d, e, f); return 0; }
static int c_jm(size_type n, size_type m, double* x, int nx, size_type nsp, size_type nde, int nnz, index_type* iJ, index_type* jJ, double* M, double* Jd, void* ud) { U->jm(x, nx, nsp, nde, nnz, iJ, jJ, M, Jd, n, m); return 0; }
static int c_h(size_type n, size_type m, double* x, int nx, double of, double* lam, int nl, size_type nsp, size_type nde, size_type nss, index_type* iH, index_type* jH, double* MH, double* HD, size_type nsd, index_type*, index_type*, double*, void* ud) { U->h(x, nx, of, lam, nl, nsp, nde, nss, iH, jH, MH, HD, nsd, n, m); return 0; }
}
// Fortran callbacks have no user data
static Use* fu = nullptr;
static void f_f(size_type* n, double* x, int* nx, double* o) { fu->f(x, *nx, o, *n); }
static void f_g(size_type* n, double* x, int* nx, double* o) { fu->g(x, *nx, o, *n); }
static void f_c(size_type* n, size_type* m, double* x, int* nx, double* o) { fu->c(x, *nx, o, *n, *m); }
static void f_j(size_type* n, size_type* m, double* x, int* nx, double* o) { fu->jd(x, *nx, o, *n, *m); }
typedef void (*fn)();
static fn FD[] = {(fn)c_x0, (fn)c_sz, (fn)c_vi, (fn)c_ci, (fn)c_f, (fn)c_g, (fn)c_c, (fn)c_jd}, FM[] = {(fn)c_x0, (fn)c_sz, (fn)c_vi, (fn)c_ci, (fn)c_f, (fn)c_g, (fn)c_c, (fn)c_jm, (fn)c_bl, (fn)c_h};
extern "C" {
void* vc_make(int, void*, double*, fn*); void* vc_nlp(void*); int vc_solve(void*, double*, int*, int*); int vc_kept(void*); int vc_destroy(void*);
void* vf_make(int, int, const double*, const double*, const double*, const double*, const double*, void*, void*, void*, void*); void* vf_nlp(void*); void vf_x0(void*, const double*); void vf_solve(void*, double*, double*, int*, int*); int vf_destroy(void*);
}
struct Out { uint64_t x = 0, f = 0; int st = -999, it = -1; };
struct Obj {                                  // a problem object of one of the interfaces
  Use u; int how; NatD nd; NatM nm; hiopNlpFormulation* nlp = nullptr; void* p = nullptr; V sol;      // how: 0 native, 1 C, 2 Fortran
  explicit Obj(int h) : how(h) {}
  bool mds() const { return u.p.mds; }
  void create() {
    u.begin(); sol.assign(u.p.n + 2, 777.); fu = &u;
    if(how == 2) { Prob& q = u.p; p = vf_make(q.n, q.m, q.xl.data(), q.xu.data(), q.cl.data(), q.cu.data(), u.x0.data(), (void*)f_f, (void*)f_c, (void*)f_g, (void*)f_j); nlp = (hiopNlpFormulation*)vf_nlp(p); }
    else if(how == 1) { p = vc_make(mds(), &u, sol.data() + 1, mds() ? FM : FD); nlp = (hiopNlpFormulation*)vc_nlp(p); }
    else if(!mds()) { nd.u = &u; nlp = new hiopNlpDenseConstraints(nd); for(auto& o : std::vector<Opt>{O("Hessian", "quasinewton_approx"), O("duals_update_type", "linear"), O("duals_init", "zero"), O("compute_mode", "cpu"), O("KKTLinsys", "xdycyd"), O("fixed_var", "relax")}) nlp->options->SetStringValue(o.first.c_str(), o.second.c_str()); }
    else { nm.u = &u; nlp = new hiopNlpMDS(nm); for(auto& o : std::vector<Opt>{O("duals_update_type", "linear"), O("duals_init", "zero"), O("Hessian", "analytical_exact"), O("KKTLinsys", "xdycyd"), O("compute_mode", "hybrid")}) nlp->options->SetStringValue(o.first.c_str(), o.second.c_str()); nlp->options->SetIntegerValue("verbosity_level", 3); nlp->options->SetNumericValue("mu0", 0.1); }
    nlp->options->SetIntegerValue("max_iter", 60);      // reached through the object both interfaces hold
    nlp->options->SetStringValue("options_file_fr_prob", frfile.c_str());
  }
  Out solve() {
    Out o; u.begin(); std::fill(sol.begin(), sol.end(), 777.); double fo = 0;
    fu = &u; if(how == 2) { vf_x0(p, u.x0.data()); vf_solve(p, &fo, sol.data() + 1, &o.st, &o.it); }
    else if(how == 1) vc_solve(p, &fo, &o.st, &o.it);
    else if(!mds()) { hiopAlgFilterIPMQuasiNewton a((hiopNlpDenseConstraints*)nlp); o.st = a.run(); o.it = a.getNumIterations(); fo = a.getObjective(); a.getSolution(sol.data() + 1); }
    else { hiopAlgFilterIPMNewton a(nlp); o.st = a.run(); o.it = a.getNumIterations(); fo = a.getObjective(); a.getSolution(sol.data() + 1); }
    o.x = 1469598103934665603ull; for(double v : sol) fold(o.x, v); o.f = 1469598103934665603ull; fold(o.f, fo); return o;
  }
  bool kept() const { return how != 1 || vc_kept(p); }
  void destroy() { if(how == 0) delete nlp; else if(how == 1) vc_destroy(p); else vf_destroy(p); nlp = nullptr; p = nullptr; }
};
struct Act { int t, o; V x0; };                  // 0 create, 1 solve, 2 other starting point, 3 destroy
static void scenario(vh::Runner& Rn, uint64_t seed, int i) {
  Rng r(seed * 5000011ull + i * 1019ull + 3); int K = r.range(1, 3); std::vector<Prob> ps; std::vector<char> cache;
  for(int k = 0; k < K; k++) { bool mds = r.coin(0.5); np::Gen g = rnd_gen(r, "basic", mds); if(r.coin(0.15)) { g.infeasible = true; if(g.neq + g.nin == 0) g.nin = 1; } if(r.coin(0.1)) { g.n = std::max(g.n, 3); g.fixed = 1; } if(r.coin(0.1)) { g.neq = 0; g.nin = 0; g.infeasible = false; } ps.push_back(np::gen(r, g)); cache.push_back(r.coin(0.3)); }
  std::vector<Act> as; I alive(K, 0), solved(K, 0); int len = r.range(2, 9);
  for(int q = 0; q < len; q++) { int o = r.below(K); if(!alive[o]) { as.push_back({0, o, {}}); alive[o] = 1; solved[o] = 0; if(r.coin(0.7)) as.push_back({1, o, {}}); } else if(r.coin(0.25)) { as.push_back({3, o, {}}); alive[o] = 0; } else { if(r.coin(0.5)) { V x = ps[o].x0; for(auto& v : x) v += np::dy(r, -1, 1, 4); as.push_back({2, o, x}); } as.push_back({1, o, {}}); } }
  for(int o = 0; o < K; o++) if(alive[o] && r.coin(0.8)) as.push_back({3, o, {}});
  Rn.run("c-" + std::to_string(i), J::obj().kv("K", K).kv("mds0", ps[0].mds).kv("n0", ps[0].n).str(), [&]() {
    static const int pat[] = {0, 0x55, 0xAA, 0x3C, 0xFF, 0x81}; int np_ = 0; Sil z;
    bool dense = false; for(auto& q : ps) if(!q.mds) dense = true;
    for(int pass = 0; pass < (dense ? 3 : 2); pass++) {        // 0: native, every problem by itself; 1: C, all of them together; 2: dense problems through Fortran
      std::vector<std::unique_ptr<Obj>> ob(K);
      for(int only = 0; only < (pass == 0 ? K : 1); only++) {
        for(auto& a : as) {
          if(pass == 0 && a.o != only) continue; mallopt(M_PERTURB, pat[np_++ % 6]); auto& b = ob[a.o]; auto kind = [&](int o) { return pass == 0 ? 0 : pass == 1 ? 1 : ps[o].mds ? 1 : 2; }; static const char* HN[] = {"native", "c", "fortran"}; const char* how = HN[kind(a.o)];
          if(a.t == 0) { if(!b) { b.reset(new Obj(kind(a.o))); b->u.p = ps[a.o]; b->u.x0 = ps[a.o].x0; b->u.cache = cache[a.o]; } b->create(); vh::ev(J::obj().kv("e", "create").kv("how", how).kv("o", a.o).kv("pass", pass).kv("calls", hex(b->u.kinds))); }
          if(a.t == 2) b->u.x0 = a.x0;
          if(a.t == 1) { Out o = b->solve(); Use& u = b->u; vh::ev(J::obj().kv("e", "solve").kv("how", how).kv("o", a.o).kv("pass", pass).kv("n", u.n).kv("en", u.en).kv("ek", hex(u.ek)).kv("kinds", hex(u.kinds)).kv("flags", hex(u.flags)).kv("args", hex(u.args)).kv("head", u.head).kv("x", hex(o.x)).kv("f", hex(o.f)).kv("st", o.st).kv("it", o.it).kv("lies", u.lies).kv("strange", u.strange).kv("mds", ps[a.o].mds).kv("kept", b->kept() ? 1 : 0)); }
          if(a.t == 3) { b->destroy(); vh::ev(J::obj().kv("e", "destroy").kv("how", how).kv("o", a.o).kv("pass", pass)); }
        } }
      vh::ev(J::obj().kv("e", "pass").kv("pass", pass));
    }
    vh::ev(J::obj().kv("e", "end"));
  });
}
int main(int argc, char** argv) {
  vh::Runner Rn(argv[1]); frfile = std::string(argv[1]) + ".fr"; { FILE* f = fopen(frfile.c_str(), "w"); fputs("max_iter 40\n", f); fclose(f); } uint64_t seed = strtoull(argv[3], 0, 10); int N = atoi(argv[4]); if(argc > 5) Rn.only = argv[5];
  for(int i = 0; i < N; i++) scenario(Rn, seed, i);
  return 0;
}
