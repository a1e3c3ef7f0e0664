#include <execinfo.h>
#include "fakempi.h"
#include <mpi.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <deque>
#include <memory>

int vh::g_fd = 2;
namespace fm { std::function<void(const vh::J&)> on_event; }

extern "C" void __assert_fail(const char* w, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/');
  vh::ev(vh::J::obj().kv("e", "assert").kv("r", fm::rank()).kv("what", w).kv("at", std::string(b ? b + 1 : file) + ":" + fn));
  if(getenv("VH_BT")) { void* a[40]; backtrace_symbols_fd(a, backtrace(a, 40), 2); }
  _exit(77);
}

namespace {
using fm::Config; using fm::Result;
struct Req;
struct Msg {
  int src, dst, tag; size_t bytes; MPI_Datatype dt; const char* buf; std::vector<char> data, snap;
  bool copied = false, matched = false; Req* sreq = nullptr; bool blocking = false;
};
struct Req { int kind; int rank; bool done = false; char* buf = nullptr; size_t bytes = 0; int peer = 0, tag = 0; MPI_Datatype dt; int asrc = 0, atag = 0; size_t abytes = 0; bool filled = false; };
struct Coll { std::string sig; int first = -1; std::vector<char> in; std::vector<std::vector<char>> c; std::vector<char> res; int n = 0; bool haveres = false; int out = 0; };

enum St { READY, BLOCKED, PARKED, DONE };
struct Rank {
  ucontext_t ctx; char* stk = nullptr; size_t stksz = 0; St st = READY; std::function<bool()> pred; int fails = 0; long colls = 0; double prio = 0; char* appsp = nullptr;
};
const size_t STK = 4u << 20;
struct World {
  Config cfg; Result res; vh::Rng rng; std::vector<Rank> rk; int cur = -1; ucontext_t sched; bool failed = false;
  std::vector<std::deque<Msg*>> ch;            // src*P+dst : not yet arrived
  std::vector<std::deque<Msg*>> unexp;         // per dst
  std::vector<std::deque<Req*>> posted;        // per dst
  std::vector<Coll*> colls; std::function<void(int)> body; size_t nchoice = 0; double clock = 0;
  std::vector<double> chprio;
  std::set<Req*> live;
  World(const Config& c) : cfg(c), rng(c.seed) {}
};
World* W = nullptr;

size_t dsize(MPI_Datatype d) {
  if(d == MPI_DOUBLE || d == MPI_LONG_LONG || d == MPI_LONG || d == MPI_UNSIGNED_LONG || d == MPI_UNSIGNED_LONG_LONG || d == MPI_LONG_LONG_INT) return 8;
  if(d == MPI_INT || d == MPI_FLOAT || d == MPI_UNSIGNED) return 4;
  if(d == MPI_CHAR || d == MPI_BYTE || d == MPI_C_BOOL || d == MPI_CXX_BOOL || d == MPI_SIGNED_CHAR) return 1;
  if(d == MPI_DOUBLE_COMPLEX || d == MPI_C_DOUBLE_COMPLEX) return 16;
  fprintf(stderr, "fakempi: unknown datatype\n"); _exit(96);
}
std::string dname(MPI_Datatype d) {
  if(d == MPI_DOUBLE) return "double";
  if(d == MPI_INT) return "int";
  return "t" + std::to_string(dsize(d));
}
void reduce1(char* acc, const char* in, int n, MPI_Datatype d, MPI_Op op) {
#define RED(T) { T* a = (T*)acc; const T* b = (const T*)in; for(int i = 0; i < n; i++) { \
    if(op == MPI_SUM) a[i] += b[i]; else if(op == MPI_MAX) a[i] = b[i] > a[i] ? b[i] : a[i]; \
    else if(op == MPI_MIN) a[i] = b[i] < a[i] ? b[i] : a[i]; else if(op == MPI_PROD) a[i] *= b[i]; \
    else if(op == MPI_LAND) a[i] = a[i] && b[i]; else if(op == MPI_LOR) a[i] = a[i] || b[i]; \
    else { fprintf(stderr, "fakempi: unknown op\n"); _exit(96); } } return; }
  if(d == MPI_DOUBLE) RED(double)
  if(d == MPI_FLOAT) RED(float)
  size_t s = dsize(d);
  if(s == 8) RED(long long)
  if(s == 4) RED(int)
  if(s == 1) RED(signed char)
  fprintf(stderr, "fakempi: reduce on this type\n"); _exit(96);
}
std::string opname(MPI_Op op) { return op == MPI_SUM ? "sum" : op == MPI_MAX ? "max" : op == MPI_MIN ? "min" : op == MPI_PROD ? "prod" : op == MPI_LAND ? "land" : "op"; }

void to_sched() { swapcontext(&W->rk[W->cur].ctx, &W->sched); }
void fail(const std::string& why, const std::string& detail) {
  if(!W->failed) { W->failed = true; W->res.ok = false; W->res.why = why; W->res.detail = detail; }
}
void fail_here(const std::string& why, const std::string& d) { fail(why, d); for(;;) to_sched(); }
void yield() { W->rk[W->cur].st = READY; to_sched(); }
void block(std::function<bool()> p) {
  if(p()) { if(!W->cfg.coarse) yield(); if(p()) return; }
  Rank& r = W->rk[W->cur]; r.st = BLOCKED; r.pred = p; to_sched();
}
void wake(int r) { W->rk[r].fails = 0; if(W->rk[r].st == PARKED) W->rk[r].st = READY; }
bool dangling(int r, const void* p) {
  Rank& k = W->rk[r]; const char* b = (const char*)p;
  if(b < k.stk || b >= k.stk + k.stksz) return false;
  if(r == W->cur) return false;
  return b < k.appsp;   // below the frame of the MPI call the rank is in: its owner has returned
}
bool flip(double p) { // buffering decisions
  if(!W->cfg.allow_eager || W->cfg.coarse) return false;
  return W->rng.coin(p);
}
void copy_msg(Msg* m) {
  if(m->copied) return;
  if(m->snap.size() && memcmp(m->snap.data(), m->buf, m->bytes)) { W->res.dangling++; W->res.detail = "rank " + std::to_string(m->src) + " changed (or lost) a send buffer before the send completed"; }
  else if(dangling(m->src, m->buf)) { W->res.dangling++; W->res.detail = "send buffer of rank " + std::to_string(m->src) + " is no longer alive when the message leaves"; }
  m->data.assign(m->buf, m->buf + m->bytes); m->copied = true;
  if(m->sreq) { m->sreq->done = true; wake(m->src); }
}
void complete_recv(Req* r, Msg* m) {
  r->done = true; r->asrc = m->src; r->atag = m->tag; r->abytes = m->bytes; m->matched = true;
  if(m->bytes > r->bytes) fail("truncation", "message longer than the receive buffer");
  else if(m->dt != r->dt) fail("datatype", "send and receive datatypes differ");
  else if(r->filled && !std::all_of(r->buf, r->buf + r->bytes, [](char c) { return c == (char)0xA5; })) { W->res.dangling++; W->res.detail = "rank " + std::to_string(r->rank) + " touched (or lost) a receive buffer before the receive completed"; }
  else if(dangling(r->rank, r->buf)) { W->res.dangling++; W->res.detail = "receive buffer of rank " + std::to_string(r->rank) + " is no longer alive when the message arrives"; }
  else memcpy(r->buf, m->data.data(), m->bytes);
  wake(r->rank);
}
bool matches(Req* r, Msg* m) { return (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
void arrive(Msg* m) {
  copy_msg(m);
  auto& p = W->posted[m->dst];
  for(auto it = p.begin(); it != p.end(); ++it) if(matches(*it, m)) { Req* r = *it; p.erase(it); complete_recv(r, m); return; }
  W->unexp[m->dst].push_back(m);
  wake(m->dst);
}
void post(Req* r) {
  auto& u = W->unexp[r->rank];
  for(auto it = u.begin(); it != u.end(); ++it) if(matches(r, *it)) { Msg* m = *it; u.erase(it); complete_recv(r, m); return; }
  memset(r->buf, 0xA5, r->bytes); r->filled = true;
  W->posted[r->rank].push_back(r);
}
void msg_ev(const char* e, int r, int peer, int tag, const void* b, size_t n, MPI_Datatype d) {
  if(!W->cfg.trace_msgs || !fm::on_event) return;
  vh::J j = vh::J::obj(); j.kv("e", e).kv("r", r).kv("p", peer).kv("t", tag);
  if(b && d == MPI_INT && n == 4) j.kv("v", (int)*(const int*)b); else j.kv("v", -9);
  fm::on_event(j);
}
Msg* make(const void* buf, int n, MPI_Datatype d, int dst, int tag) {
  Msg* m = new Msg; m->src = W->cur; m->dst = dst; m->tag = tag; m->bytes = n * dsize(d); m->dt = d; m->buf = (const char*)buf;
  if(dst < 0 || dst >= W->cfg.P) fail_here("rank", "message to a rank that does not exist");
  m->snap.assign(m->buf, m->buf + m->bytes);
  W->ch[m->src * W->cfg.P + dst].push_back(m); return m;
}
bool world(MPI_Comm c) { return c == MPI_COMM_WORLD && W && W->cfg.P > 1 && W->cur >= 0; }
void entry(int r) { W->body(r); W->rk[r].st = DONE; for(;;) to_sched(); }
void tramp(int r) { entry(r); }

Coll* enter(const char* kind, int n, MPI_Datatype d, const std::string& extra) {
  if(!W->cfg.coarse) yield();
  Rank& r = W->rk[W->cur]; size_t k = (size_t)r.colls++;
  std::string sig = std::string(kind) + ":" + std::to_string(n) + ":" + dname(d) + ":" + extra;
  if(W->cfg.trace_msgs && fm::on_event) fm::on_event(vh::J::obj().kv("e", "coll").kv("r", W->cur).kv("s", sig));
  if(k >= W->colls.size()) { W->colls.push_back(new Coll); W->colls[k]->c.resize(W->cfg.P); W->colls[k]->in.resize(W->cfg.P, 0); }
  Coll* c = W->colls[k];
  if(c->n == 0) { c->sig = sig; c->first = W->cur; }
  else if(c->sig != sig) fail_here("collective", "rank " + std::to_string(W->cur) + " calls " + sig + " while rank " + std::to_string(c->first) + " is in " + c->sig);
  c->n++; c->in[W->cur] = 1;
  return c;
}
} // namespace

namespace fm {
int rank() { return W && W->cur >= 0 ? W->cur : 0; }

Result run(const Config& c, std::function<void(int)> body) {
  World w(c); World* prev = W; W = &w; w.body = body;
  int P = c.P; w.rk.resize(P); w.ch.resize(P * P); w.unexp.resize(P); w.posted.resize(P); w.chprio.resize(P * P);
  for(int i = 0; i < P; i++) {
    Rank& r = w.rk[i]; r.stksz = STK;
    r.stk = (char*)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stk; r.ctx.uc_stack.ss_size = STK; r.ctx.uc_link = NULL;
    makecontext(&r.ctx, (void (*)())tramp, 1, i); r.prio = w.rng.unit();
  }
  for(auto& p : w.chprio) p = w.rng.unit();
  struct Act { int kind; int a; };
  while(!w.failed) {
    if(++w.res.steps > c.max_steps) { fail("livelock", "no termination within the step limit"); break; }
    std::vector<Act> acts; bool alldone = true;
    for(int i = 0; i < P; i++) {
      Rank& r = w.rk[i];
      if(r.st != DONE) alldone = false;
      if(r.st == READY || (r.st == BLOCKED && r.pred())) acts.push_back({0, i});
    }
    size_t nr = acts.size();
    if(!(c.coarse && nr)) for(int k = 0; k < P * P; k++) {
      auto& q = w.ch[k]; if(q.empty()) continue;
      if(c.coarse) { acts.push_back({2, k}); continue; }
      if(q.front()->copied) acts.push_back({2, k});
      else acts.push_back({1, k});
    }
    if(acts.empty()) {
      if(alldone) break;
      std::string d;
      for(int i = 0; i < P; i++) d += std::string(i ? "," : "") + (w.rk[i].st == DONE ? "done" : w.rk[i].st == PARKED ? "polling" : "blocked");
      fail("deadlock", d); break;
    }
    if(alldone) { // messages still under way after everybody finished: let them arrive
      for(auto& a : acts) { auto& q = w.ch[a.a]; Msg* m = q.front(); q.pop_front(); arrive(m); }
      continue;
    }
    size_t pick = 0;
    if(c.coarse && nr) pick = 0;
    else if(c.policy == 4) {
      if(acts.size() > 1) {
        size_t i = w.nchoice++; pick = i < c.choices.size() ? (size_t)c.choices[i] % acts.size() : 0;
        w.res.taken.push_back((int)pick); w.res.width.push_back((int)acts.size());
      }
    } else if(c.policy == 3) {
      double best = -1;
      for(size_t i = 0; i < acts.size(); i++) { double p = acts[i].kind == 0 ? w.rk[acts[i].a].prio : w.chprio[acts[i].a]; if(p > best) { best = p; pick = i; } }
      if(w.rng.below(40) == 0) { if(acts[pick].kind == 0) w.rk[acts[pick].a].prio = w.rng.unit() * .5; else w.chprio[acts[pick].a] = w.rng.unit() * .5; }
    } else {
      pick = (size_t)w.rng.below((int)acts.size());
      if(c.policy == 1 && nr && w.rng.below(10)) pick = (size_t)w.rng.below((int)nr);
      if(c.policy == 2 && nr < acts.size() && w.rng.below(10)) pick = nr + (size_t)w.rng.below((int)(acts.size() - nr));
    }
    Act a = acts[pick];
    if(a.kind == 0) { w.cur = a.a; w.rk[a.a].st = READY; swapcontext(&w.sched, &w.rk[a.a].ctx); w.cur = -1; }
    else { auto& q = w.ch[a.a]; Msg* m = q.front(); if(a.kind == 1) copy_msg(m); else { q.pop_front(); arrive(m); } }
  }
  for(int i = 0; i < P; i++) { w.res.leftover_msgs += (int)w.unexp[i].size(); w.res.leftover_recvs += (int)w.posted[i].size(); }
  for(auto& q : w.ch) w.res.leftover_msgs += (int)q.size();
  bool uneven = false;
  for(int i = 1; i < P; i++) if(w.rk[i].colls != w.rk[0].colls) uneven = true;
  if(w.res.ok && uneven) { w.res.ok = false; w.res.why = "collective"; w.res.detail = "ranks finished after different numbers of collectives"; }
  for(int i = 0; i < P; i++) munmap(w.rk[i].stk, STK);
  W = prev;
  return w.res;
}
} // namespace fm

#define SP() do { if(W && W->cur >= 0) W->rk[W->cur].appsp = (char*)__builtin_frame_address(0); } while(0)
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int, int*) { return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_WORLD ? fm::rank() : 0; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = c == MPI_COMM_WORLD && W ? W->cfg.P : 1; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
double MPI_Wtime() { if(W) return W->clock += 1e-6; static double t = 0; return t += 1e-6; }
int MPI_Abort(MPI_Comm, int) { __assert_fail("MPI_Abort", "mpi", 0, "MPI_Abort"); return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "x"); *l = 1; return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm c) { SP();
  if(!world(c)) return MPI_SUCCESS;
  Coll* k = enter("barrier", 0, MPI_INT, ""); int P = W->cfg.P;
  block([k, P] { return k->n == P; });
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { SP();
  size_t b = n * dsize(d);
  if(!world(c)) { if(s != MPI_IN_PLACE && b) memmove(r, s, b); return MPI_SUCCESS; }
  const char* src = s == MPI_IN_PLACE ? (const char*)r : (const char*)s; int me = W->cur, P = W->cfg.P;
  if(s != MPI_IN_PLACE && n > 0 && (char*)s < (char*)r + b && (char*)r < (char*)s + b) fail_here("aliasing", "overlapping buffers in MPI_Allreduce");
  Coll* k = enter("allreduce", n, d, opname(op));
  k->c[me].assign(src, src + b);
  block([k, P] { return k->n == P; });
  if(!k->haveres) { k->res = k->c[0]; for(int i = 1; i < P; i++) reduce1(k->res.data(), k->c[i].data(), n, d, op); k->haveres = true; }
  if(b) memcpy(r, k->res.data(), b);
  return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { SP();
  size_t b = n * dsize(d);
  if(!world(c)) { if(s != MPI_IN_PLACE && b) memmove(r, s, b); return MPI_SUCCESS; }
  const char* src = s == MPI_IN_PLACE ? (const char*)r : (const char*)s; int me = W->cur, P = W->cfg.P;
  Coll* k = enter("reduce", n, d, opname(op) + ":" + std::to_string(root));
  k->c[me].assign(src, src + b);
  if(me == root) {
    block([k, P] { return k->n == P; });
    k->res = k->c[0]; for(int i = 1; i < P; i++) reduce1(k->res.data(), k->c[i].data(), n, d, op);
    if(b) memcpy(r, k->res.data(), b);
  } else if(!flip(.5)) block([k, P] { return k->n == P; });
  return MPI_SUCCESS;
}
int MPI_Bcast(void* buf, int n, MPI_Datatype d, int root, MPI_Comm c) { SP();
  if(!world(c)) return MPI_SUCCESS;
  size_t b = n * dsize(d); int me = W->cur, P = W->cfg.P;
  Coll* k = enter("bcast", n, d, std::to_string(root));
  if(me == root) { k->res.assign((char*)buf, (char*)buf + b); k->haveres = true; if(!flip(.5)) block([k, P] { return k->n == P; }); }
  else { block([k] { return k->haveres; }); if(b) memcpy(buf, k->res.data(), b); }
  return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, MPI_Comm c) { SP();
  size_t b = sn * dsize(sd);
  if(!world(c)) { if(s != MPI_IN_PLACE && b) memmove(r, s, b); return MPI_SUCCESS; }
  int me = W->cur, P = W->cfg.P; const char* src = s == MPI_IN_PLACE ? (const char*)r + me * b : (const char*)s;
  Coll* k = enter("allgather", sn, sd, "");
  k->c[me].assign(src, src + b);
  block([k, P] { return k->n == P; });
  for(int i = 0; i < P; i++) if(b) memcpy((char*)r + i * b, k->c[i].data(), b);
  return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype sd, void* r, int rn, MPI_Datatype rd, int root, MPI_Comm c) { SP();
  size_t b = sn * dsize(sd);
  if(!world(c)) { if(s != MPI_IN_PLACE && b) memmove(r, s, b); return MPI_SUCCESS; }
  int me = W->cur, P = W->cfg.P; const char* src = s == MPI_IN_PLACE ? (const char*)r + me * b : (const char*)s;
  Coll* k = enter("gather", sn, sd, std::to_string(root));
  k->c[me].assign(src, src + b);
  if(me == root) { block([k, P] { return k->n == P; }); for(int i = 0; i < P; i++) if(b) memcpy((char*)r + i * b, k->c[i].data(), b); }
  return MPI_SUCCESS;
}
static void nw(const char* f) { if(!W || W->cur < 0) { fprintf(stderr, "fakempi: %s outside a world\n", f); _exit(96); } }
int MPI_Isend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* q) { SP();
  nw("Isend"); if(!W->cfg.coarse) yield();
  Msg* m = make(b, n, d, dst, tag); Req* r = new Req; r->kind = 1; r->rank = W->cur; r->buf = (char*)b; m->sreq = r;
  msg_ev("isend", W->cur, dst, tag, b, m->bytes, d);
  if(flip(.3)) copy_msg(m);
  *q = (MPI_Request)r; W->live.insert(r); return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request* q) { return MPI_Isend(b, n, d, dst, tag, c, q); }
int MPI_Irecv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request* q) { SP();
  nw("Irecv"); if(!W->cfg.coarse) yield();
  Req* r = new Req; r->kind = 2; r->rank = W->cur; r->buf = (char*)b; r->bytes = n * dsize(d); r->peer = src; r->tag = tag; r->dt = d;
  msg_ev("irecv", W->cur, src, tag, nullptr, 0, d);
  post(r); *q = (MPI_Request)r; W->live.insert(r); return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { SP();
  nw("Send"); if(!W->cfg.coarse) yield();
  Msg* m = make(b, n, d, dst, tag); m->blocking = true;
  msg_ev("send", W->cur, dst, tag, b, m->bytes, d);
  if(W->cfg.coarse ? W->cfg.allow_eager : flip(.5)) copy_msg(m);
  else block([m] { return m->matched; });
  return MPI_SUCCESS;
}
static void setst(MPI_Status* s, Req* r) { if(s != MPI_STATUS_IGNORE && s && r->kind == 2) { s->MPI_SOURCE = r->asrc; s->MPI_TAG = r->atag; s->_ucount = r->abytes; s->MPI_ERROR = MPI_SUCCESS; } }
int MPI_Recv(void* b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status* s) { SP();
  nw("Recv"); if(!W->cfg.coarse) yield();
  Req* r = new Req; r->kind = 2; r->rank = W->cur; r->buf = (char*)b; r->bytes = n * dsize(d); r->peer = src; r->tag = tag; r->dt = d;
  post(r); block([r] { return r->done; }); setst(s, r);
  msg_ev("recv", W->cur, r->asrc, r->atag, b, r->abytes, d);
  delete r; return MPI_SUCCESS;
}
static Req* asreq(MPI_Request q) {
  Req* r = (Req*)q;
  if(!W->live.count(r)) fail_here("request", "use of a request that is not active");
  return r;
}
static int finishq(MPI_Request* q, MPI_Status* s) {
  Req* r = (Req*)*q; setst(s, r); msg_ev(r->kind == 1 ? "sent" : "rcvd", W->cur, r->kind == 2 ? r->asrc : -1, r->kind == 2 ? r->atag : -1, r->kind == 2 ? r->buf : nullptr, r->abytes, r->dt);
  W->live.erase(r); delete r; *q = MPI_REQUEST_NULL; return MPI_SUCCESS;
}
static void idle() {
  Rank& k = W->rk[W->cur]; k.fails++;
  if(k.fails > 3 * W->cfg.P + 3) { k.st = PARKED; to_sched(); k.fails = 0; } else yield();
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* s) { SP();
  if(*q == MPI_REQUEST_NULL) { *f = 1; if(W && W->cur >= 0) idle(); return MPI_SUCCESS; }
  nw("Test"); Req* r = asreq(*q);
  if(!W->cfg.coarse) yield();
  if(!r->done) { *f = 0; idle(); return MPI_SUCCESS; }
  *f = 1; W->rk[W->cur].fails = 0; return finishq(q, s);
}
int MPI_Wait(MPI_Request* q, MPI_Status* s) { SP();
  if(*q == MPI_REQUEST_NULL) return MPI_SUCCESS;
  nw("Wait"); Req* r = asreq(*q);
  block([r] { return r->done; });
  return finishq(q, s);
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* s) { for(int i = 0; i < n; i++) MPI_Wait(q + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); return MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* s) { SP();
  *f = 1; for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL && !asreq(q[i])->done) *f = 0;
  if(*f) return MPI_Waitall(n, q, s);
  idle(); return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* s) { SP();
  bool any = false; for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { any = true; asreq(q[i]); }
  if(!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  auto p = [n, q] { for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL && ((Req*)q[i])->done) return true; return false; };
  block(p);
  for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL && ((Req*)q[i])->done) { *idx = i; return finishq(q + i, s); }
  return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* f, MPI_Status* s) { SP();
  bool any = false; *f = 0;
  for(int i = 0; i < n; i++) if(q[i] != MPI_REQUEST_NULL) { any = true; if(asreq(q[i])->done) { *f = 1; *idx = i; W->rk[W->cur].fails = 0; return finishq(q + i, s); } }
  if(!any) { *f = 1; *idx = MPI_UNDEFINED; } 
  idle(); return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* s) { SP();
  nw("Iprobe"); Req t; t.peer = src; t.tag = tag; *f = 0;
  for(auto m : W->unexp[W->cur]) if(matches(&t, m)) { *f = 1; if(s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = m->src; s->MPI_TAG = m->tag; s->_ucount = m->bytes; } W->rk[W->cur].fails = 0; return MPI_SUCCESS; }
  idle(); return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s) { SP();
  nw("Probe"); Req* t = new Req; t->peer = src; t->tag = tag; int me = W->cur;
  block([t, me] { for(auto m : W->unexp[me]) if(matches(t, m)) return true; return false; });
  int f; return MPI_Iprobe(src, tag, c, &f, s);
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype d, int* n) { *n = (int)(s->_ucount / dsize(d)); return MPI_SUCCESS; }
int MPI_Request_free(MPI_Request* q) { *q = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request* q) { return MPI_SUCCESS; }
}
