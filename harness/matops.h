// Recording of one linear algebra operation: every operand before and after, as exact scaled integers.
#pragma once
#include "common.h"
#include "scaled.h"
#include "fakempi.h"
#include <functional>
namespace mo {
using vh::J;
typedef std::vector<std::vector<long long>> Rows;
struct Loc { int m = 0, n = 0; Rows v; };                       // local part of an operand (n local columns)
struct Opd { char kind; std::function<Loc()> get; };            // 'r' replicated, 'd' distributed by columns
struct Rec { std::vector<Loc> pre, post; std::vector<long long> ret; };
struct World {
  int P = 1;
  struct Slot { std::string head; int got = 0; std::string kinds; std::vector<Rec> r; };
  std::vector<Slot> slots;
  static std::string mat(int m, int n, const Rows& v) {
    J a = J::arr(); for(auto& row : v) a.addraw(vh::jints(row));
    return J::obj().kv("m", m).kv("n", n).raw("v", a.str()).str();
  }
  void deposit(int k, int rank, const std::string& head, const std::string& kinds, Rec r) {
    if((int)slots.size() <= k) slots.resize(k + 1);
    Slot& s = slots[k]; if(s.r.empty()) { s.r.resize(P); s.head = head; s.kinds = kinds; }
    if(s.head != head) { vh::ev(J::obj().kv("e", "harness-error").kv("a", s.head).kv("b", head)); }
    s.r[rank] = std::move(r);
    if(++s.got < P) return;
    bool agree = true; std::string pp[2];
    for(int w = 0; w < 2; w++) {
      J a = J::arr();
      for(size_t i = 0; i < kinds.size(); i++) {
        auto L = [&](int q) -> const Loc& { return w ? s.r[q].post[i] : s.r[q].pre[i]; };
        Loc g = L(0);
        for(int q = 1; q < P; q++) {
          if(kinds[i] == 'r') { if(L(q).v != g.v || L(q).m != g.m || L(q).n != g.n) agree = false; }
          else { g.n += L(q).n; if(L(q).m != g.m) agree = false; else for(int z = 0; z < g.m; z++) g.v[z].insert(g.v[z].end(), L(q).v[z].begin(), L(q).v[z].end()); }
        }
        a.addraw(mat(g.m, g.n, g.v));
      }
      pp[w] = a.str();
    }
    J rr = J::arr(); for(int q = 0; q < P; q++) rr.addraw(vh::jints(s.r[q].ret));
    std::string h = head; h.pop_back();
    vh::emit_line(h + ",\"agree\":" + (agree ? "true" : "false") + ",\"ret\":" + rr.str() + ",\"pre\":" + pp[0] + ",\"post\":" + pp[1] + "}");
    s.r.clear(); s.r.shrink_to_fit(); s.r.resize(1);
  }
  bool all_done() const { for(auto& s : slots) if(s.got < P) return false; return true; }
};
struct Op {
  std::string o; std::vector<Opd> a; std::vector<double> c; std::vector<int> ix; Rec r;
  Op(const std::string& o_, std::vector<Opd> a_, std::vector<double> c_ = {}, std::vector<int> ix_ = {}) : o(o_), a(std::move(a_)), c(c_), ix(ix_) { for(auto& q : a) r.pre.push_back(q.get()); }
  void done(World& w, int k, int rank, std::vector<long long> ret = {}) {
    for(auto& q : a) r.post.push_back(q.get());
    r.ret = ret; std::string kinds; for(auto& q : a) kinds += q.kind;
    J cc = J::arr(); for(double x : c) cc.add(sc::enc(x));
    w.deposit(k, rank, J::obj().kv("e", "op").kv("o", o).raw("c", cc.str()).raw("ix", vh::jints(ix)).str(), kinds, r);
  }
};
}
