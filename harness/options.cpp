// Executes option scripts (see checks/p09.py) on the real option classes and records the visible effect of each step.
// usage: options OUT.ndjson SCRIPT TABLE [ONLY-ID]
#include "common.h"
#include "hiopOptions.hpp"
#include "hiopLogger.hpp"
#include "fakempi.h"
#include <fstream>
using namespace hiop;
using vh::J;
struct Ent { std::string n; char k; };
static std::map<char, std::vector<Ent>> table;   // 'n' nlp, 'p' pridec
static std::string unhex(const std::string& h) { std::string r; for(size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static std::string hexd(double d) { uint64_t u; memcpy(&u, &d, 8); char b[32]; snprintf(b, 32, "%016llx", (unsigned long long)u); return b; }
static std::map<std::string, std::string> dump(hiopOptions& o, char kind) {
  std::map<std::string, std::string> m;
  for(auto& e : table[kind]) {
    std::string v = e.k == 'n' ? J::q(hexd(o.GetNumeric(e.n.c_str()))) : e.k == 'i' ? std::to_string(o.GetInteger(e.n.c_str())) : J::q(o.GetString(e.n.c_str()));
    m[e.n] = J::arr().add(e.n).addraw(v).addraw(o.is_user_defined(e.n.c_str()) ? "true" : "false").str();
  }
  return m;
}
struct Scen { std::string id; char kind; std::vector<std::string> file; std::vector<std::vector<std::string>> ops; };
static void exec(const Scen& s) {
  const char* fn = "opts.txt";
  FILE* f = fopen(fn, "w"); for(auto& l : s.file) fprintf(f, "%s\n", l.c_str()); fclose(f);
  hiopOptions* o = s.kind == 'n' ? (hiopOptions*)new hiopOptionsNLP(fn) : (hiopOptions*)new hiopOptionsPriDec(fn);
  unlink(fn);
  hiopLogger* log = nullptr; FILE* nul = fopen("/dev/null", "w");
  auto emit = [&](const char* e, const std::map<std::string, std::string>& m, std::map<std::string, std::string>& prev, int unk) {
    J a = J::arr(); for(auto& x : m) if(prev[x.first] != x.second) a.addraw(x.second);
    prev = m;
    vh::ev(J::obj().kv("e", e).raw("diff", a.str()).kv("unk", unk));
  };
  std::map<std::string, std::string> prev;
  emit("init", dump(*o, s.kind), prev, o->is_user_defined("no such option"));
  for(auto& p : s.ops) {
    bool ff = p.size() > 3 && p[3] == "1"; std::string n = p.size() > 1 ? unhex(p[1]) : "";
    if(p[0] == "N") { double d; uint64_t u = strtoull(p[2].c_str(), 0, 16); memcpy(&d, &u, 8); o->SetNumericValue(n.c_str(), d, ff); }
    else if(p[0] == "I") o->SetIntegerValue(n.c_str(), (int)atol(p[2].c_str()), ff);
    else if(p[0] == "T") o->SetStringValue(n.c_str(), unhex(p[2]).c_str(), ff);
    else if(p[0] == "L") { if(!log) { log = new hiopLogger(o, nul, 0); } o->SetLog(log); }
    else if(p[0] == "P") { o->print(nul, "x"); }
    emit("op", dump(*o, s.kind), prev, o->is_user_defined("no such option"));
  }
  delete o; delete log; fclose(nul);
  vh::ev(J::obj().kv("e", "end").raw("diff", "[]").kv("unk", 0));
}
int main(int argc, char** argv) {
  vh::Runner R(argv[1]); if(argc > 4) R.only = argv[4];
  { std::ifstream t(argv[3]); std::string kd, n, k; while(t >> kd >> n >> k) table[kd[0]].push_back({n, k[0]}); }
  std::ifstream in(argv[2]); std::string line; Scen s; bool have = false;
  auto flush = [&] { if(have) { const Scen c = s; R.run(c.id, J::obj().kv("kind", std::string(1, c.kind)).str(), [&] { fm::Config fc; fc.P = 1; fm::run(fc, [&](int) { exec(c); }); }); } };
  while(std::getline(in, line)) {
    std::istringstream is(line); std::vector<std::string> w; std::string x; while(is >> x) w.push_back(x);
    if(w.empty()) continue;
    if(w[0] == "S") { flush(); s = Scen(); s.id = w[1]; s.kind = w[2][0]; have = true; }
    else if(w[0] == "F") s.file.push_back(w.size() > 1 ? unhex(w[1]) : "");
    else s.ops.push_back(w);
  }
  flush();
  return 0;
}
