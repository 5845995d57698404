#include "plan.h"
#include <map>
#include <sstream>
#include <stdexcept>
#include <string.h>

const char *const opNames[O_N] = {
    "CREATE", "OPEN", "CLOSE", "FLUSH", "PUT", "PUTB", "PUTALL", "PUTSL", "GET", "GETB", "CHECK", "ADDROWS",
    "RMCOL", "COPY", "TOOL", "FAULTS", "CPUS", "PAR", "ENDPAR", "YIELD", "CUT", "CRASH", "SNAP", "CMPSNAP", "VERIFYFILE", "WRITEFILE", "SPEC",
    "PUTCOL", "GETCOL", "REOPENRW", "EXPECT", "ADDCOL", "RMROW", "IRREG", "BADANT", "BADCOL", "BADSET", "BADTOOL", "BADROW", "RENAME", "PEER", "DELETE"};

#define TFIELDS(X) X(nAnt) X(autos) X(nPol) X(nChan) X(dataBits) X(wBits) X(dist) X(norm) X(staticSeed) X(param) X(nData) X(weightPos) \
  X(dropRows) X(antGap) X(nBlocks) X(sep) X(shuffle) X(amp) X(flagMode) X(viaSpec) X(addCols) X(plain) X(otherStMan) X(nameLen) X(lateCols) X(extraPartial) X(dataSeed)

std::string TCfg::text() const {
  std::ostringstream s; s.precision(17);
#define X(f) s << #f << '=' << f << ' ';
  TFIELDS(X)
#undef X
  return s.str();
}
template <typename T> static void setv(T &t, const std::string &v) { std::istringstream s(v); s >> t; }
TCfg TCfg::parse(const std::string &line) {
  TCfg c; std::istringstream s(line); std::string kv;
  while (s >> kv) {
    size_t e = kv.find('='); if (e == std::string::npos) continue;
    std::string k = kv.substr(0, e), v = kv.substr(e + 1);
#define X(f) if (k == #f) setv(c.f, v);
    TFIELDS(X)
#undef X
  }
  return c;
}
#define CFIELDS(X) X(schedSeed) X(faultSeed) X(entropySeed) X(policy) X(pSwitch) X(memGap) X(pSpurious) X(pJump) X(pctChanges) X(ncpu) \
  X(fillAlloc) X(fillFree) X(race) X(heapCheck) X(maxSteps) X(maxPoints) X(maxFaults) X(persist) X(faultFrom) X(explicitFaults) X(explicitSched)

std::string Plan::serialize() const {
  std::ostringstream s;
  s << "dysco-sim-replay 1\n" << "prop " << prop << "\nseed " << seed << "\n";
  if (!mode.empty()) s << "mode " << mode << "\n";
  s << "crashSeed " << crashSeed << "\nconfig ";
#define X(f) s << #f << '=' << cfg.f << ' ';
  CFIELDS(X)
#undef X
  s << "\n";
  for (int i = 0; i < sim::FK_N; ++i) if (cfg.rate[i]) s << "rate " << sim::faultNames[i] << ' ' << cfg.rate[i] << "\n";
  for (const TCfg &t : tables) s << "table " << t.text() << "\n";
  for (const Op &o : ops) {
    s << "op " << opNames[o.code] << ' ' << o.t << ' ' << o.thr;
    for (int64_t v : o.a) s << ' ' << v;
    s << "\n";
  }
  for (const sim::Fault &f : faults) s << "fault " << sim::faultNames[f.kind] << ' ' << f.cls << ' ' << f.idx << ' ' << f.param << "\n";
  for (const sim::Dev &d : devs) s << "dev " << d.step << ' ' << d.type << ' ' << d.arg << "\n";
  s << "end\n";
  return s.str();
}
Plan Plan::parse(const std::string &text) {
  Plan p; std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line); std::string k; s >> k;
    std::string rest = line.size() > k.size() ? line.substr(k.size() + 1) : "";
    if (k == "prop") p.prop = rest;
    else if (k == "mode") p.mode = rest;
    else if (k == "seed") setv(p.seed, rest);
    else if (k == "crashSeed") setv(p.crashSeed, rest);
    else if (k == "config") {
      std::string kv;
      while (s >> kv) {
        size_t e = kv.find('='); std::string a = kv.substr(0, e), v = kv.substr(e + 1);
#define X(f) if (a == #f) setv(p.cfg.f, v);
        CFIELDS(X)
#undef X
      }
    } else if (k == "rate") {
      std::string n; uint32_t v; s >> n >> v;
      for (int i = 0; i < sim::FK_N; ++i) if (n == sim::faultNames[i]) p.cfg.rate[i] = v;
    } else if (k == "table") p.tables.push_back(TCfg::parse(rest));
    else if (k == "op") {
      Op o; std::string n; s >> n >> o.t >> o.thr;
      int c = -1; for (int i = 0; i < O_N; ++i) if (n == opNames[i]) c = i;
      if (c < 0) throw std::runtime_error("unknown op " + n);
      o.code = c;
      for (int64_t &v : o.a) s >> v;
      p.ops.push_back(o);
    } else if (k == "fault") {
      sim::Fault f; std::string n; s >> n >> f.cls >> f.idx >> f.param; f.kind = 0;
      for (int i = 0; i < sim::FK_N; ++i) if (n == sim::faultNames[i]) f.kind = i;
      p.faults.push_back(f);
    } else if (k == "dev") { sim::Dev d; s >> d.step >> d.type >> d.arg; p.devs.push_back(d); }
  }
  return p;
}
