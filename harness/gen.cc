// Generators: everything about a run follows from the property and the seed.
#include "plan.h"
#include <algorithm>
#include <stdlib.h>

using sim::Rng;
namespace {
struct G {
  Plan p; Rng r; bool thorough;
  G(const std::string &prop, uint64_t seed, bool t) : r(seed * 7919 + prop[1] * 131 + prop[2]), thorough(t) { p.prop = prop; p.seed = seed; }
  bool pc(double x) { return r.chance(x); }
  int of(std::initializer_list<int> l) { return *(l.begin() + r.below(l.size())); }
  void op(int code, int t = 0, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0) {
    Op o; o.code = code; o.t = t; o.thr = thr; o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4;
    p.ops.push_back(o);
  }
  int thr = 0;
  int64_t ver = 1;

  void sched(bool heavy = false) {
    sim::Config &c = p.cfg;
    c.schedSeed = r.next() >> 1; c.faultSeed = r.next() >> 1; c.entropySeed = r.next() >> 1;
    c.policy = of({0, 0, 0, 1, 1, 2, 3, 4, 5});
    c.pSwitch = of({1500, 8192, 20000, 32768, 60000});
    c.memGap = pc(heavy ? 0.6 : 0.25) ? (pc(0.5) ? r.range(20, 300) : r.range(300, 5000)) : 0;
    c.pSpurious = pc(0.4) ? of({200, 2000, 10000}) : 0;
    c.pJump = pc(0.1) ? 300 : 0;
    c.pctChanges = r.range(1, 8);
    c.ncpu = of({1, 2, 2, 3, 4, 4, 6, 8, 12, 16});
    c.fillAlloc = of({0xA5, 0xFF, 0x00, 0x7F, 0x3C}); c.fillFree = of({0xDD, 0xFF, 0x11});
    c.race = false; c.heapCheck = false;
    p.crashSeed = r.next() >> 1;
  }
  TCfg table() {
    TCfg t;
    t.nAnt = r.range(2, pc(0.1) ? 9 : 5); t.autos = pc(0.25); t.nPol = of({1, 2, 4, 4}); t.nChan = pc(0.1) ? r.range(10, 33) : r.range(1, 7);
    t.dataBits = of({2, 3, 4, 6, 8, 10, 12, 16, 8, 4}); t.wBits = of({2, 3, 4, 6, 8, 10, 12, 16, 8, 12});
    t.dist = of({0, 1, 2, 3, 3}); if (t.dataBits == 16 && pc(0.6)) t.dist = D_UNIFORM; if (t.dataBits == 16 && (t.dist == D_GAUSS || t.dist == D_STUDENT) && pc(0.9)) t.dataBits = 12;
    t.norm = r.below(3);
    t.param = t.dist == D_TRUNC ? (pc(0.3) ? 0.1 * of({11, 17, 23, 37}) : 1.0 + 0.25 * r.below(13)) : t.dist == D_STUDENT ? (pc(0.15) ? 2.3 : of({1, 2, 3, 5, 10})) : 0;
    t.nData = of({1, 1, 1, 2, 3}); t.weightPos = pc(0.6) ? r.below(t.nData + 1) : -1;
    if (t.weightPos >= 0 && pc(0.1)) { t.nData = 0; t.weightPos = 0; }
    int full = t.nAnt * (t.nAnt - 1) / 2 + (t.autos ? t.nAnt : 0);
    t.dropRows = pc(0.15) && full > 3 ? r.range(1, 2) : 0;
    t.antGap = pc(0.15); t.nBlocks = r.range(2, pc(0.2) ? 14 : 6); t.sep = of({0, 0, 0, 1, 2, 3}); t.shuffle = of({0, 0, 1, 2});
    t.amp = r.below(10); t.flagMode = of({0, 0, 1, 2, 3}); t.viaSpec = pc(0.3); t.addCols = pc(0.25);
    t.otherStMan = t.nCols() > 1 && pc(0.12);
    t.extraPartial = pc(0.12) && t.rowsPerBlock() > 1 ? r.range(1, t.rowsPerBlock() - 1) : 0;
    t.dataSeed = r.next() >> 20;
    t.nameLen = pc(0.2) ? r.range(1, 70) : 0;
    return t;
  }
  // sizes that do not fit in 8 or 16 bits
  void manyAntennas(TCfg &t) {
    if (p.cfg.memGap && p.cfg.memGap < 2000) p.cfg.memGap = 2000;   // these are long runs
    t.nAnt = r.range(260, 320); t.autos = 0; t.shuffle = 1; t.antGap = 0; t.nChan = of({1, 2}); t.nPol = of({1, 2});
    t.dropRows = t.nAnt * (t.nAnt - 1) / 2 - r.range(5, 40); t.nBlocks = r.range(2, 5); t.extraPartial = 0;
  }
  void manyRows() {
    p.tables.push_back(table());
    TCfg &t = p.tables[0];
    t.nAnt = r.range(364, 370); t.autos = 0; t.antGap = 0; t.nChan = t.nPol = 1; t.nData = 1; t.weightPos = pc(0.2) ? 1 : -1; t.norm = of({1, 2});
    t.dropRows = 0; t.nBlocks = 2; t.extraPartial = 0; t.flagMode = 0; t.amp = of({0, 1}); t.otherStMan = 0; t.addCols = 0; t.dataBits = of({2, 4, 8}); t.dist = of({1, 3}); t.param = t.dist == 3 ? 2.5 : 0;
    p.cfg.memGap = 0;
    op(O_CREATE, 0, -1); op(O_PUTALL, 0, 0, 0, 2, 1, 0); op(O_CLOSE); if (pc(0.5)) op(O_VERIFYFILE); op(O_OPEN, 0, 0); op(O_CHECK, 0, 0); op(O_CLOSE);
  }
  int nb(const TCfg &t) { return (t.rows() + t.rowsPerBlock() - 1) / t.rowsPerBlock(); }
  // first write of everything
  void writeAll(int ti, bool addRows = true) {
    const TCfg &t = p.tables[ti];
    const int N = nb(t), R = t.rowsPerBlock();
    int k = r.below(5);
    if (k == 4 && addRows && !t.extraPartial) {
      op(O_CREATE, ti, R);
      for (int b = 0; b < N; ++b) {
        if (b) op(O_ADDROWS, ti, R);
        op(O_PUTALL, ti, r.range(1, 2), b, b + 1, ver);
      }
    } else {
      op(O_CREATE, ti, -1);
      if (k == 3) { for (int c = 0; c < t.nCols(); ++c) op(O_PUTCOL, ti, c, ver); }
      else op(O_PUTALL, ti, k, 0, N, ver, of({0, 0, 0, 2, 3, 4, 5}));
    }
    ++ver;
  }
  // some accesses to a table that has a block size
  void randomOps(int ti, int n, bool write, double pflush = 0.05, double pread = 0.45, bool slices = true, int cols = -1, int c0 = 0) {
    const TCfg &t = p.tables[ti];
    const int N = nb(t), R = t.rowsPerBlock(), C = cols > 0 ? cols : t.nCols();
    int hot = r.below(N);
    for (int i = 0; i < n; ++i) {
      int c = c0 + r.below(C), b = pc(0.4) ? hot : r.below(N);
      if (pc(0.1)) hot = r.below(N);
      if (write && pc(pflush)) { op(O_FLUSH, ti, pc(0.3) ? 1 : pc(0.25) ? 2 : 0); continue; }
      if (pc(0.02)) op(O_CPUS, ti, of({1, 2, 3, 8, 16}), -1);
      if (!write || pc(pread)) {
        switch (r.below(8)) {
          case 0: op(O_CHECK, ti, r.below(4)); break;
          case 1: op(O_GETCOL, ti, c); break;
          case 2: case 3: op(O_GETB, ti, c, b, r.below(4)); break;
          default: op(O_GET, ti, c, b * R + r.below(R));
        }
      } else {
        switch (r.below(10)) {
          case 0: case 1: case 2: op(O_PUT, ti, c, b * R + r.below(R), ver++); break;
          case 3: if (slices) op(O_PUTSL, ti, c, b * R + r.below(R), ver++, r.below(t.nChan), 1 + r.below(t.nChan)); else op(O_PUT, ti, c, b * R + r.below(R), ver++); break;
          case 4: case 5: case 6: op(O_PUTB, ti, c, b, ver++, r.below(4)); break;
          case 7: op(O_PUTB, ti, c, b, ver++, r.below(4), r.range(4, 12)); break;
          case 8: op(O_PUTALL, ti, r.below(3), b, std::min(N, b + 1 + (int)r.below(4)), ver++, r.below(4)); break;
          case 9: if (pc(0.3)) op(O_PUTCOL, ti, c, ver++); else op(O_PUTB, ti, c, N - 1, ver++); break;
        }
      }
    }
  }
  // columns that are added later on, which is refused when there are data
  void lateColumns(int ti) {
    const TCfg &t = p.tables[ti]; const int C = t.nCols(), first = C - t.lateCols;
    if (pc(0.3)) op(O_CHECK, ti, r.below(3));
    if (pc(0.3)) op(O_FLUSH, ti, pc(0.5));
    if (pc(0.3)) { op(O_CLOSE, ti); op(O_OPEN, ti, 1); }
    for (int c = first; c < C; ++c) {
      if (pc(0.25)) {   // too late
        const int w = r.below(c);
        if (pc(0.5)) op(O_PUT, ti, w, 0, ver++);
        else { op(O_PUTB, ti, w, 0, ver); if (pc(0.7)) { op(O_PUT, ti, w, t.rowsPerBlock(), ver); if (pc(0.5)) op(O_FLUSH, ti, pc(0.5)); if (pc(0.3)) op(O_PUTALL, ti, r.below(3), 0, nb(t), ver); } ++ver; }
        if (pc(0.2)) op(O_GET, ti, w, r.below(t.rowsPerBlock()));
      }
      op(O_ADDCOL, ti, c);
      if (pc(0.3)) op(O_CHECK, ti, r.below(3));
      if (pc(0.2)) { op(O_CLOSE, ti); op(O_OPEN, ti, 1); }
    }
  }
  // columns are written up to different blocks and in their own order
  void writeSome(int ti, bool create = true) {
    const TCfg &t = p.tables[ti]; const int N = nb(t), C = t.nCols();
    if (create) op(O_CREATE, ti, -1);
    std::vector<int> o; for (int c = 0; c < C; ++c) o.push_back(c);
    for (int i = C; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    bool firstCol = true;
    if (t.otherStMan) op(O_PUTALL, ti, r.below(3), 0, 2, ver++);
    for (int c : o) {
      int last = pc(0.5) ? N : (int)r.below(N + 1);
      if (firstCol && c < C - t.lateCols) { op(O_PUTB, ti, c, 0, ver); op(O_PUTB, ti, c, 1, ver); firstCol = false; last = std::max(last, 2); }
      std::vector<int> bo; for (int b = 0; b < last; ++b) bo.push_back(b);
      if (pc(0.3)) for (int i = last; i > 1; --i) std::swap(bo[i - 1], bo[r.below(i)]);
      for (int b : bo) { op(O_PUTB, ti, c, b, ver, r.below(3)); if (pc(0.1)) op(O_GETB, ti, r.below(C), r.below(N), 0); }
      ++ver;
    }
  }
  // a table that existed before under the same name
  void earlier(int ti) {
    const TCfg &t = p.tables[ti]; const int N = nb(t);
    op(O_CREATE, ti, -1);
    switch (r.below(4)) {
      case 0: op(O_PUTB, ti, r.below(t.nCols()), 0, ver++, 0, pc(0.5) ? r.range(2, 12) : 0); break;
      case 1: writeSome(ti, false); break;
      case 2: op(O_PUTALL, ti, r.below(3), 0, N, ver++); break;
      case 3: op(O_PUTALL, ti, 0, 0, 2, ver++); op(O_CLOSE, ti); op(O_OPEN, ti, 1); if (pc(0.7)) op(O_PUTB, ti, r.below(t.nCols()), r.below(N), ver++); break;
    }
    if (pc(0.3)) op(O_CHECK, ti, r.below(3));
    if (pc(0.2)) op(O_FLUSH, ti, pc(0.5));
    op(O_DELETE, ti);
  }
  // columns are removed until nothing is left, and new ones take their place
  void renew(int ti, bool reopen = true) {
    const TCfg &t = p.tables[ti]; const int C = t.nCols();
    std::vector<int> o; for (int c = 0; c < C; ++c) o.push_back(c);
    for (int i = C; i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    int n = C;
    if (pc(0.3)) n = r.range(1, C);
    for (int i = 0; i < n; ++i) {
      if (reopen) { if (i || pc(0.5)) { op(O_CLOSE, ti); op(O_OPEN, ti, 1); } }
      if (pc(0.3)) randomOps(ti, r.range(1, 3), true, 0.1, 0.4, false);
      op(O_RMCOL, ti, o[i]); if (pc(0.3)) op(O_CHECK, ti, r.below(3)); if (pc(0.2)) op(O_FLUSH, ti, pc(0.5));
    }
    if (reopen && pc(0.3)) { op(O_CLOSE, ti); op(O_OPEN, ti, 1); op(O_CHECK, ti, r.below(3)); }
    for (int i = 0; i < n; ++i) if (pc(0.8)) { op(O_ADDCOL, ti, o[i]); if (pc(0.2)) op(O_CHECK, ti, r.below(3)); if (reopen && pc(0.2)) { op(O_CLOSE, ti); op(O_OPEN, ti, 1); } }
    writeSome(ti, false);
  }
  // a column disappears before the first block is complete
  void removeEarly(int ti) {
    const TCfg &t = p.tables[ti]; const int c = r.below(t.nCols()), d = r.below(t.nCols());
    op(O_CREATE, ti, -1);
    if (pc(0.7)) op(O_PUTB, ti, c, 0, ver++, 0, pc(0.5) ? r.range(4, 12) : 0);
    if (pc(0.3)) op(O_PUTB, ti, d, 0, ver++, 0, pc(0.5) ? r.range(4, 12) : 0);
    op(O_RMCOL, ti, c); if (pc(0.4)) op(O_CHECK, ti, r.below(3));
    if (pc(0.5)) op(O_ADDCOL, ti, c);
    if (pc(0.2)) op(O_RMCOL, ti, d);
    writeSome(ti, false);
  }
  // all or some blocks
  void writeAny(int ti) { if (pc(0.3)) writeSome(ti); else writeAll(ti); }
  void reopenCheck(int ti) {
    op(O_CLOSE, ti); op(O_OPEN, ti, pc(0.2), pc(0.1)); if (pc(0.3)) op(O_GETCOL, ti, r.below(p.tables[ti].nCols())); op(O_CHECK, ti, r.below(4)); op(O_CLOSE, ti);
  }
  void file(std::initializer_list<std::pair<int, int>> rates, int maxF) {
    for (auto &x : rates) p.cfg.rate[x.first] = x.second;
    p.cfg.maxFaults = maxF;
  }

  // positions in the file that need more than 31 and 32 bits
  void farBlocks() {
    TCfg t = table();
    t.nAnt = 3; t.autos = t.dropRows = t.antGap = t.addCols = t.extraPartial = 0; t.nPol = 4; t.nChan = 16384; t.nData = 1; t.weightPos = pc(0.5) ? (int)r.below(2) : -1; t.otherStMan = 0;
    t.dataBits = 16; t.dist = D_UNIFORM; t.param = 0; t.norm = of({N_RF, N_ROW}); t.flagMode = 0; t.nBlocks = 5600;
    p.tables.push_back(t);
    const int64_t R = 3;
    const int64_t blocks[] = {2750, 5500, 5599, 2720 + (int64_t)r.below(100), 5400 + (int64_t)r.below(200)};   // 2^31 is in block 2730, 2^32 in block 5460
    op(O_CREATE, 0, -1);
    for (int64_t b = 0; b < 2; ++b) for (int c = 0; c < t.nCols(); ++c) op(O_PUTB, 0, c, b, ver);
    ++ver;
    std::vector<int64_t> used{0, 1};
    for (int n = r.range(2, 4); n > 0; --n) {
      const int64_t b = blocks[r.below(5)]; const int c = r.below(t.nCols());
      op(O_PUTB, 0, c, b, ver++); used.push_back(b);
      if (pc(0.3)) op(O_GET, 0, r.below(t.nCols()), used[r.below(used.size())] * R + r.below(R));
    }
    op(O_CLOSE, 0); op(O_OPEN, 0, pc(0.2));
    for (int64_t b : used) op(O_GETB, 0, r.below(t.nCols()), b, r.below(3));
    op(O_GETB, 0, 0, r.below(3000)); op(O_GETB, 0, 0, 5599); op(O_GETB, 0, 0, 0);
    op(O_CLOSE, 0);
  }
  void c01() {
    sched();
    if (pc(0.025)) { p.cfg.memGap = 0; farBlocks(); return; }
    if (pc(0.003)) { manyRows(); return; }
    p.tables.push_back(table());
    if (pc(0.04)) { auto &t = p.tables[0]; t.nBlocks = r.range(40, 120); t.nAnt = 3; t.nChan = 2; t.flagMode = of({0, 1}); }
    else if (pc(0.02)) manyAntennas(p.tables[0]);
    writeAll(0);
    reopenCheck(0);
  }
  // the first block row by row, with reads
  void firstBlocks(int ti) {
    const TCfg &t = p.tables[ti]; const int R = t.rowsPerBlock();
    op(O_CREATE, ti, -1);
    for (int k = 0; k < R; ++k) {
      for (int c = 0; c < t.nCols(); ++c) op(O_PUT, ti, c, k, ver);
      if (pc(0.3)) op(O_GET, ti, r.below(t.nCols()), r.below(k + 3));
      if (pc(0.1)) op(O_FLUSH, ti, pc(0.5));
    }
    op(O_PUTALL, ti, r.range(1, 2), 1, 2, ver++);
  }
  void c02() {
    sched();
    p.tables.push_back(table());
    if (pc(0.06)) earlier(0);
    if (pc(0.3)) firstBlocks(0); else if (pc(0.3)) { op(O_CREATE, 0, -1); op(O_PUTALL, 0, r.below(3), 0, 2, ver++); } else writeAll(0);
    int sessions = r.range(1, 3);
    for (int s = 0; s < sessions; ++s) {
      if (pc(0.1)) { op(O_RMROW, 0, r.range(1, p.tables[0].rowsPerBlock() * 2)); if (pc(0.7)) op(O_ADDROWS, 0, r.range(1, p.tables[0].rowsPerBlock() * 2)); }
      randomOps(0, r.range(3, thorough ? 60 : 25), true);
      if (s + 1 < sessions) { op(O_CLOSE); if (pc(0.15)) op(O_RENAME); if (pc(0.3)) { op(O_OPEN, 0, 0); op(O_GETB, 0, 0, 0, 0); op(O_REOPENRW); } else op(O_OPEN, 0, 1); }
    }
    reopenCheck(0);
  }
  void c03() {
    sched();
    TCfg t = table(); t.nBlocks = r.range(3, 8); p.tables.push_back(t);
    const int N = nb(t), R = t.rowsPerBlock();
    if (pc(0.1)) earlier(0);
    op(O_CREATE, 0, pc(0.3) ? R * 2 : -1);
    if (pc(0.15)) { op(O_CHECK); if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 0); op(O_CHECK, 0, 2); op(O_CLOSE); op(O_OPEN, 0, 1); } }
    const int first = r.below(t.nCols());
    op(O_PUTB, 0, first, 0, ver++);
    if (pc(0.3)) op(O_CHECK, 0, r.below(3));
    op(O_PUTB, 0, first, 1, ver++, pc(0.5) ? 0 : r.below(4), pc(0.5) ? r.range(3, 13) : 0);
    op(O_PUT, 0, first, R + r.below(R), ver++);
    if (pc(0.5)) op(O_ADDROWS, 0, R * r.range(1, 3));
    int n = r.range(1, 12);
    const bool remove = pc(0.4);
    for (int i = 0; i < n; ++i) {
      int c = r.below(t.nCols()), b = r.below(N);
      switch (r.below(remove ? 8 : 6)) {
        case 0: op(O_PUT, 0, c, b * R + r.below(R), ver++); break;
        case 1: op(O_PUTB, 0, c, b, ver++, r.below(4), r.range(2, 14)); break;
        case 2: op(O_GETB, 0, c, b, r.below(3)); break;
        case 3: op(O_CHECK, 0, r.below(4)); break;
        case 4: if (pc(0.5)) op(O_FLUSH, 0, 0); else op(O_PUTSL, 0, c, b * R + r.below(R), ver++, r.below(t.nChan), 1); break;
        case 5: if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 1); } else op(O_ADDROWS, 0, r.range(1, R)); break;
        case 6: case 7:
          op(O_RMROW, 0, pc(0.5) ? r.range(1, R) : r.range(1, R * N));
          if (pc(0.3)) op(O_CHECK, 0, r.below(3));
          if (pc(0.3)) op(O_FLUSH, 0, 0);
          if (pc(0.3)) { op(O_CLOSE); op(O_OPEN, 0, 1); }
          if (pc(0.8)) op(O_ADDROWS, 0, r.range(1, R * 3));
          break;
      }
    }
    op(O_CHECK, 0, r.below(4));
    reopenCheck(0);
  }
  void c04() {
    sched();
    TCfg t = table();
    if (t.nData == 0) t.nData = 1;
    if (t.nCols() < 2) { if (pc(0.5)) t.nData = r.range(2, 4); else { t.nData = r.range(1, 3); t.weightPos = r.below(t.nData + 1); } }
    t.otherStMan = pc(0.15) && t.nCols() > 1;
    p.tables.push_back(t);
    const int N = nb(t), C = t.nCols();
    const bool late = !t.otherStMan && pc(0.2);
    if (late) p.tables[0].lateCols = r.range(1, C - 1);
    if (pc(0.06)) earlier(0);
    if (!late && pc(0.12)) removeEarly(0);
    else {
      op(O_CREATE, 0, -1);
      if (late) lateColumns(0);
      writeSome(0, false);
    }
    if (late && pc(0.5)) op(O_ADDCOL, 0, C - 1);
    op(O_CHECK, 0, r.below(3));
    if (pc(0.6)) { op(O_CLOSE); op(O_OPEN, 0, 1); op(O_CHECK, 0, r.below(3)); }
    // changes of one column leave the others alone
    int c = r.below(C), n = r.range(1, 6);
    for (int i = 0; i < n; ++i) { op(O_PUTB, 0, c, r.below(N), ver++, r.below(3), pc(0.5) ? 8 : 0); if (pc(0.3)) op(O_GETB, 0, r.below(C), r.below(N), 0); }
    op(O_CHECK, 0, r.below(3));
    if (pc(0.55)) {
      if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 1); }
      op(O_RMCOL, 0, r.below(C)); op(O_CHECK, 0, r.below(3));
      if (pc(0.5)) { randomOps(0, r.range(1, 6), true, 0.1, 0.4, false); }
      if (pc(0.4)) { op(O_CLOSE); op(O_OPEN, 0, 1); op(O_CHECK); if (pc(0.5)) op(O_RMCOL, 0, r.below(C)); randomOps(0, r.range(1, 6), true, 0.1, 0.4, false); }
    }
    if (pc(0.15)) renew(0);
    reopenCheck(0);
    if (pc(0.4)) op(O_VERIFYFILE);
  }
  void c05() {
    sched();
    TCfg t = table(); t.staticSeed = 1; t.viaSpec = 0; t.otherStMan = 0;
    if (pc(0.15)) { t.nData = 0; t.weightPos = 0; t.staticSeed = pc(0.5); }
    t.nBlocks = r.range(3, 16); p.tables.push_back(t); p.tables.push_back(t);
    // the same calls for both tables
    const int N = nb(t), C = t.nCols();
    std::vector<Op> seq;
    G h(p.prop, p.seed, thorough); h.p.tables = p.tables; h.r = Rng(r.next());
    h.op(O_CREATE, 0, -1);
    int mode = h.r.below(3);
    if (mode < 2) { h.op(O_PUTALL, 0, 2, 0, 2, h.ver); if (h.pc(0.3)) h.op(O_FLUSH, 0, 0); h.op(O_PUTALL, 0, h.r.below(3), 2, N, h.ver); }
    else for (int c = 0; c < C; ++c) h.op(O_PUTCOL, 0, c, h.ver);
    ++h.ver;
    int extra = h.r.below(4);
    for (int i = 0; i < extra; ++i) {
      h.op(O_FLUSH, 0, h.pc(0.3));
      int b = h.r.below(N);
      // the seed is not stored: a table that is opened again is compressed with other random numbers
      if (t.nData == 0 && h.pc(0.3)) { h.op(O_CLOSE); h.op(O_OPEN, 0, 1); }
      h.op(O_PUTALL, 0, h.r.below(3), b, std::min(N, b + 3), h.ver++);
    }
    h.op(O_CLOSE);
    seq = h.p.ops;
    bool par = pc(0.4);
    if (par) {
      // create and open in the main thread, write at the same time
      size_t k = 1; bool simple = true;
      for (auto &o : seq) if (o.code == O_OPEN) simple = false;
      if (simple) {
        for (int x = 0; x < 2; ++x) { Op o = seq[0]; o.t = x; p.ops.push_back(o); }
        op(O_PAR);
        for (int x = 0; x < 2; ++x) for (size_t i = k; i + 1 < seq.size(); ++i) { Op o = seq[i]; o.t = x; o.thr = x + 1; p.ops.push_back(o); }
        op(O_ENDPAR);
        op(O_CLOSE, 0); op(O_CLOSE, 1);
      } else par = false;
    }
    if (!par)
      for (int x = 0; x < 2; ++x) {
        op(O_CPUS, 0, of({1, 2, 4, 8, 16}), of({0xA5, 0xFF, 0x00, 0x7F, 0x3C, 0x01}));
        for (Op o : seq) { o.t = x; p.ops.push_back(o); if (x && pc(0.2)) op(O_YIELD, 0, r.range(1, 40)); }
      }
    op(O_EXPECT, 0, 2, 1);
  }
  void c06() {
    sched(); p.cfg.pSpurious = pc(0.6) ? of({500, 5000, 20000}) : 0;
    if (pc(0.5)) p.cfg.policy = of({2, 3, 4, 1});
    bool mem = pc(0.35);
    TCfg t = table();
    if (mem) {
      t.nAnt = 5; t.autos = 0; t.dropRows = 0; t.nChan = 16; t.nPol = 4; t.nData = 1; t.weightPos = -1; t.nBlocks = 160; t.flagMode = 0; t.extraPartial = 0; t.otherStMan = 0; t.norm = of({1, 2});
      t.amp = 0; t.sep = 0; t.staticSeed = pc(0.3);
      p.cfg.policy = of({2, 2, 4, 0, 5}); p.cfg.pSwitch = of({200, 1500, 20000}); p.cfg.memGap = 0; p.cfg.ncpu = of({1, 2, 4, 8});
      p.tables.push_back(t);
      op(O_CREATE, 0, -1); op(O_PUTALL, 0, 2, 0, 2, ver); op(O_FLUSH); op(O_EXPECT, 0, 4);
      op(O_PUTALL, 0, 2, 2, 160, ver); op(O_EXPECT, 0, 5, memLimit(t)); op(O_CLOSE); op(O_OPEN, 0, 0); op(O_GETB, 0, 0, 159); op(O_GETB, 0, 0, 80); op(O_CLOSE);
      return;
    }
    if (pc(0.12)) {
      // equal sessions: nothing may remain
      t.nBlocks = r.range(2, 8); p.tables.push_back(t);
      writeAll(0); op(O_CLOSE); op(O_EXPECT, 0, 7);
      const bool rw = pc(0.8), fl = pc(0.5), put = pc(0.6), tr = !rw && pc(0.3); const int w = r.below(t.nCols()), b = r.below(nb(t)), how = r.below(3);
      for (int n = 0; n < 5; ++n) {
        op(O_OPEN, 0, rw, tr);
        if (rw && put) op(O_PUTB, 0, w, b, ver);
        op(O_GETB, 0, w, (b + 1) % nb(t), 0);
        if (rw && fl) op(O_FLUSH, 0, how);
        if (how == 2 && fl) op(O_COPY, 0);
        if (rw && put) op(O_PUTALL, 0, how, 0, nb(t), ver);
        if (how == 1) op(O_BADCOL, 0, 0, b);
        op(O_CLOSE); op(O_EXPECT, 0, 7);
      }
      return;
    }
    t.nBlocks = r.range(4, 30); if (pc(0.3)) t.nAnt = 2; p.tables.push_back(t);
    if (pc(0.05)) earlier(0);
    if (pc(0.1) && t.nCols() > 1 && !t.otherStMan) { p.tables[0].lateCols = 1; op(O_CREATE, 0, -1); lateColumns(0); writeSome(0, false); op(O_ADDCOL, 0, t.nCols() - 1); }
    else if (pc(0.06)) removeEarly(0);
    else writeAny(0);
    if (pc(0.06)) renew(0);
    if (pc(0.1)) { op(O_RMROW, 0, r.range(1, t.rowsPerBlock() * 2)); op(O_ADDROWS, 0, t.rowsPerBlock()); }
    randomOps(0, r.range(0, 25), true, 0.2, 0.4);
    if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 1); randomOps(0, r.range(1, 15), true, 0.2, 0.3); }
    if (pc(0.3)) { op(O_CLOSE); op(O_OPEN, 0, 1); op(O_CLOSE); }
    reopenCheck(0);
  }
  static int64_t memLimit(const TCfg &t) {
    int64_t block = int64_t(t.rowsPerBlock()) * t.nPol * t.nChan * 8;
    return 64 * block + 40000;   // measured on the unchanged code: less than half of this
  }
  void badAntennae(int ti) {
    const TCfg &t = p.tables[ti];
    for (int n = r.range(1, 4); n > 0; --n) {
      op(O_BADANT, ti, r.below(t.nCols()), r.below(t.rows()), r.below(1000) * 8 + r.below(8), pc(0.6));
      if (pc(0.4)) op(O_GETB, ti, r.below(t.nCols()), r.below(nb(t)), r.below(3));
      if (pc(0.3)) randomOps(ti, r.range(1, 3), true);
    }
  }
  void c07() {
    sched(true); p.cfg.race = true; p.cfg.heapCheck = true;
    if (p.cfg.policy == 5) p.cfg.policy = 0;
    TCfg t = table(); t.nBlocks = r.range(2, 6); p.tables.push_back(t);
    switch (r.below(8)) {
      case 7: if (pc(0.7)) p.tables[0].norm = N_AF; writeAny(0); badAntennae(0); reopenCheck(0); break;
      case 5: if (t.nCols() > 1 && !t.otherStMan) { p.tables[0].lateCols = 1; op(O_CREATE, 0, -1); lateColumns(0); writeSome(0, false); op(O_ADDCOL, 0, t.nCols() - 1); reopenCheck(0); break; }   // fall through
      case 6: writeAny(0); op(O_RMROW, 0, r.range(1, t.rowsPerBlock() * 2)); op(O_ADDROWS, 0, r.range(1, t.rowsPerBlock())); randomOps(0, r.range(1, 8), true, 0.1, 0.4); reopenCheck(0); break;
      case 0: if (pc(0.3)) removeEarly(0); else writeAny(0); if (pc(0.4)) renew(0); reopenCheck(0); break;
      case 1: writeAll(0); randomOps(0, r.range(3, 20), true, 0.15, 0.4); reopenCheck(0); break;
      case 2: firstBlocks(0); randomOps(0, r.range(3, 12), true, 0.1, 0.5); op(O_CLOSE); op(O_OPEN, 0, 1); randomOps(0, r.range(3, 10), true); op(O_CLOSE); break;
      case 3: writeAll(0); op(O_RMCOL, 0, r.below(t.nCols())); randomOps(0, r.range(2, 8), true, 0.1, 0.4, false); op(O_COPY); reopenCheck(0); break;
      default: op(O_CREATE, 0, -1); op(O_PUTALL, 0, 2, 0, 2, ver++); randomOps(0, r.range(1, 12), true, 0.1, 0.3); if (pc(0.5)) op(O_ADDROWS, 0, t.rowsPerBlock()); reopenCheck(0);
    }
  }
  void c08() {
    sched();
    TCfg t = table(); t.nBlocks = r.range(3, 9); p.tables.push_back(t);
    writeAny(0);
    if (pc(0.7)) op(O_CLOSE);
    file({{sim::FK_READ_EIO, of({1500, 6000, 20000, 50000})}, {sim::FK_READ_SHORT, pc(0.3) ? 8000 : 0}, {sim::FK_READ_EINTR, pc(0.3) ? 8000 : 0}}, r.range(1, 6));
    p.cfg.persist = pc(0.25);
    bool rw = pc(0.6);
    if (!rw && pc(0.4)) { p.cfg.rate[sim::FK_BAD_ALLOC] = of({30, 200, 1500}); p.cfg.heapCheck = true; p.mode = "loud"; }
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; ++k) {
      op(O_EXPECT, 0, 6, 1);
      bool inOpen = pc(0.25);
      if (inOpen) { op(O_FAULTS, 0, 1); op(O_OPEN, 0, rw, !rw && pc(0.2)); } else { op(O_OPEN, 0, rw, !rw && pc(0.2)); op(O_FAULTS, 0, 1); }
      randomOps(0, r.range(2, 14), rw, 0.05, 0.7);
      op(O_FAULTS, 0, 0); op(O_EXPECT, 0, 6, 0);
      op(O_OPEN, 0, rw); op(O_CHECK, 0, r.below(4));
      if (rw && pc(0.5)) randomOps(0, r.range(1, 5), true);
      op(O_CLOSE);
    }
    op(O_OPEN, 0, 0); op(O_CHECK, 0, r.below(4)); op(O_CLOSE);
  }
  void c09() {
    sched(); p.mode = "loud";
    TCfg t = table(); t.nBlocks = r.range(2, 8);
    p.tables.push_back(t);
    int k = r.below(4);
    file({{sim::FK_WRITE_EIO, k == 0 || k == 3 ? of({1500, 6000, 20000, 50000}) : 0}, {sim::FK_WRITE_ENOSPC, k == 1 || k == 3 ? of({1500, 6000, 20000, 50000}) : 0}, {sim::FK_SYNC_EIO, k == 2 ? of({20000, 50000}) : 6000},
          {sim::FK_WRITE_SHORT, pc(0.3) ? 6000 : 0}, {sim::FK_OPEN_FAIL, pc(0.1) ? 6000 : 0}}, r.range(1, 3));
    p.cfg.persist = pc(0.5);
    op(O_EXPECT, 0, 6, 2);
    if (pc(0.35)) { op(O_FAULTS, 0, 1); writeAll(0); }
    else {
      writeAll(0);
      if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 1); }
      op(O_CRASH); 
      randomOps(0, r.range(2, 14), true, 0.2, 0.15);
      if (pc(0.15)) { op(O_RMCOL, 0, r.below(t.nCols())); if (pc(0.5)) randomOps(0, r.range(1, 6), true, 0.2, 0.15); }
      else if (pc(0.1)) renew(0, false);
      if (pc(0.1)) { op(O_RMROW, 0, r.range(1, t.rowsPerBlock() * 2)); if (pc(0.7)) op(O_ADDROWS, 0, r.range(1, t.rowsPerBlock())); }
    }
    if (pc(0.5)) op(O_FLUSH, 0, pc(0.6));
    op(O_CLOSE);
    op(O_FAULTS, 0, 0); op(O_EXPECT, 0, 6, 0);
    op(O_OPEN, 0, pc(0.5)); op(O_CHECK, 0, r.below(3)); op(O_CLOSE);
  }
  void crash(bool flushy) {
    sched(); p.mode = "loud";
    TCfg t = table(); t.nBlocks = r.range(3, 10); t.otherStMan = t.otherStMan && pc(0.5);
    p.tables.push_back(t);
    p.cfg.maxFaults = 1;
    int kind = r.below(5);
    if (kind < 2) p.cfg.rate[sim::FK_KILL] = of({700, 2500, 8000, 20000});
    else if (kind < 4) p.cfg.rate[sim::FK_POWER] = of({700, 2500, 8000, 20000});
    else p.cfg.rate[sim::FK_KILL_STEP] = of({2000, 8000, 40000});
    const int N = nb(t);
    int start = r.below(4);
    if (start == 0) { op(O_CREATE, 0, -1); op(O_CRASH); op(O_PUTALL, 0, r.below(3), 0, N, ver++, of({0, 0, 2})); if (flushy) op(O_FLUSH, 0, pc(0.7)); }
    else if (start == 1) { op(O_CREATE, 0, -1); op(O_PUTALL, 0, r.below(3), 0, r.range(2, N), ver++); op(O_CRASH); }
    else { writeAny(0); if (pc(0.6)) { op(O_CLOSE); op(O_OPEN, 0, 1); } op(O_CRASH); }
    int rounds = r.range(1, flushy ? 6 : 3);
    for (int k = 0; k < rounds; ++k) {
      randomOps(0, r.range(1, flushy ? 4 : 9), true, flushy ? 0.25 : 0.03, 0.15);
      if (flushy) op(O_FLUSH, 0, pc(0.7));
    }
    if (pc(0.5)) op(O_FAULTS, 0, 0);
    reopenCheckNoCrash(0);
  }
  void reopenCheckNoCrash(int ti) { op(O_CLOSE, ti); op(O_FAULTS, ti, 0); op(O_OPEN, ti, 0); op(O_CHECK, ti, 0); op(O_CLOSE, ti); }
  void c12() {
    sched();
    if (pc(0.004)) { manyRows(); return; }
    p.tables.push_back(table());
    TCfg &t = p.tables[0];
    if (pc(0.02)) manyAntennas(t);
    switch (r.below(5)) {
      case 0: case 1:
        writeAny(0); op(O_SPEC); if (pc(0.4)) randomOps(0, r.range(1, 8), true, 0.1, 0.2, false);
        op(O_CLOSE); op(O_VERIFYFILE); op(O_OPEN, 0, pc(0.5)); op(O_SPEC); op(O_CHECK, 0, r.below(3)); op(O_CLOSE); op(O_VERIFYFILE); break;
      case 2: case 3:
        op(O_CREATE, 0, -1); op(O_CLOSE); op(O_WRITEFILE, 0, ver++, pc(0.3) ? r.range(1, 342) : 0); op(O_OPEN, 0, pc(0.5)); op(O_SPEC); op(O_CHECK, 0, r.below(3));
        if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, 1); randomOps(0, r.range(1, 8), true, 0.1, 0.3, false); }
        op(O_CLOSE); op(O_VERIFYFILE); op(O_OPEN, 0, 0); op(O_CHECK, 0, r.below(3)); op(O_CLOSE); break;
      default:
        t.otherStMan = 0;
        writeAll(0); if (pc(0.5)) { op(O_CLOSE); op(O_OPEN, 0, pc(0.5)); } op(O_COPY); op(O_CHECK, 0, 1); op(O_CLOSE); op(O_VERIFYFILE);
    }
    if (pc(0.3)) {   // other format versions must be refused
      int64_t major = of({0, 1, 1, 2, 3, 256, 257}), minor = of({0, 1, 2, 256});
      if (major == 1 && minor == 0) minor = 1;
      op(O_CLOSE); op(O_CUT, 0, major, 3, minor); op(O_OPEN, 0, pc(0.5)); op(O_CUT, 0, 1, 3, 0); op(O_OPEN, 0, 0); op(O_CHECK, 0, 1); op(O_CLOSE);
    }
    if (pc(0.15)) {   // as many columns as the table has
      op(O_CLOSE); op(O_CUT, 0, of({-1, 1, 1, 2, 255, 256, 65536}), 4); op(O_OPEN, 0, pc(0.5)); op(O_CUT, 0, 0, 4); op(O_OPEN, 0, 0); op(O_CHECK, 0, 1); op(O_CLOSE);
    }
  }
  void c13() {
    sched();
    TCfg t = table(); t.nData = of({1, 1, 2}); t.weightPos = -1; t.norm = of({1, 2, 2}); t.amp = of({0, 1}); t.flagMode = 0; t.dataBits = of({2, 3, 4, 6}); t.dropRows = 0; t.extraPartial = 0; t.otherStMan = 0; t.staticSeed = 0;
    t.dist = of({0, 1, 3}); t.param = t.dist == D_TRUNC ? 2.5 : 0;
    t.nAnt = r.range(4, 6); t.nChan = r.range(8, 16); t.nPol = 4; t.nBlocks = r.range(3, 7); t.shuffle = 0; t.autos = 0;
    bool two = pc(0.6);
    p.tables.push_back(t); if (two) { t.dataSeed = pc(0.5) ? t.dataSeed : r.next() >> 20; p.tables.push_back(t); }
    for (size_t i = 0; i < p.tables.size(); ++i) { op(O_CREATE, i, -1); op(O_PUTALL, i, r.below(3), 0, t.nBlocks, 1); if (pc(0.5)) op(O_FLUSH, i, 0); op(O_CLOSE, i); if (pc(0.3)) { op(O_OPEN, i, 1); op(O_PUTALL, i, 0, 0, t.nBlocks, 2); op(O_CLOSE, i); } }
    for (size_t i = 0; i < p.tables.size(); ++i) op(O_OPEN, i, 0);
    op(O_EXPECT, 0, 1);
    for (size_t i = 0; i < p.tables.size(); ++i) op(O_CLOSE, i);
  }
  void c14() {
    sched();
    TCfg t = table(); t.plain = of({1, 2, 2}); t.otherStMan = t.nameLen = 0; t.viaSpec = 0; t.addCols = 0; t.extraPartial = 0; t.flagMode = of({0, 0, 1}); t.staticSeed = pc(0.2);
    if (t.nData == 0 && pc(0.7)) t.nData = 1;
    if (t.dist == D_STUDENT) t.param = 1.0;
    t.nBlocks = r.range(2, 6);
    bool irregular = pc(0.15), faults = !irregular && pc(0.12);
    if (irregular) { p.cfg.heapCheck = true; if (pc(0.25) && t.rowsPerBlock() > 1) t.extraPartial = r.range(1, t.rowsPerBlock() - 1); }
    p.tables.push_back(t);
    const int C = t.nCols(), all = (1 << C) - 1;
    op(O_CREATE, 0, -1);
    op(O_PUTALL, 0, r.below(3), 0, nb(t), ver++);
    if (pc(0.2)) for (int c = 0; c < C; ++c) for (int b = 0; b < nb(t); ++b) if (pc(0.7)) op(O_PUTB, 0, c, b, ver++, 0, pc(0.3) ? 8 : 0);
    op(O_EXPECT, 0, 3);
    const int mask = t.nData && pc(0.15) ? 0 : pc(0.55) ? all : 1 + r.below(all);
    if (irregular) {
      const int kind = r.below(4), at = r.below(t.rows());
      const bool change = !t.extraPartial;
      if (change) op(O_IRREG, 0, kind, at);
      op(O_CLOSE);
      // one row in a block can not be moved elsewhere
      if (!change || kind < 2 || t.rowsPerBlock() > 1) op(O_TOOL, 0, 0, pc(0.3), mask, pc(0.4) ? r.range(1, 1000) : 0, 2);
      op(O_OPEN, 0, 1); op(O_CHECK, 0, r.below(3));
      if (change) op(O_IRREG, 0, kind, at, 1);
    }
    op(O_CLOSE);
    if (faults) {
      p.mode = "loud"; op(O_EXPECT, 0, 6, 2);
      file({{sim::FK_WRITE_EIO, of({0, 6000, 50000})}, {sim::FK_WRITE_ENOSPC, of({0, 6000, 50000})}, {sim::FK_READ_EIO, of({0, 3000, 20000})}}, r.range(1, 3));
      p.cfg.persist = pc(0.5);
    }
    int n = r.range(1, 4);
    bool comp = false;
    for (int i = 0; i < n; ++i) {
      int which = comp ? (pc(0.75) ? 1 : 0) : (pc(0.9) ? 0 : 1), m = i && pc(0.3) ? 1 + (int)r.below(all) : mask;
      op(O_TOOL, 0, which, pc(0.2), m, pc(0.4) ? r.range(1, 1000) : 0, (faults && pc(0.6)) + (pc(0.25) ? 4 : 0));
      if (which == 0) comp = true; else comp = false;
      op(O_OPEN, 0, pc(0.3)); op(O_CHECK, 0, r.below(3)); op(O_SPEC);
      if (pc(0.15)) { op(O_CLOSE); op(O_OPEN, 0, 1); op(O_PUTB, 0, r.below(C), r.below(nb(t)), ver++); }
      op(O_CLOSE);
      if (pc(0.4)) op(O_VERIFYFILE);
    }
  }
  void c15() {
    sched();
    TCfg t = table(); p.tables.push_back(t);
    writeAny(0); op(O_CLOSE); op(O_SNAP);
    bool faults = pc(0.3);
    if (faults) { file({{sim::FK_READ_EIO, 6000}, {sim::FK_READ_SHORT, 6000}, {sim::FK_READ_EINTR, 6000}}, r.range(1, 4)); }
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
      bool rw = pc(0.5);
      if (faults) op(O_EXPECT, 0, 6, 1);
      op(O_OPEN, 0, rw, !rw && pc(0.4)); if (faults) op(O_FAULTS, 0, 1);
      randomOps(0, r.range(1, 8), false);
      if (pc(0.2) && !rw) op(O_REOPENRW);
      if (pc(0.4)) op(O_FLUSH, 0, pc(0.5));
      if (faults) { op(O_FAULTS, 0, 0); op(O_EXPECT, 0, 6, 0); }
      if (pc(0.2)) op(O_COPY);
      op(O_CLOSE); op(O_CMPSNAP);
      if (pc(0.15)) op(O_RENAME);
    }
    op(O_OPEN, 0, 0); op(O_CHECK); op(O_CLOSE); op(O_CMPSNAP);
  }
  void c16() {
    sched();
    TCfg t = table(); if (pc(0.3)) { t.nChan = r.range(20, 64); t.nAnt = r.range(4, 7); } p.tables.push_back(t);
    file({{sim::FK_READ_SHORT, of({0, 8000, 40000})}, {sim::FK_READ_EINTR, of({0, 8000, 30000})}, {sim::FK_WRITE_SHORT, of({0, 8000, 40000})}, {sim::FK_WRITE_EINTR, of({0, 8000, 30000})}}, pc(0.5) ? 4 : 400);
    op(O_FAULTS, 0, 1);
    writeAll(0);
    if (pc(0.5)) randomOps(0, r.range(1, 12), true, 0.15, 0.4);
    reopenCheck(0);
    if (pc(0.3)) op(O_VERIFYFILE);
  }
  void c17() {
    sched(true); p.cfg.race = pc(0.5); p.cfg.heapCheck = p.cfg.race;
    int n = r.range(2, 3);
    for (int i = 0; i < n; ++i) { TCfg t = table(); t.nBlocks = r.range(2, 5); t.addCols = 0; if (pc(0.3) && i) { t = p.tables[0]; t.dataSeed += i; } p.tables.push_back(t); }
    std::vector<int> pre(n);
    for (int i = 0; i < n; ++i) { pre[i] = pc(0.5); if (pre[i]) { writeAll(i, true); if (pc(0.6)) { op(O_CLOSE, i); op(O_OPEN, i, 1); } } else op(O_CREATE, i, -1); }
    op(O_PAR);
    for (int i = 0; i < n; ++i) {
      thr = i + 1;
      if (!pre[i]) op(O_PUTALL, i, r.below(3), 0, nb(p.tables[i]), ver++);
      randomOps(i, r.range(1, 10), true, 0.15, 0.45);
    }
    thr = 0;
    op(O_ENDPAR);
    for (int i = 0; i < n; ++i) { if (pc(0.5)) op(O_CHECK, i, 1); }
    for (int i = 0; i < n; ++i) reopenCheck(i);
  }
  void c18() {
    sched(); p.cfg.heapCheck = true;
    TCfg t = table(); p.tables.push_back(t);
    writeAny(0); op(O_CLOSE);
    op(O_CUT, 0, r.below(1000000), of({0, 0, 0, 1, 2}));
    op(O_OPEN, 0, 0);
    if (pc(0.5)) randomOps(0, r.range(1, 6), false); 
    op(O_CHECK, 0, r.below(3));
    op(O_CLOSE);
  }
  // requests that are refused, at any moment
  void refused(int ti) {
    switch (r.below(4)) {
      case 3: op(O_BADROW, ti, pc(0.3) ? 0 : r.below(1 << 20)); break;
      case 0: op(O_BADCOL, ti, r.below(8), pc(0.4)); break;
      default: op(O_BADSET, ti, r.below(6), r.below(64), pc(0.2)); break;
    }
  }
  void c21() {
    sched(); p.cfg.memGap = of({0, 100, 300, 1000, 1000, 3000}); p.cfg.ncpu = of({1, 2, 2, 3, 4, 4, 6, 8, 8, 10, 16}); p.cfg.pSpurious = pc(0.2) ? of({500, 5000}) : 0;
    p.cfg.policy = of({2, 2, 2, 2, 2, 2, 0, 1, 3, 4, 5}); p.cfg.pSwitch = of({200, 1500, 8192, 32768});
    TCfg t = table();
    t.nData = 1; t.weightPos = -1; t.plain = 0; t.otherStMan = 0; t.lateCols = 0; t.extraPartial = 0; t.nAnt = r.range(3, 6); t.nChan = r.range(4, 12); t.nBlocks = r.range(12, 40); t.amp = of({0, 1, 2, 5}); t.nPol = of({2, 4});
    if (pc(0.2)) { t.nData = 0; t.weightPos = 0; t.nChan = r.range(16, 64); }
    p.tables.push_back(t);
    const bool again = pc(0.3);
    op(O_CREATE, 0, -1);
    if (again) { op(O_PUTALL, 0, 2, 0, 2, ver); op(O_CLOSE); op(O_OPEN, 0, 1); op(O_EXPECT, 0, 8); op(O_PUTALL, 0, 2, 2, nb(t), ver); }
    else { op(O_EXPECT, 0, 8); op(O_PUTALL, 0, 2, 0, nb(t), ver); }
    op(O_EXPECT, 0, 9, t.staticSeed && t.nData && !again ? 1 : std::min(8, p.cfg.ncpu));
    op(O_CLOSE);
    if (pc(0.3)) { op(O_OPEN, 0, 0); op(O_CHECK, 0, 0); op(O_CLOSE); }
  }
  // several sessions that share a table
  void c22() {
    sched(); p.cfg.heapCheck = pc(0.1);
    TCfg t = table(); t.plain = 0; t.extraPartial = 0; t.nBlocks = r.range(3, 8); p.tables.push_back(t);
    const int N = nb(t), R = t.rowsPerBlock();
    auto peerOpen = [&] { op(O_PEER, 0, 0, pc(0.7)); };
    op(O_CREATE, 0, pc(0.3) ? R * r.range(2, N) : -1);
    if (pc(0.5)) { peerOpen(); if (pc(0.5)) op(O_PEER, 0, 1, r.below(4), r.below(3)); }
    if (pc(0.3)) { op(O_PUTB, 0, 0, 0, ver++); if (pc(0.5)) op(O_PEER, 0, 1, r.below(4), r.below(3)); }   // the first block is not complete yet
    op(O_PUTALL, 0, r.below(3), 0, pc(0.5) ? 2 : N, ver++);
    const int n = r.range(4, thorough ? 40 : 20);
    for (int i = 0; i < n; ++i) {
      const int c = r.below(t.nCols()), b = r.below(N);
      switch (r.below(14)) {
        case 0: case 1: op(O_PEER, 0, 1, r.below(4), r.below(3), pc(0.15)); break;
        case 2: op(O_PEER, 0, 2, c, b * R + r.below(R), r.range(1, 4), ver++); break;
        case 3: op(O_PEER, 0, 2, c, b * R, R * r.range(1, 3), ver++); break;
        case 4: op(O_PEER, 0, 3, 0, pc(0.5) ? R * r.range(1, 2) : r.range(1, R * 2), r.below(8), ver++); break;
        case 5: if (pc(0.6)) op(O_PEER, 0, 4); peerOpen(); break;
        case 6: op(O_PUT, 0, c, b * R + r.below(R), ver++); break;
        case 7: op(O_PUTB, 0, c, b, ver++, r.below(4), pc(0.5) ? 0 : r.range(2, 14)); break;
        case 8: op(O_GETB, 0, c, b, r.below(3)); break;
        case 9: op(O_CHECK, 0, r.below(4)); break;
        case 10: op(O_PUT, 0, c, b * R + r.below(R), ver++); if (pc(0.5)) op(O_PEER, 0, 1, r.below(4), r.below(3)); op(O_PUT, 0, c, b * R + r.below(R), ver++); break;
        case 11: if (pc(0.5)) op(O_ADDROWS, 0, r.range(1, R * 2)); else op(O_FLUSH, 0, of({0, 0, 1, 2})); break;
        case 12: if (pc(0.4)) { op(O_CLOSE); if (pc(0.4)) op(O_PEER, 0, r.range(1, 2), c, b * R, R, ver++); op(O_OPEN, 0, pc(0.8)); } else op(O_GET, 0, c, b * R + r.below(R)); break;
        case 13: if (pc(0.3)) op(O_RMROW, 0, r.range(1, R)); else op(O_PUTALL, 0, r.below(3), b, std::min(N, b + 2), ver++); break;
      }
    }
    if (pc(0.5)) op(O_CHECK, 0, r.below(3));
    if (pc(0.5)) { op(O_PEER, 0, 1, 0, 0); op(O_PEER, 0, 4); op(O_CLOSE); }
    else { op(O_CLOSE); op(O_PEER, 0, 1, 0, 0); op(O_PEER, 0, 4); }
    op(O_OPEN, 0, 0); op(O_CHECK, 0, 0); op(O_CLOSE);
  }
  void c20() {
    sched(); p.cfg.heapCheck = pc(0.3);
    TCfg t = table(); t.nBlocks = r.range(2, 6);
    if (pc(0.4)) {   // the tool
      t.plain = of({1, 2, 2}); t.otherStMan = t.nameLen = 0; t.viaSpec = t.addCols = t.extraPartial = 0; t.flagMode = of({0, 0, 1}); t.staticSeed = pc(0.2);
      if (t.nData == 0) t.nData = 1;
      if (t.dist == D_STUDENT) t.param = 1.0;
      const bool irregular = pc(0.3), partial = irregular && pc(0.3) && t.rowsPerBlock() > 1;
      if (partial) t.extraPartial = r.range(1, t.rowsPerBlock() - 1);
      p.tables.push_back(t);
      op(O_CREATE, 0, -1); op(O_PUTALL, 0, r.below(3), 0, nb(t), ver++); op(O_EXPECT, 0, 3);
      if (irregular) {
        const int kind = r.below(4), at = r.below(t.rows());
        if (!partial) op(O_IRREG, 0, kind, at);
        op(O_CLOSE);
        if (partial || kind < 2 || t.rowsPerBlock() > 1) op(O_TOOL, 0, 0, pc(0.3), (1 << t.nCols()) - 1, pc(0.4) ? r.range(1, 1000) : 0, 2);
        op(O_OPEN, 0, 1); op(O_CHECK, 0, r.below(3));
        if (partial) { op(O_CLOSE); return; }
        op(O_IRREG, 0, kind, at, 1);
      }
      op(O_CLOSE);
      for (int n = r.range(1, 4); n > 0; --n) {
        op(O_BADTOOL, 0, r.below(7), r.below(1000)); 
        if (pc(0.5)) { op(O_OPEN, 0, pc(0.5)); op(O_CHECK, 0, r.below(3)); op(O_CLOSE); }
        if (pc(0.2)) op(O_TOOL, 0, 0, pc(0.2), (1 << t.nCols()) - 1);
      }
      if (pc(0.5)) op(O_TOOL, 0, 0, pc(0.2), (1 << t.nCols()) - 1);
      op(O_OPEN, 0, 0); op(O_CHECK, 0, r.below(3)); op(O_CLOSE);
      return;
    }
    p.tables.push_back(t);
    const int N = nb(t), C = t.nCols();
    if (pc(0.2)) refused(0);
    op(O_CREATE, 0, -1);
    if (pc(0.5)) for (int n = r.range(1, 3); n > 0; --n) refused(0);
    if (pc(0.3)) { op(O_CLOSE); op(O_OPEN, 0, 1); op(O_CHECK, 0, r.below(3)); }
    const int first = r.below(C);
    if (pc(0.4)) { op(O_PUTB, 0, first, 0, ver++, 0, pc(0.3) ? r.range(4, 12) : 0); refused(0); if (pc(0.5)) op(O_GETB, 0, first, 0, 0); }
    if (pc(0.2)) op(O_ADDCOL, 0, r.below(C));
    op(O_PUTALL, 0, r.below(3), 0, N, ver++);
    for (int n = r.range(1, 5); n > 0; --n) {
      refused(0);
      if (pc(0.5)) randomOps(0, r.range(1, 5), true, 0.1, 0.4);
      if (pc(0.25)) { op(O_CLOSE); op(O_OPEN, 0, pc(0.8)); op(O_CHECK, 0, r.below(3)); }
      if (pc(0.1)) op(O_RMCOL, 0, r.below(C));
      if (pc(0.1)) op(O_ADDCOL, 0, r.below(C));
    }
    reopenCheck(0);
    if (pc(0.4)) op(O_VERIFYFILE);
  }
  void c19() {
    sched(); p.mode = "loud"; p.cfg.heapCheck = true;
    TCfg t = table(); t.nBlocks = r.range(2, 8); p.tables.push_back(t);
    int k = r.below(3);
    if (k != 1) p.cfg.rate[sim::FK_THREAD_EAGAIN] = of({4000, 15000, 65535});
    if (k != 0) p.cfg.rate[sim::FK_BAD_ALLOC] = of({30, 200, 1500, 6000});
    p.cfg.maxFaults = r.range(1, 3); p.cfg.persist = pc(0.5);
    op(O_EXPECT, 0, 6, 3);
    if (pc(0.5)) { op(O_FAULTS, 0, 1); writeAll(0); }
    else { writeAll(0); if (pc(0.7)) { op(O_FLUSH); op(O_CLOSE); op(O_CRASH); op(O_FAULTS, 0, 1); op(O_OPEN, 0, 1); } else op(O_CRASH); }
    randomOps(0, r.range(1, 10), true, 0.15, 0.3);
    op(O_CLOSE);
    op(O_FAULTS, 0, 0); op(O_EXPECT, 0, 6, 0);
    op(O_OPEN, 0, 0); op(O_CHECK); op(O_CLOSE);
  }
};
}  // namespace

Plan generate(const std::string &prop, uint64_t seed, bool thorough) {
  G g(prop, seed, thorough);
  int n = atoi(prop.c_str() + 1);
  switch (n) {
    case 1: g.c01(); break; case 2: g.c02(); break; case 3: g.c03(); break; case 4: g.c04(); break; case 5: g.c05(); break;
    case 6: g.c06(); break; case 7: g.c07(); break; case 8: g.c08(); break; case 9: g.c09(); break; case 10: g.crash(false); break;
    case 11: g.crash(true); break; case 12: g.c12(); break; case 13: g.c13(); break; case 14: g.c14(); break; case 15: g.c15(); break;
    case 16: g.c16(); break; case 17: g.c17(); break; case 18: g.c18(); break; case 19: g.c19(); break; case 20: g.c20(); break; case 21: g.c21(); break; case 22: g.c22(); break;
    default: abort();
  }
  return g.p;
}
