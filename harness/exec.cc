#include "exec.h"
#include "model.h"

#include <casacore/casa/Arrays/Array.h>
#include <casacore/casa/Arrays/Slicer.h>
#include <casacore/casa/Containers/Record.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/PlainTable.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>

#include <algorithm>
#include <cmath>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

using casacore::Array;
using casacore::ArrayColumn;
using casacore::ArrayColumnDesc;
using casacore::Complex;
using casacore::IPosition;
using casacore::ScalarColumn;
using casacore::ScalarColumnDesc;
using casacore::SetupNewTable;
using casacore::Table;
using casacore::TableDesc;

extern "C" casacore::DataManager *sut_make(int dataBits, int weightBits, const char *name, int dist, double param, int norm, int staticSeed, int viaSpec);
extern "C" int sut_register();
extern "C" void sut_sync(casacore::DataManager *);
extern "C" void sut_removeRow(casacore::DataManager *, uint64_t);
extern "C" int sut_dscompress_main(int, char **);
extern "C" int sut_decompress_main(int, char **);
namespace sim { void setKnobs(int ncpu, int fill); }

namespace {

// ---- files (not part of the simulation) -------------------------------------------
std::string slurp(const std::string &p) {
  sim::Pause z;
  std::string s; int fd = ::open(p.c_str(), O_RDONLY);
  if (fd < 0) return s;
  char b[65536]; ssize_t n;
  while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n);
  ::close(fd);
  return s;
}
void spew(const std::string &p, const std::string &s) {
  sim::Pause z;
  int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) sim::finish(sim::ST_TOOLFAIL, "scratch", "can not write " + p);
  size_t o = 0;
  while (o < s.size()) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) sim::finish(sim::ST_TOOLFAIL, "scratch", "can not write " + p); o += n; }
  ::close(fd);
}
std::vector<std::string> listDir(const std::string &d) {
  sim::Pause z;
  std::vector<std::string> r;
  if (DIR *h = opendir(d.c_str())) {
    while (dirent *e = readdir(h)) if (e->d_name[0] != '.') r.push_back(e->d_name);
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}

struct TableState {
  std::unique_ptr<Geo> geo;
  std::vector<std::unique_ptr<ColModel>> col;
  std::vector<char> removed;
  int pad = 0;                           // room that is left in the header by another writer
  char init[2] = {0, 0};                 // the manager knows its block size
  // Casacore counts the columns of a manager wrongly once one was removed or refused, until the
  // table is opened again: it would leave a manager without columns, that it can not handle
  char miscounted[2] = {0, 0};
  std::unique_ptr<Table> tab, peer;      // peer: the session of another process
  bool peerOpen = false, peerWritable = false;
  int64_t nRows = 0;
  bool readOnlyFs = false;
  bool writable = false, created = false, flagsPut = false;
  std::vector<char> plain;               // columns that are not managed by the storage manager under test
  std::vector<int> order;                // in which order the manager got its columns
  std::string path;
  std::map<int, std::string> dfile;      // manager number -> path of its file
  std::map<int, std::string> snap;
  std::vector<std::vector<std::vector<bool>>> flags;
};

struct Exec {
  const Plan &p;
  sim::Shared *sh;
  std::vector<TableState> t;
  bool dry = false;           // only the model
  std::vector<uint64_t> heapAfter;
  int fault = 0;              // 0 none, 1 read faults, 2 write faults, 3 resources
  bool inPar = false;
  uint64_t checked = 0, failedOps = 0, zeroTrunc = 0, eff = 0;
  int64_t opIdx = 0;
  bool power = false;         // only what was synchronised is durable
  bool mayRefuse = false, refused = false;   // the operation is not valid
  bool dead = false;          // a failure was reported, the application gives up
  std::string deadMsg;
  std::map<int, int> wrongVersion, truncated;  // tables of which the file was truncated

  Exec(const Plan &plan, sim::Shared *s) : p(plan), sh(s) {
    t.resize(p.tables.size());
    power = p.cfg.rate[sim::FK_POWER] > 0;
    for (auto &f : p.faults) if (f.kind == sim::FK_POWER) power = true;
    for (size_t i = 0; i < t.size(); ++i) {
      t[i].geo.reset(new Geo(p.tables[i]));
      t[i].path = "t" + std::to_string(i);
      blank(i);
    }
  }
  void blank(size_t i) {
    t[i].col.clear(); t[i].order.clear();
    for (int c = 0; c < p.tables[i].nCols(); ++c) t[i].col.emplace_back(new ColModel(*t[i].geo, c));
    t[i].removed.assign(p.tables[i].nCols(), 0);
    t[i].plain.assign(p.tables[i].nCols(), p.tables[i].plain ? 1 : 0);
    for (int c = 0; c < p.tables[i].nCols(); ++c) { t[i].order.push_back(c); if (c >= p.tables[i].nCols() - p.tables[i].lateCols) t[i].removed[c] = 1; }
  }
  const TCfg &cfg(int i) const { return p.tables[i]; }
  [[noreturn]] void fail(const std::string &cls, const std::string &msg) { sim::violation(cls.c_str(), "op " + std::to_string(opIdx) + " (" + opNames[p.ops.size() > (size_t)opIdx ? p.ops[opIdx].code : 0] + "): " + msg); }
  [[noreturn]] void loud(const std::string &msg) { sim::finish(sim::ST_TERMINATED, "reported", msg); }
  bool firedWrite() const {
    return sh->fired[sim::FK_WRITE_EIO] + sh->fired[sim::FK_WRITE_ENOSPC] + sh->fired[sim::FK_SYNC_EIO] + sh->fired[sim::FK_OPEN_FAIL] > 0;
  }
  // Runs f; returns false if it failed in a way that is allowed
  template <typename F> bool attempt(F f, const char *what) {
    const uint64_t before = sim::firedTotal();
    try { f(); return true; }
    catch (std::exception &e) {
      sim::event(900, 1);
      if (mayRefuse) { refused = true; return false; }
      const std::string msg = std::string(what) + " fails: " + e.what();
      const bool firedNow = sim::firedTotal() != before;
      if (fault == 1 && firedNow) { ++failedOps; return false; }
      if (fault >= 2 && sim::firedTotal()) { if (!dead) { dead = true; deadMsg = msg; } return false; }
      fail("exception", msg);
    }
    return false;
  }

  // ---- table access ------------------------------------------------------------------
  int mgr(int ti, int c) const { return cfg(ti).otherStMan && c == cfg(ti).nCols() - 1 && cfg(ti).nCols() > 1 ? 1 : 0; }
  std::string mgrName(int ti, int m) const {
    std::string n = "DyscoStMan";
    if (cfg(ti).nameLen) { n = ""; for (int i = 0; i < cfg(ti).nameLen; ++i) n += i % 9 == 5 ? ' ' : char('a' + (cfg(ti).dataSeed + i * 7) % 26); }
    return m ? n + "2" : n;
  }
  casacore::DataManager *make(int ti, int m) const {
    const TCfg &c = cfg(ti);
    return sut_make(c.dataBits, c.wBits, mgrName(ti, m).c_str(), c.dist, c.param, c.norm, c.staticSeed, c.viaSpec && !c.staticSeed);
  }
  void fillRows(int ti, int64_t from, int64_t n) {
    Table &tab = *t[ti].tab;
    ScalarColumn<double> tc(tab, "TIME");
    ScalarColumn<int> a1(tab, "ANTENNA1"), a2(tab, "ANTENNA2"), f(tab, "FIELD_ID"), d(tab, "DATA_DESC_ID");
    for (int64_t r = from; r < from + n; ++r) {
      RowInfo i = t[ti].geo->row(r);
      tc.put(r, i.time); a1.put(r, i.a1); a2.put(r, i.a2); f.put(r, i.field); d.put(r, i.ddid);
    }
  }
  void findFiles(int ti) {
    TableState &s = t[ti];
    if (!s.tab) return;
    s.dfile.clear();
    for (size_t c = 0; c < s.col.size(); ++c) {
      if (s.removed[c] || s.plain[c]) continue;
      casacore::DataManager *m = s.tab->findDataManager(cfg(ti).colName(c), true);
      s.dfile[mgr(ti, c)] = m->fileName();
    }
  }
  void create(int ti, int64_t rows) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    if (rows < 0) rows = c.rows();
    s.created = true; s.nRows = rows; s.writable = true; ++eff;
    for (auto &m : s.col) m->resize(rows);
    if (dry) return;
    TableDesc td("", "1", TableDesc::Scratch);
    td.addColumn(ScalarColumnDesc<double>("TIME")); td.addColumn(ScalarColumnDesc<int>("ANTENNA1")); td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
    td.addColumn(ScalarColumnDesc<int>("FIELD_ID")); td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
    const IPosition sh2(2, c.nPol, c.nChan);
    const int opt = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
    auto addTo = [&](TableDesc &d, int k, bool plain) {
      if (c.isWeight(k)) { if (plain) d.addColumn(ArrayColumnDesc<float>(c.colName(k), sh2)); else d.addColumn(ArrayColumnDesc<float>(c.colName(k), "", "DyscoStMan", mgrName(ti, mgr(ti, k)), sh2, opt)); }
      else if (plain) d.addColumn(ArrayColumnDesc<Complex>(c.colName(k), sh2));
      else d.addColumn(ArrayColumnDesc<Complex>(c.colName(k), "", "DyscoStMan", mgrName(ti, mgr(ti, k)), sh2, opt));
    };
    if (c.plain) td.addColumn(ArrayColumnDesc<bool>("FLAG", sh2));
    attempt([&] {
      if (c.addCols && !c.plain) {
        SetupNewTable setup(s.path, td, Table::New);
        s.tab.reset(new Table(setup, casacore::TableLock(casacore::TableLock::AutoLocking), rows));
        fillRows(ti, 0, rows);
        std::set<int> have;
        for (int k = 0; k < c.nCols() - c.lateCols; ++k) {
          int m = mgr(ti, k);
          if (have.insert(m).second) {
            std::unique_ptr<casacore::DataManager> dm(make(ti, m));
            if (c.isWeight(k)) { ArrayColumnDesc<float> d(c.colName(k), "", "DyscoStMan", mgrName(ti, m), sh2); d.setOptions(opt); s.tab->addColumn(d, *dm); }
            else { ArrayColumnDesc<Complex> d(c.colName(k), "", "DyscoStMan", mgrName(ti, m), sh2); d.setOptions(opt); s.tab->addColumn(d, *dm); }
          } else {
            if (c.isWeight(k)) { ArrayColumnDesc<float> d(c.colName(k), "", "DyscoStMan", mgrName(ti, m), sh2); d.setOptions(opt); s.tab->addColumn(d, mgrName(ti, m), true); }
            else { ArrayColumnDesc<Complex> d(c.colName(k), "", "DyscoStMan", mgrName(ti, m), sh2); d.setOptions(opt); s.tab->addColumn(d, mgrName(ti, m), true); }
          }
        }
      } else {
        for (int k = 0; k < c.nCols() - c.lateCols; ++k) addTo(td, k, c.plain);
        SetupNewTable setup(s.path, td, Table::New);
        if (!c.plain) {
          std::map<int, std::unique_ptr<casacore::DataManager>> dms;
          for (int k = 0; k < c.nCols() - c.lateCols; ++k) {
            int m = mgr(ti, k);
            if (!dms[m]) dms[m].reset(make(ti, m));
            setup.bindColumn(c.colName(k), *dms[m]);
          }
        }
        s.tab.reset(new Table(setup, casacore::TableLock(casacore::TableLock::AutoLocking), rows));
        fillRows(ti, 0, rows);
      }
      findFiles(ti);
    }, "creating a table");
  }
  void writableFs(int ti) {
    TableState &s = t[ti];
    if (s.readOnlyFs) { sim::readOnlyDir(s.path.c_str(), false); s.readOnlyFs = false; }
  }
  bool open(int ti, bool rw, bool readOnlyFs = false) {
    TableState &s = t[ti];
    if (readOnlyFs && !rw && !dry) { sim::readOnlyDir(s.path.c_str(), true); s.readOnlyFs = true; }
    s.writable = rw; s.miscounted[0] = s.miscounted[1] = 0;
    if (dry) return true;
    bool ok = attempt([&] {
      if (s.peer) uncache(s.peer->tableName());
      s.tab.reset(new Table(s.path, casacore::TableLock(casacore::TableLock::AutoLocking), rw ? Table::Update : Table::Old));
      findFiles(ti);
      if ((int64_t)s.tab->nrow() != s.nRows) fail("rows", "the table has " + std::to_string(s.tab->nrow()) + " rows instead of " + std::to_string(s.nRows));
    }, "opening a table");
    if (!ok) { s.tab.reset(); writableFs(ti); } else ++eff;
    return ok;
  }
  void close(int ti) {
    TableState &s = t[ti];
    if (isOpen(ti)) complete(ti);
    if (!dry) { if (!s.tab) return; ++eff; attempt([&] { s.tab.reset(); }, "closing a table"); writableFs(ti); descriptors(ti); }
  }
  // no file of a closed table remains open
  void descriptors(int ti) {
    if (t[ti].tab || t[ti].peer || dead) return;
    sim::Pause z;
    const std::string dir = "/" + t[ti].path + "/";
    for (int fd = 3; fd < 256; ++fd) {
      char l[32], b[600]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
      const ssize_t n = ::readlink(l, b, sizeof b);
      // (after a table could not be opened, casacore itself leaves files of its own open)
      if (n <= 0) continue;
      const std::string name(b, n);
      bool own = false;
      for (auto &f : t[ti].dfile) own = own || name.substr(name.rfind('/') + 1) == f.second.substr(f.second.rfind('/') + 1);
      if (own && name.find(dir) != std::string::npos) fail("descriptor", "a file of the table remains open after closing it: " + std::string(b, n).substr(std::string(b, n).rfind('/') + 1));
    }
  }
  bool isOpen(int ti) const { return dry ? t[ti].created : bool(t[ti].tab); }
  void markDurable(int ti) {
    TableState &s = t[ti];
    for (size_t c = 0; c < s.col.size(); ++c) if (s.init[mgr(ti, c)]) for (auto &b : s.col[c]->blk) b.touched = false;
  }

  // ---- values ------------------------------------------------------------------------------
  bool flagOf(int ti, int c, int64_t row, int64_t ver, int i) const { (void)c; uint64_t h = cfg(ti).dataSeed * 77 + row * 131 + i * 17 + ver; h ^= h >> 7; h *= 0x9E3779B97F4A7C15ull; return cfg(ti).plain == 2 && (h >> 40) % 9 == 0; }
  std::vector<cfloat> truth(int ti, int c, int64_t row, int64_t ver) const {
    const Geo &g = *t[ti].geo;
    std::vector<cfloat> v(g.nVis);
    if (cfg(ti).isWeight(c)) {
      std::vector<float> w(g.nVis); truthWeight(g, c, row, ver, w.data());
      for (int i = 0; i < g.nVis; ++i) v[i] = w[i];
    } else truthData(g, c, row, ver, v.data());
    return v;
  }
  // The documented limit of a new table: the first block has to be written
  // completely before the first row of the second block, in the same column.
  // Calls that do not respect it are left out.
  bool legal(int ti, int c, int64_t row) {
    TableState &s = t[ti];
    if (s.plain[c] || s.init[mgr(ti, c)]) return true;
    const int64_t R = s.geo->R;
    if (row < R) return true;
    if (row != R) return false;
    for (int64_t r = 0; r < R; ++r) if (!s.col[c]->rows[r].set) return false;
    s.init[mgr(ti, c)] = 1;
    return true;
  }
  // Before a table is closed, the second block has to be started
  void complete(int ti) {
    TableState &s = t[ti];
    if (!s.writable || dead || !isOpen(ti)) return;
    for (int m = 0; m < 2; ++m) {
      if (s.init[m]) continue;
      for (int c = 0; c < (int)s.col.size(); ++c) {
        if (mgr(ti, c) != m || s.removed[c] || s.plain[c] || s.col[c]->blk.empty() || !s.col[c]->blk[0].ever) continue;
        const int64_t R = s.geo->R;
        if (s.nRows <= R) addRows(ti, R + 1 - s.nRows);
        for (int64_t r = 0; r < R; ++r) if (!s.col[c]->rows[r].set) put(ti, c, r, 1);
        put(ti, c, R, 1);
        break;
      }
    }
  }
  void addRows(int ti, int64_t n) {
    TableState &s = t[ti];
    // (if the last block was loaded before, then without these rows)
    if (!dry && s.nRows % s.geo->R) for (size_t c = 0; c < s.col.size(); ++c) if (!s.removed[c]) sync(ti, c, s.nRows / s.geo->R);
    if (!dry) attempt([&] { s.tab->addRow(n); fillRows(ti, s.nRows, n); }, "adding rows");
    s.nRows += n; ++eff;
    for (auto &m : s.col) { m->resize(s.nRows); for (auto &b : m->blk) b.cached = false; }
  }
  // some arrays of the caller are part of larger arrays
  static bool spread(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; return (x >> 33) % 5 == 0; }
  template <typename T> static void section(Array<T> &a) {
    const IPosition n = a.shape();
    Array<T> big(IPosition(2, n[0] + 1, n[1] * 2 + 1));
    big = T(-7);
    Array<T> part(big(IPosition(2, 1, 0), IPosition(2, n[0], n[1] * 2 - 1), IPosition(2, 1, 2)));
    part = a;
    a.reference(part);
  }
  bool put(int ti, int c, int64_t row, int64_t ver, int ch0 = 0, int nch = 0) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti);
    if (!isOpen(ti) || s.removed[c] || row >= s.nRows || row < 0 || !s.writable || dead) return true;
    if (!legal(ti, c, row)) return true;
    std::vector<cfloat> v = truth(ti, c, row, ver);
    int from = 0, n = s.geo->nVis;
    if (nch > 0) { ch0 %= k.nChan; nch = std::min(nch, k.nChan - ch0); from = ch0 * k.nPol; n = nch * k.nPol; }
    ColModel &m = *s.col[c];
    if (dry) { m.put(row, &v[from], from, n); return true; }
    auto doPut = [&] {
      const IPosition shp(2, k.nPol, n / k.nPol);
      if (k.isWeight(c)) {
        Array<float> a(shp); float *d = a.data();
        for (int i = 0; i < n; ++i) d[i] = v[from + i].real();
        if (spread(row + ver)) section(a);
        ArrayColumn<float> col(*s.tab, k.colName(c));
        if (n == s.geo->nVis) col.put(row, a); else col.putSlice(row, casacore::Slicer(IPosition(2, 0, ch0), shp), a);
      } else {
        Array<Complex> a(shp); Complex *d = a.data();
        for (int i = 0; i < n; ++i) d[i] = v[from + i];
        if (spread(row + ver)) section(a);
        ArrayColumn<Complex> col(*s.tab, k.colName(c));
        if (n == s.geo->nVis) col.put(row, a); else col.putSlice(row, casacore::Slicer(IPosition(2, 0, ch0), shp), a);
      }
    };
    if (!attempt(doPut, "writing a row")) return false;
    sync(ti, c, row / s.geo->R); ++eff;
    m.put(row, &v[from], from, n);
    return true;
  }
  // where a block of a column is in the file
  bool place(int ti, int c, int64_t b, std::string &file, uint64_t &off, uint64_t &len) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti); const Geo &g = *s.geo;
    const int m = mgr(ti, c);
    auto f = s.dfile.find(m);
    if (f == s.dfile.end()) return false;
    uint64_t n = 0, bs = 0, co = 0;
    for (int i : s.order) {
      if (s.removed[i] || s.plain[i] || mgr(ti, i) != m) continue;
      if (i == c) co = bs;
      bs += columnBytes(k, k.isWeight(i), g.R, g.antCount); ++n;
    }
    file = f->second; off = 28 + mgrName(ti, m).size() + 24 + 24 * n + s.pad % 7 + s.pad / 7 % 7 * n + s.pad / 49 % 7 + b * bs + co; len = columnBytes(k, k.isWeight(c), g.R, g.antCount);
    return true;
  }
  bool readBlock(int ti, int c, int64_t b, std::vector<std::vector<cfloat>> &d) {
    std::string file; uint64_t off, len;
    if (!place(ti, c, b, file, off, len)) return false;
    std::string buf(len, 0);
    { sim::Pause z; int fd = ::open(file.c_str(), O_RDONLY); if (fd < 0) return false; ssize_t n = ::pread(fd, &buf[0], len, off); ::close(fd); if (n < (ssize_t)len) memset(&buf[std::max<ssize_t>(n, 0)], 0, len - std::max<ssize_t>(n, 0)); }
    decodeBlock(*t[ti].geo, cfg(ti).isWeight(c), (const unsigned char *)buf.data(), d, b * t[ti].geo->R);
    return true;
  }
  // A block that was read back after it was written: its values are those in the file
  void sync(int ti, int c, int64_t b) {
    TableState &s = t[ti];
    if (s.plain[c]) return;
    std::string file; uint64_t off, len;
    if (!place(ti, c, b, file, off, len)) return;
    ColModel &m = *s.col[c];
    if (b >= (int64_t)m.blk.size()) return;
    const uint64_t R = sim::lastIo(file.c_str(), false, off, len);
    if (R <= m.blk[b].seq || R < sim::lastIo(file.c_str(), true, off, len)) return;
    m.blk[b].seq = R;
    std::vector<std::vector<cfloat>> d;
    if (!readBlock(ti, c, b, d)) return;
    if (getenv("SIM_DBG")) fprintf(stderr, "op %ld: block %ld of column %d is read back (%lu, written %lu) at %lu+%lu, first value %g\n", (long)opIdx, (long)b, c, (unsigned long)R, (unsigned long)sim::lastIo(file.c_str(), true, off, len), (unsigned long)off, (unsigned long)len, d[0][0].real());
    std::string e = m.adopt(b, d, s.nRows);
    if (!e.empty()) { size_t k = e.find(':'); fail("data-" + e.substr(0, k), "stored values: " + e.substr(k + 2)); }
  }
  bool m_weight(int ti, int c) const { return cfg(ti).isWeight(c); }
  void compare(int ti, int c, int64_t row, const cfloat *d, bool afterTrunc) {
    TableState &s = t[ti];
    ++checked; ++eff;
    if (s.plain[c]) {
      Cell &x = s.col[c]->rows[row];
      for (int i = 0; i < s.geo->nVis; ++i) {
        cfloat w = x.set ? x.v[i] : cfloat(0, 0);
        if (memcmp(&w, &d[i], sizeof w) && !(std::isnan(w.real()) && std::isnan(d[i].real()))) fail("data", "ordinary column " + cfg(ti).colName(c) + " differs: row " + std::to_string(row) + " value " + std::to_string(i) + " is " + std::to_string(d[i].real()) + " instead of " + std::to_string(w.real()));
      }
      return;
    }
    std::string e = s.col[c]->check(row, d);
    if (e.empty()) return;
    if (afterTrunc) {
      bool zero = true;
      for (int i = 0; i < s.geo->nVis; ++i) if (d[i] != cfloat(0, 0)) zero = false;
      if (zero) { ++zeroTrunc; return; }
    }
    if (getenv("SIM_DBG")) {
      ColModel &m = *s.col[c]; const int R = s.geo->R; const int64_t b = row / R;
      if (!m.weight) { auto &f = m.blockFactors(b);
      for (int r = 0; r < R && b * R + r < (int64_t)m.rows.size(); ++r) { Cell &x = m.rows[b * R + r]; fprintf(stderr, "row %d set %d loaded %d\n", r, x.set, x.loaded); if (x.set) for (int i = 0; i < s.geo->nVis; ++i) fprintf(stderr, "   %d: %g %g f %g err %g\n", i, x.v[i].real(), x.v[i].imag(), f[r][i], x.err.empty() ? 0.0 : x.err[i]); } }
      fprintf(stderr, "row %ld got:", (long)row); for (int i = 0; i < s.geo->nVis; ++i) fprintf(stderr, " (%g,%g)", d[i].real(), d[i].imag()); fprintf(stderr, "\n");
      for (auto &f : s.dfile) { std::string b = slurp(f.second), err; FileHeader h; if (!parseHeader(b, h, err)) continue;
        for (size_t o = h.headerSize, n = 0; o < b.size(); o += h.blockSize, ++n) { fprintf(stderr, "file block %zu meta:", n); for (int i = 0; i < 40 && o + i * 4 + 4 <= b.size(); ++i) { float x; memcpy(&x, &b[o + i * 4], 4); fprintf(stderr, " %g", x); } fprintf(stderr, "\n");
          size_t off = 0; for (int k = 0; k < c; ++k) off += columnBytes(cfg(ti), cfg(ti).isWeight(k), s.geo->R, s.geo->antCount);
          std::vector<std::vector<cfloat>> dd; decodeBlock(*s.geo, m_weight(ti, c), (const unsigned char *)b.data() + o + off, dd, n * s.geo->R);
          for (auto &x : dd) { fprintf(stderr, "file:   "); for (auto &y : x) fprintf(stderr, " (%g,%g)", y.real(), y.imag()); fprintf(stderr, "\n"); } } }
    }
    size_t k = e.find(':');
    fail("data-" + e.substr(0, k), e.substr(k + 2));
  }
  bool get(int ti, int c, int64_t row) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti);
    if (!isOpen(ti) || s.removed[c] || row >= s.nRows || row < 0) return true;
    if (dry || dead) return true;
    std::vector<cfloat> v(s.geo->nVis);
    const bool tr = truncated.count(ti);
    const uint64_t before = sim::firedTotal();
    auto slices = [&](auto f) {   // the row in two parts
      const int h = k.nChan > 1 ? 1 + int((row + opIdx) % (k.nChan - 1)) : 1;
      f(IPosition(2, 0, 0), IPosition(2, k.nPol - 1, h - 1));
      if (h < k.nChan) f(IPosition(2, 0, h), IPosition(2, k.nPol - 1, k.nChan - 1));
    };
    auto doGet = [&] {
      if (k.isWeight(c)) {
        ArrayColumn<float> col(*s.tab, k.colName(c)); Array<float> a;
        if (spread(row + opIdx)) { a.resize(IPosition(2, k.nPol, k.nChan)); a = -1.f; section(a); col.get(row, a); }
        else if (spread(row + opIdx + 7919)) { a.resize(IPosition(2, k.nPol, k.nChan)); slices([&](const IPosition &s, const IPosition &e) { a(s, e) = col.getSlice(row, casacore::Slicer(s, e, casacore::Slicer::endIsLast)); }); }
        else a.reference(col.get(row));
        bool del; const float *d = a.getStorage(del);
        if (a.nelements() != v.size()) fail("shape", "wrong shape");
        for (size_t i = 0; i < v.size(); ++i) v[i] = d[i];
        a.freeStorage(d, del);
      } else {
        ArrayColumn<Complex> col(*s.tab, k.colName(c)); Array<Complex> a;
        if (spread(row + opIdx)) { a.resize(IPosition(2, k.nPol, k.nChan)); a = Complex(-1, -1); section(a); col.get(row, a); }
        else if (spread(row + opIdx + 7919)) { a.resize(IPosition(2, k.nPol, k.nChan)); slices([&](const IPosition &s, const IPosition &e) { a(s, e) = col.getSlice(row, casacore::Slicer(s, e, casacore::Slicer::endIsLast)); }); }
        else a.reference(col.get(row));
        bool del; const Complex *d = a.getStorage(del);
        if (a.nelements() != v.size()) fail("shape", "wrong shape");
        for (size_t i = 0; i < v.size(); ++i) v[i] = d[i];
        a.freeStorage(d, del);
      }
    };
    if (tr) {
      try { doGet(); } catch (std::exception &) { ++failedOps; sim::event(901, row); return false; }
    } else if (!attempt(doGet, "reading a row")) return false;
    (void)before;
    compare(ti, c, row, v.data(), tr);
    return true;
  }
  void getColumn(int ti, int c) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti);
    if (!isOpen(ti) || s.removed[c]) return;
    if (dry) return;
    std::vector<cfloat> v;
    const int64_t n = s.nRows * s.geo->nVis;
    if (!attempt([&] {
      v.resize(n);
      if (k.isWeight(c)) {
        ArrayColumn<float> col(*s.tab, k.colName(c)); Array<float> a = col.getColumn(); bool del; const float *d = a.getStorage(del);
        for (int64_t i = 0; i < n; ++i) v[i] = d[i];
        a.freeStorage(d, del);
      } else {
        ArrayColumn<Complex> col(*s.tab, k.colName(c)); Array<Complex> a = col.getColumn(); bool del; const Complex *d = a.getStorage(del);
        for (int64_t i = 0; i < n; ++i) v[i] = d[i];
        a.freeStorage(d, del);
      }
    }, "reading a column")) return;
    for (int64_t r = 0; r < s.nRows; ++r) compare(ti, c, r, &v[r * s.geo->nVis], truncated.count(ti));
  }
  void putColumn(int ti, int c, int64_t ver) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti);
    if (!isOpen(ti) || s.removed[c] || !s.writable || s.nRows == 0) return;
    // a failure in between leaves some of the rows changed
    if (fault == 1) { for (int64_t r = 0; r < s.nRows; ++r) put(ti, c, r, ver); return; }
    if (s.nRows > s.geo->R) s.init[mgr(ti, c)] = 1;
    const int V = s.geo->nVis;
    std::vector<cfloat> v;
    for (int64_t r = 0; r < s.nRows; ++r) { auto x = truth(ti, c, r, ver); v.insert(v.end(), x.begin(), x.end()); }
    bool ok = dry || attempt([&] {
      const IPosition shp(3, k.nPol, k.nChan, s.nRows);
      if (k.isWeight(c)) { Array<float> a(shp); float *d = a.data(); for (size_t i = 0; i < v.size(); ++i) d[i] = v[i].real(); ArrayColumn<float>(*s.tab, k.colName(c)).putColumn(a); }
      else { Array<Complex> a(shp); Complex *d = a.data(); for (size_t i = 0; i < v.size(); ++i) d[i] = v[i]; ArrayColumn<Complex>(*s.tab, k.colName(c)).putColumn(a); }
    }, "writing a column");
    if (ok) ++eff;
    if (ok) for (int64_t r = 0; r < s.nRows; ++r) {
      if (!dry && r % s.geo->R == 0) sync(ti, c, r / s.geo->R);
      s.col[c]->put(r, &v[r * V], 0, V);
    }
  }
  std::vector<int64_t> order(int64_t n, int64_t ord, uint64_t salt) {
    std::vector<int64_t> v(n);
    for (int64_t i = 0; i < n; ++i) v[i] = ord == 1 ? n - 1 - i : i;
    if (ord > 1) { sim::Rng r(ord * 977 + salt); for (int64_t i = n; i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
    return v;
  }
  void putBlock(int ti, int c, int64_t b, int64_t ver, int64_t ord, int64_t skip) {
    TableState &s = t[ti];
    for (int64_t i : order(s.geo->R, ord, b)) {
      int64_t row = b * s.geo->R + i;
      if (skip && (sim::Rng(row * 31 + ver * 7 + skip).below(16) < (uint64_t)skip)) continue;
      put(ti, c, row, ver);
    }
  }
  void putAll(int ti, int64_t mode, int64_t b0, int64_t b1, int64_t ver, int64_t ord) {
    TableState &s = t[ti]; const int nc = s.col.size(); const int64_t R = s.geo->R;
    b1 = std::min<int64_t>(b1, (s.nRows + R - 1) / R);
    if (b1 <= b0) return;
    auto o = order(b1 - b0, ord, 5);
    if (b0 == 0 && ord > 1) { o.erase(std::find(o.begin(), o.end(), 0)); o.insert(o.begin(), 0); }
    if (b0 == 0 && ord == 1) o = order(b1 - b0, 0, 0);
    if (mode == 0) for (int c = 0; c < nc; ++c) for (int64_t b : o) for (int64_t r = 0; r < R; ++r) put(ti, c, (b0 + b) * R + r, ver);
    else if (mode == 1) for (int64_t b : o) for (int64_t r = 0; r < R; ++r) for (int c = 0; c < nc; ++c) put(ti, c, (b0 + b) * R + r, ver);
    else for (int64_t b : o) for (int c = 0; c < nc; ++c) for (int64_t r = 0; r < R; ++r) put(ti, c, (b0 + b) * R + r, ver);
  }
  void checkAll(int ti, int64_t ord) {
    TableState &s = t[ti];
    if (!isOpen(ti)) return;
    const int64_t n = s.nRows * int64_t(s.col.size());
    if (ord == 0) { for (size_t c = 0; c < s.col.size(); ++c) for (int64_t r = 0; r < s.nRows; ++r) get(ti, c, r); return; }
    for (int64_t i : order(n, ord, 3)) get(ti, i / s.nRows, i % s.nRows);
  }

  // ---- the file ---------------------------------------------------------------------------------
  void verifyFile(int ti) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti); const Geo &g = *s.geo;
    if (dry || !s.created || s.tab) return;
    for (auto &f : s.dfile) {
      ++eff;
      std::string b = slurp(f.second), err; FileHeader h;
      if (!parseHeader(b, h, err)) fail("format", err);
      std::vector<int> cols;
      for (int k : s.order) if (!s.removed[k] && !s.plain[k] && mgr(ti, k) == f.first) cols.push_back(k);
      auto need = [&](bool ok, const std::string &what) { if (!ok) fail("format", "the file header has a wrong " + what); };
      need(h.name == mgrName(ti, f.first), "storage manager name"); need(h.columnCount == cols.size(), "column count");
      need(h.major == 1 && h.minor == 0, "version"); need(h.dataBits == c.dataBits, "data bit rate"); need(h.weightBits == c.wBits, "weight bit rate");
      need(h.dist == c.dist, "distribution"); need(h.norm == c.norm, "normalization");
      need(c.dist != D_TRUNC || h.trunc == c.param, "truncation"); need(c.dist != D_STUDENT || h.nu == c.param, "degrees of freedom");
      bool any = false;
      for (int k : cols) for (auto &x : s.col[k]->blk) if (x.ever) any = true;
      if (h.rowsPerBlock == 0) {
        if (any) fail("format", "data were written, but the header has no block size");
        continue;
      }
      need(h.rowsPerBlock == (unsigned)g.R, "number of rows per block"); need(h.antennaCount == (unsigned)g.antCount, "antenna count");
      size_t bs = 0; std::vector<size_t> off;
      for (int k : cols) { off.push_back(bs); bs += columnBytes(c, c.isWeight(k), g.R, g.antCount); }
      need(h.blockSize == bs, "block size"); need(h.headerSize == h.columnHeaderOffset + cols.size() * (24 + s.pad / 7 % 7) + s.pad / 49 % 7, "size");
      need(h.columnHeaderOffset == 28 + h.name.size() + 24 + s.pad % 7, "column header offset");
      need(h.cols.size() == cols.size(), "column headers");
      for (size_t k = 0; k < cols.size(); ++k) {
        // antenna count and block size of a column are informative: they are written before all columns are initialised
        need(h.cols[k].size == 12u + s.pad / 7 % 7, "column header size");
      }
      for (size_t k = 0; k < cols.size(); ++k) {
        ColModel &m = *s.col[cols[k]]; const bool w = c.isWeight(cols[k]); const size_t cb = columnBytes(c, w, g.R, g.antCount);
        for (size_t blk = 0; blk < m.blk.size(); ++blk) {
          if (!m.blk[blk].ever) continue;
          size_t o = h.headerSize + blk * bs + off[k];
          if (o + cb > b.size()) fail("format", "the file ends before block " + std::to_string(blk) + " of column " + c.colName(cols[k]));
          std::vector<std::vector<cfloat>> d; decodeBlock(g, w, (const unsigned char *)b.data() + o, d, blk * g.R);
          for (int r = 0; r < g.R; ++r) {
            int64_t row = int64_t(blk) * g.R + r;
            if (row >= s.nRows || row >= (int64_t)m.rows.size() || !m.rows[row].set) continue;
            ++checked;
            std::string e = m.check(row, d[r].data());
            if (!e.empty()) fail("format", "decoded by the format specification: " + e);
          }
        }
      }
    }
  }
  // A file that was made by the independent encoder replaces that of the table (closed)
  void writeFile(int ti, int64_t ver, int pad) {
    t[ti].pad = pad;
    TableState &s = t[ti]; const TCfg &c = cfg(ti); const Geo &g = *s.geo;
    const int64_t nb = (s.nRows + g.R - 1) / g.R;
    for (int m = 0; m < 2; ++m) {
      std::vector<int> cols; std::vector<bool> w;
      for (int k : s.order) if (mgr(ti, k) == m && !s.removed[k]) { cols.push_back(k); w.push_back(c.isWeight(k)); }
      if (cols.empty()) continue;
      std::string out = makeHeader(g, w, mgrName(ti, m), pad);
      for (int64_t b = 0; b < nb; ++b)
        for (int k : cols) {
          std::vector<std::vector<cfloat>> rows(g.R);
          for (int r = 0; r < g.R; ++r) {
            int64_t row = b * g.R + r; rows[r] = truth(ti, k, row, ver);
            if (row < s.nRows) s.col[k]->put(row, rows[r].data(), 0, g.nVis); else rows[r].assign(g.nVis, cfloat(0, 0));
          }
          std::string e; encodeBlock(g, w[std::find(cols.begin(), cols.end(), k) - cols.begin()], rows, std::min<int64_t>(g.R, s.nRows - b * g.R), e);
          out += e;
        }
      s.init[m] = 1; ++eff;
      if (!dry) spew(s.dfile[m], out);
    }
  }
  void spec(int ti) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    if (dry || !s.tab) return;
    static const char *const dn[] = {"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"}, *const nn[] = {"AF", "RF", "Row"};
    for (size_t k = 0; k < s.col.size(); ++k) {
      if (s.removed[k] || s.plain[k]) continue;
      casacore::Record r; ++eff;
      attempt([&] { r = s.tab->findDataManager(c.colName(k), true)->dataManagerSpec(); }, "reading the settings");
      auto need = [&](bool ok, const char *what) { if (!ok) fail("settings", std::string("the storage manager reports a wrong ") + what); };
      need(r.asInt("dataBitCount") == c.dataBits, "data bit rate"); need(r.asInt("weightBitCount") == c.wBits, "weight bit rate");
      need(r.asString("distribution") == dn[c.dist], "distribution"); need(r.asString("normalization") == nn[c.norm], "normalization");
      need(c.dist != D_TRUNC || r.asDouble("distributionTruncation") == c.param, "truncation");
      need(c.dist != D_STUDENT || r.asDouble("studentTNu") == c.param, "degrees of freedom");
    }
  }
  void flush(int ti, bool sync) {
    if (!isOpen(ti)) return;
    ++eff;
    if (!dry) attempt([&] {
      t[ti].tab->flush(sync);
      // Casacore does not pass the request to synchronise on
      if (sync) for (auto &m : managers(ti)) sut_sync(m);
    }, "flushing a table");
  }
  // the lock of the table is given up, which makes casacore flush it
  void unlock(int ti) {
    if (!isOpen(ti)) return;
    ++eff;
    if (!dry) attempt([&] { t[ti].tab->unlock(); if (t[ti].writable) t[ti].tab->lock(); }, "unlocking a table");
  }
  // ---- a second session, with casacore's locks, as if another process had it open -------------
  template <typename F> void asPeer(int ti, F f) {
    TableState &s = t[ti];
    std::swap(s.tab, s.peer); std::swap(s.writable, s.peerWritable); sim::ioSession(1);
    f();
    std::swap(s.tab, s.peer); std::swap(s.writable, s.peerWritable); sim::ioSession(0);
  }
  // Within a process, casacore shares the object of a table: it should not find it
  void uncache(const std::string &name) { casacore::PlainTable::tableCache().remove(name); }
  void peer(int ti, const int64_t *a) {
    TableState &s = t[ti];
    if (!s.created || dead) return;
    if (a[0] == 4 ? !s.peerOpen : a[0] == 0 ? s.peerOpen : !s.peerOpen) return;
    if (a[0] != 4 && !dry && s.tab) attempt([&] { s.tab->unlock(); }, "unlocking a table");
    if (a[0] == 0) {
      s.peerOpen = true; s.peerWritable = a[1];
      ++eff;
      if (dry) return;
      if (s.tab) uncache(s.tab->tableName());
      attempt([&] { s.peer.reset(new Table(s.path, casacore::TableLock(casacore::TableLock::UserLocking), a[1] ? Table::Update : Table::Old)); }, "opening a table");
      if (s.peer) uncache(s.peer->tableName()); else s.peerOpen = false;
      return;
    }
    if (a[0] == 4) {
      s.peerOpen = false; ++eff;
      if (!dry) { attempt([&] { s.peer.reset(); }, "closing a table"); descriptors(ti); }
      return;
    }
    auto lock = [&](bool write) { return dry || attempt([&] { s.tab->lock(write ? casacore::FileLocker::Write : casacore::FileLocker::Read); }, "locking a table"); };
    auto unlock = [&] { if (!dry) attempt([&] { s.tab->unlock(); }, "unlocking a table"); };
    const int C = s.col.size();
    if (a[0] == 1) asPeer(ti, [&] {
      if (!lock(false)) return;
      if (!dry && (int64_t)s.tab->nrow() != s.nRows) fail("rows", "another session sees " + std::to_string(s.tab->nrow()) + " rows instead of " + std::to_string(s.nRows));
      for (int k = 0; k < C; ++k) {
        const int c = (k + a[1]) % C;
        if (s.removed[c] || (!s.plain[c] && !s.init[mgr(ti, c)])) continue;
        if (a[3] && !dry) { getColumn(ti, c); continue; }
        for (int64_t r : order(s.nRows, a[2], ti)) get(ti, c, r);
      }
      unlock();
    });
    if (a[0] == 2 && s.peerWritable) asPeer(ti, [&] {
      const int c = a[1] % C;
      if (s.removed[c] || s.plain[c] || !s.init[mgr(ti, c)] || !lock(true)) return;
      for (int64_t r = a[2]; r < a[2] + a[3] && r < s.nRows; ++r) put(ti, c, r, a[4]);
      unlock();
    });
    if (a[0] == 3 && s.peerWritable) asPeer(ti, [&] {   // more rows, of which some are written
      if (!lock(true)) return;
      const int64_t from = s.nRows;
      addRows(ti, a[2]);
      for (int c = 0; c < C; ++c) if (!s.removed[c] && !s.plain[c] && s.init[mgr(ti, c)] && (a[3] >> c & 1)) for (int64_t r = from; r < s.nRows; ++r) put(ti, c, r, a[4]);
      unlock();
    });
  }
  // the table disappears, whatever was still to be written
  void remove(int ti) {
    TableState &s = t[ti];
    if (!isOpen(ti) || !s.writable || s.peerOpen) return;
    complete(ti);   // (the manager is destructed as when the table is closed)
    ++eff;
    if (!dry) {
      if (!attempt([&] { s.tab->markForDelete(); s.tab.reset(); }, "deleting a table")) return;
      descriptors(ti);
      sim::Pause z;
      if (!::access(s.path.c_str(), F_OK)) fail("rest", "files remain after deleting a table");
    }
    if (!dry) for (auto &f : s.dfile) sim::forgetIo(f.second.c_str());
    blank(ti);
    s.init[0] = s.init[1] = s.miscounted[0] = s.miscounted[1] = 0; s.nRows = 0; s.pad = 0;
    s.writable = s.created = s.flagsPut = false;
    s.dfile.clear(); s.snap.clear(); s.flags.clear();
  }
  // (casacore can not rename a table that is open: it opens its own files later by the old name)
  void rename(int ti) {
    TableState &s = t[ti];
    if (!s.created || s.tab) return;
    ++eff;
    if (dry) return;
    const std::string old = s.path;
    s.path = old.back() == 'r' ? old.substr(0, old.size() - 1) : old + "r";
    sim::Pause z;
    if (::rename(old.c_str(), s.path.c_str())) sim::finish(sim::ST_TOOLFAIL, "scratch", "can not rename " + old);
    for (auto &f : s.dfile) {
      const std::string from = f.second;
      const size_t k = from.rfind('/'), b = from.rfind('/', k - 1);
      f.second = from.substr(0, b == std::string::npos ? 0 : b + 1) + s.path + from.substr(k);
      sim::renameIo(from.c_str(), f.second.c_str());
    }
  }
  std::set<casacore::DataManager *> managers(int ti) {
    TableState &s = t[ti]; std::set<casacore::DataManager *> r;
    if (s.tab) for (size_t c = 0; c < s.col.size(); ++c) if (!s.removed[c] && !s.plain[c]) r.insert(s.tab->findDataManager(cfg(ti).colName(c), true));
    return r;
  }
  void copy(int ti) {
    TableState &s = t[ti];
    for (size_t c = 0; c < s.col.size(); ++c) if (!s.removed[c] && !s.plain[c] && !s.init[mgr(ti, c)]) return;
    if (s.nRows <= s.geo->R) return;
    if (dry || !s.tab) return;
    const std::string dest = s.path + "c" + std::to_string(opIdx);
    std::vector<std::vector<cfloat>> v1, v2;
    auto readAll = [&](std::vector<std::vector<cfloat>> &v) { v.clear(); for (size_t c = 0; c < s.col.size(); ++c) v.push_back(s.removed[c] ? std::vector<cfloat>() : values(ti, c)); };
    readAll(v1); readAll(v1);   // stores changed blocks, as far as they have been
    attempt([&] { s.tab->deepCopy(dest, Table::New, true); }, "copying a table");
    readAll(v2);
    for (size_t c = 0; c < v1.size(); ++c) if (v1[c].size() != v2[c].size() || memcmp(v1[c].data(), v2[c].data(), v1[c].size() * sizeof(cfloat))) return;
    // the source of the copy are values that were compressed before
    ++eff;
    std::vector<std::unique_ptr<ColModel>> old;
    for (size_t k = 0; k < s.col.size(); ++k) {
      old.emplace_back(std::move(s.col[k]));
      s.col[k].reset(new ColModel(*s.geo, k));
      s.col[k]->resize(s.nRows);
      if (!s.removed[k]) for (int64_t r = 0; r < s.nRows; ++r) s.col[k]->put(r, &v1[k][r * s.geo->nVis], 0, s.geo->nVis);
    }
    std::unique_ptr<Table> tab = std::move(s.tab); auto files = s.dfile; auto path = s.path; bool w = s.writable;
    s.path = dest;
    if (open(ti, false)) { spec(ti); checkAll(ti, 0); close(ti); }
    verifyFile(ti);
    s.tab = std::move(tab); s.dfile = files; s.path = path; s.writable = w;
    for (size_t k = 0; k < s.col.size(); ++k) s.col[k] = std::move(old[k]);
  }
  // what the tools have to leave alone, and the storage managers of all columns
  void checkTable(int ti, bool rows = true) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    attempt([&] {
      for (int k = 0; k < c.nCols(); ++k) {
        const bool have = s.tab->tableDesc().isColumn(c.colName(k));
        if (have == bool(s.removed[k])) fail("columns", "column " + c.colName(k) + (have ? " was not removed" : " does not exist"));
        if (s.tab->tableDesc().isColumn("TEMP_" + c.colName(k))) fail("columns", "a temporary column was not removed");
        if (have && (s.tab->findDataManager(c.colName(k), true)->dataManagerType() == "DyscoStMan") == bool(s.plain[k])) fail("columns", "column " + c.colName(k) + (s.plain[k] ? " is compressed" : " is not compressed"));
      }
      ScalarColumn<double> tc(*s.tab, "TIME");
      ScalarColumn<int> a1(*s.tab, "ANTENNA1"), a2(*s.tab, "ANTENNA2"), f(*s.tab, "FIELD_ID"), d(*s.tab, "DATA_DESC_ID");
      for (int64_t r = 0; rows && r < s.nRows; ++r) {
        RowInfo i = s.geo->row(r);
        if (tc(r) != i.time || a1(r) != i.a1 || a2(r) != i.a2 || f(r) != i.field || d(r) != i.ddid) fail("columns", "the tool changed a column that has nothing to do with compression, row " + std::to_string(r));
      }
      if (s.flagsPut) {
        ArrayColumn<bool> fc(*s.tab, "FLAG");
        for (int64_t r = 0; r < s.nRows; ++r) {
          Array<bool> a = fc.get(r); int i = 0;
          for (bool x : a) if (x != flagOf(ti, 0, r, 0, i++)) fail("columns", "the tool changed a flag, row " + std::to_string(r));
        }
      }
    }, "reading the other columns");
  }
  // a measurement set of which not all time steps have the same baselines
  bool irregular(int ti, int64_t kind, int64_t at, bool restore) {
    TableState &s = t[ti]; const int64_t R = s.geo->R, N = s.nRows / R;
    if (dry || !isOpen(ti) || !s.writable || dead || N < 2 || (kind > 1 && R < 2)) return false;
    int64_t row = at % s.nRows;
    RowInfo i = s.geo->row(row);
    if (kind == 2) { row = (at % (N - 1)) * R + R - 1; i = s.geo->row(row); }
    if (kind == 3) { row = (at % (N - 1)) * R + R; i = s.geo->row(row); }
    if (!restore) switch (kind) {
      case 0: i.a1 += 7; break;
      case 1: i.a2 += 7; break;
      default: { RowInfo o = s.geo->row(kind == 2 ? row + 1 : row - 1); i.time = o.time; i.field = o.field; i.ddid = o.ddid; }
    }
    return attempt([&] {
      ScalarColumn<double>(*s.tab, "TIME").put(row, i.time);
      ScalarColumn<int>(*s.tab, "ANTENNA1").put(row, i.a1); ScalarColumn<int>(*s.tab, "ANTENNA2").put(row, i.a2);
      ScalarColumn<int>(*s.tab, "FIELD_ID").put(row, i.field); ScalarColumn<int>(*s.tab, "DATA_DESC_ID").put(row, i.ddid);
    }, "changing a row");
  }
  // An antenna that does not occur in the first block: its factor can not be stored with AF normalisation
  void badAntenna(int ti, int c, int64_t row, int64_t kind, bool write) {
    TableState &s = t[ti]; const TCfg &k = cfg(ti);
    if (!isOpen(ti) || s.removed[c] || s.plain[c] || row >= s.nRows || row < 0 || !s.writable || dead) return;
    if (!s.init[mgr(ti, c)] && (kind % 4 < 2 || !write)) return;
    const bool af = k.norm == N_AF && !k.isWeight(c);
    if (dry) { if (write && !af) put(ti, c, row, kind); return; }
    const RowInfo i = s.geo->row(row);
    const int n = s.geo->antCount, wrong[] = {n, n + 1 + int(row % 40), -1, -1000};
    auto change = [&](int a1, int a2) {
      attempt([&] { ScalarColumn<int>(*s.tab, "ANTENNA1").put(row, a1); ScalarColumn<int>(*s.tab, "ANTENNA2").put(row, a2); }, "changing an antenna");
    };
    change(kind & 4 ? i.a1 : wrong[kind % 4], kind & 4 ? wrong[kind % 4] : i.a2);
    mayRefuse = af; refused = false;
    if (write) put(ti, c, row, kind); else get(ti, c, row);
    mayRefuse = false;
    if (af && write && !refused) fail("antenna", "a row with an antenna that does not occur in the first block is accepted, although its factor can not be stored");
    if (refused) { ++failedOps; ++eff; ++sh->user[62]; }
    change(i.a1, i.a2);
  }
  // Requests that can not be honoured are refused when they are made, and change nothing
  template <typename F> void refuse(int ti, const std::string &what, const std::string &column, const std::string &manager, F f) {
    TableState &s = t[ti];
    bool accepted = true;
    const bool had = s.tab && s.tab->tableDesc().isColumn(column);
    try { f(); } catch (std::exception &e) { accepted = false; if (getenv("SIM_DBG")) fprintf(stderr, "op %ld: refused: %s\n", (long)opIdx, e.what()); }
    if (accepted) fail("accepted", what + " is accepted");
    ++failedOps; ++eff; ++sh->user[44];
    if (!s.tab) return;
    if (!had && s.tab->tableDesc().isColumn(column)) fail("refused", "after " + what + " was refused, the table has the column");
    if (manager.empty()) return;
    bool have = true;
    try { s.tab->findDataManager(manager, false); } catch (std::exception &) { have = false; }
    if (have) fail("refused", "after " + what + " was refused, the table has the storage manager");
  }
  void badColumn(int ti, int64_t kind, int64_t fresh) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    if (dry || !isOpen(ti) || !s.writable || dead) return;
    int first = -1, weight = -1;
    for (size_t k = 0; k < s.col.size(); ++k) if (!s.removed[k] && !s.plain[k]) { if (first < 0) first = k; if (c.isWeight(k)) weight = k; }
    if (first < 0) fresh = 1;
    kind %= 8;
    if (kind == 3 && weight >= 0) kind = 2;
    if (kind == 6 && first < 0) kind = 0;
    const std::string name = kind == 3 ? "WEIGHT_SPECTRUM" : kind == 6 ? c.colName(first) : "EXTRA", man = fresh ? "Refused" : mgrName(ti, mgr(ti, first));
    const int opt = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
    const IPosition shp(2, c.nPol, c.nChan);
    auto add = [&](const casacore::ColumnDesc &d) {
      if (fresh) { std::unique_ptr<casacore::DataManager> dm(sut_make(c.dataBits, c.wBits, man.c_str(), c.dist, c.param, c.norm, c.staticSeed, 0)); s.tab->addColumn(d, *dm); }
      else s.tab->addColumn(d, man, true);
    };
    if (!fresh) s.miscounted[mgr(ti, first)] = 1;
    static const char *const what[] = {"a scalar column", "a column of which the shape can vary", "a data column of floats", "a weight column of complex values", "a data column of doubles", "a data column of double complex values", "a second column with the same name", "a data column of integers"};
    refuse(ti, what[kind], name, fresh ? man : "", [&] {
      switch (kind) {
        case 0: add(ScalarColumnDesc<Complex>(name, "", "DyscoStMan", man)); break;
        case 1: add(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", man, 2)); break;
        case 2: add(ArrayColumnDesc<float>(name, "", "DyscoStMan", man, shp, opt)); break;
        case 4: add(ArrayColumnDesc<double>(name, "", "DyscoStMan", man, shp, opt)); break;
        case 5: add(ArrayColumnDesc<casacore::DComplex>(name, "", "DyscoStMan", man, shp, opt)); break;
        case 7: add(ArrayColumnDesc<int>(name, "", "DyscoStMan", man, shp, opt)); break;
        default: if (kind == 6 && c.isWeight(first)) add(ArrayColumnDesc<float>(name, "", "DyscoStMan", man, shp, opt)); else add(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", man, shp, opt));
      }
    });
  }
  void badRow(int ti, int64_t row) {
    TableState &s = t[ti];
    if (dry || !isOpen(ti) || !s.writable || dead || s.nRows < 2) return;
    row %= s.nRows - 1;
    for (auto &m : managers(ti)) refuse(ti, "removing row " + std::to_string(row) + " of " + std::to_string(s.nRows), "", "", [&] { sut_removeRow(m, row); });
  }
  void badSettings(int ti, int64_t kind, int64_t value, int64_t newTable) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    if (dry || dead || (!newTable && (!isOpen(ti) || !s.writable))) return;
    static const int bits[] = {1, 5, 7, 9, 11, 13, 14, 15, 17, 20, 24, 32, 64, 256 + 8, 0, -8};
    static const double par[] = {0, -1, -2.5, NAN, -1e-300};
    int dataBits = c.dataBits, wBits = c.wBits, dist = c.dist, norm = c.norm, spec = value / 16 & 1; double param = c.param;
    bool weight = false; std::string what;
    kind %= 6;
    if (kind == 1) for (size_t k = 0; k < s.col.size(); ++k) if (!s.removed[k] && c.isWeight(k) && !newTable) kind = 0;
    switch (kind) {
      case 0: dataBits = bits[value % 16]; what = "a data bit rate of " + std::to_string(dataBits); break;
      case 1: wBits = bits[value % 16]; weight = true; what = "a weight bit rate of " + std::to_string(wBits); break;
      case 2: dist = D_TRUNC; param = par[value % 5]; what = "a truncation of " + std::to_string(param); break;
      case 3: dist = D_STUDENT; param = par[value % 5]; what = "a Student t distribution with " + std::to_string(param) + " degrees of freedom"; break;
      case 4: dist = 4; spec = 1; what = "an unknown distribution"; break;
      case 5: norm = 3; spec = 1; what = "an unknown normalization"; break;
    }
    const int opt = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
    const IPosition shp(2, c.nPol, c.nChan);
    const std::string name = weight ? "WEIGHT_SPECTRUM" : "EXTRA", man = "Refused";
    refuse(ti, what, name, man, [&] {
      std::unique_ptr<casacore::DataManager> dm(sut_make(dataBits, wBits, man.c_str(), dist, param, norm, 0, spec));
      if (newTable) {
        TableDesc td("", "1", TableDesc::Scratch);
        td.addColumn(ScalarColumnDesc<double>("TIME")); td.addColumn(ScalarColumnDesc<int>("ANTENNA1")); td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
        td.addColumn(ScalarColumnDesc<int>("FIELD_ID")); td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
        if (weight) td.addColumn(ArrayColumnDesc<float>(name, "", "DyscoStMan", man, shp, opt)); else td.addColumn(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", man, shp, opt));
        SetupNewTable setup("bad" + std::to_string(opIdx), td, Table::New);
        setup.bindColumn(name, *dm);
        Table tab(setup, casacore::TableLock(casacore::TableLock::AutoLocking), value % 3 * 7);
      }
      else if (weight) s.tab->addColumn(ArrayColumnDesc<float>(name, "", "DyscoStMan", man, shp, opt), *dm);
      else s.tab->addColumn(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", man, shp, opt), *dm);
    });
  }
  void badTool(int ti, int64_t kind, int64_t value) {
    TableState &s = t[ti];
    if (dry || s.tab || !s.created || dead) return;
    static const char *const bits[] = {"1", "5", "7", "9", "11", "13", "32", "0", "-8", "x", "264", "4294967304"};
    static const char *const tr[] = {"0", "-1", "nan", "x", "-0.5"};
    std::vector<std::string> a{"dscompress"};
    switch (kind % 7) {
      case 5: case 6: {   // more than one column
        int dup = value % s.col.size(); const std::string &name = cfg(ti).colName(dup);
        const char *const no[] = {"NOSUCH", "ANTENNA1", "TEMP_DATA", "DATA99"};
        a.push_back("-column"); a.push_back(name); a.push_back("-column");
        a.push_back(kind % 7 == 5 && s.plain[dup] ? name : value & 64 && cfg(ti).weightPos < 0 ? "WEIGHT_SPECTRUM" : no[value / 8 % 4]);
        break;
      }
      case 0: a.push_back("-data-bit-rate"); a.push_back(bits[value % 11]); break;
      case 1: a.push_back("-weight-bit-rate"); a.push_back(bits[value % 11]); a.push_back("-column"); a.push_back("WEIGHT_SPECTRUM"); break;
      case 2: a.push_back("-truncgaus"); a.push_back(tr[value % 5]); break;
      case 3: { static const char *const x[] = {"-studentst", "-bitrate", "-", "-columns"}; a.push_back(x[value % 4]); break; }
      case 4: { static const char *const x[] = {"NOSUCH", "ANTENNA1", "FLAG", "TIME"}; a.push_back("-column"); a.push_back(x[value % 4]); break; }
    }
    std::string what; for (auto &x : a) what += x + " ";
    a.push_back(s.path);
    std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]);
    refuse(ti, what, "", "", [&] { if (sut_dscompress_main(av.size(), av.data())) throw std::runtime_error("error status"); });
    if (open(ti, false)) { checkTable(ti); close(ti); }
  }
  void tool(int ti, int which, bool reorder, int64_t mask, int64_t shuffle, int64_t how) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    const bool faults = how & 1, irregular = how & 2;
    bool refuse = irregular;
    if (dry || s.tab || !s.created || !s.flagsPut || s.nRows <= s.geo->R) return;
    const int C = s.col.size();
    std::vector<std::string> a{"tool"};
    if (c.norm == N_AF) reorder = false;   // the error of two compressions can not be bounded
    std::vector<int> sel;                  // the columns that are converted
    int managed = 0, all = 0;
    for (int k = 0; k < C; ++k) all += !s.removed[k] && !s.plain[k];
    if (which == 0) {
      for (int k = 0; k < C; ++k) if (mask ? mask >> k & 1 : c.colName(k) == "DATA") sel.push_back(k);
      if (shuffle) { sim::Rng r(shuffle); for (size_t i = sel.size(); i > 1; --i) std::swap(sel[i - 1], sel[r.below(i)]); }
      for (int k : sel) managed += !s.plain[k];
      if (sel.empty() || (!refuse && s.nRows % s.geo->R)) return;
      // columns can not be added to a manager that has data
      if (all && managed != (int)sel.size()) refuse = true;
      a.push_back("-data-bit-rate"); a.push_back(std::to_string(c.dataBits)); a.push_back("-weight-bit-rate"); a.push_back(std::to_string(c.wBits));
      static const char *const nn[] = {"-afnormalization", "-rfnormalization", "-rownormalization"};
      a.push_back(nn[c.norm]);
      if (c.dist == D_TRUNC) { a.push_back("-truncgaus"); char b[40]; snprintf(b, sizeof b, "%.17g", c.param); a.push_back(b); }
      else a.push_back(c.dist == D_GAUSS ? "-gaussian" : c.dist == D_UNIFORM ? "-uniform" : "-studentt");
      if (c.staticSeed) a.push_back("-static-seed");
      if (reorder) a.push_back("-reorder");
      if (mask) for (int k : sel) { a.push_back("-column"); a.push_back(c.colName(k)); }
    } else
      for (int k = 0; k < C; ++k) if (!s.plain[k] && (c.colName(k) == "DATA" || c.isWeight(k))) sel.push_back(k);
    a.push_back((how & 4) ? s.path + "/" : s.path);
    std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]);
    // what the compressed columns contain
    std::vector<std::vector<std::vector<std::vector<cfloat>>>> stored(C);
    std::vector<std::vector<cfloat>> before(C);
    if (!open(ti, false)) return;
    checkAll(ti, 0);
    for (int k = 0; k < C; ++k) {
      if (s.plain[k]) continue;
      before[k] = values(ti, k);
      stored[k].resize((s.nRows + s.geo->R - 1) / s.geo->R);
      for (size_t b = 0; b < stored[k].size(); ++b) if (!readBlock(ti, k, b, stored[k][b])) fail("tool", "the compressed file is missing");
    }
    close(ti);
    const std::string name = which == 0 ? "dscompress" : "decompress";
    if (refuse) {
      int rc = 0; bool refused = false;
      try { rc = sut_dscompress_main(av.size(), av.data()); } catch (std::exception &) { refused = true; }
      if (!refused && !rc) fail("irregular", irregular ? "dscompress does not refuse a measurement set of which the time steps have different baselines" : "dscompress does not refuse to add a column to a storage manager that has data");
      ++failedOps; ++eff;
      if (open(ti, false)) { checkTable(ti, !irregular); if (!irregular) { checkAll(ti, 1); spec(ti); } close(ti); }
      return;
    }
    if (faults) sim::armFaults(true);
    const bool ok = attempt([&] { int rc = which == 0 ? sut_dscompress_main(av.size(), av.data()) : sut_decompress_main(av.size(), av.data()); if (rc) fail("tool", "the tool returns an error"); }, name.c_str());
    if (faults) sim::armFaults(false);
    if (!ok) { if (!dead) { dead = true; deadMsg = name + " reports an error"; } return; }   // the real process ends here, without having changed the table
    ++eff;
    auto adopt = [&](int k) {
      for (size_t b = 0; b < stored[k].size(); ++b) {
        std::string e = s.col[k]->adopt(b, stored[k][b], s.nRows);
        if (!e.empty()) fail("data-stored", e);
      }
    };
    auto flagged = [&](int k, int64_t r) {
      bool any = false; Cell &x = s.col[k]->rows[r];
      if (!c.isWeight(k)) for (int i = 0; i < s.geo->nVis; ++i) if (flagOf(ti, k, r, 0, i)) { if (x.set) x.v[i] = cfloat(NAN, NAN); any = true; }
      return any;
    };
    if (which == 0 && managed) {   // flagged values are replaced, although the columns have been compressed already
      for (int k : sel) {
        adopt(k);
        ColModel &m = *s.col[k];
        for (int64_t r = 0; r < s.nRows; ++r) if (flagged(k, r)) { auto v = m.rows[r].v; m.put(r, v.data(), 0, v.size()); }
      }
    } else if (which == 0) {
      s.init[0] = 1; s.order = sel;
      for (int k = 0; k < C; ++k) if (std::find(sel.begin(), sel.end(), k) == sel.end()) s.order.push_back(k);
      for (int k : sel) {
        s.plain[k] = 0;
        ColModel &m = *s.col[k];
        for (int64_t r = 0; r < s.nRows; ++r) {
          Cell &x = m.rows[r];
          if (!x.set) { x.set = true; x.v.assign(s.geo->nVis, cfloat(0, 0)); }
          flagged(k, r); x.err.clear();
        }
        for (auto &b : m.blk) { b.ever = true; b.cached = b.perturbed = false; }
        if (reorder) {   // compressed twice, what was stored in between can not be observed
          for (int64_t b = 0; b < (int64_t)m.blk.size(); ++b) {
            std::vector<std::vector<float>> er(s.geo->R, std::vector<float>(s.geo->nVis, 0));
            for (int r = 0; r < s.geo->R; ++r) for (int i = 0; i < s.geo->nVis; ++i) {
              cfloat v = m.rows[b * s.geo->R + r].v[i];
              if (c.isWeight(k)) er[r][i] = 0.5 * m.wmax(b) / ((1u << c.wBits) - 1);
              else if (std::isfinite(v.real())) { double F = m.blockFactors(b)[r][i]; er[r][i] = std::max(m.bound(v.real(), 0, F), m.bound(v.imag(), 0, F)); }
            }
            for (int r = 0; r < s.geo->R; ++r) m.rows[b * s.geo->R + r].err = er[r];
            m.blk[b].cached = false;
          }
        }
      }
    } else if (!sel.empty()) {
      for (int k = 0; k < C; ++k) if (!s.plain[k]) {
        adopt(k);
        if (std::find(sel.begin(), sel.end(), k) == sel.end()) continue;   // compressed again by the copy of the table
        s.plain[k] = 1;
        for (int64_t r = 0; r < s.nRows; ++r) { Cell &x = s.col[k]->rows[r]; x.set = true; x.err.clear(); x.v.assign(&before[k][r * s.geo->nVis], &before[k][(r + 1) * s.geo->nVis]); }
      }
    }
    s.dfile.clear();
    if (open(ti, false)) { checkTable(ti); close(ti); }
  }
  void putFlags(int ti) {
    TableState &s = t[ti]; const TCfg &c = cfg(ti);
    if (dry || !s.tab || !c.plain || !s.writable) return;
    s.flagsPut = true; ++eff;
    attempt([&] {
      ArrayColumn<bool> f(*s.tab, "FLAG");
      for (int64_t r = 0; r < s.nRows; ++r) {
        Array<bool> a(IPosition(2, c.nPol, c.nChan)); bool *d = a.data();
        for (int i = 0; i < s.geo->nVis; ++i) d[i] = flagOf(ti, 0, r, 0, i);
        f.put(r, a);
      }
    }, "writing flags");
  }
  // All values of a column in the order of the rows, as they are read now
  std::vector<cfloat> values(int ti, int c) {
    TableState &s = t[ti]; std::vector<cfloat> v;
    attempt([&] {
      if (cfg(ti).isWeight(c)) { Array<float> a = ArrayColumn<float>(*s.tab, cfg(ti).colName(c)).getColumn(); for (float x : a) v.push_back(x); }
      else { Array<Complex> a = ArrayColumn<Complex>(*s.tab, cfg(ti).colName(c)).getColumn(); for (auto x : a) v.push_back(x); }
    }, "reading a column");
    return v;
  }
  void statistics();
  void sameFiles(int a, int b) {
    if (dry) return;
    for (auto &f : t[a].dfile) {
      std::string x = slurp(f.second), y = slurp(t[b].dfile[f.first]);
      if (x == y) continue;
      size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
      fail("not-reproducible", "the same data were written with the same static seed, but the files differ from byte " + std::to_string(i) + " (sizes " + std::to_string(x.size()) + ", " + std::to_string(y.size()) + ")");
    }
  }
  void saveOthers(int ti) {
    if (dry) return;
    sim::Pause z;
    mkdir("side", 0755);
    std::set<std::string> d;
    for (auto &f : t[ti].dfile) { size_t k = f.second.rfind('/'); d.insert(k == std::string::npos ? f.second : f.second.substr(k + 1)); }
    std::string names;
    for (auto &n : listDir(t[ti].path)) if (!d.count(n)) { spew("side/" + n, slurp(t[ti].path + "/" + n)); }
    for (auto &f : t[ti].dfile) names += f.second + "\n";
    spew("side.names", names);
  }
  // state of the model after the last completed operation, for the process that continues after a crash
  bool track = false;
  void save() {
    std::string o;
    auto num = [&](int64_t v) { o.append((const char *)&v, 8); };
    for (auto &s : t) {
      num(s.created); num(s.nRows); num(s.writable); num(s.flagsPut); num(s.init[0]); num(s.init[1]);
      for (size_t c = 0; c < s.col.size(); ++c) {
        num(s.removed[c]);
        ColModel &m = *s.col[c];
        num(m.rows.size());
        for (auto &x : m.rows) {
          num(x.set | x.loaded << 1 | x.unk << 2 | int(!x.err.empty()) << 3);
          if (x.set) o.append((const char *)x.v.data(), x.v.size() * sizeof(cfloat));
          if (!x.err.empty()) o.append((const char *)x.err.data(), x.err.size() * sizeof(float));
        }
        num(m.blk.size());
        for (auto &b : m.blk) num(b.touched | b.ever << 1);
      }
    }
    num(sh->opDone);
    spew("model.bin", o);
  }
  int64_t load() {
    std::string o = slurp("model.bin");
    if (o.empty()) return -1;
    size_t p = 0;
    auto raw = [&](void *d, size_t n) { if (p + n > o.size()) sim::finish(sim::ST_TOOLFAIL, "model", "the saved model is too short"); memcpy(d, o.data() + p, n); p += n; };
    auto num = [&]() { int64_t v; raw(&v, 8); return v; };
    for (auto &s : t) {
      s.created = num(); s.nRows = num(); s.writable = num(); s.flagsPut = num(); s.init[0] = num(); s.init[1] = num();
      for (size_t c = 0; c < s.col.size(); ++c) {
        s.removed[c] = num();
        ColModel &m = *s.col[c];
        m.rows.resize(num());
        for (auto &x : m.rows) {
          int f = num(); x.set = f & 1; x.loaded = f & 2; x.unk = f & 4;
          if (x.set) { x.v.resize(s.geo->nVis); raw(x.v.data(), x.v.size() * sizeof(cfloat)); }
          if (f & 8) { x.err.resize(s.geo->nVis); raw(x.err.data(), x.err.size() * sizeof(float)); }
        }
        m.blk.resize(num());
        for (auto &b : m.blk) { int f = num(); b.touched = f & 1; b.ever = f & 2; }
      }
    }
    return num();
  }
  void step(const Op &o);
  void runPar(size_t from, size_t to);
  void finishRun();
};

struct ParArg { Exec *e; std::vector<Op> ops; };
void *parMain(void *p) {
  ParArg *a = static_cast<ParArg *>(p);
  for (const Op &o : a->ops) a->e->step(o);
  return nullptr;
}
void Exec::runPar(size_t from, size_t to) {
  std::map<int, std::unique_ptr<ParArg>> args;
  for (size_t i = from; i < to; ++i) { auto &a = args[p.ops[i].thr]; if (!a) { a.reset(new ParArg); a->e = this; } a->ops.push_back(p.ops[i]); }
  if (dry) { for (auto &a : args) for (auto &o : a.second->ops) step(o); return; }
  std::vector<pthread_t> th;
  inPar = true;
  for (auto &a : args) { pthread_t x; if (pthread_create(&x, nullptr, parMain, a.second.get())) sim::finish(sim::ST_TOOLFAIL, "threads", "no thread"); th.push_back(x); }
  for (auto x : th) pthread_join(x, nullptr);
  inPar = false;
}

// ---- dither statistics ------------------------------------------------------------------------
// Rounding has to be unbiased and independent for all values, blocks, columns and tables.
void Exec::statistics() {
  if (dry) return;
  struct Res { std::vector<double> r; };   // (stored - exact) / gap, NaN if not usable
  struct Ser { int table, col; int64_t blk; std::vector<double> r; };
  std::vector<Ser> ser;
  double sum = 0, var = 0; uint64_t n = 0;
  for (size_t ti = 0; ti < t.size(); ++ti) {
    if (!t[ti].tab) continue;
    const Geo &g = *t[ti].geo; const TCfg &c = cfg(ti);
    const Levels L = levels(c.dataBits, c.dist, c.param);
    for (size_t k = 0; k < t[ti].col.size(); ++k) {
      if (c.isWeight(k)) continue;
      std::vector<cfloat> v = values(ti, k);
      ColModel &m = *t[ti].col[k];
      for (size_t b = 0; b < m.blk.size(); ++b) {
        Ser s; s.table = ti; s.col = k; s.blk = b;
        const auto &f = m.blockFactors(b);
        for (int r = 0; r < g.R; ++r) {
          int64_t row = b * g.R + r;
          if (row >= t[ti].nRows) break;
          for (int i = 0; i < g.nVis; ++i) for (int q = 0; q < 2; ++q) {
            double x = q ? m.rows[row].v[i].imag() : m.rows[row].v[i].real(), y = q ? v[row * g.nVis + i].imag() : v[row * g.nVis + i].real(), F = f[r][i];
            double res = NAN;
            if (F > 0 && std::isfinite(x) && std::isfinite(y)) {
              double z = x / F; size_t j = std::upper_bound(L.begin(), L.end(), z) - L.begin();
              if (j > 0 && j < L.size()) {
                double gap = L[j] - L[j - 1], u = (z - L[j - 1]) / gap;
                if (u > 0.02 && u < 0.98) {   // variance of an unbiased rounding is u(1-u)
                  double e = (y / F - z) / gap;
                  res = e / std::sqrt(u * (1 - u));
                  sum += res; var += 1; ++n;
                }
              }
            }
            s.r.push_back(res);
          }
        }
        ser.push_back(s);
      }
    }
  }
  char buf[300];
  sh->user[20] = n;
  if (n > 2000) {
    double z = sum / std::sqrt(var);
    sh->user[21] = uint64_t(std::fabs(z) * 1000);
    if (std::fabs(z) > 7) { snprintf(buf, sizeof buf, "the rounding error of %lu values is biased: %.1f standard deviations", (unsigned long)n, z); fail("dither-bias", buf); }
  }
  double worst = 0;
  auto test = [&](const Ser &a, const Ser &b, size_t lag, const char *what) {
    double s = 0, cnt = 0;
    for (size_t i = 0; i + lag < a.r.size() && i < b.r.size(); ++i) {
      double x = a.r[i + lag], y = b.r[i];
      if (std::isfinite(x) && std::isfinite(y)) { s += x * y; cnt += std::min(x * x * y * y, 1e9); }
    }
    if (cnt < 200) return;
    double z = s / std::sqrt(cnt);
    worst = std::max(worst, std::fabs(z));
    if (std::fabs(z) > 8) {
      snprintf(buf, sizeof buf, "rounding errors are correlated (%.1f standard deviations): %s table %d column %d block %ld and table %d column %d block %ld", z, what, a.table, a.col, (long)a.blk, b.table, b.col, (long)b.blk);
      fail("dither-correlated", buf);
    }
  };
  for (size_t i = 0; i < ser.size(); ++i) {
    for (size_t j = i + 1; j < ser.size(); ++j) test(ser[i], ser[j], 0, "");
    for (size_t lag = 1; lag < 5; ++lag) test(ser[i], ser[i], lag, "neighbouring values of");
  }
  sh->user[22] = uint64_t(worst * 1000);
}

void Exec::step(const Op &o) {
  if (dead) return;
  const int ti = o.t;
  TableState &s = t[ti];
  const auto &a = o.a;
  const int C = s.col.size();
  auto col = [&](int64_t c) { return int(c % (C ? C : 1)); };
  const uint64_t eff0 = eff;
  sim::event(o.code, opIdx);
  switch (o.code) {
    case O_CREATE: if (!s.created) create(ti, a[0]); break;
    case O_OPEN: if (s.created && !(s.tab)) {
        const bool tr = truncated.count(ti);
        if (wrongVersion.count(ti) && !dry) {
          bool ok = false;
          try { Table x(s.path, a[0] ? Table::Update : Table::Old); ok = true; } catch (std::exception &) { }
          ++eff;
          if (ok) fail("version", "a file with another format version or number of columns is opened without an error");
          break;
        }
        if (tr && !dry) {
          try { s.tab.reset(new Table(s.path, Table::Old)); findFiles(ti); s.writable = false; ++eff; }
          catch (std::exception &) { s.tab.reset(); ++failedOps; ++eff; }
        } else open(ti, a[0], a[1]);
      } break;
    case O_CLOSE: close(ti); if (!power) markDurable(ti); break;
    case O_FLUSH: if (!s.writable && !dry) break; if (a[0] == 2) unlock(ti); else flush(ti, a[0]); if (a[0] == 1 || !power) markDurable(ti); break;
    case O_PUT: put(ti, col(a[0]), a[1], a[2]); break;
    case O_PUTB: putBlock(ti, col(a[0]), a[1], a[2], a[3], a[4]); break;
    case O_PUTALL: putAll(ti, a[0], a[1], a[2], a[3], a[4]); break;
    case O_PUTSL: put(ti, col(a[0]), a[1], a[2], a[3], a[4]); break;
    case O_PUTCOL: putColumn(ti, col(a[0]), a[1]); break;
    case O_GETCOL: getColumn(ti, col(a[0])); break;
    case O_GET: get(ti, col(a[0]), a[1]); break;
    case O_GETB: for (int64_t i : order(s.geo->R, a[2], a[1])) get(ti, col(a[0]), a[1] * s.geo->R + i); break;
    case O_CHECK: checkAll(ti, a[0]); break;
    case O_ADDROWS:
      if (!isOpen(ti) || !s.writable) break;
      addRows(ti, a[0]);
      break;
    case O_RMCOL: {
      const int c = col(a[0]), m = mgr(ti, c); int left = 0;
      for (int k = 0; k < C; ++k) if (!s.removed[k] && k != c && mgr(ti, k) == m) ++left;
      if (s.removed[c] || !isOpen(ti) || !s.writable || s.plain[c] || (!left && s.miscounted[m])) break;
      s.miscounted[m] = left > 0;
      // the removal moves the blocks in the file: a block that is loaded now is not read again
      if (!dry) for (int k = 0; k < C; ++k) if (!s.removed[k]) for (int64_t b = 0; b < (int64_t)s.col[k]->blk.size(); ++b) sync(ti, k, b);
      if (!dry && !attempt([&] { s.tab->removeColumn(cfg(ti).colName(c)); }, "removing a column")) { if (dead) loud(deadMsg); break; }   // Casacore can not continue with the table
      s.removed[c] = 1; ++eff;
      if (!dry && left) sim::forgetIo(s.dfile[m].c_str());   // what moved the blocks did not load them
      if (!s.init[m]) { s.col[c].reset(new ColModel(*s.geo, c)); s.col[c]->resize(s.nRows); }
      if (left) break;
      // the manager disappears with its last column
      ++sh->user[63];
      if (!dry) {
        const std::string name = s.dfile[m];
        { sim::Pause z; if (::access(name.c_str(), F_OK) == 0) fail("columns", "the file of the storage manager remains after its last column was removed"); }
        sim::forgetIo(name.c_str());
        s.dfile.erase(m);
      }
      s.init[m] = 0; s.pad = 0;
      for (int k = 0; k < C; ++k) if (mgr(ti, k) == m) { s.col[k].reset(new ColModel(*s.geo, k)); s.col[k]->resize(s.nRows); }
      break;
    }
    case O_ADDCOL: {
      // to a manager that has no data
      const int c = col(a[0]); const TCfg &k = cfg(ti); bool data = false, other = false;
      if (!s.removed[c] || !isOpen(ti) || !s.writable || s.plain[c]) break;
      for (int i = 0; i < C; ++i) if (mgr(ti, i) == mgr(ti, c)) { other = other || !s.removed[i]; for (auto &b : s.col[i]->blk) data = data || b.ever; }
      ++eff;
      if (dry) { if (!data) s.removed[c] = 0; break; }
      const IPosition shp(2, k.nPol, k.nChan);
      auto add = [&] {
        const int opt = casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape;
        std::unique_ptr<casacore::DataManager> dm(other ? nullptr : make(ti, mgr(ti, c)));   // the first column makes a new manager
        auto to = [&](const casacore::ColumnDesc &d) { if (other) s.tab->addColumn(d, mgrName(ti, mgr(ti, c)), true); else s.tab->addColumn(d, *dm); };
        if (k.isWeight(c)) { ArrayColumnDesc<float> d(k.colName(c), "", "DyscoStMan", mgrName(ti, mgr(ti, c)), shp); d.setOptions(opt); to(d); }
        else { ArrayColumnDesc<Complex> d(k.colName(c), "", "DyscoStMan", mgrName(ti, mgr(ti, c)), shp); d.setOptions(opt); to(d); }
        if (!other) s.removed[c] = 0, findFiles(ti);
      };
      if (data) {
        bool refused = false;
        s.miscounted[mgr(ti, c)] = 1;
        try { add(); } catch (std::exception &) { refused = true; }
        if (!refused) fail("addcolumn", "a column is added although the blocks have no room for it");
        ++failedOps; ++sh->user[61];
      } else if (attempt(add, "adding a column")) { s.removed[c] = 0; ++sh->user[60]; s.order.erase(std::find(s.order.begin(), s.order.end(), c)); s.order.push_back(c); }
      break;
    }
    case O_RMROW:
      for (int64_t n = a[0]; n > 0 && isOpen(ti) && s.writable && s.nRows > 1 && !dead; --n) {
        const int64_t row = s.nRows - 1, b = row / s.geo->R;
        if (!dry && !attempt([&] { s.tab->removeRow(row); }, "removing a row")) break;
        ++eff;
        // the block is changed, what was loaded for that counts
        if (!dry) for (int k = 0; k < C; ++k) if (!s.removed[k]) sync(ti, k, b);
        s.nRows = row;
        for (auto &m : s.col) m->truncate(row);
      }
      break;
    case O_IRREG: if (irregular(ti, a[0], a[1], a[2])) ++eff; break;
    case O_BADCOL: badColumn(ti, a[0], a[1]); break;
    case O_BADSET: badSettings(ti, a[0], a[1], a[2]); break;
    case O_BADTOOL: badTool(ti, a[0], a[1]); break;
    case O_BADROW: badRow(ti, a[0]); break;
    case O_BADANT: badAntenna(ti, a[0], a[1], a[2], a[3]); break;
    case O_COPY: copy(ti); break;
    case O_TOOL: tool(ti, a[0], a[1], a[2], a[3], a[4]); break;
    case O_FAULTS: ++eff; if (!dry) sim::armFaults(a[0]); break;
    case O_CPUS: ++eff; if (!dry) sim::setKnobs(a[0], a[1]); break;
    case O_YIELD: ++eff; if (!dry) for (int64_t i = 0; i < a[0]; ++i) sim::yieldPoint(); break;
    case O_SNAP: if (!dry) { ++eff; s.snap.clear(); for (auto &f : s.dfile) s.snap[f.first] = slurp(f.second); } break;
    case O_CMPSNAP:
      if (dry || s.snap.empty()) break;
      ++eff;
      for (auto &f : s.dfile) if (slurp(f.second) != s.snap[f.first]) {
        std::string x = slurp(f.second), &y = s.snap[f.first]; size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
        fail("file-changed", "the file changed without a write: first difference at byte " + std::to_string(i) + " (sizes " + std::to_string(y.size()) + ", " + std::to_string(x.size()) + ")");
      }
      break;
    case O_VERIFYFILE: verifyFile(ti); break;
    case O_WRITEFILE: if (dry || !s.tab) writeFile(ti, a[0], a[1]); break;
    case O_SPEC: spec(ti); break;
    case O_RENAME: rename(ti); break;
    case O_PEER: peer(ti, a); break;
    case O_DELETE: remove(ti); break;
    case O_REOPENRW:
      if (!isOpen(ti) || s.readOnlyFs) break;
      if (!dry) ++eff, attempt([&] { s.tab->reopenRW(); }, "reopening a table for writing");
      s.writable = true;
      break;
    case O_CUT:
      if (dry || s.tab) break;
      if (a[1] == 3) {   // another version of the format
        for (auto &f : s.dfile) {
          sim::Pause z;
          int fd = ::open(f.second.c_str(), O_RDWR);
          unsigned char v[4] = {(unsigned char)(a[0] & 255), (unsigned char)(a[0] >> 8), (unsigned char)(a[2] & 255), (unsigned char)(a[2] >> 8)};
          if (::pwrite(fd, v, 4, 28 + mgrName(ti, f.first).size()) != 4) {}
          ::close(fd);
        }
        if (a[0] == 1 && a[2] == 0) wrongVersion.erase(ti); else wrongVersion[ti] = 1;
        sh->user[31]++; ++eff;
        break;
      }
      if (a[1] == 4) {   // another number of columns (the same again when a[0] is zero)
        for (auto &f : s.dfile) {
          uint32_t n = 0;
          for (size_t c = 0; c < s.col.size(); ++c) n += !s.removed[c] && !s.plain[c] && mgr(ti, c) == f.first;
          n += a[0];
          sim::Pause z;
          int fd = ::open(f.second.c_str(), O_RDWR);
          unsigned char v[4] = {(unsigned char)n, (unsigned char)(n >> 8), (unsigned char)(n >> 16), (unsigned char)(n >> 24)};
          if (::pwrite(fd, v, 4, 8) != 4) {}
          ::close(fd);
        }
        if (!a[0]) wrongVersion.erase(ti); else wrongVersion[ti] = 1;
        sh->user[31]++; ++eff;
        break;
      }
      for (auto &f : s.dfile) {
        std::string b = slurp(f.second);
        size_t n = b.size() * (a[0] % 10001) / 10000;
        if (a[1] == 1) n = std::min<size_t>(b.size(), a[0] % 160);                       // in the header
        if (a[1] == 2) n = b.size() - std::min<size_t>(b.size(), 1 + a[0] % 64);          // the last bytes
        sim::Pause z; if (::truncate(f.second.c_str(), n)) {}
        sh->user[30]++; ++eff;
      }
      truncated[ti] = 1;
      break;
    case O_CRASH: ++eff; if (!dry) { flush(ti, true); saveOthers(ti); sim::armFaults(true); } markDurable(ti); break;
    case O_EXPECT: if (a[0] == 1) statistics(); else if (a[0] == 2) sameFiles(ti, a[1]); else if (a[0] == 3) putFlags(ti);
      else if (a[0] == 4) { sim::resetPeak(); sh->user[40] = sim::liveHeap(); }
      else if (a[0] == 5 && !dry) {
        uint64_t lim = a[1], used = sim::peakHeap() - sh->user[40];
        sh->user[41] = std::max(sh->user[41], used);
        if (used > lim) fail("memory", "memory use grows with the number of blocks: " + std::to_string(used) + " bytes while at most " + std::to_string(lim) + " are expected");
      } else if (a[0] == 6) fault = a[1];
      else if (a[0] == 7 && !dry) {
        // after each of some equal sessions: what remains in use must not grow
        std::vector<uint64_t> &h = heapAfter; h.push_back(sim::liveHeap());
        const size_t n = h.size();
        sh->user[47] = std::max(sh->user[47], h[n - 1]);
        if (n >= 5 && h[n - 1] > h[n - 2] && h[n - 2] > h[n - 3] && h[n - 3] > h[n - 4]) fail("leak", "memory remains in use after each session: " + std::to_string(h[n - 4]) + ", " + std::to_string(h[n - 3]) + ", " + std::to_string(h[n - 2]) + ", " + std::to_string(h[n - 1]) + " bytes");
      } else if (a[0] == 8 && !dry) sim::watchWorkers(true);
      else if (a[0] == 9 && !dry) {
        uint64_t steps; const double busy = sim::busyWorkers(steps); const int64_t live = sim::liveThreads();
        sim::watchWorkers(false);
        if (getenv("SIM_DBG")) fprintf(stderr, "busy %g of %ld threads in %lu steps\n", busy, (long)live, (unsigned long)steps);
        if (isOpen(ti) && live != a[1]) fail("processors", std::to_string(live) + " threads encode the blocks of one column instead of " + std::to_string(a[1]));
        // (with less preemption inside of the encoders, a few threads may do most of the work)
        if (steps > 20000 && p.cfg.memGap > 0 && p.cfg.memGap <= 1000) {
          ++sh->user[48]; sh->user[49] += busy * 1000 / live;
          if (live > 1 && busy < 1 + 0.3 * (live - 1)) fail("processors", "while the writer waits for room in the queue, only " + std::to_string(busy) + " of " + std::to_string(live) + " threads encode at the same time");
        }
      }
      ++eff;
      break;
    default: break;
  }
  if (eff != eff0) ++sh->ops[o.code]; else ++sh->opsIdle[o.code];
}

void Exec::finishRun() {
  for (size_t i = 0; i < t.size(); ++i) if (t[i].tab) close(i);
  for (auto &x : t) if (x.peer) attempt([&] { x.peer.reset(); }, "closing a table");
  for (auto &x : t) for (auto &m : x.col) for (int i = 0; i < 5; ++i) sh->user[10 + i] = std::max<uint64_t>(sh->user[10 + i], m->maxSeen[i] * 1000);
  t.clear();
}
}  // namespace

static void recover(const Plan &plan, Exec &e, int how, const unsigned char *wlog, size_t wlen) {
  // rebuild the files: all other files as they were at the start of the crash phase
  TableState &s = e.t[0];
  std::vector<std::string> dnames;
  { std::string n = slurp("side.names"); size_t o = 0, k; while ((k = n.find('\n', o)) != std::string::npos) { dnames.push_back(n.substr(o, k - o)); o = k + 1; } }
  for (auto &n : listDir("side")) spew(s.path + "/" + n, slurp("side/" + n));
  if (how == 2) {
    std::map<int, std::string> img;
    sim::Rng r(plan.crashSeed + 99);
    const double keepP[] = {0, 0.1, 0.5, 0.9, 1};
    const double keep = keepP[r.below(5)];
    // position of the last synchronisation of each file
    std::map<int, size_t> lastSync;
    for (size_t o = 0; o + sizeof(sim::WRec) <= wlen;) {
      sim::WRec w; memcpy(&w, wlog + o, sizeof w);
      if ((w.kind & 255) == 1) lastSync[w.kind >> 8] = o;
      o += sizeof w + ((w.kind & 255) == 0 ? ((w.len + 7) & ~7u) : 0);
    }
    uint64_t lost = 0, kept = 0;
    for (size_t o = 0; o + sizeof(sim::WRec) <= wlen;) {
      sim::WRec w; memcpy(&w, wlog + o, sizeof w);
      const unsigned char *d = wlog + o + sizeof w;
      std::string &f = img[w.kind >> 8];
      const bool durable = lastSync.count(w.kind >> 8) && o < lastSync[w.kind >> 8];
      if ((w.kind & 255) == 2) f.resize(w.off);
      else if ((w.kind & 255) == 0) {
        uint64_t p = w.off, end = w.off + w.len;
        while (p < end) {
          uint64_t q = std::min<uint64_t>(end, (p / 512 + 1) * 512);
          if (durable || r.chance(keep)) { ++kept; if (f.size() < q) f.resize(q, 0); memcpy(&f[p], d + (p - w.off), q - p); } else ++lost;
          p = q;
        }
      }
      o += sizeof w + ((w.kind & 255) == 0 ? ((w.len + 7) & ~7u) : 0);
    }
    if (getenv("SIM_DBG")) { for (auto &x : img) fprintf(stderr, "image %d: %zu bytes, synced at %ld of %zu\n", x.first, x.second.size(), lastSync.count(x.first) ? (long)lastSync[x.first] : -1L, wlen); for (auto &n : dnames) fprintf(stderr, "name %s\n", n.c_str()); }
    e.sh->user[50] = lost; e.sh->user[51] = kept;
    for (auto &n : dnames) { size_t k = n.rfind(".f"); int num = atoi(n.c_str() + k + 2); spew(n, img[num]); }
  }
  // contents
  s.tab.reset();
  bool durable = false;
  s.init[0] = s.init[1] = 0;
  for (size_t c = 0; c < s.col.size(); ++c) for (auto &b : s.col[c]->blk) if (b.ever && !b.touched) s.init[e.mgr(0, c)] = 1;
  for (auto &m : s.col) for (size_t b = 0; b < m->blk.size(); ++b) {
    if (m->blk[b].ever && !m->blk[b].touched) durable = true;
    if (m->blk[b].touched) for (int64_t r = b * s.geo->R; r < int64_t(b + 1) * s.geo->R && r < (int64_t)m->rows.size(); ++r) { m->rows[r].unk = true; m->blk[b].cached = false; }
  }
  sim::event(902, durable);
  try { s.tab.reset(new Table(s.path, Table::Update)); e.findFiles(0); }
  catch (std::exception &x) {
    if (durable) e.fail("recovery", std::string("the table can not be opened after the crash: ") + x.what());
    e.sh->user[53]++;
    return;
  }
  s.writable = true;
  uint64_t good = 0, any = 0;
  for (int pass = 0; pass < 2; ++pass) {
    if (pass == 1) { s.tab.reset(); s.tab.reset(new Table(s.path, Table::Old)); }
    for (size_t c = 0; c < s.col.size(); ++c)
      for (int64_t row = 0; row < s.nRows; ++row) {
        const auto &b = s.col[c]->blk[row / s.geo->R];
        if (b.touched) {
          ++any;
          try { if (e.cfg(0).isWeight(c)) ArrayColumn<float>(*s.tab, e.cfg(0).colName(c)).get(row); else ArrayColumn<Complex>(*s.tab, e.cfg(0).colName(c)).get(row); }
          catch (std::exception &x) { if (durable && how != 3) e.fail("recovery", std::string("a row can not be read after the crash: ") + x.what()); }
        } else { e.get(0, c, row); ++good; }
      }
  }
  e.sh->user[54] += good; e.sh->user[55] += any; e.sh->user[52] += durable;
  // the table can be written again
  if (durable && plan.crashSeed % 2 == 0) {
    s.tab.reset();
    if (e.open(0, true)) {
      for (size_t c = 0; c < s.col.size(); ++c)
        for (size_t b = 0; b < s.col[c]->blk.size(); ++b)
          if (s.col[c]->blk[b].touched || b % 3 == plan.crashSeed % 3) for (int r = 0; r < s.geo->R; ++r) e.put(0, c, b * s.geo->R + r, 77);
      e.close(0);
      if (e.open(0, false)) { e.checkAll(0, 0); e.close(0); }
    }
  }
  s.tab.reset();
}

void execute(const Plan &plan, sim::Shared *sh, int phase, int how, const unsigned char *wlog, size_t wlen, int64_t opStarted, int64_t opDone) {
  if (int rc = sut_register()) sim::finish(rc == 1 ? sim::ST_VIOLATION : sim::ST_TOOLFAIL, "register", "the storage manager can not be registered");
  sim::Config cfg = plan.cfg;
  if (phase == 1) { cfg = sim::Config(); cfg.schedSeed = plan.cfg.schedSeed + 1; cfg.ncpu = plan.cfg.ncpu; cfg.race = false; }
  {
    sim::begin(cfg, sh, plan.devs.data(), plan.devs.size(), plan.faults.data(), phase == 1 ? 0 : plan.faults.size());
    sim::armFaults(false);
    Exec e(plan, sh);
    if (phase == 1) {
      e.dry = true;
      for (int64_t i = e.load() + 1; i < (int64_t)plan.ops.size() && i <= opStarted; ++i) {
        e.opIdx = i;
        const Op &o = plan.ops[i];
        if (((int64_t)i > opDone) && (o.code == O_FLUSH || o.code == O_CLOSE || o.code == O_OPEN || o.code == O_CRASH)) break;
        if (o.code == O_PAR || o.code == O_ENDPAR) continue;
        e.step(o);
      }
      e.dry = false;
      sh->opStarted = opStarted;
      // D files of the table
      // A column or row that was removed: blocks move in place, and the table does not know it until it is flushed
      bool removal = false, track = false;
      for (int64_t i = 0; i <= opStarted && i < (int64_t)plan.ops.size(); ++i) {
        track = track || plan.ops[i].code == O_CRASH;
        removal = removal || (track && (plan.ops[i].code == O_RMCOL || plan.ops[i].code == O_RMROW));
      }
      if (!removal) recover(plan, e, how, wlog, wlen);
      e.finishRun();
    } else {
      for (size_t i = 0; i < plan.ops.size(); ++i) {
        sh->opStarted = i; e.opIdx = i;
        const Op &o = plan.ops[i];
        if (o.code == O_PAR) {
          size_t j = i + 1;
          while (j < plan.ops.size() && plan.ops[j].code != O_ENDPAR) ++j;
          e.runPar(i + 1, j);
          i = j;
        } else if (o.code != O_ENDPAR) e.step(o);
        if (e.dead) break;
        sh->opDone = i;
        if (o.code == O_CRASH) e.track = true;
        if (e.track) e.save();
      }
      e.finishRun();
      if (e.dead) e.loud(e.deadMsg);
    }
    sh->user[0] = e.checked; sh->user[1] = e.failedOps; sh->user[2] = e.zeroTrunc;
  }
  int live = sim::end();
  if (live) { sh->status = sim::ST_VIOLATION; snprintf(sh->vclass, sizeof sh->vclass, "threads"); snprintf(sh->msg, sizeof sh->msg, "%d threads are still running after all tables were closed", live); return; }
  sh->status = sim::ST_OK;
}
