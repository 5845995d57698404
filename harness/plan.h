#ifndef VERIF_PLAN_H
#define VERIF_PLAN_H
#include "sim/sim.h"
#include <string>
#include <vector>

enum Dist { D_GAUSS, D_UNIFORM, D_STUDENT, D_TRUNC };
enum Norm { N_AF, N_RF, N_ROW };

// Layout and contents of one table
struct TCfg {
  int nAnt = 4, autos = 0, nPol = 2, nChan = 4;
  int dataBits = 8, wBits = 8, dist = D_TRUNC, norm = N_AF, staticSeed = 0;
  double param = 2.5;
  int nData = 1;        // complex columns
  int weightPos = -1;   // position of the weight column in creation order, -1 none
  int dropRows = 0;     // baselines left out
  int antGap = 0;       // antenna indices are not consecutive
  int nBlocks = 4;
  int sep = 0;          // what separates blocks: 0 time 1 field 2 data desc id 3 mixed
  int shuffle = 0;      // baseline order (0 canonical)
  int amp = 0;          // amplitude profile
  int flagMode = 0;     // 0 none 1 some values 2 rows/channels/antennas 3 many
  int viaSpec = 0, addCols = 0;  // construction through spec record / columns added to an existing table
  int plain = 0;        // data columns not managed by the storage manager, with a FLAG column (for the tools)
  int otherStMan = 0;   // a second manager for one of the columns
  int nameLen = 0;      // length of the name of the storage manager, 0: the default name
  int lateCols = 0;     // last columns, which are not part of the table when it is created
  int extraPartial = 0; // rows of a last, incomplete block
  uint64_t dataSeed = 1;
  // derived
  int rows() const { return rowsPerBlock() * nBlocks + extraPartial; }
  int rowsPerBlock() const { int n = nAnt * (nAnt - 1) / 2 + (autos ? nAnt : 0) - dropRows; return n < 1 ? 1 : n; }
  int nCols() const { return nData + (weightPos >= 0 ? 1 : 0); }
  bool isWeight(int c) const { return weightPos >= 0 && c == weightPos; }
  std::string colName(int c) const {
    if (isWeight(c)) return "WEIGHT_SPECTRUM";
    int k = c - (weightPos >= 0 && c > weightPos ? 1 : 0);
    return k == 0 ? "DATA" : "DATA" + std::to_string(k + 1);
  }
  std::string text() const;
  static TCfg parse(const std::string &);
};

enum OpCode {
  O_CREATE, O_OPEN, O_CLOSE, O_FLUSH, O_PUT, O_PUTB, O_PUTALL, O_PUTSL, O_GET, O_GETB, O_CHECK, O_ADDROWS,
  O_RMCOL, O_COPY, O_TOOL, O_FAULTS, O_CPUS, O_PAR, O_ENDPAR, O_YIELD, O_CUT, O_CRASH, O_SNAP, O_CMPSNAP, O_VERIFYFILE, O_WRITEFILE, O_SPEC,
  O_PUTCOL, O_GETCOL, O_REOPENRW, O_EXPECT, O_ADDCOL, O_RMROW, O_IRREG, O_BADANT, O_BADCOL, O_BADSET, O_BADTOOL, O_BADROW, O_RENAME, O_PEER, O_DELETE, O_N
};
extern const char *const opNames[O_N];
struct Op {
  int code = 0;
  int t = 0;          // table
  int thr = 0;        // simulated caller thread (inside PAR)
  int64_t a[5] = {0, 0, 0, 0, 0};
};

struct Plan {
  std::string prop = "C01", mode;
  uint64_t seed = 0;
  std::vector<TCfg> tables;
  std::vector<Op> ops;
  sim::Config cfg;
  std::vector<sim::Fault> faults;   // explicit
  std::vector<sim::Dev> devs;
  uint64_t crashSeed = 0;           // image after a power loss
  std::string serialize() const;
  static Plan parse(const std::string &);
};

Plan generate(const std::string &prop, uint64_t seed, bool thorough);

struct Result {
  bool violation = false;
  std::string vclass, msg;
  uint64_t hash = 0, schedHash = 0;
  int status = 0;
  bool toolfail = false;
};
#endif
