// Reference model: what the table has to contain, and how far a stored value
// may be from the value that was put.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "plan.h"
#include <complex>
#include <cstdint>
#include <string>
#include <vector>

typedef std::complex<float> cfloat;
typedef std::complex<double> cdouble;

struct RowInfo { int a1, a2, field, ddid; double time; };

// Geometry of a table, derived from its configuration
struct Geo {
  explicit Geo(const TCfg &);
  TCfg c;
  int R, nVis, antCount;                    // rows per block, values per row
  std::vector<std::pair<int, int>> base;    // baselines of a block
  RowInfo row(int64_t r) const;
};

// Quantisation levels, calculated independently of the code under test
struct Levels {
  const double *v; size_t n;
  size_t size() const { return n; }
  double operator[](size_t i) const { return v[i]; }
  double back() const { return v[n - 1]; }
  const double *begin() const { return v; }
  const double *end() const { return v + n; }
};
void levelsInit();   // before the first run
Levels levels(int bits, int dist, double param);

// Factors with which symbols are scaled: value = level * factor[row][vis]
void factors(const Geo &, const std::vector<std::vector<cfloat>> &block, const std::vector<std::pair<int, int>> &ants, std::vector<std::vector<double>> &f);

// value generator
void truthData(const Geo &, int col, int64_t row, int64_t ver, cfloat *out);
void truthWeight(const Geo &, int col, int64_t row, int64_t ver, float *out);

struct Cell {
  bool set = false;
  bool loaded = false;       // not written, but part of a block that was loaded from the file
  bool unk = false;          // contents are not known (block was torn by a crash)
  std::vector<cfloat> v;     // latest value (weights: real part)
  std::vector<float> err;    // error of an earlier compression that could not be observed
};

// A block that is changed after it was stored is read back and compressed
// again: the values that were read back (observed at the file seam and decoded
// by the independent decoder) are those that count from then on.
class ColModel {
 public:
  ColModel(const Geo &g, int col);
  const Geo &g; int col; bool weight;
  std::vector<Cell> rows;
  struct Blk { bool cached = false; std::vector<std::vector<double>> f; std::vector<std::vector<char>> zero; double wmax = 0; bool touched = false, ever = false, perturbed = false, hasErr = false, hasUnk = false; uint64_t seq = 0; };
  std::vector<Blk> blk;
  int nBits, dist, norm; double param;

  void resize(int64_t n);
  void truncate(int64_t n);   // rows were removed
  // a put of values into (part of) a row
  void put(int64_t row, const cfloat *v, int from, int n);
  // compares values that were read; empty string if they are acceptable
  std::string check(int64_t row, const cfloat *got);
  // the block was read back with these values; an error if they are not acceptable
  std::string adopt(int64_t b, const std::vector<std::vector<cfloat>> &d, int64_t nTable);
  const std::vector<std::vector<double>> &blockFactors(int64_t b);
  double wmax(int64_t b);
  double bound(double v, double prev, double f);
  double maxSeen[5] = {};  // largest |error| / bound, statistics
 private:
  void status(int64_t b);
  std::string check1(int64_t row, const cfloat *got);
};
// ---- file format 1.0 ---------------------------------------------------------
struct FileHeader {
  uint32_t headerSize = 0, columnHeaderOffset = 0, columnCount = 0;
  std::string name;
  uint32_t rowsPerBlock = 0, antennaCount = 0, blockSize = 0;
  uint16_t major = 0, minor = 0;
  uint8_t dataBits = 0, weightBits = 0, dist = 0, norm = 0;
  double nu = 0, trunc = 0;
  struct Col { uint32_t size, blockSize, antCount; };
  std::vector<Col> cols;
};
bool parseHeader(const std::string &bytes, FileHeader &, std::string &err);
size_t columnBytes(const TCfg &c, bool weight, int R, int antCount);
// decodes one block of one column; rows of R values
void decodeBlock(const Geo &g, bool weight, const unsigned char *p, std::vector<std::vector<cfloat>> &out, int64_t firstRow);
// encodes (nearest level) with the independent implementation
void encodeBlock(const Geo &g, bool weight, const std::vector<std::vector<cfloat>> &rows, int nValid, std::string &out);
std::string makeHeader(const Geo &g, const std::vector<bool> &weights, const std::string &name, int pad);
#endif
