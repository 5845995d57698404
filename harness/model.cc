#include "model.h"
#include <algorithm>
#include <cmath>
#include <gsl/gsl_cdf.h>
#include <map>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15u;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static double uni(uint64_t h) { return ((h >> 11) + 0.5) * (1.0 / 9007199254740992.0); }

Geo::Geo(const TCfg &cfg) : c(cfg) {
  std::vector<int> id(c.nAnt);
  for (int i = 0; i < c.nAnt; ++i) id[i] = c.antGap ? i * 2 + int(mix(c.dataSeed, i) % 2) : i;
  std::vector<std::pair<int, int>> b;
  for (int i = 0; i < c.nAnt; ++i)
    for (int j = i + (c.autos ? 0 : 1); j < c.nAnt; ++j) b.push_back({id[i], id[j]});
  sim::Rng r(c.dataSeed * 31 + 7);
  if (c.shuffle) {
    for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]);
    if (c.shuffle > 1) for (auto &p : b) if (r.below(3) == 0) std::swap(p.first, p.second);
  }
  R = c.rowsPerBlock();
  b.resize(R, b[0]);
  base = b;
  antCount = 0;
  for (auto &p : b) antCount = std::max(antCount, std::max(p.first, p.second) + 1);
  nVis = c.nPol * c.nChan;
}
RowInfo Geo::row(int64_t r) const {
  int64_t b = r / R, k = r % R;
  RowInfo i; i.a1 = base[k].first; i.a2 = base[k].second;
  i.time = 4.8e9; i.field = 0; i.ddid = 0;
  int sep = c.sep;
  if (sep == 0) i.time += 10.0 * b;
  else if (sep == 1) i.field = b % 3;
  else if (sep == 2) i.ddid = b % 2;
  else { i.time += 10.0 * (b / 2); i.ddid = b % 2; }
  return i;
}

// The levels are kept in memory that is shared by all runs.
struct LevelSlot { int used, bits, dist; double param; double v[65536]; };
static const int nSlots = 256;
static LevelSlot *slots;
void levelsInit() {
  slots = (LevelSlot *)mmap((void *)0x51000000000ull, sizeof(LevelSlot) * nSlots, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (slots == MAP_FAILED) { fprintf(stderr, "no memory\n"); _exit(3); }
}
Levels levels(int bits, int dist, double param) {
  if (dist < 2) param = 0;
  const size_t n = (size_t(1) << bits) - 1;
  int k = 0;
  for (; k < nSlots && slots[k].used; ++k)
    if (slots[k].bits == bits && slots[k].dist == dist && slots[k].param == param) return Levels{slots[k].v, n};
  if (k == nSlots) { k = nSlots - 1; slots[k].used = 0; }
  double *v = slots[k].v;
  auto phi = [](double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); };
  const double ptr = phi(-param);
  // inverse of a cumulative distribution by bisection, for increasing p > 0.5
  double prev = 0, step = 0.01;
  auto inv = [&](double p, auto cdf) {
    double lo = prev, hi = prev + step;
    while (cdf(hi) < p && hi < 1e12) { lo = hi; step *= 2; hi = prev + step; }
    for (int i = 0; i < 200 && hi - lo > 1e-15 * hi; ++i) { double m = 0.5 * (lo + hi); if (cdf(m) < p) lo = m; else hi = m; }
    step = std::max(hi - prev, 1e-9);
    return prev = 0.5 * (lo + hi);
  };
  for (size_t i = n / 2; i < n; ++i) {
    double p = (i + 0.5) / n, x;
    if (2 * i + 1 == n) x = 0;
    else switch (dist) {
      case D_GAUSS: x = std::sqrt(3.0) * inv(p, phi); break;
      case D_UNIFORM: x = std::sqrt(3.0) * (2 * p - 1); break;
      case D_STUDENT:
        if (param == 1.0) x = std::tan(M_PI * (p - 0.5));
        else x = inv(p, [&](double x) { return gsl_cdf_tdist_P(x, param); });
        break;
      default: x = inv(ptr + p * (1 - 2 * ptr), phi);
    }
    v[i] = x; v[n - 1 - i] = -x;
  }
  slots[k].bits = bits; slots[k].dist = dist; slots[k].param = param; slots[k].used = 1;
  return Levels{v, n};
}

// ---- normalisation ---------------------------------------------------------------
static double comp(const cdouble &v) { return std::max(std::fabs(v.real()), std::fabs(v.imag())); }
static bool fin(const cdouble &v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

static void antennaRms(const std::vector<std::vector<cdouble>> &d, const std::vector<std::pair<int, int>> &ants, int p, int nPol, int nChan, int A, std::vector<double> &rms) {
  std::vector<double> sum(A * A, 0), cnt(A * A, 0), m(A * A);
  for (size_t r = 0; r < d.size(); ++r) {
    int a = ants[r].first, b = ants[r].second;
    if (a == b) continue;
    for (int ch = 0; ch < nChan; ++ch) {
      const cdouble &v = d[r][ch * nPol + p];
      if (!fin(v)) continue;
      sum[a * A + b] += std::norm(v); cnt[a * A + b] += 2;
      sum[b * A + a] += std::norm(v); cnt[b * A + a] += 2;
    }
  }
  for (int i = 0; i < A * A; ++i) m[i] = std::sqrt(sum[i] / cnt[i]);
  rms.assign(A, 1.0);
  double prec = 1;
  for (int it = 0; it < 100 && prec > 1e-6; ++it) {
    std::vector<double> nx(A, 0);
    for (int i = 0; i < A; ++i) {
      double w = 0;
      for (int j = 0; j < A; ++j)
        if (i != j && rms[j] != 0 && std::isfinite(m[i * A + j])) { nx[i] += m[i * A + j]; w += rms[j]; }
      nx[i] = w == 0 ? 0 : nx[i] / w;
    }
    if (std::all_of(nx.begin(), nx.end(), [](double x) { return x == 0; })) { rms.assign(A, 1.0); break; }
    double mx = 0;
    for (int i = 0; i < A; ++i) { rms[i] = 0.8 * nx[i] + 0.2 * rms[i]; mx = std::max(mx, rms[i]); }
    prec = 0;
    for (int i = 0; i < A; ++i) { if (rms[i] < mx * 1e-5) rms[i] = 0; prec = std::max(prec, std::fabs(rms[i] - nx[i]) / mx); }
  }
}

static void factorsImpl(const Geo &g, int bits, int dist, int norm, double param, const std::vector<std::vector<cfloat>> &block, const std::vector<std::pair<int, int>> &ants, std::vector<std::vector<double>> &f,
                        std::vector<double> *meta = nullptr) {
  const int P = g.c.nPol, C = g.c.nChan, V = P * C;
  const size_t R = block.size();
  const double mx = float(levels(bits, dist, param).back());
  std::vector<std::vector<cdouble>> d(R);
  for (size_t r = 0; r < R; ++r) d[r].assign(block[r].begin(), block[r].end());
  f.assign(R, std::vector<double>(V, 0));
  if (meta) meta->clear();
  if (norm == N_ROW) {
    for (size_t r = 0; r < R; ++r) {
      double m = 0;
      for (auto &v : d[r]) if (std::isfinite(comp(v))) m = std::max(m, comp(v));
      for (int i = 0; i < V; ++i) f[r][i] = m / mx;
      if (meta) meta->push_back(m / mx);
    }
  } else if (norm == N_RF) {
    std::vector<double> rf(R * P), cf(V);
    for (size_t r = 0; r < R; ++r)
      for (int p = 0; p < P; ++p) {
        double m = 0;
        for (int c = 0; c < C; ++c) if (std::isfinite(comp(d[r][c * P + p]))) m = std::max(m, comp(d[r][c * P + p]));
        rf[r * P + p] = m / mx;
        if (m != 0) for (int c = 0; c < C; ++c) d[r][c * P + p] *= mx / m;
      }
    for (int i = 0; i < V; ++i) {
      double m = 0;
      for (size_t r = 0; r < R; ++r) if (std::isfinite(comp(d[r][i]))) m = std::max(m, comp(d[r][i]));
      cf[i] = m == 0 ? 1 : m / mx;
    }
    for (size_t r = 0; r < R; ++r) for (int i = 0; i < V; ++i) f[r][i] = cf[i] * rf[r * P + i % P];
    if (meta) { *meta = cf; meta->insert(meta->end(), rf.begin(), rf.end()); }
  } else {
    const int A = g.antCount;
    std::vector<double> cf(V), af(A * P);
    for (int i = 0; i < V; ++i) {
      double s = 0, n = 0;
      for (size_t r = 0; r < R; ++r) if (fin(d[r][i])) { s += std::norm(d[r][i]); n += 2; }
      cf[i] = std::sqrt(s / n);
      if (cf[i] != 0) for (size_t r = 0; r < R; ++r) d[r][i] /= cf[i];
    }
    for (int p = 0; p < P; ++p) {
      std::vector<double> rms;
      antennaRms(d, ants, p, P, C, A, rms);
      for (size_t r = 0; r < R; ++r) {
        double m = rms[ants[r].first] * rms[ants[r].second], x = m == 0 ? 0 : 1 / m;
        for (int c = 0; c < C; ++c) d[r][c * P + p] *= x;
      }
      for (int a = 0; a < A; ++a) af[p * A + a] = rms[a];
    }
    auto cross = [&](size_t r) { return ants[r].first != ants[r].second; };
    auto scaleCh = [&](int i, double x) { cf[i] /= x; for (size_t r = 0; r < R; ++r) d[r][i] *= x; };
    for (int i = 0; i < V; ++i) {
      double m = 0;
      for (size_t r = 0; r < R; ++r) if (cross(r) && std::isfinite(comp(d[r][i]))) m = std::max(m, comp(d[r][i]));
      scaleCh(i, m == 0 ? 1.0 : mx / m);
    }
    auto l1 = [](const cdouble &v) { return std::fabs(v.real()) + std::fabs(v.imag()); };
    for (int p = 0; p < P; ++p) {
      for (int guard = 0; guard < 100000; ++guard) {
        double bestC = 0, facC = 1; int bc = 0;
        for (int c = 0; c < C; ++c) {
          double m = 0, inc = 0;
          for (size_t r = 0; r < R; ++r) if (cross(r) && std::isfinite(comp(d[r][c * P + p]))) m = std::max(m, comp(d[r][c * P + p]));
          double x = m == 0 ? 0 : mx / m - 1;
          for (size_t r = 0; r < R; ++r) if (cross(r)) { double t = l1(d[r][c * P + p] * x); if (std::isfinite(t)) inc += t; }
          if (inc > bestC) { bestC = inc; bc = c; facC = x + 1; }
        }
        std::vector<double> ma(A, 0), inc(A, 0);
        for (size_t r = 0; r < R; ++r) if (cross(r)) for (int c = 0; c < C; ++c) {
          double m = comp(d[r][c * P + p]);
          if (std::isfinite(m)) { ma[ants[r].first] = std::max(ma[ants[r].first], m); ma[ants[r].second] = std::max(ma[ants[r].second], m); }
        }
        for (size_t r = 0; r < R; ++r) if (cross(r)) for (int e = 0; e < 2; ++e) {
          int a = e ? ants[r].second : ants[r].first;
          double x = ma[a] == 0 ? 0 : mx / ma[a] - 1;
          for (int c = 0; c < C; ++c) { double t = l1(d[r][c * P + p] * x); if (std::isfinite(t)) inc[a] += t; }
        }
        int ba = 0; double bestA = 0;
        for (int a = 0; a < A; ++a) if (inc[a] > bestA) { bestA = inc[a]; ba = a; }
        bool go;
        if (bestA > bestC) {
          double x = ma[ba] == 0 ? 1 : mx / ma[ba];
          if (x < 1) go = false;
          else {
            go = x > 1.01; af[p * A + ba] /= x;
            for (size_t r = 0; r < R; ++r) {
              int n = (ants[r].first == ba) + (ants[r].second == ba);
              for (int k = 0; k < n; ++k) for (int c = 0; c < C; ++c) d[r][c * P + p] *= x;
            }
          }
        } else {
          if (facC < 1) go = false;
          else { go = facC > 1.001; scaleCh(bc * P + p, facC); }
        }
        if (!go) break;
      }
    }
    for (size_t r = 0; r < R; ++r) for (int i = 0; i < V; ++i) f[r][i] = cf[i] * af[(i % P) * A + ants[r].first] * af[(i % P) * A + ants[r].second];
    if (meta) { *meta = cf; meta->insert(meta->end(), af.begin(), af.end()); }
  }
}
void factors(const Geo &g, const std::vector<std::vector<cfloat>> &block, const std::vector<std::pair<int, int>> &ants, std::vector<std::vector<double>> &f) {
  factorsImpl(g, g.c.dataBits, g.c.dist, g.c.norm, g.c.param, block, ants, f);
}

// ---- values ------------------------------------------------------------------------
static double gauss(uint64_t h) {
  double u = uni(h), w = uni(mix(h, 77));
  double x = std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * w);
  return std::max(-4.0, std::min(4.0, x));
}
static bool flagged(const Geo &g, int col, int64_t row, int64_t ver, int i) {
  const TCfg &c = g.c;
  uint64_t s = mix(c.dataSeed * 977 + col, ver);
  switch (c.flagMode) {
    case 1: return mix(mix(s, row), i) % 23 == 0;
    case 2: {
      int64_t b = row / g.R;
      if (mix(s, row * 3 + 1) % 9 == 0) return true;                                  // row
      if (mix(mix(s, b), 1000 + i / c.nPol) % 9 == 0) return true;                    // channel of a block
      const int fa = mix(c.dataSeed, 55) % (2 * c.nAnt + 2);                          // antenna
      const auto &bl = g.base[row % g.R];
      return bl.first == fa || bl.second == fa;
    }
    case 3: return mix(mix(s, row), i) % 5 < 3;
    default: return false;
  }
}
void truthData(const Geo &g, int col, int64_t row, int64_t ver, cfloat *out) {
  const TCfg &c = g.c;
  const auto &bl = g.base[row % g.R];
  int64_t b = row / g.R;
  uint64_t s = mix(mix(c.dataSeed * 1000003 + col, ver), row);
  auto ampl = [&](uint64_t k, double spread) { return std::exp(spread * (2 * uni(mix(c.dataSeed, k)) - 1)); };
  double scale = c.amp == 3 ? 1e-6 : c.amp == 4 ? 1e5 : 1.0;
  if (c.amp == 6) scale = mix(c.dataSeed, 66) & 1 ? 1e17 : 1e27;
  if (c.amp == 7) scale = mix(c.dataSeed, 66) & 1 ? 1e-17 : 1e-28;
  // a wide range of values: only limited by the factors that the normalisation has
  if (c.amp == 8) scale = std::exp(20 * (2 * uni(mix(mix(c.dataSeed, c.norm == N_AF ? 0 : row), b * 3 + ver)) - 1));
  for (int i = 0; i < g.nVis; ++i) {
    if (flagged(g, col, row, ver, i)) {
      const float nan = std::nanf(""), inf = INFINITY;
      uint64_t k = mix(s, i + 5000) % (c.norm == N_AF ? 4 : 6);
      if (k >= 4) out[i] = k == 4 ? cfloat(nan, 0) : cfloat(0, inf);
      else out[i] = k == 0 ? cfloat(inf, -inf) : k == 1 ? cfloat(-inf, nan) : cfloat(nan, nan);
      continue;
    }
    double a = 1;
    if (c.amp >= 1) a = ampl(100 + i, 1.0) * ampl(10000 + bl.first * 4 + i % c.nPol, 0.8) * ampl(10000 + bl.second * 4 + i % c.nPol, 0.8);
    if (bl.first == bl.second) a *= 20;
    double re = gauss(mix(s, 2 * i)) * a, im = gauss(mix(s, 2 * i + 1)) * a;
    if (c.amp == 2) { re += 3 * a; im -= 2 * a; }
    if (c.amp == 5) {  // special values: zeros, equal values, outliers
      uint64_t k = mix(s, 9) % 6;
      if (k == 0) re = im = 0;
      else if (k == 1) { re = a; im = -a; }
      else if (k == 2 && mix(s, i) % 17 == 0) { re *= 10; im *= 10; }
      if (mix(c.dataSeed, b * 7 + col) % 7 == 0) re = im = 0;  // whole block
    }
    if (c.amp == 9) { if (mix(c.dataSeed, i + 77) & 1) re = 0; else im = 0; }   // real or imaginary
    if (bl.first == bl.second && i % c.nPol == 0) im = 0;
    out[i] = cfloat(re * scale, im * scale);
  }
}
void truthWeight(const Geo &g, int col, int64_t row, int64_t ver, float *out) {
  const TCfg &c = g.c;
  int64_t b = row / g.R;
  uint64_t s = mix(mix(c.dataSeed * 7777 + col, ver), row);
  for (int i = 0; i < g.nVis; ++i) {
    double w = 40 * uni(mix(s, c.amp == 0 ? i / c.nPol : i)) ;
    if (mix(s, 300 + i / c.nPol) % 11 == 0) w = 0;
    if (c.amp == 5 && mix(c.dataSeed, b * 5 + 3) % 5 == 0) w = 0;
    if (c.amp == 3) w *= 1e-4;
    if (c.amp == 4) w = 1;
    if (c.amp == 6) w *= 1e15;
    if (c.amp == 7) w *= 1e-15;
    if (c.amp == 8) w *= std::exp(30 * (uni(mix(c.dataSeed, b * 11 + 5)) - 0.5));
    out[i] = w;
  }
}

// ---- column model ---------------------------------------------------------------------
ColModel::ColModel(const Geo &geo, int c) : g(geo), col(c), weight(geo.c.isWeight(c)) {
  nBits = weight ? g.c.wBits : g.c.dataBits; dist = g.c.dist; norm = g.c.norm; param = g.c.param;
}
void ColModel::resize(int64_t n) { if ((int64_t)rows.size() < n) rows.resize(n); int64_t nb = (n + g.R - 1) / g.R; if ((int64_t)blk.size() < nb) blk.resize(nb); }
void ColModel::truncate(int64_t n) {
  rows.resize(n);
  Blk &k = blk[n / g.R];
  if (k.ever) k.touched = true;
  k.cached = k.perturbed = false;
}

void ColModel::status(int64_t b) {
  Blk &k = blk[b];
  k.hasErr = k.hasUnk = false;
  for (int64_t row = b * g.R; row < (b + 1) * g.R && row < (int64_t)rows.size(); ++row) {
    if (rows[row].set && !rows[row].err.empty()) k.hasErr = true;
    if (rows[row].unk) k.hasUnk = true;
  }
}
const std::vector<std::vector<double>> &ColModel::blockFactors(int64_t b) {
  Blk &k = blk[b];
  if (k.cached) return k.f;
  std::vector<std::vector<cfloat>> d(g.R, std::vector<cfloat>(g.nVis, cfloat(0, 0)));
  std::vector<std::pair<int, int>> ants(g.R, std::make_pair(0, 0));
  status(b);
  for (int r = 0; r < g.R; ++r) {
    int64_t row = b * g.R + r;
    if (row >= (int64_t)rows.size()) continue;
    if (rows[row].set) { d[r] = rows[row].v; ants[r] = g.base[r]; }
    else if (rows[row].loaded) ants[r] = g.base[r];
  }
  factorsImpl(g, nBits, dist, norm, param, d, ants, k.f);
  // AF: an antenna whose fitted gain is below 1e-5 of the largest counts as zero
  k.zero.assign(g.R, std::vector<char>(g.nVis, 0));
  for (int r = 0; r < g.R; ++r) for (int i = 0; i < g.nVis; ++i) k.zero[r][i] = norm == N_AF && k.f[r][i] == 0;
  if (k.perturbed && norm == N_AF) {
    // This normalization is a discontinuous function of its input; take the
    // largest factors of inputs that differ by rounding errors.
    sim::Rng q(b * 31 + col);
    std::vector<std::vector<double>> f2;
    for (int it = 0; it < 24; ++it) {
      auto e = d;
      const double s = it % 3 == 0 ? 1e-7 : it % 3 == 1 ? 1e-6 : 1e-5;
      for (auto &row : e) for (auto &x : row) x = cfloat(x.real() * (1 + s * (q.below(2001) / 1000.0 - 1)), x.imag() * (1 + s * (q.below(2001) / 1000.0 - 1)));
      factorsImpl(g, nBits, dist, norm, param, e, ants, f2);
      for (int r = 0; r < g.R; ++r) for (int i = 0; i < g.nVis; ++i) { if (f2[r][i] == 0) k.zero[r][i] = 1; if (!(f2[r][i] <= k.f[r][i]) && std::isfinite(f2[r][i])) k.f[r][i] = f2[r][i]; }
    }
  }
  k.cached = true;
  return k.f;
}
double ColModel::wmax(int64_t b) {
  Blk &k = blk[b];
  if (k.cached) return k.wmax;
  double m = 0;
  status(b);
  for (int r = 0; r < g.R; ++r) {
    int64_t row = b * g.R + r;
    if (row >= (int64_t)rows.size() || !rows[row].set) continue;
    for (int c = 0; c < g.c.nChan; ++c) {
      double w = rows[row].v[c * g.c.nPol].real();
      for (int p = 1; p < g.c.nPol; ++p) w = std::min<double>(w, rows[row].v[c * g.c.nPol + p].real());
      m = std::max(m, w + (rows[row].err.empty() ? 0 : rows[row].err[c * g.c.nPol]));
    }
  }
  k.wmax = m == 0 ? 1 : m; k.cached = true;
  return k.wmax;
}
double ColModel::bound(double v, double prev, double f) {
  if (f == 0) return 0;
  const Levels L = levels(nBits, dist, param);
  double lo = (v - prev) / f, hi = (v + prev) / f, gap = 0;
  const bool first = prev == 0;
  const double slack = first ? (norm == N_AF ? 1.25 : 1.0) : 1.5;
  // levels are those that are adjacent to the interval [lo, hi], widened for
  // differences in the factor
  double w = std::max(std::fabs(lo), std::fabs(hi)) * (first ? (norm == N_AF ? 0.03 : 1e-4) : 0.25);
  size_t i = std::upper_bound(L.begin(), L.end(), lo - w) - L.begin(), j = std::lower_bound(L.begin(), L.end(), hi + w) - L.begin();
  if (i > 0) --i;
  if (j >= L.size()) j = L.size() - 1;
  if (i >= j) { if (j > 0) i = j - 1; else j = i + 1; }
  for (size_t k = i; k < j; ++k) gap = std::max(gap, L[k + 1] - L[k]);
  return gap * f * slack;
}
void ColModel::put(int64_t row, const cfloat *v, int from, int n) {
  resize(row + 1);
  int64_t b = row / g.R;
  Cell &c = rows[row];
  if (!c.set) { c.set = true; c.v.assign(g.nVis, cfloat(0, 0)); c.err.clear(); }
  if (n == g.nVis) { c.err.clear(); c.unk = false; }
  for (int i = 0; i < n; ++i) { c.v[from + i] = v[i]; if (!c.err.empty()) c.err[from + i] = 0; }
  blk[b].cached = blk[b].perturbed = false; blk[b].touched = true; blk[b].ever = true;
}
std::string ColModel::adopt(int64_t b, const std::vector<std::vector<cfloat>> &d, int64_t nTable) {
  std::string e;
  for (int pass = 0; pass < 2; ++pass)
    for (int r = 0; r < g.R; ++r) {
      int64_t row = b * g.R + r;
      if (row >= nTable || row >= (int64_t)rows.size()) break;
      Cell &c = rows[row];
      if (pass == 0) { e = check(row, d[r].data()); if (!e.empty()) return e; continue; }
      if (!c.set) c.loaded = true;
      else if (!c.unk) { c.v = d[r]; c.err.clear(); }
    }
  blk[b].cached = blk[b].perturbed = false;
  return "";
}
std::string ColModel::check(int64_t row, const cfloat *got) {
  resize(row + 1);
  std::string e = check1(row, got);
  Blk &k = blk[row / g.R];
  if (!e.empty() && norm == N_AF && !weight && !k.perturbed) {
    k.perturbed = true; k.cached = false;
    e = check1(row, got);
  }
  return e;
}
std::string ColModel::check1(int64_t row, const cfloat *got) {
  char buf[300];
  const Cell &c = rows[row];
  int64_t b = row / g.R;
  int r = row % g.R;
  if (weight) wmax(b); else blockFactors(b);
  if (blk[b].hasUnk) return "";
  if (!c.set) {
    double scale = 0;
    if (blk[b].ever && !weight) { const auto &f = blockFactors(b); for (auto &q : f) for (double x : q) if (std::isfinite(x)) scale = std::max(scale, x); }
    for (int i = 0; i < g.nVis; ++i)
      if (!(std::fabs(got[i].real()) <= 1e-5 * scale && std::fabs(got[i].imag()) <= 1e-5 * scale)) {
        if (norm == N_AF && !weight && c.loaded && g.base[r].first == g.base[r].second) continue;
        snprintf(buf, sizeof buf, "unset: %s row %ld (block %ld) was never written, but value %d is (%g,%g) instead of zero", g.c.colName(col).c_str(), (long)row, (long)b, i, got[i].real(), got[i].imag());
        return buf;
      }
    return "";
  }
  if (weight) {
    const double w1 = wmax(b), st = w1 / ((1u << nBits) - 1);
    for (int i = 0; i < g.nVis; ++i) {
      double exact = c.v[i].real(), mn = exact;
      int ch = i / g.c.nPol;
      for (int p = 0; p < g.c.nPol; ++p) mn = std::min<double>(mn, c.v[ch * g.c.nPol + p].real());
      double prev = c.err.empty() ? 0 : c.err[i], tol = 0.5 * st + prev + 1e-6 * w1;
      double e = got[i].real() - exact, m = got[i].real() - mn;
      if (!(std::fabs(e) <= 1e-6 * exact || std::fabs(m) <= tol)) {
        snprintf(buf, sizeof buf, "wrong: %s row %ld (block %ld) value %d is %g, must be %g +- %g", g.c.colName(col).c_str(), (long)row, (long)b, i, got[i].real(), mn, tol);
        return buf;
      }
      if (std::fabs(e) > 1e-6 * exact) maxSeen[4] = std::max(maxSeen[4], std::fabs(m) / tol);
    }
    return "";
  }
  const auto &f = blockFactors(b);
  const bool autoc = g.base[r].first == g.base[r].second;
  const bool re = blk[b].hasErr;
  for (int i = 0; i < g.nVis; ++i) {
    const cfloat v = c.v[i];
    if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) {
      if (std::isfinite(got[i].real()) > std::isfinite(v.real()) || std::isfinite(got[i].imag()) > std::isfinite(v.imag())) {
        snprintf(buf, sizeof buf, "flag: %s row %ld (block %ld) value %d is (%g,%g), but a non-finite value was written", g.c.colName(col).c_str(), (long)row, (long)b, i, got[i].real(), got[i].imag());
        return buf;
      }
      continue;
    }
    const double prev = c.err.empty() ? 0 : c.err[i], F = f[r][i];
    if (blk[b].zero[r][i] && got[i].real() == 0 && got[i].imag() == 0) continue;
    double tr = bound(v.real(), prev, F) + prev + 2e-6 * std::fabs(v.real()) + 1e-7 * F;
    double ti = bound(v.imag(), prev, F) + prev + 2e-6 * std::fabs(v.imag()) + 1e-7 * F;
    if (re) tr *= 1.3, ti *= 1.3;
    if (autoc && norm == N_AF) {
      // autocorrelations are scaled by the cross-correlations, and clipped
      const double top = levels(nBits, dist, param).back() * F;
      auto good = [&](double x, double y, double t) {
        if (!std::isfinite(y)) return false;
        if (std::fabs(x - y) <= t) return true;
        if (std::fabs(x) < 0.8 * top || std::fabs(y) > std::fabs(x) + t) return false;
        return blk[b].perturbed || re || (x < 0 ? -y : y) >= 0.5 * top - t - 1e-7 * std::fabs(x);
      };
      if (!good(v.real(), got[i].real(), tr) || !good(v.imag(), got[i].imag(), ti)) {
        snprintf(buf, sizeof buf, "auto: %s row %ld (block %ld) value %d is (%g,%g), must be (%g,%g) or +-%g", g.c.colName(col).c_str(), (long)row, (long)b, i, got[i].real(), got[i].imag(), v.real(), v.imag(), top);
        return buf;
      }
      continue;
    }
    double er = std::fabs(double(got[i].real()) - v.real()), ei = std::fabs(double(got[i].imag()) - v.imag());
    if (tr > 0) { double &ms = maxSeen[(re ? 2 : 0) + (norm == N_AF)]; ms = std::max(ms, std::max(er / tr, ti > 0 ? ei / ti : 0)); }
    if (!(er <= tr && ei <= ti)) {
      if (getenv("SIM_DBG"))
        for (int q = 0; q < g.R; ++q) {
          int64_t w = b * g.R + q;
          fprintf(stderr, "row %ld (%d,%d)%s:", (long)w, g.base[q].first, g.base[q].second, w < (int64_t)rows.size() && rows[w].set ? "" : " unset");
          if (w < (int64_t)rows.size() && rows[w].set) for (int x = 0; x < g.nVis; ++x) fprintf(stderr, " (%g,%g;%g)", rows[w].v[x].real(), rows[w].v[x].imag(), f[q][x]);
          fprintf(stderr, "\n");
        }
      snprintf(buf, sizeof buf, "wrong: %s row %ld (block %ld) value %d is (%g,%g), must be (%g,%g) within (%g,%g)%s", g.c.colName(col).c_str(), (long)row, (long)b, i, got[i].real(), got[i].imag(), v.real(), v.imag(), tr, ti,
               re ? " (compressed twice)" : "");
      return buf;
    }
  }
  return "";
}

// ---- file format -------------------------------------------------------------------------
template <typename T> static bool take(const std::string &b, size_t &o, T &v) {
  if (o + sizeof(T) > b.size()) return false;
  memcpy(&v, b.data() + o, sizeof(T)); o += sizeof(T);
  return true;
}
bool parseHeader(const std::string &b, FileHeader &h, std::string &err) {
  size_t o = 0; uint32_t n = 0;
  err = "the file is too short for a header";
  if (!take(b, o, h.headerSize) || !take(b, o, h.columnHeaderOffset) || !take(b, o, h.columnCount) || !take(b, o, n)) return false;
  if (o + n > b.size() || n > 4096) return false;
  h.name = b.substr(o, n); o += n;
  if (!take(b, o, h.rowsPerBlock) || !take(b, o, h.antennaCount) || !take(b, o, h.blockSize) || !take(b, o, h.major) || !take(b, o, h.minor) || !take(b, o, h.dataBits) ||
      !take(b, o, h.weightBits) || !take(b, o, h.dist) || !take(b, o, h.norm) || !take(b, o, h.nu) || !take(b, o, h.trunc)) return false;
  if (h.columnHeaderOffset < o || h.columnHeaderOffset > o + 6) { err = "wrong column header offset"; return false; }
  size_t p = h.columnHeaderOffset;
  if (h.columnCount > 100) { err = "bad column count"; return false; }
  for (uint32_t i = 0; i < h.columnCount; ++i) {
    FileHeader::Col c; size_t q = p;
    if (!take(b, q, c.size) || !take(b, q, c.blockSize) || !take(b, q, c.antCount)) return false;
    h.cols.push_back(c); p += c.size;
  }
  err = "";
  return true;
}
static size_t metaCount(const TCfg &c, bool weight, int R, int A) {
  if (weight) return 1;
  if (c.norm == N_AF) return size_t(c.nPol) * (c.nChan + A);
  if (c.norm == N_RF) return size_t(c.nPol) * (c.nChan + R);
  return R;
}
size_t columnBytes(const TCfg &c, bool weight, int R, int A) {
  size_t sym = size_t(R) * c.nChan * (weight ? 1 : 2 * c.nPol), bits = weight ? c.wBits : c.dataBits;
  return 4 * metaCount(c, weight, R, A) + (sym * bits + 7) / 8;
}
static unsigned getSym(const unsigned char *p, size_t i, int bits) {
  unsigned v = 0;
  for (int k = 0; k < bits; ++k) { size_t q = i * bits + k; if (p[q >> 3] >> (q & 7) & 1) v |= 1u << k; }
  return v;
}
static void putSym(unsigned char *p, size_t i, int bits, unsigned v) {
  for (int k = 0; k < bits; ++k) { size_t q = i * bits + k; if (v >> k & 1) p[q >> 3] |= 1u << (q & 7); }
}
void decodeBlock(const Geo &g, bool weight, const unsigned char *p, std::vector<std::vector<cfloat>> &out, int64_t) {
  const TCfg &c = g.c; const int P = c.nPol, C = c.nChan, A = g.antCount, R = g.R, V = P * C;
  std::vector<float> m(metaCount(c, weight, R, A));
  memcpy(m.data(), p, 4 * m.size());
  const unsigned char *s = p + 4 * m.size();
  out.assign(R, std::vector<cfloat>(V));
  if (weight) {
    double sc = m[0] / double((1u << c.wBits) - 1);
    for (int r = 0; r < R; ++r) for (int i = 0; i < V; ++i) out[r][i] = float(getSym(s, size_t(r) * C + i / P, c.wBits) * sc);
    return;
  }
  const Levels L = levels(c.dataBits, c.dist, c.param);
  for (int r = 0; r < R; ++r)
    for (int i = 0; i < V; ++i) {
      double f;
      if (c.norm == N_ROW) f = m[r];
      else if (c.norm == N_RF) f = double(m[i]) * m[V + r * P + i % P];
      else f = double(m[i]) * m[V + (i % P) * A + g.base[r].first] * m[V + (i % P) * A + g.base[r].second];
      double q[2];
      for (int k = 0; k < 2; ++k) {
        unsigned y = getSym(s, (size_t(r) * V + i) * 2 + k, c.dataBits);
        q[k] = y < L.size() ? double(float(L[y])) * f : double(NAN);
      }
      out[r][i] = cfloat(q[0], q[1]);
    }
}
void encodeBlock(const Geo &g, bool weight, const std::vector<std::vector<cfloat>> &rows, int nValid, std::string &out) {
  const TCfg &c = g.c; const int P = c.nPol, C = c.nChan, A = g.antCount, R = g.R, V = P * C;
  out.assign(columnBytes(c, weight, R, A), 0);
  unsigned char *p = (unsigned char *)&out[0];
  size_t nm = metaCount(c, weight, R, A);
  unsigned char *s = p + 4 * nm;
  if (weight) {
    float mx = 0; std::vector<float> w(size_t(R) * C);
    for (int r = 0; r < R; ++r) for (int ch = 0; ch < C; ++ch) {
      float x = rows[r][ch * P].real();
      for (int k = 1; k < P; ++k) x = std::min(x, rows[r][ch * P + k].real());
      w[r * C + ch] = x; mx = std::max(mx, x);
    }
    if (mx == 0) mx = 1;
    memcpy(p, &mx, 4);
    for (size_t i = 0; i < w.size(); ++i) putSym(s, i, c.wBits, unsigned(std::lround(double(w[i]) * ((1u << c.wBits) - 1) / mx)));
    return;
  }
  std::vector<std::vector<double>> f; std::vector<double> meta;
  // rows that do not exist have no antennas
  auto ants = g.base;
  for (int r = nValid; r < R; ++r) ants[r] = std::make_pair(0, 0);
  factorsImpl(g, c.dataBits, c.dist, c.norm, c.param, rows, ants, f, &meta);
  std::vector<float> mf(meta.begin(), meta.end());
  memcpy(p, mf.data(), 4 * nm);
  const Levels L = levels(c.dataBits, c.dist, c.param);
  for (int r = 0; r < R; ++r) for (int i = 0; i < V; ++i) for (int k = 0; k < 2; ++k) {
    double v = k ? rows[r][i].imag() : rows[r][i].real(); unsigned y;
    if (!std::isfinite(v)) y = L.size();
    else if (f[r][i] == 0) y = L.size() / 2;
    else {
      v /= f[r][i];
      size_t j = std::lower_bound(L.begin(), L.end(), v) - L.begin();
      if (j == L.size()) --j;
      if (j > 0 && v - L[j - 1] < L[j] - v) --j;
      y = j;
    }
    putSym(s, (size_t(r) * V + i) * 2 + k, c.dataBits, y);
  }
}
template <typename T> static void add(std::string &s, T v) { s.append((const char *)&v, sizeof v); }
std::string makeHeader(const Geo &g, const std::vector<bool> &weights, const std::string &name, int pad) {
  // a writer may leave room for more fields: readers use the offsets and sizes
  const TCfg &c = g.c; const uint32_t p1 = pad % 7, p2 = pad / 7 % 7, p3 = pad / 49 % 7;
  uint32_t co = 7 * 4 + name.size() + 4 + 4 + 16 + p1, hs = co + weights.size() * (24 + p2) + p3, bs = 0;
  for (bool w : weights) bs += columnBytes(c, w, g.R, g.antCount);
  std::string s;
  add<uint32_t>(s, hs); add<uint32_t>(s, co); add<uint32_t>(s, weights.size()); add<uint32_t>(s, name.size()); s += name;
  add<uint32_t>(s, g.R); add<uint32_t>(s, g.antCount); add<uint32_t>(s, bs); add<uint16_t>(s, 1); add<uint16_t>(s, 0);
  add<uint8_t>(s, c.dataBits); add<uint8_t>(s, c.wBits); add<uint8_t>(s, c.dist); add<uint8_t>(s, c.norm);
  add<double>(s, c.dist == D_STUDENT ? c.param : 0.0); add<double>(s, c.dist == D_TRUNC ? c.param : 0.0);
  s.append(p1, '\x55');
  for (bool w : weights) { add<uint32_t>(s, 12 + p2); add<uint32_t>(s, columnBytes(c, w, g.R, g.antCount)); add<uint32_t>(s, g.antCount); s.append(p2, '\x66'); }
  s.append(hs - s.size(), '\x77');
  return s;
}
