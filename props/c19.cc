// C19: spectrograms on a common decibel scale with a shared noise floor.
#include "lib/common.h"
#include "misc_audio.h"
#include "spectrogram.h"
using namespace vt;
namespace V = Visqol;

typedef std::vector<Vec> Grid;  // [band][frame]
static V::Spectrogram Make(const Grid& g) {
  V::AMatrix<double> m(g.size(), g[0].size());
  for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g[0].size(); ++j) m(i, j) = g[i][j];
  return V::Spectrogram(std::move(m));
}
static Grid Read(const V::Spectrogram& s) {
  Grid g(s.Data().NumRows(), Vec(s.Data().NumCols()));
  for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g[i].size(); ++j) g[i][j] = s.Data()(i, j);
  return g;
}
static double Db(double x) { double a = std::fabs(x); return 10 * std::log10(a == 0 ? std::numeric_limits<double>::epsilon() : a); }
static double Min(const Grid& g) { double m = INFINITY; for (auto& r : g) for (double x : r) m = std::min(m, x); return m; }
static void Map(Grid& g, const std::function<double(double)>& f) { for (auto& r : g) for (double& x : r) x = f(x); }
static void PerFrame(Grid& a, Grid& b, double t) {
  for (size_t j = 0; j < std::min(a[0].size(), b[0].size()); ++j) {
    double top = -INFINITY;
    for (auto& r : a) top = std::max(top, r[j]);
    for (auto& r : b) top = std::max(top, r[j]);
    for (auto& r : a) r[j] = std::max(r[j], top - t);
    for (auto& r : b) r[j] = std::max(r[j], top - t);
  }
}
static void Compare(Case& c, const Grid& got, const Grid& want, const char* which) {
  c.check(got.size() == want.size() && got[0].size() == want[0].size(), "the %s spectrogram has changed its shape", which);
  for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < want[i].size(); ++j)
    if (!(std::fabs(got[i][j] - want[i][j]) <= 1e-9)) c.fail("%s spectrogram, band %zu, frame %zu: %.12g instead of %.12g", which, i, j, got[i][j], want[i][j]);
}
// Contents with frames and bands of very different levels.
static Grid AnyGrid(Case& c, const char* name, size_t rows, size_t cols, bool db) {
  size_t kind = c.pick({5, 3, 2, 1, 1}); Rng r(c.seed());
  double level = std::pow(10, c.real(-6, 3));
  Grid g(rows, Vec(cols));
  Vec fl(cols); for (auto& x : fl) x = std::pow(10, -8 * r.unit() * (r.unit() < 0.5));
  for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) {
    double& x = g[i][j];
    switch (kind) {
      case 0: x = level * fl[j] * std::pow(10, -9 * r.unit()); break;
      case 1: x = level * r.unit(); break;
      case 2: x = r.unit() < 0.6 ? 0 : level * r.unit(); break;
      case 3: x = 0; break;
      default: x = level; break;
    }
    if (db) x = Db(x) + (kind == 3 ? 40 : 0);
  }
  static const char* kn[] = {"wide", "uniform", "sparse", "zero", "flat"};
  c.note_str(name, std::string(kn[kind]) + " " + std::to_string(rows) + "x" + std::to_string(cols) + " level " + std::to_string(level));
  return g;
}

template <bool big> static void Prepare(Case& c) {
  size_t rows = size_t(c.size(1, 40)), ca = size_t(c.size(1, 60)), cb = c.chance(40) ? ca : size_t(c.size(1, 60));
  if (big) { if (c.chance(70)) { rows = size_t(c.range(1, 3)); ca = size_t(c.range(60, 90000)); cb = c.chance(40) ? ca : size_t(c.range(60, 90000)); } else rows = size_t(c.range(40, 2000)); }
  Grid a = AnyGrid(c, "reference", rows, ca, false), b = AnyGrid(c, "degraded", rows, cb, false);
  V::Spectrogram sa = Make(a), sb = Make(b);
  Vec cf; for (size_t i = 0; i < rows; ++i) cf.push_back(100.0 + i);
  sa.SetCenterFreqBands(cf); sb.SetCenterFreqBands(cf);
  V::MiscAudio::PrepareSpectrogramsForComparison(sa, sb);
  Grid A = a, B = b;
  for (Grid* g : {&A, &B}) Map(*g, [](double x) { return std::max(-45.0, Db(x)); });
  Grid unfloored = A;
  PerFrame(A, B, 45);
  bool relative = A != unfloored;
  double low = std::min(Min(A), Min(B));
  for (Grid* g : {&A, &B}) Map(*g, [&](double x) { return x - low; });
  Grid ga = Read(sa), gb = Read(sb);
  Compare(c, ga, A, "reference"); Compare(c, gb, B, "degraded");
  c.near(std::min(Min(ga), Min(gb)), 0, 1e-12, 0, "smallest cell of both");
  // Order between cells of a frame is never reversed.
  for (size_t j = 0; j < std::min(ca, cb); ++j) for (size_t i = 0; i < rows; ++i) {
    size_t k = (i * 7 + 3) % rows;
    if (a[i][j] < a[k][j]) c.check(ga[i][j] <= ga[k][j], "frame %zu: bands %zu and %zu changed order", j, i, k);
    if (a[i][j] < b[k][j]) c.check(ga[i][j] <= gb[k][j], "frame %zu: reference band %zu and degraded band %zu changed order", j, i, k);
  }
  c.check(sa.GetCenterFreqBands() == cf && sb.GetCenterFreqBands() == cf, "the band centres were changed");
  // The roles are interchangeable.
  V::Spectrogram s2 = Make(a), s1 = Make(b);
  V::MiscAudio::PrepareSpectrogramsForComparison(s1, s2);
  Compare(c, Read(s2), A, "exchanged reference"); Compare(c, Read(s1), B, "exchanged degraded");
  if (relative) c.label("relative floor matters");
  if (ca != cb) c.label("lengths differ");
  c.nontrivial(relative || ca != cb);
}

// The steps by themselves, in any order.
static void Steps(Case& c) {
  size_t rows = size_t(c.size(1, 12)), ca = size_t(c.size(1, 15)), cb = size_t(c.size(1, 15));
  Grid a = AnyGrid(c, "one", rows, ca, c.chance(60)), b = AnyGrid(c, "other", rows, cb, c.chance(60));
  V::Spectrogram sa = Make(a), sb = Make(b);
  int n = int(c.range(1, 8)); std::string story;
  for (int i = 0; i < n; ++i) {
    bool first = c.chance(50); V::Spectrogram &s = first ? sa : sb, &t = first ? sb : sa; Grid &g = first ? a : b, &h = first ? b : a;
    story += first ? "1" : "2";
    switch (c.pick({3, 3, 2, 1})) {
      case 0: { double f = c.real(-60, 60); s.RaiseFloor(f); Map(g, [&](double x) { return std::max(x, f); }); story += ":floor " + std::to_string(f) + " "; break; }
      case 1: { double f = c.real(0, 80); s.RaiseFloorPerFrame(f, t); PerFrame(g, h, f); story += ":frame floor " + std::to_string(f) + " "; break; }
      case 2: { double f = c.real(-100, 100); s.SubtractFloor(f); Map(g, [&](double x) { return x - f; }); story += ":subtract " + std::to_string(f) + " "; break; }
      default: {
        // (Next to zero rounding decides.)
        bool near0 = false; Map(g, [&](double x) { near0 |= x != 0 && std::fabs(x) < 1e-3; return x; });
        if (near0) break;
        s.ConvertToDb(); Map(g, Db); story += ":decibels "; break;
      }
    }
    c.near(s.Minimum(), Min(g), 1e-9, 0, "minimum");
    for (Grid* q : {&a, &b}) { V::Spectrogram& z = q == &a ? sa : sb; Compare(c, Read(z), *q, q == &a ? "first" : "second"); *q = Read(z); }
  }
  c.note("steps", story);
  c.nontrivial(n > 2);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C19";
  p.rule = "prepare: pairs of non-negative spectrograms of 1 to 40 bands and 1 to 60 frames each (big: up to 90000 frames, or 2000 bands), wide, uniform, sparse, zero and flat contents of any level, against a cell-by-cell model; non-trivial when the relative floor raises a cell or the lengths differ. steps: random sequences of the single steps on two spectrograms, non-trivial from three steps up";
  p.facets = {{"prepare", Prepare<false>, 800000, 40000000, 2}, {"big", Prepare<true>, 120, 6000, 1, false}, {"steps", Steps, 800000, 50000000, 1}};
  return pbt::Main(p, argc, argv);
}
