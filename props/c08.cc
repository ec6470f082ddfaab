// C08: reference patches are matched to degraded patches in the best way.
#include <set>
#include "comparison_patches_selector.h"
#include "lib/common.h"
#include "neurogram_similiarity_index_measure.h"
#include "similarity_result.h"
using namespace vt;
namespace V = Visqol;

typedef std::vector<Vec> Tab;  // similarity of patch k with the segment at o
static V::AMatrix<double> Const(size_t rows, double v) { return V::AMatrix<double>(Vec(rows, v)); }

// Answers from a table; cells of the two spectrograms name their own place.
struct Table : V::PatchSimilarityComparator {
  const Tab* t; size_t rows, P, F; mutable std::string complaint;
  static double RefCell(size_t k, size_t r, size_t j) { return 1 + double(k) + 1000.0 * r + 100000.0 * j; }
  static double DegCell(size_t r, size_t col) { return 1 + double(col) + 1000000.0 * r; }
  V::PatchSimilarityResult MeasurePatchSimilarity(const V::ImagePatch& ref, const V::ImagePatch& deg) const override {
    size_t k = size_t(std::llround(ref(0, 0) - 1)), o = size_t(std::llround(deg(0, 0) - 1));
    if (k >= t->size() || o >= F) { complaint = "a patch that begins nowhere in its spectrogram was compared"; k = o = 0; }
    if (ref.NumRows() != rows || ref.NumCols() != P || deg.NumRows() != rows || deg.NumCols() != P) complaint = "a patch of the wrong size was compared";
    else for (size_t r = 0; r < rows; ++r) for (size_t j = 0; j < P; ++j) {
      if (ref(r, j) != RefCell(k, r, j)) complaint = "a reference patch was altered";
      double want = o + j < F ? DegCell(r, o + j) : 0;
      if (deg(r, j) != want) complaint = "the degraded segment at " + std::to_string(o) + " holds " + std::to_string(deg(r, j)) + " in place of " + std::to_string(want);
    }
    V::PatchSimilarityResult x;
    x.similarity = (*t)[k][o];
    x.freq_band_means = Const(rows, x.similarity); x.freq_band_stddevs = Const(rows, 0.25); x.freq_band_deg_energy = Const(rows, 2.5);
    return x;
  }
};
// Passes on to the real measure, counting nothing and changing nothing.
struct Layout { size_t P, F; std::vector<size_t> idx; int radius; double fd; };

// The best total over all assignments: start frames in each patch's window,
// increasing; a patch other than the first may be left unmatched (counting 0)
// while the start frame of the last match lies in its window.
static bool Best(const Layout& l, size_t kept, const Tab& t, double* best) {
  int64_t W = int64_t(l.radius) * int64_t(l.P), F = int64_t(l.F);
  const double kNone = -std::numeric_limits<double>::infinity();
  // v[o]: the best total of patches k.. when the last match is at o.
  Vec after(l.F, 0.0);
  for (size_t k = kept; k-- > 0;) {
    int64_t lo = std::max<int64_t>(0, int64_t(l.idx[k]) - W), hi = std::min(F - 1, int64_t(l.idx[k]) + W);
    Vec v(l.F, kNone); double suffix = kNone;
    for (int64_t o = F - 1; o >= 0; --o) {
      v[o] = suffix;  // matched anywhere later than o
      if (o >= lo && o <= hi) {
        if (k > 0) v[o] = std::max(v[o], after[o]);
        suffix = std::max(suffix, t[k][o] + after[o]);
      }
    }
    if (k == 0) { *best = suffix; return suffix != kNone; }
    after = v;
  }
  return false;
}
static size_t Kept(const Layout& l) {
  size_t n = l.idx.size();
  while (n && double(l.idx[n - 1]) - double(l.P / 2) > double(l.F)) --n;
  return n;
}

static void Judge(Case& c, const Layout& l, const Tab& t, const absl::StatusOr<std::vector<V::PatchSimilarityResult>>& res, double tol, bool stub) {
  size_t kept = Kept(l); double best = 0;
  bool feasible = kept && Best(l, kept, t, &best);
  if (kept < l.idx.size()) c.label(kept ? "some patches dropped" : "all patches dropped");
  if (!feasible) {
    c.label("refused");
    if (res.ok()) c.fail("%zu patches were matched though none can be", res->size());
    c.check(!res.status().message().empty(), "refused without a message");
    return;
  }
  c.check(res.ok(), "refused though an assignment exists: %s", res.status().ToString().c_str());
  c.check(res->size() == kept, "%zu patches reported, %zu of %zu start early enough", res->size(), kept, l.idx.size());
  int64_t W = int64_t(l.radius) * int64_t(l.P), last = -1; double total = 0; size_t unmatched = 0;
  for (size_t k = 0; k < kept; ++k) {
    auto& x = (*res)[k];
    c.near(x.ref_patch_start_time, l.idx[k] * l.fd, 1e-9, 1e-9, "reference patch start");
    c.near(x.ref_patch_end_time, (l.idx[k] + l.P) * l.fd, 1e-9, 1e-9, "reference patch end");
    if (x.deg_patch_start_time == 0 && x.deg_patch_end_time == 0) {
      ++unmatched;
      c.check(k > 0, "the first patch is unmatched");
      c.check(x.similarity == 0, "unmatched patch %zu has similarity %g", k, x.similarity);
      for (size_t b = 0; b < x.freq_band_means.NumRows(); ++b) c.check(x.freq_band_means(b) == 0, "unmatched patch %zu has similarity %g in band %zu", k, x.freq_band_means(b), b);
      c.check(last >= int64_t(l.idx[k]) - W && last <= int64_t(l.idx[k]) + W, "patch %zu is left unmatched with the last match out of its window", k);
      continue;
    }
    double o = x.deg_patch_start_time / l.fd; int64_t off = std::llround(o);
    c.check(std::fabs(o - double(off)) < 1e-6 && off >= 0 && off < int64_t(l.F), "patch %zu is matched at frame %g of %zu", k, o, l.F);
    c.near(x.deg_patch_end_time, (double(off) + l.P) * l.fd, 1e-9, 1e-9, "degraded patch end");
    c.check(off >= int64_t(l.idx[k]) - W && off <= int64_t(l.idx[k]) + W, "patch %zu at %zu is matched at %lld, outside of its window of %lld", k, l.idx[k], (long long)off, (long long)W);
    c.check(off > last, "patch %zu is matched at %lld, its predecessor at %lld", k, (long long)off, (long long)last);
    last = off;
    c.near(x.similarity, t[k][off], tol, 0, "similarity reported for a matched patch");
    if (stub) for (size_t b = 0; b < x.freq_band_means.NumRows(); ++b) c.check(x.freq_band_means(b) == t[k][off] && x.freq_band_stddevs(b) == 0.25 && x.freq_band_deg_energy(b) == 2.5, "patch %zu reports another segment's bands", k);
    total += t[k][off];
  }
  c.check(total >= best - 1e-9 - tol * double(kept), "the assignment chosen totals %.12g, the best one %.12g", total, best);
  c.check(total <= best + 1e-9 + tol * double(kept), "the assignment chosen totals %.12g, more than possible: %.12g", total, best);
  if (unmatched) c.label("patches left unmatched");
  if (last + int64_t(l.P) > int64_t(l.F)) c.label("padded at the end");
  c.nontrivial(kept > 1);
}

static Layout AnyLayout(Case& c, size_t maxP, size_t maxK) {
  Layout l;
  l.P = size_t(c.size(1, int64_t(maxP)));
  size_t K = size_t(c.size(1, int64_t(maxK)));
  size_t at = size_t(c.range(0, int64_t(l.P)));
  bool regular = c.chance(40);
  for (size_t k = 0; k < K; ++k) { l.idx.push_back(at); at += regular ? l.P : l.P * size_t(c.pick({8, 3, 1, 1}) + 1) + (c.chance(20) ? size_t(c.range(0, 3)) : 0); }
  size_t span = l.idx.back() + l.P;
  switch (c.pick({5, 3, 3, 1})) {
    case 0: l.F = span + size_t(c.range(0, int64_t(l.P) * 2)); break;
    case 1: l.F = size_t(c.range(1, int64_t(span))); break;
    case 2: l.F = size_t(c.range(1, int64_t(span) * 2)); break;
    default: { int64_t f = int64_t(l.idx[c.draw(K - 1)]) - int64_t(l.P / 2) + c.range(-2, 2); l.F = size_t(std::max<int64_t>(1, f)); }  // around the drop limit
  }
  l.radius = c.of<int>({1, 2, 0, 3, 60});
  if (c.chance(5)) { l.radius = c.of<int>({255, 256, 257, 1000, 65536, 1 << 28, INT32_MAX / int(l.P), INT32_MAX / int(l.P) + 1, INT32_MAX}) - int(c.draw(1)); c.label("extreme radius"); }
  l.fd = c.of<double>({0.02, 0.01999546485260771, 0.1, 0.0125});
  if (l.idx.size() > 60) l.radius = c.of<int>({1, 2, 60, 300});
  c.note("patch frames", l.P); c.note("patches at", l.idx); c.note("degraded frames", l.F); c.note("radius", l.radius); c.note("frame", l.fd);
  return l;
}

template <bool big> static void ByTable(Case& c) {
  Layout l = big ? c.chance(50) ? AnyLayout(c, 3, 500) : AnyLayout(c, 12, 60) : AnyLayout(c, 12, 9);
  if (big && c.chance(30)) { l.F += size_t(c.range(1, 70000)); l.idx.resize(std::min<size_t>(l.idx.size(), 8)); l.radius = c.of<int>({60, 10000, 1}); size_t at = size_t(c.range(0, 70000)); if (c.chance(60)) { for (size_t& i : l.idx) i += at; l.F += at; } }
  size_t rows = big ? 1 : size_t(c.range(1, 3)), K = l.idx.size();
  auto cmp = std::make_unique<Table>(); Table* t = cmp.get();
  Tab sim(K, Vec(l.F)); Rng r(c.seed());
  int kind = int(c.pick({4, 3, 3, 2, 2}));
  static const char* kn[] = {"uniform", "with negatives", "peaks", "ties", "mostly negative"};
  c.note("similarities", kn[kind]);
  for (auto& v : sim) {
    size_t peak = size_t(r.next() % l.F);
    for (size_t o = 0; o < l.F; ++o) v[o] = kind == 0 ? r.unit() : kind == 1 ? r.sym() : kind == 2 ? 0.2 * r.unit() + 0.8 * std::exp(-std::pow((double(o) - double(peak)) / 2, 2)) : kind == 3 ? double(r.next() % 3) / 2 : r.unit() - 0.9;
  }
  t->t = &sim; t->rows = rows; t->P = l.P; t->F = l.F;
  V::AMatrix<double> deg(rows, l.F);
  for (size_t a = 0; a < rows; ++a) for (size_t o = 0; o < l.F; ++o) deg(a, o) = Table::DegCell(a, o);
  std::vector<V::ImagePatch> ref;
  for (size_t k = 0; k < K; ++k) { V::ImagePatch p(rows, l.P); for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < l.P; ++j) p(a, j) = Table::RefCell(k, a, j); ref.push_back(p); }
  V::ComparisonPatchesSelector s(std::move(cmp));
  auto res = s.FindMostOptimalDegPatches(ref, l.idx, deg, l.fd, l.radius);
  c.check(t->complaint.empty(), "%s", t->complaint.c_str());
  Judge(c, l, sim, res, 0, true);
  c.label(kn[kind]);
}

// With the real measure: the reference's patches reappear in the degraded
// spectrogram, moved, repeated, lost or changed.
static void RealMeasure(Case& c) {
  Layout l = AnyLayout(c, 10, 5);
  size_t rows = size_t(c.range(2, 12)), K = l.idx.size();
  Rng r(c.seed());
  std::vector<V::ImagePatch> ref;
  size_t refF = l.idx.back() + l.P;
  V::AMatrix<double> rs(rows, refF), deg(rows, l.F);
  for (size_t a = 0; a < rows; ++a) for (size_t o = 0; o < refF; ++o) rs(a, o) = 45 * std::fabs(std::sin(0.7 * a + 0.3 * o) * r.unit());
  int64_t shift = c.range(-8, 8); double noise = c.chance(50) ? 0 : c.real(0, 20);
  for (size_t o = 0; o < l.F; ++o) { int64_t q = int64_t(o) + shift; for (size_t a = 0; a < rows; ++a) deg(a, o) = std::fabs((q >= 0 && q < int64_t(refF) ? rs(a, q) : 0) + noise * r.sym()); }
  c.note("shift", shift); c.note("noise", noise); c.note("bands", rows);
  if (c.chance(40) && l.F > 2) { size_t a0 = size_t(c.range(0, int64_t(l.F) - 1)), a1 = std::min(l.F, a0 + size_t(c.range(1, 20))); for (size_t o = a0; o < a1; ++o) for (size_t a = 0; a < rows; ++a) deg(a, o) = 0; c.label("with a dropout"); }
  for (size_t k = 0; k < K; ++k) { V::ImagePatch p(rows, l.P); for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < l.P; ++j) p(a, j) = rs(a, l.idx[k] + j); ref.push_back(p); }
  V::NeurogramSimiliarityIndexMeasure nsim;
  Tab sim(K, Vec(l.F));
  for (size_t o = 0; o < l.F; ++o) {
    V::ImagePatch d(rows, l.P); for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < l.P; ++j) d(a, j) = o + j < l.F ? deg(a, o + j) : 0.0;
    for (size_t k = 0; k < K; ++k) sim[k][o] = nsim.MeasurePatchSimilarity(ref[k], d).similarity;
  }
  V::ComparisonPatchesSelector s(std::make_unique<V::NeurogramSimiliarityIndexMeasure>());
  auto before = deg;
  auto res = s.FindMostOptimalDegPatches(ref, l.idx, deg, l.fd, l.radius);
  for (size_t a = 0; a < rows; ++a) for (size_t o = 0; o < l.F; ++o) c.check(deg(a, o) == before(a, o), "the degraded spectrogram was changed");
  Judge(c, l, sim, res, 1e-9, false);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C08";
  p.rule = "table: 1 to 9 patches of 1 to 12 frames at regular and irregular positions, degraded spectrograms from one frame up, search radius 0 to 60, (big table: up to 500 patches, or 70000 frames), similarities from a table (uniform, negative, peaked, tied); real: the real measure on spectrograms that reappear shifted, noisy and with dropouts. Non-trivial when more than one patch is matched";
  p.assumptions = {"as the code defines it, the first patch is always matched, and another may be left unmatched while the last matched start frame lies in its window"};
  p.facets = {{"table", ByTable<false>, 600000, 30000000, 2}, {"big table", ByTable<true>, 200, 10000, 1, false}, {"real", RealMeasure, 40000, 1500000, 2}};
  return pbt::Main(p, argc, argv);
}
