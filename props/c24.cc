// C24: per-band statistics are the stated statistics of the patch results.
#include <algorithm>
#include <numeric>

#include "comparison_patches_selector.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "lib/common.h"
#include "neurogram_similiarity_index_measure.h"
#include "similarity_result.h"
#include "similarity_to_quality_mapper.h"
#include "spectrogram_builder.h"
#include "vad_patch_creator.h"
#include "visqol.h"

using namespace vt;
namespace V = Visqol;

// Hands out prepared spectrograms instead of analysing signals.
struct FixedSpectrograms : V::SpectrogramBuilder {
  V::AMatrix<double> ref, deg; int calls = 0;
  Vec centres;
  absl::StatusOr<V::Spectrogram> Build(const V::AudioSignal&, const V::AnalysisWindow&) override {
    V::AMatrix<double> m = calls++ % 2 == 0 ? ref : deg;
    V::Spectrogram s(std::move(m));
    s.SetCenterFreqBands(centres);
    return s;
  }
};
struct FixedIndices : V::ImagePatchCreator {
  std::vector<size_t> idx;
  explicit FixedIndices(size_t p) : V::ImagePatchCreator(p) {}
  absl::StatusOr<std::vector<size_t>> CreateRefPatchIndices(const V::AMatrix<double>&, const V::AudioSignal&, const V::AnalysisWindow&) const override { return idx; }
};
// Answers from a table indexed by which reference patch is asked about.
struct Table : V::PatchSimilarityComparator {
  std::vector<V::PatchSimilarityResult> rows; size_t first, step;
  V::PatchSimilarityResult MeasurePatchSimilarity(const V::ImagePatch& ref, const V::ImagePatch&) const override {
    size_t col = size_t(std::llround(ref(0, 0) * 100)), k = (col - first) / step;
    return rows.at(k);
  }
};
struct Recorder : V::SimilarityToQualityMapper {
  double answer = 3; mutable Vec a, b, s, e; mutable int calls = 0;
  double PredictQuality(const Vec& f, const Vec& f10, const Vec& sd, const Vec& en) const override { a = f; b = f10; s = sd; e = en; ++calls; return answer; }
  absl::Status Init() override { return absl::OkStatus(); }
};

// Statistics of the patch results as they are reported.
static void Stats(Case& c, const V::SimilarityResult& r, const Recorder& rec, double fd, size_t bands) {
  auto& ps = r.debug_info.patch_sims;
  c.check(!ps.empty(), "no patches were reported");
  c.check(r.fvnsim.size() == bands && r.fvnsim10.size() == bands && r.fstdnsim.size() == bands && r.fvdegenergy.size() == bands, "statistics for %zu, %zu, %zu, %zu of %zu bands", r.fvnsim.size(), r.fvnsim10.size(), r.fstdnsim.size(), r.fvdegenergy.size(), bands);
  double all = 0;
  for (size_t b = 0; b < bands; ++b) {
    Vec m; double mean = 0, en = 0, eabs = 0;
    for (auto& p : ps) { m.push_back(p.freq_band_means(b)); mean += p.freq_band_means(b) / ps.size(); en += p.freq_band_deg_energy(b) / ps.size(); eabs += std::fabs(p.freq_band_deg_energy(b)); }
    c.near(r.fvnsim[b], mean, 1e-11, 0, "band similarity");
    c.near(r.fvdegenergy[b], en, 1e-11 * (1 + eabs), 0, "band energy");
    all += mean / bands;
    std::sort(m.begin(), m.end());
    // A tenth of the patches, and at least one; a count that is not a whole
    // number is rounded down (products that round just below one tolerated).
    size_t k = std::max<size_t>(1, m.size() / 10);
    double q = std::accumulate(m.begin(), m.begin() + k, 0.0) / k;
    c.near(r.fvnsim10[b], q, 1e-11, 0, "worst-decile similarity");
    // Pooled deviation.
    long double N = 0, wm = 0, um = 0, N2 = 0, c1 = 0, c2 = 0;
    for (auto& p : ps) {
      long double d = (p.ref_patch_end_time - p.ref_patch_start_time) / fd, n = ceill(d - 1e-6L), n2 = std::ceil((p.ref_patch_end_time - p.ref_patch_start_time) / fd);
      long double s = p.freq_band_stddevs(b), mm = p.freq_band_means(b);
      N += n; N2 += n2; wm += n * mm; um += mm / ps.size();
      c1 += (n - 1) * s * s + n * mm * mm; c2 += (n2 - 1) * s * s + n2 * mm * mm;
    }
    wm /= N;
    if (N <= 1) continue;  // a single frame has no deviation
    c.check(r.fstdnsim[b] >= 0, "negative deviation %g", r.fstdnsim[b]);
    long double var = std::max(0.0L, (c1 - N * wm * wm) / (N - 1)), known = std::max(0.0L, (c2 - N2 * um * um) / (N2 - 1));
    double tol = 1e-13 * double(c1) / (N - 1) * 50 + 1e-15;
    double got = r.fstdnsim[b] * r.fstdnsim[b];
    if (std::fabs(got - double(var)) <= tol + 1e-9 * double(var)) { c.label("deviation correct"); continue; }
    if (std::fabs(got - double(known)) <= tol + 1e-9 * double(known)) c.known("pooled-deviation", "pooled deviation of band %zu is %.12g, expected %.12Lg", b, r.fstdnsim[b], sqrtl(var));
    else c.fail("pooled deviation of band %zu is %.12g, expected %.12Lg", b, r.fstdnsim[b], sqrtl(var));
  }
  c.near(r.vnsim, all, 1e-11, 0, "overall similarity");
  c.check(rec.calls == 1, "the score was predicted %d times", rec.calls);
  c.check(rec.a == r.fvnsim && rec.b == r.fvnsim10 && rec.s == r.fstdnsim && rec.e == r.fvdegenergy, "the score was predicted from other values than those reported");
  double want = r.vnsim < 0.15 ? 1.0 : rec.answer;
  if (std::fabs(r.vnsim - 0.15) > 1e-9) c.near(r.moslqo, want, 1e-12, 0, "score");
  if (r.vnsim < 0.15) c.label("floored");
}

static V::AMatrix<double> Marked(size_t rows, size_t cols) {
  V::AMatrix<double> m(rows, cols);
  for (size_t j = 0; j < cols; ++j) for (size_t i = 0; i < rows; ++i) m(i, j) = std::pow(10, (i == 0 ? j : cols) * 0.001);
  return m;
}

template <bool big> static void Direct(Case& c) {
  size_t bands = c.size(1, 40), P = c.range(2, 12), n = c.chance(30) ? c.range(8, 45) : c.size(1, 45);
  // The marking scheme spans at most 45 dB.
  while (n * P > 400) n = n / 2;
  if (big) { bands = c.range(1, 4); n = size_t(c.range(46, 1200)); while (n * P > 4000) n = n / 2; }
  size_t first = c.draw(P), cols = first + n * P + c.draw(3), win = c.range(0, 2);
  size_t sr = c.of<size_t>({8000, 16000, 44100, 48000, 11025});
  c.note("bands", bands); c.note("patches", n); c.note("frames per patch", P); c.note("rate", sr); c.note("window", win);
  Rng r(c.seed());
  int style = int(c.pick({4, 2, 2, 1}));
  auto table = std::make_unique<Table>();
  table->first = first; table->step = P;
  for (size_t k = 0; k < n; ++k) {
    V::PatchSimilarityResult q;
    Vec m(bands), s(bands), e(bands);
    double base = style == 1 ? 0.2 * r.unit() : r.unit();
    for (size_t b = 0; b < bands; ++b) {
      m[b] = style == 3 ? (r.unit() < 0.5 ? 1 : 0) : style == 2 ? r.sym() : std::min(1.0, base + 0.1 * r.unit());
      s[b] = style == 3 ? 0 : 0.4 * r.unit(); e[b] = 80 * r.unit();
    }
    q.freq_band_means = V::AMatrix<double>(m); q.freq_band_stddevs = V::AMatrix<double>(s); q.freq_band_deg_energy = V::AMatrix<double>(e);
    q.similarity = 0.05 + 0.9 * r.unit();
    table->rows.push_back(q);
  }
  auto rows = table->rows;
  Table* tp = table.get();
  V::ComparisonPatchesSelector sel(std::move(table));
  FixedSpectrograms sb; sb.ref = Marked(bands, cols); sb.deg = Marked(bands, cols + c.draw(5));
  for (size_t b = 0; b < bands; ++b) sb.centres.push_back(100 * (b + 1));
  FixedIndices pc(P); for (size_t k = 0; k < n; ++k) pc.idx.push_back(first + k * P);
  Recorder rec; rec.answer = c.real(1, 5);
  V::AnalysisWindow w(sr, 0.25);
  double fd = size_t(w.size * 0.25) / double(sr);
  Vec x = Synth(kNoise, r, 64, sr);
  V::AudioSignal ref = Sig(x, sr), deg = Sig(x, sr);
  V::Visqol vq;
  auto res = vq.CalculateSimilarity(ref, deg, &sb, w, &pc, &sel, &rec, int(win), true);
  c.check(res.ok(), "refused: %s", res.status().ToString().c_str());
  c.check(res->debug_info.patch_sims.size() == n, "%zu patch results for %zu patches", res->debug_info.patch_sims.size(), n);
  c.check(res->center_freq_bands == sb.centres, "the reported band centres are not the spectrogram's");
  bool all = true;
  for (size_t k = 0; k < n; ++k) {
    auto& p = res->debug_info.patch_sims[k];
    if (p.similarity == 0) { all = false; continue; }
    for (size_t b = 0; b < bands; ++b) c.check(p.freq_band_means(b) == rows[k].freq_band_means(b) && p.freq_band_stddevs(b) == rows[k].freq_band_stddevs(b), "patch %zu reports another patch's results", k);
  }
  Stats(c, *res, rec, fd, bands);
  c.nontrivial(n > 1);
  if (n >= 20) c.label("decile of two or more");
  // The order of the patches does not matter.
  if (all && n > 1) {
    std::vector<size_t> perm(n); std::iota(perm.begin(), perm.end(), 0);
    for (size_t k = n - 1; k > 0; --k) std::swap(perm[k], perm[r.range(0, int64_t(k))]);
    for (size_t k = 0; k < n; ++k) tp->rows[k] = rows[perm[k]];
    V::AudioSignal deg2 = Sig(x, sr);
    Recorder rec2; rec2.answer = rec.answer; sb.calls = 0;
    auto r2 = vq.CalculateSimilarity(ref, deg2, &sb, w, &pc, &sel, &rec2, int(win), true);
    c.check(r2.ok(), "refused: %s", r2.status().ToString().c_str());
    bool all2 = true; for (auto& p : r2->debug_info.patch_sims) all2 &= p.similarity != 0;
    if (all2) {
      for (size_t b = 0; b < bands; ++b) {
        c.near(r2->fvnsim[b], res->fvnsim[b], 1e-10, 0, "band similarity after reordering");
        c.near(r2->fvnsim10[b], res->fvnsim10[b], 1e-10, 0, "worst decile after reordering");
        c.near(r2->fvdegenergy[b], res->fvdegenergy[b], 1e-9, 0, "energy after reordering");
      }
      c.label("reordered");
    }
  }
}

// Real patch results, from real signals, with and without realignment.
static void Real(Case& c) {
  bool speech = c.chance(50), realign = !c.chance(30);
  size_t sr = 8000, P = speech ? 20 : 30, bands = speech ? 21 : 12;
  size_t frames = c.range(speech ? 40 : 50, 130);
  size_t n = 641 + (frames - 1) * 160;
  Rng r(c.seed());
  Vec x = Synth(c.chance(50) ? kSpeechLike : kBursts, r, n, sr);
  ScaleToPeak(x, 0.5);
  std::string d; Vec y = Degrade(c, x, sr, &d);
  c.note("frames", frames); c.note("deg", d); c.note("realign", realign); c.note("speech", speech);
  c.require(!y.empty() && Rms(y) > 0);
  V::GammatoneSpectrogramBuilder sb(V::GammatoneFilterBank(bands, 50), speech);
  std::unique_ptr<V::ImagePatchCreator> pc;
  if (speech) pc.reset(new V::VadPatchCreator(P)); else pc.reset(new V::ImagePatchCreator(P));
  V::ComparisonPatchesSelector sel(std::make_unique<V::NeurogramSimiliarityIndexMeasure>());
  Recorder rec; rec.answer = c.real(1, 5);
  V::AnalysisWindow w(sr, 0.25);
  V::AudioSignal ref = Sig(x, sr), deg = Sig(y, sr);
  V::Visqol vq;
  auto res = vq.CalculateSimilarity(ref, deg, &sb, w, pc.get(), &sel, &rec, int(c.range(1, 3)), !realign);
  if (!res.ok()) { c.label("refused"); return; }
  Stats(c, *res, rec, 160 / 8000.0, bands);
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C24";
  p.rule = "direct: tables of per-patch results (1-45 patches, 1-40 bands; many: up to 1200 patches) fed through the whole comparison with stand-ins for its other stages, non-trivial with two or more patches; real: synthetic signals in both patch modes, every statistic recomputed from the reported patch results";
  p.assumptions = {"a tenth of the patches is rounded down to a whole number, as the worst decile of fewer than twenty patches is one patch"};
  p.facets = {{"direct", Direct<false>, 4000, 200000, 2}, {"many", Direct<true>, 60, 3000, 1, false}, {"real", Real, 300, 12000, 3}};
  return pbt::Main(p, argc, argv);
}
