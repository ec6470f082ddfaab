// C06: fine alignment returns two aligned signals of equal length.
#include "alignment.h"
#include "analysis_window.h"
#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "lib/common.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "similarity_result.h"
#include "spectrogram.h"
using namespace vt;
namespace V = Visqol;

static Vec Values(const V::AMatrix<double>& m) { Vec v(m.NumRows()); for (size_t i = 0; i < v.size(); ++i) v[i] = m(i, 0); return v; }
static Vec Shifted(const Vec& x, int64_t lag) {
  if (lag < 0) return Vec(x.begin() + std::min<size_t>(x.size(), size_t(-lag)), x.end());
  Vec y(size_t(lag), 0.0); y.insert(y.end(), x.begin(), x.end()); return y;
}
// y is x late (d > 0) or early, with a tail of its own.
static Vec Moved(Case& c, const Vec& x, size_t sr, std::string* how) {
  Rng r(c.seed());
  int64_t n = int64_t(x.size()), d = c.range(0, n / 2); if (c.chance(50)) d = -d;
  Vec y = Shifted(x, d);
  int64_t tail = c.range(-n / 4, n / 2);
  if (tail < 0) y.resize(size_t(std::max<int64_t>(1, int64_t(y.size()) + tail))); else { Vec t = Bursts(r, size_t(tail), sr); for (auto& v : t) v *= 0.3; y.insert(y.end(), t.begin(), t.end()); }
  if (c.chance(40)) y = AddNoise(y, c.real(0, 40), r);
  *how = "moved by " + std::to_string(d) + ", tail " + std::to_string(tail);
  return y;
}
static Vec Relative(Case& c, const Vec& x, size_t sr, std::string* how) {
  Vec y;
  switch (c.pick({5, 3, 2})) {
    case 0: y = Moved(c, x, sr, how); break;
    case 1: y = Degrade(c, x, sr, how); break;
    default: *how = "unrelated"; y = AnySignal(c, "deg", size_t(c.size(1, 4000)), sr).v;
  }
  return y;
}

template <bool big> static void Truncate(Case& c) {
  size_t sr = c.of<size_t>({8000, 48000, 16000, 44100, 22050, 11025, 1000, 7}), sr2 = c.chance(85) ? sr : c.of<size_t>({8000, 16000, 999});
  Vec x = AnySignal(c, "ref", size_t(big ? c.range(20000, 700000) : c.size(1, 4000)), sr).v; std::string how;
  Vec y = Relative(c, x, sr, &how);
  c.require(!y.empty());
  c.note("rates", std::to_string(sr) + "/" + std::to_string(sr2)); c.note("relation", how); c.note("samples", std::to_string(x.size()) + "/" + std::to_string(y.size()));
  auto rs = Sig(x, sr), ds = Sig(y, sr2);
  auto [ra, da, lag] = V::Alignment::AlignAndTruncate(rs, ds);
  auto [ga, glag] = V::Alignment::GloballyAlign(rs, ds);
  c.check(lag == glag, "a lag of %.12g reported, alignment finds %.12g", lag, glag);
  double s = lag * double(sr2); int64_t L = std::llround(s);
  c.check(std::fabs(s - double(L)) < 1e-6, "lag of %.9g samples", s);
  Vec R = Values(ra.data_matrix), D = Values(da.data_matrix);
  c.check(R.size() == D.size() && !R.empty(), "%zu samples of the reference and %zu of the degraded signal", R.size(), D.size());
  c.check(ra.sample_rate == sr && da.sample_rate == sr2, "sample rates %zu and %zu", ra.sample_rate, da.sample_rate);
  Vec A = Shifted(y, L);
  // Both begin at the start of the reference, or where the real part of the
  // degraded signal begins; and reach as far as both do.
  bool ok = false;
  for (int64_t from : {int64_t(0), L}) {
    if (from < 0 || size_t(from) >= x.size() || size_t(from) >= A.size()) continue;
    size_t n = std::min(x.size(), A.size()) - size_t(from);
    if (R.size() == n && std::equal(R.begin(), R.end(), x.begin() + from) && std::equal(D.begin(), D.end(), A.begin() + from)) { ok = true; c.label(from ? "from the lag" : "from the start"); break; }
  }
  c.check(ok, "lag %lld of %zu/%zu samples: the %zu samples returned are not the same part of the reference and of the shifted degraded signal", (long long)L, x.size(), y.size(), R.size());
  c.check(Values(rs.data_matrix) == x && Values(ds.data_matrix) == y, "aligning changed its inputs");
  c.nontrivial(L != 0);
  c.label(L < 0 ? "late" : L > 0 ? "early" : "no lag");
  c.label(x.size() > A.size() ? "reference longer" : x.size() < A.size() ? "degraded longer" : "same length");
}

// ---- realignment of matched patches
static double At(int64_t s, size_t sr) { return double(s) / double(sr); }
// A sample position whose time reads back as itself.
static int64_t Exact(int64_t s, size_t sr) { while (int64_t(At(s, sr) * double(sr)) != s) ++s; return s; }
enum SliceKind { kIdeal, kLessOne, kSilenceFirst };
static Vec Cut(const Vec& x, int64_t s, int64_t e, int kind) {
  Vec v; int64_t n = int64_t(x.size());
  for (int64_t i = s; i < std::min(e, n); ++i) v.push_back(i >= 0 ? x[i] : 0);
  if (kind != kIdeal && e >= n) v.pop_back();
  Vec z(size_t(std::max<int64_t>(0, e - n)), 0.0);
  if (kind == kSilenceFirst) v.insert(v.begin() + std::max<int64_t>(0, -s), z.begin(), z.end()); else v.insert(v.end(), z.begin(), z.end());
  return v;
}
static bool Same(double a, double b, double tol = 1e-9) { return a == b || std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }
static bool SameBands(const V::AMatrix<double>& a, const V::AMatrix<double>& b, double tol = 1e-8) {
  if (a.NumRows() != b.NumRows()) return false;
  for (size_t i = 0; i < a.NumRows(); ++i) if (!Same(a(i), b(i), tol)) return false;
  return true;
}
static bool SameResult(const V::PatchSimilarityResult& a, const V::PatchSimilarityResult& b) {
  return Same(a.similarity, b.similarity) && SameBands(a.freq_band_means, b.freq_band_means) && SameBands(a.freq_band_stddevs, b.freq_band_stddevs, 1e-6) && SameBands(a.freq_band_deg_energy, b.freq_band_deg_energy) &&
    Same(a.ref_patch_start_time, b.ref_patch_start_time) && Same(a.ref_patch_end_time, b.ref_patch_end_time) && Same(a.deg_patch_start_time, b.deg_patch_start_time) && Same(a.deg_patch_end_time, b.deg_patch_end_time);
}
static std::string Show(const V::PatchSimilarityResult& a) {
  char b[200]; snprintf(b, sizeof b, "similarity %.9g, reference %.6f..%.6f, degraded %.6f..%.6f", a.similarity, a.ref_patch_start_time, a.ref_patch_end_time, a.deg_patch_start_time, a.deg_patch_end_time);
  return b;
}

struct Realigned { bool ok = false; V::PatchSimilarityResult r; int64_t lag = 0; };
static Realigned Expect(const V::PatchSimilarityResult& in, const Vec& rs, const Vec& ds, size_t sr, V::SpectrogramBuilder* b, const V::AnalysisWindow& w) {
  Realigned o;
  auto [ra, da, lag] = V::Alignment::AlignAndTruncate(Sig(rs, sr), Sig(ds, sr));
  o.lag = std::llround(lag * double(sr));
  auto r = b->Build(ra, w), d = b->Build(da, w);
  if (!r.ok() || !d.ok()) return o;
  V::Spectrogram R = r.value(), D = d.value();
  V::MiscAudio::PrepareSpectrogramsForComparison(R, D);
  o.ok = true;
  o.r = V::NeurogramSimiliarityIndexMeasure().MeasurePatchSimilarity(R.Data(), D.Data());
  double dur = double(ra.data_matrix.NumRows()) / double(sr);
  o.r.ref_patch_start_time = in.ref_patch_start_time + std::max(lag, 0.0);
  o.r.deg_patch_start_time = in.deg_patch_start_time - std::min(lag, 0.0);
  o.r.ref_patch_end_time = o.r.ref_patch_start_time + dur;
  o.r.deg_patch_end_time = o.r.deg_patch_start_time + dur;
  return o;
}

template <bool many> static void Realign(Case& c) {
  size_t sr = many ? 1000 : c.of<size_t>({8000, 4000, 11025, 1000, 16000});
  size_t P = many ? 12 : c.of<size_t>({20, 30, 12, 6}), bands = many ? 8 : c.of<size_t>({21, 8, 32});
  bool speech = c.chance(50);
  V::AnalysisWindow w(sr, 0.25);
  size_t hop = size_t(w.size * 0.25), plen = P * hop;
  size_t K = size_t(many ? c.range(30, 400) : c.range(1, 4)), n = plen * K + hop * 4 + size_t(c.range(0, int64_t(plen)));
  Vec x = AnySignal(c, "ref", n, sr).v, y; std::string how;
  if (c.chance(60)) y = Moved(c, x, sr, &how); else y = Degrade(c, x, sr, &how);
  c.require(y.size() > 2);
  c.note("relation", how); c.note("rate", sr); c.note("patch frames", P); c.note("samples", std::to_string(n) + "/" + std::to_string(y.size()));
  V::GammatoneSpectrogramBuilder b(V::GammatoneFilterBank(bands, 50), speech);
  std::vector<V::PatchSimilarityResult> in;
  struct Seg { int64_t s, e, t, f; };
  std::vector<Seg> segs; std::string story;
  for (size_t k = 0; k < K; ++k) {
    V::PatchSimilarityResult p; Seg g;
    // (The code never makes a patch begin before its signal, or with fewer
    // than a couple of samples of it.)
    g.s = Exact(int64_t(k * plen) + c.range(0, int64_t(hop) * 3), sr); g.e = Exact(g.s + int64_t(plen), sr);
    bool unmatched = c.chance(10);
    int64_t slack = int64_t(y.size()) - (many ? int64_t(plen) : 3);
    g.t = Exact(std::max<int64_t>(0, std::min<int64_t>(slack, c.chance(70) ? g.s + c.range(-int64_t(plen), int64_t(plen)) / 3 : c.range(0, slack))), sr);
    g.f = Exact(g.t + int64_t(plen), sr);
    if (unmatched) g.t = g.f = 0;
    p.ref_patch_start_time = At(g.s, sr); p.ref_patch_end_time = At(g.e, sr); p.deg_patch_start_time = At(g.t, sr); p.deg_patch_end_time = At(g.f, sr);
    switch (c.pick({4, 3, 1})) { case 0: p.similarity = -1; break; case 1: p.similarity = c.real(0, 1); break; default: p.similarity = 1.5; }
    if (unmatched) p.similarity = 0;
    p.freq_band_means = V::AMatrix<double>(Vec(bands, 0.1 + k)); p.freq_band_stddevs = V::AMatrix<double>(Vec(bands, 0.2 + k)); p.freq_band_deg_energy = V::AMatrix<double>(Vec(bands, 0.3 + k));
    in.push_back(p); segs.push_back(g);
    story += std::to_string(g.s) + "~" + std::to_string(g.t) + (unmatched ? "(unmatched) " : " ");
  }
  c.note("patches", story);
  V::ComparisonPatchesSelector sel(std::make_unique<V::NeurogramSimiliarityIndexMeasure>());
  V::AudioSignal rs = Sig(x, sr), ds = Sig(y, sr);
  auto got = sel.FinelyAlignAndRecreatePatches(in, rs, ds, &b, w);
  c.check(Values(rs.data_matrix) == x && Values(ds.data_matrix) == y, "realigning changed the signals");
  if (got.ok()) c.check(got->size() == K, "%zu patches from %zu", got->size(), K);
  bool may_refuse = false;
  for (size_t k = 0; k < K; ++k) {
    auto& g = segs[k]; auto& p = in[k];
    if (g.t == g.f) {
      if (got.ok()) c.check(SameResult((*got)[k], p), "an unmatched patch was changed: %s", Show((*got)[k]).c_str());
      c.label("unmatched"); continue;
    }
    bool fits = false, silence = false; std::string want;
    bool rpast = g.e >= int64_t(n), dpast = g.f >= int64_t(y.size());
    for (int a = 0; a < (rpast ? 3 : 1) && !fits; ++a) for (int d = 0; d < (dpast ? 3 : 1) && !fits; ++d) {
      Realigned e = Expect(p, Cut(x, g.s, g.e, a), Cut(y, g.t, g.f, d), sr, &b, w);
      bool sil = (a == kSilenceFirst && g.e > int64_t(n)) || (d == kSilenceFirst && g.f > int64_t(y.size()));
      if (!e.ok) { may_refuse = true; if (!got.ok()) { fits = true; silence = sil; } continue; }
      if (!got.ok()) continue;
      auto& o = (*got)[k];
      bool keep = e.r.similarity < p.similarity;
      if ((SameResult(o, p) && (keep || Same(e.r.similarity, p.similarity))) || (SameResult(o, e.r) && (!keep || Same(e.r.similarity, p.similarity)))) { fits = true; silence = sil; c.label(keep ? "kept" : "realigned"); if (e.lag) { c.label(e.lag < 0 ? "lag < 0" : "lag > 0"); c.nontrivial(); } }
      if (!sil) want = "given " + Show(p) + ", realigned " + Show(e.r);
    }
    if (!got.ok()) continue;
    c.check((*got)[k].similarity >= p.similarity, "realigning lowered the similarity of patch %zu from %.12g to %.12g", k, p.similarity, (*got)[k].similarity);
    if (!fits) c.fail("patch %zu: got %s; %s", k, Show((*got)[k]).c_str(), want.c_str());
    if (silence) c.known("slice-silence-in-front", "patch %zu runs past the end of its signal and was padded in front: %s; %s", k, Show((*got)[k]).c_str(), want.c_str());
  }
  if (!got.ok()) { c.check(may_refuse, "refused: %s", got.status().ToString().c_str()); c.label("refused"); }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C06";
  p.rule = "truncate: all kinds of pairs of 1 to 4000 samples, half of them a moved, cut and noisy copy; realign: 1 to 4 matched patches at exact sample positions of such pairs, with given similarities, against slicing, alignment, analysis and measurement done patch by patch; many patches: the same with 30 to 400 of them. Non-trivial when a lag is found";
  p.assumptions = {"a slice that reaches the end of its signal may lack the last sample", "alignment, analysis and measure are each checked by themselves (C05, C18, C19, C09)"};
  p.facets = {{"truncate", Truncate<false>, 20000, 1000000, 1}, {"long truncate", Truncate<true>, 40, 2000, 1, false}, {"realign", Realign<false>, 1200, 60000, 3}, {"many patches", Realign<true>, 60, 3000, 1, false}};
  return pbt::Main(p, argc, argv);
}
