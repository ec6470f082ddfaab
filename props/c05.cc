// C05: a constant delay between the signals is found, compensated and reported.
#include "alignment.h"
#include "envelope.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "lib/pipeline.h"
#include "neurogram_similiarity_index_measure.h"
#include "vad_patch_creator.h"
#include "visqol.h"
#include "xcorr.h"

#include <complex>
using namespace vt;
namespace V = Visqol;

static Vec Values(const V::AMatrix<double>& m) { Vec v(m.NumRows()); for (size_t i = 0; i < v.size(); ++i) v[i] = m(i, 0); return v; }
static Vec Shifted(const Vec& x, int64_t lag) {
  if (lag < 0) return Vec(x.begin() + std::min<size_t>(x.size(), size_t(-lag)), x.end());
  Vec y(size_t(lag), 0.0); y.insert(y.end(), x.begin(), x.end()); return y;
}
// x delayed (d > 0) or advanced (d < 0), its end kept, cut or silent.
static Vec Delayed(Case& c, const Vec& x, int64_t d) {
  Vec y = Shifted(x, d);
  switch (c.pick({3, 3, 1})) {
    case 0: break;
    case 1: y.resize(x.size(), 0.0); break;
    case 2: y.resize(x.size() + size_t(c.range(0, int64_t(x.size()) / 4)), 0.0); break;
  }
  return y;
}
// How clearly the shift is the best one: correlation of the rectified signals
// at the true shift against every other.
static double Margin(const Vec& a, const Vec& b, int64_t at) {
  Vec u(a.size()), v(b.size());
  double ma = 0, mb = 0; for (double x : a) ma += x; for (double x : b) mb += x; ma /= a.size(); mb /= b.size();
  for (size_t i = 0; i < u.size(); ++i) u[i] = std::fabs(a[i] - ma) + ma;
  for (size_t i = 0; i < v.size(); ++i) v[i] = std::fabs(b[i] - mb) + mb;
  int64_t m = int64_t(std::max(u.size(), v.size())) - 1; double best = -1e300, here = 0;
  for (int64_t l = -m; l <= m; ++l) {
    double s = 0; int64_t lo = std::max<int64_t>(0, -l), hi = std::min<int64_t>(int64_t(v.size()), int64_t(u.size()) - l);
    for (int64_t k = lo; k < hi; ++k) s += u[k + l] * v[k];
    if (l == at) here = s; else best = std::max(best, s);
  }
  return here > 0 ? (here - best) / here : -1;
}

// The same for long signals.
static void Fft(std::vector<std::complex<double>>& a, bool inverse) {
  size_t n = a.size();
  for (size_t i = 1, j = 0; i < n; ++i) { size_t b = n >> 1; for (; j & b; b >>= 1) j ^= b; j ^= b; if (i < j) std::swap(a[i], a[j]); }
  for (size_t len = 2; len <= n; len <<= 1) {
    std::vector<std::complex<double>> w(len / 2); for (size_t k = 0; k < w.size(); ++k) w[k] = std::polar(1.0, (inverse ? 2 : -2) * M_PI * double(k) / double(len));
    for (size_t i = 0; i < n; i += len) for (size_t k = 0; k < len / 2; ++k) { auto u = a[i + k], v = a[i + k + len / 2] * w[k]; a[i + k] = u + v; a[i + k + len / 2] = u - v; }
  }
}
static double LongMargin(const Vec& a, const Vec& b, int64_t at) {
  size_t m = std::max(a.size(), b.size()), n = 1; while (n < 2 * m) n <<= 1;
  std::vector<std::complex<double>> u(n), v(n);
  double ma = 0, mb = 0; for (double x : a) ma += x; for (double x : b) mb += x; ma /= a.size(); mb /= b.size();
  for (size_t i = 0; i < a.size(); ++i) u[i] = std::fabs(a[i] - ma) + ma;
  for (size_t i = 0; i < b.size(); ++i) v[i] = std::fabs(b[i] - mb) + mb;
  Fft(u, false); Fft(v, false);
  for (size_t i = 0; i < n; ++i) u[i] *= std::conj(v[i]);
  Fft(u, true);
  double best = -1e300, here = 0;
  for (int64_t l = 1 - int64_t(m); l < int64_t(m); ++l) { double s = u[size_t(l < 0 ? l + int64_t(n) : l)].real(); if (l == at) here = s; else best = std::max(best, s); }
  return here > 0 ? (here - best) / here : -1;
}

static void Shift(Case& c) {
  size_t n = size_t(c.range(300, 3000)), sr = c.of<size_t>({8000, 16000, 44100, 48000, 22050, 11025});
  Rng r(c.seed());
  // Short bursts whatever the rate, so that each signal holds several.
  Vec x = Bursts(r, n, std::max<size_t>(300, n / 2));
  ScaleToPeak(x, c.real(0.01, 1));
  int64_t d = c.range(0, int64_t(n) / 5); if (c.chance(50)) d = -d;
  Vec y = Delayed(c, x, d);
  double g = c.chance(30) ? std::pow(10, c.real(-2, 1)) : 1; for (auto& v : y) v *= g;
  if (c.chance(30)) { y = AddNoise(y, 40, r); c.label("with noise"); }
  c.note("samples", std::to_string(n) + "/" + std::to_string(y.size())); c.note("delay", d); c.note("rate", sr);
  double mg = Margin(x, y, -d);
  c.require(mg > 0.02);
  c.nontrivial(d != 0);
  auto [al, lag] = V::Alignment::GloballyAlign(Sig(x, sr), Sig(y, sr));
  c.near(lag * double(sr), double(-d), 1e-6, 0, "reported lag in samples");
  Vec want = Shifted(y, -d);
  c.check(al.sample_rate == sr, "the aligned signal has rate %zu", al.sample_rate);
  Vec got = Values(al.data_matrix);
  c.check(got == want, "the aligned signal is not the degraded one shifted back by %lld (%zu samples instead of %zu)", (long long)d, got.size(), want.size());
  c.label(d < 0 ? "advanced" : d > 0 ? "delayed" : "in place");
}

// Signals of many seconds, shifted by up to many seconds.
static void Long(Case& c) {
  size_t sr = c.of<size_t>({8000, 16000, 44100, 48000}), n = size_t(c.chance(25) ? c.range(500000, 1100000) : c.range(30000, 500000));
  Rng r(c.seed());
  Vec x = Bursts(r, n, std::max<size_t>(300, n / 4)); ScaleToPeak(x, 0.5);
  int64_t d = c.range(0, int64_t(n) * 2 / 5); if (c.chance(50)) d = -d;
  Vec y = Delayed(c, x, d);
  c.note("samples", std::to_string(n) + "/" + std::to_string(y.size())); c.note("delay", d); c.note("rate", sr);
  c.require(LongMargin(x, y, -d) > 0.03);
  c.nontrivial(d != 0);
  auto [al, lag] = V::Alignment::GloballyAlign(Sig(x, sr), Sig(y, sr));
  c.near(lag * double(sr), double(-d), 1e-6, 0, "reported lag in samples");
  c.check(Values(al.data_matrix) == Shifted(y, -d), "the aligned signal is not the degraded one shifted back by %lld", (long long)d);
  if (std::llabs(d) > int64_t(3 * sr)) c.label("more than three seconds");
}

// What alignment does to any pair.
static void Any(Case& c) {
  size_t sr = c.of<size_t>({8000, 16000, 44100, 48000, 1000, 22050});
  size_t n = size_t(c.size(1, 6000)), k = c.chance(40) ? n : size_t(c.size(1, 6000));
  Vec x = AnySignal(c, "ref", n, sr).v, y; std::string how = "independent";
  if (c.chance(60)) y = Degrade(c, x, sr, &how); else y = AnySignal(c, "deg", k, sr).v;
  c.require(!y.empty());
  c.note("relation", how);
  auto rs = Sig(x, sr), ds = Sig(y, sr);
  auto [al, lag] = V::Alignment::GloballyAlign(rs, ds);
  double s = lag * double(sr); int64_t L = std::llround(s);
  c.check(std::fabs(s - double(L)) < 1e-6, "lag of %.9g samples", s);
  c.check(2 * std::llabs(L) <= int64_t(n), "a lag of %lld is applied to a reference of %zu samples", (long long)L, n);
  c.check(al.sample_rate == sr, "the aligned signal has rate %zu", al.sample_rate);
  c.check(Values(al.data_matrix) == Shifted(y, L), "the aligned signal is not the given one shifted by the reported lag of %lld (%zu samples from %zu)", (long long)L, al.data_matrix.NumRows(), y.size());
  c.check(al.data_matrix.NumRows() > 0, "nothing is left of the degraded signal");
  c.check(Values(rs.data_matrix) == x && Values(ds.data_matrix) == y, "aligning changed its inputs");
  // The lag is the one that the envelopes' cross-correlation gives.
  int64_t best = V::XCorr::FindLowestLagIndex(V::Envelope::CalcUpperEnv(rs.data_matrix), V::Envelope::CalcUpperEnv(ds.data_matrix));
  if (2 * std::llabs(best) <= int64_t(n) && -best < int64_t(y.size())) c.check(L == best, "the envelopes correlate best at %lld, the lag applied is %lld", (long long)best, (long long)L);
  else { c.check(L == 0, "the lag %lld was applied though the best one, %lld, is out of bounds", (long long)L, (long long)best); c.label("best lag out of bounds"); }
  c.nontrivial(L != 0);
  c.label(L < 0 ? "late" : L > 0 ? "early" : "no lag");
}

static std::string Text(const absl::StatusOr<V::SimilarityResultMsg>& r) {
  if (!r.ok()) return "refused (" + r.status().ToString() + ")";
  V::SimilarityResultMsg m = *r; m.clear_alignment_lag_s(); return m.SerializeAsString();
}
static void Pipeline(Case& c) {
  Mode m = AnyMode(c, false); m.no_global = false; m.speech = !c.chance(25);
  size_t sr = 8000, n = SamplesForFrames(size_t(c.range(50, 90)), sr) + size_t(c.range(0, 100));
  Rng r(c.seed());
  Vec x = c.chance(50) ? Bursts(r, n, sr) : SpeechLike(r, n, sr); ScaleToPeak(x, 0.5);
  int64_t d = c.range(0, 2200) * (c.chance(50) ? -1 : 1);
  Vec y = c.chance(60) ? Delayed(c, x, d) : Vec(); std::string how = "shifted by " + std::to_string(d);
  bool shifted = !y.empty();
  if (!shifted) y = Degrade(c, x, sr, &how);
  c.require(!y.empty() && Rms(y) > 0);
  c.note("samples", n); c.note("relation", how);
  Mode off = m; off.no_global = true;
  auto on = RunPair(CachedManager(m), x, y, sr);
  auto plain = RunPair(CachedManager(off), x, y, sr);
  double lag = 0;
  auto [al, l2] = V::Alignment::GloballyAlign(Sig(x, sr), Sig(y, sr));
  if (on.ok()) {
    lag = on->alignment_lag_s();
    c.check(lag == l2, "the reported lag is %.9g s where alignment gives %.9g s", lag, l2);
    if (shifted && Margin(x, y, -d) > 0.02) { c.near(lag * double(sr), double(-d), 1e-6, 0, "reported lag in samples"); c.label("lag recovered"); }
    int64_t L = std::llround(lag * double(sr));
    auto by_hand = RunPair(CachedManager(off), x, Shifted(y, L), sr);
    c.check(Text(on) == Text(by_hand), "aligned by the program %.12g, shifted by %lld by hand %.12g", on->vnsim(), (long long)L, by_hand.ok() ? by_hand->vnsim() : -1.0);
    if (shifted && y.size() == n + d && d >= 0) { if (std::llround(-lag * double(sr)) == d) { c.near(on->vnsim(), 1, 1e-9, 0, "similarity of a delayed copy"); c.label("complete copy"); } }
    c.nontrivial(L != 0);
  }
  if (plain.ok()) {
    c.check(plain->alignment_lag_s() == 0, "lag %.9g reported without global alignment", plain->alignment_lag_s());
    // Without alignment the signal is compared as given.
    V::GammatoneSpectrogramBuilder sb(V::GammatoneFilterBank(m.speech ? 21 : 32, 50), m.speech);
    V::VadPatchCreator vp(20); V::ImagePatchCreator ip(30);
    V::ComparisonPatchesSelector sel(std::make_unique<V::NeurogramSimiliarityIndexMeasure>());
    struct Null : V::SimilarityToQualityMapper { double PredictQuality(const Vec&, const Vec&, const Vec&, const Vec&) const override { return 3; } absl::Status Init() override { return absl::OkStatus(); } } q;
    V::AudioSignal rs = Sig(x, sr), ds = Sig(y, sr);
    V::Visqol vq;
    auto want = vq.CalculateSimilarity(rs, ds, &sb, V::AnalysisWindow(sr, 0.25), m.speech ? static_cast<V::ImagePatchCreator*>(&vp) : &ip, &sel, &q, m.window, m.no_realign);
    c.check(want.ok(), "refused by parts: %s", want.status().ToString().c_str());
    c.near(plain->vnsim(), want->vnsim, 1e-10, 0, "similarity of the signals as given");
    c.check(size_t(plain->patch_sims_size()) == want->debug_info.patch_sims.size(), "%d patches instead of %zu", plain->patch_sims_size(), want->debug_info.patch_sims.size());
    for (int i = 0; i < plain->patch_sims_size(); ++i) c.near(plain->patch_sims(i).deg_patch_start_time(), want->debug_info.patch_sims[i].deg_patch_start_time, 1e-9, 0, "patch time of the signals as given");
  }
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C05";
  p.rule = "long: signals of up to a minute shifted by up to two fifths; shift: bursty signals delayed or advanced by up to a fifth, end kept, cut or padded, with gain and noise, kept only when an independent correlation has its maximum clearly at the true shift; any: all kinds of pairs, the aligned signal against the reported lag; pipeline: whole comparisons with and without global alignment against the pair aligned by hand. Non-trivial when the lag is not zero";
  p.assumptions = {"a delay is only required to be found where the rectified signals correlate at least 2 % better at it than anywhere else"};
  p.facets = {{"shift", Shift, 12000, 600000, 2}, {"long", Long, 80, 4000, 2}, {"any", Any, 30000, 1200000, 1}, {"pipeline", Pipeline, 300, 20000, 4}};
  return pbt::Main(p, argc, argv);
}
