// C02: a result is internally consistent.
#include "lib/pipeline.h"
using namespace vt;
namespace V = Visqol;

static void Judge(Case& c, const Mode& m, const Pair& p) {
  auto mg = &CachedManager(m);
  auto res = RunPair(*mg, p.x, p.y, p.sr);
  if (!res.ok()) { c.label("refused"); return; }
  const V::SimilarityResultMsg& r = *res;
  bool defined = std::isfinite(r.vnsim());
  c.check(defined, "similarity %g", r.vnsim());
  int B = m.speech ? 21 : 32; size_t P = m.speech ? 20 : 30;
  c.check(r.fvnsim_size() == B && r.fvnsim10_size() == B && r.fstdnsim_size() == B && r.fvdegenergy_size() == B && r.center_freq_bands_size() == B,
          "%d similarities, %d deciles, %d deviations, %d energies and %d centres for %d bands", r.fvnsim_size(), r.fvnsim10_size(), r.fstdnsim_size(), r.fvdegenergy_size(), r.center_freq_bands_size(), B);
  double top = m.speech ? std::min(8000.0, p.sr / 2.0) : p.sr / 2.0;
  c.near(r.center_freq_bands(0), 50, 0.01, 0, "lowest band centre");
  for (int b = 0; b < B; ++b) {
    c.check(r.center_freq_bands(b) < top, "band %d is centred on %g Hz of %g", b, r.center_freq_bands(b), top);
    if (b) c.check(r.center_freq_bands(b) > r.center_freq_bands(b - 1), "band centres %g, %g do not ascend", r.center_freq_bands(b - 1), r.center_freq_bands(b));
  }
  int K = r.patch_sims_size();
  c.check(K > 0, "no patches");
  double mean = 0;
  for (int b = 0; b < B; ++b) {
    double s = 0; std::vector<double> each;
    for (auto& q : r.patch_sims()) { c.check(q.freq_band_means_size() == B, "a patch with %d bands", q.freq_band_means_size()); each.push_back(q.freq_band_means(b)); s += each.back() / K; c.check(each.back() <= 1 + 1e-9 && each.back() >= -1 - 1e-9, "band %d of a patch has similarity %.12g", b, each.back()); }
    c.near(r.fvnsim(b), s, 1e-9, 0, "band similarity against its patches");
    mean += r.fvnsim(b) / B;
    c.check(r.fvnsim10(b) <= r.fvnsim(b) + 1e-9, "worst decile %.12g above the mean %.12g", r.fvnsim10(b), r.fvnsim(b));
    c.check(r.fvnsim10(b) >= *std::min_element(each.begin(), each.end()) - 1e-9, "worst decile %.12g below every patch", r.fvnsim10(b));
    c.check(r.fvnsim(b) <= 1 + 1e-9, "similarity %.12g", r.fvnsim(b));
    c.check(r.fstdnsim(b) >= 0 && std::isfinite(r.fstdnsim(b)), "deviation %g", r.fstdnsim(b));
    c.check(r.fvdegenergy(b) >= -1e-9 && std::isfinite(r.fvdegenergy(b)), "energy %g", r.fvdegenergy(b));
  }
  c.near(r.vnsim(), mean, 1e-9, 0, "overall similarity against its bands");
  // Patches.
  double hop = HopSeconds(p.sr), full = P * hop, rend = double(p.x.size()) / p.sr, eps = 1e-6 + 2.0 / p.sr;
  double lag = r.alignment_lag_s();
  double dend = double(p.y.size()) / p.sr + lag;  // of the aligned signal
  double prev = -1, dprev = -1; int unmatched = 0;
  for (int k = 0; k < K; ++k) {
    auto& q = r.patch_sims(k);
    double s = 0; for (double v : q.freq_band_means()) s += v / B;
    c.near(q.similarity(), s, 1e-9, 0, "patch similarity against its bands");
    c.check(q.similarity() <= 1 + 1e-9, "patch similarity %.12g", q.similarity());
    double a = q.ref_patch_start_time(), b = q.ref_patch_end_time(), d = q.deg_patch_start_time(), e = q.deg_patch_end_time();
    c.check(a >= -eps && a < b && b <= rend + eps, "patch %d: reference times %.6f..%.6f of %.6f s", k, a, b, rend);
    c.check(a >= prev - eps, "patch %d begins at %.6f in the reference, before the end of the one before it, %.6f", k, a, prev);
    prev = b;
    double i = a / hop;
    if (d == 0 && e == 0) {
      ++unmatched;
      c.check(q.similarity() == 0, "an unmatched patch has similarity %g", q.similarity());
      c.near(b - a, full, 1e-9, 0, "duration of an unmatched patch");
      continue;
    }
    c.check(d >= -eps && d < e && e <= std::max(dend, 0.0) + full + eps, "patch %d: degraded times %.6f..%.6f of %.6f s", k, d, e, dend);
    c.near(e - d, b - a, 1e-9, 0, "durations of the two sides of a patch");
    c.check(b - a <= full + eps && b - a >= full / 4 - eps, "patch %d lasts %.6f of %.6f s", k, b - a, full);
    if (m.no_realign) {
      c.near(b - a, full, 1e-9, 0, "duration of a patch");
      c.near(i, std::round(i), 1e-6, 0, "reference start in frames");
      c.near(d / hop, std::round(d / hop), 1e-6, 0, "degraded start in frames");
      c.check(int64_t(std::llround(i)) % int64_t(P) == int64_t(P) / 2 - 1, "patch %d begins at frame %g", k, i);
      c.check(d > dprev, "patch %d is matched at %.6f s, not after the one before it, %.6f s", k, d, dprev);
      dprev = d;
      c.check(std::fabs(a - d) <= m.window * full + eps, "patch %d at %.6f is matched at %.6f, further off than %d patches", k, a, d, m.window);
    }
  }
  c.check(std::fabs(lag) <= rend / 2 + eps, "a lag of %.6f s", lag);
  c.near(lag * double(p.sr), std::round(lag * double(p.sr)), 1e-6, 0, "lag in samples");
  if (m.no_global) c.check(lag == 0, "a lag of %.6f s without global alignment", lag);
  c.check(r.reference_filepath().empty() && r.degraded_filepath().empty(), "file names for signals in memory");
  c.label(m.speech ? "speech" : "audio"); if (unmatched) c.label("unmatched patches"); if (lag) c.label("lag"); if (m.no_realign) c.label("not realigned");
  c.nontrivial(p.how != "identical");
}

static void Consistent(Case& c) {
  Mode m = AnyMode(c);
  Pair p = AnyPair(c, true, c.chance(10) ? 220 : 100);
  Judge(c, m, p);
}
// Minutes rather than seconds, at low rates to keep them affordable.
static void Long(Case& c) {
  Mode m = AnyMode(c); m.window = int(c.range(1, 3));
  Pair p; p.sr = c.of<size_t>({400, 500, 800});
  GenSignal g = AnySignal(c, "ref", SamplesForFrames(size_t(c.size(300, 6000)), p.sr), p.sr, false);
  p.x = g.v; p.y = Degrade(c, p.x, p.sr, &p.how);
  c.note("rate", p.sr); c.note("degraded", p.how + " n=" + std::to_string(p.y.size()));
  Judge(c, m, p);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C02";
  p.rule = "whole comparisons in random modes of 10 kinds of references with 13 kinds of degradation, of seconds (consistent) and up to two minutes (long); non-trivial when the pair is scored and not identical";
  p.assumptions = {"pffft and TensorFlow Lite are replaced by stand-ins"};
  p.facets = {{"consistent", Consistent, 1600, 80000, 4}, {"long", Long, 60, 4000, 1}};
  return pbt::Main(p, argc, argv);
}
