// C20: every reference patch to be scored is chosen, silent speech is not.
#include "analysis_window.h"
#include "image_patch_creator.h"
#include "lib/common.h"
#include "rms_vad.h"
#include "vad_patch_creator.h"
using namespace vt;
namespace V = Visqol;
typedef std::vector<size_t> Idx;
static std::string Str(const Idx& v) { std::string s; for (size_t x : v) s += std::to_string(x) + " "; return s.empty() ? "none" : s; }

template <bool big> static void Audio(Case& c) {
  size_t P = size_t(c.chance(40) ? 30 : c.size(2, 64)), n = size_t(c.chance(50) ? c.range(0, int64_t(6 * P)) : int64_t(P + P / 2) + c.range(-3, 3) + int64_t(P) * c.range(0, 3));
  if (big) { P = size_t(c.range(2, 40)); n = P * size_t(c.range(200, 3000)) + size_t(c.range(0, int64_t(P))); if (c.chance(30)) n = size_t(c.range(65530, 140000)); }
  size_t rows = big ? 1 : size_t(c.range(1, 4));
  c.note("patch frames", P); c.note("frames", n);
  V::AMatrix<double> sp(n ? rows : 0, n);
  for (size_t a = 0; a < sp.NumRows(); ++a) for (size_t j = 0; j < n; ++j) sp(a, j) = double(j) + 1000.0 * a;
  V::ImagePatchCreator ip(P);
  V::AudioSignal sig = Sig(Vec(10, 0.1), 8000);
  auto r = ip.CreateRefPatchIndices(sp, sig, V::AnalysisWindow(8000, 0.25));
  if (n < P + P / 2) { if (r.ok()) c.fail("%zu frames gave patches at %s", n, Str(*r).c_str()); c.label("refused"); c.nontrivial(n > 0); return; }
  c.check(r.ok(), "%zu frames refused: %s", n, r.status().ToString().c_str());
  // From half a patch in, one after another, two frames kept behind the last
  // (one, when there is only one).
  Idx want{P / 2 - 1};
  for (size_t i = P / 2 - 1 + P; i + P + 2 <= n; i += P) want.push_back(i);
  c.check(*r == want, "patches at %s instead of %s", Str(*r).c_str(), Str(want).c_str());
  auto im = ip.CreatePatchesFromIndices(sp, *r);
  c.check(im.size() == want.size(), "%zu patches", im.size());
  for (size_t k = 0; k < im.size(); ++k) {
    c.check(im[k].NumRows() == rows && im[k].NumCols() == P, "patch %zu is %zux%zu", k, im[k].NumRows(), im[k].NumCols());
    for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < P; ++j) c.check(im[k](a, j) == double(want[k] + j) + 1000.0 * a, "patch %zu, band %zu, frame %zu is not column %zu", k, a, j, want[k] + j);
  }
  c.nontrivial(want.size() > 1);
  c.label(want.size() > 1 ? "many" : "one");
}
// Any selection of columns.
static void Images(Case& c) {
  size_t P = size_t(c.size(1, 20)), n = P + size_t(c.size(0, 60)), rows = size_t(c.size(1, 8)); Rng r(c.seed());
  V::AMatrix<double> sp(rows, n);
  for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < n; ++j) sp(a, j) = r.gauss();
  Idx idx; size_t k = size_t(c.range(0, 6)); for (size_t i = 0; i < k; ++i) idx.push_back(size_t(c.range(0, int64_t(n - P))));
  c.note("patch frames", P); c.note("frames", n); c.note("at", Str(idx));
  auto im = V::ImagePatchCreator(P).CreatePatchesFromIndices(sp, idx);
  auto iv = V::VadPatchCreator(P).CreatePatchesFromIndices(sp, idx);
  c.check(im.size() == k && iv.size() == k, "%zu patches", im.size());
  for (size_t q = 0; q < k; ++q) {
    c.check(im[q].NumRows() == rows && im[q].NumCols() == P && iv[q].NumCols() == P, "patch %zu has the wrong size", q);
    for (size_t a = 0; a < rows; ++a) for (size_t j = 0; j < P; ++j) c.check(im[q](a, j) == sp(a, idx[q] + j) && iv[q](a, j) == im[q](a, j), "patch %zu differs from its columns", q);
  }
  c.nontrivial(k > 1 && rows > 1);
}

// Which chunks are loud: 1, 0, or -1 where rounding to 16 bits decides.
static std::vector<int> Loud(const Vec& x, double top, size_t from, size_t len, size_t count) {
  std::vector<int> out;
  for (size_t k = 0; k < count; ++k) {
    double s = 0, at = 0;
    for (size_t i = 0; i < len; ++i) {
      double v = from + k * len + i < x.size() ? x[from + k * len + i] / top * 32768 : 0;
      v = std::max(-32768.0, std::min(32767.0, v)); s += v * v / len; double t = std::trunc(v); at += t * t / len;
    }
    double a = std::sqrt(s), b = std::sqrt(at);
    out.push_back(std::fabs(a - 5000) < 1.5 || std::fabs(b - 5000) < 1.5 ? -1 : a >= 5000);
  }
  return out;
}
// A frame lacks activity when it and its two predecessors are quiet (the first
// two never lack it). 1, 0 or -1.
static int Active(const std::vector<int>& loud, size_t j) {
  if (j < 2) return 1;
  int m = std::max(loud[j], std::max(loud[j - 1], loud[j - 2]));
  if (m == 1) return 1;
  return loud[j] == -1 || loud[j - 1] == -1 || loud[j - 2] == -1 ? -1 : 0;
}
static std::vector<int> PatchActivity(const Vec& x, double top, size_t from, size_t hop, size_t P, size_t patches) {
  auto loud = Loud(x, top, from, hop, P * patches);
  std::vector<int> r;
  for (size_t k = 0; k < patches; ++k) { int a = 0; bool unsure = false; for (size_t j = k * P; j < (k + 1) * P; ++j) { int q = Active(loud, j); if (q == 1) a = 1; if (q < 0) unsure = true; } r.push_back(a ? 1 : unsure ? -1 : 0); }
  return r;
}
static Vec Talk(Case& c, size_t n, size_t hop) {
  Rng r(c.seed()); Vec v(n);
  // Stretches of loud, middling and quiet signal, some of one hop, some of many.
  int kind = int(c.pick({4, 2, 2, 2}));
  double peak = std::pow(10, c.real(-4, 1));
  for (size_t i = 0; i < n;) {
    size_t len = size_t(hop * (kind == 0 ? 1 + 40 * r.unit() : kind == 1 ? 1 + 3 * r.unit() : 20 + 60 * r.unit())) + size_t(r.unit() * hop);
    double a = r.unit() < 0.5 ? 0.02 * r.unit() : kind == 3 ? 0.1 + 0.25 * r.unit() : r.unit();
    for (size_t k = 0; k < len && i < n; ++k, ++i) v[i] = a * r.sym();
  }
  if (n) v[size_t(r.next() % n)] = 1;  // the peak everything is relative to
  for (auto& x : v) x *= peak;
  static const char* kn[] = {"mixed", "short", "long", "near threshold"};
  c.note_str("signal", std::string(kn[kind]) + " n=" + std::to_string(n) + " peak=" + std::to_string(peak));
  return v;
}
template <bool big> static void Speech(Case& c) {
  size_t sr = big ? 1000 : c.of<size_t>({8000, 16000, 48000, 11025, 4000, 1000}), P = c.chance(60) ? 20 : size_t(c.size(3, 40));
  V::AnalysisWindow w(sr, 0.25);
  size_t hop = size_t(w.size * w.overlap), first = P / 2 - 1;
  size_t frames = c.chance(20) ? size_t(std::max<int64_t>(1, int64_t(first + P) + c.range(-2, 2))) : first + P + size_t(c.range(0, int64_t(6 * P)));
  size_t n = w.size + (frames - 1) * hop + 1 + size_t(c.range(0, int64_t(hop) - 1));
  if (big) { frames = first + P + size_t(c.range(300, 80000)); n = w.size + (frames - 1) * hop + 1 + size_t(c.range(0, int64_t(hop) - 1)); }
  else c.require(n < 400000);
  c.note("rate", sr); c.note("patch frames", P); c.note("frames", frames);
  Vec x = Talk(c, n, hop);
  V::AMatrix<double> sp(3, frames);
  auto sig = Sig(x, sr);
  auto r = V::VadPatchCreator(P).CreateRefPatchIndices(sp, sig, w);
  if (frames < first + P) { if (r.ok()) c.fail("%zu frames gave patches at %s", frames, Str(*r).c_str()); c.label("refused"); c.nontrivial(); return; }
  c.check(r.ok(), "%zu frames refused: %s", frames, r.status().ToString().c_str());
  size_t patches = (frames - first) / P;
  double top = -1e300; for (double v : x) top = std::max(top, v);
  auto ideal = PatchActivity(x, top, first * hop, hop, P, patches), early = PatchActivity(x, top, first, hop, P, patches);
  size_t at = 0; bool fits = true, fits_early = true; std::string want;
  for (size_t k = 0; k < patches; ++k) {
    bool in = at < r->size() && (*r)[at] == first + k * P;
    if (in) ++at;
    if (ideal[k] >= 0 && ideal[k] != int(in)) fits = false;
    if (early[k] >= 0 && early[k] != int(in)) fits_early = false;
    if (ideal[k] != 0) want += (ideal[k] < 0 ? "?" : "") + std::to_string(first + k * P) + " ";
    c.label(in ? "patch with activity" : "patch without");
    c.nontrivial(!in);
  }
  c.check(at == r->size(), "patches at %s are not at multiples of %zu frames from %zu", Str(*r).c_str(), P, first);
  if (!fits) {
    if (fits_early) c.known("vad-offset", "patches at %s, with activity: %s", Str(*r).c_str(), want.c_str());
    else c.fail("patches at %s, with activity: %s", Str(*r).c_str(), want.c_str());
  }
  // The level does not matter, only the shape does.
  double g = std::pow(2, double(c.range(-6, 6)));
  Vec y = x; for (auto& v : y) v *= g;
  auto r2 = V::VadPatchCreator(P).CreateRefPatchIndices(sp, Sig(y, sr), w);
  c.check(r2.ok() && *r2 == *r, "scaled by %g the signal has patches at %s instead of %s", g, r2.ok() ? Str(*r2).c_str() : "(refused)", Str(*r).c_str());
}

// The detector by itself.
template <bool big> static void Detector(Case& c) {
  size_t n = size_t(big ? c.range(200, 70000) : c.size(3, 60)), len = size_t(c.size(1, 400)); Rng r(c.seed());
  int kind = int(c.pick({3, 2, 1}));
  V::RmsVad vad; std::vector<int> loud; std::string story;
  for (size_t k = 0; k < n; ++k) {
    double a = kind == 0 ? (r.unit() < 0.35 ? 12000 : 900) : kind == 1 ? 5000 + 40 * r.sym() : 32000 * r.unit();
    std::vector<int16_t> ch(len); double s = 0;
    for (auto& x : ch) { x = int16_t(kind == 1 ? a * (r.unit() < 0.5 ? -1 : 1) : a * r.sym()); s += double(x) * x / len; }
    double want = std::sqrt(s), got = vad.ProcessChunk(ch);
    c.near(got, want, 1e-6, 1e-9, "level of a chunk");
    loud.push_back(std::fabs(want - 5000) < 1e-6 ? -1 : want >= 5000);
    story += loud.back() == 1 ? 'L' : loud.back() ? '?' : 'q';
  }
  c.note("chunks", story);
  auto res = vad.GetVadResults();
  c.check(res.size() == n, "%zu decisions for %zu chunks", res.size(), n);
  for (size_t k = 0; k < n; ++k) {
    c.check(res[k] == 0 || res[k] == 1, "decision %g", res[k]);
    int a = Active(loud, k);
    if (a >= 0) c.check(int(res[k]) == a, "chunk %zu of %s: %g", k, story.c_str(), res[k]);
  }
  c.nontrivial(std::count(res.begin(), res.end(), 0.0) > 0);
}
// And on whole signals.
static void Activity(Case& c) {
  size_t len = size_t(c.size(1, 300)), count = size_t(c.size(3, 60)), start = size_t(c.range(0, 200));
  Vec x = Talk(c, start + len * count + size_t(c.range(0, 100)), len);
  double g = c.chance(70) ? 1 / Peak(x) : c.real(0.1, 3) / Peak(x); for (auto& v : x) v *= g;
  c.note("chunk", len); c.note("start", start);
  size_t extra = size_t(c.range(0, int64_t(len) - 1));
  auto res = V::VadPatchCreator(20).GetVoiceActivity(Sig(x, 8000), start, std::min(x.size() - start, len * count + extra), len);
  c.check(res.size() >= count && res.size() <= count + 1, "%zu decisions for %zu chunks", res.size(), count);
  auto loud = Loud(x, 1, start, len, count);
  for (size_t k = 0; k < count; ++k) { int a = Active(loud, k); if (a >= 0) c.check(int(res[k]) == a, "chunk %zu of %zu: %g", k, count, res[k]); }
  c.nontrivial(std::count(res.begin(), res.end(), 0.0) > 0);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C20";
  p.rule = "audio: spectrograms of 0 to 6 patches, concentrated at the limits, and up to 140000 frames; images: any column selections; speech: signals of loud, middling and quiet stretches at several rates, non-trivial when a patch is left out or the reference refused; detector and activity: chunk sequences around the threshold, non-trivial when a chunk lacks activity";
  p.assumptions = {"chunks within 1.5 units of the threshold of 5000 may be decided either way", "levels are relative to the highest positive sample; references without one are not generated"};
  p.facets = {{"audio", Audio<false>, 800000, 20000000, 1}, {"images", Images, 400000, 20000000, 1}, {"speech", Speech<false>, 40000, 1500000, 3}, {"detector", Detector<false>, 800000, 20000000, 1}, {"long audio", Audio<true>, 200, 5000, 1, false}, {"long speech", Speech<true>, 60, 3000, 1, false}, {"long detector", Detector<true>, 60, 3000, 1, false}, {"activity", Activity, 400000, 10000000, 1}};
  return pbt::Main(p, argc, argv);
}
