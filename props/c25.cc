// C25: heavier degradation of the same kind does not score as more similar.
#include "lib/pipeline.h"
using namespace vt;
namespace V = Visqol;

static Vec LowPass(Vec v, double p) { for (int k = 0; k < 2; ++k) { double z = 0; for (auto& s : v) { z = p * z + (1 - p) * s; s = z; } } return v; }
static Pair Natural(Case& c, bool bursts_only = false) {
  Pair p;
  p.sr = c.of<size_t>({8000, 8000, 16000});
  size_t n = SamplesForFrames(size_t(c.range(60, 120)), p.sr);
  bool speech = !bursts_only && c.chance(50); Rng r(c.seed());
  p.x = speech ? SpeechLike(r, n, p.sr) : Bursts(r, n, p.sr); ScaleToPeak(p.x, c.real(0.1, 1));
  c.note("reference", speech ? "speechlike" : "bursts"); c.note("samples", n); c.note("rate", p.sr);
  return p;
}
static void Heavier(Case& c) {
  Mode m = AnyMode(c, false);
  Pair p = Natural(c);
  Rng r(c.seed());
  Vec a, b; std::string what;
  switch (c.pick({4, 3, 3, 2})) {
    case 0: { double snr = c.real(45, 65); Rng r2 = r; a = AddNoise(p.x, snr, r); b = AddNoise(p.x, snr - 45, r2); what = "noise at " + std::to_string(snr) + " dB and 45 dB louder"; break; }
    case 1: {
      size_t k = size_t(c.range(2, 6)), len = size_t(p.sr * c.real(0.01, 0.05));
      a = b = p.x;
      for (size_t i = 0; i < k; ++i) { size_t at = (i + 1) * p.x.size() / (k + 1); for (size_t j = at; j < std::min(at + len, a.size()); ++j) a[j] = 0; for (size_t j = at; j < std::min(at + 5 * len, a.size()); ++j) b[j] = 0; }
      what = std::to_string(k) + " dropouts of " + std::to_string(len) + " and 5 times as many samples"; break;
    }
    case 2: { double q = c.real(0.05, 0.5), q2 = 1 - (1 - q) / 8; a = LowPass(p.x, q); b = LowPass(p.x, q2); what = "low pass at " + std::to_string(q) + " and " + std::to_string(q2); break; }
    default: { double pk = Peak(p.x), t = c.real(0.3, 0.9); a = b = p.x; for (auto& v : a) v = std::max(-t * pk, std::min(t * pk, v)); for (auto& v : b) v = std::max(-t * pk / 20, std::min(t * pk / 20, v)); what = "clipped at " + std::to_string(t) + " and a twentieth of it"; }
  }
  c.note("degraded by", what);
  auto& mg = CachedManager(m);
  auto ra = RunPair(mg, p.x, a, p.sr), rb = RunPair(mg, p.x, b, p.sr);
  if (!ra.ok() || !rb.ok()) { c.label("refused"); return; }
  c.nontrivial(); c.label(what.substr(0, 4)); c.label(m.speech ? "speech" : "audio");
  c.note("similarities", std::to_string(ra->vnsim()) + " " + std::to_string(rb->vnsim()));
  double tol = 0.03;
  c.check(rb->vnsim() <= ra->vnsim() + tol, "%s: similarity rises from %.6f to %.6f", what.c_str(), ra->vnsim(), rb->vnsim());
  if (m.speech) c.check(rb->moslqo() <= ra->moslqo() + 0.25, "%s: the score rises from %.6f to %.6f", what.c_str(), ra->moslqo(), rb->moslqo());
}
static void Unrelated(Case& c) {
  Mode m = AnyMode(c, false);
  Pair p = Natural(c); Rng r(c.seed());
  // White noise fills the pauses; far below what unrelated material does.
  Vec light = AddNoise(p.x, c.real(60, 80), r);
  Vec other = c.chance(50) ? Bursts(r, p.x.size(), p.sr) : SpeechLike(r, p.x.size(), p.sr); ScaleToPeak(other, Peak(p.x));
  auto& mg = CachedManager(m);
  auto a = RunPair(mg, p.x, light, p.sr), b = RunPair(mg, p.x, other, p.sr);
  if (!a.ok() || !b.ok()) { c.label("refused"); return; }
  c.nontrivial(); c.label(m.speech ? "speech" : "audio");
  c.note("similarities", std::to_string(a->vnsim()) + " " + std::to_string(b->vnsim()));
  c.check(b->vnsim() < a->vnsim(), "unrelated material is %.6f similar, a lightly degraded copy %.6f", b->vnsim(), a->vnsim());
  if (m.speech) c.check(b->moslqo() <= a->moslqo(), "unrelated material scores %.6f, a lightly degraded copy %.6f", b->moslqo(), a->moslqo());
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C25";
  p.rule = "heavier: bursty and speech-like references with two strengths of the same noise, dropouts, low pass or clipping; unrelated: a lightly degraded copy against other material. Non-trivial when both are scored";
  p.assumptions = {"a rise of 0.03 in similarity and of 0.25 in the exponential speech score is tolerated"};
  p.facets = {{"heavier", Heavier, 600, 30000, 2}, {"unrelated", Unrelated, 400, 20000, 1}};
  return pbt::Main(p, argc, argv);
}
