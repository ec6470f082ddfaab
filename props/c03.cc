// C03: a signal compared with itself is perfectly similar; nothing beats that.
#include "lib/pipeline.h"
using namespace vt;
namespace V = Visqol;

static void Self(Case& c) {
  Mode m = AnyMode(c);
  size_t sr = c.of<size_t>({8000, 8000, 8000, 4000, 16000, 11025});
  GenSignal g = AnySignal(c, "ref", SamplesForFrames(size_t(c.range(46, 120)), sr) + size_t(c.range(0, 150)), sr);
  c.note("rate", sr);
  auto r = RunPair(CachedManager(m), g.v, g.v, sr);
  if (!r.ok()) { c.label("refused"); return; }
  bool silent = Rms(g.v) == 0;
  c.label(g.kind); c.nontrivial(!silent);
  c.near(r->vnsim(), 1, 1e-9, 0, "overall similarity to itself");
  for (int b = 0; b < r->fvnsim_size(); ++b) {
    c.near(r->fvnsim(b), 1, 1e-9, 0, "similarity of a band to itself");
    c.near(r->fvnsim10(b), 1, 1e-9, 0, "worst-decile similarity of a band to itself");
    c.near(r->fstdnsim(b), 0, 1e-5, 0, "deviation of a band from itself");
  }
  if (!silent) c.check(r->alignment_lag_s() == 0, "a lag of %g s to itself", r->alignment_lag_s());
  // Where every patch is one of a kind, it is matched to itself.
  bool unique = (g.kind == "bursts" || g.kind == "noise") && Peak(g.v) > 0.1;
  for (auto& q : r->patch_sims()) {
    c.near(q.similarity(), 1, 1e-9, 0, "similarity of a patch to itself");
    for (double v : q.freq_band_means()) c.near(v, 1, 1e-9, 0, "similarity of a patch's band to itself");
    if (unique) { c.near(q.deg_patch_start_time(), q.ref_patch_start_time(), 1e-9, 0, "start of a patch matched to itself"); c.near(q.deg_patch_end_time(), q.ref_patch_end_time(), 1e-9, 0, "end of a patch matched to itself"); }
  }
  if (m.speech && !m.lattice) { if (m.unscaled) c.check(r->moslqo() > 3.9 && r->moslqo() < 4.3, "score %g for itself", r->moslqo()); else c.near(r->moslqo(), 5, 2e-3, 0, "score for itself"); }
}

// Nothing is more similar to the reference than itself.
static void Versus(Case& c) {
  Mode m = AnyMode(c);
  Pair p = AnyPair(c);
  auto& mg = CachedManager(m);
  auto self = RunPair(mg, p.x, p.x, p.sr), other = RunPair(mg, p.x, p.y, p.sr);
  if (!self.ok() || !other.ok()) { c.label("refused"); return; }
  c.check(other->vnsim() <= self->vnsim() + 1e-9, "degraded (%s) it is %.12g similar, itself %.12g", p.how.c_str(), other->vnsim(), self->vnsim());
  for (int b = 0; b < other->fvnsim_size(); ++b) c.check(other->fvnsim(b) <= self->fvnsim(b) + 1e-9 && other->fvnsim10(b) <= self->fvnsim10(b) + 1e-9, "band %d is %.12g similar degraded, %.12g itself", b, other->fvnsim(b), self->fvnsim(b));
  if (m.speech && !m.lattice) c.check(other->moslqo() <= self->moslqo() + 1e-9, "degraded it scores %.12g, itself %.12g", other->moslqo(), self->moslqo());
  // A clearly different signal is clearly less similar.
  if (p.how.compare(0, 11, "noise snr=-") == 0 && Rms(p.x) > 1e-3) { c.check(other->vnsim() < 1 - 1e-4, "buried in noise it is still %.9g similar", other->vnsim()); c.label("buried in noise"); }
  c.nontrivial(p.how != "identical");
  c.label(m.speech ? "speech" : "audio");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C03";
  p.rule = "self: 10 kinds of references in random modes against copies, non-trivial when scored and not silent; versus: references against degraded versions, non-trivial when scored and not identical";
  p.assumptions = {"the same times are only required where no two patches can look alike (noise and noise bursts well above the noise floor)"};
  p.facets = {{"self", Self, 900, 50000, 1}, {"versus", Versus, 700, 30000, 1}};
  return pbt::Main(p, argc, argv);
}
