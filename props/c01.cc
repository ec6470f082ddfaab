// C01: the score is always a finite MOS in [1,5], with the documented extremes.
#include "lib/pipeline.h"
#include "similarity_to_quality_mapper.h"
#include "speech_similarity_to_quality_mapper.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"

using namespace vt;

static void CheckMos(Case& c, double m, const char* what) {
  c.check(std::isfinite(m), "%s: the score is %g", what, m);
  c.check(m >= 1.0 && m <= 5.0, "%s: the score %.17g is outside [1,5]", what, m);
}

static void Pipeline(Case& c) {
  Mode m = AnyMode(c);
  size_t sr = c.of<size_t>({8000, 16000, 11025});
  c.note("rate", sr);
  size_t frames = c.range(m.speech ? 30 : 46, 80);
  GenSignal g = AnySignal(c, "ref", SamplesForFrames(frames, sr), sr);
  std::string d;
  Vec deg = Degrade(c, g.v, sr, &d);
  c.note("deg", d);
  auto v = MakeManager(m);
  auto r = RunPair(*v, g.v, deg, sr);
  if (!r.ok()) { c.label("rejected"); return; }
  c.label(m.speech ? (m.lattice ? "speech lattice" : "speech exponential") : "audio");
  c.nontrivial(d != "identical");
  CheckMos(c, r->moslqo(), "pipeline");
  c.note("score", r->moslqo()); c.note("vnsim", r->vnsim());
  if (r->vnsim() < 0.15) {
    c.label("dissimilar");
    c.check(r->moslqo() == 1.0, "similarity %.6g is below 0.15 but the score is %.6g, not 1", r->vnsim(), r->moslqo());
  }
  if (m.speech && !m.lattice && r->vnsim() > 1 - 1e-9) {
    c.label("perfect");
    if (m.unscaled) c.check(r->moslqo() > 3.9 && r->moslqo() < 4.3, "unscaled speech maps perfect similarity to %.6g, not about 4", r->moslqo());
    else c.near(r->moslqo(), 5.0, 2e-3, 0, "scaled speech at perfect similarity");
  }
}

static Vec Features(Case& c, Rng& r, size_t n, double lo, double hi) {
  Vec v(n);
  switch (c.pick({3, 2, 2, 1, 1})) {
    case 0: for (auto& x : v) x = lo + (hi - lo) * r.unit(); break;
    case 1: { double m = lo + (hi - lo) * r.unit(); for (auto& x : v) x = std::min(hi, std::max(lo, m + 0.05 * r.gauss())); break; }
    case 2: for (auto& x : v) x = r.unit() < 0.5 ? lo : hi; break;
    case 3: for (auto& x : v) x = hi; break;
    case 4: for (auto& x : v) x = lo; break;
  }
  return v;
}

static void Exponential(Case& c) {
  bool scale = !c.chance(50);
  Visqol::SpeechSimilarityToQualityMapper m(scale);
  c.check(m.Init().ok(), "init failed");
  Rng r(c.seed());
  size_t n = c.range(1, 40);
  bool wide = c.chance(20);
  Vec a = Features(c, r, n, wide ? -2 : -1, wide ? 2 : 1), z(n, 0.0);
  c.note("scaled", scale); c.note("fvnsim", a);
  double pa = m.PredictQuality(a, z, z, z);
  CheckMos(c, pa, "exponential mapping");
  // Raising any band never lowers the score.
  Vec b = a;
  for (auto& x : b) if (r.unit() < 0.5) x += r.unit() * (1.2 - x) * (x < 1.2);
  double pb = m.PredictQuality(b, z, z, z);
  CheckMos(c, pb, "exponential mapping");
  c.check(pb >= pa - 1e-9, "raising similarity lowered the score: %.12g -> %.12g", pa, pb);
  c.nontrivial(pa > 1 && pa < 5);
  if (pa > 1 && pa < 5) c.label("interior");
  // Only the mean matters, and clearly higher means score clearly higher.
  double ma = 0, mb = 0; for (double x : a) ma += x / n; for (double x : b) mb += x / n;
  if (mb > ma + 0.01 && pa > 1 && pb < 5) c.check(pb > pa, "score flat at %.12g although mean similarity rose %.4g -> %.4g", pa, ma, mb);
  // Nor does raising all of them a little, step by step over a stretch of any width.
  double from = -0.2 + 1.2 * r.unit(), width = std::pow(10, -4 * r.unit()), before = -1;
  for (int i = 0; i < 40; ++i) {
    double s = std::min(1.0, from + width * i / 40), q = m.PredictQuality(Vec(n, s), z, z, z);
    c.check(q >= before - 1e-9, "raising similarity to %.12g lowered the score: %.12g -> %.12g", s, before, q);
    before = q;
  }
  Vec one(n, 1.0);
  double p1 = m.PredictQuality(one, z, z, z);
  if (scale) c.near(p1, 5.0, 2e-3, 0, "scaled mapping of similarity 1");
  else c.check(p1 > 3.9 && p1 < 4.3, "unscaled mapping of similarity 1 is %.6g", p1);
  // The scaled mapping is the unscaled one stretched so that perfect similarity, and no less, reaches 5.
  Visqol::SpeechSimilarityToQualityMapper m2(!scale);
  c.check(m2.Init().ok(), "init failed");
  for (double s : {ma, mb, from, 1.0 - width}) {
    double q = m.PredictQuality(Vec(n, s), z, z, z), q2 = m2.PredictQuality(Vec(n, s), z, z, z), p2 = m2.PredictQuality(one, z, z, z);
    double sc = scale ? q : q2, un = scale ? q2 : q, top = scale ? p2 : p1;
    if (un > 1 + 1e-9) c.near(sc, std::min(5.0, un * 5 / top), 5e-3, 0, "scaled score against the unscaled one");
  }
}

static void Svr(Case& c) {
  size_t which = c.pick({4, 1, 1, 1});
  std::string path = which == 0 ? SvrModel() : which == 1 ? RepoDir() + "/model/tcdaudio14_aacvopus_coresv_svrnsim_n.68_g.01_c1.model"
                     : which == 2 ? RepoDir() + "/model/tcdaudio_aacvopus_coresv_grid_nu0.3_c126.237786175_g0.204475514639.model"
                                  : RepoDir() + "/model/tcdvoip_nu.568_c5.31474325639_g3.17773760038_model.txt";
  Visqol::SvrSimilarityToQualityMapper m{Visqol::FilePath(path)};
  c.check(m.Init().ok(), "init failed for %s", path.c_str());
  Rng r(c.seed());
  bool wide = c.chance(25);
  size_t n = c.chance(80) ? 32 : c.range(1, 40);
  Vec z(n, 0.0);
  c.note("model", path.substr(path.rfind('/') + 1));
  for (int i = 0; i < 20; ++i) {
    Vec a = Features(c, r, n, wide ? -5 : -1, wide ? 5 : 1);
    double p = m.PredictQuality(a, z, z, z);
    CheckMos(c, p, "support vector mapping");
    if (p > 1 && p < 5) c.label("interior");
    if (i == 0) c.note("fvnsim", a);
  }
  c.nontrivial();
}

static void Lattice(Case& c) {
  static Visqol::TFLiteQualityMapper* m = nullptr;
  if (!m) { m = new Visqol::TFLiteQualityMapper(LatticeModel(), 21); if (!m->Init().ok()) { m = nullptr; c.fail("init failed"); } }
  Rng r(c.seed());
  bool wide = c.chance(25);
  Vec f = Features(c, r, 21, wide ? -3 : 0, wide ? 3 : 1), f10 = Features(c, r, 21, wide ? -3 : 0, wide ? 3 : 1);
  Vec sd = Features(c, r, 21, 0, wide ? 5 : 0.5), en = Features(c, r, 21, 0, wide ? 1e4 : 60);
  c.note("fvnsim", f); c.note("fvnsim10", f10); c.note("fstdnsim", sd); c.note("fvdegenergy", en);
  double p = m->PredictQuality(f, f10, sd, en);
  c.note("score", p);
  CheckMos(c, p, "lattice mapping");
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C01";
  p.rule = "pipeline: a random mode, sample rate, reference (10 kinds, peak 1e-5..1) and degraded version (13 kinds) that the system accepts, non-trivial when the degraded signal differs; mappers: random band vectors, non-trivial when the score is strictly inside (1,5) (exponential) or always (SVR, lattice)";
  p.assumptions = {"pffft and TensorFlow Lite are replaced by the stand-ins under standins/, validated against upstream's conformance tests"};
  p.facets = {{"exponential", Exponential, 40000, 2000000, 1}, {"svr", Svr, 8000, 400000, 2}, {"lattice", Lattice, 8000, 300000, 2}, {"pipeline", Pipeline, 700, 40000, 6}};
  return pbt::Main(p, argc, argv);
}
