// C14: pairs that cannot be scored are refused, never crash or hang.
#include "lib/pipeline.h"
using namespace vt;
namespace V = Visqol;

static size_t Rate(Case& c) {
  size_t k = c.pick({30, 20, 10, 10, 10, 8, 5, 2});
  switch (k) {
    case 0: return 8000;
    case 1: return size_t(c.of<int>({1000, 2000, 4000, 6000, 11025}));
    case 2: return size_t(c.range(100, 1000));
    case 3: return 16000;
    case 4: return size_t(c.range(13, 100));
    case 5: return size_t(c.of<int>({22050, 44100, 48000}));
    case 6: return size_t(c.of<int>({0, 1, 2, 5, 12, 13, 19, 44, 49, 50, 51}));
    default: return size_t(c.of<long long>({2147483647ll, 4294967295ll, 1000000, (long long)18446744071562067968ull}));
  }
}
static size_t Length(Case& c, size_t sr, size_t cap) {
  double w = std::min(1e6, std::round(sr * 0.08)), hop = std::max(1.0, std::floor(w * 0.25));
  double n = 0;
  switch (c.pick({4, 3, 4, 4, 3, 3, 6})) {
    case 0: n = double(c.range(0, 40)); break;
    case 1: n = double(c.size(0, 4000)); break;
    case 2: n = w + double(c.range(-3, 3)); break;                                         // around one window
    case 3: n = w + hop * double(c.of<int>({27, 28, 29, 43, 44, 45})) + double(c.range(-2, 2)); break;  // around one patch
    case 4: n = w + hop * double(c.range(0, 60)); break;
    case 5: n = double(c.range(0, 20)) / 10 * w; break;
    case 6: n = w + hop * double(c.range(40, 110)) + double(c.range(0, 200)); break;
  }
  // At very low rates few samples are many frames, and the search is quadratic.
  return size_t(std::max(0.0, std::min({double(cap), n, w + 250 * hop})));
}

static void OneResult(Case& c, const absl::StatusOr<V::SimilarityResultMsg>& r, size_t sr) {
  if (!r.ok()) { c.check(!r.status().message().empty(), "an error without a message"); c.label(absl::StatusCodeToString(r.status().code())); return; }
  c.label("scored");
  c.check(r->patch_sims_size() > 0 && r->fvnsim_size() > 0, "a result without patches or bands");
  // Below twice the lowest band there is nothing to analyse.
  if (sr >= 120) c.check(std::isfinite(r->moslqo()) && r->moslqo() >= 1 && r->moslqo() <= 5, "score %g", r->moslqo());
}
static bool MustRefuse(const Mode& m, size_t nr, size_t nd, size_t sr) {
  double w = std::round(sr * 0.08), hop = std::floor(w * 0.25);
  if (!nr || !nd || hop < 1 || nr <= w) return true;
  if (m.no_global && nd <= w) return true;
  size_t frames = 1 + size_t((nr - w) / hop);
  return frames < (m.speech ? 29u : 45u);
}
static Vec Content(Case& c, const char* name, size_t n, size_t sr) { return AnySignal(c, name, n, std::min<size_t>(std::max<size_t>(sr, 1), 1000000)).v; }

// The signal in every channel, at different levels.
static V::AudioSignal Channels(const Vec& x, size_t sr, size_t n) {
  if (n == 1) return Sig(x, sr);
  V::AudioSignal s; s.sample_rate = sr; s.data_matrix = V::AMatrix<double>(x.size(), n);
  for (size_t k = 0; k < n; ++k) for (size_t i = 0; i < x.size(); ++i) s.data_matrix(i, k) = x[i] * (k % 3 == 2 ? -0.2 : 1.0 / double(1 + k));
  return s;
}

static void Any(Case& c) {
  Mode m = AnyMode(c);
  m.window = c.of<int>({60, 60, 1, 2, 0, -1, 7, 100000});
  size_t sr = Rate(c), sr2 = c.chance(12) ? Rate(c) : sr;
  size_t cap = 40000;
  size_t nr = Length(c, sr, cap), nd = c.chance(40) ? nr : Length(c, sr, cap);
  c.note("window radius", m.window); c.note("rates", std::to_string(sr) + "/" + std::to_string(sr2)); c.note("samples", std::to_string(nr) + "/" + std::to_string(nd));
  Vec x = Content(c, "ref", nr, sr);
  std::string how = "independent"; Vec y;
  if (c.chance(50)) { y = Degrade(c, x, std::max<size_t>(1, std::min<size_t>(sr, 100000)), &how); nd = y.size(); } else y = Content(c, "deg", nd, sr);
  c.note("deg", how + " n=" + std::to_string(nd));
  // Samples that are no samples: anything but a crash will do.
  bool odd = c.chance(4);
  if (odd) {
    double v = c.of<double>({NAN, INFINITY, -INFINITY, 1e300, -1e160, 1e39, 1e-300});
    Vec& t = c.chance(50) ? x : y; bool all = c.chance(30), both = c.chance(20);
    if (!t.empty()) { if (all) for (double& q : t) q *= v; else t[c.draw(t.size() - 1)] = v; }
    if (both) (&t == &x ? y : x) = t;
    c.note("odd sample", v); c.label("odd samples");
  }
  size_t cr = c.chance(12) ? size_t(c.range(2, 8)) : 1, cd = c.chance(12) ? size_t(c.range(2, 8)) : 1;
  if (cr + cd > 2) { c.note("channels", std::to_string(cr) + "/" + std::to_string(cd)); c.label("several channels"); }
  auto mg = MakeManager(m);
  V::AudioSignal r = Channels(x, sr, cr), d = Channels(y, sr2, cd);
  auto res = mg->Run(r, d);
  if (!odd) OneResult(c, res, sr);
  bool refuse = sr != sr2 || MustRefuse(m, nr, nd, sr);
  if (refuse) { c.label("must refuse"); if (res.ok()) c.fail("scored %.4f though the pair cannot be compared", res->moslqo()); }
  c.nontrivial(refuse || odd || cr + cd > 2 || nr != nd || Rms(y) == 0 || Rms(x) == 0 || m.window < 2 || sr < 4000);
  // The instance is as good as new.
  if (!res.ok() && m.window > 0 && c.chance(50)) {
    static Vec gr, gd;
    if (gr.empty()) { Rng q(5); gr = SpeechLike(q, 10000, 8000); ScaleToPeak(gr, 0.5); gd = AddNoise(gr, 12, q); }
    auto again = RunPair(*mg, gr, gd, 8000);
    auto fresh = MakeManager(m); auto want = RunPair(*fresh, gr, gd, 8000);
    c.check(again.ok() == want.ok(), "a good pair after a refused one: %s; alone: %s", again.status().ToString().c_str(), want.status().ToString().c_str());
    if (want.ok()) { c.check(again->SerializeAsString() == want->SerializeAsString(), "a refused pair changed the next result: %.9g, alone %.9g", again->moslqo(), want->moslqo()); c.label("used after a refusal"); }
  }
}

// An instance that was not, or not successfully, initialised.
static void Uninitialised(Case& c) {
  V::VisqolManager v;
  Rng q(c.seed());
  Vec x = SpeechLike(q, 8000, 8000); ScaleToPeak(x, 0.5);
  int steps = int(c.range(0, 4)); bool ready = false;
  std::string story;
  for (int i = 0; i < steps; ++i) {
    bool speech = c.chance(50), lattice = c.chance(40), good = c.chance(50);
    std::string model = good ? (speech ? LatticeModel() : SvrModel()) : pbt::ScratchDir() + "/no-such-model";
    auto st = v.Init(V::FilePath(model), speech, false, 60, lattice, false, false);
    // Only the exponential speech mapping needs no model file.
    bool want = good || (speech && !lattice);
    c.check(st.ok() == want, "initialising with %s model: %s", good ? "a" : "a missing", st.ToString().c_str());
    ready = want;
    story += want ? "ok," : "failed,";
    if (c.chance(50)) { auto r = RunPair(v, x, x, 8000); c.check(r.ok() == ready, "after initialisations %s a comparison says %s", story.c_str(), r.status().ToString().c_str()); }
  }
  c.note("initialisations", story);
  auto r = RunPair(v, x, x, 8000);
  c.check(r.ok() == ready, "after initialisations %s a comparison says %s", story.c_str(), r.status().ToString().c_str());
  auto f = v.Run(V::FilePath(pbt::ScratchDir() + "/none.wav"), V::FilePath(pbt::ScratchDir() + "/none.wav"));
  c.check(!f.ok(), "missing files were compared");
  c.nontrivial(steps > 0);
  c.label(ready ? "ready" : "not ready");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C14";
  p.rule = "any: pairs of synthetic signals of 0 to 40000 samples at sample rates from 0 to 2^64, in every mode and search window, lengths concentrated around one window and one patch, some of 2 to 8 channels, some with infinite, undefined or extreme samples (for which only a crash is a failure); non-trivial when the pair must be refused, is silent, differs in length, has a low rate or an extreme search window. uninitialised: histories of successful and failed initialisations";
  p.assumptions = {"a degraded signal shorter than a window is only required to be refused when global alignment is off, as alignment may put silence in front of it"};
  p.facets = {{"any", Any, 500, 20000, 4}, {"uninitialised", Uninitialised, 60, 2000, 1}};
  return pbt::Main(p, argc, argv);
}
