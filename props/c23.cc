// C23: the public interface validates its configuration and applies its defaults.
#include <filesystem>
#include <unistd.h>

#include "lib/pipeline.h"
#include "src/proto/visqol_config.pb.h"
#include "visqol_api.h"
using namespace vt;
namespace V = Visqol;

struct Config {
  V::VisqolConfig msg;
  bool valid = true;       // whether it should be accepted
  bool bad_model = false;  // refused for its model, not for its values
  Mode m; std::string model; int rate = 0; std::string what;
};
// A configuration, field by field set or not, and what it means.
static Config AnyConfig(Case& c, bool model_in_cwd, int force_rate = 0) {
  Config g; std::ostringstream s;
  bool audio = !c.chance(6), options = !c.chance(12);
  if (audio) {
    auto* a = g.msg.mutable_audio();
    g.rate = force_rate && c.chance(85) ? force_rate : c.of<int>({48000, 48000, 8000, 16000, 44100, 0, 1, 48001, 47999, 11025, 96000, 24000, 192000, 48000 + 65536});
    if (g.rate || c.chance(50)) a->set_sample_rate(g.rate);
    s << "rate=" << g.rate;
  } else s << "no audio";
  bool override_rate = false; std::string model;
  Mode& m = g.m; m.lattice = true;  // without options
  if (options) {
    auto* o = g.msg.mutable_options();
    m.lattice = false;
    if (c.chance(50)) { m.speech = !c.chance(20); o->set_use_speech_scoring(m.speech); }
    if (c.chance(40)) { m.unscaled = !c.chance(20); o->set_use_unscaled_speech_mos_mapping(m.unscaled); }
    if (c.chance(60)) { override_rate = !c.chance(20); o->set_allow_unsupported_sample_rates(override_rate); }
    if (c.chance(50)) { m.lattice = !c.chance(20); o->set_use_lattice_model(m.lattice); }
    if (c.chance(50)) { int w = c.chance(15) ? 0 : c.chance(12) ? c.of<int>({255, 256, 257, 258, 1000, 32768, 65537, INT32_MAX}) : int(c.range(1, 8)); o->set_search_window_radius(w); if (w) m.window = w; }
    if (c.chance(30)) o->set_output_mos_score(c.chance(50));
    if (c.chance(30)) o->set_detect_voice_activity(c.chance(50));
    if (c.chance(60)) { model = c.chance(12) ? pbt::ScratchDir() + "/no-such-model" : m.speech ? LatticeModel() : SvrModel(); o->set_svr_model_path(model); }
    s << " " << m.str() << (override_rate ? " any rate" : "") << " model=" << (model.empty() ? "default" : model.find("no-such") == std::string::npos ? "given" : "missing");
  } else s << " no options";
  g.valid = audio && g.rate > 0 && (g.rate == 48000 || m.speech || override_rate);
  bool needs = !m.speech || m.lattice;  // the exponential mapping has no model
  bool there = model.empty() ? model_in_cwd : model.find("no-such") == std::string::npos;
  if (g.valid && needs && !there) { g.valid = false; g.bad_model = true; }
  if (model.empty()) model = m.speech ? LatticeModel() : SvrModel();
  g.model = model; if (!m.speech) m.lattice = false, m.unscaled = false; if (m.lattice) m.unscaled = false;
  g.what = s.str();
  return g;
}
static void Enter(bool with_model) {
  std::string d = pbt::ScratchDir() + (with_model ? "/with" : "/without");
  std::filesystem::create_directories(d);
  std::string link = d + "/model";
  if (with_model && !std::filesystem::exists(std::filesystem::symlink_status(link))) std::filesystem::create_directory_symlink(RepoDir() + "/model", link);
  if (chdir(d.c_str()) != 0) throw pbt::Failure{"cannot enter " + d};
}
struct Come { ~Come() { if (chdir("/") != 0) abort(); } };
static absl::StatusOr<V::SimilarityResultMsg> Measure(Case& c, V::VisqolApi& api, const Vec& x, const Vec& y) {
  Vec a = x, b = y;
  absl::Span<double> sa(a), sb(b);
  auto r = api.Measure(sa, sb);
  c.check(a == x && b == y, "measuring changed the caller's samples");
  return r;
}

static void Creation(Case& c) {
  bool cwd = !c.chance(25); Enter(cwd); Come back;
  Config g = AnyConfig(c, cwd);
  c.note("configuration", g.what);
  V::VisqolApi api; auto st = api.Create(g.msg);
  c.check(st.ok() == g.valid, "%s: %s", g.what.c_str(), st.ok() ? "accepted" : st.ToString().c_str());
  if (!st.ok()) {
    c.check(!st.message().empty(), "refused without a reason");
    if (!g.bad_model) c.check(st.code() == absl::StatusCode::kInvalidArgument, "refused with %s", st.ToString().c_str());
    Vec x = Bursts(*std::make_unique<Rng>(1), 9000, 8000);
    auto r = Measure(c, api, x, x);
    if (r.ok()) c.fail("measured %.6f after a failed creation", r->moslqo());
    c.label(g.bad_model ? "no model" : "invalid");
  } else c.label("created");
  c.nontrivial();
}

static void Honoured(Case& c) {
  bool cwd = !c.chance(10); Enter(cwd); Come back;
  bool far = c.chance(35);
  Config g = AnyConfig(c, cwd, far ? c.of<int>({400, 500, 800}) : c.of<int>({8000, 16000, 4000, 8000, 8000, 48000}));
  c.require(g.valid && g.rate < 50000 && g.rate >= 400);
  c.note("configuration", g.what);
  V::VisqolApi api; auto st = api.Create(g.msg); c.check(st.ok(), "%s: %s", g.what.c_str(), st.ToString().c_str());
  Pair p; size_t sr = size_t(g.rate);
  if (far) { c.require(sr < 2000); p = FarPair(c, g.m.speech, g.m.window > 60 ? int(c.range(2, 9)) : g.m.window, sr); }
  else { p.sr = sr; p.x = AnySignal(c, "ref", SamplesForFrames(size_t(c.range(46, 60)), sr), sr, false).v; p.y = Degrade(c, p.x, sr, &p.how); c.note("degraded", p.how); }
  auto got = Measure(c, api, p.x, p.y);
  auto mg = std::make_unique<V::VisqolManager>();
  c.check(mg->Init(V::FilePath(g.model), g.m.speech, g.m.unscaled, g.m.window, g.m.lattice, false, false).ok(), "initialisation failed");
  auto want = RunPair(*mg, p.x, p.y, p.sr);
  std::string d = Difference(got, want);
  c.check(d.empty(), "%s: the interface and the comparison it stands for: %s", g.what.c_str(), d.c_str());
  if (got.ok()) {
    c.nontrivial(); c.label(g.m.speech ? g.m.lattice ? "lattice" : g.m.unscaled ? "unscaled" : "scaled" : "audio");
    if (far) {  // whether the radius mattered
      auto near = std::make_unique<V::VisqolManager>(); auto wide = std::make_unique<V::VisqolManager>();
      bool k = near->Init(V::FilePath(g.model), g.m.speech, g.m.unscaled, std::max(1, g.m.window - 1), g.m.lattice, false, false).ok() && wide->Init(V::FilePath(g.model), g.m.speech, g.m.unscaled, g.m.window + (g.m.window < INT32_MAX), g.m.lattice, false, false).ok();
      if (k && (!Difference(RunPair(*near, p.x, p.y, p.sr), want).empty() || !Difference(RunPair(*wide, p.x, p.y, p.sr), want).empty())) c.label(g.m.window == 60 ? "decided by the default radius" : "decided by the radius");
    }
  } else c.label("refused");
}

// Creating again: the last successful creation counts, and after a failed one
// the interface measures as before or not at all.
static void Again(Case& c) {
  Enter(true); Come back;
  V::VisqolApi api; bool usable = false; std::string trace; std::unique_ptr<Config> last;
  size_t n = size_t(c.range(2, 4)); Rng r(c.seed()); bool failed_after = false;
  Vec x = SpeechLike(r, SamplesForFrames(48, 8000), 8000), y = AddNoise(x, 15, r); ScaleToPeak(x, 0.5); ScaleToPeak(y, 0.5);
  for (size_t i = 0; i < n; ++i) {
    Config g = AnyConfig(c, true, c.of<int>({8000, 4000, 16000}));
    auto st = api.Create(g.msg); trace += " [" + g.what + (g.valid ? "]" : "] refused"); c.note_str("creations", trace);
    c.check(st.ok() == g.valid, "after%s: %s", trace.c_str(), st.ok() ? "accepted" : st.ToString().c_str());
    if (g.valid) { last = std::make_unique<Config>(g); usable = true; }
    if (!g.valid && usable) failed_after = true;
    if (usable && (last->rate > 16000 || last->rate < 1000)) continue;
    auto got = Measure(c, api, x, y);
    if (!usable) { if (got.ok()) c.fail("measured %.6f before any successful creation", got->moslqo()); continue; }
    if (!g.valid && !got.ok()) { c.label("refused after a failed creation"); continue; }
    V::VisqolManager mg; c.check(mg.Init(V::FilePath(last->model), last->m.speech, last->m.unscaled, last->m.window, last->m.lattice, false, false).ok(), "initialisation failed");
    std::string d = Difference(got, RunPair(mg, x, y, size_t(last->rate)));
    c.check(d.empty(), "after%s: differs from the last configuration accepted: %s", trace.c_str(), d.c_str());
    c.nontrivial(i > 0);
  }
  if (failed_after) c.label("failed after a success");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C23";
  p.rule = "creation: random configurations against the stated rules, with and without the default model; honoured: the interface against a comparison set up with what the configuration means, non-trivial when scored, including pairs decided by the search radius; again: 2 to 4 creations of one interface, non-trivial when it measured after the second";
  p.assumptions = {"sample rates are not negative, search radii neither"};
  p.facets = {{"creation", Creation, 4000, 200000, 1}, {"honoured", Honoured, 700, 15000, 5}, {"again", Again, 200, 10000, 2}};
  return pbt::Main(p, argc, argv);
}
