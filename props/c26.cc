// C26: the Python binding measures what the C++ library measures.
#include <pybind11/pybind11.h>

#include "commandline_parser.h"
#include "conformance.h"
#include "lib/pipeline.h"
#include "lib/wav.h"
#include "src/proto/visqol_config.pb.h"
#include "visqol_api.h"
using namespace vt;
namespace V = Visqol;
namespace P = pybind11;
typedef absl::StatusOr<V::SimilarityResultMsg> Result;

static P::module_::Contents& Module() {
  static P::module_ m = [] {
    auto it = P::Modules().find("visqol_lib_py");
    if (it == P::Modules().end()) throw pbt::Failure{"there is no module visqol_lib_py"};
    P::module_ x; it->second(x); return x;
  }();
  return *m.in;
}
static const P::Scope& Class(const char* n) {
  auto it = Module().classes.find(n);
  if (it == Module().classes.end()) throw pbt::Failure{std::string("there is no class ") + n};
  return it->second;
}
static P::Value New(const char* cls, std::vector<P::Value> args = {}) {
  try { return P::Call(Class(cls), "__init__", args); } catch (const P::TypeError& e) { throw pbt::Failure{std::string(cls) + ": " + e.what()}; }
}
// What a call gives, an exception being the error that raised it.
static absl::StatusOr<P::Value> Do(const char* cls, const char* method, std::vector<P::Value> args) {
  try { return P::Call(Class(cls), method, args); }
  catch (const P::Raised& r) { return r.status; }
  catch (const P::TypeError& e) { throw pbt::Failure{std::string(cls) + "." + e.what()}; }
}
static Result AsResult(const absl::StatusOr<P::Value>& v, const char* what) {
  if (!v.ok()) return v.status();
  auto* m = v->kind == P::Value::kMessage ? dynamic_cast<V::SimilarityResultMsg*>(v->message.get()) : nullptr;
  if (!m) throw pbt::Failure{std::string(what) + " does not return a SimilarityResultMsg"};
  return *m;
}
static void Same(Case& c, const absl::Status& py, const absl::Status& cc, const char* what) {
  c.check(py.ok() == cc.ok(), "%s in Python: %s; in C++: %s", what, py.ToString().c_str(), cc.ToString().c_str());
  c.check(py.code() == cc.code(), "%s raises %s in Python where C++ returns %s", what, py.ToString().c_str(), cc.ToString().c_str());
}
static Pair AnyDelayed(Case& c, bool speech, int radius) {
  if (c.chance(35)) return FarPair(c, speech, radius < 1 || radius > 8 ? 2 : radius);
  Pair p = AnyPair(c, true, 70);
  if (c.chance(35)) { Rng r(c.seed()); Vec lead = Bursts(r, size_t(c.range(1, int64_t(p.sr))), p.sr); for (auto& v : lead) v *= 0.01; lead.insert(lead.end(), p.y.begin(), p.y.end()); p.y = lead; p.how += " after " + std::to_string(lead.size() - p.x.size()) + " samples"; }
  return p;
}

// Managers of both kinds, side by side through one history.
static void Managers(Case& c) {
  auto py = New("VisqolManager"); V::VisqolManager cc;
  int scored = 0, refused = 0; std::string trace;
  if (c.chance(8)) {
    std::string f = pbt::ScratchDir() + "/early.wav"; Rng r(1); WriteFile(f, WavBytes(ToPcm(Bursts(r, 9000, 8000)), 1, 8000));
    Same(c, Do("VisqolManager", "Run", {py, New("FilePath", {P::Str(f)}), New("FilePath", {P::Str(f)})}).status(), cc.Run(V::FilePath(f), V::FilePath(f)).status(), "Run before Init");
    trace += " run";
  }
  size_t rounds = size_t(c.range(1, 2));
  for (size_t k = 0; k < rounds; ++k) {
    bool speech = c.chance(60), unscaled = c.chance(40), lattice = c.chance(30), no_global = c.chance(40), no_realign = c.chance(40);
    int radius = c.chance(75) ? int(c.range(1, 8)) : c.of<int>({60, 0, 2});
    std::string model = c.chance(92) ? (lattice && speech ? LatticeModel() : SvrModel()) : pbt::ScratchDir() + "/missing";
    std::ostringstream t; t << " init(" << speech << unscaled << "," << radius << "," << lattice << no_global << no_realign << (model.find("missing") != std::string::npos ? " missing model" : "") << ")"; trace += t.str();
    c.note_str("history", trace);
    auto a = Do("VisqolManager", "Init", {py, New("FilePath", {P::Str(model)}), P::Bool(speech), P::Bool(unscaled), P::Int(radius), P::Bool(lattice), P::Bool(no_global), P::Bool(no_realign)});
    auto b = cc.Init(V::FilePath(model), speech, unscaled, radius, lattice, no_global, no_realign);
    Same(c, a.status(), b, "Init");
    c.check(!a.ok() || a->kind == P::Value::kNone, "Init returns something");
    size_t runs = size_t(c.range(1, 2));
    for (size_t q = 0; q < runs; ++q) {
      std::string id = std::to_string(k) + std::to_string(q), fr = pbt::ScratchDir() + "/r" + id + ".wav", fd = pbt::ScratchDir() + "/d" + id + ".wav";
      Pair p = AnyDelayed(c, speech, radius);
      size_t odd = c.pick({14, 1, 1, 1});
      WriteFile(fr, WavBytes(ToPcm(p.x), 1, uint32_t(p.sr)));
      WriteFile(fd, odd == 1 ? std::string("RIFF") : WavBytes(ToPcm(p.y), 1, uint32_t(odd == 2 ? p.sr * 2 : p.sr)));
      if (odd == 3) fd += ".none";
      trace += odd == 1 ? " run(not audio)" : odd == 2 ? " run(two rates)" : odd == 3 ? " run(missing)" : " run(" + p.how + "@" + std::to_string(p.sr) + ")";
      c.note_str("history", trace);
      auto x = AsResult(Do("VisqolManager", "Run", {py, New("FilePath", {P::Str(fr)}), New("FilePath", {P::Str(fd)})}), "Run");
      auto y = cc.Run(V::FilePath(fr), V::FilePath(fd));
      std::string diff = Difference(x, y);
      c.check(diff.empty(), "Run of %s: in Python and in C++: %s", trace.c_str(), diff.c_str());
      if (y.ok()) { ++scored; c.label(speech ? lattice ? "lattice" : unscaled ? "unscaled" : "speech" : "audio"); } else ++refused;
    }
  }
  if (refused) c.label("raised");
  c.nontrivial(scored > 0);
}

// The interface for samples in memory.
static void Api(Case& c) {
  bool speech = c.chance(60), lattice = speech && c.chance(30);
  int radius = c.chance(70) ? int(c.range(1, 8)) : 60;
  Pair p = AnyDelayed(c, speech, radius);
  V::VisqolConfig cfg;
  if (!c.chance(4)) cfg.mutable_audio()->set_sample_rate(c.chance(94) ? int(p.sr) : 0);
  auto* o = cfg.mutable_options();
  if (!c.chance(5)) o->set_svr_model_path(c.chance(94) ? lattice ? LatticeModel() : SvrModel() : pbt::ScratchDir() + "/missing");
  o->set_use_speech_scoring(speech); o->set_use_unscaled_speech_mos_mapping(c.chance(40)); o->set_use_lattice_model(lattice);
  o->set_allow_unsupported_sample_rates(c.chance(95)); if (c.chance(85)) o->set_search_window_radius(radius);
  c.note_str("configuration", cfg.ShortDebugString()); c.note("pair", p.how + " at " + std::to_string(p.sr));
  auto py = New("VisqolApi"); V::VisqolApi cc;
  auto a = Do("VisqolApi", "Create", {py, P::Message(cfg)});
  auto b = cc.Create(cfg);
  Same(c, a.status(), b, "Create");
  if (!b.ok()) { c.label("refused configuration"); return; }
  int scored = 0;
  for (int k = 0, n = int(c.range(1, 2)); k < n; ++k) {
    Vec x = p.x, y = p.y;
    if (k && c.chance(50)) std::swap(x, y);
    if (c.chance(5)) y.clear();
    auto ax = P::Array(x), ay = P::Array(y);
    auto r = AsResult(Do("VisqolApi", "Measure", {py, ax, ay}), "Measure");
    c.check(*ax.array == x && *ay.array == y, "Measure changed the caller's arrays");
    auto w = cc.Measure(absl::Span<double>(x), absl::Span<double>(y));
    std::string diff = Difference(r, w);
    c.check(diff.empty(), "Measure in Python and in C++: %s", diff.c_str());
    scored += w.ok();
  }
  c.label(scored ? "scored" : "raised"); c.nontrivial(scored > 0);
}

// What the module itself says, and paths as Python hands them over.
static void Names(Case& c) {
  auto& m = Module();
  auto call = [&](const char* n) { try { return P::Call(m.functions, n, {}); } catch (const P::TypeError& e) { throw pbt::Failure{e.what()}; } };
  auto v = call("ConformanceSpeechCA01TranscodedValue");
  c.check(v.kind == P::Value::kFloat && v.f == kConformanceSpeechCA01TranscodedLattice, "ConformanceSpeechCA01TranscodedValue() is %.17g", v.f);
  c.check(call("DefaultSpeechModelFile").s == V::kDefaultSpeechModelFile, "DefaultSpeechModelFile() is %s", call("DefaultSpeechModelFile").s.c_str());
  c.check(call("DefaultAudioModelFile").s == V::kDefaultAudioModelFile, "DefaultAudioModelFile() is %s", call("DefaultAudioModelFile").s.c_str());
  c.check(m.doc.find("ViSQOL") != std::string::npos, "the module's documentation is %s", m.doc.c_str());
  std::string s; size_t n = size_t(c.size(0, 300));
  static const std::vector<std::string> parts = {"a", "b", "Z", "/", ".", "..", " ", "\xc3\xa9", "0", "-", "_", ".wav", ",", "\""};
  while (s.size() < n) s += c.of(parts);
  c.note_str("path", s);
  auto p = New("FilePath", {P::Str(s)});
  auto* f = static_cast<V::FilePath*>(p.object.get());
  c.check(f->Path() == V::FilePath(s).Path() && f->Path() == s, "the path became %s", f->Path().c_str());
  c.nontrivial(n > 0);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C26";
  p.rule = "managers: one or two initialisations of a manager, any combination of settings, and one or two comparisons after each, through the binding and in C++, non-trivial when a pair was scored; api: a configuration and one or two comparisons of arrays, likewise; names: the module's functions and a file path of the case's, non-trivial when it is not empty";
  p.assumptions = {"a stand-in for pybind11 calls the binding's definitions as Python would: argument conversion, overloads, keywords, errors raised for absl statuses; numpy arrays arrive as spans of doubles", "the C++ interface, with the same history, is the reference"};
  p.facets = {{"managers", Managers, 700, 30000, 3, false}, {"api", Api, 500, 20000, 2, false}, {"names", Names, 300, 5000, 0.2, false}};
  return pbt::Main(p, argc, argv);
}
