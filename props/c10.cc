// C10: a comparison does not depend on what was compared before.
#include "lib/pipeline.h"
#include "src/proto/visqol_config.pb.h"
#include "visqol_api.h"
using namespace vt;
namespace V = Visqol;

static Pair SmallPair(Case& c) {
  Pair p;
  p.sr = c.of<size_t>({8000, 4000, 8000, 11025});
  p.x = AnySignal(c, "ref", SamplesForFrames(size_t(c.range(46, 64)), p.sr) + size_t(c.range(0, 100)), p.sr).v;
  p.y = Degrade(c, p.x, p.sr, &p.how);
  return p;
}
struct Item { Vec x, y; size_t sr, sr2; std::string what; };
// Pairs to be refused, or that look unlike the others.
static Item AnyItem(Case& c) {
  if (c.chance(65)) { Pair p = SmallPair(c); return {p.x, p.y, p.sr, p.sr, p.how + "@" + std::to_string(p.sr)}; }
  Item it; it.sr = it.sr2 = 8000;
  Rng r(c.seed());
  Vec good = SpeechLike(r, SamplesForFrames(50, 8000), 8000);
  switch (c.pick({1, 1, 1, 1, 1, 1})) {
    case 0: it.y = good; it.what = "empty reference"; break;
    case 1: it.x = good; it.what = "empty degraded"; break;
    case 2: it.x = it.y = good; it.sr2 = 16000; it.what = "two rates"; break;
    case 3: it.x = it.y = Vec(good.begin(), good.begin() + 600); it.what = "less than a window"; break;
    case 4: it.x = it.y = Vec(good.begin(), good.begin() + 2500); it.what = "less than a patch"; break;
    default: it.x = Vec(good.size(), 0.0); it.y = good; it.what = "silent reference"; break;
  }
  return it;
}
// What one operation gave: a result, a status, or a complaint of its own.
struct Got { bool ok = false; int code = 0; std::string text, complaint; V::SimilarityResultMsg msg; };
static std::string Pack(const std::vector<Got>& v) {
  std::ostringstream o;
  for (auto& g : v) { std::string m = g.msg.SerializeAsString(); o << g.ok << ' ' << g.code << ' ' << g.text.size() << ' ' << g.complaint.size() << ' ' << m.size() << '\n' << g.text << g.complaint << m; }
  return o.str();
}
static std::vector<Got> Unpack(const std::string& s) {
  std::istringstream i(s); std::vector<Got> v; size_t a, b, m; Got g;
  while (i >> g.ok >> g.code >> a >> b >> m) {
    i.get(); std::string w(m, 0); g.text.resize(a); g.complaint.resize(b);
    i.read(&g.text[0], a); i.read(&g.complaint[0], b); i.read(&w[0], m);
    g.msg = V::SimilarityResultMsg(); g.msg.ParseFromString(w); v.push_back(g);
  }
  return v;
}
static absl::StatusOr<V::SimilarityResultMsg> Result(const Got& g) {
  if (g.ok) return g.msg;
  return absl::Status(absl::StatusCode(g.code), g.text);
}
static Got Of(const absl::StatusOr<V::SimilarityResultMsg>& r) {
  Got g; g.ok = r.ok();
  if (r.ok()) g.msg = *r; else { g.code = int(r.status().code()); g.text = std::string(r.status().message()); }
  return g;
}
// Everything that runs the library does so in a process of its own: this one
// stays as it started, so that each of them starts from the same state.
static std::vector<Got> Apart(Case& c, const std::function<std::vector<Got>()>& fn) {
  auto r = Unpack(InChild(c, [&] { return Pack(fn()); }));
  for (auto& g : r) c.check(g.complaint.empty(), "%s", g.complaint.c_str());
  return r;
}
static Got RunItem(V::VisqolManager& m, const Item& it) {
  V::AudioSignal r = Sig(it.x, it.sr), d = Sig(it.y, it.sr2);
  Got g = Of(m.Run(r, d));
  if (r.sample_rate != it.sr || r.data_matrix.NumRows() != it.x.size() || (!it.x.empty() && r.data_matrix.NumCols() != 1)) g.complaint = "the reference got another shape or rate";
  else for (size_t i = 0; i < it.x.size(); ++i) if (r.data_matrix(i, 0) != it.x[i]) { g.complaint = "the reference was changed"; break; }
  if (d.sample_rate != it.sr2) g.complaint = "the degraded signal's rate was changed";
  return g;
}
// The same from files, which may have held something else before.
static Got RunFiles(V::VisqolManager& m, const Item& it, const std::string& ref, const std::string& deg) {
  std::string d = pbt::ScratchDir() + "/";
  WriteFile(d + ref, WavBytes(ToPcm(it.x), 1, uint32_t(it.sr))); WriteFile(d + deg, WavBytes(ToPcm(it.y), 1, uint32_t(it.sr2)));
  Got g = Of(m.Run(V::FilePath(d + ref), V::FilePath(d + deg)));
  if (g.ok && (g.msg.reference_filepath() != d + ref || g.msg.degraded_filepath() != d + deg)) g.complaint = "the result names " + g.msg.reference_filepath() + " and " + g.msg.degraded_filepath();
  g.msg.clear_reference_filepath(); g.msg.clear_degraded_filepath();
  return g;
}
static absl::Status InitAs(V::VisqolManager& v, const Mode& m) {
  return v.Init(V::FilePath(m.speech ? LatticeModel() : SvrModel()), m.speech, m.unscaled, m.window, m.lattice, m.no_global, m.no_realign);
}

static void History(Case& c) {
  std::vector<Mode> modes; std::vector<Item> items;
  size_t nm = size_t(c.range(1, 2)), ni = size_t(c.range(2, 3)), no = c.chance(20) ? 2 : 1;
  for (size_t i = 0; i < nm; ++i) modes.push_back(AnyMode(c));
  for (size_t i = 0; i < ni; ++i) { items.push_back(AnyItem(c)); Quantise16(items[i].x); Quantise16(items[i].y); }
  bool files = c.chance(40);  // some of the comparisons are of files
  // Operations on one or two instances side by side.
  struct Op { size_t kind, who, arg; std::string ref, deg; };
  std::vector<Op> ops; std::string trace;
  size_t steps = size_t(c.chance(6) ? c.range(8, 30) : c.range(2, 7));
  for (size_t s = 0; s < steps; ++s) {
    Op o{c.pick({10, 2, 1}), size_t(c.draw(no - 1)), 0};
    if (o.kind == 0) o.arg = size_t(c.draw(ni - 1)); else if (o.kind == 1) o.arg = size_t(c.draw(nm - 1));
    if (o.kind == 0 && files && c.chance(70)) {
      size_t k = c.pick({3, 1, 1});  // the same names for all, or for some
      o.ref = k == 2 ? "r" + std::to_string(o.arg) + ".wav" : "r.wav"; o.deg = k == 1 ? "d" + std::to_string(o.arg) + ".wav" : "d.wav";
    }
    trace += (o.kind == 0 && !o.ref.empty() ? " " + o.ref + "," + o.deg + "=" : o.kind == 0 ? " " : o.kind == 1 ? " init" : " bad-init") + (o.kind == 2 ? "" : std::to_string(o.arg)) + (o.who ? "'" : "");
    ops.push_back(o);
  }
  c.note_str("history", trace);
  auto got = Apart(c, [&] {
    std::vector<Got> r; std::vector<std::unique_ptr<V::VisqolManager>> who;
    for (size_t k = 0; k < no; ++k) who.push_back(MakeManager(modes[k % nm]));
    for (auto& o : ops) {
      if (o.kind == 0) r.push_back(o.ref.empty() ? RunItem(*who[o.who], items[o.arg]) : RunFiles(*who[o.who], items[o.arg], o.ref, o.deg));
      else {
        auto st = o.kind == 1 ? InitAs(*who[o.who], modes[o.arg]) : who[o.who]->Init(V::FilePath(pbt::ScratchDir() + "/no-such-model"), false, false, 60, false, false, false);
        Got g; g.ok = st.ok(); if (st.ok() != (o.kind == 1)) g.complaint = o.kind == 1 ? "re-initialisation failed: " + st.ToString() : "initialised with a model that does not exist";
        r.push_back(g);
      }
    }
    return r;
  });
  c.check(got.size() == ops.size(), "%zu outcomes of %zu operations", got.size(), ops.size());
  std::map<std::tuple<size_t, size_t, bool>, Got> alone;
  std::vector<size_t> mode(no); std::vector<bool> usable(no, true); int refused = 0, reinits = 0, scored = 0, from_files = 0;
  for (size_t k = 0; k < no; ++k) mode[k] = k % nm;
  for (size_t s = 0; s < ops.size(); ++s) {
    auto& o = ops[s]; auto& g = got[s];
    if (o.kind == 1) { mode[o.who] = o.arg; usable[o.who] = true; ++reinits; continue; }
    if (o.kind == 2) { usable[o.who] = false; continue; }
    if (!usable[o.who]) { if (g.ok) c.fail("step %zu scored %.6f after a failed initialisation", s, g.msg.moslqo()); continue; }
    bool file = !o.ref.empty();
    auto key = std::make_tuple(mode[o.who], o.arg, file);
    if (!alone.count(key)) alone[key] = Apart(c, [&] { auto fresh = MakeManager(modes[mode[o.who]]); return std::vector<Got>{file ? RunFiles(*fresh, items[o.arg], o.ref, o.deg) : RunItem(*fresh, items[o.arg])}; }).at(0);
    std::string diff = Difference(Result(g), Result(alone[key]));
    c.check(diff.empty(), "step %zu of%s (%s) differs from the same comparison alone: %s", s, trace.c_str(), items[o.arg].what.c_str(), diff.c_str());
    if (g.ok) ++scored; else ++refused;
    if (g.ok && file) ++from_files;
  }
  c.nontrivial(scored >= 2);
  if (refused) c.label("refusals"); if (reinits) c.label("re-initialised"); if (scored >= 3) c.label("3 or more scored"); if (no > 1) c.label("two instances"); if (from_files > 1) c.label("files compared");
}

// Memory, files and the public interface.
static void Paths(Case& c) {
  bool other = c.chance(40);  // another pair precedes it through the public interface
  Mode m = AnyMode(c); m.no_global = m.no_realign = false;
  Pair p = SmallPair(c);
  auto quantised = [](Vec v) { Quantise16(v); return v; };
  Vec x = quantised(p.x), y = quantised(p.y);
  c.note("pair", p.how + "@" + std::to_string(p.sr));
  std::string fr = pbt::ScratchDir() + "/r.wav", fd = pbt::ScratchDir() + "/d.wav";
  WriteFile(fr, WavBytes(ToPcm(x), 1, uint32_t(p.sr))); WriteFile(fd, WavBytes(ToPcm(y), 1, uint32_t(p.sr)));
  bool first = c.chance(50);  // the comparison in memory precedes that of files, on the same instance
  int times = int(c.range(1, 2));
  auto mem = Apart(c, [&] { auto mg = MakeManager(m); return std::vector<Got>{Of(RunPair(*mg, x, y, p.sr))}; }).at(0);
  auto file = Apart(c, [&] {
    auto mg = MakeManager(m);
    if (first) (void)RunPair(*mg, x, y, p.sr);
    Got g = Of(mg->Run(V::FilePath(fr), V::FilePath(fd)));
    if (g.ok) {
      if (g.msg.reference_filepath() != fr || g.msg.degraded_filepath() != fd) g.complaint = "the result names " + g.msg.reference_filepath() + " and " + g.msg.degraded_filepath();
      g.msg.clear_reference_filepath(); g.msg.clear_degraded_filepath();
    }
    return std::vector<Got>{g};
  }).at(0);
  // The model named by a piece of a text, with and without the last settings.
  Mode n = m; bool brief = c.chance(40);
  if (!brief) { n.no_global = c.chance(50); n.no_realign = c.chance(50); } else n.lattice = true;
  if (c.chance(60)) {
  auto named = Apart(c, [&] {
    V::VisqolManager a; Got g; std::string path = n.speech ? LatticeModel() : SvrModel(), text = "<" + path + ">";
    absl::string_view piece = absl::string_view(text).substr(1, path.size());
    auto st = brief ? a.Init(piece, n.speech, n.unscaled, n.window) : a.Init(piece, n.speech, n.unscaled, n.window, n.lattice, n.no_global, n.no_realign);
    if (!st.ok()) { g.complaint = "initialising with a model's name: " + st.ToString(); return std::vector<Got>{g}; }
    V::VisqolManager b;
    st = brief ? b.Init(V::FilePath(path), n.speech, n.unscaled, n.window) : InitAs(b, n);
    if (!st.ok()) { g.complaint = "initialising with a model's path: " + st.ToString(); return std::vector<Got>{g}; }
    auto mg = MakeManager(n);
    return std::vector<Got>{Of(RunPair(a, x, y, p.sr)), Of(RunPair(b, x, y, p.sr)), Of(RunPair(*mg, x, y, p.sr))};
  });
  for (auto& g : named) { std::string d = Difference(Result(g), Result(named.back())); c.check(d.empty(), "initialised by name, by path and with every setting: %s", d.c_str()); }
  }
  std::string diff = Difference(Result(file), Result(mem));
  c.check(diff.empty(), "from files and from memory: %s", diff.c_str());
  auto api = Apart(c, [&] {
    V::VisqolConfig cfg;
    cfg.mutable_audio()->set_sample_rate(int(p.sr));
    auto* o = cfg.mutable_options();
    o->set_svr_model_path(m.speech ? LatticeModel() : SvrModel()); o->set_use_speech_scoring(m.speech); o->set_use_unscaled_speech_mos_mapping(m.unscaled);
    o->set_allow_unsupported_sample_rates(true); o->set_search_window_radius(m.window); o->set_use_lattice_model(m.lattice);
    V::VisqolApi a; std::vector<Got> r;
    auto st = a.Create(cfg);
    if (!st.ok()) { Got g; g.complaint = "creating the public interface: " + st.ToString(); return std::vector<Got>{g}; }
    if (other) { Vec xs = y, ys = x; (void)a.Measure(absl::Span<double>(xs), absl::Span<double>(ys)).ok(); }
    for (int t = 0; t < times; ++t) {
      Vec xs = x, ys = y;
      r.push_back(Of(a.Measure(absl::Span<double>(xs), absl::Span<double>(ys))));
      if (xs != x || ys != y) r.back().complaint = "measuring changed the caller's samples";
    }
    return r;
  });
  for (auto& r : api) {
    diff = Difference(Result(r), Result(mem));
    c.check(diff.empty(), "through the public interface and from memory: %s", diff.c_str());
  }
  c.label(mem.ok ? "scored" : "refused"); c.nontrivial(mem.ok);
}

// Signals of several channels in memory are those of the files.
static void SeveralChannels(Case& c) {
  Mode m = AnyMode(c);
  Pair p = SmallPair(c);
  size_t cr = size_t(c.range(1, 4)), cd = size_t(c.range(cr == 1 ? 2 : 1, 4)); Rng q(c.seed());
  c.note("pair", p.how + "@" + std::to_string(p.sr)); c.note("channels", std::to_string(cr) + "/" + std::to_string(cd));
  auto spread = [&](const Vec& v, size_t n, std::vector<int16_t>* pcm) {  // frame by frame
    bool same = q.unit() < 0.2; std::vector<double> gain(n); for (auto& g : gain) g = same ? 0.9 : 0.2 + 0.8 * q.unit();
    V::AudioSignal s; s.sample_rate = p.sr; s.data_matrix = V::AMatrix<double>(v.size(), n);
    for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < n; ++k) {
      int16_t x = int16_t(std::max(-32768.0, std::min(32767.0, std::round(v[i] * gain[k] * 32768 + (same ? 0 : 40 * q.sym())))));
      pcm->push_back(x); s.data_matrix(i, k) = x / 32768.0;
    }
    return s;
  };
  std::vector<int16_t> pr, pd;
  V::AudioSignal r = spread(p.x, cr, &pr), d = spread(p.y, cd, &pd);
  std::string fr = pbt::ScratchDir() + "/cr.wav", fd = pbt::ScratchDir() + "/cd.wav";
  WriteFile(fr, WavBytes(pr, int(cr), uint32_t(p.sr))); WriteFile(fd, WavBytes(pd, int(cd), uint32_t(p.sr)));
  bool first = c.chance(50);
  auto mem = Apart(c, [&] {
    auto mg = MakeManager(m);
    if (first) (void)RunPair(*mg, p.y, p.x, p.sr).ok();
    V::AudioSignal rr = r, dd = d;
    Got g = Of(mg->Run(rr, dd));
    if (!(rr.data_matrix == r.data_matrix) || rr.sample_rate != r.sample_rate) g.complaint = "the reference was changed";
    return std::vector<Got>{g};
  }).at(0);
  auto file = Apart(c, [&] {
    auto mg = MakeManager(m);
    Got g = Of(mg->Run(V::FilePath(fr), V::FilePath(fd)));
    g.msg.clear_reference_filepath(); g.msg.clear_degraded_filepath();
    return std::vector<Got>{g};
  }).at(0);
  std::string diff = Difference(Result(mem), Result(file));
  c.check(diff.empty(), "channels in memory and in files: %s", diff.c_str());
  c.label(file.ok ? "scored" : "refused"); c.nontrivial(file.ok);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C10";
  p.rule = "history: 2 to 7, sometimes to 30, comparisons, re-initialisations and failed initialisations of one or two instances over 2 or 3 pairs, in memory or in files of the same or of other names, and 1 or 2 modes, non-trivial when two or more comparisons were scored; paths: one pair through memory, files and the public interface, non-trivial when scored; channels: pairs of 1 to 4 channels in memory against the same channels in files, non-trivial when scored";
  p.assumptions = {"a fresh instance in a process that has compared nothing is the reference model; equality is up to 1e-9 in every field"};
  p.facets = {{"history", History, 600, 30000, 3, false}, {"paths", Paths, 300, 15000, 1, false}, {"channels", SeveralChannels, 120, 6000, 1, false}};
  return pbt::Main(p, argc, argv);
}
