// C15: the command line and batch files mean what they say.
#include <filesystem>

#include "commandline_parser.h"
#include "lib/files.h"
using namespace vt;
namespace V = Visqol;
namespace fs = std::filesystem;

static std::string Cli() { const char* b = getenv("VERIF_BUILD"); return std::string(b && *b ? b : "/verif/build") + "/visqol_cli"; }

// One option in one of the spellings the flag library has.
static void Bool(Case& c, std::vector<std::string>& a, const char* name, bool v, bool dflt) {
  if (v == dflt && c.chance(70)) return;
  std::string dash = c.chance(25) ? "-" : "--";
  if (c.chance(50)) a.push_back(dash + name + (v ? "=true" : "=false"));
  else a.push_back(dash + (v ? "" : "no") + name);
}
static void Value(Case& c, std::vector<std::string>& a, const char* name, const std::string& v) {
  std::string dash = c.chance(25) ? "-" : "--";
  if (c.chance(50)) { a.push_back(dash + name); a.push_back(v); } else a.push_back(dash + name + "=" + v);
}

static void CommandLine(Case& c) {
  Mode m; bool lattice = true;
  m.speech = c.chance(55); lattice = !c.chance(45); m.lattice = m.speech && lattice; m.unscaled = c.chance(35);
  m.window = c.pick({9, 8, 3}); m.window = m.window == 0 ? 60 : m.window == 1 ? int(c.range(1, 6)) : 0; m.no_global = c.chance(m.window ? 25 : 70); m.no_realign = c.chance(30);
  bool batch = c.chance(60), verbose = c.chance(30), csv = c.chance(80), json = c.chance(70) || !csv;
  // ---- files
  std::string dir = pbt::ScratchDir() + "/cli"; fs::remove_all(dir);
  fs::create_directories(dir + "/sub dir");
  bool default_model = c.chance(40);
  bool model_in_cwd = default_model ? !c.chance(12) : c.chance(30);
  if (model_in_cwd) fs::create_directory_symlink(RepoDir() + "/model", dir + "/model");
  size_t nf = size_t(c.range(2, 4)); std::vector<std::string> refs, degs;
  for (size_t i = 0; i < nf; ++i) {
    size_t sr = c.of<size_t>({8000, 4000});
    Vec x = AnySignal(c, "ref", SamplesForFrames(size_t(c.range(46, 56)), sr), sr, false).v, y; std::string how; bool cut = false;
    int channels = c.chance(20) ? 2 : 1;
    bool far = c.chance(25) && m.window > 0, bad = !far && c.chance(m.window ? 20 : 40);
    if (far) { Pair q = FarPair(c, m.speech, m.window); x = q.x; y = q.y; sr = q.sr; how = q.how; channels = 1; }
    else if (bad) { how = "bad"; y = x; } else y = Degrade(c, x, sr, &how);
    // Global alignment off and unshifted pairs would hide that option.
    if (!bad && c.chance(30)) { size_t d = size_t(c.range(1, 900)); y.insert(y.begin(), d, 0.0); how += " late by " + std::to_string(d); }
    // Valid files that cannot be compared (not all of them): no speech, too short for a window, for a patch,
    // or to reach where the first patch is.
    if (bad && c.chance(25)) { x.assign(x.size(), 0.0); how = "silent reference"; bad = false; cut = true; }
    if (bad && c.chance(50)) { y.resize(std::min(y.size(), size_t(c.chance(30) ? c.range(1, 700) : SamplesForFrames(size_t(c.range(1, 12)), sr)))); if (c.chance(30)) { x.resize(std::min(x.size(), SamplesForFrames(size_t(c.range(1, 25)), sr))); } how = "cut to " + std::to_string(x.size()) + " and " + std::to_string(y.size()); bad = false; cut = true; }
    std::string d = c.chance(25) ? "sub dir/" : "", r = d + "ref" + std::to_string(i) + ".wav", g = d + (!batch && c.chance(20) ? "deg, " : "deg") + std::to_string(i) + (c.chance(20) ? "" : ".wav");
    auto pcm = ToPcm(x); if (channels == 2) { std::vector<int16_t> s; for (auto v : pcm) { s.push_back(v); s.push_back(int16_t(v / 2)); } pcm = s; }
    WriteFile(dir + "/" + r, WavBytes(pcm, channels, uint32_t(sr)));
    std::string db = WavBytes(ToPcm(y), 1, uint32_t(sr));
    if (bad) switch (c.pick({1, 1, 1, 1})) {
      case 0: db.clear(); break;
      case 1: db = WavBytes(ToPcm(y), 1, uint32_t(sr * 2)); break;
      case 2: db = WavBytes({}, 1, uint32_t(sr)); break;
      case 3: db[8] = 'X'; break;
    }
    WriteFile(dir + "/" + g, db);
    refs.push_back(r); degs.push_back(g); if (cut) c.label("silent or cut short");
    c.note("pair", r + (bad ? " bad" : " " + how));
  }
  auto path = [&](const std::string& f) { return c.chance(50) ? f : dir + "/" + f; };
  // ---- which pairs
  std::vector<std::string> args{Cli()};
  std::vector<std::pair<std::string, std::string>> pairs;
  bool missing = false;
  if (batch) {
    size_t n = size_t(c.range(1, 5)); bool crlf = c.chance(35); std::string nl = crlf ? "\r\n" : "\n";
    std::string text = c.of<std::string>({"reference,degraded", "a,b", "", "refs,degs,comment"}) + nl;
    for (size_t k = 0; k < n; ++k) {
      if (c.chance(15)) text += nl;                                                    // blank
      if (c.chance(10)) text += c.of<std::string>({"only-one.wav", ",", "only-one.wav,"}) + nl;  // incomplete
      size_t i = size_t(c.draw(nf - 1)); std::string r = path(refs[i]), d = path(degs[c.chance(80) ? i : size_t(c.draw(nf - 1))]);
      if (c.chance(10)) r = "no-such.wav";
      text += r + "," + d + (c.chance(10) ? ",more" : ""); if (k + 1 < n || c.chance(70)) text += nl;
      pairs.emplace_back(r, d);
    }
    WriteFile(dir + "/batch.csv", text);
    std::string b = path("batch.csv"); if (c.chance(5)) { b = "no-such.csv"; missing = true; }
    Value(c, args, "batch_input_csv", b);
    if (c.chance(20)) { Value(c, args, "reference_file", refs[0]); Value(c, args, "degraded_file", degs[0]); }  // ignored
    c.note_str("batch", text);
  } else {
    size_t i = size_t(c.draw(nf - 1)); std::string r = path(refs[i]), d = path(degs[i]);
    if (c.chance(6)) { r = "no-such.wav"; missing = true; }
    if (c.chance(6)) { d = "no-such.wav"; missing = true; }
    bool skip = c.chance(4); missing |= skip;
    if (c.chance(50)) { Value(c, args, "reference_file", r); if (!skip) Value(c, args, "degraded_file", d); }
    else { if (!skip) Value(c, args, "degraded_file", d); Value(c, args, "reference_file", r); }
    pairs.emplace_back(r, d);
  }
  // ---- options
  Bool(c, args, "use_speech_mode", m.speech, false); Bool(c, args, "use_lattice_model", lattice, true); Bool(c, args, "use_unscaled_speech_mos_mapping", m.unscaled, false);
  Bool(c, args, "disable_global_alignment", m.no_global, false); Bool(c, args, "disable_realignment", m.no_realign, false); Bool(c, args, "verbose", verbose, false);
  if (m.window != 60 || c.chance(30)) Value(c, args, "search_window_radius", std::to_string(m.window));
  std::string model = m.speech ? LatticeModel() : SvrModel();
  if (default_model) missing |= !model_in_cwd;
  else if (c.chance(8) && (!m.speech || m.lattice)) { Value(c, args, "similarity_to_quality_model", "no-such-model"); missing = true; }
  else Value(c, args, "similarity_to_quality_model", model);
  std::string fcsv = dir + "/out.csv", fjson = dir + "/out.json";
  if (csv) Value(c, args, "results_csv", c.chance(50) ? "out.csv" : fcsv);
  if (json) Value(c, args, "output_debug", c.chance(50) ? "out.json" : fjson);
  std::string shown; for (size_t i = 1; i < args.size(); ++i) shown += " " + args[i];
  c.note_str("arguments", shown);
  // ---- run
  int times = c.chance(12) ? 2 : 1; Ran ran;
  for (int t = 0; t < times; ++t) {
    ran = RunProgram(args, dir);
    c.check(ran.status < 1000 && ran.status != 126, "the program ended by signal %d: %s", ran.status - 1000, ran.err.substr(0, 400).c_str());
    if (missing) c.check(ran.status != 0, "a missing file or model is not reported");
    else c.check(ran.status == 0, "exit status %d: %s", ran.status, ran.err.substr(0, 600).c_str());
  }
  if (missing) {
    c.check(!fs::exists(fcsv) && !fs::exists(fjson) && ran.out.find("MOS-LQO") == std::string::npos, "something was compared although an input or the model is missing");
    c.label("refused before comparing"); c.nontrivial(); return;
  }
  // ---- what it should have measured
  std::string here = fs::current_path().string(); fs::current_path(dir);
  std::vector<V::SimilarityResultMsg> want; size_t failed = 0;
  {
    V::VisqolManager mg; auto st = mg.Init(V::FilePath(model), m.speech, m.unscaled, m.window, lattice, m.no_global, m.no_realign);
    if (!st.ok()) { fs::current_path(here); c.fail("initialisation: %s", st.ToString().c_str()); }
    for (auto& p : pairs) { auto r = mg.Run(V::FilePath(p.first), V::FilePath(p.second)); if (r.ok()) want.push_back(*r); else ++failed; }
  }
  fs::current_path(here);
  std::vector<V::SimilarityResultMsg> all;
  for (int t = 0; t < times; ++t) all.insert(all.end(), want.begin(), want.end());
  if (csv) {
    auto l = fs::exists(fcsv) ? CsvRecords(c, ReadFile(fcsv), "the CSV file") : std::vector<std::vector<std::string>>();
    c.check(l.size() == (all.empty() ? 0 : all.size() + 1), "%zu lines of results for %zu comparisons", l.size(), all.size());
    for (size_t i = 0; i < all.size(); ++i) CheckCsvRow(c, l[i + 1], all[i], 1e-8);
    if (!all.empty()) c.check(l[0] == CsvHeader(all[0]), "header of %zu columns, %s first", l[0].size(), l[0][0].c_str());
  }
  if (json) {
    auto got = fs::exists(fjson) ? JsonResults(c, ReadFile(fjson)) : std::vector<V::SimilarityResultMsg>();
    c.check(got.size() == all.size(), "%zu records for %zu comparisons", got.size(), all.size());
    for (size_t i = 0; i < all.size(); ++i) { std::string d = Difference(absl::StatusOr<V::SimilarityResultMsg>(got[i]), absl::StatusOr<V::SimilarityResultMsg>(all[i]), 1e-8); c.check(d.empty(), "comparison %zu of the program differs from the library: %s", i, d.c_str()); }
  }
  // The console, of the last run.
  std::vector<double> shown_mos; size_t names = 0;
  for (auto& line : SplitOn(ran.out, '\n')) {
    if (line.compare(0, 8, "MOS-LQO:") == 0) { size_t k = line.find_first_not_of(" \t", 8); c.check(k != std::string::npos, "no score in '%s'", line.c_str()); shown_mos.push_back(Number(c, line.substr(k))); }
    if (line.find("Filepath:") != std::string::npos) ++names;
  }
  c.check(shown_mos.size() == want.size(), "%zu scores are shown for %zu comparisons", shown_mos.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i) c.near(shown_mos[i], want[i].moslqo(), 1e-5, 1e-5, "score shown");
  c.check(names == (verbose ? 2 * want.size() : 0), "%zu file names are shown", names);
  c.nontrivial(!want.empty());
  c.label(m.speech ? m.lattice ? "lattice" : m.unscaled ? "unscaled" : "scaled" : "audio"); if (batch) c.label("batch"); if (failed && !want.empty()) c.label("failures among successes"); if (default_model) c.label("default model");
}

// The parser alone: what it makes of arguments, and its defaults.
static void Parsed(Case& c) {
  std::string dir = pbt::ScratchDir() + "/parsed"; fs::create_directories(dir);
  for (const char* f : {"r.wav", "d w.wav", "b.csv", "m.txt"}) WriteFile(dir + "/" + f, "x");
  bool dm = c.chance(40);
  fs::remove(dir + "/model"); if (dm) fs::create_directory_symlink(RepoDir() + "/model", dir + "/model");
  std::vector<std::string> a{"visqol"};
  bool batch = c.chance(35), speech = c.chance(45), lattice = !c.chance(45), unscaled = c.chance(45), ng = c.chance(45), nr = c.chance(45), verbose = c.chance(45);
  int window = c.chance(40) ? 60 : int(c.range(0, 500));
  if (batch) Value(c, a, "batch_input_csv", "b.csv"); else { Value(c, a, "reference_file", "r.wav"); Value(c, a, "degraded_file", "d w.wav"); }
  Bool(c, a, "use_speech_mode", speech, false); Bool(c, a, "use_lattice_model", lattice, true); Bool(c, a, "use_unscaled_speech_mos_mapping", unscaled, false);
  Bool(c, a, "disable_global_alignment", ng, false); Bool(c, a, "disable_realignment", nr, false); Bool(c, a, "verbose", verbose, false);
  if (window != 60 || c.chance(20)) Value(c, a, "search_window_radius", std::to_string(window));
  std::string csv = c.chance(50) ? "o.csv" : "", json = c.chance(50) ? dir + "/o.json" : "";
  if (!csv.empty()) Value(c, a, "results_csv", csv); if (!json.empty()) Value(c, a, "output_debug", json);
  if (!dm) Value(c, a, "similarity_to_quality_model", "m.txt");
  // Order does not matter, as long as an option stays with its value.
  std::string shown; for (size_t i = 1; i < a.size(); ++i) shown += " " + a[i];
  c.note_str("arguments", shown);
  // Flags are global and stay set: in a process of its own.
  std::string out = dir + "/out.txt"; fs::remove(out);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()) != 0) _exit(97);
    std::vector<char*> av; for (auto& s : a) av.push_back(const_cast<char*>(s.c_str()));
    av.push_back(nullptr);
    auto r = V::VisqolCommandLineParser::Parse(int(a.size()), av.data());
    std::ostringstream o;
    if (!r.ok()) o << "error " << r.status().ToString();
    else o << r->reference_signal_path.Path() << "|" << r->degraded_signal_path.Path() << "|" << r->batch_input_csv.Path() << "|" << r->similarity_to_quality_mapper_model.Path() << "|" << r->results_output_csv.Path() << "|" << r->debug_output_path.Path()
           << "|" << r->verbose << r->use_speech_mode << r->use_unscaled_speech_mos_mapping << r->use_lattice_model << r->disable_global_alignment << r->disable_realignment << "|" << r->search_window_radius;
    WriteFile(out, o.str());
    _exit(0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "parsing ended with status %d", st);
  std::string model = !dm ? "m.txt" : fs::canonical(dir).string() + (speech ? LatticeModel() : SvrModel()).substr(RepoDir().size());
  std::ostringstream w;
  w << (batch ? "" : "r.wav") << "|" << (batch ? "" : "d w.wav") << "|" << (batch ? "b.csv" : "") << "|" << model << "|" << csv << "|" << json << "|" << verbose << speech << unscaled << lattice << ng << nr << "|" << window;
  std::string got = ReadFile(out);
  c.check(got == w.str(), "understood as '%s', not as '%s'", got.c_str(), w.str().c_str());
  c.nontrivial();
}

// Batch files, by the parser alone.
static void BatchFile(Case& c) {
  size_t n = size_t(c.chance(1) ? c.range(250, 1200) : c.size(0, 60)); std::string text; std::vector<std::pair<std::string, std::string>> want;
  auto nl = [&] { return c.chance(35) ? "\r\n" : "\n"; };
  static const std::vector<std::string> piece{"a", "ref", " ", "/", ".wav", "-", "\xc3\xa9", "0", "\"", ";", "\t", "..", "#", "long name"};
  auto name = [&](const char* base) { std::string s = c.chance(30) ? "" : base; size_t k = size_t(c.range(0, 4)); for (size_t i = 0; i < k; ++i) s += c.of(piece); if (c.chance(4)) s += "/" + std::string(size_t(c.range(200, 5000)), 'l'); return c.chance(30) && !s.empty() ? s : s + "x"; };
  text = c.of<std::string>({"reference,degraded", "", "x,y,z", "onlyone"}) + nl();
  bool last_open = false; size_t odd = 0;
  for (size_t i = 0; i < n; ++i) {
    last_open = false;
    size_t k = c.pick({10, 2, 1, 2});
    if (k == 1) { text += nl(); ++odd; continue; }
    if (k == 2) { text += c.of<std::string>({",", "lonely", "lonely,"}) + nl(); ++odd; continue; }
    std::string r = name("r"), d = name("d"); text += r + "," + d;
    if (k == 3) text += "," + name("c");
    want.emplace_back(r, d);
    if (i + 1 < n || c.chance(60)) text += nl(); else last_open = true;
  }
  std::string f = pbt::ScratchDir() + "/batch.csv"; WriteFile(f, text);
  c.note_str("text", text.substr(0, 300));
  std::vector<V::ReferenceDegradedPathPair> got;
  V::CommandLineArgs a{}; a.batch_input_csv = V::FilePath(f);
  if (c.chance(50)) { a.reference_signal_path = V::FilePath(f); a.degraded_signal_path = V::FilePath(f); }  // ignored
  got = V::VisqolCommandLineParser::BuildFilePairPaths(a);
  c.check(got.size() == want.size(), "%zu pairs from %zu lines that name one", got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i) c.check(got[i].reference.Path() == want[i].first && got[i].degraded.Path() == want[i].second, "pair %zu is %s and %s, not %s and %s", i, got[i].reference.Path().c_str(), got[i].degraded.Path().c_str(), want[i].first.c_str(), want[i].second.c_str());
  c.nontrivial(want.size() > 1); if (odd) c.label("blank or incomplete lines"); if (last_open) c.label("no final newline");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C15";
  p.rule = "command line: the program run on 2 to 4 generated file pairs with random options in random spellings, singly or from batch files of 1 to 5 lines, against the library; non-trivial when something is scored or must be refused. parsed: the parser on random arguments; batch file: the parser against generated texts, non-trivial with two or more pairs";
  p.assumptions = {"file names in batch files hold no comma or line break", "the library called in-process is the reference for what the program should report"};
  p.facets = {{"command line", CommandLine, 300, 15000, 6, false}, {"parsed", Parsed, 4000, 200000, 1}, {"batch file", BatchFile, 20000, 1000000, 1}};
  return pbt::Main(p, argc, argv);
}
