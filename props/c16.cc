// C16: result files say exactly what was measured.
#include <filesystem>
#include <iostream>

#include "lib/files.h"
#include "sim_results_writer.h"
using namespace vt;
namespace V = Visqol;

static double AnyValue(Case& c) {
  switch (c.pick({8, 4, 3, 2, 2, 1, 1})) {
    case 0: return c.unit();
    case 1: return c.real(-60, 90);
    case 2: return c.of<double>({1, 0, 5, -1, 0.1, 1.0 / 3, 0.5, 0.99999999949, 123456789.5, 0.000123456789});
    case 3: return c.real(-1, 1) * std::pow(10, double(c.range(-12, 12)));
    case 4: return double(c.range(-1000000, 1000000));
    case 5: return c.real(1, 10) * std::pow(10, double(c.range(-250, 250)));
    default: return -c.unit() * 1e-7;
  }
}
static std::string AnyName(Case& c) {
  static const std::vector<std::string> piece{"ref", "/tmp/", " ", ".wav", "\xc3\xa9", "\"", "\\", "{", "}", "-", "0", "a b", "'", ";", "%s", "<"};
  std::string s; size_t n = size_t(c.range(0, 5)); for (size_t i = 0; i < n; ++i) s += c.of(piece);
  if (c.chance(15)) { size_t at = size_t(c.draw(s.size())); while (at < s.size() && (s[at] & 0xc0) == 0x80) ++at; s.insert(at, c.of<std::string>({",", ",,", "\n", "\r\n", "\",\"", "\"\""})); c.label("a name to be quoted"); }
  return s;
}
static V::SimilarityResultMsg AnyMsg(Case& c, int bands) {
  V::SimilarityResultMsg m;
  m.set_reference_filepath(AnyName(c)); m.set_degraded_filepath(AnyName(c));
  m.set_moslqo(c.chance(80) ? c.real(1, 5) : AnyValue(c)); m.set_vnsim(AnyValue(c)); m.set_alignment_lag_s(c.chance(50) ? 0 : AnyValue(c));
  for (int b = 0; b < bands; ++b) { m.add_fvnsim(AnyValue(c)); m.add_fvnsim10(AnyValue(c)); m.add_fstdnsim(AnyValue(c)); m.add_fvdegenergy(AnyValue(c)); m.add_center_freq_bands(c.real(50, 8000)); }
  int k = int(c.chance(1) ? c.range(200, 700) : c.range(0, 3));
  for (int i = 0; i < k; ++i) {
    auto* p = m.add_patch_sims();
    p->set_similarity(AnyValue(c)); p->set_ref_patch_start_time(c.real(0, 20)); p->set_ref_patch_end_time(c.real(0, 20)); p->set_deg_patch_start_time(c.chance(30) ? 0 : c.real(0, 20)); p->set_deg_patch_end_time(c.real(0, 20));
    if (c.chance(12)) { p->set_similarity(0); p->set_deg_patch_start_time(0); p->set_deg_patch_end_time(0); }  // without a match
    for (int b = 0; b < bands; ++b) p->add_freq_band_means(AnyValue(c));
  }
  return m;
}
struct Muted {  // takes over std::cout
  std::stringstream s; std::streambuf* old;
  Muted() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Muted() { std::cout.rdbuf(old); }
};
// The numbers of a line that is a row of a table: | 1 | 2 - 3 |.
static std::vector<double> Row(const std::string& line) {
  std::vector<double> v; std::string t;
  if (line.size() < 2 || line[0] != '|') return v;
  for (size_t i = 0; i < line.size(); ++i) {
    char ch = line[i];
    bool sep = ch == '|' || ch == ' ' || (ch == '-' && i + 1 < line.size() && line[i + 1] == ' ');
    if (!sep) { t += ch; continue; }
    if (t.size() > 2 && t.substr(t.size() - 2) == "Hz") t.resize(t.size() - 2);
    if (!t.empty()) { char* e; double d = strtod(t.c_str(), &e); if (*e) return {}; v.push_back(d); t.clear(); }
  }
  return v;
}
static void Console(Case& c, const std::string& text, const V::SimilarityResultMsg& m, bool verbose) {
  size_t scores = 0; bool rf = text.find("Reference Filepath:\t" + m.reference_filepath() + "\n") != std::string::npos, df = text.find("Degraded Filepath:\t" + m.degraded_filepath() + "\n") != std::string::npos; std::vector<std::vector<double>> bands, patches;
  for (auto& line : SplitOn(text, '\n')) {
    if (line.compare(0, 8, "MOS-LQO:") == 0) { ++scores; size_t k = line.find_first_not_of(" \t", 8); c.check(k != std::string::npos, "no score"); c.near(Number(c, line.substr(k)), m.moslqo(), 0, 6e-6, "score shown"); }
    auto r = Row(line); if (r.size() == 3) bands.push_back(r); if (r.size() == 6) patches.push_back(r);
  }
  c.check(scores == 1, "%zu scores are shown", scores);
  if (!verbose) { c.check(bands.empty() && patches.empty(), "tables without being verbose"); return; }
  c.check(rf && df, "the file names are not shown");
  c.check(int(bands.size()) == m.fvnsim_size(), "%zu bands are shown of %d", bands.size(), m.fvnsim_size());
  for (size_t i = 0; i < bands.size(); ++i) { c.near(bands[i][0], m.fvnsim(int(i)), 5.1e-7, 1e-12, "band similarity shown"); c.near(bands[i][1], m.fvnsim10(int(i)), 5.1e-7, 1e-12, "worst decile shown"); c.near(bands[i][2], m.center_freq_bands(int(i)), 0.051, 0, "band centre shown"); }
  c.check(int(patches.size()) == m.patch_sims_size(), "%zu patches are shown of %d", patches.size(), m.patch_sims_size());
  for (size_t i = 0; i < patches.size(); ++i) {
    auto& q = m.patch_sims(int(i));
    c.check(patches[i][0] == double(i), "patch %zu is numbered %g", i, patches[i][0]);
    c.near(patches[i][1], q.similarity(), 5.1e-7, 1e-12, "patch similarity shown");
    c.near(patches[i][2], q.ref_patch_start_time(), 5.1e-4, 0, "reference start shown"); c.near(patches[i][3], q.ref_patch_end_time(), 5.1e-4, 0, "reference end shown");
    c.near(patches[i][4], q.deg_patch_start_time(), 5.1e-4, 0, "degraded start shown"); c.near(patches[i][5], q.deg_patch_end_time(), 5.1e-4, 0, "degraded end shown");
  }
}

static void Writes(Case& c) {
  std::string base = pbt::ScratchDir() + "/res"; std::filesystem::remove_all(base); std::filesystem::create_directories(base);
  struct File { std::string path, before; bool existed; int bands; std::vector<V::SimilarityResultMsg> wrote; };
  std::vector<File> csv, json;
  for (int i = 0; i < 2; ++i) {
    File f{base + "/" + (i ? "other" : "one") + ".csv", "", c.chance(30), int(c.pick({2, 2, 1, 1})), {}};
    f.bands = f.bands == 0 ? 32 : f.bands == 1 ? 21 : f.bands == 2 ? 1 : int(c.range(1, 40));
    if (f.existed) { f.before = c.of<std::string>({"reference,degraded\n", "anything at all\n", "a,b,c\n1,2,3\n"}); WriteFile(f.path, f.before); }
    csv.push_back(f);
    File j{base + "/" + (i ? "other" : "one") + ".json", "", c.chance(30), 0, {}};
    if (j.existed) { j.before = c.of<std::string>({"{\"moslqo\":3}", "{}\n", "{\"vnsim\":0.5}\n"}); WriteFile(j.path, j.before); }
    json.push_back(j);
  }
  size_t n = size_t(c.range(1, 5)); size_t wrote = 0;
  for (size_t k = 0; k < n; ++k) {
    size_t which = c.pick({3, 1}); auto m = AnyMsg(c, csv[which].bands);
    bool tc = c.chance(75), tj = c.chance(75), verbose = c.chance(30), speech = c.chance(50), lattice = c.chance(50);
    size_t jw = c.pick({3, 1});
    Muted mute;
    V::SimilarityResultsWriter::Write(verbose, V::FilePath(tc ? csv[which].path : ""), V::FilePath(tj ? json[jw].path : ""), m, speech, lattice);
    std::string shown = mute.s.str();
    Console(c, shown, m, verbose);
    std::string mode = speech ? lattice ? "Speech mode, lattice model" : "Speech mode, exponential model" : "Audio mode, support vector regression model";
    c.check(shown.find(mode) != std::string::npos, "the console does not say '%s'", mode.c_str());
    if (tc) { csv[which].wrote.push_back(m); ++wrote; } if (tj) { json[jw].wrote.push_back(m); ++wrote; }
  }
  for (auto& f : csv) {
    if (!f.existed && f.wrote.empty()) { c.check(!std::filesystem::exists(f.path), "a results file nobody asked for"); continue; }
    std::string t = ReadFile(f.path);
    c.check(t.compare(0, f.before.size(), f.before) == 0, "what was in the CSV file before is gone");
    auto l = CsvRecords(c, t.substr(f.before.size()), "the CSV file");
    size_t h = f.existed ? 0 : 1;
    c.check(l.size() == f.wrote.size() + h, "%zu lines for %zu results", l.size(), f.wrote.size());
    if (h) c.check(l[0] == CsvHeader(f.wrote[0]), "the header is another one: %zu columns, '%s' first", l[0].size(), l[0][0].c_str());
    for (size_t i = 0; i < f.wrote.size(); ++i) CheckCsvRow(c, l[i + h], f.wrote[i]);
    if (f.wrote.size() > 1) c.label("rows appended"); if (f.existed && !f.wrote.empty()) c.label("existing file");
  }
  for (auto& f : json) {
    if (!f.existed && f.wrote.empty()) { c.check(!std::filesystem::exists(f.path), "a debug file nobody asked for"); continue; }
    std::string t = ReadFile(f.path);
    c.check(t.compare(0, f.before.size(), f.before) == 0, "what was in the JSON file before is gone");
    auto got = JsonResults(c, t.substr(f.before.size()));
    c.check(got.size() == f.wrote.size(), "%zu records for %zu results", got.size(), f.wrote.size());
    for (size_t i = 0; i < got.size(); ++i) { std::string d = Difference(absl::StatusOr<V::SimilarityResultMsg>(got[i]), absl::StatusOr<V::SimilarityResultMsg>(f.wrote[i]), 1e-14); c.check(d.empty(), "record %zu reads back otherwise: %s", i, d.c_str()); }
  }
  c.nontrivial(wrote > 1);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C16";
  p.rule = "1 to 5 random results written to two CSV and two JSON files, new or existing, and the console; non-trivial when two or more records were written";
  p.assumptions = {"file names are valid UTF-8", "all results in one CSV file have the same number of bands", "values are finite"};
  p.facets = {{"writes", Writes, 6000, 300000, 1}};
  return pbt::Main(p, argc, argv);
}
