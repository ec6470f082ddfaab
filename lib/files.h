// Reading back what visqol writes; running a program.
#ifndef VERIF_LIB_FILES_H_
#define VERIF_LIB_FILES_H_
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "google/protobuf/util/json_util.h"
#include "lib/pipeline.h"

namespace vt {
inline std::vector<std::string> SplitOn(const std::string& s, char d) {
  std::vector<std::string> o(1);
  for (char ch : s) { if (ch == d) o.emplace_back(); else o.back() += ch; }
  return o;
}
// The lines of a text that ends in a newline.
inline std::vector<std::string> Lines(Case& c, const std::string& s, const char* what) {
  auto l = SplitOn(s, '\n');
  c.check(l.back().empty(), "%s does not end in a newline", what);
  l.pop_back();
  return l;
}
// Concatenated JSON objects, whatever stands between them.
inline std::vector<std::string> JsonObjects(Case& c, const std::string& s) {
  std::vector<std::string> o; int depth = 0; bool str = false, esc = false; size_t from = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (str) { if (esc) esc = false; else if (ch == '\\') esc = true; else if (ch == '"') str = false; continue; }
    if (ch == '"') { c.check(depth > 0, "text between the records at %zu", i); str = true; }
    else if (ch == '{') { if (depth++ == 0) from = i; }
    else if (ch == '}') { c.check(depth > 0, "a stray brace at %zu", i); if (--depth == 0) o.push_back(s.substr(from, i - from + 1)); }
    else if (!depth) c.check(isspace((unsigned char)ch) || ch == ',', "text between the records at %zu: '%c'", i, ch);
  }
  c.check(!depth && !str, "the last record is incomplete");
  return o;
}
inline std::vector<Visqol::SimilarityResultMsg> JsonResults(Case& c, const std::string& text) {
  std::vector<Visqol::SimilarityResultMsg> out;
  for (auto& j : JsonObjects(c, text)) {
    Visqol::SimilarityResultMsg m;
    auto st = google::protobuf::util::JsonStringToMessage(j, &m);
    c.check(st.ok(), "a record that cannot be read back: %s", std::string(st.message()).c_str());
    out.push_back(m);
  }
  return out;
}
inline std::vector<std::string> CsvHeader(const Visqol::SimilarityResultMsg& m) {
  std::vector<std::string> h{"reference", "degraded", "moslqo"};
  for (int i = 0; i < m.fvnsim_size(); ++i) h.push_back("fvnsim" + std::to_string(i));
  for (int i = 0; i < m.fvnsim10_size(); ++i) h.push_back("fvnsim10_" + std::to_string(i));
  for (int i = 0; i < m.fstdnsim_size(); ++i) h.push_back("fstdnsim" + std::to_string(i));
  for (int i = 0; i < m.fvdegenergy_size(); ++i) h.push_back("fvdegenergy" + std::to_string(i));
  return h;
}
inline std::vector<double> CsvValues(const Visqol::SimilarityResultMsg& m) {
  std::vector<double> v{m.moslqo()};
  for (double x : m.fvnsim()) v.push_back(x);
  for (double x : m.fvnsim10()) v.push_back(x);
  for (double x : m.fstdnsim()) v.push_back(x);
  for (double x : m.fvdegenergy()) v.push_back(x);
  return v;
}
inline double Number(Case& c, const std::string& s) {
  char* e = nullptr; double v = strtod(s.c_str(), &e);
  c.check(!s.empty() && *e == 0, "'%s' is not a number", s.c_str());
  return v;
}
// The records of a CSV text whose last one ends in a newline; quoted fields may hold anything (RFC 4180).
inline std::vector<std::vector<std::string>> CsvRecords(Case& c, const std::string& s, const char* what) {
  std::vector<std::vector<std::string>> rows; std::vector<std::string> row(1); bool quoted = false, any = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char ch = s[i];
    if (quoted) { if (ch != '"') row.back() += ch; else if (i + 1 < s.size() && s[i + 1] == '"') { row.back() += ch; ++i; } else quoted = false; continue; }
    if (ch == '"' && row.back().empty()) { quoted = any = true; }
    else if (ch == ',') { row.emplace_back(); any = true; }
    else if (ch == '\n') { rows.push_back(row); row.assign(1, ""); any = false; }
    else { row.back() += ch; any = true; }
  }
  c.check(!quoted && !any, "%s does not end in a newline", what);
  return rows;
}
// A row says what a result says, to nine significant digits.
inline void CheckCsvRow(Case& c, const std::vector<std::string>& f, const Visqol::SimilarityResultMsg& m, double slack = 0) {
  auto h = CsvHeader(m); auto v = CsvValues(m);
  c.check(f.size() == h.size(), "a row of %zu columns for %zu values", f.size(), h.size());
  c.check(f[0] == m.reference_filepath() && f[1] == m.degraded_filepath(), "a row for %s and %s, not %s and %s", f[0].c_str(), f[1].c_str(), m.reference_filepath().c_str(), m.degraded_filepath().c_str());
  for (size_t i = 0; i < v.size(); ++i) c.near(Number(c, f[i + 2]), v[i], slack, 5.01e-9, h[i + 2].c_str());
}
struct Ran { int status; std::string out, err; };
// Runs argv in cwd; status is the exit status or 1000 + the signal.
inline Ran RunProgram(const std::vector<std::string>& argv, const std::string& cwd) {
  std::string o = pbt::ScratchDir() + "/stdout", e = pbt::ScratchDir() + "/stderr";
  std::vector<char*> a; for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fo = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), fe = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fo, 1); dup2(fe, 2);
    if (chdir(cwd.c_str()) == 0) { alarm(120); execv(a[0], a.data()); }
    _exit(126);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return {WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), ReadFile(o), ReadFile(e)};
}
}  // namespace vt
#endif
