// A small property-based testing engine (see DESIGN.md, "Engine").
//
// A property is a set of facets. A facet is a function from a Case (a source of
// choices) to pass / fail / discard. A case is the sequence of choices it drew:
// generation draws them at random, shrinking edits the sequence, a replay file
// is the sequence written down.
#ifndef VERIF_ENGINE_PBT_H_
#define VERIF_ENGINE_PBT_H_

#include <cstdarg>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

class Case {
 public:
  // ---- choices (smaller is simpler: shrinking drives every draw to 0) ----
  uint64_t draw(uint64_t max);                    // uniform in [0, max]
  int64_t range(int64_t lo, int64_t hi);          // uniform, shrinks to lo
  int64_t size(int64_t lo, int64_t hi);           // log-ish distribution, shrinks to lo
  bool chance(int percent);                       // shrinks to false
  size_t pick(std::initializer_list<int> weights);  // shrinks to index 0
  double unit();                                  // [0,1), shrinks to 0
  double real(double lo, double hi);              // shrinks to lo
  uint64_t seed() { return draw(~0ull >> 1); }    // for bulk pseudo-random data
  template <class T> const T& of(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }

  // ---- reporting ----
  template <class T> void note(const char* key, const T& v) {
    std::ostringstream s; s.precision(10); s << v; note_str(key, s.str());
  }
  template <class T> void note(const char* key, const std::vector<T>& v) {
    std::ostringstream s; s.precision(8); s << "[" << v.size() << "]{";
    for (size_t i = 0; i < v.size() && i < 12; ++i) s << (i ? "," : "") << v[i];
    if (v.size() > 12) s << ",...";
    s << "}"; note_str(key, s.str());
  }
  void note_str(const char* key, const std::string& v);
  void label(const std::string& l) { labels[l] += 1; }
  void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }

  // ---- verdicts ----
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void discard() { throw Discard(); }
  void require(bool ok) { if (!ok) throw Discard(); }
  // |a-b| <= abs_tol + rel_tol*max(|a|,|b|); NaN never equals anything.
  void near(double a, double b, double abs_tol, double rel_tol, const char* what);

  // The behaviour just seen is the listed finding `id` (KNOWN_FINDINGS): fails
  // unless that file has an open entry for it.
  void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

  // engine internals
  std::vector<uint64_t> choices;
  std::vector<uint64_t> prefix;
  bool replaying = false;
  const uint8_t* bytes = nullptr;  // choices encoded by the coverage-guided driver
  size_t bytes_left = 0;
  uint64_t rng[2];
  size_t pos = 0;
  std::string desc;
  std::map<std::string, uint64_t> labels;
  bool is_nontrivial = false;
  void init_rng(uint64_t a, uint64_t b, uint64_t c);
  uint64_t next();
};

// Deterministic bulk generator for signal content and the like.
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed);
  uint64_t next();
  double unit();              // [0,1)
  double sym();               // [-1,1)
  double gauss();
  int64_t range(int64_t lo, int64_t hi);
};

struct Facet {
  std::string name;
  std::function<void(Case&)> fn;
  int quick;      // cases in the quick tier
  int thorough;   // cases in the thorough tier
  double weight = 1;  // share of the tier's time limit
  bool guided = true; // whether coverage-guided generation makes sense for it
};

struct Property {
  std::string id;
  std::string rule;                     // for the evidence file
  std::vector<std::string> assumptions;
  std::vector<Facet> facets;
  std::function<void()> per_process_init;  // run once in every worker
  int case_cpu_limit_s = 90;   // a case that burns more CPU than this hangs
  size_t mem_limit_mb = 6000;  // per worker, 0 = none
};

int Main(const Property& p, int argc, char** argv);

// A directory private to this process, removed by the engine.
const std::string& ScratchDir();

}  // namespace pbt
#endif
