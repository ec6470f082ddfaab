#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <math.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <set>
#include <stdexcept>
#include <typeinfo>
#include <unordered_set>

namespace pbt {
namespace {
uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return Mix(h);
}
uint64_t Rot(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t NextXoro(uint64_t* s) {
  uint64_t s0 = s[0], s1 = s[1], r = s0 + s1;
  s1 ^= s0;
  s[0] = Rot(s0, 24) ^ s1 ^ (s1 << 16);
  s[1] = Rot(s1, 37);
  return r;
}
double Now() {
  struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

const size_t kMaxChoices = 1 << 18;
// Choices of the case in flight, visible to the parent if the child dies.
struct Shared {
  char desc[6400];  // what the case noted so far, for cases that never return
  volatile uint64_t n;
  volatile int64_t case_index;
  volatile uint64_t done;
  volatile uint64_t choices[kMaxChoices];
};
Shared* g_shared = nullptr;
volatile int* g_stop = nullptr;

std::string Escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
int RmCb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
void RemoveTree(const std::string& d) {
  if (d.find("/pbt-scratch-") == std::string::npos) return;
  nftw(d.c_str(), RmCb, 16, FTW_DEPTH | FTW_PHYS);
}
std::string g_scratch_root, g_scratch;
std::map<std::string, std::string> g_findings;  // open ones: id -> line
// KNOWN_FINDINGS lines: "open: property=C24 id=some-id text" and "fixed: ...".
void LoadFindings(const std::string& path, const std::string& prop) {
  std::ifstream f(path);
  std::string l, a, b, c;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    if (!(s >> a >> b >> c) || a != "open:" || b != "property=" + prop || c.compare(0, 3, "id=")) continue;
    std::string text; std::getline(s, text);
    g_findings[c.substr(3)] = text;
  }
}
}  // namespace

const std::string& ScratchDir() { return g_scratch; }

// ---------------------------------------------------------------- Case
void Case::init_rng(uint64_t a, uint64_t b, uint64_t c) {
  rng[0] = Mix(Mix(Mix(a) ^ b) ^ c);
  rng[1] = Mix(rng[0] ^ 0x1234567);
}
uint64_t Case::next() { return NextXoro(rng); }
uint64_t Case::draw(uint64_t max) {
  uint64_t v;
  if (pos < prefix.size()) v = std::min(prefix[pos], max);
  else if (replaying) v = 0;
  else if (size_t w = max < 1u << 8 ? 1 : max < 1u << 16 ? 2 : max < 1ull << 32 ? 4 : 8; bytes_left >= w) {
    v = 0;
    for (size_t i = 0; i < w; ++i) v |= uint64_t(bytes[i]) << 8 * i;
    bytes += w; bytes_left -= w;
    if (max != ~0ull) v %= max + 1;
  }
  else if (max == ~0ull) v = next();
  else v = (uint64_t)(((unsigned __int128)next() * (max + 1)) >> 64);
  ++pos;
  choices.push_back(v);
  if (choices.size() > kMaxChoices - 1) { fprintf(stderr, "too many choices\n"); _exit(97); }
  if (g_shared) {
    g_shared->choices[choices.size() - 1] = v;
    g_shared->n = choices.size();
  }
  return v;
}
int64_t Case::range(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  return lo + (int64_t)draw((uint64_t)(hi - lo));
}
int64_t Case::size(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  // Pick a magnitude first, so small sizes are as likely as big ones.
  int bits = 0;
  while ((hi - lo) >> bits) ++bits;
  int b = (int)draw(bits);
  uint64_t m = b == 0 ? 0 : ((1ull << b) - 1);
  m = std::min<uint64_t>(m, hi - lo);
  return lo + (int64_t)draw(m);
}
bool Case::chance(int percent) { return (int)draw(99) >= 100 - percent; }
size_t Case::pick(std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int v = (int)draw(tot - 1);
  size_t i = 0;
  for (int x : w) { if (v < x) return i; v -= x; ++i; }
  return 0;
}
double Case::unit() { return draw((1ull << 53) - 1) * (1.0 / 9007199254740992.0); }
double Case::real(double lo, double hi) { return lo + (hi - lo) * unit(); }
void Case::note_str(const char* k, const std::string& v) {
  if (desc.size() < 6000) { if (!desc.empty()) desc += "; "; desc += k; desc += "="; desc += v; }
  if (g_shared) { size_t n = std::min(desc.size(), sizeof g_shared->desc - 1); memcpy(g_shared->desc, desc.data(), n); g_shared->desc[n] = 0; }
}
void Case::fail(const char* fmt, ...) {
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{b};
}
void Case::check(bool ok, const char* fmt, ...) {
  if (ok) return;
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{b};
}
void Case::near(double a, double b, double at, double rt, const char* what) {
  if (a == b) return;
  double m = std::max(fabs(a), fabs(b));
  if (fabs(a - b) <= at + rt * m) return;
  fail("%s: got %.17g, expected %.17g (diff %.3g, tolerance %.3g)", what, a, b, a - b, at + rt * m);
}
void Case::known(const char* id, const char* fmt, ...) {
  if (g_findings.count(id)) { labels[std::string("known finding ") + id] += 1; return; }
  char b[3000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Failure{b};
}
Rng::Rng(uint64_t seed) { s[0] = Mix(seed); s[1] = Mix(s[0] ^ 77); }
uint64_t Rng::next() { return NextXoro(s); }
double Rng::unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
double Rng::sym() { return 2 * unit() - 1; }
double Rng::gauss() {
  double u = unit(), v = unit();
  return sqrt(-2 * log(1 - u)) * cos(2 * M_PI * v);
}
int64_t Rng::range(int64_t lo, int64_t hi) { return lo + (int64_t)(unit() * (double)(hi - lo + 1)); }

// ---------------------------------------------------------------- runner
namespace {
enum Verdict { kPass = 0, kFail = 1, kDiscard = 2 };
struct Outcome { Verdict v; std::string msg; };

Outcome RunOne(const Facet& f, Case& c) {
  try {
    f.fn(c);
    return {kPass, ""};
  } catch (const Discard&) {
    return {kDiscard, ""};
  } catch (const Failure& e) {
    return {kFail, e.msg};
  } catch (const std::bad_alloc& e) {
    return {kFail, std::string("uncaught std::bad_alloc: the code under test asked for more memory than a worker has")};
  } catch (const std::exception& e) {
    return {kFail, std::string("uncaught exception ") + typeid(e).name() + ": " + e.what()};
  }
}

void LimitProcess(const Property& p) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(PBT_FUZZ)
  if (p.mem_limit_mb) {
    struct rlimit as = {p.mem_limit_mb << 20, p.mem_limit_mb << 20};
    setrlimit(RLIMIT_AS, &as);
  }
#endif
}
void ArmTimer(const Property& p) {
  struct itimerval it = {{0, 0}, {p.case_cpu_limit_s, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);  // CPU time of this process
}
void Redirect(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}
std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s; s << f.rdbuf(); return s.str();
}
std::string SignalName(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGPROF) return "hang: the case used more CPU time than its limit";
    return std::string("killed by signal ") + strsignal(s);
  }
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

// One case in a child of its own. Returns the verdict; fills what it can.
struct ChildResult { Verdict v; std::string msg, desc; std::vector<uint64_t> choices; bool crashed = false; };
ChildResult RunInChild(const Property& p, const Facet& f, const std::vector<uint64_t>& choices, bool keep_log = false) {
  std::string base = g_scratch_root + "/child";
  std::string out = base + ".out", log = base + ".log", scratch = base + ".d";
  unlink(out.c_str());
  mkdir(scratch.c_str(), 0755);
  g_shared->n = 0; g_shared->desc[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    LimitProcess(p);
    g_scratch = scratch;
    Redirect(log);
    if (p.per_process_init) p.per_process_init();
    Case c;
    c.prefix = choices; c.replaying = true;
    ArmTimer(p);
    Outcome o = RunOne(f, c);
    std::ofstream w(out, std::ios::binary);
    w << int(o.v) << "\n" << o.msg.size() << "\n" << o.msg << c.desc;
    w.close();
    _exit(w ? 0 : 98);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ChildResult r;
  r.choices.assign(g_shared->choices, g_shared->choices + std::min<uint64_t>((uint64_t)g_shared->n, kMaxChoices));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::ifstream i(out, std::ios::binary);
    int v; size_t n; i >> v >> n; i.get();
    r.v = Verdict(v); r.msg.resize(n); i.read(&r.msg[0], n);
    std::stringstream s; s << i.rdbuf(); r.desc = s.str();
  } else {
    r.v = kFail; r.crashed = true; r.desc = g_shared->desc;
    r.msg = "crash: " + SignalName(st);
    std::string l = Slurp(log);
    size_t k = l.find("ERROR: AddressSanitizer");
    if (k == std::string::npos) k = l.find("runtime error");
    if (k == std::string::npos) k = l.find("WARNING: ThreadSanitizer");
    if (k == std::string::npos) k = l.rfind("terminate called");
    if (k == std::string::npos) k = l.rfind("Assertion");
    if (k != std::string::npos) { size_t b = l.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; r.msg += " | " + l.substr(b, 700); }
  }
  RemoveTree(scratch);
  return r;
}

std::vector<uint64_t> Shrink(const Property& p, const Facet& f, std::vector<uint64_t> best, double budget_s, int* attempts) {
  double end = Now() + budget_s;
  auto tryit = [&](const std::vector<uint64_t>& c) {
    if (Now() > end) return false;
    ++*attempts;
    ChildResult r = RunInChild(p, f, c);
    if (r.v != kFail) return false;
    // Accept only what is simpler: shorter, or lexicographically smaller.
    auto& n = r.choices.size() < c.size() ? r.choices : c;
    if (n.size() < best.size() || (n.size() == best.size() && n < best)) { best = n; return true; }
    return false;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    for (size_t len = std::min<size_t>(best.size() / 2, 64); len >= 1 && Now() < end; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && Now() < end;) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (tryit(c)) progress = true; else i += len;
      }
    }
    for (size_t len = std::min<size_t>(best.size() / 2, 32); len >= 1 && Now() < end; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && Now() < end; i += len) {
        bool nz = false;
        for (size_t k = 0; k < len; ++k) nz |= best[i + k] != 0;
        if (!nz) continue;
        auto c = best;
        std::fill(c.begin() + i, c.begin() + i + len, 0);
        if (tryit(c)) progress = true;
        if (i >= best.size()) break;
      }
    }
    for (size_t i = 0; i < best.size() && Now() < end; ++i) {
      if (!best[i]) continue;
      uint64_t lo = 0, hi = best[i];
      int steps = 0;
      while (lo < hi && steps++ < 40 && Now() < end && i < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best; c[i] = mid;
        if (tryit(c)) { progress = true; if (i >= best.size()) break; hi = std::min(mid, best[i]); }
        else lo = mid + 1;
      }
    }
  }
  return best;
}

struct WorkerStats {
  uint64_t evals = 0, discards = 0, nontriv = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  std::vector<std::string> samples;
};
void WriteStats(const std::string& path, const WorkerStats& s) {
  std::ofstream o(path, std::ios::binary);
  o << s.evals << " " << s.discards << " " << s.nontriv << "\n" << s.labels.size() << "\n";
  for (auto& l : s.labels) o << l.second << " " << l.first << "\n";
  o << s.hashes.size() << "\n";
  for (auto h : s.hashes) o << h << "\n";
  o << s.samples.size() << "\n";
  for (auto& x : s.samples) o << x.size() << "\n" << x << "\n";
}
bool ReadStats(const std::string& path, WorkerStats& s) {
  std::ifstream i(path, std::ios::binary);
  if (!i) return false;
  uint64_t a, b, c, n; i >> a >> b >> c >> n;
  s.evals += a; s.discards += b; s.nontriv += c;
  for (uint64_t k = 0; k < n; ++k) { uint64_t v; std::string l; i >> v; i.get(); std::getline(i, l); s.labels[l] += v; }
  i >> n;
  for (uint64_t k = 0; k < n; ++k) { uint64_t h; i >> h; s.hashes.insert(h); }
  i >> n;
  for (uint64_t k = 0; k < n; ++k) { size_t len; i >> len; i.get(); std::string x(len, 0); i.read(&x[0], len); s.samples.push_back(x); }
  return true;
}

#ifdef PBT_FUZZ
// Coverage-guided generation: libFuzzer makes byte strings, which are read as
// choices; choices beyond the end of the string come from a generator seeded
// with it.
extern "C" int LLVMFuzzerRunDriver(int*, char***, int (*)(const uint8_t*, size_t));
struct FuzzState { const Property* p; const Facet* f; WorkerStats st; std::string stats; double last_save, end; } *g_fuzz;
void FuzzSave() { WriteStats(g_fuzz->stats, g_fuzz->st); g_shared->done = 1; }
int FuzzOne(const uint8_t* data, size_t n) {
  auto& s = *g_fuzz; auto& st = s.st;
  if (*g_stop || Now() > s.end) { FuzzSave(); _exit(0); }
  Case c;
  c.init_rng(HashStr(std::string((const char*)data, n)), 1, 2);
  c.bytes = data; c.bytes_left = n;
  g_shared->n = 0; g_shared->case_index = int64_t(st.evals + st.discards);
  ArmTimer(*s.p);
  Outcome o = RunOne(*s.f, c);
  if (o.v == kDiscard) { st.discards++; return -1; }
  st.evals++;
  for (auto& l : c.labels) st.labels[l.first] += 1;
  if (c.is_nontrivial) {
    st.nontriv++;
    if (st.hashes.size() < 2000000) st.hashes.insert(HashStr(std::string((const char*)c.choices.data(), c.choices.size() * 8)));
    if (st.evals > 1000 && st.samples.size() < 2) st.samples.push_back(c.desc);
  }
  if (o.v == kFail) {
    std::ofstream m(s.stats + ".fail", std::ios::binary); m << o.msg; m.close();
    WriteStats(s.stats, st);
    _exit(3);
  }
  if (Now() - s.last_save > 5) {
    WriteStats(s.stats, st); s.last_save = Now();
    if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET);
  }
  return 0;
}
[[noreturn]] void FuzzWorker(const Property& p, const Facet& f, const std::string& stats, const std::string& corpus, uint64_t seed, int w, double end) {
  g_fuzz = new FuzzState{&p, &f, {}, stats, Now(), end};
  mkdir(corpus.c_str(), 0755);
  std::vector<std::string> a{"fuzz", corpus, "-seed=" + std::to_string(uint32_t(seed * 1000 + w + 1)), "-max_len=" + std::to_string(w % 2 ? 4096 : 512), "-len_control=20",
                             "-max_total_time=" + std::to_string(int(end - Now()) + 1), "-rss_limit_mb=3500", "-timeout=300", "-use_value_profile=" + std::to_string(w % 4 == 3), "-artifact_prefix=" + g_scratch + "/", "-reload=5", "-verbosity=0", "-detect_leaks=0", "-handle_segv=0", "-handle_abrt=0", "-handle_fpe=0", "-handle_bus=0", "-handle_ill=0"};
  std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  int n = int(a.size()); char** av = v.data();
  atexit(FuzzSave);
  LLVMFuzzerRunDriver(&n, &av, FuzzOne);
  FuzzSave();
  _exit(0);
}
#endif

struct FacetReport { std::string name; WorkerStats st; double wall = 0; int planned = 0; bool cut = false; };
struct Violation { std::string facet, msg, desc; std::vector<uint64_t> choices; };

void WriteReplay(const std::string& path, const Property& p, const Violation& v, uint64_t seed, int64_t index) {
  std::ofstream o(path);
  o << "property " << p.id << "\nfacet " << v.facet << "\nseed " << seed << " case " << index << "\nchoices " << v.choices.size();
  for (auto c : v.choices) o << " " << c;
  o << "\n\n# what failed: " << v.msg << "\n# the case: " << v.desc << "\n";
  o << "# replay: ./check " << p.id << " --replay <this file>\n";
}

}  // namespace

int Main(const Property& p, int argc, char** argv) {
  std::string tier = "quick", replay, evidence, replay_dir = "replays", only, findings = "KNOWN_FINDINGS";
  uint64_t seed = 1; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); double limit = 0; double scale = 1;
  bool verbose = false;
  if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
  if (const char* e = getenv("VERIF_TIER")) if (*e) tier = e;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--replay") replay = val();
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--limit") limit = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--facet") only = val();
    else if (a == "--findings") findings = val();
    else if (a == "-v") verbose = true;
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  LoadFindings(findings, p.id);
  if (workers < 1) workers = 1;
  if (workers > 16) workers = 16;
  bool thorough = tier == "thorough";
  if (limit <= 0) limit = thorough ? 780 : 240;
  double t0 = Now();
  {
    char tmpl[] = "/tmp/pbt-scratch-XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_scratch_root = tmpl;
    g_scratch = g_scratch_root;
  }
  auto shm = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
  std::vector<Shared*> slots;
  for (int i = 0; i <= workers; ++i) slots.push_back(static_cast<Shared*>(shm(sizeof(Shared))));
  g_stop = static_cast<volatile int*>(shm(4096));
  g_shared = slots[workers];

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string w, id, facet; std::vector<uint64_t> ch;
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream s(line); s >> w;
      if (w == "property") s >> id;
      else if (w == "facet") facet = line.substr(6);
      else if (w == "choices") { size_t n; s >> n; for (size_t i = 0; i < n; ++i) { uint64_t v; s >> v; ch.push_back(v); } }
    }
    int rc = 2;
    for (auto& fc : p.facets) if (fc.name == facet) {
      auto r = RunInChild(p, fc, ch);
      printf("case: %s\nverdict: %s %s\n", r.desc.c_str(), r.v == kPass ? "pass" : r.v == kFail ? "FAIL" : "discarded", r.msg.c_str());
      rc = r.v == kFail ? 1 : 0;
      if (rc) printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), replay.c_str());
    }
    if (rc == 2) fprintf(stderr, "no such facet: %s\n", facet.c_str());
    RemoveTree(g_scratch_root);
    return rc;
  }

  std::vector<FacetReport> reports;
  std::vector<Violation> violations;
  double wsum = 0;
#ifdef PBT_FUZZ
  for (auto& f : p.facets) if (f.guided) wsum += f.weight;
  if (wsum == 0) { printf("%s: nothing to guide\n", p.id.c_str()); RemoveTree(g_scratch_root); return 0; }
#else
  for (auto& f : p.facets) wsum += f.weight;
#endif
  double carry = 0;
  for (size_t fi = 0; fi < p.facets.size(); ++fi) {
    const Facet& f = p.facets[fi];
    if (!only.empty() && f.name != only) continue;
#ifdef PBT_FUZZ
    if (!f.guided) continue;
#endif
    int64_t cases = (int64_t)((thorough ? f.thorough : f.quick) * scale);
    double fstart = Now(), budget = limit * f.weight / wsum + carry;
    double fend = fstart + budget;
    *g_stop = 0;
    int nw = (int)std::min<int64_t>(workers, std::max<int64_t>(1, cases));
    struct W { pid_t pid; bool live; std::string stats; int gen; int64_t next; };
    std::vector<W> ws(nw);
    struct Bad { int64_t index; std::vector<uint64_t> ch; std::string msg; };
    std::vector<Bad> bad;
    std::vector<std::string> stat_files;
    auto spawn = [&](int w, int64_t from) {
      fflush(nullptr);
      std::string stats = g_scratch_root + "/st-" + std::to_string(fi) + "-" + std::to_string(w) + "-" + std::to_string(ws[w].gen++);
      ws[w].stats = stats;
      stat_files.push_back(stats);
      slots[w]->case_index = -1; slots[w]->n = 0; slots[w]->done = 0;
      pid_t pid = fork();
      if (pid == 0) {
        LimitProcess(p);
        g_shared = slots[w];
        g_scratch = g_scratch_root + "/w" + std::to_string(w) + "-" + std::to_string(ws[w].gen);
        mkdir(g_scratch.c_str(), 0755);
        std::string log = g_scratch + ".log";
        Redirect(log);
        if (p.per_process_init) p.per_process_init();
#ifdef PBT_FUZZ
        FuzzWorker(p, f, stats, g_scratch_root + "/corpus-" + std::to_string(fi), seed, w, fend);
#endif
        WorkerStats st;
        int rc = 0;
        int64_t since = 0;
        double last_save = Now();
        for (int64_t i = from; i < cases; i += nw) {
          if (*g_stop || Now() > fend) break;
          Case c;
          c.init_rng(seed, HashStr(p.id + "/" + f.name), (uint64_t)i);
          g_shared->n = 0;
          g_shared->case_index = i;
          if (++since % 64 == 0) { if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
          ArmTimer(p);
          Outcome o = RunOne(f, c);
          if (o.v == kDiscard) { st.discards++; continue; }
          st.evals++;
          for (auto& l : c.labels) st.labels[l.first] += 1;
          if (c.is_nontrivial) {
            st.nontriv++;
            st.hashes.insert(HashStr(std::string((const char*)c.choices.data(), c.choices.size() * 8)));
            if (st.samples.size() < 2) st.samples.push_back(c.desc);
          }
          if (o.v == kFail) {
            std::ofstream m(stats + ".fail", std::ios::binary); m << o.msg;
            m.close();
            rc = 3;
            break;
          }
          if (Now() - last_save > 2) { WriteStats(stats, st); last_save = Now(); }
        }
        WriteStats(stats, st);
        g_shared->done = 1;
        _exit(rc);
      }
      ws[w].pid = pid; ws[w].live = true;
    };
    for (int w = 0; w < nw; ++w) { ws[w].gen = 0; spawn(w, w); }
    int live = nw;
    bool stopping = false;
    while (live) {
      int st; pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) { if (errno == EINTR) continue; break; }
      for (int w = 0; w < nw; ++w) if (ws[w].live && ws[w].pid == pid) {
        ws[w].live = false; --live;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w]->done) break;
        if (stopping && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) break;
        Bad b;
        b.index = slots[w]->case_index;
        b.ch.assign(slots[w]->choices, slots[w]->choices + slots[w]->n);
        b.msg = WIFEXITED(st) && WEXITSTATUS(st) == 3 ? Slurp(ws[w].stats + ".fail") : "crash: " + SignalName(st);
        bad.push_back(b);
        *g_stop = 1;
        stopping = true;
        break;
      }
    }
    *g_stop = 1;
    FacetReport rep; rep.name = f.name; rep.planned = (int)cases;
    for (auto& s : stat_files) ReadStats(s, rep.st);
    std::sort(bad.begin(), bad.end(), [](const Bad& a, const Bad& b) { return a.index < b.index; });
    g_shared = slots[workers];
    bool confirmed = false;
    for (auto& b : bad) {
      // A violation must reproduce, three times out of three, on its own.
      int again = 0; ChildResult r;
      for (int k = 0; k < 3; ++k) { r = RunInChild(p, f, b.ch); if (r.v == kFail) ++again; }
      if (again < 3) {
        // Work that depends on thread timing may need more attempts.
        for (int k = 0; k < 20 && again < 3; ++k) { r = RunInChild(p, f, b.ch); if (r.v == kFail) ++again; }
      }
      if (again < 3) {
        printf("note: facet %s case %lld failed once and did not reproduce: %s\n", f.name.c_str(), (long long)b.index, b.msg.c_str());
        continue;
      }
      int attempts = 0;
      auto small = Shrink(p, f, b.ch, thorough ? 60 : 30, &attempts);
      for (int k = 0; k < 10; ++k) { r = RunInChild(p, f, small); if (r.v == kFail) break; }
      if (r.v != kFail) { small = b.ch; for (int k = 0; k < 10; ++k) { r = RunInChild(p, f, small); if (r.v == kFail) break; } }
      Violation v{f.name, r.msg, r.desc, small};
      mkdir(replay_dir.c_str(), 0755);
      std::string name = f.name; std::replace(name.begin(), name.end(), ' ', '-');
      std::string path = replay_dir + "/" + p.id + "-" + name + ".replay";
      WriteReplay(path, p, v, seed, b.index);
      printf("facet %s, case %lld: %s\n  case: %s\n  (%d shrink attempts, %zu choices)\n", f.name.c_str(), (long long)b.index, r.msg.c_str(), r.desc.c_str(), attempts, small.size());
      printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
      fflush(stdout);
      violations.push_back(v);
      confirmed = true;
      break;
    }
    rep.wall = Now() - fstart;
#ifdef PBT_FUZZ
    rep.name += " (coverage-guided)"; cases = 0;
#endif
    rep.cut = !confirmed && rep.st.evals + rep.st.discards < (uint64_t)cases;
    carry = std::max(0.0, budget - rep.wall);
    reports.push_back(rep);
    if (verbose || 1)
      printf("%s/%s: %llu cases (%llu discarded), %llu non-trivial, %zu distinct, %.1fs%s\n", p.id.c_str(), f.name.c_str(),
             (unsigned long long)rep.st.evals, (unsigned long long)rep.st.discards, (unsigned long long)rep.st.nontriv, rep.st.hashes.size(), rep.wall, rep.cut ? " (cut short)" : "");
    if (verbose) for (auto& l : rep.st.labels) printf("    %s: %llu\n", l.first.c_str(), (unsigned long long)l.second);
    fflush(stdout);
    if (confirmed) break;
  }

  std::map<std::string, uint64_t> seen;
  for (auto& r : reports) for (auto& l : r.st.labels) if (!l.first.compare(0, 14, "known finding ")) seen[l.first.substr(14)] += l.second;
  for (auto& s : seen) printf("KNOWN-FINDING: property=%s %s:%s (seen in %llu cases)\n", p.id.c_str(), s.first.c_str(), g_findings[s.first].c_str(), (unsigned long long)s.second);
  uint64_t evals = 0, distinct = 0, discards = 0;
  for (auto& r : reports) { evals += r.st.evals; distinct += r.st.hashes.size(); discards += r.st.discards; }
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct
      << ",\n  \"discarded\": " << discards << ",\n  \"rule\": \"" << Escape(p.rule) << "\",\n  \"facets\": [\n";
    for (size_t i = 0; i < reports.size(); ++i) {
      auto& r = reports[i];
      o << "   {\"name\": \"" << r.name << "\", \"evaluations\": " << r.st.evals << ", \"discarded\": " << r.st.discards << ", \"nontrivial\": " << r.st.nontriv
        << ", \"distinct_nontrivial\": " << r.st.hashes.size() << ", \"wall_s\": " << r.wall << ", \"stopped_by_time_limit\": " << (r.cut ? "true" : "false") << ", \"labels\": {";
      bool first = true;
      for (auto& l : r.st.labels) { o << (first ? "" : ", ") << "\"" << Escape(l.first) << "\": " << l.second; first = false; }
      o << "}}" << (i + 1 < reports.size() ? "," : "") << "\n";
    }
    o << "  ],\n  \"samples\": [\n";
    bool first = true;
    for (auto& r : reports) { int k = 0; for (auto& s : r.st.samples) { if (k++ >= 3) break; o << (first ? "" : ",\n") << "   \"" << r.name << ": " << Escape(s.substr(0, 600)) << "\""; first = false; } }
    o << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); ++i) o << (i ? ", " : "") << "\"" << Escape(p.assumptions[i]) << "\"";
    o << "],\n \"wall_s\": " << Now() - t0 << ",\n \"violations\": " << violations.size() << "\n}\n";
  }
  RemoveTree(g_scratch_root);
  if (!violations.empty()) return 1;
  if (evals == 0) { fprintf(stderr, "no case was evaluated\n"); return 2; }
  printf("%s held on %llu cases (%llu distinct non-trivial), seed %llu, %.1fs\n", p.id.c_str(), (unsigned long long)evals, (unsigned long long)distinct, (unsigned long long)seed, Now() - t0);
  return 0;
}
}  // namespace pbt
