// Whole-pipeline helpers: managers in every mode, result access.
#ifndef VERIF_LIB_PIPELINE_H_
#define VERIF_LIB_PIPELINE_H_
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <cstring>

#include "lib/common.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

namespace vt {
// What fn returns, run in a process of its own.
inline std::string InChild(Case& c, const std::function<std::string()>& fn) {
  int fd[2];
  if (pipe(fd) != 0) throw std::runtime_error("pipe");
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) throw std::runtime_error("fork");
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval it = {{0, 0}, {80, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
    close(fd[0]);
    std::string s;
    try { s = "+" + fn(); } catch (const pbt::Failure& f) { s = "-" + f.msg; } catch (const std::exception& e) { s = std::string("-exception ") + e.what(); }
    for (size_t k = 0; k < s.size();) { ssize_t n = write(fd[1], s.data() + k, s.size() - k); if (n <= 0) _exit(97); k += size_t(n); }
    _exit(0);
  }
  close(fd[1]);
  std::string s; char buf[65536];
  for (;;) { ssize_t n = read(fd[0], buf, sizeof buf); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; s.append(buf, size_t(n)); }
  close(fd[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the comparing process ended with status %d (%s)", st, WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit");
  c.check(!s.empty() && s[0] == '+', "%s", s.empty() ? "no answer" : s.c_str() + 1);
  return s.substr(1);
}
struct Mode {
  bool speech = false, unscaled = false, lattice = false, no_global = false, no_realign = false;
  int window = 60;
  std::string str() const {
    return std::string(speech ? "speech" : "audio") + (speech ? (lattice ? "/lattice" : unscaled ? "/unscaled" : "/scaled") : "") + (no_global ? " no-global-alignment" : "") + (no_realign ? " no-realignment" : "") + " window=" + std::to_string(window);
  }
};
inline Mode AnyMode(Case& c, bool allow_lattice = true) {
  Mode m;
  m.speech = c.pick({3, 2}) == 0;
  if (m.speech) { size_t k = c.pick({4, 2, allow_lattice ? 1 : 0}); m.unscaled = k == 1; m.lattice = k == 2; }
  m.no_global = c.chance(15);
  m.no_realign = c.chance(25);
  m.window = c.chance(30) ? int(c.range(1, 8)) : 60;
  c.note("mode", m.str());
  return m;
}
// speech-mode frame: 80 ms window, 20 ms hop; the analysis needs a reference of
// at least ~30 frames (speech) or 45 frames (audio).
inline size_t SamplesForFrames(size_t frames, size_t sr) {
  size_t w = size_t(std::round(sr * 0.08)), hop = size_t(w * 0.25);
  return w + 1 + (frames > 0 ? frames - 1 : 0) * hop;
}
inline std::unique_ptr<Visqol::VisqolManager> MakeManager(const Mode& m) {
  auto v = std::make_unique<Visqol::VisqolManager>();
  auto st = v->Init(Visqol::FilePath(m.speech ? LatticeModel() : SvrModel()), m.speech, m.unscaled, m.window, m.lattice, m.no_global, m.no_realign);
  if (!st.ok()) throw pbt::Failure{"initialisation failed for " + m.str() + ": " + st.ToString()};
  return v;
}
// Managers are cached per mode within a case's process only where the property
// under test is not about history.
inline Visqol::VisqolManager& CachedManager(const Mode& m) {
  static std::map<std::string, std::unique_ptr<Visqol::VisqolManager>> cache;
  auto& p = cache[m.str()];
  if (!p) p = MakeManager(m);
  return *p;
}
inline absl::StatusOr<Visqol::SimilarityResultMsg> RunPair(Visqol::VisqolManager& v, const Vec& ref, const Vec& deg, size_t sr) {
  Visqol::AudioSignal r = Sig(ref, sr), d = Sig(deg, sr);
  return v.Run(r, d);
}
// A pair for a whole comparison: a reference long enough for a few patches and
// a degraded version of it.
struct Pair { Vec x, y; size_t sr; std::string how; };
inline Pair AnyPair(Case& c, bool allow_degenerate = true, int64_t max_frames = 100) {
  Pair p;
  p.sr = c.of<size_t>({8000, 8000, 8000, 4000, 16000, 11025});
  GenSignal g = AnySignal(c, "ref", SamplesForFrames(size_t(c.range(46, max_frames)), p.sr) + size_t(c.range(0, 150)), p.sr, allow_degenerate);
  p.x = g.v;
  p.y = Degrade(c, p.x, p.sr, &p.how);
  c.note("rate", p.sr); c.note("degraded", p.how + " n=" + std::to_string(p.y.size()));
  return p;
}
// How long a frame of a patch is taken to last.
inline double HopSeconds(size_t sr) { return double(size_t(std::round(sr * 0.08) * 0.25)) / double(sr); }
// A pair whose match lies just inside or just outside of a search radius of so
// many patches, further off than global alignment goes: tells neighbouring
// radii apart.
inline Pair FarPair(Case& c, bool speech, int radius, size_t sr = 0) {
  Pair p; p.sr = sr ? sr : c.of<size_t>({400, 500, 800});
  size_t P = speech ? 20 : 30, hop = size_t(std::round(p.sr * 0.08) * 0.25);
  Rng r(c.seed());
  size_t n = SamplesForFrames(size_t(c.range(int64_t(P) + 22, int64_t(P) * 2 + 20)), p.sr);
  p.x = Bursts(r, n, p.sr); ScaleToPeak(p.x, 0.5);
  int64_t off = int64_t(radius) * int64_t(P) + (c.chance(50) ? -c.range(1, int64_t(P) / 2) : c.range(2, int64_t(P) / 2));
  p.y = Bursts(r, size_t(std::max<int64_t>(off, 0)) * hop, p.sr);
  for (auto& v : p.x) p.y.push_back(v);
  Vec tail = Bursts(r, size_t(c.range(1, 40)) * hop, p.sr); for (double v : tail) p.y.push_back(v);
  ScaleToPeak(p.y, 0.5);
  p.how = "found " + std::to_string(off) + " frames on";
  c.note("far pair", p.how + " at " + std::to_string(p.sr) + " Hz");
  return p;
}
// Whether two outcomes are the same, field by field. Empty when they are.
inline std::string Difference(const absl::StatusOr<Visqol::SimilarityResultMsg>& a, const absl::StatusOr<Visqol::SimilarityResultMsg>& b, double tol = 1e-9) {
  if (a.ok() != b.ok()) return (a.ok() ? "scored" : a.status().ToString()) + " against " + (b.ok() ? "scored" : b.status().ToString());
  if (!a.ok()) return a.status().code() == b.status().code() ? "" : a.status().ToString() + " against " + b.status().ToString();
  if (a->SerializeAsString() == b->SerializeAsString()) return "";
  std::ostringstream s; s.precision(15);
  auto near = [&](double x, double y, const char* what, int i) {
    bool same = x == y || (std::isnan(x) && std::isnan(y)) || std::fabs(x - y) <= tol * std::max({1.0, std::fabs(x), std::fabs(y)});
    if (!same && s.str().empty()) s << what << " " << i << ": " << x << " against " << y;
  };
  auto list = [&](auto& x, auto& y, const char* what) {
    if (x.size() != y.size()) { if (s.str().empty()) s << x.size() << " against " << y.size() << " of " << what; return; }
    for (int i = 0; i < x.size(); ++i) near(x[i], y[i], what, i);
  };
  near(a->moslqo(), b->moslqo(), "score", 0); near(a->vnsim(), b->vnsim(), "similarity", 0); near(a->alignment_lag_s(), b->alignment_lag_s(), "lag", 0);
  list(a->fvnsim(), b->fvnsim(), "band similarity"); list(a->fvnsim10(), b->fvnsim10(), "band worst decile"); list(a->fstdnsim(), b->fstdnsim(), "band deviation");
  list(a->fvdegenergy(), b->fvdegenergy(), "band energy"); list(a->center_freq_bands(), b->center_freq_bands(), "band centre");
  if (a->patch_sims_size() != b->patch_sims_size()) { s << a->patch_sims_size() << " against " << b->patch_sims_size() << " patches"; return s.str(); }
  for (int k = 0; k < a->patch_sims_size(); ++k) {
    auto &p = a->patch_sims(k), &q = b->patch_sims(k);
    near(p.similarity(), q.similarity(), "similarity of patch", k); list(p.freq_band_means(), q.freq_band_means(), "patch band similarity");
    near(p.ref_patch_start_time(), q.ref_patch_start_time(), "reference start of patch", k); near(p.ref_patch_end_time(), q.ref_patch_end_time(), "reference end of patch", k);
    near(p.deg_patch_start_time(), q.deg_patch_start_time(), "degraded start of patch", k); near(p.deg_patch_end_time(), q.deg_patch_end_time(), "degraded end of patch", k);
  }
  if (a->reference_filepath() != b->reference_filepath()) s << "reference path " << a->reference_filepath() << " against " << b->reference_filepath();
  if (a->degraded_filepath() != b->degraded_filepath()) s << "degraded path " << a->degraded_filepath() << " against " << b->degraded_filepath();
  return s.str();
}
}  // namespace vt
#endif
