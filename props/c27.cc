// C27: what a comparison takes it gives back, however many come after it.
#include <dirent.h>
#include <sys/stat.h>

#include <atomic>
#include <cstdlib>
#include <iostream>

#include "commandline_parser.h"
#include "lib/pipeline.h"
#include "lib/wav.h"
#include "misc_audio.h"
#include "sim_results_writer.h"
#include "src/proto/visqol_config.pb.h"
#include "support_vector_regression_model.h"
#include "visqol_api.h"
using namespace vt;
namespace V = Visqol;

// The bytes in use. The C library's allocator is wrapped, so that what C
// libraries allocate counts too; under a sanitizer, its own count is used.
#if defined(__SANITIZE_ADDRESS__)
#define VERIF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VERIF_ASAN 1
#endif
#endif
#ifdef VERIF_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static int64_t InUse() { return int64_t(__sanitizer_get_current_allocated_bytes()); }
#else
#include <errno.h>
#include <malloc.h>
static std::atomic<int64_t> g_bytes;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
// What was asked for is kept behind each block: the size that the allocator
// gives differs from one time to the next with how the heap lies.
static const size_t kTail = 16; static const uint64_t kMark = 0x9b97f4a7c15d3e01ull;
static int64_t Asked(void* p) {
  uint64_t t[2]; memcpy(t, static_cast<char*>(p) + malloc_usable_size(p) - kTail, kTail);
  return t[1] == (t[0] ^ uint64_t(uintptr_t(p)) ^ kMark) ? int64_t(t[0]) : 0;
}
static void* Took(void* p, size_t n) {
  if (!p) return p;
  uint64_t t[2] = {n, n ^ uint64_t(uintptr_t(p)) ^ kMark}; memcpy(static_cast<char*>(p) + malloc_usable_size(p) - kTail, t, kTail);
  g_bytes += int64_t(n);
  return p;
}
static bool Fits(size_t n) { return n < SIZE_MAX - kTail; }
void* malloc(size_t n) { return Fits(n) ? Took(__libc_malloc(n + kTail), n) : nullptr; }
void free(void* p) { if (p) g_bytes -= Asked(p); __libc_free(p); }
void* calloc(size_t n, size_t m) { size_t all; return !__builtin_mul_overflow(n, m, &all) && Fits(all) ? Took(__libc_calloc(1, all + kTail), all) : nullptr; }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) { free(p); return nullptr; }
  if (!Fits(n)) return nullptr;
  int64_t was = Asked(p); void* q = __libc_realloc(p, n + kTail);
  if (q) g_bytes -= was;
  return Took(q, n);
}
void* memalign(size_t a, size_t n) { return Fits(n) ? Took(__libc_memalign(a, n + kTail), n) : nullptr; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
}
static int64_t InUse() { return g_bytes; }
#endif
static int64_t Entries(const char* dir) {
  int64_t n = 0; DIR* d = opendir(dir);
  if (!d) return 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

struct NoConsole {  // takes over std::cout
  struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } } null;
  std::streambuf* old;
  NoConsole() : old(std::cout.rdbuf(&null)) {}
  ~NoConsole() { std::cout.rdbuf(old); }
};
static const int kRounds = 32, kWindow = 9, kWarm = 4;
struct Series {
  int64_t v[kRounds];
  int64_t Max(int a, int b) const { return *std::max_element(v + a, v + b); }
  int64_t Min(int a, int b) const { return *std::min_element(v + a, v + b); }
  // Whether it was higher at the end than it ever was near the start and, when
  // the rounds were not alike and one of them may have raised it once, in the
  // middle than near the start and at the end than in the middle.
  bool Grew(bool alike) const {
    return alike ? Min(kRounds - kWindow, kRounds) > Max(kWarm, kWarm + kWindow) : Min(13, 18) > Max(kWarm, 9) && Min(23, kRounds) > Max(13, 18);
  }
};
struct Item { Vec x, y; size_t sr, sr2; std::string what; };
static Item AnyItem(Case& c) {
  Item it; it.sr = it.sr2 = c.chance(3) ? 8000 : c.of<size_t>({400, 500, 800});
  Rng r(c.seed());
  size_t n = SamplesForFrames(size_t(c.range(46, 70)), it.sr) + size_t(c.range(0, 9));
  it.x = Bursts(r, n, it.sr); ScaleToPeak(it.x, 0.6);
  switch (c.pick({8, 2, 1, 1, 1, 1, 1, 1, 1})) {
    case 0: it.y = Degrade(c, it.x, it.sr, &it.what); break;
    case 1: it.y = it.x; it.what = "identical"; break;
    case 2: it.y = it.x; it.x.clear(); it.what = "empty reference"; break;
    case 3: it.what = "empty degraded"; break;
    case 4: it.y = it.x; it.sr2 = it.sr * 2; it.what = "two rates"; break;
    case 5: it.x.resize(size_t(c.range(1, int64_t(it.sr) * 8 / 100))); it.y = it.x; it.what = "less than a window"; break;
    case 6: it.x.resize(size_t(it.sr * 0.08) * 3); it.y = it.x; it.what = "less than a patch"; break;
    case 7: it.y.assign(size_t(c.range(1, 5)), 0.1); it.what = "a few degraded samples"; break;
    case 8: it.y = it.x; std::fill(it.x.begin(), it.x.end(), 0.0); it.what = "silent reference"; break;
  }
  if (it.sr == 8000 && it.x.size() > 6000) it.what += ", long";
  return it;
}
static void History(Case& c) {
  std::vector<Mode> modes; std::vector<Item> items;
  size_t nm = size_t(c.range(1, 2)), ni = size_t(c.range(1, 2));
  for (size_t i = 0; i < nm; ++i) modes.push_back(AnyMode(c));
  for (size_t i = 0; i < ni; ++i) items.push_back(AnyItem(c));
  static const char* names[] = {"compare", "compare files", "initialise", "initialise badly", "fresh instance", "interface", "train", "write", "decode", "batch file", "load a model", "train or load again", "interface again"};
  struct Op { size_t kind, item, mode; int variant; };
  std::vector<Op> ops; std::string trace;
  bool persistent = false;
  size_t steps = size_t(c.range(1, 5));
  for (size_t s = 0; s < steps; ++s) {
    Op o{c.pick({6, 4, 3, 2, 4, 4, 2, 3, 3, 2, 1, 3, 3}), size_t(c.draw(ni - 1)), size_t(c.draw(nm - 1)), int(c.draw(5))};
    trace += std::string(s ? ", " : "") + names[o.kind] + (o.kind < 3 || o.kind == 4 || o.kind == 5 || o.kind == 8 ? " " + std::to_string(o.item) + "/" + std::to_string(o.variant) : "");
    ops.push_back(o); persistent |= o.kind < 4;
    c.label(names[o.kind]);
  }
  for (auto& it : items) trace += "; " + it.what + "@" + std::to_string(it.sr);
  c.note_str("round", trace);
  // What changes from round to round. The lengths and the rates go down, so
  // that what an instance keeps for reuse is largest in the first round.
  bool vary = c.chance(40), lengths = c.chance(35), rates = c.chance(15), names_vary = c.chance(25);
  if (vary) { c.note("content", "varies"); c.label("content varies"); }
  if (lengths) { c.note("lengths", "vary"); c.label("lengths vary"); }
  if (rates) { c.note("rates", "vary"); c.label("rates vary"); }
  if (names_vary) { c.note("names", "vary"); c.label("file names vary"); }
  const size_t step = size_t(c.range(1, 9));
  std::string dir = pbt::ScratchDir() + "/c27", bad = "RIFFxxxxWAVEfmt bad";
  mkdir(dir.c_str(), 0700);
  const std::vector<Item> original = items;
  std::vector<std::string> wavs(ni);
  WriteFile(dir + "/bad.wav", bad);
  WriteFile(dir + "/batch.csv", "reference,degraded\na.wav,b.wav\r\n\nc.wav,d.wav\nonly\n");
  WriteFile(dir + "/bad.model", c.chance(50) ? "" : "svm_type nonsense\n");
  V::SimilarityResultMsg msg;
  for (int b = 0; b < 21; ++b) { msg.add_fvnsim(0.1 * b); msg.add_fvnsim10(0.2); msg.add_fstdnsim(0.1); msg.add_fvdegenergy(3); msg.add_center_freq_bands(100 * b); }
  msg.add_patch_sims()->set_similarity(0.5); msg.set_moslqo(3);
  static Series mem, fds, tasks;
  int scored = 0, refused = 0;
  NoConsole quiet;
  {
    std::unique_ptr<V::VisqolManager> kept;
    if (persistent) kept = MakeManager(modes[0]);
    V::SupportVectorRegressionModel kept_svr; V::VisqolApi kept_api;
    for (int round = 0; round < kRounds; ++round) {
      remove((dir + "/out.csv").c_str()); remove((dir + "/out.json").c_str());
      std::string id = names_vary ? std::to_string(100 + round) : "0", none = dir + "/none" + id, missing = dir + "/missing" + id + ".wav";
      for (size_t i = 0; i < ni && (round == 0 || lengths || rates || names_vary); ++i) {
        Item& it = items[i]; it = original[i];
        if (lengths) for (Vec* v : {&it.x, &it.y}) if (v->size() > kRounds * step + 50) v->resize(v->size() - size_t(round) * step);
        if (rates) { it.sr -= size_t(round); it.sr2 -= size_t(round); }
        wavs[i] = WavBytes(ToPcm(it.x), 1, uint32_t(it.sr));
        WriteFile(dir + "/r" + std::to_string(i) + id + ".wav", wavs[i]); WriteFile(dir + "/d" + std::to_string(i) + id + ".wav", WavBytes(ToPcm(it.y), 1, uint32_t(it.sr2)));
      }
      for (auto& o : ops) {
        const Item& it = items[o.item]; const Mode& m = modes[o.mode];
        std::string i = std::to_string(o.item) + id;
        auto count = [&](bool ok) { ++(ok ? scored : refused); };
        V::AudioSignal r = Sig(it.x, it.sr), d = Sig(it.y, it.sr2);
        if (vary && r.data_matrix.NumElements() && d.data_matrix.NumElements()) { r.data_matrix(0) += 1e-3 * round; d.data_matrix(0) += 1e-3 * (round * 7 % 5); }
        switch (o.kind) {
          case 0: count(kept->Run(r, d).ok()); break;
          case 1: {
            std::string x = dir + "/r" + i + ".wav", y = dir + "/d" + i + ".wav";
            if (o.variant == 1) y = missing; else if (o.variant == 2) x = missing; else if (o.variant == 3) y = dir + "/bad.wav"; else if (o.variant == 4) x = dir;
            count(kept->Run(V::FilePath(x), V::FilePath(y)).ok()); break;
          }
          case 2: kept->Init(V::FilePath(m.speech ? LatticeModel() : SvrModel()), m.speech, m.unscaled, m.window, m.lattice, m.no_global, m.no_realign).IgnoreError(); break;
          case 3: kept->Init(V::FilePath(o.variant == 3 ? dir + "/bad.model" : none), o.variant % 3 == 0, false, 60, o.variant % 3 == 0, false, false).IgnoreError(); break;
          case 4: { auto v = MakeManager(m); count(v->Run(r, d).ok()); if (o.variant > 3) count(v->Run(r, d).ok()); break; }
          case 5: case 12: {
            V::VisqolConfig g; V::VisqolApi own; V::VisqolApi& api = o.kind == 12 ? kept_api : own;
            if (o.variant != 1) g.mutable_audio()->set_sample_rate(o.variant == 2 ? 0 : uint32_t(it.sr));
            auto* q = g.mutable_options(); q->set_allow_unsupported_sample_rates(o.variant != 3); q->set_use_speech_scoring(m.speech); q->set_use_lattice_model(m.lattice); q->set_svr_model_path(o.variant == 4 ? none : m.speech ? LatticeModel() : SvrModel());
            if (!api.Create(g).ok()) { ++refused; break; }
            Vec a = it.x, b = it.y;
            count(api.Measure(absl::MakeSpan(a), absl::MakeSpan(b)).ok()); break;
          }
          case 6: case 11: {
            size_t n = 6 + size_t(o.variant) * 4, f = 1 + size_t(o.variant);
            std::vector<Vec> ob(n, Vec(f)); Vec t(n); Rng q(5);
            for (size_t k = 0; k < n; ++k) { for (auto& e : ob[k]) e = q.unit(); t[k] = 1 + 4 * q.unit(); }
            V::SupportVectorRegressionModel own; V::SupportVectorRegressionModel& svr = o.kind == 11 ? kept_svr : own;
            if (o.kind == 11 && o.variant % 3 == 1) { if (svr.Init(V::FilePath(SvrModel())).ok()) (void)svr.Predict(Vec(10, 0.5)); break; }
            if (o.kind == 11 && o.variant == 5) { (void)svr.Init(V::FilePath(none)).ok(); break; }
            svr.Init(ob, t); (void)svr.Predict(ob[0]); break;
          }
          case 7: V::SimilarityResultsWriter::Write(o.variant % 2, V::FilePath(o.variant % 3 ? dir + "/out.csv" : ""), V::FilePath(o.variant % 3 != 1 ? dir + "/out.json" : ""), msg, true, false); break;
          case 8: {
            if (o.variant < 2) { std::stringstream ss(o.variant ? bad : wavs[o.item]); count(V::MiscAudio::LoadAsMono(&ss).data_matrix.NumElements() != 0); }
            else count(V::MiscAudio::LoadAsMono(V::FilePath(dir + (o.variant == 2 ? "/bad.wav" : o.variant == 3 ? "/missing" + id + ".wav" : "/r" + i + ".wav"))).data_matrix.NumElements() != 0);
            break;
          }
          case 9: { V::CommandLineArgs a{}; a.batch_input_csv = V::FilePath(dir + (o.variant ? "/batch.csv" : "/missing.csv")); (void)V::VisqolCommandLineParser::BuildFilePairPaths(a); break; }
          case 10: { V::SupportVectorRegressionModel svr; (void)svr.Init(V::FilePath(o.variant ? SvrModel() : none)).ok(); break; }
        }
      }
      if (names_vary) for (size_t i = 0; i < ni; ++i) for (const char* k : {"/r", "/d"}) remove((dir + k + std::to_string(i) + id + ".wav").c_str());
      mem.v[round] = InUse(); fds.v[round] = Entries("/proc/self/fd"); tasks.v[round] = Entries("/proc/self/task");
    }
  }
  if (mem.Grew(!lengths && !rates)) c.fail("the memory in use grows: %lld bytes after %d rounds, %lld after %d", (long long)mem.v[kWarm], kWarm + 1, (long long)mem.v[kRounds - 1], kRounds);
  if (fds.Grew(!lengths && !rates)) c.fail("the open files grow: %lld after %d rounds, %lld after %d", (long long)fds.v[kWarm], kWarm + 1, (long long)fds.v[kRounds - 1], kRounds);
  if (tasks.Grew(!lengths && !rates)) c.fail("the threads grow: %lld after %d rounds, %lld after %d", (long long)tasks.v[kWarm], kWarm + 1, (long long)tasks.v[kRounds - 1], kRounds);
  if (mem.v[kWarm] == mem.v[kRounds - 1]) c.label("exactly as before");
  if (scored) c.label("scored"); if (refused) c.label("refused");
  c.nontrivial(scored + refused > 0);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C27";
  p.rule = "histories: a random round of one to five operations (comparisons in memory and of files, scored and refused, on a kept and on fresh instances, good and bad initialisations, the public interface, training, model loading, decoding, reading batch files, writing results) is made 32 times, the same each time or with other samples, lengths, rates or file names, and the allocated bytes, open files and threads are counted after each; non-trivial when something was compared or decoded";
  p.assumptions = {"libsvm (a system library here) does not close a model file whose header it cannot read; rounds with such a file are not generated", "growth is when the lowest count of the last nine rounds is above the highest of rounds 5 to 13; when the signals get shorter or their rate lower from round to round, when the lowest of rounds 14 to 18 is above the highest of 5 to 9 and the lowest of the last nine above the highest of 14 to 18"};
  p.facets = {{"histories", History, 700, 40000, 1}};
  return pbt::Main(p, argc, argv);
}
