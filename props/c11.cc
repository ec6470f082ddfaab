// C11: instances in different threads do not affect one another.
#include <dlfcn.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "lib/pipeline.h"
#include "src/proto/visqol_config.pb.h"
#include "svm.h"
#include "alignment.h"
#include "comparison_patches_selector.h"
#include "convolution_2d.h"
#include "envelope.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "speech_similarity_to_quality_mapper.h"
#include "support_vector_regression_model.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "vad_patch_creator.h"
#include "xcorr.h"
#include "visqol_api.h"
using namespace vt;
namespace V = Visqol;

// Stands between visqol and libsvm: notes two loads at once, which libsvm's
// loader does not support, and makes them more likely to meet.
static std::atomic<int> g_loading{0}, g_loads{0}, g_overlaps{0}, g_pause_us{0};
extern "C" struct svm_model* svm_load_model(const char* path) {
  typedef svm_model* (*Fn)(const char*);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "svm_load_model"));
  if (g_loading.fetch_add(1) > 0) g_overlaps++;
  g_loads++;
  usleep(g_pause_us.load());
  static std::mutex guard;  // so that an overlap is reported, not suffered
  svm_model* m;
  { std::lock_guard<std::mutex> l(guard); m = real(path); }
  g_loading.fetch_sub(1);
  return m;
}

struct Step { Mode m; size_t item; bool fresh; int how; };
struct Item { Vec x, y; size_t sr; std::string fr, fd; };

static absl::StatusOr<V::SimilarityResultMsg> Do(const Step& s, const Item& it, std::unique_ptr<V::VisqolManager>& mg) {
  if (s.how == 2) {
    V::VisqolConfig cfg; cfg.mutable_audio()->set_sample_rate(int(it.sr));
    auto* o = cfg.mutable_options();
    o->set_svr_model_path(s.m.speech ? LatticeModel() : SvrModel()); o->set_use_speech_scoring(s.m.speech); o->set_use_unscaled_speech_mos_mapping(s.m.unscaled);
    o->set_allow_unsupported_sample_rates(true); o->set_search_window_radius(s.m.window); o->set_use_lattice_model(s.m.lattice);
    V::VisqolApi api; auto st = api.Create(cfg);
    if (!st.ok()) return st;
    Vec x = it.x, y = it.y;
    return api.Measure(absl::Span<double>(x), absl::Span<double>(y));
  }
  if (!mg || s.fresh) {
    mg = std::make_unique<V::VisqolManager>();
    auto st = mg->Init(V::FilePath(s.m.speech ? LatticeModel() : SvrModel()), s.m.speech, s.m.unscaled, s.m.window, s.m.lattice, s.m.no_global, s.m.no_realign);
    if (!st.ok()) return st;
  }
  if (s.how == 1) return mg->Run(V::FilePath(it.fr), V::FilePath(it.fd));
  return RunPair(*mg, it.x, it.y, it.sr);
}

static void Threads(Case& c) {
  size_t nt = size_t(c.range(2, 4)), ni = size_t(c.range(1, 3));
  std::vector<Item> items;
  for (size_t i = 0; i < ni; ++i) {
    Item it; it.sr = c.of<size_t>({1000, 2000, 4000});
    it.x = AnySignal(c, "ref", c.chance(10) ? 1000 : SamplesForFrames(size_t(c.range(45, 48)), it.sr), it.sr, false).v;
    std::string how; it.y = Degrade(c, it.x, it.sr, &how);
    Quantise16(it.x); Quantise16(it.y);
    it.fr = pbt::ScratchDir() + "/r" + std::to_string(i) + ".wav"; it.fd = pbt::ScratchDir() + "/d" + std::to_string(i) + ".wav";
    WriteFile(it.fr, WavBytes(ToPcm(it.x), 1, uint32_t(it.sr))); WriteFile(it.fd, WavBytes(ToPcm(it.y), 1, uint32_t(it.sr)));
    items.push_back(it);
  }
  std::vector<std::vector<Step>> script(nt); std::string trace;
  Mode shared = AnyMode(c);
  for (auto& s : script) {
    size_t n = size_t(c.range(1, 2)); trace += " |";
    Mode m = c.chance(60) ? shared : AnyMode(c);
    for (size_t k = 0; k < n; ++k) {
      Step st; st.fresh = k == 0 || c.chance(30);
      if (st.fresh && k) m = AnyMode(c);
      st.m = m; st.item = size_t(c.draw(ni - 1)); st.how = int(c.pick({5, 2, 2}));
      if (st.how == 2) st.m.no_global = st.m.no_realign = false;
      s.push_back(st); trace += " " + st.m.str() + ":" + std::to_string(st.item);
    }
  }
  c.note_str("threads", trace);
  // A result's mode for the manager is that of its last fresh step, so run the
  // same script alone, thread by thread.
  typedef std::vector<absl::StatusOr<V::SimilarityResultMsg>> Results;
  auto play = [&](const std::vector<Step>& s, Results* out) { std::unique_ptr<V::VisqolManager> mg; for (auto& st : s) out->push_back(Do(st, items[st.item], mg)); };
  std::vector<Results> alone(nt), together(nt);
  g_pause_us = 0;
  for (size_t t = 0; t < nt; ++t) play(script[t], &alone[t]);
  g_overlaps = 0; g_loads = 0; g_pause_us = int(c.range(0, 3000));
  std::mutex mu; std::condition_variable cv; bool go = false;
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return go; }); } play(script[t], &together[t]); });
  { std::lock_guard<std::mutex> l(mu); go = true; }
  cv.notify_all();
  for (auto& t : th) t.join();
  c.check(g_overlaps == 0, "%d of %d model files were loaded while another thread loaded one", g_overlaps.load(), g_loads.load());
  for (size_t t = 0; t < nt; ++t)
    for (size_t k = 0; k < alone[t].size(); ++k) {
      std::string d = Difference(together[t][k], alone[t][k]);
      c.check(d.empty(), "thread %zu, step %zu (%s): together and alone: %s", t, k, script[t][k].m.str().c_str(), d.c_str());
      if (alone[t][k].ok()) c.nontrivial();
    }
  if (g_loads > 1) c.label("several loads");
  c.label(std::to_string(nt) + " threads");
}

// Loading and destroying models alone, in many threads.
static void Loads(Case& c) {
  size_t nt = size_t(c.range(2, 8)), n = size_t(c.range(1, 3));
  g_overlaps = 0; g_loads = 0; g_pause_us = int(c.range(0, 2000));
  int bad = int(c.draw(9));
  std::mutex mu; std::condition_variable cv; bool go = false; std::atomic<int> wrong{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      { std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return go; }); }
      for (size_t k = 0; k < n; ++k) {
        V::VisqolManager m; bool missing = bad == int(t + k);
        auto st = m.Init(V::FilePath(missing ? std::string("/nonexistent/model") : SvrModel()), false, false, 60, false, false, false);
        if (st.ok() == missing) wrong++;
      }
    });
  { std::lock_guard<std::mutex> l(mu); go = true; }
  cv.notify_all();
  for (auto& t : th) t.join();
  c.note("threads", nt); c.note("each", n); c.nontrivial();
  c.check(g_overlaps == 0, "%d of %d model files were loaded while another thread loaded one", g_overlaps.load(), g_loads.load());
  c.check(wrong == 0, "%d initialisations ended otherwise than alone", wrong.load());
}

// The parts, each used over and over by threads that meet in it: an instance
// each, the same calls, and what they give alone.
static Vec Component(size_t kind, uint64_t seed, size_t size, bool variant, int repeats) {
  Rng r(seed); Vec out;
  auto mat = [&](size_t rows, size_t cols) { V::AMatrix<double> m(rows, cols); for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) m(i, j) = 45 * r.unit(); return m; };
  auto noise = [&](size_t n) { Vec v(n); for (auto& x : v) x = 0.5 * r.sym(); return v; };
  auto add = [&](const V::AMatrix<double>& m) { for (size_t j = 0; j < m.NumCols(); ++j) for (size_t i = 0; i < m.NumRows(); ++i) out.push_back(m(i, j)); };
  switch (kind) {
    case 0: {
      V::TFLiteQualityMapper m(LatticeModel(), 21);
      if (!m.Init().ok()) return {-1};
      for (int k = 0; k < 8 * repeats; ++k) { Vec f(21), g(21), h(21), e(21); for (int b = 0; b < 21; ++b) { f[b] = r.unit(); g[b] = f[b] * r.unit(); h[b] = r.unit(); e[b] = 60 * r.unit(); } out.push_back(m.PredictQuality(f, g, h, e)); }
      break;
    }
    case 1: {
      V::SvrSimilarityToQualityMapper m{V::FilePath(SvrModel())};
      if (!m.Init().ok()) return {-1};
      for (int k = 0; k < repeats; ++k) { Vec f(32); for (auto& x : f) x = 0.6 + 0.4 * r.unit(); out.push_back(m.PredictQuality(f, f, f, f)); }
      break;
    }
    case 2: {
      V::SpeechSimilarityToQualityMapper m(variant);
      if (!m.Init().ok()) return {-1};
      for (int k = 0; k < 20 * repeats; ++k) { Vec f(21, r.unit()); out.push_back(m.PredictQuality(f, f, f, f)); }
      break;
    }
    case 3: for (int k = 0; k < repeats; ++k) { Vec a = noise(size), b = noise(size + k); out.push_back(double(V::XCorr::FindLowestLagIndex(Col(a), Col(b)))); } break;
    case 4: for (int k = 0; k < repeats; ++k) add(V::Envelope::CalcUpperEnv(Col(noise(size + k)))); break;
    case 5: {
      V::GammatoneSpectrogramBuilder b(V::GammatoneFilterBank(variant ? 21 : 32, 50), variant);
      for (int k = 0; k < (repeats + 3) / 4; ++k) { auto q = b.Build(Sig(noise(800 + size), 4000), V::AnalysisWindow(4000, 0.25)); if (!q.ok()) return {-1}; add(q->Data()); }
      break;
    }
    case 6: { V::NeurogramSimiliarityIndexMeasure n; for (int k = 0; k < repeats; ++k) { auto a = mat(21, 20), b = mat(21, 20); auto q = n.MeasurePatchSimilarity(a, b); out.push_back(q.similarity); add(q.freq_band_means); add(q.freq_band_stddevs); } break; }
    case 7: for (int k = 0; k < repeats; ++k) add(V::Convolution2D<double>::Valid2DConvWithBoundary(mat(3, 3), mat(8, 5 + size % 30))); break;
    case 8:
      for (int k = 0; k < repeats; ++k) {
        size_t frames = 60 + size % 60; V::AnalysisWindow w(4000, 0.25); V::AMatrix<double> sp(2, frames);
        auto q = V::VadPatchCreator(20).CreateRefPatchIndices(sp, Sig(noise(w.size * (frames + 3) / 4 + w.size), 4000), w);
        if (!q.ok()) return {-1};
        for (size_t i : *q) out.push_back(double(i));
      }
      break;
    case 9: for (int k = 0; k < repeats; ++k) { std::stringstream ss(WavBytes(ToPcm(noise(size)), 1, 8000)); add(V::MiscAudio::LoadAsMono(&ss).data_matrix); } break;
    case 10: for (int k = 0; k < (repeats + 1) / 2; ++k) { auto q = V::Alignment::GloballyAlign(Sig(noise(size), 8000), Sig(noise(size + 3), 8000)); add(std::get<0>(q).data_matrix); out.push_back(std::get<1>(q)); } break;
    case 11:
      for (int k = 0; k < (repeats + 1) / 2; ++k) {
        auto rs = mat(6, 60), deg = mat(6, 70); std::vector<size_t> idx{9, 20, 31}; std::vector<V::ImagePatch> ref = V::ImagePatchCreator(10).CreatePatchesFromIndices(rs, idx);
        auto q = V::ComparisonPatchesSelector(std::make_unique<V::NeurogramSimiliarityIndexMeasure>()).FindMostOptimalDegPatches(ref, idx, deg, 0.02, 10);
        if (!q.ok()) return {-1};
        for (auto& x : *q) { out.push_back(x.similarity); out.push_back(x.deg_patch_start_time); }
      }
      break;
    case 12: {
      for (int k = 0; k < (repeats + 7) / 8; ++k) {
        std::vector<Vec> ob(12, Vec(3)); Vec t(12); for (auto& o : ob) for (auto& x : o) x = r.unit(); for (auto& x : t) x = 5 * r.unit();
        V::SupportVectorRegressionModel m; m.Init(ob, t); for (auto& o : ob) out.push_back(m.Predict(o));
      }
      break;
    }
    default: for (int k = 0; k < repeats; ++k) { V::Spectrogram a(mat(5, 9)), b(mat(5, 12)); a.ConvertToDb(); b.ConvertToDb(); V::MiscAudio::PrepareSpectrogramsForComparison(a, b); add(a.Data()); add(b.Data()); }
  }
  return out;
}
static void Components(Case& c) {
  static const char* names[] = {"lattice", "regression", "exponential", "lag", "envelope", "spectrogram", "similarity", "convolution", "activity", "decoding", "alignment", "matching", "training", "decibels"};
  size_t nt = size_t(c.range(2, 6)); int repeats = int(c.range(1, 12)); bool same = c.chance(70);
  struct Job { size_t kind; uint64_t seed; size_t size; bool variant; };
  std::vector<Job> jobs; std::string trace;
  for (size_t t = 0; t < nt; ++t) {
    Job j{same && t ? jobs[0].kind : size_t(c.draw(13)), c.seed(), size_t(c.size(40, 600)), c.chance(50)};
    jobs.push_back(j); trace += std::string(t ? ", " : "") + names[j.kind]; c.label(names[j.kind]);
  }
  c.note_str("threads", trace); c.note("repeats", repeats);
  std::vector<Vec> alone(nt), together(nt);
  g_pause_us = 0;
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  // Together first, so that what is made once is made by threads that meet.
  for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { ++ready; while (ready < nt) std::this_thread::yield(); together[t] = Component(jobs[t].kind, jobs[t].seed, jobs[t].size, jobs[t].variant, repeats); });
  for (auto& t : th) t.join();
  for (size_t t = 0; t < nt; ++t) {
    const Job& j = jobs[t];
    alone[t] = Component(j.kind, j.seed, j.size, j.variant, repeats);
    c.check(together[t].size() == alone[t].size(), "thread %zu (%s): %zu values together, %zu alone", t, names[j.kind], together[t].size(), alone[t].size());
    for (size_t k = 0; k < alone[t].size(); ++k) c.check(together[t][k] == alone[t][k] || (std::isnan(together[t][k]) && std::isnan(alone[t][k])), "thread %zu (%s): value %zu is %.17g together and %.17g alone", t, names[j.kind], k, together[t][k], alone[t][k]);
    if (alone[t].size() > 1) c.nontrivial();
  }
  c.label(same ? "the same part" : "different parts");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C11";
  p.rule = "threads: 2 to 4 threads of 1 or 2 comparisons each on instances of their own, against the same scripts alone, under ThreadSanitizer, non-trivial when something was scored; loads: 2 to 8 threads that initialise instances; components: 2 to 6 threads that make the same calls over and over on instances of their own of one part (or of several), non-trivial when values came out";
  p.assumptions = {"ThreadSanitizer sees visqol's code and the stand-ins, not the libraries", "schedules are what the kernel gives with more threads than cores and pauses inside the model loader"};
  p.facets = {{"threads", Threads, 80, 6000, 5, false}, {"loads", Loads, 200, 8000, 1, false}, {"components", Components, 160, 20000, 1, false}};
  p.mem_limit_mb = 0;
  return pbt::Main(p, argc, argv);
}
