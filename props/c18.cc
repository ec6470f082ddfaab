// C18: spectrogram columns are band-wise RMS values of their own windowed frames.
#include "analysis_window.h"
#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "lib/common.h"
#include "spectrogram.h"

using namespace vt;

struct Setup { size_t sr, bands; double low, overlap, dur; bool speech; size_t win, hop; };
static Setup Any(Case& c) {
  Setup s;
  s.speech = c.chance(40);
  s.sr = c.chance(60) ? c.of<size_t>({8000, 16000, 11025, 22050, 48000}) : size_t(c.range(s.speech ? 16000 : 4000, 48000));
  if (s.speech && s.sr < 16000 && c.chance(50)) s.sr = 16000;
  s.bands = c.chance(30) ? c.of<size_t>({32, 21}) : size_t(c.size(1, 24));
  s.low = 50;
  s.overlap = c.chance(70) ? 0.25 : c.of<double>({0.5, 1.0, 0.125, 0.3});
  s.dur = c.chance(40) ? 0.08 : c.of<double>({0.01, 0.02, 0.005, 0.04});
  s.win = size_t(std::lround(double(s.sr) * s.dur));
  s.hop = size_t(s.win * s.overlap);
  std::ostringstream o; o << "rate=" << s.sr << " bands=" << s.bands << " window=" << s.dur << "s overlap=" << s.overlap << (s.speech ? " speech" : " audio");
  c.note("setup", o.str());
  return s;
}
static Vec Content(Case& c, size_t n, size_t sr) {
  size_t k = c.pick({4, 4, 3, 2, 1, 2, 1});
  int kinds[] = {kNoise, kBursts, kSpeechLike, kTones, kConstant, kImpulses, kSquare};
  double peak = std::pow(10, -3 * c.unit());
  Rng r(c.seed());
  Vec v = Synth(kinds[k], r, n, sr);
  ScaleToPeak(v, peak);
  c.note("samples", n); c.note("signal", KindName(kinds[k])); c.note("v", v);
  return v;
}
static Visqol::Spectrogram Build(Case& c, Visqol::GammatoneSpectrogramBuilder& b, const Vec& v, size_t sr, const Visqol::AnalysisWindow& w) {
  auto r = b.Build(Sig(v, sr), w);
  c.check(r.ok(), "building was refused: %s", r.status().ToString().c_str());
  return r.value();
}
static double MaxOf(const Visqol::AMatrix<double>& m) { double p = 0; for (auto it = m.cbegin(); it != m.cend(); ++it) p = std::max(p, std::fabs(*it)); return p; }

// Direct evaluation of some cells.
static void Model(Case& c) {
  Setup s = Any(c);
  size_t frames = c.size(1, 12);
  // The analysis wants more than one window; from there on every whole hop
  // adds a column.
  size_t n = s.win + 1 + (frames - 1) * s.hop + c.draw(s.hop - 1);
  if (c.chance(25)) n = s.win + frames * s.hop;
  Vec v = Content(c, n, s.sr);
  Visqol::AnalysisWindow w(s.sr, s.overlap, s.dur);
  c.check(w.size == s.win, "window of %zu samples, expected %zu", w.size, s.win);
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(s.bands, s.low), s.speech);
  if (c.chance(25)) {  // a builder of the other mode, at the same rate
    Visqol::GammatoneSpectrogramBuilder o(Visqol::GammatoneFilterBank(s.bands, s.low), !s.speech);
    o.Build(Sig(v, s.sr), w);
    c.label("other mode before");
  }
  if (c.chance(30)) {  // a builder that has been used at another rate
    size_t sr2 = c.of<size_t>({8000, 16000, 32000});
    Visqol::AnalysisWindow w2(sr2, 0.25, 0.02);
    Rng r(c.seed());
    b.Build(Sig(Synth(kNoise, r, w2.size * 2, sr2), sr2), w2);
    c.label("builder used before");
  }
  auto sp = Build(c, b, v, s.sr, w);
  const auto& m = sp.Data();
  size_t cols = 1 + (n - s.win) / s.hop;
  c.check(m.NumRows() == s.bands && m.NumCols() == cols, "spectrogram of %zux%zu, expected %zux%zu", m.NumRows(), m.NumCols(), s.bands, cols);
  double top = s.speech ? std::min(8000.0, s.sr / 2.0) : s.sr / 2.0;
  auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(s.sr, s.bands, s.low, top);
  auto cf = sp.GetCenterFreqBands();
  c.check(cf.size() == s.bands, "%zu band centres", cf.size());
  for (size_t i = 0; i < cf.size(); ++i) {
    c.near(cf[i], f.centerFreqs[s.bands - 1 - i], 0, 1e-12, "band centre");
    if (i) c.check(cf[i] > cf[i - 1], "band centres are not ascending at %zu", i);
  }
  // Check up to 6 cells against the cascade run on the windowed frame.
  for (int t = 0; t < 6; ++t) {
    size_t row = c.draw(s.bands - 1), col = t == 0 ? cols - 1 : c.draw(cols - 1), k = s.bands - 1 - row;
    std::vector<double> u(s.win);
    for (size_t i = 0; i < s.win; ++i) u[i] = v[col * s.hop + i] * (0.5 - 0.5 * std::cos(2 * M_PI * i / (s.win - 1)));
    double peak = Peak(u);
    auto& a = f.filterCoeffs;
    for (int q = 1; q <= 4; ++q) {
      double a0 = a[0][k], a1 = a[q][k], a2 = a[5][k], b1 = a[7][k], b2 = a[8][k], z1 = 0, z2 = 0;
      if (q == 1) { a0 /= a[9][k]; a1 /= a[9][k]; a2 /= a[9][k]; }
      for (auto& x : u) { double y = a0 * x + z1; z1 = a1 * x + z2 - b1 * y; z2 = a2 * x - b2 * y; x = y; }
    }
    double want = Rms(u);
    c.check(std::fabs(m(row, col) - want) <= 1e-7 * want + 1e-12 * peak, "cell (%zu,%zu) is %.12g, the frame's band level is %.12g", row, col, m(row, col), want);
  }
  c.nontrivial(Peak(v) > 0);
  if (cols > 1) c.label("several columns");
  if ((n - s.win) % s.hop == 0) c.label("whole hops");
}

static void Metamorphic(Case& c) {
  Setup s = Any(c);
  size_t frames = c.size(2, 10);
  size_t n = s.win + 1 + (frames - 1) * s.hop;
  Vec v = Content(c, n, s.sr);
  Visqol::AnalysisWindow w(s.sr, s.overlap, s.dur);
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(s.bands, s.low), s.speech);
  auto m = Build(c, b, v, s.sr, w).Data();
  double top = MaxOf(m), eps = 1e-9 * top + 1e-12 * Peak(v);  // rounding scales with the input
  auto same = [&](double a, double bb, const char* what, size_t i, size_t j) {
    if (!(std::fabs(a - bb) <= eps + 1e-9 * std::fabs(a))) c.fail("%s: cell (%zu,%zu) is %.12g, expected %.12g", what, i, j, a, bb);
  };
  switch (c.pick({3, 3, 3, 2})) {
    case 0: {  // whole-hop shift
      size_t k = 1 + c.draw(3);
      Rng r(c.seed());
      Vec x(k * s.hop); for (auto& q : x) q = r.gauss() * top;
      x.insert(x.end(), v.begin(), v.end());
      auto y = Build(c, b, x, s.sr, w).Data();
      c.check(y.NumCols() == m.NumCols() + k, "%zu columns after %zu more hops, had %zu", y.NumCols(), k, m.NumCols());
      for (size_t j = 0; j < m.NumCols(); ++j) for (size_t i = 0; i < s.bands; ++i) same(y(i, j + k), m(i, j), "shifted by whole hops", i, j);
      c.label("shift");
      break;
    }
    case 1: {  // scaling
      double g = (c.chance(50) ? -1 : 1) * std::pow(10, c.real(-3, 3));
      Vec x = v; for (auto& q : x) q *= g;
      auto y = Build(c, b, x, s.sr, w).Data();
      for (size_t j = 0; j < m.NumCols(); ++j) for (size_t i = 0; i < s.bands; ++i) same(y(i, j) / std::fabs(g), m(i, j), "scaled", i, j);
      c.label("scale");
      break;
    }
    case 2: {  // a change reaches only the frames that contain it
      size_t at = c.draw(n - 1), len = 1 + c.draw(std::min<size_t>(n - at, s.win) - 1);
      Vec x = v; Rng r(c.seed());
      for (size_t i = at; i < std::min(n, at + len); ++i) x[i] += (1 + top) * r.gauss();
      auto y = Build(c, b, x, s.sr, w).Data();
      size_t untouched = 0;
      for (size_t j = 0; j < m.NumCols(); ++j) {
        size_t f0 = j * s.hop, f1 = f0 + s.win;
        if (f1 <= at || f0 >= at + len) { ++untouched; for (size_t i = 0; i < s.bands; ++i) same(y(i, j), m(i, j), "changed outside this frame", i, j); }
        else if (f0 + s.win / 4 <= at && at + len <= f1 - s.win / 4 && len >= 1 && std::fabs(x[at] - v[at]) > 1e-3) {
          bool diff = false;
          for (size_t i = 0; i < s.bands; ++i) diff |= std::fabs(y(i, j) - m(i, j)) > 0;
          c.check(diff, "column %zu ignores a change in the middle of its frame", j);
        }
      }
      if (untouched) c.label("locality");
      break;
    }
    case 3: {  // same again, and on a fresh builder; trailing samples short of a hop are ignored
      auto y = Build(c, b, v, s.sr, w).Data();
      Visqol::GammatoneSpectrogramBuilder b2(Visqol::GammatoneFilterBank(s.bands, s.low), s.speech);
      Vec x = v; Rng r(c.seed());
      size_t extra = s.hop > 1 ? c.draw(s.hop - 2) : 0;
      for (size_t i = 0; i < extra; ++i) x.push_back(r.gauss());
      auto z = Build(c, b2, x, s.sr, w).Data();
      c.check(y.NumCols() == m.NumCols() && z.NumCols() == m.NumCols(), "columns differ: %zu, %zu, %zu", m.NumCols(), y.NumCols(), z.NumCols());
      for (size_t j = 0; j < m.NumCols(); ++j) for (size_t i = 0; i < s.bands; ++i) { same(y(i, j), m(i, j), "built again", i, j); same(z(i, j), m(i, j), "with an incomplete last frame", i, j); }
      c.label("repeat");
      break;
    }
  }
  c.nontrivial(Peak(v) > 0);
}

// Many frames, at rates low enough to afford them.
static void Many(Case& c) {
  size_t sr = size_t(c.range(80, 200)), bands = size_t(c.range(2, 4)); double dur = 0.08;
  size_t win = size_t(std::lround(double(sr) * dur)), hop = size_t(win * 0.25), frames = size_t(c.chance(70) ? c.range(65537, 140000) : c.range(3000, 65536));
  size_t n = win + (frames - 1) * hop + (frames == 1);
  Rng r(c.seed());
  Vec v(n); for (auto& x : v) x = 0.3 * r.gauss();
  c.note("rate", sr); c.note("frames", frames);
  Visqol::AnalysisWindow w(sr, 0.25, dur);
  c.check(w.size == win, "window of %zu samples, expected %zu", w.size, win);
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(bands, 10), false);
  auto m = Build(c, b, v, sr, w).Data();
  c.check(m.NumRows() == bands && m.NumCols() == frames, "spectrogram of %zux%zu, expected %zux%zu", m.NumRows(), m.NumCols(), bands, frames);
  // Stretches of the signal on their own give the same columns.
  for (int t = 0; t < 6; ++t) {
    size_t k = 20, at = t == 0 ? frames - k : r.next() % (frames - k);
    auto y = Build(c, b, Vec(v.begin() + at * hop, v.begin() + at * hop + win + (k - 1) * hop), sr, w).Data();
    c.check(y.NumCols() == k, "%zu columns for %zu frames", y.NumCols(), k);
    for (size_t j = 0; j < k; ++j) for (size_t i = 0; i < bands; ++i) if (!(std::fabs(y(i, j) - m(i, at + j)) <= 1e-9)) c.fail("cell (%zu,%zu) of %zu columns is %.12g, its frame on its own gives %.12g", i, at + j, frames, m(i, at + j), y(i, j));
  }
  c.nontrivial(frames > 65536);
}

static void Short(Case& c) {
  Setup s = Any(c);
  Visqol::AnalysisWindow w(s.sr, s.overlap, s.dur);
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(s.bands, s.low), s.speech);
  size_t n = c.chance(50) ? s.win - c.draw(2) : c.size(1, s.win);
  Rng r(c.seed());
  c.note("samples", n);
  auto res = b.Build(Sig(Synth(kNoise, r, n, s.sr), s.sr), w);
  c.check(!res.ok(), "a signal of %zu samples was accepted with a window of %zu", n, s.win);
  auto one = b.Build(Sig(Synth(kNoise, r, s.win + 1, s.sr), s.sr), w);
  c.check(one.ok() && one->Data().NumCols() == 1, "one sample more than the window does not give one column");
  c.nontrivial(n + 3 > s.win);
}

static void Window(Case& c) {
  size_t sr = c.size(100, 200000);
  double d = c.real(0.005, 0.2);
  Visqol::AnalysisWindow w(sr, 0.25, d);
  c.note("rate", sr); c.note("duration", d);
  c.check(std::fabs(w.size - sr * d) <= 0.5 + 1e-9, "a window of %.6g s at %zu Hz has %zu samples", d, sr, w.size);
  Visqol::AnalysisWindow def(sr, 0.25);
  c.check(std::fabs(def.size - sr * 0.08) <= 0.5 + 1e-9, "the default window at %zu Hz has %zu samples", sr, def.size);
  c.require(w.size >= 2 && w.size < 5000);
  std::valarray<double> ones(1.0, w.size), sig(w.size);
  Rng r(c.seed());
  for (auto& x : sig) x = r.gauss();
  auto h = w.ApplyHannWindow(ones), y = w.ApplyHannWindow(sig);
  c.check(h.size() == w.size && y.size() == w.size, "windowing changed the length");
  for (size_t i = 0; i < w.size; ++i) {
    double want = std::pow(std::sin(M_PI * i / (w.size - 1)), 2);
    c.near(h[i], want, 1e-9, 0, "window weight");
    c.near(y[i], want * sig[i], 1e-8, 0, "windowed sample");
  }
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C18";
  p.rule = "random rate, 1-24 (or 32, 21) bands, mode, window length and hop, and signals of 1-12 frames of 7 kinds: cells against a direct evaluation of window, cascade and RMS; many: up to 140000 frames at low rates against stretches of the same signal; metamorphic relations (shift by hops, scaling, locality, repetition); refusal of short signals; non-trivial when the signal is not silent";
  p.assumptions = {"filter coefficients come from the code under test here and are checked by C17"};
  p.facets = {{"model", Model, 10000, 600000, 3}, {"metamorphic", Metamorphic, 10000, 600000, 4}, {"short", Short, 1500, 40000, 1}, {"many", Many, 40, 3000, 1, false}, {"window", Window, 3000, 100000, 1}};
  return pbt::Main(p, argc, argv);
}
