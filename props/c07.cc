// C07: spectra and cross-correlation lags are mathematically correct.
#include <complex>

#include "envelope.h"
#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "lib/common.h"
#include "xcorr.h"
using namespace vt;
namespace V = Visqol;
typedef std::complex<double> Cx;

static Vec Content(Case& c, const char* name, size_t n) {
  Vec v(n); Rng r(c.seed());
  int k = int(c.pick({4, 2, 2, 2, 1, 1}));
  double a = std::pow(10, c.real(-4, 3));
  for (size_t i = 0; i < n; ++i) switch (k) {
    case 0: v[i] = a * r.gauss(); break;
    case 1: v[i] = a * std::sin(0.3 * i + 1) + a * r.unit(); break;
    case 2: v[i] = i == n / 3 ? a : 0; break;
    case 3: v[i] = r.unit() < 0.1 ? a * r.sym() : 0; break;
    case 4: v[i] = a; break;
    case 5: v[i] = 0; break;
  }
  static const char* kn[] = {"noise", "sine+noise", "impulse", "sparse", "constant", "zero"};
  c.note_str(name, std::string(kn[k]) + " n=" + std::to_string(n) + " scale=" + std::to_string(a));
  return v;
}
static size_t Length(Case& c, size_t cap) {
  switch (c.pick({4, 3, 3, 2})) {
    case 0: return size_t(c.size(1, int64_t(cap)));
    case 1: { size_t p = size_t(1) << c.range(0, 30); while (p > cap) p /= 2; return std::max<int64_t>(1, std::min<int64_t>(int64_t(cap), int64_t(p) + c.range(-1, 1))); }
    case 2: return size_t(c.range(1, 70));
    default: return size_t(c.range(1, int64_t(cap)));
  }
}
static size_t NextPow2(size_t n) { size_t p = 1; while (p < n) p *= 2; return p; }

static void Transforms(Case& c) {
  size_t n = Length(c, 40000);
  bool padded = c.chance(40);
  Vec x = Content(c, "x", n);
  size_t points = padded ? std::max<size_t>(32, NextPow2(n) << c.draw(2)) : n;
  size_t N = std::max<size_t>(32, NextPow2(points));
  auto mg = std::make_unique<V::FftManager>(points);
  c.check(mg->GetFftSize() == N, "transform size %zu for %zu samples", mg->GetFftSize(), points);
  // A manager is used again after other contents.
  if (c.chance(50)) { Vec o = Content(c, "before", points); auto f = V::FastFourierTransform::Forward1d(mg, Col(o)); if (c.chance(50)) V::FastFourierTransform::Inverse1d(mg, f); c.label("manager reused"); }
  auto F = padded ? V::FastFourierTransform::Forward1d(mg, Col(x), points) : V::FastFourierTransform::Forward1d(mg, Col(x));
  c.check(F.NumRows() == N && F.NumCols() == 1, "%zu x %zu bins instead of %zu", F.NumRows(), F.NumCols(), N);
  double norm = Rms(x) * std::sqrt(double(n)), tol = 4e-6 * norm * (1 + std::sqrt(double(N)) / 8) + 1e-30, worst = 0;
  // All bins when few, otherwise a sample of them.
  Rng r(c.seed());
  size_t bins = n * N <= 400000 ? N : std::max<size_t>(6, 400000 / n);
  for (size_t b = 0; b < bins; ++b) {
    size_t k = bins == N ? b : b == 0 ? 0 : b == 1 ? N / 2 : b == 2 ? N - 1 : r.next() % N;
    double w = -2 * M_PI * double(k) / double(N);
    Cx want = 0, step = std::polar(1.0, w), ph = 1;
    for (size_t i = 0; i < n; ++i) { if (i % 64 == 0) ph = std::polar(1.0, w * double(i)); want += x[i] * ph; ph *= step; }
    double e = std::abs(F(k, 0) - want); worst = std::max(worst, e / tol);
    if (!(e <= tol)) c.fail("bin %zu of %zu is %.9g%+.9gi instead of %.9g%+.9gi", k, N, F(k, 0).real(), F(k, 0).imag(), want.real(), want.imag());
  }
  auto B = V::FastFourierTransform::Inverse1d(mg, F);
  auto R = V::FastFourierTransform::Inverse1dConjSym(mg, F);
  c.check(B.NumRows() == points && R.NumRows() == points, "%zu and %zu samples come back instead of %zu", B.NumRows(), R.NumRows(), points);
  double pk = 2e-6 * Peak(x) + 2e-6 * norm + 1e-30;
  for (size_t i = 0; i < points; ++i) {
    double want = i < n ? x[i] : 0;
    if (!(std::abs(B(i, 0) - want) <= pk)) c.fail("sample %zu comes back as %.9g%+.9gi instead of %.9g", i, B(i, 0).real(), B(i, 0).imag(), want);
    if (!(std::fabs(R(i, 0) - want) <= pk)) c.fail("sample %zu comes back (real) as %.9g instead of %.9g", i, R(i, 0), want);
  }
  c.nontrivial(n > 1 && norm > 0);
  if (NextPow2(n) != n) c.label("length not a power of two");
  if (N > 16384) c.label("large transform");
}
// The transform of any real spectrum, not only of one that was just computed.
static void Synthesis(Case& c) {
  size_t N = size_t(32) << c.draw(6);
  Rng r(c.seed());
  V::AMatrix<Cx> F(N, 1);
  std::vector<Cx> f(N);
  int lines = int(c.range(1, 12));
  for (int l = 0; l < lines; ++l) {
    size_t k = c.draw(N / 2);
    Cx z(r.gauss() * 10, k == 0 || k == N / 2 ? 0 : r.gauss() * 10);
    f[k] = z; if (k && k != N / 2) f[N - k] = std::conj(z);
  }
  for (size_t k = 0; k < N; ++k) F(k, 0) = f[k];
  c.note("size", N); c.note("lines", lines);
  auto mg = std::make_unique<V::FftManager>(N);
  auto R = V::FastFourierTransform::Inverse1dConjSym(mg, F);
  c.check(R.NumRows() == N, "%zu samples instead of %zu", R.NumRows(), N);
  double norm = 0; for (auto& z : f) norm += std::abs(z);
  for (size_t i = 0; i < N; i += N > 256 ? 7 : 1) {
    Cx want = 0;
    for (size_t k = 0; k < N; ++k) if (f[k] != 0.0) want += f[k] * std::polar(1.0, 2 * M_PI * double(k * i % N) / double(N));
    want /= double(N);
    if (!(std::fabs(R(i, 0) - want.real()) <= 4e-6 * norm / double(N) + 1e-12)) c.fail("sample %zu is %.9g instead of %.9g", i, R(i, 0), want.real());
  }
  c.nontrivial(lines > 1);
}

static double Corr(const Vec& a, const Vec& b, int64_t lag) {
  double s = 0;
  for (int64_t k = 0; k < int64_t(b.size()); ++k) if (k + lag >= 0 && k + lag < int64_t(a.size())) s += a[k + lag] * b[k];
  return s;
}
static void Lags(Case& c) {
  size_t na = Length(c, 700), nb = c.chance(30) ? na : Length(c, 700);
  Vec a, b; std::string how = "independent";
  a = Content(c, "a", na);
  if (c.chance(50)) {
    int64_t d = c.range(-int64_t(na), int64_t(na)); Rng r(c.seed());
    b.assign(nb, 0); for (int64_t i = 0; i < int64_t(nb); ++i) if (i + d >= 0 && i + d < int64_t(na)) b[i] = a[i + d];
    how = "shifted by " + std::to_string(d);
  } else b = Content(c, "b", nb);
  c.note("relation", how); c.note("nb", nb);
  int64_t L = V::XCorr::FindLowestLagIndex(Col(a), Col(b)), m = int64_t(std::max(na, nb)) - 1;
  c.check(L >= -m && L <= m, "lag %lld outside of -%lld..%lld", (long long)L, (long long)m, (long long)m);
  double got = Corr(a, b, L), best = -1e300; int64_t at = 0;
  for (int64_t l = -m; l <= m; ++l) { double s = Corr(a, b, l); if (s > best) { best = s; at = l; } }
  double tol = 1e-5 * (Rms(a) * std::sqrt(double(na))) * (Rms(b) * std::sqrt(double(nb))) + 1e-30;
  c.check(got >= best - tol, "lag %lld with correlation %.9g, but lag %lld has %.9g", (long long)L, got, (long long)at, best);
  c.nontrivial(best > 0 && m > 0);
  if (at < 0) c.label("negative lag"); else if (at > 0) c.label("positive lag");
  if (na > nb) c.label("first longer"); else if (na < nb) c.label("second longer");
}
// Long signals whose correlation peak is known.
template <bool big> static void LongLags(Case& c) {
  size_t n = size_t(big ? c.range(60000, 1500000) : c.range(2000, 60000));
  int64_t d = c.range(-int64_t(n) + 600, int64_t(n) - 600);
  Rng r(c.seed());
  Vec a(n), b(size_t(std::max<int64_t>(600, c.chance(50) ? n : c.range(600, int64_t(n)))), 0.0);
  // b holds a stretch of a, shifted.
  for (auto& x : a) x = r.gauss();
  int64_t lo = std::max<int64_t>(0, -d), hi = std::min<int64_t>(int64_t(b.size()), int64_t(n) - d);
  c.require(hi - lo >= 500);
  for (int64_t i = lo; i < hi; ++i) b[i] = a[i + d];
  c.note("n", n); c.note("nb", b.size()); c.note("shift", d);
  int64_t L = V::XCorr::FindLowestLagIndex(Col(a), Col(b));
  c.check(L == d, "lag %lld instead of %lld", (long long)L, (long long)d);
  c.nontrivial();
}
// Transform sizes, of any length; no transform is made.
// The transforms by themselves: ordered spectrum, packed as [0, N/2, re 1, im 1, ...], and back.
static void Manager(Case& c) {
  size_t n = Length(c, 3000);
  Vec x = Content(c, "x", n);
  V::FftManager mg(n);
  size_t N = mg.GetFftSize();
  c.check(mg.GetSamplesPerChannel() == n, "%zu samples in place of %zu", mg.GetSamplesPerChannel(), n);
  bool own = c.chance(50), whole = c.chance(30);
  V::AudioChannel t, f, z, b;
  t.Init(whole ? N : n); f.Init(N); z.Init(N); b.Init(c.chance(50) ? N : n);
  V::AudioChannel& time = own && !whole ? mg.GetTimeChannel() : t; V::AudioChannel& freq = own ? mg.GetFreqChannel() : f;
  c.check(time.size() == (whole ? N : n) && freq.size() == N, "channels of %zu and %zu in place of %zu and %zu", time.size(), freq.size(), n, N);
  time.Clear();
  for (size_t i = 0; i < n; ++i) time[i] = float(x[i]);
  for (int turn = 0, turns = int(c.range(1, 2)); turn < turns; ++turn) {
    mg.FreqFromTimeDomain(time, &freq);
    double norm = Rms(x) * std::sqrt(double(n)), tol = 8e-6 * norm * (1 + std::sqrt(double(N)) / 8) + 1e-30;
    Rng r(c.seed());
    for (int q = 0; q < 12; ++q) {
      size_t k = q == 0 ? 0 : q == 1 ? N / 2 : 1 + r.next() % (N / 2 - 1);
      Cx want = 0; for (size_t i = 0; i < n; ++i) want += double(float(x[i])) * std::polar(1.0, -2 * M_PI * double(k * i % N) / double(N));
      Cx got = k == 0 ? freq[0] : k == N / 2 ? freq[1] : Cx(freq[2 * k], freq[2 * k + 1]);
      if (!(std::abs(got - want) <= tol)) c.fail("bin %zu of %zu is %.9g%+.9gi instead of %.9g%+.9gi", k, N, got.real(), got.imag(), want.real(), want.imag());
    }
    mg.GetPffftFormatFreqBuffer(freq, &z);
    mg.TimeFromFreqDomain(z, &b);
    mg.ApplyReverseFftScaling(&b);
    for (size_t i = 0; i < b.size(); ++i) { double want = i < n ? x[i] : 0; if (!(std::fabs(b[i] - want) <= 4e-6 * (Peak(x) + norm) + 1e-30)) c.fail("sample %zu comes back as %.9g instead of %.9g", i, double(b[i]), want); }
    for (size_t i = 0; i < time.size(); ++i) if (time[i] != (i < n ? float(x[i]) : 0.0f)) c.fail("sample %zu was changed by its transform", i);
  }
  c.nontrivial(n > 1 && Rms(x) > 0);
}
static void Sizes(Case& c) {
  size_t n = Length(c, 6000000);
  c.note("samples", n);
  V::FftManager mg(n);
  size_t N = std::max<size_t>(32, NextPow2(n));
  c.check(mg.GetFftSize() == N, "transform size %zu for %zu samples", mg.GetFftSize(), n);
  c.nontrivial(n > 32);
}
static void Envelopes(Case& c) {
  size_t n = Length(c, 20000);
  Vec x = Content(c, "x", n);
  double off = c.chance(50) ? c.real(-2, 2) * (Peak(x) + 0.1) : 0, g = std::pow(10, c.real(-2, 2));
  for (auto& v : x) v += off;
  c.note("offset", off);
  double mean = 0; for (double v : x) mean += v; mean /= double(n);
  auto e = V::Envelope::CalcUpperEnv(Col(x));
  c.check(e.NumRows() == n && e.NumCols() == 1, "%zu x %zu values for %zu samples", e.NumRows(), e.NumCols(), n);
  double pk = Peak(x) + 1e-9;
  for (size_t i = 0; i < n; ++i) if (!(e(i) >= mean - 1e-9 * pk) || !std::isfinite(e(i))) c.fail("the envelope is %.9g at sample %zu where the mean is %.9g", e(i), i, mean);
  // It follows the signal's level and offset.
  Vec y = x; for (auto& v : y) v = g * v + 0.5 * pk;
  auto f = V::Envelope::CalcUpperEnv(Col(y));
  double scale = g * pk * (1 + std::sqrt(double(n)) / 30);
  for (size_t i = 0; i < n; ++i) if (!(std::fabs(f(i) - (g * e(i) + 0.5 * pk)) <= 1e-4 * scale + 1e-4 * pk * 1e-3)) c.fail("scaling the signal by %g and adding %g takes the envelope at %zu from %.9g to %.9g", g, 0.5 * pk, i, e(i), f(i));
  c.nontrivial(n > 1);
  if (NextPow2(n) != n) c.label("length not a power of two");
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C07";
  p.rule = "transforms: lengths 1 to 40000 (powers of two and not) against the definition of the DFT, all bins when small and a sample otherwise, and back, with managers reused; synthesis: sparse spectra against the inverse DFT; lags: pairs of any lengths to 700 against the exhaustively computed cross-correlation, long lags to 60000, and to 1.5 million, samples with a known answer; manager: the packed spectrum and the way back, step by step; sizes: of transforms of up to 6 million samples; envelopes: size, lower bound and covariance. Non-trivial when longer than one sample and not silent";
  p.assumptions = {"single precision transforms: errors up to about 1e-5 of the signal's norm are rounding", "the transforms run on the FFT stand-in, a direct implementation of the FFT library's interface"};
  p.facets = {{"transforms", Transforms, 8000, 300000, 3}, {"synthesis", Synthesis, 4000, 100000, 1}, {"lags", Lags, 20000, 800000, 2}, {"long lags", LongLags<false>, 1200, 40000, 1}, {"very long lags", LongLags<true>, 24, 1000, 1, false}, {"manager", Manager, 3000, 100000, 1}, {"sizes", Sizes, 300, 10000, 1, false}, {"envelopes", Envelopes, 5000, 200000, 1}};
  return pbt::Main(p, argc, argv);
}
