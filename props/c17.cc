// C17: the gammatone filterbank.
#include <complex>

#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "lib/common.h"
#include "signal_filter.h"

using namespace vt;
typedef std::complex<long double> Cl;
static const long double kPi = acosl(-1.0L);

struct Setup { size_t sr, bands; double low, high, top; };
static Setup Any(Case& c) {
  Setup s;
  s.sr = c.chance(60) ? c.of<size_t>({8000, 16000, 44100, 48000, 22050, 32000, 96000}) : size_t(c.range(2000, 192000));
  s.bands = c.chance(50) ? c.of<size_t>({32, 21}) : size_t(c.size(1, 64));
  if (c.chance(2)) s.bands = size_t(c.range(65, 300));
  s.low = c.chance(50) ? 50 : c.real(20, 400);
  s.high = c.pick({2, 2, 1}) == 0 ? s.sr / 2.0 : c.chance(50) ? 8000 : c.real(s.low * 1.5, s.sr);
  s.top = std::min(s.high, s.sr / 2.0);
  c.require(s.top > s.low * 1.2);
  std::ostringstream o; o << "rate=" << s.sr << " bands=" << s.bands << " range=" << s.low << ".." << s.high;
  c.note("setup", o.str());
  if (s.high > s.sr / 2.0) c.label("range above half the rate");
  return s;
}

static long double ErbRate(long double f) { return 9.26449L * logl(1 + f / (9.26449L * 24.7L)); }

static void Centres(Case& c) {
  Setup s = Any(c);
  auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(s.sr, s.bands, s.low, s.high);
  c.check(f.centerFreqs.size() == s.bands, "%zu centres for %zu bands", f.centerFreqs.size(), s.bands);
  long double lo = ErbRate(s.low), hi = ErbRate(s.top), step = (hi - lo) / s.bands;
  Vec cf = f.centerFreqs;
  for (size_t i = 0; i < cf.size(); ++i) {
    // Highest first.
    c.check(cf[i] >= s.low * (1 - 1e-9) && cf[i] < s.top, "centre %zu is %.10g, outside [%g,%g)", i, cf[i], s.low, s.top);
    if (i) c.check(cf[i] < cf[i - 1], "centres are not in descending order at %zu", i);
    c.near(double(ErbRate(cf[i])), double(hi - (i + 1) * step), 1e-7, 1e-9, "ERB-rate of a centre");
  }
  c.near(cf.back(), s.low, 1e-6, 1e-9, "lowest centre");
  c.check(f.filterCoeffs.size() == 10, "%zu coefficient sets", f.filterCoeffs.size());
  for (auto& v : f.filterCoeffs) {
    c.check(v.size() == s.bands, "coefficients for %zu bands", v.size());
    for (double x : v) c.check(std::isfinite(x), "a coefficient is %g", x);
  }
  c.nontrivial(s.bands > 1);
}

// Slaney's four-biquad gammatone with the ERB bandwidth, evaluated directly.
static Cl Biquads(long double cf, long double sr, Cl z) {
  long double T = 1 / sr, B = 1.019L * 2 * kPi * (cf / 9.26449L + 24.7L);
  long double e = expl(-B * T), co = cosl(2 * kPi * cf * T), si = sinl(2 * kPi * cf * T);
  Cl den = 1.0L - 2 * co * e / z + e * e / (z * z), h = 1;
  for (int k = 0; k < 4; ++k) {
    long double q = sqrtl(3 + (k < 2 ? 1 : -1) * powl(2, 1.5L)) * (k % 2 ? -1 : 1);
    h *= (T - T * e * (co + q * si) / z) / den;
  }
  return h;
}
static Cl Polar(long double f, long double sr) { return std::polar(1.0L, 2 * kPi * f / sr); }

static Visqol::AMatrix<double> Coeffs(const Visqol::ErbFiltersResult& f) { return Visqol::AMatrix<double>(f.filterCoeffs); }

static void Response(Case& c) {
  Setup s = Any(c);
  s.bands = std::min<size_t>(s.bands, 40);
  auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(s.sr, s.bands, s.low, s.high);
  auto m = f.filterCoeffs;
  size_t b = c.draw(s.bands - 1);
  long double cf = f.centerFreqs[b];
  c.note("band", b); c.note("centre", double(cf));
  c.check(m[6][b] == 1, "leading denominator coefficient is %g", m[6][b]);
  // Stable: both poles inside the unit circle.
  c.check(m[8][b] < 1 && std::fabs(m[7][b]) < 1 + m[8][b], "band %zu is unstable: B1=%.12g B2=%.12g", b, m[7][b], m[8][b]);
  auto H = [&](Cl z) {
    Cl den = (Cl)1.0L * (long double)m[6][b] + (long double)m[7][b] / z + (long double)m[8][b] / (z * z), h = 1;
    for (int k = 1; k <= 4; ++k) h *= ((long double)m[0][b] + (long double)m[k][b] / z + (long double)m[5][b] / (z * z)) / den;
    return h / (long double)m[9][b];
  };
  long double g = std::abs(H(Polar(cf, s.sr)));
  c.near(double(g), 1, 1e-4, 0, "gain at the centre frequency");
  long double ref0 = std::abs(Biquads(cf, s.sr, Polar(cf, s.sr)));
  Rng r(c.seed());
  long double erb = cf / 9.26449L + 24.7L;
  for (int i = 0; i < 12; ++i) {
    long double fr = i < 8 ? cf + erb * 4 * r.sym() : r.unit() * s.sr / 2;
    if (fr <= 0 || fr >= s.sr / 2.0L) continue;
    long double got = std::abs(H(Polar(fr, s.sr))), want = std::abs(Biquads(cf, s.sr, Polar(fr, s.sr))) / ref0;
    c.near(double(got), double(want), 1e-6, 2e-4, "filter response");
  }
  // The published bandwidth, where the analogue approximation is good.
  long double bw = 1.019L * erb;
  if (cf > 8 * bw && cf + 4 * bw < s.sr / 2.0L) {
    c.label("bandwidth checked");
    long double h1 = std::abs(H(Polar(cf + bw, s.sr))), h2 = std::abs(H(Polar(cf - bw, s.sr)));
    c.near(double((h1 + h2) / 2), 0.25, 0.03, 0, "gain one bandwidth from the centre");
  }
  c.nontrivial();
}

static std::valarray<double> VA(const Vec& v) { return std::valarray<double>(v.data(), v.size()); }

// The bank's output, band by band, against a direct evaluation of the cascade.
static void Bank(Case& c) {
  Setup s = Any(c);
  auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(s.sr, s.bands, s.low, s.high);
  auto co = Coeffs(f);
  bool flip = c.chance(50);
  if (flip) co = co.FlipUpDown();
  Visqol::GammatoneFilterBank bank(s.bands, s.low), whole(s.bands, s.low);
  c.check(bank.GetNumBands() == s.bands && bank.GetMinFreq() == s.low, "the bank forgot its parameters");
  bank.SetFilterCoefficients(co); bank.ResetFilterConditions();
  whole.SetFilterCoefficients(co); whole.ResetFilterConditions();
  size_t n = c.size(1, 1200);
  Rng r(c.seed());
  size_t kind = c.pick({4, 2, 2, 1});
  Vec x = Synth(kind == 0 ? kNoise : kind == 1 ? kTones : kind == 2 ? kImpulses : kConstant, r, n, s.sr);
  ScaleToPeak(x, std::pow(10, 2 * r.sym()));
  c.note("samples", n); c.note("kind", kind); c.note("x", x);
  if (c.chance(40)) {  // use the bank, then reset it
    Vec junk = Synth(kNoise, r, 1 + n / 2, s.sr);
    if (c.chance(40)) {  // with other coefficients, which differ in some respects only
      auto other = co; size_t cols = r.next() % 1024; if (r.next() % 3 == 0) cols = size_t(1) << (r.next() % 4 ? 1 + r.next() % 9 : 9);
      for (size_t k = 0; k < 10; ++k) if (cols >> k & 1 && k != 6) for (size_t q = 0; q < s.bands; ++q) other(q, k) *= 0.5 + 0.3 * r.unit();
      if (c.chance(50)) bank = Visqol::GammatoneFilterBank(s.bands, s.low);
      bank.SetFilterCoefficients(other); bank.ResetFilterConditions();
      bank.ApplyFilter(VA(junk));
      bank.SetFilterCoefficients(co);
      c.label("other coefficients before");
    } else {
      bank.ApplyFilter(VA(junk));
      if (c.chance(50)) bank.SetFilterCoefficients(co);
    }
    bank.ResetFilterConditions();
    c.label("reset after use");
  }
  auto yw = whole.ApplyFilter(VA(x));
  c.check(yw.NumRows() == s.bands && yw.NumCols() == n, "output is %zux%zu", yw.NumRows(), yw.NumCols());
  // In pieces.
  size_t at = 0; int pieces = 0;
  double peak = Peak(x);
  while (at < n) {
    size_t k = std::min<size_t>(n - at, c.size(1, n));
    if (++pieces > 8) k = n - at;
    auto y = bank.ApplyFilter(VA(Vec(x.begin() + at, x.begin() + at + k)));
    c.check(y.NumCols() == k && y.NumRows() == s.bands, "a piece of %zu samples gave %zux%zu", k, y.NumRows(), y.NumCols());
    for (size_t b = 0; b < s.bands; ++b) for (size_t i = 0; i < k; ++i)
      if (std::fabs(y(b, i) - yw(b, at + i)) > 1e-9 * peak) c.fail("band %zu sample %zu: %.12g in pieces, %.12g whole", b, at + i, y(b, i), yw(b, at + i));
    at += k;
  }
  if (pieces > 1) c.label("in pieces");
  // Against the cascade, evaluated in long double for one band.
  size_t b = c.draw(s.bands - 1);
  std::vector<long double> u(x.begin(), x.end());
  long double amp = 1;
  for (int k = 1; k <= 4; ++k) {
    long double a0 = co(b, 0), a1 = co(b, k), a2 = co(b, 5), b1 = co(b, 7), b2 = co(b, 8), x1 = 0, x2 = 0, y1 = 0, y2 = 0;
    for (auto& v : u) { long double y = a0 * v + a1 * x1 + a2 * x2 - b1 * y1 - b2 * y2; x2 = x1; x1 = v; y2 = y1; y1 = y; v = y; }
  }
  long double top = 0; for (auto& v : u) { v /= co(b, 9); top = std::max(top, fabsl(v)); }
  (void)amp;
  for (size_t i = 0; i < n; ++i) if (fabsl(u[i] - yw(b, i)) > 1e-6L * (top + 1e-3L * peak)) c.fail("band %zu sample %zu is %.12g, the cascade gives %.12Lg", b, i, yw(b, i), u[i]);
  // Linearity.
  Vec z = Synth(kNoise, r, n, s.sr), mix(n);
  double al = 3 * r.sym(), be = 3 * r.sym();
  for (size_t i = 0; i < n; ++i) mix[i] = al * x[i] + be * z[i];
  whole.ResetFilterConditions(); auto yz = whole.ApplyFilter(VA(z));
  whole.ResetFilterConditions(); auto ym = whole.ApplyFilter(VA(mix));
  double scale = 3 * (peak + Peak(z));
  for (size_t q = 0; q < s.bands; ++q) for (size_t i = 0; i < n; ++i)
    if (std::fabs(ym(q, i) - al * yw(q, i) - be * yz(q, i)) > 1e-8 * scale) c.fail("not linear in band %zu sample %zu: %.12g, expected %.12g", q, i, ym(q, i), al * yw(q, i) + be * yz(q, i));
  c.nontrivial(n > 3);
}

// A tone at a band's centre comes out of that band with its own amplitude.
static void Tone(Case& c) {
  Setup s = Any(c);
  s.bands = std::min<size_t>(s.bands, 40);
  auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(s.sr, s.bands, s.low, s.high);
  size_t b = c.draw(s.bands - 1);
  double cf = f.centerFreqs[b], erb = cf / 9.26449 + 24.7;
  c.require(cf < 0.49 * s.sr);
  size_t settle = size_t(8.0 / (2 * M_PI * 1.019 * erb) * s.sr * 3) + 64, measure = size_t(4 * s.sr / cf) + 256;
  Visqol::GammatoneFilterBank bank(s.bands, s.low);
  bank.SetFilterCoefficients(Coeffs(f)); bank.ResetFilterConditions();
  double ph = c.real(0, 6.28), a = std::pow(10, c.real(-2, 2));
  Vec x(settle + measure);
  for (size_t i = 0; i < x.size(); ++i) x[i] = a * std::sin(2 * M_PI * cf * i / s.sr + ph);
  auto y = bank.ApplyFilter(VA(x));
  // Least-squares amplitude of the tone in the tail.
  double cc = 0, ss = 0, cs = 0, yc = 0, ys = 0;
  for (size_t i = settle; i < x.size(); ++i) {
    double w = 2 * M_PI * cf * i / s.sr, C = std::cos(w), S = std::sin(w), v = y(b, i);
    cc += C * C; ss += S * S; cs += C * S; yc += v * C; ys += v * S;
  }
  double det = cc * ss - cs * cs, A = (yc * ss - ys * cs) / det, B = (ys * cc - yc * cs) / det;
  c.note("centre", cf);
  c.near(std::sqrt(A * A + B * B) / a, 1, 5e-3, 0, "amplitude of a tone at its band's centre");
  c.nontrivial();
}

// The recursive filter itself, for any order and any initial state.
static void Filter(Case& c) {
  size_t n = c.range(2, 7), len = c.size(1, 400);
  Rng r(c.seed());
  Vec num(n), den(n), st(n - 1);
  for (auto& x : num) x = r.gauss();
  for (auto& x : den) x = 0.8 * r.sym() / (n - 1);
  den[0] = 1;
  bool zero = c.chance(50);
  for (auto& x : st) x = zero ? 0 : r.gauss();
  Vec x = Synth(kNoise, r, len, 8000);
  c.note("order", n - 1); c.note("samples", len); c.note("num", num); c.note("den", den);
  auto res = Visqol::SignalFilter::Filter(VA(num), VA(den), VA(x), VA(st));
  c.check(res.filteredSignal.size() == len && res.finalConditions.size() == n - 1, "%zu samples and %zu conditions", res.filteredSignal.size(), res.finalConditions.size());
  // Direct difference equation; the state stands for the missing past.
  std::vector<long double> y(len);
  for (size_t i = 0; i < len; ++i) {
    long double v = i < n - 1 ? st[i] : 0;
    for (size_t k = 0; k < n; ++k) if (i >= k) v += (long double)num[k] * x[i - k];
    for (size_t k = 1; k < n; ++k) if (i >= k) v -= (long double)den[k] * y[i - k];
    y[i] = v;
  }
  for (size_t i = 0; i < len; ++i) c.near(res.filteredSignal[i], double(y[i]), 1e-9 * n, 1e-9, "filter output");
  // The final state continues the filter.
  size_t cut = c.draw(len);
  if (cut > 0 && cut < len) {
    auto a = Visqol::SignalFilter::Filter(VA(num), VA(den), VA(Vec(x.begin(), x.begin() + cut)), VA(st));
    auto b = Visqol::SignalFilter::Filter(VA(num), VA(den), VA(Vec(x.begin() + cut, x.end())), a.finalConditions);
    for (size_t i = cut; i < len; ++i) c.near(b.filteredSignal[i - cut], double(y[i]), 1e-9 * n, 1e-9, "continued filter output");
    c.label("continued");
  }
  c.nontrivial(len > n);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C17";
  p.rule = "random sample rate (2-192 kHz), 1-64 bands and range: centres against the ERB-rate scale; responses at random frequencies against a long-double evaluation of the gammatone cascade; outputs against a long-double recurrence, split at random points, after use and reset, and for linearity; non-trivial with more than one band or more than a few samples";
  p.assumptions = {"the lowest frequency is positive and at least 17% below the highest"};
  p.facets = {{"centres", Centres, 40000, 2000000, 1}, {"response", Response, 60000, 2000000, 1}, {"bank", Bank, 15000, 800000, 4}, {"tone", Tone, 5000, 200000, 2}, {"filter", Filter, 60000, 3000000, 1}};
  return pbt::Main(p, argc, argv);
}
