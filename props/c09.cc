// C09: the patch similarity is the neurogram similarity index.
#include "lib/common.h"
#include "neurogram_similiarity_index_measure.h"

using namespace vt;

// A patch in plain form, row-major access through at().
struct Patch {
  size_t r, c; Vec v;  // column-wise, as the matrix stores it
  double at(long i, long j) const {  // edges replicated
    i = std::min(std::max(i, 0L), long(r) - 1); j = std::min(std::max(j, 0L), long(c) - 1);
    return v[j * r + i];
  }
  Visqol::AMatrix<double> m() const { return Visqol::AMatrix<double>(r, c, v); }
};

// Values that real patches hold: decibels above a floor, with floors, plateaus,
// silence; and values no real patch holds.
static Patch Any(Case& c, Rng& r, size_t rows, size_t cols, const char* name) {
  Patch p{rows, cols, Vec(rows * cols)};
  size_t k = c.pick({6, 3, 2, 2, 2, 1, 1});
  double amp = c.chance(70) ? 60 : std::pow(10, c.real(-3, 3));
  switch (k) {
    case 0: { // smooth decibel image above a floor
      double a = r.unit() * 3, b = r.unit() * 3;
      for (size_t j = 0; j < cols; ++j) for (size_t i = 0; i < rows; ++i) p.v[j * rows + i] = std::max(0.0, amp * (0.3 + 0.4 * std::sin(a * i + b * j) + 0.2 * r.gauss()));
      break;
    }
    case 1: for (auto& x : p.v) x = amp * r.unit(); break;
    case 2: { double s = amp * r.unit(); for (auto& x : p.v) x = s; break; }
    case 3: for (auto& x : p.v) x = r.unit() < 0.7 ? 0 : amp * r.unit(); break;
    case 4: for (auto& x : p.v) x = amp * r.gauss(); break;
    case 5: break;
    case 6: for (size_t j = 0; j < cols; ++j) { double s = amp * r.unit(); for (size_t i = 0; i < rows; ++i) p.v[j * rows + i] = s; } break;
  }
  static const char* n[] = {"image", "uniform", "constant", "sparse", "signed", "zero", "columns"};
  c.note(name, std::string(n[k]) + " amp=" + std::to_string(amp));
  return p;
}

struct Ref { Vec lo, hi, dlo, dhi, energy; double slo, shi; };
// The definition, with an interval for what double rounding can do to the
// variances (differences of large nearly equal numbers).
static Ref Nsim(const Patch& a, const Patch& b) {
  const long double w[3][3] = {{0.0113033910173052L, 0.0838251475442633L, 0.0113033910173052L}, {0.0838251475442633L, 0.619485845753726L, 0.0838251475442633L}, {0.0113033910173052L, 0.0838251475442633L, 0.0113033910173052L}};
  const long double c1 = 0.01L * 0.01L, c3 = 0.03L * 0.03L / 2;
  Ref r; r.slo = r.shi = 0;
  for (long i = 0; i < long(a.r); ++i) {
    std::vector<long double> lo, hi; long double e = 0;
    for (long j = 0; j < long(a.c); ++j) {
      long double ma = 0, mb = 0, aa = 0, bb = 0, ab = 0;
      for (int p = -1; p <= 1; ++p) for (int q = -1; q <= 1; ++q) {
        long double x = a.at(i + p, j + q), y = b.at(i + p, j + q), k = w[p + 1][q + 1];
        ma += k * x; mb += k * y; aa += k * x * x; bb += k * y * y; ab += k * x * y;
      }
      long double da = 4e-15L * aa, db = 4e-15L * bb, dab = 4e-15L * sqrtl(aa * bb);
      long double va = aa - ma * ma, vb = bb - mb * mb, vab = ab - ma * mb;
      long double in = (2 * ma * mb + c1) / (ma * ma + mb * mb + c1);
      auto S = [](long double v) { return std::max(0.0L, v); };
      long double smax = sqrtl(S(va + da) * S(vb + db)), smin = sqrtl(S(va - da) * S(vb - db));
      long double n1 = vab + c3 - dab, n2 = vab + c3 + dab, cand[4] = {n1 / (smax + c3), n1 / (smin + c3), n2 / (smax + c3), n2 / (smin + c3)};
      long double l = *std::min_element(cand, cand + 4), h = *std::max_element(cand, cand + 4);
      long double ie = 1e-12L + 1e-12L * fabsl(ma * mb) / (ma * ma + mb * mb + c1);
      long double q[4] = {(in - ie) * l, (in - ie) * h, (in + ie) * l, (in + ie) * h};
      lo.push_back(*std::min_element(q, q + 4)); hi.push_back(*std::max_element(q, q + 4));
      e += b.at(i, j) / a.c;
    }
    long double ml = 0, mh = 0, mm = 0, wid = 0, var = 0;
    for (size_t j = 0; j < lo.size(); ++j) { ml += lo[j] / lo.size(); mh += hi[j] / lo.size(); mm += (lo[j] + hi[j]) / 2 / lo.size(); wid = std::max(wid, hi[j] - lo[j]); }
    for (size_t j = 0; j < lo.size(); ++j) { long double d = (lo[j] + hi[j]) / 2 - mm; var += d * d; }
    long double sd = lo.size() > 1 ? sqrtl(var / (lo.size() - 1)) : 0;
    r.lo.push_back(double(ml)); r.hi.push_back(double(mh));
    r.dlo.push_back(double(sd - 2 * wid)); r.dhi.push_back(double(sd + 2 * wid));
    r.energy.push_back(double(e));
    r.slo += double(ml / a.r); r.shi += double(mh / a.r);
  }
  return r;
}
static void In(Case& c, double x, double lo, double hi, double tol, const char* what, size_t i) {
  c.check(x >= lo - tol && x <= hi + tol, "%s (band %zu) is %.15g, expected %.15g..%.15g", what, i, x, lo, hi);
}

static void Definition(Case& c) {
  size_t rows = c.chance(40) ? c.of<size_t>({21, 32}) : size_t(c.size(1, 40));
  size_t cols = c.chance(40) ? c.of<size_t>({20, 30}) : size_t(c.size(1, 40));
  if (c.chance(1)) (c.chance(50) ? rows : cols) = size_t(c.range(40, 700));
  c.note("bands", rows); c.note("frames", cols);
  Rng r(c.seed());
  Patch a = Any(c, r, rows, cols, "ref"), b;
  size_t rel = c.pick({4, 3, 2, 2});
  if (rel == 0) b = Any(c, r, rows, cols, "deg");
  else {
    b = a;
    double m = 0; for (double x : a.v) m = std::max(m, std::fabs(x));
    if (rel == 1) { double s = std::pow(10, -3 * r.unit()) * m; for (auto& x : b.v) x = x + s * r.gauss(); c.note("deg", "ref with noise"); }
    if (rel == 2) { double s = m * r.sym(); for (auto& x : b.v) x += s; c.note("deg", "ref plus a constant"); }
    if (rel == 3) c.note("deg", "identical");
  }
  Visqol::NeurogramSimiliarityIndexMeasure n;
  auto A = a.m(), B = b.m();
  auto res = n.MeasurePatchSimilarity(A, B);
  c.check(A == a.m() && B == b.m(), "measuring changed a patch");
  c.check(res.freq_band_means.NumElements() == rows && res.freq_band_stddevs.NumElements() == rows && res.freq_band_deg_energy.NumElements() == rows, "per-band results for %zu, %zu, %zu of %zu bands", res.freq_band_means.NumElements(), res.freq_band_stddevs.NumElements(), res.freq_band_deg_energy.NumElements(), rows);
  Ref q = Nsim(a, b);
  double top = 0; for (double x : b.v) top = std::max(top, std::fabs(x));
  for (size_t i = 0; i < rows; ++i) {
    In(c, res.freq_band_means(i), q.lo[i], q.hi[i], 1e-10, "band similarity", i);
    In(c, res.freq_band_stddevs(i), q.dlo[i], q.dhi[i], 1e-7, "band deviation", i);
    In(c, res.freq_band_deg_energy(i), q.energy[i], q.energy[i], 1e-10 * (1 + top), "degraded energy", i);
    c.check(res.freq_band_means(i) <= 1 + 1e-6, "band similarity %.12g exceeds 1", res.freq_band_means(i));
    c.check(res.freq_band_stddevs(i) >= 0, "negative deviation");
  }
  In(c, res.similarity, q.slo, q.shi, 1e-10, "similarity", 0);
  c.check(res.similarity <= 1 + 1e-6, "similarity %.12g exceeds 1", res.similarity);
  if (rel == 3) {
    c.label("identical");
    c.near(res.similarity, 1, 1e-7 + (1 - std::min(1.0, q.slo)), 0, "similarity of identical patches");
  }
  // Symmetric.
  auto rev = n.MeasurePatchSimilarity(B, A);
  for (size_t i = 0; i < rows; ++i) c.near(rev.freq_band_means(i), res.freq_band_means(i), 1e-10 + q.hi[i] - q.lo[i], 0, "similarity the other way round");
  // The same instance, measured again.
  auto again = n.MeasurePatchSimilarity(A, B);
  c.check(again.similarity == res.similarity, "measuring again gave %.17g after %.17g", again.similarity, res.similarity);
  if (q.shi - q.slo < 1e-6) c.label("sharp interval");
  c.nontrivial(rel != 3 && rows * cols > 1);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C09";
  p.rule = "random patch pairs of 1-40 bands and frames (images, noise, constants, sparse, signed, zero; independent, noisy, offset or identical), against a long-double evaluation of the definition with an interval for rounding; non-trivial when the patches differ and have more than one cell";
  p.assumptions = {"rounding of the local variances is allowed 4e-15 of the local mean square"};
  p.facets = {{"definition", Definition, 40000, 2000000, 1}};
  return pbt::Main(p, argc, argv);
}
