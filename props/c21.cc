// C21: matrices and 2-D convolution against plain tables.
#include <complex>

#include "complex_valarray.h"
#include "convolution_2d.h"
#include "lib/common.h"
#include "misc_vector.h"

using namespace vt;
typedef std::complex<double> Cx;

template <class T> struct Tab {
  size_t r = 0, c = 0;
  std::vector<T> v;  // column-wise
  Tab() {}
  Tab(size_t r_, size_t c_, T x = T()) : r(r_), c(c_), v(r_ * c_, x) {}
  T& at(size_t i, size_t j) { return v[j * r + i]; }
  const T& at(size_t i, size_t j) const { return v[j * r + i]; }
};
static bool Close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); }
static bool Close(Cx a, Cx b) { return a == b || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)); }

template <class T> static void Same(Case& c, const Visqol::AMatrix<T>& m, const Tab<T>& t, const char* what, double tol = 0) {
  c.check(m.NumRows() == t.r && m.NumCols() == t.c, "%s: shape %zux%zu, expected %zux%zu", what, m.NumRows(), m.NumCols(), t.r, t.c);
  c.check(m.NumElements() == t.r * t.c, "%s: %zu elements for a %zux%zu matrix", what, m.NumElements(), t.r, t.c);
  for (size_t j = 0; j < t.c; ++j) for (size_t i = 0; i < t.r; ++i) {
    T got = m(i, j), want = t.at(i, j);
    bool ok = Close(got, want) || std::abs(got - want) <= tol;
    if (!ok) c.fail("%s: element (%zu,%zu) is %.17g, expected %.17g", what, i, j, std::real(got), std::real(want));
  }
}
template <class T> static void SameVec(Case& c, const std::vector<T>& a, const std::vector<T>& b, const char* what) {
  c.check(a.size() == b.size(), "%s: %zu entries, expected %zu", what, a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) if (!Close(a[i], b[i])) c.fail("%s: entry %zu is %.17g, expected %.17g", what, i, std::real(a[i]), std::real(b[i]));
}
static void Rand(Rng& r, double& x) { double k = r.unit(); x = k < 0.1 ? 0 : k < 0.5 ? double(r.range(-4, 4)) : r.gauss() * std::pow(10, 3 * r.sym()); }
static void Rand(Rng& r, Cx& x) { double a, b; Rand(r, a); Rand(r, b); x = Cx(a, b); }

// Both types share most operations; the double-only ones are guarded below.
template <class T> struct Pool {
  std::vector<Visqol::AMatrix<T>> m;
  std::vector<Tab<T>> t;
};

template <class T> static Tab<T> RandTab(Rng& r, size_t rows, size_t cols) {
  Tab<T> t(rows, cols);
  for (auto& x : t.v) Rand(r, x);
  return t;
}
// Makes freed memory visible to a matrix that still refers to it.
static void Churn(Rng& r) {
  for (int i = 0; i < 4; ++i) { std::vector<double> junk(1 + size_t(r.unit() * 80), 9e99); volatile double s = junk[0]; (void)s; }
}

template <class T> static Visqol::AMatrix<T> Make(Case& c, Rng& r, Tab<T>& t) {
  size_t rows = c.size(1, 9), cols = c.size(1, 9);
  if (c.chance(1)) (c.chance(70) ? rows : cols) = size_t(c.range(100, 3000));
  size_t how = c.pick({4, 3, 2, 2, 2, 2, 2, 1});
  t = RandTab<T>(r, rows, cols);
  switch (how) {
    case 0: { Visqol::AMatrix<T> m(rows, cols, t.v); return m; }
    case 1: {
      std::unique_ptr<Visqol::AMatrix<T>> m;
      { std::vector<T> copy = t.v; m.reset(new Visqol::AMatrix<T>(rows, cols, std::move(copy))); }
      Churn(r);
      c.label("adopted vector");
      Same(c, *m, t, "a matrix made from a vector that is gone");
      return *m;
    }
    case 2: { t = RandTab<T>(r, rows, 1); return Visqol::AMatrix<T>(t.v); }
    case 3: { t = RandTab<T>(r, rows, 1); std::vector<T> copy = t.v; absl::Span<T> s(copy); return Visqol::AMatrix<T>(s); }
    case 4: { t = RandTab<T>(r, rows, 1); return Visqol::AMatrix<T>(std::valarray<T>(t.v.data(), t.v.size())); }
    case 5: {
      std::vector<std::vector<T>> cc(cols);
      for (size_t j = 0; j < cols; ++j) for (size_t i = 0; i < rows; ++i) cc[j].push_back(t.at(i, j));
      return Visqol::AMatrix<T>(cc);
    }
    case 6: { T x; Rand(r, x); t = Tab<T>(rows, cols, x); return Visqol::AMatrix<T>::Filled(rows, cols, x); }
    default: {
      Visqol::AMatrix<T> m(rows, cols);
      for (size_t j = 0; j < cols; ++j) for (size_t i = 0; i < rows; ++i) m(i, j) = t.at(i, j);
      return m;
    }
  }
}

template <class T> static void RealOnly(Case&, Rng&, Visqol::AMatrix<T>&, Tab<T>&, int) {}
template <> void RealOnly<double>(Case& c, Rng&, Visqol::AMatrix<double>& m, Tab<double>& t, int op) {
  if (op == 0) {
    Tab<double> u(t.c, t.r);
    for (size_t i = 0; i < t.r; ++i) for (size_t j = 0; j < t.c; ++j) u.at(j, i) = t.at(i, j);
    auto x = m.Transpose();
    Same(c, x, u, "transpose"); Same(c, x.Transpose(), t, "double transpose");
  } else if (op == 1) {
    std::vector<double> col0; for (size_t z = 0; z < t.r; ++z) col0.push_back(t.at(z, 0));
    SameVec(c, m.ToVector(), col0, "first column as vector");
  } else {
    bool cols = op == 2 || op == 4, sd = op >= 4;
    if (t.r == 0 || t.c == 0) return;
    size_t n = cols ? t.c : t.r, k = cols ? t.r : t.c;
    Tab<double> u(cols ? 1 : t.r, cols ? t.c : 1);
    double scale = 0;
    for (double x : t.v) scale = std::max(scale, std::fabs(x));
    for (size_t a = 0; a < n; ++a) {
      double mean = 0, var = 0;
      for (size_t b = 0; b < k; ++b) mean += (cols ? t.at(b, a) : t.at(a, b)) / k;
      for (size_t b = 0; b < k; ++b) { double d = (cols ? t.at(b, a) : t.at(a, b)) - mean; var += d * d; }
      u.v[a] = sd ? (k > 1 ? std::sqrt(var / (k - 1)) : 0) : mean;
    }
    auto dim = cols ? Visqol::kDimension::COLUMN : Visqol::kDimension::ROW;
    Same(c, sd ? m.StdDev(dim) : m.Mean(dim), u, sd ? (cols ? "deviation of columns" : "deviation of rows") : (cols ? "mean of columns" : "mean of rows"), 1e-7 * scale * (sd ? 1 : 1e-5));
  }
}

template <class T> static void Sequence(Case& c) {
  Pool<T> p;
  Rng r(c.seed());
  int steps = int(c.range(1, 40));

  for (int s = 0; s < steps; ++s) {
    if (p.m.size() < 2 || (p.m.size() < 6 && c.chance(15))) {
      Tab<T> t; auto m = Make<T>(c, r, t);
      Churn(r);
      Same(c, m, t, "construction");
      p.m.push_back(m); p.t.push_back(t);
      continue;
    }
    size_t a = c.draw(p.m.size() - 1), b = c.draw(p.m.size() - 1);
    size_t op = c.draw(29);
    c.note_str("op", std::to_string(op));
    auto& M = p.m[a]; auto& X = p.t[a];
    if (X.r == 0 || X.c == 0) { Tab<T> t; auto m = Make<T>(c, r, t); M = m; X = t; continue; }
    size_t i = c.draw(X.r - 1), j = c.draw(X.c - 1), i2 = i + c.draw(X.r - 1 - i), j2 = j + c.draw(X.c - 1 - j);
    T k; Rand(r, k);
    switch (op) {
      case 0: M(i, j) = k; X.at(i, j) = k; break;
      case 1: M(i + j * X.r) = k; X.at(i, j) = k; break;
      case 2: { const auto& cm = M; T g = cm(i + j * X.r); c.check(Close(g, X.at(i, j)), "linear access"); break; }
      case 3: M = p.m[b]; X = p.t[b]; break;                       // copy assignment, self too
      case 4: { Visqol::AMatrix<T> copy(p.m[b]); p.m.push_back(copy); p.t.push_back(p.t[b]); break; }
      case 5: {                                                    // equality, both ways
        for (size_t q = 0; q < p.m.size(); ++q) {
          bool want = X.r == p.t[q].r && X.c == p.t[q].c && X.v == p.t[q].v;
          bool got = M == p.m[q], rev = p.m[q] == M;
          c.check(got == want && rev == want, "equality of a %zux%zu and a %zux%zu matrix says %d/%d, expected %d", X.r, X.c, p.t[q].r, p.t[q].c, got, rev, want);
        }
        Visqol::AMatrix<T> copy(M);
        c.check(copy == M, "a copy is not equal to its origin");
        // A difference is one however small it is.
        T by = T(c.of<double>({1, 1, 1e-3, 1e-7, 1e-10, 1e-13, 1e-300}));
        copy(i, j) = copy(i, j) + (c.chance(50) ? by : by * copy(i, j));
        if (copy(i, j) != X.at(i, j)) c.check(!(copy == M), "matrices differing at (%zu,%zu) compare equal", i, j);
        break;
      }
      case 6: if (X.r == p.t[b].r && X.c == p.t[b].c) {
        Tab<T> s = X, d = X, m = X;
        for (size_t q = 0; q < X.v.size(); ++q) { s.v[q] = X.v[q] + p.t[b].v[q]; d.v[q] = X.v[q] - p.t[b].v[q]; m.v[q] = X.v[q] * p.t[b].v[q]; }
        Same(c, M + p.m[b], s, "sum"); Same(c, M - p.m[b], d, "difference"); Same(c, M.PointWiseProduct(p.m[b]), m, "element product");
        c.label("elementwise pair"); break;
      } else { Tab<T> t = RandTab<T>(r, X.r, X.c); p.m[b] = Visqol::AMatrix<T>(X.r, X.c, t.v); p.t[b] = t; break; }
      case 7: if (X.r == p.t[b].r && X.c == p.t[b].c) {
        bool zero = false; for (auto& q : p.t[b].v) zero |= q == T(0);
        if (zero) break;
        Tab<T> s = X; for (size_t q = 0; q < X.v.size(); ++q) s.v[q] = X.v[q] / p.t[b].v[q];
        Same(c, M.PointWiseDivide(p.m[b]), s, "element quotient");
        break;
      } else break;
      case 8: { Tab<T> s = X; for (auto& q : s.v) q = q + k; Same(c, M + k, s, "sum with a number"); break; }
      case 9: { Tab<T> s = X; for (auto& q : s.v) q = q - k; Same(c, M - k, s, "difference with a number"); break; }
      case 10: { Tab<T> s = X; for (auto& q : s.v) q = q * k; Same(c, M * k, s, "product with a number"); break; }
      case 11: { if (k == T(0)) break; Tab<T> s = X; for (auto& q : s.v) q = q / k; Same(c, M / k, s, "quotient with a number"); break; }
      case 12: { std::vector<T> w; for (size_t q = 0; q < X.c; ++q) w.push_back(X.at(i, q)); SameVec(c, M.GetRow(i), w, "row"); break; }
      case 13: { Tab<T> w(i2 - i + 1, X.c); for (size_t q = 0; q < X.c; ++q) for (size_t z = i; z <= i2; ++z) w.at(z - i, q) = X.at(z, q); Same(c, M.GetRows(i, i2), w, "rows"); break; }
      case 14: { Tab<T> w(X.r, 1); for (size_t q = 0; q < X.r; ++q) w.at(q, 0) = X.at(q, j); Same(c, M.GetColumn(j), w, "column"); break; }
      case 15: { Tab<T> w(X.r, j2 - j + 1); for (size_t q = j; q <= j2; ++q) for (size_t z = 0; z < X.r; ++z) w.at(z, q - j) = X.at(z, q); Same(c, M.GetColumns(j, j2), w, "columns"); break; }
      case 16: { Tab<T> w(i2 - i + 1, j2 - j + 1); for (size_t q = j; q <= j2; ++q) for (size_t z = i; z <= i2; ++z) w.at(z - i, q - j) = X.at(z, q); Same(c, M.GetSpan(i, i2, j, j2), w, "span"); break; }
      case 17: { std::vector<T> w; for (size_t q = j; q <= j2; ++q) w.push_back(X.at(i, q)); SameVec(c, M.RowSubset(i, j, j2), w, "part of a row"); break; }
      case 18: { std::vector<T> w(X.c); for (auto& q : w) Rand(r, q); M.SetRow(i, w); for (size_t q = 0; q < X.c; ++q) X.at(i, q) = w[q]; break; }
      case 19: { std::vector<T> w(X.c); for (auto& q : w) Rand(r, q); M.SetRow(i, std::valarray<T>(w.data(), w.size())); for (size_t q = 0; q < X.c; ++q) X.at(i, q) = w[q]; break; }
      case 20: { std::vector<T> w(X.r); for (auto& q : w) Rand(r, q); for (size_t q = 0; q < X.r; ++q) X.at(q, j) = w[q]; M.SetColumn(j, std::move(w)); break; }
      case 21: { std::vector<T> w(X.r); for (auto& q : w) Rand(r, q); for (size_t q = 0; q < X.r; ++q) X.at(q, j) = w[q]; M.SetColumn(j, std::valarray<T>(w.data(), w.size())); break; }
      case 22: { std::vector<T> w(X.r); for (auto& q : w) Rand(r, q); for (size_t q = 0; q < X.r; ++q) X.at(q, j) = w[q]; M.SetColumn(j, Visqol::AMatrix<T>(w)); break; }
      case 23: { // resizing keeps what fits and fills the rest with zeros
        size_t nr = c.size(1, 12), nc = c.size(1, 12);
        Tab<T> w(nr, nc); for (size_t q = 0; q < std::min(nc, X.c); ++q) for (size_t z = 0; z < std::min(nr, X.r); ++z) w.at(z, q) = X.at(z, q);
        M.Resize(nr, nc); X = w; break;
      }
      case 24: { // joining
        size_t nr = c.draw(5);
        Tab<T> t = RandTab<T>(r, nr, X.c); Visqol::AMatrix<T> o(nr, X.c); for (size_t q = 0; q < X.c; ++q) for (size_t z = 0; z < nr; ++z) o(z, q) = t.at(z, q);
        Tab<T> w(X.r + nr, X.c), w2(X.r + nr, X.c);
        for (size_t q = 0; q < X.c; ++q) {
          for (size_t z = 0; z < X.r; ++z) { w.at(z, q) = X.at(z, q); w2.at(z + nr, q) = X.at(z, q); }
          for (size_t z = 0; z < nr; ++z) { w.at(X.r + z, q) = t.at(z, q); w2.at(z, q) = t.at(z, q); }
        }
        Same(c, M.JoinVertically(o), w, "join below"); Same(c, o.JoinVertically(M), w2, "join above");
        if (w.r < 30) { M = M.JoinVertically(o); X = w; }
        break;
      }
      case 25: { Tab<T> w = X; for (size_t q = 0; q < X.c; ++q) for (size_t z = 0; z < X.r; ++z) w.at(X.r - 1 - z, q) = X.at(z, q); Same(c, M.FlipUpDown(), w, "flip"); break; }
      case 26: RealOnly<T>(c, r, M, X, int(c.draw(5))); break;
      case 27: {
        c.check(M.LongestDimensionLength() == std::max(X.r, X.c), "longest dimension of %zux%zu is %zu", X.r, X.c, M.LongestDimensionLength());
        std::vector<T> col0; for (size_t z = 0; z < X.r; ++z) col0.push_back(X.at(z, 0));
        auto va = M.ToValArray(); SameVec(c, std::vector<T>(std::begin(va), std::end(va)), col0, "first column as valarray");
        SameVec(c, std::vector<T>(M.cbegin(), M.cend()), X.v, "iteration order");
        SameVec(c, std::vector<T>(M.data(), M.data() + M.NumElements()), X.v, "storage order");
        SameVec(c, std::vector<T>(M.MemPtr(), M.MemPtr() + M.NumElements()), X.v, "storage order");
        break;
      }
      case 28: { size_t n = 0; for (auto it = M.begin(); it != M.end(); ++it, ++n) { T q; Rand(r, q); *it = q; X.v[n] = q; } break; }
      case 29: { // results own their storage
        auto part = M.GetColumns(j, j2); Tab<T> w(X.r, j2 - j + 1);
        for (size_t q = j; q <= j2; ++q) for (size_t z = 0; z < X.r; ++z) w.at(z, q - j) = X.at(z, q);
        M(i, j) = k; X.at(i, j) = k;
        Churn(r);
        Same(c, part, w, "columns taken before a change");
        break;
      }
    }
    for (size_t q = 0; q < p.m.size(); ++q) Same(c, p.m[q], p.t[q], q == a ? "matrix after the operation" : "another matrix after the operation");
  }

  c.nontrivial(steps > 4);
}

static void Convolve(Case& c) {
  size_t fr = c.size(1, 7), fc = c.size(1, 7), ir = c.size(1, 34), ic = c.size(1, 34);
  if (c.chance(40)) fr = fc = 3;
  if (c.chance(1)) {
    (c.chance(50) ? ir : ic) = size_t(c.range(35, 1500));
    if (c.chance(30)) { ir = size_t(c.range(20, 33)); ic = size_t(c.range(1500, 8000)); fr = fc = 3; if (c.chance(30)) std::swap(ir, ic); }
  }
  Rng r(c.seed());
  Tab<double> f = RandTab<double>(r, fr, fc), x = RandTab<double>(r, ir, ic);
  c.note("filter", std::to_string(fr) + "x" + std::to_string(fc)); c.note("input", std::to_string(ir) + "x" + std::to_string(ic)); c.note("seed", r.s[0]);
  Visqol::AMatrix<double> F(fr, fc, f.v), X(ir, ic, x.v), X0(X);
  auto y = Visqol::Convolution2D<double>::Valid2DConvWithBoundary(F, X);
  c.check(X == X0, "the input was changed");
  long orr = std::max(0L, long(ir) + 2 - long(fr) + 1), oc = std::max(0L, long(ic) + 2 - long(fc) + 1);
  c.check(y.NumRows() == size_t(orr) && y.NumCols() == size_t(oc), "the output is %zux%zu, expected %ldx%ld", y.NumRows(), y.NumCols(), orr, oc);
  auto px = [&](long i, long j) {  // replicated edge, one deep
    i = std::min(std::max(i - 1, 0L), long(ir) - 1); j = std::min(std::max(j - 1, 0L), long(ic) - 1);
    return x.at(i, j);
  };
  for (long i = 0; i < orr; ++i) for (long j = 0; j < oc; ++j) {
    double s = 0, a = 0;
    for (size_t p = 0; p < fr; ++p) for (size_t q = 0; q < fc; ++q) { double t = f.at(fr - 1 - p, fc - 1 - q) * px(i + p, j + q); s += t; a += std::fabs(t); }
    if (std::fabs(s - y(i, j)) > 1e-12 * a) c.fail("output (%ld,%ld) is %.17g, expected %.17g", i, j, y(i, j), s);
  }
  c.nontrivial(orr > 0 && oc > 0);
}

static void Sums(Case& c) {
  Rng r(c.seed());
  size_t rows = c.size(1, 20), cols = c.size(1, 20);
  if (c.chance(1)) (c.chance(50) ? rows : cols) = size_t(c.range(100, 5000));
  Tab<double> t = RandTab<double>(r, rows, cols);
  Visqol::AMatrix<double> m(rows, cols, t.v);
  double s = 0, a = 0; for (double x : t.v) { s += x; a += std::fabs(x); }
  c.note("shape", std::to_string(rows) + "x" + std::to_string(cols)); c.note("sum", s);
  c.near(Visqol::MiscVector::Sum(m), s, 1e-12 * a, 0, "sum of all elements");
  c.near(Visqol::MiscVector::Mean(m), s / (rows * cols), 1e-12 * a, 0, "mean of all elements");
  std::vector<Vec> vv(rows); Vec firsts;
  for (auto& row : vv) { row.resize(1 + size_t(r.unit() * 3)); for (auto& x : row) x = r.gauss(); firsts.push_back(row[0]); }
  SameVec(c, Visqol::MiscVector::ConvertVecOfVecToVec(vv), firsts, "first entries");
  c.nontrivial(rows * cols > 1);
}

// Arrays of complex numbers: every operation is that of the elements.
static void ComplexArrays(Case& c) {
  typedef Visqol::ComplexValArray CA;
  size_t n = c.size(0, 40); Rng r(c.seed());
  auto num = [&] { double d = r.gauss() * std::pow(10, 2 * r.sym()); return std::fabs(d) < 1e-3 ? 1e-3 : d; };
  std::vector<Cx> u(n), v(n); Vec re(n); std::valarray<double> w(n);
  for (size_t i = 0; i < n; ++i) { u[i] = Cx(num(), num()); v[i] = Cx(num(), num()); re[i] = num(); w[i] = num(); }
  double d = num(); Cx z(num(), num());
  CA a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = u[i]; b[i] = v[i]; }
  c.note("elements", n); c.note("scalar", d);
  auto same = [&](CA got, const char* what, const std::function<Cx(size_t)>& want) {
    c.check(got.size() == n, "%s: %zu elements of %zu", what, got.size(), n);
    for (size_t i = 0; i < n; ++i) {
      Cx x = want(i);
      if (!(std::abs(got[i] - x) <= 1e-12 * std::abs(x) + 1e-300) || got.at(i) != got[i]) c.fail("%s: element %zu is %.15g%+.15gi, expected %.15g%+.15gi", what, i, got[i].real(), got[i].imag(), x.real(), x.imag());
    }
  };
  same(a, "stored", [&](size_t i) { return u[i]; });
  same(CA(n), "new", [&](size_t) { return Cx(0, 0); });
  same(CA(re), "from reals", [&](size_t i) { return Cx(re[i], 0); });
  same(CA(w), "from reals", [&](size_t i) { return Cx(w[i], 0); });
  same(a + d, "plus a number", [&](size_t i) { return u[i] + d; }); same(d + a, "a number plus", [&](size_t i) { return u[i] + d; });
  same(a + b, "sum", [&](size_t i) { return u[i] + v[i]; }); same(-a, "negated", [&](size_t i) { return -u[i]; });
  same(a - d, "less a number", [&](size_t i) { return u[i] - d; }); same(a - b, "difference", [&](size_t i) { return u[i] - v[i]; });
  same(a * d, "times a number", [&](size_t i) { return u[i] * d; }); same(d * a, "a number times", [&](size_t i) { return u[i] * d; });
  same(a * z, "times a complex number", [&](size_t i) { return u[i] * z; }); same(z * a, "a complex number times", [&](size_t i) { return u[i] * z; });
  same(a * b, "product", [&](size_t i) { return u[i] * v[i]; }); same(a / d, "by a number", [&](size_t i) { return u[i] / d; });
  same(a / b, "quotient", [&](size_t i) { return u[i] / v[i]; }); same(a / w, "by reals", [&](size_t i) { return u[i] / w[i]; });
  same(d / b, "a number by", [&](size_t i) { return d / v[i]; });
  double e = c.of<double>({2, 3, 0.5, -1, 4, 1});
  same(b ^ e, "power", [&](size_t i) { return std::polar(std::pow(std::abs(v[i]), e), std::arg(v[i]) * e); });
  CA t(n); for (size_t i = 0; i < n; ++i) t[i] = Cx(r.sym() * 3, r.sym() * 3);
  std::vector<Cx> k(n); for (size_t i = 0; i < n; ++i) k[i] = t[i];
  same(t.exp(), "exponential", [&](size_t i) { return std::polar(std::exp(k[i].real()), k[i].imag()); });
  same(t.sin(), "sine", [&](size_t i) { return Cx(std::sin(k[i].real()) * std::cosh(k[i].imag()), std::cos(k[i].real()) * std::sinh(k[i].imag())); });
  same(t.cos(), "cosine", [&](size_t i) { return Cx(std::cos(k[i].real()) * std::cosh(k[i].imag()), -std::sin(k[i].real()) * std::sinh(k[i].imag())); });
  Vec mag, real; for (auto& x : u) { mag.push_back(std::hypot(x.real(), x.imag())); real.push_back(x.real()); }
  auto ga = a.abs(), gr = a.ToDoubleVector();
  c.check(ga.size() == n && gr == real, "real parts");
  for (size_t i = 0; i < n; ++i) c.near(ga[i], mag[i], 0, 1e-12, "magnitude");
  same(a, "after all this", [&](size_t i) { return u[i]; });
  c.nontrivial(n > 1);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C21";
  p.rule = "operation sequences: up to 40 operations on a pool of up to 8 real or complex matrices mirrored by plain tables, every matrix compared with its table after every operation, non-trivial above 4 operations; convolution: filters up to 7x7, inputs up to 34x34 and, rarely, 8000 columns or rows, non-trivial when there is an output; complex arrays: every operation on arrays of up to 40 numbers";
  p.assumptions = {"out-of-range indices are the caller's error and are not generated", "Armadillo's own memory handling is checked by AddressSanitizer only where it reaches the heap"};
  p.facets = {{"real", Sequence<double>, 40000, 1500000, 3}, {"complex", Sequence<Cx>, 15000, 500000, 2}, {"convolution", Convolve, 20000, 500000, 2}, {"sums", Sums, 5000, 200000, 1}, {"complex arrays", ComplexArrays, 20000, 500000, 1}};
  return pbt::Main(p, argc, argv);
}
