// C22: quality models predict what their model files define.
#include <filesystem>

#include "file_path.h"
#include "lib/common.h"
#include "support_vector_regression_model.h"
#include "svr_similarity_to_quality_mapper.h"
#include "training_data_file_reader.h"
using namespace vt;
namespace V = Visqol;

// A support-vector regression, by its definition.
struct Svr {
  int kernel = 2; double gamma = 0.1, coef0 = 0, rho = 0; int degree = 3;
  std::vector<double> coef; std::vector<std::map<int, double>> sv;
  double operator()(const Vec& x) const {
    long double s = -(long double)rho;
    for (size_t i = 0; i < sv.size(); ++i) {
      long double dot = 0, dist = 0; std::map<int, double> a = sv[i];
      for (size_t k = 0; k < x.size(); ++k) { double v = a.count(int(k) + 1) ? a[int(k) + 1] : 0; dot += (long double)v * x[k]; dist += ((long double)v - x[k]) * ((long double)v - x[k]); }
      for (auto& e : a) if (e.first > int(x.size())) dist += (long double)e.second * e.second;
      long double kv = kernel == 0 ? dot : kernel == 1 ? powl(gamma * dot + coef0, degree) : kernel == 2 ? expl(-gamma * dist) : tanhl(gamma * dot + coef0);
      s += coef[i] * kv;
    }
    return double(s);
  }
  std::string Text(bool nu) const {
    static const char* kn[] = {"linear", "polynomial", "rbf", "sigmoid"};
    std::ostringstream o; o.precision(17);
    o << "svm_type " << (nu ? "nu_svr" : "epsilon_svr") << "\nkernel_type " << kn[kernel] << "\n";
    if (kernel == 1) o << "degree " << degree << "\n";
    if (kernel) o << "gamma " << gamma << "\n";
    if (kernel == 1 || kernel == 3) o << "coef0 " << coef0 << "\n";
    o << "nr_class 2\ntotal_sv " << sv.size() << "\nrho " << rho << "\nSV\n";
    for (size_t i = 0; i < sv.size(); ++i) { o << coef[i] << " "; for (auto& e : sv[i]) o << e.first << ":" << e.second << " "; o << "\n"; }
    return o.str();
  }
  static Svr Read(const std::string& text) {
    Svr m; std::istringstream in(text); std::string line; bool svs = false;
    while (std::getline(in, line)) {
      std::istringstream l(line); std::string k;
      if (svs) { double v; if (!(l >> v)) continue; m.coef.push_back(v); m.sv.emplace_back(); std::string f; while (l >> f) { size_t p = f.find(':'); m.sv.back()[atoi(f.c_str())] = strtod(f.c_str() + p + 1, nullptr); } continue; }
      l >> k;
      if (k == "SV") svs = true; else if (k == "gamma") l >> m.gamma; else if (k == "rho") l >> m.rho;
    }
    return m;
  }
};
static Svr AnySvr(Case& c, int features) {
  Svr m; m.kernel = int(c.pick({2, 2, 6, 1})); m.gamma = c.real(0.001, 1); m.coef0 = c.real(-1, 1); m.degree = int(c.range(1, 3)); m.rho = c.real(-6, 6);
  if (m.kernel == 2) {} size_t n = size_t(c.chance(3) ? c.range(31, 600) : c.size(1, 30)); bool sparse = c.chance(40); Rng r(c.seed());
  for (size_t i = 0; i < n; ++i) { m.coef.push_back(r.sym() * (1 + 2 * r.unit())); m.sv.emplace_back(); for (int k = 1; k <= features; ++k) if (!sparse || r.unit() < 0.6) m.sv.back()[k] = r.unit() * 1.2 - 0.1; }
  return m;
}
static Vec AnyObservation(Case& c, size_t n) {
  Vec v(n); size_t k = c.pick({6, 2, 1, 1}); Rng r(c.seed()); double base = r.unit();
  for (auto& x : v) x = k == 0 ? r.unit() : k == 1 ? base + 0.02 * r.sym() : k == 2 ? r.sym() * 3 : double(r.next() % 2);
  return v;
}

static void FileModel(Case& c) {
  static const Svr shipped = Svr::Read(ReadFile(SvrModel()));
  bool own = c.chance(50); Svr m; std::string path; int features = 32;
  if (own) {
    features = int(c.chance(3) ? c.range(49, 400) : c.size(1, 48)); m = AnySvr(c, features); path = pbt::ScratchDir() + "/model.txt"; bool nu = c.chance(70); WriteFile(path, m.Text(nu));
    c.note("model", std::to_string(m.sv.size()) + " vectors of " + std::to_string(features) + ", kernel " + std::to_string(m.kernel));
  } else { m = shipped; path = SvrModel(); c.note("model", "the one shipped"); }
  V::SupportVectorRegressionModel model; auto st = model.Init(V::FilePath(path));
  c.check(st.ok(), "a valid model file is refused: %s", st.ToString().c_str());
  V::SvrSimilarityToQualityMapper map{V::FilePath(path)};
  c.check(map.Init().ok(), "the mapper refuses a valid model file");
  size_t n = size_t(c.range(1, 4)); bool clamped = false, inside = false;
  for (size_t i = 0; i < n; ++i) {
    // Features that an observation lacks count as 0, as do those a vector lacks.
    size_t len = i && c.chance(60) ? size_t(features) : c.chance(50) ? size_t(features) : size_t(c.range(1, features + 8));
    if (int(len) != features) c.label(int(len) < features ? "fewer features than the model" : "more features than the model");
    Vec o = AnyObservation(c, len);
    double want = m(o), got = model.Predict(o);
    c.near(got, want, 1e-7, 1e-7, "prediction against the model file's definition");
    // The other statistics play no part in the support-vector score.
    Vec other = AnyObservation(c, len), third = AnyObservation(c, len);
    double q = map.PredictQuality(o, other, third, other), lim = std::min(5.0, std::max(1.0, want));
    c.near(q, lim, 1e-7, 1e-7, "score against the limited prediction");
    c.check(q >= 1 && q <= 5, "score %.12g", q);
    (want < 1 || want > 5 ? clamped : inside) = true;
  }
  c.label(own ? "generated model" : "shipped model"); if (clamped) c.label("limited"); if (inside) c.label("not limited"); c.nontrivial();
}

static void Missing(Case& c) {
  std::string p = pbt::ScratchDir() + "/bad"; std::filesystem::remove_all(p);
  std::string what;
  switch (c.pick({2, 1, 2, 3, 1})) {
    case 0: what = "no file"; break;
    case 1: what = "a directory"; std::filesystem::create_directory(p); break;
    case 2: what = "an empty file"; WriteFile(p, ""); break;
    case 3: { what = "noise"; size_t n = size_t(c.range(1, 300)); Rng r(c.seed()); std::string s = "x"; for (size_t i = 0; i < n; ++i) s += char(33 + r.next() % 90); WriteFile(p, s); break; }
    default: what = "an audio file"; WriteFile(p, WavBytes(std::vector<int16_t>(200, 5), 1, 8000));
  }
  c.note("model file", what);
  V::SupportVectorRegressionModel m; auto st = m.Init(V::FilePath(p));
  c.check(!st.ok() && !st.message().empty(), "%s is accepted as a model", what.c_str());
  V::SvrSimilarityToQualityMapper map{V::FilePath(p)};
  c.check(!map.Init().ok(), "%s is accepted as a model by the mapper", what.c_str());
  c.nontrivial(what != "no file");
}

static void Table(Case& c) {
  size_t rows = size_t(c.chance(1) ? c.range(41, 3000) : c.size(1, 40)), cols = size_t(c.chance(1) ? c.range(41, 500) : c.range(1, 40)); bool ragged = c.chance(15), crlf = c.chance(20), open = c.chance(30);
  char d = c.of<char>({',', ',', ';', '\t', ' ', '|'}); std::string text; std::vector<Vec> want;
  for (size_t r = 0; r < rows; ++r) {
    size_t n = ragged ? size_t(c.range(1, 6)) : cols; want.emplace_back(); Rng q(c.seed());
    for (size_t k = 0; k < n; ++k) {
      double v; char b[64];
      switch (q.next() % 5) { case 0: v = q.unit(); break; case 1: v = q.sym() * 1e6; break; case 2: v = double(q.range(-20, 20)); break; case 3: v = q.sym() * std::pow(10, double(q.range(-200, 200))); break; default: v = 1 + 4 * q.unit(); }
      const char* f = q.next() % 4 == 0 && d != ' ' ? " %.17g" : q.next() % 4 == 0 ? "%.17e" : "%.17g";
      snprintf(b, sizeof b, f, v); want.back().push_back(v); text += (k ? std::string(1, d) : "") + b;
    }
    if (r + 1 < rows || !open) text += crlf ? "\r\n" : "\n";
  }
  std::string p = pbt::ScratchDir() + "/table"; WriteFile(p, text);
  c.note("table", std::to_string(rows) + " rows, delimiter '" + d + "'");
  auto got = V::TrainingDataFileReader::Read(V::FilePath(p), d);
  c.check(got.size() == want.size(), "%zu rows are read of %zu", got.size(), want.size());
  for (size_t r = 0; r < want.size(); ++r) {
    c.check(got[r].size() == want[r].size(), "%zu values are read of %zu in row %zu", got[r].size(), want[r].size(), r);
    for (size_t k = 0; k < want[r].size(); ++k) c.check(got[r][k] == want[r][k], "row %zu column %zu: %.17g is read as %.17g", r, k, want[r][k], got[r][k]);
  }
  c.nontrivial(rows > 1);
}

// Training learns: a smooth target is met far better than by a constant; the
// order of the examples and a constant added to the targets change nothing else.
static void Training(Case& c) {
  size_t n = size_t(c.range(60, 150)), f = size_t(c.range(1, 6)); Rng r(c.seed());
  Vec w(f); for (auto& x : w) x = r.sym();
  std::vector<Vec> obs; Vec tgt;
  for (size_t i = 0; i < n; ++i) { Vec o(f); double t = 0; for (size_t k = 0; k < f; ++k) { o[k] = r.unit(); t += w[k] * o[k]; } obs.push_back(o); tgt.push_back(t); }
  double mean = 0, lo = tgt[0], hi = tgt[0]; for (double t : tgt) { mean += t / n; lo = std::min(lo, t); hi = std::max(hi, t); }
  c.require(hi - lo > 1e-6);
  for (auto& t : tgt) t = 1 + 4 * (t - lo) / (hi - lo);
  mean = 1 + 4 * (mean - lo) / (hi - lo);
  c.note("examples", n); c.note("features", f);
  V::SupportVectorRegressionModel m; m.Init(obs, tgt);
  double err = 0, var = 0; Vec pred;
  for (size_t i = 0; i < n; ++i) { pred.push_back(m.Predict(obs[i])); err += std::fabs(pred[i] - tgt[i]) / n; var += std::fabs(tgt[i] - mean) / n; }
  c.check(std::isfinite(err) && err < 0.8 * var, "trained on %zu examples it misses its own targets by %.4f; a constant by %.4f", n, err, var);
  // Another order of the examples.
  std::vector<size_t> at(n); for (size_t i = 0; i < n; ++i) at[i] = i; for (size_t i = n; i-- > 1;) std::swap(at[i], at[r.next() % (i + 1)]);
  std::vector<Vec> o2; Vec t2; for (size_t i : at) { o2.push_back(obs[i]); t2.push_back(tgt[i]); }
  V::SupportVectorRegressionModel m2; m2.Init(o2, t2);
  // And the same examples with raised targets.
  double up = c.real(-3, 3); Vec t3 = tgt; for (auto& t : t3) t += up;
  V::SupportVectorRegressionModel m3; m3.Init(obs, t3);
  Vec probe(f); for (auto& x : probe) x = r.unit();
  double tol = 0.02;
  c.near(m2.Predict(probe), m.Predict(probe), tol, 0, "prediction after training in another order");
  c.near(m3.Predict(probe) - up, m.Predict(probe), tol, 0, "prediction after training on raised targets");
  // What the caller passed in is still there, and the model does not depend on it.
  for (size_t i = 0; i < n; ++i) c.check(o2[i] == obs[at[i]], "training changed an example");
  double before = m.Predict(probe); for (auto& o : obs) for (auto& x : o) x = -7; tgt.assign(n, 9);
  c.check(m.Predict(probe) == before, "the model depends on the caller's memory");
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C22";
  p.rule = "file model: the shipped and generated model files (4 kernels, 1 to 30 vectors of 1 to 48 features) against the definition of the prediction, for observations of as many features as the model, fewer or more; missing: unusable model files, non-trivial when something is there; table: training tables with 5 delimiters, non-trivial with two or more rows; training: 60 to 150 examples of a linear target";
  p.assumptions = {"training is judged by what it achieves on learnable targets, to 0.02 between equivalent trainings"};
  p.facets = {{"file model", FileModel, 3000, 150000, 2}, {"missing", Missing, 400, 20000, 1}, {"table", Table, 4000, 200000, 1}, {"training", Training, 1200, 60000, 2}};
  return pbt::Main(p, argc, argv);
}
