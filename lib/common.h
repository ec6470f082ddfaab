// Shared by the property files: signal generators and small reference helpers.
#ifndef VERIF_LIB_COMMON_H_
#define VERIF_LIB_COMMON_H_
#include <cmath>
#include <cstdint>
#include <fstream>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "absl/status/statusor.h"
#include "amatrix.h"
#include "audio_signal.h"
#include "engine/pbt.h"

namespace vt {
using pbt::Case;
using pbt::Rng;
typedef std::vector<double> Vec;

inline const std::string& RepoDir() {
  static const std::string d = [] { const char* e = getenv("VERIF_REPO"); return std::string(e && *e ? e : "/repo"); }();
  return d;
}
inline std::string SvrModel() { return RepoDir() + "/model/libsvm_nu_svr_model.txt"; }
inline std::string LatticeModel() {
  return RepoDir() + "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite";
}

inline Visqol::AMatrix<double> Col(const Vec& v) { return Visqol::AMatrix<double>(v); }
inline Visqol::AudioSignal Sig(const Vec& v, size_t sr) {
  Visqol::AudioSignal s;
  s.data_matrix = Visqol::AMatrix<double>(v);
  s.sample_rate = sr;
  return s;
}
inline double Rms(const Vec& v) { double s = 0; for (double x : v) s += x * x; return v.empty() ? 0 : std::sqrt(s / v.size()); }
inline double Peak(const Vec& v) { double p = 0; for (double x : v) p = std::max(p, std::fabs(x)); return p; }

// ------------------------------------------------------------- signals
struct GenSignal { Vec v; std::string kind; };

enum Kind { kBursts, kSpeechLike, kNoise, kTones, kChirp, kImpulses, kSquare, kConstant, kSilence, kMix, kNumKinds };
inline const char* KindName(int k) {
  static const char* n[] = {"bursts", "speechlike", "noise", "tones", "chirp", "impulses", "square", "constant", "silence", "mix"};
  return n[k];
}
// Amplitude-modulated noise: aperiodic, with a distinctive envelope.
inline Vec Bursts(Rng& r, size_t n, size_t sr) {
  Vec v(n);
  size_t i = 0; double lp = 0;
  while (i < n) {
    size_t len = 1 + size_t(r.unit() * 0.12 * sr);
    double a = r.unit() < 0.3 ? 0.01 : std::pow(10, -1.5 * r.unit());
    double pole = r.unit() * 0.9;
    for (size_t k = 0; k < len && i < n; ++k, ++i) {
      lp = pole * lp + (1 - pole) * r.gauss();
      v[i] = a * std::sin(M_PI * (k + 0.5) / len) * lp;
    }
  }
  return v;
}
inline Vec SpeechLike(Rng& r, size_t n, size_t sr) {
  Vec v(n);
  size_t i = 0;
  while (i < n) {
    size_t len = size_t((0.08 + 0.3 * r.unit()) * sr) + 1;
    bool voiced = r.unit() < 0.7, pause = r.unit() < 0.15;
    double f0 = 90 + 160 * r.unit(), tilt = 0.5 + r.unit(), a = 0.2 + r.unit();
    double fm1 = 300 + 500 * r.unit(), fm2 = 900 + 1500 * r.unit();
    double y1 = 0, y2 = 0;
    for (size_t k = 0; k < len && i < n; ++k, ++i) {
      double env = std::sin(M_PI * (k + 0.5) / len);
      double x = 0;
      if (!pause) {
        if (voiced) {
          for (int h = 1; h * f0 < 0.45 * sr && h < 25; ++h) {
            double f = h * f0, g = std::exp(-std::pow((f - fm1) / 250, 2)) + 0.5 * std::exp(-std::pow((f - fm2) / 400, 2)) + 0.05 / std::pow(h, tilt);
            x += g * std::sin(2 * M_PI * f * k / sr + h * h);
          }
        } else {
          double e = r.gauss();
          x = 0.3 * (e - y1); y1 = e;
        }
      }
      v[i] = a * env * x + 1e-4 * r.gauss();
      (void)y2;
    }
  }
  return v;
}
inline Vec Synth(int kind, Rng& r, size_t n, size_t sr) {
  Vec v(n);
  switch (kind) {
    case kBursts: v = Bursts(r, n, sr); break;
    case kSpeechLike: v = SpeechLike(r, n, sr); break;
    case kNoise: for (auto& x : v) x = r.gauss(); break;
    case kTones: {
      int m = 1 + int(r.unit() * 5);
      for (int k = 0; k < m; ++k) { double f = r.unit() * 0.48 * sr, a = r.unit(), p = r.unit() * 6.28; for (size_t i = 0; i < n; ++i) v[i] += a * std::sin(2 * M_PI * f * i / sr + p); }
      break;
    }
    case kChirp: { double f0 = 20 + r.unit() * 0.2 * sr, f1 = r.unit() * 0.49 * sr; for (size_t i = 0; i < n; ++i) { double t = double(i) / n; v[i] = std::sin(2 * M_PI * (f0 + 0.5 * (f1 - f0) * t) * i / sr); } break; }
    case kImpulses: { for (size_t i = 0; i < n;) { v[i] = r.sym(); i += 1 + size_t(r.unit() * sr * 0.1); } break; }
    case kSquare: { size_t per = 2 + size_t(r.unit() * sr * 0.02); for (size_t i = 0; i < n; ++i) v[i] = (i / per) % 2 ? -1 : 1; break; }
    case kConstant: { double c = r.sym(); for (auto& x : v) x = c; break; }
    case kSilence: break;
    case kMix: { v = Bursts(r, n, sr); Vec w = Synth(kTones, r, n, sr); for (size_t i = 0; i < n; ++i) v[i] += 0.2 * w[i]; break; }
  }
  return v;
}
inline void ScaleToPeak(Vec& v, double peak) { double p = Peak(v); if (p > 0) for (auto& x : v) x *= peak / p; }
inline void Quantise16(Vec& v) {
  for (auto& x : v) { double q = std::floor(x * 32768 + 0.5); x = std::min(32767.0, std::max(-32768.0, q)) / 32768; }
}

// A signal with natural variety, described by a handful of choices.
inline GenSignal AnySignal(Case& c, const char* name, size_t n, size_t sr, bool allow_degenerate = true) {
  size_t k = allow_degenerate ? c.pick({30, 25, 12, 8, 5, 5, 4, 3, 3, 5}) : c.pick({35, 30, 15, 0, 5, 0, 0, 0, 0, 15});
  double lo = allow_degenerate ? -5 : -1.3;
  double peak = std::pow(10, -c.unit() * -lo);
  Rng r(c.seed());
  GenSignal g;
  g.kind = KindName(int(k));
  g.v = Synth(int(k), r, n, sr);
  ScaleToPeak(g.v, peak);
  std::ostringstream s;
  s << g.kind << " n=" << n << " peak=" << peak;
  if (!g.v.empty()) s << " v[n/2]=" << g.v[n / 2];
  c.note_str(name, s.str());
  return g;
}

// ------------------------------------------------------------- degradations
inline Vec AddNoise(const Vec& x, double snr_db, Rng& r) {
  Vec y = x; double a = Rms(x) * std::pow(10, -snr_db / 20);
  if (a == 0) a = 1e-3;
  for (auto& s : y) s += a * r.gauss();
  return y;
}
// One drawn degradation applied to x. `what` gets its name.
inline Vec Degrade(Case& c, const Vec& x, size_t sr, std::string* what) {
  Vec y = x;
  size_t k = c.pick({6, 14, 8, 8, 8, 8, 8, 6, 6, 6, 4, 4, 4});
  Rng r(c.seed());
  size_t n = x.size();
  switch (k) {
    case 0: *what = "identical"; break;
    case 1: { double snr = c.real(-20, 60); y = AddNoise(x, snr, r); *what = "noise snr=" + std::to_string(snr); break; }
    case 2: { double t = c.real(0.01, 1) * Peak(x); for (auto& s : y) s = std::max(-t, std::min(t, s)); *what = "clip"; break; }
    case 3: { double p = c.real(0.1, 0.99), z = 0; for (auto& s : y) { z = p * z + (1 - p) * s; s = z; } *what = "lowpass"; break; }
    case 4: { int m = int(c.range(1, 6)); for (int i = 0; i < m && n; ++i) { size_t a = r.next() % n, l = std::min<size_t>(n - a, size_t(r.unit() * 0.3 * sr) + 1); for (size_t j = a; j < a + l; ++j) y[j] = 0; } *what = "dropouts"; break; }
    case 5: { size_t d = n ? size_t(c.real(0, 0.6) * n) : 0; y.insert(y.begin(), d, 0.0); *what = "delayed " + std::to_string(d); break; }
    case 6: { size_t d = n ? size_t(c.real(0, 0.6) * n) : 0; y.erase(y.begin(), y.begin() + d); *what = "start cut " + std::to_string(d); break; }
    case 7: { size_t d = n ? size_t(c.real(0, 0.8) * n) : 0; y.resize(n - d); *what = "end cut " + std::to_string(d); break; }
    case 8: { y = Synth(int(r.next() % kNumKinds), r, std::max<size_t>(1, size_t((0.3 + 1.2 * r.unit()) * n)), sr); ScaleToPeak(y, std::pow(10, -3 * r.unit())); *what = "unrelated"; break; }
    case 9: { double g = std::pow(10, c.real(-4, 2)); for (auto& s : y) s *= g; *what = "gain"; break; }
    case 10: { double q = std::pow(2, -c.range(1, 14)); for (auto& s : y) s = std::floor(s / q + 0.5) * q; *what = "requantised"; break; }
    case 11: { for (auto& s : y) s = 0; *what = "silence"; break; }
    case 12: { for (auto& s : y) s = -s; *what = "inverted"; break; }
  }
  return y;
}

// ------------------------------------------------------------- files
inline void WriteFile(const std::string& path, const std::string& bytes) {
  std::ofstream o(path, std::ios::binary); o.write(bytes.data(), bytes.size());
}
inline std::string ReadFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str();
}
inline void Put16(std::string& s, uint32_t v) { s += char(v & 255); s += char(v >> 8 & 255); }
inline void Put32(std::string& s, uint32_t v) { Put16(s, v & 65535); Put16(s, v >> 16); }
inline std::string WavBytes(const std::vector<int16_t>& interleaved, int channels, uint32_t sr) {
  std::string d;
  for (int16_t x : interleaved) Put16(d, uint16_t(x));
  std::string s = "RIFF";
  Put32(s, 36 + d.size()); s += "WAVEfmt "; Put32(s, 16); Put16(s, 1); Put16(s, channels); Put32(s, sr);
  Put32(s, sr * channels * 2); Put16(s, channels * 2); Put16(s, 16); s += "data"; Put32(s, d.size());
  return s + d;
}
inline std::vector<int16_t> ToPcm(const Vec& v) {
  std::vector<int16_t> o;
  for (double x : v) o.push_back(int16_t(std::min(32767.0, std::max(-32768.0, std::floor(x * 32768 + 0.5)))));
  return o;
}
}  // namespace vt
#endif
