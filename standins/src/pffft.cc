#include "pffft.h"

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <utility>
#include <vector>

namespace {
struct Plan {
  int n;
  std::vector<std::complex<double>> w;  // exp(-2 pi i k / n), k < n/2
  std::vector<uint32_t> rev;
  std::vector<uint32_t> perm;  // ordered index -> internal index
};
std::mutex g_mu;
std::map<int, std::shared_ptr<const Plan>> g_plans;

void Die(const char* what) {
  fprintf(stderr, "pffft stand-in: contract violated by the caller: %s\n", what);
  abort();
}

std::shared_ptr<const Plan> GetPlan(int n) {
  std::lock_guard<std::mutex> l(g_mu);
  auto& p = g_plans[n];
  if (p) return p;
  auto q = std::make_shared<Plan>();
  q->n = n;
  q->w.resize(n / 2);
  for (int k = 0; k < n / 2; ++k) {
    double a = -2.0 * M_PI * k / n;
    q->w[k] = {std::cos(a), std::sin(a)};
  }
  int bits = 0;
  while ((1 << bits) < n) ++bits;
  q->rev.resize(n);
  for (int i = 0; i < n; ++i) {
    uint32_t r = 0;
    for (int b = 0; b < bits; ++b) if (i >> b & 1) r |= 1u << (bits - 1 - b);
    q->rev[i] = r;
  }
  // Internal layout: blocks of eight values, four "real" then four "imaginary"
  // of bins a quarter of the spectrum apart (the shape PFFFT's SSE layout has).
  q->perm.resize(n);
  int quarter = n / 8;  // complex bins per lane
  for (int bin = 0; bin < n / 2; ++bin) {
    int lane = bin / quarter, k = bin % quarter;
    q->perm[2 * bin] = 8 * k + lane;
    q->perm[2 * bin + 1] = 8 * k + 4 + lane;
  }
  p = q;
  // Bound the cache.
  if (g_plans.size() > 24) {
    auto keep = p;
    g_plans.clear();
    g_plans[n] = keep;
    return keep;
  }
  return p;
}

void Fft(const Plan& p, std::vector<std::complex<double>>& a, bool inverse) {
  const int n = p.n;
  for (int i = 0; i < n; ++i) if (uint32_t(i) < p.rev[i]) std::swap(a[i], a[p.rev[i]]);
  for (int len = 2; len <= n; len <<= 1) {
    int half = len / 2, step = n / len;
    for (int i = 0; i < n; i += len) {
      for (int k = 0; k < half; ++k) {
        std::complex<double> w = p.w[k * step];
        if (inverse) w = std::conj(w);
        double xr = a[i + k + half].real(), xi = a[i + k + half].imag();
        double vr = xr * w.real() - xi * w.imag();
        double vi = xr * w.imag() + xi * w.real();
        double ur = a[i + k].real(), ui = a[i + k].imag();
        a[i + k] = {ur + vr, ui + vi};
        a[i + k + half] = {ur - vr, ui - vi};
      }
    }
  }
}
void CheckAlign(const void* p, const char* what) {
  if (reinterpret_cast<uintptr_t>(p) % 16) Die(what);
}
}  // namespace

struct PFFFT_Setup {
  std::shared_ptr<const Plan> plan;
};

extern "C" {
PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t transform) {
  if (transform != PFFFT_REAL) Die("only PFFFT_REAL is provided");
  if (N < 32 || (N & (N - 1))) Die("N is not a power of two of at least 32");
  return new PFFFT_Setup{GetPlan(N)};
}
void pffft_destroy_setup(PFFFT_Setup* s) { delete s; }

void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out,
                             float* work, pffft_direction_t dir) {
  CheckAlign(in, "input alignment");
  CheckAlign(out, "output alignment");
  CheckAlign(work, "work alignment");
  const Plan& p = *s->plan;
  const int n = p.n;
  std::vector<std::complex<double>> a(n);
  if (dir == PFFFT_FORWARD) {
    for (int i = 0; i < n; ++i) a[i] = double(in[i]);
    Fft(p, a, false);
    out[0] = float(a[0].real());
    out[1] = float(a[n / 2].real());
    for (int k = 1; k < n / 2; ++k) {
      out[2 * k] = float(a[k].real());
      out[2 * k + 1] = float(a[k].imag());
    }
  } else {
    a[0] = double(in[0]);
    a[n / 2] = double(in[1]);
    for (int k = 1; k < n / 2; ++k) {
      a[k] = {double(in[2 * k]), double(in[2 * k + 1])};
      a[n - k] = std::conj(a[k]);
    }
    Fft(p, a, true);
    for (int i = 0; i < n; ++i) out[i] = float(a[i].real());
  }
}

void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out,
                    pffft_direction_t dir) {
  if (in == out) Die("pffft_zreorder in place");
  const Plan& p = *s->plan;
  for (int i = 0; i < p.n; ++i) {
    if (dir == PFFFT_FORWARD) out[i] = in[p.perm[i]];
    else out[p.perm[i]] = in[i];
  }
}

void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float* work,
                     pffft_direction_t dir) {
  const int n = s->plan->n;
  float* tmp = static_cast<float*>(pffft_aligned_malloc(n * sizeof(float)));
  if (dir == PFFFT_FORWARD) {
    pffft_transform_ordered(s, in, tmp, work, dir);
    pffft_zreorder(s, tmp, out, PFFFT_BACKWARD);
  } else {
    pffft_zreorder(s, in, tmp, PFFFT_FORWARD);
    pffft_transform_ordered(s, tmp, out, work, dir);
  }
  pffft_aligned_free(tmp);
}

// Fresh memory holds NaNs: what a caller has not written must not matter.
void* pffft_aligned_malloc(size_t nb) {
  void* p = nullptr;
  if (posix_memalign(&p, 64, nb ? nb : 64)) return nullptr;
  memset(p, 0xff, nb);
  return p;
}
void pffft_aligned_free(void* p) { free(p); }
int pffft_simd_size() { return 4; }
}
