#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iterator>
#include <stdexcept>

#include "tensorflow/lite/delegates/xnnpack/xnnpack_delegate.h"
#include "tensorflow/lite/interpreter.h"

TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*) {
  return new TfLiteDelegate{nullptr, 0};
}
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) { delete d; }

namespace tflite {
namespace {
struct Fb {
  const std::string* d;
  template <class T> T rd(size_t o) const {
    if (o + sizeof(T) > d->size()) throw std::runtime_error("flatbuffer out of range");
    T v; memcpy(&v, d->data() + o, sizeof v); return v;
  }
};
struct Tab {
  const Fb* b; size_t o; size_t vt; int n;
  Tab(const Fb* b, size_t o) : b(b), o(o) {
    vt = size_t(int64_t(o) - b->rd<int32_t>(o));
    n = (b->rd<uint16_t>(vt) - 4) / 2;
  }
  size_t f(int i) const {
    if (i >= n) return 0;
    uint16_t x = b->rd<uint16_t>(vt + 4 + 2 * i);
    return x ? o + x : 0;
  }
  template <class T> T s(int i, T dv = 0) const { size_t p = f(i); return p ? b->rd<T>(p) : dv; }
  size_t ind(int i) const { size_t p = f(i); return p ? p + b->rd<uint32_t>(p) : 0; }
  std::vector<Tab> tabs(int i) const {
    std::vector<Tab> r; size_t v = ind(i); if (!v) return r;
    uint32_t c = b->rd<uint32_t>(v);
    for (uint32_t k = 0; k < c; ++k) { size_t e = v + 4 + 4 * k; r.emplace_back(b, e + b->rd<uint32_t>(e)); }
    return r;
  }
  std::vector<int> ints(int i) const {
    std::vector<int> r; size_t v = ind(i); if (!v) return r;
    uint32_t c = b->rd<uint32_t>(v);
    for (uint32_t k = 0; k < c; ++k) r.push_back(b->rd<int32_t>(v + 4 + 4 * k));
    return r;
  }
  std::string str(int i) const {
    size_t v = ind(i); if (!v) return "";
    uint32_t c = b->rd<uint32_t>(v); return b->d->substr(v + 4, c);
  }
};
struct Ten {
  std::vector<int> shape;
  bool is_const = false;
  bool is_int = false;
  std::vector<float> v;  // ints (shapes, axes) are small: exact in float
  int num() const { int n = 1; for (int s : shape) n *= s; return n; }
};
struct Op {
  int code; std::vector<int> in, out; int i0 = 0;  // i0: axis / adj flags
};
}  // namespace

struct Interpreter::Impl {
  std::vector<Ten> t;
  std::vector<Op> ops;
  std::map<std::string, std::unique_ptr<SignatureRunner>> runners;
  std::vector<float> io;            // storage of the exposed tensors
  std::vector<TfLiteTensor> handles;  // one per tensor
  void Run();
};

std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromFile(const char* path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) return nullptr;
  auto m = std::make_unique<FlatBufferModel>();
  m->bytes.assign(std::istreambuf_iterator<char>(f), {});
  if (m->bytes.size() < 16 || m->bytes.substr(4, 4) != "TFL3") return nullptr;
  return m;
}

InterpreterBuilder::InterpreterBuilder(const FlatBufferModel& m, const ops::builtin::BuiltinOpResolver&) : model_(m) {}
TfLiteStatus InterpreterBuilder::SetNumThreads(int n) { return n >= -1 ? kTfLiteOk : kTfLiteError; }

TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* out) try {
  auto in = std::make_unique<Interpreter>();
  auto im = std::make_shared<Interpreter::Impl>();
  Fb fb{&model_.bytes};
  Tab m(&fb, fb.rd<uint32_t>(0));
  std::vector<int> codes;
  for (auto& c : m.tabs(1)) codes.push_back(std::max<int>(c.s<int8_t>(0), c.s<int32_t>(3)));
  auto bufs = m.tabs(4);
  auto sgs = m.tabs(2);
  if (sgs.size() != 1) return kTfLiteError;
  for (auto& t : sgs[0].tabs(0)) {
    Ten x;
    x.shape = t.ints(0);
    int ty = t.s<int8_t>(1);
    x.is_int = ty == 2;
    size_t b = bufs.at(t.s<uint32_t>(2)).ind(0);
    uint32_t len = b ? fb.rd<uint32_t>(b) : 0;
    if (len) {
      if (ty != 0 && ty != 2) return kTfLiteError;
      x.is_const = true;
      for (uint32_t k = 0; k + 4 <= len; k += 4)
        x.v.push_back(ty == 0 ? fb.rd<float>(b + 4 + k) : float(fb.rd<int32_t>(b + 4 + k)));
      if (int(x.v.size()) != x.num()) return kTfLiteError;
    }
    im->t.push_back(std::move(x));
  }
  for (auto& o : sgs[0].tabs(3)) {
    Op p;
    p.code = codes.at(o.s<uint32_t>(0));
    p.in = o.ints(1);
    p.out = o.ints(2);
    if (size_t e = o.ind(4)) {
      Tab opt(&fb, e);
      if (p.code == 2) { p.i0 = opt.s<int32_t>(0); if (opt.s<int8_t>(1)) return kTfLiteError; }
      if ((p.code == 0 || p.code == 18 || p.code == 41 || p.code == 9) && opt.s<int8_t>(0)) return kTfLiteError;
      if (p.code == 126 && (opt.s<int8_t>(0) || opt.s<int8_t>(1))) return kTfLiteError;
    }
    static const int known[] = {0, 2, 9, 18, 19, 22, 41, 49, 53, 57, 70, 71, 77, 94, 101, 126};
    if (!std::count(std::begin(known), std::end(known), p.code)) return kTfLiteError;
    im->ops.push_back(p);
  }
  for (auto& s : m.tabs(7)) {
    auto r = std::make_unique<SignatureRunner>();
    for (auto& x : s.tabs(0)) r->inputs[x.str(0)] = x.s<uint32_t>(1);
    for (auto& x : s.tabs(1)) r->outputs[x.str(0)] = x.s<uint32_t>(1);
    r->owner = in.get();
    im->runners[s.str(2)] = std::move(r);
  }
  im->io.assign(im->t.size(), std::nanf(""));
  im->handles.resize(im->t.size());
  for (size_t i = 0; i < im->t.size(); ++i) { im->handles[i].type = 1; im->handles[i].data.f = &im->io[i]; }
  in->impl = im;
  *out = std::move(in);
  return kTfLiteOk;
} catch (const std::exception&) {
  return kTfLiteError;
}

TfLiteStatus Interpreter::AllocateTensors() { return kTfLiteOk; }
TfLiteStatus Interpreter::ModifyGraphWithDelegate(TfLiteDelegate* d) { return d ? kTfLiteOk : kTfLiteError; }
SignatureRunner* Interpreter::GetSignatureRunner(const char* key) {
  auto it = impl->runners.find(key);
  return it == impl->runners.end() ? nullptr : it->second.get();
}
TfLiteTensor* SignatureRunner::input_tensor(const char* name) {
  auto it = inputs.find(name);
  return it == inputs.end() ? nullptr : &owner->impl->handles[it->second];
}
const TfLiteTensor* SignatureRunner::output_tensor(const char* name) const {
  auto it = outputs.find(name);
  return it == outputs.end() ? nullptr : &owner->impl->handles[it->second];
}
TfLiteStatus SignatureRunner::Invoke() {
  auto& im = *owner->impl;
  for (auto& p : inputs) { im.t[p.second].v.assign(1, im.io[p.second]); im.t[p.second].shape = {1}; }
  try { im.Run(); } catch (const std::exception&) { return kTfLiteError; }
  for (auto& p : outputs) im.io[p.second] = im.t[p.second].v.at(0);
  return kTfLiteOk;
}

namespace {
template <class F> void Bin(const Ten& a, const Ten& b, Ten& o, F f) {
  size_t r = std::max(a.shape.size(), b.shape.size());
  std::vector<int> sa(r, 1), sb(r, 1), so(r);
  std::copy(a.shape.begin(), a.shape.end(), sa.begin() + (r - a.shape.size()));
  std::copy(b.shape.begin(), b.shape.end(), sb.begin() + (r - b.shape.size()));
  for (size_t i = 0; i < r; ++i) {
    if (sa[i] != sb[i] && sa[i] != 1 && sb[i] != 1) throw std::runtime_error("broadcast");
    so[i] = std::max(sa[i], sb[i]);
  }
  o.shape = so;
  int n = o.num();
  o.v.resize(n);
  if (a.v.size() == size_t(n) && b.v.size() == size_t(n)) { for (int i = 0; i < n; ++i) o.v[i] = f(a.v[i], b.v[i]); return; }
  for (int i = 0; i < n; ++i) {
    int rem = i, ia = 0, ib = 0, ma = 1, mb = 1;
    for (int k = int(r) - 1; k >= 0; --k) {
      int c = rem % so[k]; rem /= so[k];
      ia += (sa[k] == 1 ? 0 : c) * ma; ma *= sa[k];
      ib += (sb[k] == 1 ? 0 : c) * mb; mb *= sb[k];
    }
    o.v[i] = f(a.v[ia], b.v[ib]);
  }
}
}  // namespace

void Interpreter::Impl::Run() {
  for (const Op& p : ops) {
    auto I = [&](int k) -> const Ten& { return t.at(p.in.at(k)); };
    Ten& o = t.at(p.out.at(0));
    switch (p.code) {
      case 0: Bin(I(0), I(1), o, [](float a, float b) { return a + b; }); break;
      case 18: Bin(I(0), I(1), o, [](float a, float b) { return a * b; }); break;
      case 41: Bin(I(0), I(1), o, [](float a, float b) { return a - b; }); break;
      case 57: Bin(I(0), I(1), o, [](float a, float b) { return std::min(a, b); }); break;
      case 71: Bin(I(0), I(1), o, [](float a, float b) { return a == b ? 1.f : 0.f; }); break;
      case 53: o.shape = I(0).shape; o.v = I(0).v; break;
      case 19: o.shape = I(0).shape; o.v = I(0).v; for (auto& x : o.v) x = x < 0 ? 0 : x; break;
      case 101: o.shape = I(0).shape; o.v = I(0).v; for (auto& x : o.v) x = std::fabs(x); break;
      case 77: { const Ten& a = I(0); std::vector<float> s(a.shape.begin(), a.shape.end()); o.shape = {int(s.size())}; o.v = s; break; }
      case 94: { const Ten& d = I(0); float val = I(1).v.at(0); o.shape.assign(d.v.begin(), d.v.end()); o.v.assign(o.num(), val); break; }
      case 70: {
        const Ten& a = I(0); int ax = int(I(1).v.at(0)); auto s = a.shape;
        if (ax < 0) ax += int(s.size()) + 1;
        s.insert(s.begin() + ax, 1); auto v = a.v; o.shape = s; o.v = v; break;
      }
      case 22: {
        const Ten& a = I(0); std::vector<int> s(I(1).v.begin(), I(1).v.end());
        int known = 1, neg = -1;
        for (size_t i = 0; i < s.size(); ++i) { if (s[i] < 0) neg = int(i); else known *= s[i]; }
        if (neg >= 0) s[neg] = int(a.v.size()) / known;
        auto v = a.v; o.shape = s; o.v = v;
        if (o.num() != int(v.size())) throw std::runtime_error("reshape");
        break;
      }
      case 2: {
        int ax = p.i0; if (ax < 0) ax += int(I(0).shape.size());
        int outer = 1, inner = 1; const auto& s0 = I(0).shape;
        for (int i = 0; i < ax; ++i) outer *= s0[i];
        for (size_t i = ax + 1; i < s0.size(); ++i) inner *= s0[i];
        int tot = 0; for (int k : p.in) tot += t[k].shape[ax];
        std::vector<float> r; r.reserve(outer * tot * inner);
        for (int u = 0; u < outer; ++u) for (int k : p.in) { int c = t[k].shape[ax] * inner; r.insert(r.end(), t[k].v.begin() + u * c, t[k].v.begin() + (u + 1) * c); }
        auto s = s0; s[ax] = tot; o.shape = s; o.v = r; break;
      }
      case 49: {
        int ax = int(I(0).v.at(0)); const Ten& a = I(1); if (ax < 0) ax += int(a.shape.size());
        int n = int(p.out.size()), part = a.shape[ax] / n, outer = 1, inner = 1;
        for (int i = 0; i < ax; ++i) outer *= a.shape[i];
        for (size_t i = ax + 1; i < a.shape.size(); ++i) inner *= a.shape[i];
        for (int k = 0; k < n; ++k) {
          Ten& q = t[p.out[k]]; q.shape = a.shape; q.shape[ax] = part; q.v.clear();
          for (int u = 0; u < outer; ++u) q.v.insert(q.v.end(), a.v.begin() + (u * n + k) * part * inner, a.v.begin() + (u * n + k + 1) * part * inner);
        }
        break;
      }
      case 9: {
        const Ten &a = I(0), &w = I(1); int od = w.shape[0], idim = w.shape[1], bt = int(a.v.size()) / idim;
        const Ten* bias = p.in.size() > 2 && p.in[2] >= 0 ? &t[p.in[2]] : nullptr;
        std::vector<float> r(bt * od);
        for (int b = 0; b < bt; ++b) for (int j = 0; j < od; ++j) {
          float s = bias ? bias->v[j] : 0;
          for (int k = 0; k < idim; ++k) s += a.v[b * idim + k] * w.v[j * idim + k];
          r[b * od + j] = s;
        }
        o.shape = {bt, od}; o.v = r; break;
      }
      case 126: {
        const Ten &a = I(0), &b = I(1); size_t r = a.shape.size();
        if (r < 2 || b.shape.size() != r) throw std::runtime_error("bmm");
        int M = a.shape[r - 2], K = a.shape[r - 1], N = b.shape[r - 1], B = 1;
        for (size_t i = 0; i + 2 < r; ++i) { if (a.shape[i] != b.shape[i]) throw std::runtime_error("bmm batch"); B *= a.shape[i]; }
        if (b.shape[r - 2] != K) throw std::runtime_error("bmm inner");
        std::vector<float> v(B * M * N);
        for (int q = 0; q < B; ++q) for (int i = 0; i < M; ++i) for (int j = 0; j < N; ++j) {
          float s = 0; for (int k = 0; k < K; ++k) s += a.v[(q * M + i) * K + k] * b.v[(q * K + k) * N + j];
          v[(q * M + i) * N + j] = s;
        }
        auto s = a.shape; s[r - 1] = N; o.shape = s; o.v = v; break;
      }
      default: throw std::runtime_error("op");
    }
  }
}
}  // namespace tflite
