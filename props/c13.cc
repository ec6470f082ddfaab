// C13: malformed audio data is refused or decoded safely.
#include <cstdlib>
#include <new>

#include "lib/pipeline.h"
#include "lib/wav.h"
#include "misc_audio.h"
#include "wav_reader.h"
using namespace vt;
namespace V = Visqol;

// The largest single request for memory since the last reset.
static size_t g_largest;
void* operator new(size_t n) { if (n > g_largest) g_largest = n; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

static V::AudioSignal LoadChecked(Case& c, const std::string& bytes) {
  std::stringstream ss(bytes);
  g_largest = 0;
  V::AudioSignal s = V::MiscAudio::LoadAsMono(&ss);
  size_t largest = g_largest;
  // 65535 empty channels of 24 bytes are the constant part.
  c.check(largest <= 16 * bytes.size() + (4u << 20), "a stream of %zu bytes makes the loader ask for %zu bytes at once", bytes.size(), largest);
  c.check(s.data_matrix.NumCols() <= 1, "%zu channels after mixing down", s.data_matrix.NumCols());
  c.check(s.data_matrix.NumRows() <= bytes.size() / 2, "%zu samples from %zu bytes", s.data_matrix.NumRows(), bytes.size());
  for (size_t i = 0; i < s.data_matrix.NumElements(); ++i) {
    double x = s.data_matrix(i);
    if (!(std::isfinite(x) && x >= -1 && x <= 1)) c.fail("sample %zu is %g", i, x);
  }
  return s;
}
static std::string Mutate(Case& c, std::string b, size_t header, std::string* what) {
  int m = int(c.range(1, 5));
  for (int i = 0; i < m && !b.empty(); ++i) {
    size_t at = c.chance(75) ? c.draw(std::min(header + 8, b.size()) - 1) : c.draw(b.size() - 1);
    switch (c.pick({4, 4, 5, 3, 2, 2, 2})) {
      case 0: b[at] = char(c.draw(255)); *what += "byte@" + std::to_string(at); break;
      case 1: b[at] = char(b[at] ^ (1 << c.draw(7))); *what += "bit@" + std::to_string(at); break;
      case 2: {  // a whole field
        static const uint32_t v[] = {0, 1, 2, 3, 16, 17, 18, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 0xfffe};
        uint32_t x = c.chance(15) ? 0u - uint32_t(c.range(1, 80)) : v[c.draw(15)]; size_t w = c.chance(50) ? 2 : 4; at &= ~size_t(1);
        for (size_t k = 0; k < w && at + k < b.size(); ++k) b[at + k] = char(x >> 8 * k & 255);
        *what += "field@" + std::to_string(at) + "=" + std::to_string(x); break;
      }
      case 3: b.resize(c.draw(b.size())); *what += "cut to " + std::to_string(b.size()); break;
      case 4: { size_t n = 1 + c.draw(20); b.insert(at, std::string(n, char(c.draw(255)))); *what += "insert@" + std::to_string(at); break; }
      case 5: { size_t n = std::min(b.size() - at, size_t(1 + c.draw(20))); b.erase(at, n); *what += "erase@" + std::to_string(at); break; }
      case 6: { size_t n = std::min(b.size() - at, size_t(1 + c.draw(60))); b.insert(c.draw(b.size() - 1), b.substr(at, n)); *what += "splice@" + std::to_string(at); break; }
    }
    *what += " ";
  }
  return b;
}

static void Mutated(Case& c) {
  Wav w = AnyWav(c, 400);
  std::string what, b = Mutate(c, w.bytes, w.payload_at, &what);
  c.note("changes", what); c.note("bytes", b.size());
  auto s = LoadChecked(c, b);
  c.label(s.data_matrix.NumElements() ? "decoded" : "refused");
  // Reading through the reader directly.
  std::stringstream ss(b);
  V::WavReader r(&ss);
  if (r.IsHeaderValid()) {
    size_t n = size_t(c.range(1, 700)), sum = 0; std::vector<int16_t> buf(n);
    for (int i = 0; i < 2000; ++i) {
      std::fill(buf.begin(), buf.end(), int16_t(0));
      size_t g = r.ReadSamples(n, buf.data());
      c.check(g <= n, "a read of %zu samples returned %zu", n, g);
      sum += g;
      if (!g) break;
      c.check(sum <= b.size() / 2, "more samples were read (%zu) than the stream of %zu bytes holds", sum, b.size());
    }
    c.check(sum <= r.GetNumTotalSamples(), "%zu samples were read of %zu announced", sum, r.GetNumTotalSamples());
  }
  c.nontrivial();
}
static void Arbitrary(Case& c) {
  // Pieces of headers in any order, and noise.
  std::string b; int parts = int(c.range(0, 14));
  Rng r(c.seed());
  if (c.chance(60)) { b = "RIFF"; Put32(b, uint32_t(r.next())); b += "WAVE"; }
  if (c.chance(50)) { b += "fmt "; Put32(b, 16); Put16(b, c.of<int>({1, 1, 1, 0xfffe})); Put16(b, uint32_t(c.size(0, 65535))); Put32(b, uint32_t(r.next())); Put32(b, 0); Put16(b, uint32_t(c.size(0, 64))); Put16(b, 16); }
  for (int i = 0; i < parts; ++i) switch (c.pick({3, 2, 3, 2, 2, 2})) {
    case 0: { b += "fmt "; Put32(b, c.of<uint32_t>({16, 18, 40, 15, 0xffffffff})); Put16(b, c.of<int>({1, 0xfffe, 3, 0})); Put16(b, uint32_t(c.draw(65535))); Put32(b, uint32_t(r.next())); Put32(b, 0); Put16(b, 2); Put16(b, c.of<int>({16, 8, 24, 17, 0})); break; }
    case 1: b += c.of<std::string>({"RIFF", "WAVE", "fact", "LIST", "data", "fmt "}); break;
    case 2: { b += "data"; Put32(b, c.chance(60) ? uint32_t(c.size(0, 400)) : uint32_t(r.next())); break; }
    case 3: Put32(b, uint32_t(c.size(0, 1000))); break;
    case 4: Put16(b, uint32_t(c.draw(65535))); break;
    case 5: { size_t n = c.size(0, 400); for (size_t k = 0; k < n; ++k) b += char(r.next()); break; }
  }
  c.note("bytes", b.size());
  auto s = LoadChecked(c, b);
  c.label(s.data_matrix.NumElements() ? "decoded" : "refused");
  c.nontrivial(b.size() >= 36);
}
static void Markers(Case& c) {
  Wav w = AnyWav(c, 200, true);
  std::string b = w.bytes, what;
  auto Put = [&](size_t at, int width, uint32_t v) { for (int i = 0; i < width; ++i) b[at + i] = char(v >> 8 * i & 255); };
  switch (c.pick({3, 3, 3, 3, 3, 3, 2, 3, 2, 2})) {
    case 0: what = "RIFF"; b[c.draw(3)] ^= char(1 + c.draw(254)); break;
    case 1: what = "WAVE"; b[8 + c.draw(3)] ^= char(1 + c.draw(254)); break;
    case 2: what = "fmt"; b[w.fmt_at + c.draw(3)] ^= char(1 + c.draw(254)); break;
    case 3: what = "data"; b[w.data_at + c.draw(3)] ^= char(1 + c.draw(254)); break;
    case 4: { what = "encoding"; int t; do t = int(c.chance(60) ? c.of<int>({0, 2, 3, 6, 7, 0x11, 0x31, 0x55, 0x101, 0xff, 0xffff}) : c.draw(65535)); while (t == 1 || t == 0xfffe); Put(w.extensible && c.chance(50) ? w.guid_at : w.fmt_at + 8, 2, uint32_t(t)); if (w.extensible) c.label("extensible encoding"); break; }
    case 5: { what = "sample size"; int t; do t = int(c.chance(70) ? c.of<int>({0, 8, 12, 24, 32, 64, 1, 15, 17, 18, 20, 23}) : c.draw(65535)); while (t == 16); Put(w.fmt_at + 22, 2, uint32_t(t)); break; }
    case 6: what = "no channels"; Put(w.fmt_at + 10, 2, 0); break;
    case 7: what = "cut short"; b.resize(c.draw(w.payload_at)); break;
    case 8: what = "no data"; Put(w.data_at + 4, 4, 0); break;
    case 9: what = "format size"; Put(w.fmt_at + 4, 4, uint32_t(c.draw(15))); break;
  }
  c.note("damage", what); c.label(what);
  auto s = LoadChecked(c, b);
  c.check(s.data_matrix.NumElements() == 0, "%s damaged, yet %zu samples were decoded", what.c_str(), s.data_matrix.NumElements());
  std::stringstream ss(b);
  V::WavReader r(&ss);
  if (what != "cut short" || b.size() < w.payload_at) c.check(!r.IsHeaderValid(), "%s damaged, yet the header counts as valid", what.c_str());
  // The undamaged stream is accepted.
  c.check(LoadChecked(c, w.bytes).data_matrix.NumRows() == w.pcm.size() / w.channels, "the undamaged stream is not decoded");
  c.nontrivial();
}
static void Compared(Case& c) {
  static Vec good;
  if (good.empty()) { Rng q(3); good = SpeechLike(q, 9000, 8000); ScaleToPeak(good, 0.6); }
  std::string dir = pbt::ScratchDir(), what;
  std::string bytes = WavBytes(ToPcm(good), 1, 8000), b = Mutate(c, bytes, 44, &what);
  c.note("changes", what);
  bool swap = c.chance(50);
  WriteFile(dir + "/good.wav", bytes); WriteFile(dir + "/bad.wav", b);
  Mode m; m.speech = true; m.unscaled = true; m.no_realign = true;
  auto r = CachedManager(m).Run(V::FilePath(dir + (swap ? "/bad.wav" : "/good.wav")), V::FilePath(dir + (swap ? "/good.wav" : "/bad.wav")));
  std::stringstream ss(b);
  if (V::MiscAudio::LoadAsMono(&ss).data_matrix.NumElements() == 0) { c.check(!r.ok(), "a file that cannot be decoded was scored"); c.label("undecodable"); }
  c.label(r.ok() ? "scored" : "refused");
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C13";
  p.rule = "mutated: valid streams with one to five changes (bytes, bits, whole fields, truncation, insertions, splices), arbitrary: header fragments and noise in any order, markers: one required marker or field of a valid stream damaged, compared: mutated files through a whole comparison; all under AddressSanitizer and UndefinedBehaviorSanitizer with the largest allocation recorded; non-trivial when the stream has at least a header's length";
  p.assumptions = {"a loader may ask for up to 16 times the stream's size plus 4 MB at once"};
  p.facets = {{"mutated", Mutated, 60000, 3000000, 3}, {"arbitrary", Arbitrary, 60000, 3000000, 2}, {"markers", Markers, 40000, 2000000, 2}, {"compared", Compared, 400, 20000, 1}};
  return pbt::Main(p, argc, argv);
}
