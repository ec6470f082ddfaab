// WAV streams, valid and not.
#ifndef VERIF_LIB_WAV_H_
#define VERIF_LIB_WAV_H_
#include "lib/common.h"

namespace vt {
struct Wav {
  int channels = 1; uint32_t rate = 8000; bool extensible = false;
  std::vector<int16_t> pcm;   // interleaved
  std::string bytes;
  size_t fmt_at = 12, data_at = 0, payload_at = 0, guid_at = 0;  // positions of chunk headers, of the samples and of the sub-format
  std::string what;
};

// A valid 16-bit PCM WAV stream. `plain`: no chunk after the data, no payload
// that looks like a chunk.
inline Wav AnyWav(Case& c, size_t max_frames, bool plain = false) {
  Wav w;
  w.channels = c.chance(70) ? int(c.range(1, 3)) : int(c.of<int>({4, 5, 6, 8, 16, 64}));
  w.rate = c.chance(70) ? uint32_t(c.of<int>({8000, 16000, 44100, 48000, 11025, 96000})) : uint32_t(c.size(1, 2147483647));
  size_t frames = c.size(1, int64_t(max_frames));
  int ext = int(c.pick({5, 2, 2, 3}));  // none, empty extension, some extension, extensible
  int style = int(c.pick({5, 2, 2, 1}));
  Rng r(c.seed());
  w.pcm.resize(frames * w.channels);
  for (auto& s : w.pcm) {
    if (style == 0) s = int16_t(r.range(-32768, 32767));
    else if (style == 1) { static const int16_t e[] = {-32768, 32767, 0, -1, 1, -32767}; s = e[r.next() % 6]; }
    else if (style == 2) s = int16_t(r.range(-40, 40));
    else s = 0;
  }
  if (plain) for (auto& s : w.pcm) if ((s & 0xff) == 'd' || (s >> 8 & 0xff) == 'd') s = 1;
  std::string& b = w.bytes;
  b = "RIFF"; Put32(b, 0); b += "WAVE";
  std::string extra;
  if (ext == 2) { size_t k = size_t(c.range(1, 20)) * 2; for (size_t i = 0; i < k; ++i) extra += char(r.next()); }
  w.extensible = ext == 3;
  if (ext == 3) {
    Put16(extra, 16); Put32(extra, (1u << w.channels % 18) - 1); Put16(extra, 1);
    extra += std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71", 14);
  }
  size_t odd = 0, large = 0;
  auto Ancillary = [&] {
    static const char* ids[] = {"LIST", "bext", "cue ", "dat ", "DATA", "JUNK", "PEAK", "id3 ", "fact"};
    size_t n = c.chance(8) ? size_t(c.range(65500, 200000)) : size_t(c.size(0, 300)); odd += n % 2; large += n > 65535;
    b += ids[c.draw(8)]; Put32(b, n);
    std::string body; for (size_t i = 0; i < n; ++i) body += char(r.next());
    if (n >= 12 && !plain && r.unit() < 0.5) body.replace(2, 4, r.unit() < 0.7 ? "data" : "fmt ");
    b += body; if (n % 2) b += '\0';
  };
  int ahead = c.chance(20) ? int(c.range(1, 3)) : 0;
  for (int i = 0; i < ahead; ++i) Ancillary();
  w.fmt_at = b.size();
  b += "fmt "; Put32(b, ext == 0 ? 16 : 18 + extra.size());
  Put16(b, ext == 3 ? 0xfffe : 1); Put16(b, w.channels); Put32(b, w.rate); Put32(b, w.rate * w.channels * 2); Put16(b, w.channels * 2); Put16(b, 16);
  if (ext) { Put16(b, extra.size()); if (ext == 3) w.guid_at = b.size() + 6; b += extra; }
  bool fact = c.chance(ext == 3 ? 50 : 5);
  if (fact) { b += "fact"; Put32(b, 4); Put32(b, uint32_t(frames)); }
  int between = c.chance(40) ? int(c.range(1, 3)) : 0;
  for (int i = 0; i < between; ++i) Ancillary();
  w.data_at = b.size();
  b += "data"; Put32(b, w.pcm.size() * 2);
  w.payload_at = b.size();
  for (int16_t s : w.pcm) Put16(b, uint16_t(s));
  int after = !plain && c.chance(30) ? int(c.range(1, 2)) : 0;
  for (int i = 0; i < after; ++i) Ancillary();
  uint32_t sz = uint32_t(b.size() - 8);
  for (int i = 0; i < 4; ++i) b[4 + i] = char(sz >> 8 * i & 255);
  std::ostringstream s;
  s << frames << " frames x " << w.channels << " at " << w.rate << (ext == 1 ? ", empty extension" : ext == 2 ? ", extension" : ext == 3 ? ", extensible" : "") << (fact ? ", fact" : "") << ", " << ahead << " chunks before the format, " << between << " before and " << after << " after the data" << (odd ? ", odd sized" : "") << (large ? ", over 64 KiB" : "");
  w.what = s.str();
  c.note_str("wav", w.what);
  if (w.channels > 1) c.label("several channels");
  if (ext) c.label(ext == 3 ? "extensible" : "extension");
  if (ext == 3 && !fact) c.label("extensible, no fact chunk");
  if (ahead) c.label("chunks before the format");
  if (between) c.label("chunks before the data");
  if (after) c.label("chunks after the data");
  if (odd) c.label("odd chunk");
  if (large) c.label("chunk over 64 KiB");
  return w;
}
}  // namespace vt
#endif
