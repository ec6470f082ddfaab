// C12: WAV audio is decoded exactly and mixed down as the channel mean.
#include "lib/wav.h"
#include "misc_audio.h"
#include "misc_math.h"
#include "wav_reader.h"
using namespace vt;
namespace V = Visqol;

static void CheckMono(Case& c, const V::AudioSignal& s, const Wav& w, const char* how) {
  size_t frames = w.pcm.size() / w.channels;
  c.check(s.sample_rate == w.rate, "%s: sample rate %zu instead of %u", how, s.sample_rate, w.rate);
  c.check(s.data_matrix.NumRows() == frames && s.data_matrix.NumCols() == 1, "%s: %zu x %zu samples instead of %zu", how, s.data_matrix.NumRows(), s.data_matrix.NumCols(), frames);
  for (size_t i = 0; i < frames; ++i) {
    long sum = 0; for (int k = 0; k < w.channels; ++k) sum += w.pcm[i * w.channels + k];
    double want = double(sum) / w.channels / 32768, got = s.data_matrix(i, 0);
    if (w.channels == 1 ? got != want : !(std::fabs(got - want) <= 1e-14)) c.fail("%s: sample %zu is %.17g instead of %.17g", how, i, got, want);
  }
}
static void Load(Case& c) {
  Wav w = AnyWav(c, 4000);
  std::stringstream ss(w.bytes);
  CheckMono(c, V::MiscAudio::LoadAsMono(&ss), w, "stream");
  if (c.chance(30)) {
    std::string p = pbt::ScratchDir() + "/a.wav"; WriteFile(p, w.bytes);
    CheckMono(c, V::MiscAudio::LoadAsMono(V::FilePath(p)), w, "file");
    c.label("from a file");
  }
  c.nontrivial(w.bytes.size() != 44 + w.pcm.size() * 2 || w.channels > 1);
}
static void Pieces(Case& c) {
  Wav w = AnyWav(c, 600);
  std::stringstream ss(w.bytes);
  V::WavReader r(&ss);
  c.check(r.IsHeaderValid(), "a valid header is refused");
  c.check(r.GetNumTotalSamples() == w.pcm.size(), "%zu samples instead of %zu", r.GetNumTotalSamples(), w.pcm.size());
  c.check(r.GetNumChannels() == size_t(w.channels), "%zu channels instead of %d", r.GetNumChannels(), w.channels);
  c.check(r.GetSampleRateHz() == int(w.rate), "rate %d instead of %u", r.GetSampleRateHz(), w.rate);
  double frames = double(w.pcm.size() / w.channels);
  c.near(r.GetDuration(), frames / w.rate, 0, 1e-12, "duration");
  size_t at = 0, total = w.pcm.size(); int steps = 0, past = int(c.range(1, 3)); std::string sizes;
  bool over = false;
  while (past > 0 && steps < 200) {
    size_t n = size_t(c.pick({3, 2, 2, 1}) == 3 ? c.range(0, int64_t(total) * 2) : c.size(0, int64_t(total) / 3 + 3));
    std::vector<int16_t> buf(n + 8, int16_t(0x5a5a));
    size_t got = r.ReadSamples(n, buf.data()), want = std::min(n, total - at);
    if (steps < 12) sizes += std::to_string(n) + ",";
    over |= n > total - at && at < total;
    c.check(got == want, "read %zu of %zu samples with %zu left", got, n, total - at);
    for (size_t i = 0; i < got; ++i) if (buf[i] != w.pcm[at + i]) c.fail("sample %zu reads as %d instead of %d", at + i, buf[i], w.pcm[at + i]);
    for (size_t i = want; i < buf.size(); ++i) if (buf[i] != 0x5a5a) c.fail("a read of %zu samples with %zu left wrote sample %zu of the buffer", n, total - at, i);
    at += got; ++steps;
    if (at == total) --past;
  }
  c.note("reads", sizes);
  if (over) c.label("asked for more than is left");
  c.nontrivial(steps > 2);
}
static void Convert(Case& c) {
  size_t n = c.size(1, 300);
  Rng r(c.seed());
  c.note("samples", n);
  std::vector<int16_t> pcm(n); for (auto& x : pcm) x = int16_t(r.range(-32768, 32767));
  auto d = V::MiscMath::NormalizeInt16ToDouble(pcm);
  c.check(d.size() == n, "%zu samples from %zu", d.size(), n);
  for (size_t i = 0; i < n; ++i) if (d[i] != pcm[i] / 32768.0) c.fail("%d becomes %.17g", pcm[i], d[i]);
  c.nontrivial(n > 1);
}

// Files of more samples than a float can count, made of a short repeated piece.
static void Huge(Case& c) {
  int ch = int(c.range(1, 2)); size_t frames = (size_t(1) << 24) / ch + size_t(c.range(1, 4001)), n = frames * ch;
  Rng r(c.seed());
  Wav w; w.channels = ch; w.rate = 48000; w.pcm.resize(n);
  std::vector<int16_t> piece(9973); for (auto& x : piece) x = int16_t(r.range(-32768, 32767));
  for (size_t i = 0; i < n; ++i) w.pcm[i] = piece[i % piece.size()];
  c.note("frames", frames); c.note("channels", ch);
  w.bytes = WavBytes(w.pcm, ch, 48000);
  std::stringstream ss(w.bytes);
  CheckMono(c, V::MiscAudio::LoadAsMono(&ss), w, "stream");
  c.nontrivial();
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C12";
  p.rule = "load: generated valid streams (1-64 channels, any rate, format extensions, other chunks before and after the data, odd sized ones padded) decoded and compared with the samples they were made from, non-trivial unless a plain mono file; pieces: histories of reads of any size, non-trivial with more than two reads; convert: conversion of samples; huge: 1 or 2 channels of more than 2^24 samples";
  p.facets = {{"load", Load, 40000, 2000000, 2}, {"pieces", Pieces, 40000, 2000000, 2}, {"convert", Convert, 20000, 1000000, 1}, {"huge", Huge, 6, 60, 1, false}};
  return pbt::Main(p, argc, argv);
}
