// C04: the playback level of the degraded signal does not affect the result.
#include "lib/pipeline.h"
#include "misc_audio.h"
using namespace vt;
namespace V = Visqol;

static bool SameTimes(const V::SimilarityResultMsg& a, const V::SimilarityResultMsg& b) {
  if (a.alignment_lag_s() != b.alignment_lag_s() || a.patch_sims_size() != b.patch_sims_size()) return false;
  for (int k = 0; k < a.patch_sims_size(); ++k) {
    auto &p = a.patch_sims(k), &q = b.patch_sims(k);
    if (std::fabs(p.ref_patch_start_time() - q.ref_patch_start_time()) > 1e-9 || std::fabs(p.ref_patch_end_time() - q.ref_patch_end_time()) > 1e-9 || std::fabs(p.deg_patch_start_time() - q.deg_patch_start_time()) > 1e-9 || std::fabs(p.deg_patch_end_time() - q.deg_patch_end_time()) > 1e-9) return false;
  }
  return true;
}
static void Gain(Case& c) {
  Mode m = AnyMode(c);
  Pair p = AnyPair(c);
  c.require(Rms(p.y) > 0);
  bool power = c.chance(60);
  double g = power ? std::pow(2, double(c.of<int>({-1, 1, -2, 3, 6, -8, 12, -14, 5, -4}))) : std::pow(10, c.real(-4, 3));
  c.note("gain", g);
  Vec z = p.y; for (auto& v : z) v *= g;
  auto& mg = CachedManager(m);
  auto a = RunPair(mg, p.x, p.y, p.sr), b = RunPair(mg, p.x, z, p.sr);
  c.check(a.ok() == b.ok(), "at one level: %s; at another: %s", a.status().ToString().c_str(), b.status().ToString().c_str());
  if (!a.ok()) { c.label("refused"); return; }
  c.nontrivial(g != 1); c.label(power ? "power of two" : "any gain"); c.label(m.speech ? "speech" : "audio");
  if (!SameTimes(*a, *b)) {
    // Rounding may decide differently between equally good matches. The whole
    // is as similar all the same.
    c.label("other matches");
    c.near(b->vnsim(), a->vnsim(), 0.03, 0, "overall similarity at another level, matched otherwise");
    return;
  }
  double t = 1e-5;
  c.near(b->vnsim(), a->vnsim(), t, 0, "overall similarity at another level");
  bool tie = false;  // a patch as good before as after its realignment: either's energies are reported
  for (int k = 0; k < a->patch_sims_size(); ++k) {
    c.near(b->patch_sims(k).similarity(), a->patch_sims(k).similarity(), t, 0, "patch similarity at another level");
    if (a->patch_sims(k).similarity() > 1 - 1e-6) tie = true;
  }
  for (int i = 0; i < a->fvnsim_size(); ++i) {
    c.near(b->fvnsim(i), a->fvnsim(i), t, 0, "band similarity at another level");
    c.near(b->fvnsim10(i), a->fvnsim10(i), t, 0, "worst decile at another level");
    if (tie) continue;
    c.near(b->fstdnsim(i), a->fstdnsim(i), t * 100, 0, "deviation at another level");
    c.near(b->fvdegenergy(i), a->fvdegenergy(i), t * 10, t, "energy at another level");
  }
  if (tie) { c.label("ties"); return; }
  c.near(b->moslqo(), a->moslqo(), t * 100, 0, "score at another level");
}

template <bool big> static void Level(Case& c) {
  size_t sr = c.of<size_t>({8000, 48000, 16000}), sr2 = c.chance(80) ? sr : 44100;
  auto length = [&] { return size_t(big ? c.range(20000, 2500000) : c.size(1, 5000)); };
  Vec x = AnySignal(c, "ref", length(), sr).v, y = AnySignal(c, "deg", length(), sr2).v;
  double g = std::pow(10, c.real(-6, 6)); for (auto& v : y) v *= g;
  c.note("gain", g);
  c.require(Rms(y) > 0);
  auto rs = Sig(x, sr), ds = Sig(y, sr2);
  auto out = V::MiscAudio::ScaleToMatchSoundPressureLevel(rs, ds);
  c.check(out.sample_rate == sr2 && out.data_matrix.NumRows() == y.size() && out.data_matrix.NumCols() == 1, "the scaled signal has another shape or rate");
  for (size_t i = 0; i < x.size(); ++i) c.check(rs.data_matrix(i, 0) == x[i], "the reference was changed");
  for (size_t i = 0; i < y.size(); ++i) c.check(ds.data_matrix(i, 0) == y[i], "the degraded signal was changed in place");
  // One factor for all samples, which gives the reference's level.
  double f = Rms(x) / Rms(y);
  for (size_t i = 0; i < y.size(); ++i) c.near(out.data_matrix(i, 0), y[i] * f, 1e-300, 1e-9, "scaled sample");
  c.nontrivial(Rms(x) > 0);
}

int main(int argc, char** argv) {
  pbt::Property p;
  p.id = "C04";
  p.rule = "gain: whole comparisons of a pair and of the same pair with the degraded signal scaled, by powers of two and by any factor; non-trivial when scored. level: the level matching by itself, on signals of up to 5000 (long level: 2.5 million) samples, non-trivial unless the reference is silent";
  p.assumptions = {"the level is matched with rounding, which may decide between equally good matches; then only the overall similarity is compared, within 0.03; where a patch is perfectly similar, energies, deviations and the score are not compared", "silent degraded signals have no level to match"};
  p.facets = {{"gain", Gain, 800, 40000, 6}, {"level", Level<false>, 40000, 2000000, 1}, {"long level", Level<true>, 40, 2000, 1, false}};
  return pbt::Main(p, argc, argv);
}
