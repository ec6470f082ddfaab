FFT = "Trusts the stand-in for the FFT library, which upstream's own tests validate."
T.update({
 "C05": ("property-based testing: generated shifts recovered exactly where an independent correlation is decisive; metamorphic relation to the pair aligned by hand", "Random sampling; " + FFT),
 "C07": ("property-based testing: differential against a direct O(n^2) transform and correlation, round trips, envelope invariants", "Random sampling of lengths up to a few thousand. " + FFT),
 "C09": ("property-based testing: differential against an independent reference implementation of the index, symmetry and extremes", "Random sampling of patch shapes and levels."),
 "C12": ("property-based testing: structured WAV generator with an independent decoder; stateful read sequences", "Random sampling of 16-bit PCM files and read sequences."),
 "C13": ("fuzzing: structured and mutated byte streams under AddressSanitizer/UBSan with memory and CPU limits", "Random mutation in the quick tier."),
 "C14": ("fuzzing: degenerate pairs and initialisation histories under AddressSanitizer/UBSan, crash and refusal oracle", "Random sampling, signals up to 40000 samples. " + FFT),
 "C17": ("property-based testing: independent gammatone design and recursion, superposition, split and reset metamorphic relations", "Random sampling of rates, band counts, ranges."),
 "C18": ("property-based testing: independent per-frame reference, shift/scale/locality metamorphic relations", "Random sampling of signals up to a few seconds."),
 "C21": ("model-based testing: random operation sequences against a plain table model, under AddressSanitizer/UBSan", "Random sampling of shapes up to a few dozen and of operation sequences."),
 "C24": ("property-based testing: independent statistics on generated patch results through a stub comparator", "Random sampling; one known finding (pooled deviation) is accepted in its exact form."),
})

T.update({
 "C02": ("property-based testing: whole comparisons in random modes against the relations between the reported fields", "Random sampling of signals up to a few seconds. " + FFT),
 "C03": ("property-based testing: whole comparisons of generated signals with themselves, and metamorphic comparison with degraded versions", "Random sampling. " + FFT),
 "C04": ("property-based testing: metamorphic relation between a comparison and the same with a gain; closed-form oracle for the level match", "Random sampling; decisions between equally good matches are tolerated. " + FFT),
 "C06": ("property-based testing: independent reconstruction of the aligned pair from the reported lag; realignment invariants", "Random sampling; one known finding (slice silence) is accepted in its exact form. " + FFT),
 "C08": ("property-based testing: differential against exhaustive search and an independent dynamic programme over generated layouts", "Random sampling of layouts; exhaustive search on small ones."),
 "C19": ("property-based testing: independent cell-by-cell reference, order and floor invariants", "Random sampling of spectrogram pairs."),
 "C20": ("property-based testing: independent layout and voice-activity references over generated spectrogram lengths and signals", "Random sampling; one known finding (activity offset) is accepted in its exact form."),
 "C25": ("property-based testing: metamorphic relation between two strengths of one generated degradation", "Random sampling of bursty and speech-like signals; tolerances as in the evidence. " + FFT),
})

T.update({
 "C10": ("stateful property-based testing: random histories of comparisons and (failed) initialisations of one instance against fresh instances; differential over memory, files and the public interface", "Random sampling of short histories. " + FFT),
 "C11": ("stateful fuzzing of thread schedules under ThreadSanitizer: scripts run together against the same scripts alone; overlap detector in place of the model loader", "Also every part on its own, called over and over by threads that meet in it. Schedules are those the kernel produces on oversubscribed cores; uninstrumented libraries are not seen. " + FFT),
 "C15": ("property-based testing: the built program on generated argument lists and batch files against the library; the parser against generated arguments and texts", "Random sampling. " + FFT),
 "C16": ("model-based testing: random results and write sequences read back by independent CSV, JSON and table readers", "Random sampling."),
 "C22": ("property-based testing: differential against an independent evaluation of shipped and generated model files; round trip of training tables; metamorphic relations of training", "Random sampling; training is judged by achieved error and invariances."),
 "C23": ("property-based testing: random configurations against the stated rules; differential against comparisons set up by hand; random creation histories", "Random sampling. " + FFT),
})

T.update({
 "C27": ("stateful property-based testing: random rounds of operations repeated, with the allocated bytes, open files and threads counted after each", "Random sampling of short rounds, 32 repetitions; growth that takes longer to show is missed. Allocation in system libraries counts too."),
})
T["C28"] = ("property-based testing (hypothesis): generated result and score files through the training scripts, what they hand on observed by stand-ins and compared with an independent reading; the program's own result files likewise", "Random sampling. Nothing is trained: TensorFlow (Lattice), pandas and absl are stand-ins that record what they are given.")
T["C26"] = ("stateful property-based testing: the binding's own definitions called as Python would on random histories, differential against the C++ interface", "Random sampling. pybind11 is a stand-in that calls what the module defines; numpy and the interpreter are not involved. " + FFT)
T["C29"] = ("property-based testing (hypothesis): generated scores, dataset trees and models through the maintenance scripts; the conformance header rewritten by the printed commands read back against what the conformance test compares", "Random sampling. The Python binding, absl and TensorFlow are stand-ins.")
for k in list(T):
  if k not in ("C10", "C11", "C26", "C28", "C29"): T[k] = (T[k][0] + "; thorough tier also coverage-guided (libFuzzer) over the same choices", T[k][1])
