#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every score is a finite MOS between 1 and 5, with the documented extremes",
  "Whatever pair of signals is accepted, and whichever quality mapping is in use, the reported MOS-LQO is a finite number from 1 to 5, and it is exactly 1 when overall similarity is below 0.15. The default speech mapping turns perfect similarity, and nothing clearly less, into 5 and the unscaled one into about 4, of which it is a constant multiple. The exponential speech mapping never gives a lower score to a higher mean similarity.",
  ["inputs", "configurations"], "all accepted signal pairs, all modes and mappings, all per-band similarity vectors",
  "The conformance tests compare about twenty fixed file pairs with recorded scores; none of them can run without the FFT and TFLite libraries, and none looks at extreme similarity vectors.",
  ["src/visqol.cc", "src/speech_similarity_to_quality_mapper.cc", "src/svr_similarity_to_quality_mapper.cc", "src/tflite_quality_mapper.cc"],
  [("clamping of the mapped value", "SpeechSimilarityToQualityMapper::PredictQuality, SvrSimilarityToQualityMapper::PredictQuality"), ("floor for dissimilar signals", "Visqol::AlterForSimilarityExtremes")],
  ["SimilarityResultMsg.moslqo, vnsim"])

p("C02", "A result is internally consistent: bands, averages, ranges and times agree",
  "Every result has one entry per frequency band (32 in audio mode, 21 in speech mode) in each per-band list, with band centres strictly ascending and inside the analysed range. The overall similarity is the mean of the per-band similarities, each of which is the mean over the reported patches; the worst-decile similarity of a band is never above its mean, deviations are never negative and no similarity exceeds 1. Every patch's times are ordered, lie inside the compared signals (plus padding), and reference patches follow one another in time.",
  ["inputs", "configurations"], "all accepted signal pairs in all modes, with and without alignment and realignment",
  "Tests read only the MOS-LQO of a few recordings; the relations between the reported fields are never asserted.",
  ["src/visqol.cc", "src/visqol_manager.cc", "src/proto/similarity_result.proto"],
  [("result assembly", "Visqol::CalculateSimilarity"), ("message population", "VisqolManager::PopulateSimResultMsg")],
  ["SimilarityResultMsg"])

p("C03", "A signal compared with itself is perfectly similar, and nothing beats that",
  "Comparing any accepted reference with an identical copy reports overall similarity 1, similarity 1 in every band and every patch, zero deviation and zero lag, with each distinguishable patch matched to the same times. No degraded signal obtains a higher overall similarity than the reference itself.",
  ["inputs", "configurations"], "all accepted reference signals and degraded versions, all modes",
  "One upstream test checks one identical recording against a recorded score.",
  ["src/visqol.cc", "src/comparison_patches_selector.cc", "src/neurogram_similiarity_index_measure.cc", "src/alignment.cc"],
  [("patch matching", "ComparisonPatchesSelector::FindMostOptimalDegPatches"), ("similarity measure", "NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity")],
  ["SimilarityResultMsg"])

p("C04", "The playback level of the degraded signal does not affect the result",
  "Multiplying every sample of the degraded signal by the same positive factor leaves the whole result - score, similarities, lag and patch times - unchanged, apart from rounding and from what rounding decides between equally good matches. Level matching makes the degraded signal's RMS level equal to the reference's and changes nothing else.",
  ["inputs"], "all accepted signal pairs, all positive gains, all modes",
  "No test scales a signal; the level is matched implicitly in the recordings used.",
  ["src/misc_audio.cc", "src/visqol.cc", "src/alignment.cc"],
  [("level matching", "MiscAudio::ScaleToMatchSoundPressureLevel"), ("preprocessing", "Visqol::CalculateSimilarity stage 1")],
  ["SimilarityResultMsg"])

p("C05", "A constant delay between the signals is found, compensated and reported",
  "When the degraded signal is the reference delayed or advanced by less than a fraction of its length, the reported lag is exactly that shift (negative when the degraded signal is late), and the comparison then scores as if it had not been shifted. For any pair, the aligned degraded signal is the given one shifted by exactly the reported lag - leading samples removed, or silence put in front - and a lag of more than half the reference is never applied. With global alignment disabled the lag is zero and the signal is compared as given.",
  ["inputs", "configurations"], "all signal pairs, delays of either sign, lengths and sample rates",
  "The alignment tests use one recording and two hand-made vectors, and cannot even be built offline.",
  ["src/alignment.cc", "src/envelope.cc", "src/xcorr.cc", "src/visqol_manager.cc"],
  [("global alignment", "Alignment::GloballyAlign"), ("lag reporting", "VisqolManager::Run")],
  ["Alignment results", "SimilarityResultMsg.alignment_lag_s"])

p("C06", "Fine alignment returns two aligned signals of equal length, cut from the inputs",
  "Aligning and truncating any two signals returns signals of the same, non-zero length at their own sample rates, with the reported lag applied: the returned reference is a contiguous part of the given reference and the returned degraded signal the matching part of the given one shifted by that lag. Realigning matched patches never lowers a patch's similarity and moves its times by the lag that was found.",
  ["inputs"], "all pairs of signals with lengths from a few samples up, any lag sign, either one longer; all patch matches",
  "One test checks one recording; length combinations and lag signs are not varied.",
  ["src/alignment.cc", "src/comparison_patches_selector.cc"],
  [("align and truncate", "Alignment::AlignAndTruncate"), ("patch realignment", "ComparisonPatchesSelector::FinelyAlignAndRecreatePatches"), ("time slicing", "ComparisonPatchesSelector::Slice")])

p("C07", "Spectra and cross-correlation lags are mathematically correct for every length",
  "The forward transform of any signal equals its discrete Fourier transform at the padded length, the inverse transform gives the signal back, and the lag reported for two signals of any lengths maximises their cross-correlation. The upper envelope has one value per sample and is never below the signal's mean.",
  ["inputs"], "all signal lengths (powers of two or not, either longer) and contents",
  "The tests hold three fixed vectors, and the files are not built offline for want of the FFT library.",
  ["src/fast_fourier_transform.cc", "src/fft_manager.cc", "src/xcorr.cc", "src/envelope.cc", "src/include/audio_channel.h"],
  [("transforms", "FastFourierTransform::Forward1d, Inverse1d"), ("cross-correlation", "XCorr::FindLowestLagIndex"), ("envelope", "Envelope::CalcUpperEnv")])

p("C08", "Reference patches are matched to degraded patches in the best possible way",
  "Among all assignments of reference patches to degraded start frames that lie within the search window, keep time order and may leave a patch unmatched, the one chosen has the highest total similarity. Every matched patch is reported with the similarity and times of the degraded segment chosen for it, an unmatched one with zero similarity, overall and per band, and zero degraded times. Reference patches that begin too far past the end of the degraded signal are dropped, and if none is left the comparison is refused.",
  ["inputs", "configurations"], "all reference patch layouts, degraded spectrogram lengths and search windows",
  "The tests run six hand-made layouts; optimality over all assignments cannot be shown by examples.",
  ["src/comparison_patches_selector.cc"],
  [("dynamic programme", "ComparisonPatchesSelector::FindMostOptimalDegPatch"), ("backtrace", "ComparisonPatchesSelector::FindMostOptimalDegPatches"), ("patch dropping", "ComparisonPatchesSelector::CalcMaxNumPatches"), ("padding", "ComparisonPatchesSelector::BuildDegradedPatch")])

p("C09", "The patch similarity measure is the neurogram similarity index",
  "For any two patches the similarity, the per-band means and deviations and the per-band degraded energy equal those of the published definition: a 3x3 Gaussian-weighted intensity term times a structure term, edges replicated. The similarity is symmetric in its two arguments, never exceeds 1, and is 1 for identical patches.",
  ["inputs"], "all pairs of patches of equal size with levels of either sign and any range",
  "No test exercises the measure except through recorded end scores.",
  ["src/neurogram_similiarity_index_measure.cc", "src/convolution_2d.cc", "src/amatrix.cc"],
  [("similarity measure", "NeurogramSimiliarityIndexMeasure::MeasurePatchSimilarity"), ("windowing", "Convolution2D::Valid2DConvWithBoundary")])

p("C10", "A comparison does not depend on what was compared before",
  "On one initialised instance, each comparison in any sequence of accepted and refused comparisons gives exactly the result a fresh instance gives for that pair, whatever the order and repetition. Comparing leaves the reference untouched, and comparing through memory, through files or through the public interface gives the same result.",
  ["histories", "configurations"], "all sequences of comparisons on one instance, including failures and re-initialisation in another mode",
  "One test repeats a comparison of one file pair; mixed histories with refused or differently sized inputs are not covered.",
  ["src/visqol_manager.cc", "src/gammatone_spectrogram_builder.cc", "src/gammatone_filterbank.cc", "src/visqol_api.cc"],
  [("per-frame filter state reset", "GammatoneSpectrogramBuilder::Build, GammatoneFilterBank::ResetFilterConditions"), ("instance state", "VisqolManager")],
  state=[("filter conditions", "state of the four cascaded filters of every band", "GammatoneFilterBank")])

p("C11", "Instances in different threads do not affect one another",
  "Independent instances initialised and used concurrently from several threads give exactly the results they give alone. Support-vector model files, whose loader cannot be used by two threads at once, are loaded one at a time.",
  ["schedules"], "all interleavings of initialisation and comparison on independent instances in several threads",
  "One upstream test starts a handful of threads on fixed files and is not run offline; it compares no results under contention.",
  ["src/support_vector_regression_model.cc", "src/visqol_manager.cc", "src/tflite_quality_mapper.cc"],
  [("model-load lock", "SupportVectorRegressionModel::Init"), ("per-instance state", "VisqolManager")],
  state=[("model-load mutex", "serialises use of the non-thread-safe loader", "SupportVectorRegressionModel")])

p("C12", "WAV audio is decoded exactly and mixed down to mono as the channel mean",
  "A valid 16-bit PCM WAV stream of any channel count, sample rate and length, with or without extra chunks or format extensions, is decoded to exactly its samples over 32768, averaged over the channels, at its own sample rate. Reading it in pieces of any sizes gives the same samples in order, never more than the audio data holds, and then nothing.",
  ["inputs", "histories"], "all valid 16-bit PCM WAV files and all sequences of reads",
  "Four fixed inputs are loaded in the tests, and only their shape is checked.",
  ["src/wav_reader.cc", "src/misc_audio.cc", "src/misc_math.cc"],
  [("header parsing", "WavReader::ParseHeader"), ("reading", "WavReader::ReadSamples"), ("mix-down", "MiscAudio::LoadAsMono, ToMono, ExtractMultiChannel")],
  state=[("remaining samples", "how much of the data chunk is unread", "WavReader")])

p("C13", "Malformed audio data is refused or decoded safely, never followed blindly",
  "For any byte stream whatever - truncated, corrupted, with lying chunk sizes, zero channels or an unsupported encoding - loading terminates without a crash, out-of-bounds access or memory demand out of proportion to the stream, and yields either an empty signal or finite samples in [-1,1]. Corrupting the required markers of a valid file, or declaring another encoding, makes it refused.",
  ["inputs"], "all byte streams",
  "The tests offer one corrupt and one missing input.",
  ["src/wav_reader.cc", "src/misc_audio.cc"],
  [("header validation", "WavReader::ParseHeader"), ("error path", "MiscAudio::LoadAsMono")])

p("C14", "Pairs that cannot be scored are refused with an error, never crash or hang",
  "Any pair of signals - empty, a few samples, silent, of different sample rates or very different lengths, at any sample rate - makes a comparison return either a result or an error status, without crashing. Different sample rates, references too short to hold one analysis window or one patch, and degraded signals too short for one window when they are compared as given, always give an error, as does an instance that was not initialised. Refusing a pair leaves the instance usable.",
  ["inputs", "configurations"], "all pairs of signals, including degenerate ones, in every mode and option combination",
  "A few fixed short recordings are tested in audio mode only.",
  ["src/visqol_manager.cc", "src/gammatone_spectrogram_builder.cc", "src/image_patch_creator.cc", "src/vad_patch_creator.cc", "src/comparison_patches_selector.cc", "src/alignment.cc"],
  [("input validation", "VisqolManager::ValidateInputAudio"), ("minimum length", "GammatoneSpectrogramBuilder::Build, ImagePatchCreator::CreateRefPatchIndices"), ("status propagation", "Visqol::CalculateSimilarity")])

p("C15", "The command line and batch files mean what they say",
  "The program compares exactly the pairs named by its arguments or listed in its batch file, in order, whatever the line endings and blank lines, and one pair that cannot be compared does not stop the others. Every option reaches the comparison it controls, unset options have their documented defaults, and a missing file on the command line or a missing model is refused before anything is compared.",
  ["inputs", "configurations"], "all argument combinations and batch files",
  "One test reads one two-line batch file; the program itself is never run.",
  ["src/commandline_parser.cc", "src/main.cc", "src/visqol_manager.cc"],
  [("argument parsing", "VisqolCommandLineParser::Parse"), ("batch parsing", "VisqolCommandLineParser::ReadFilesToCompare"), ("batch loop", "main")])

p("C16", "Result files say exactly what was measured",
  "The CSV file gets one header, written once, and one row per comparison appended in order, with as many columns as the header; every value reads back as the result's value to nine significant digits under the right name. The JSON file gets one record per comparison that parses back to the same result, and what was already in either file is kept. The console shows the score and, when verbose, the file names and one row per band and per patch with the result's values.",
  ["inputs", "histories"], "all results and all sequences of writes to new or existing files",
  "No test covers the writer.",
  ["src/include/sim_results_writer.h"],
  [("CSV output", "SimilarityResultsWriter::WriteResultsToCSV"), ("JSON output", "SimilarityResultsWriter::WriteDebugJSON"), ("console output", "SimilarityResultsWriter::WriteToConsole")])

p("C17", "The filterbank covers its range with unit-gain, linear, stateful filters",
  "For any sample rate and band count the band centres run from the lowest requested frequency to just below the highest, equally spaced on the auditory (ERB-rate) scale, a highest frequency above half the sample rate being replaced by that. Every filter is the stable fourth-order gammatone filter of its centre, with unit gain there and the ERB bandwidth. Filtering is linear, filtering a signal in pieces gives the same output as filtering it whole, and resetting makes the bank behave as new.",
  ["inputs", "configurations", "histories"], "all sample rates, band counts, ranges, signals and ways of splitting them",
  "One test compares one band's output with ten recorded numbers.",
  ["src/equivalent_rectangular_bandwidth.cc", "src/gammatone_filterbank.cc", "src/signal_filter.cc", "src/complex_valarray.cc"],
  [("filter design", "EquivalentRectangularBandwidth::MakeFilters, CalcUniformCenterFreqs"), ("filtering", "GammatoneFilterBank::ApplyFilter, SignalFilter::Filter"), ("reset", "GammatoneFilterBank::ResetFilterConditions")])

p("C18", "A spectrogram column is the band-wise RMS of its own windowed frame",
  "For any signal longer than one window, the spectrogram has one row per band (lowest first) and one column per complete hop-spaced window, and each column is the root-mean-square of each band filter's output for that Hann-windowed frame alone. Hence shifting the signal by whole hops shifts the columns, scaling it scales them, and samples outside a frame do not influence its column; signals no longer than one window are refused.",
  ["inputs", "configurations"], "all signals, sample rates and band counts",
  "One test compares one recording with a recorded sum.",
  ["src/gammatone_spectrogram_builder.cc", "src/analysis_window.cc", "src/spectrogram.cc"],
  [("framing", "GammatoneSpectrogramBuilder::Build"), ("window", "AnalysisWindow::ApplyHannWindow")])

p("C19", "Spectrograms are put on a common decibel scale with a shared noise floor",
  "Preparing two spectrograms converts every cell to decibels, raises cells below -45 dB, and below 45 dB under the louder signal's peak in the same frame, up to those floors, and shifts both by one common offset so that the smallest cell is 0. Order between cells is never reversed and the frames that only one of them has still get the absolute floor.",
  ["inputs"], "all pairs of spectrograms with any non-negative content and differing lengths",
  "The tests check three fixed 2x2 examples of single steps.",
  ["src/spectrogram.cc", "src/misc_audio.cc"],
  [("preparation", "MiscAudio::PrepareSpectrogramsForComparison"), ("floors", "Spectrogram::RaiseFloor, RaiseFloorPerFrame"), ("decibel conversion", "Spectrogram::ConvertToDb")])

p("C20", "Every reference patch to be scored is chosen, and silent speech patches are not",
  "In audio mode the reference is covered by consecutive non-overlapping patches from half a patch in, as many as leave room behind the last, and the patch images are the corresponding columns. In speech mode a patch is scored exactly when a frame in it carries voice activity, where a frame lacks activity only if it and its two predecessors are below the level threshold, relative to the signal's peak. A reference with no complete patch is refused.",
  ["inputs"], "all spectrogram lengths and reference signals",
  "The tests check one recording in each mode.",
  ["src/image_patch_creator.cc", "src/vad_patch_creator.cc", "src/rms_vad.cc", "src/misc_math.cc"],
  [("audio patches", "ImagePatchCreator::CreateRefPatchIndices, CreatePatchesFromIndices"), ("speech patches", "VadPatchCreator::CreateRefPatchIndices, GetVoiceActivity"), ("voice activity", "RmsVad")],
  state=[("activity history", "per-chunk decisions", "RmsVad")])

p("C21", "Matrices and convolution behave as their mathematical definitions",
  "After any sequence of operations a matrix holds what the same operations on a plain two-dimensional table give: element access, row and column extraction and replacement, joining, resizing, transposition, flipping, arithmetic and row or column statistics; two matrices are equal exactly when their shapes and elements are. Copies are independent of their origin. Operations on arrays of complex numbers are those of their elements. Two-dimensional convolution with replicated edges equals the textbook sum for every filter and input size.",
  ["inputs", "histories"], "all matrix shapes and operation sequences; all filters and inputs",
  "The convolution test holds one example; matrices have no test at all.",
  ["src/amatrix.cc", "src/include/amatrix.h", "src/convolution_2d.cc", "src/misc_vector.cc", "src/include/complex_valarray.h"],
  [("matrix operations", "AMatrix"), ("convolution", "Convolution2D::Valid2DConvWithBoundary")])

p("C22", "Quality models predict what their model files define",
  "The audio score is the support-vector prediction that the model file defines for the per-band similarities in order, limited to 1..5, for any observation and any model; training data files are read back exactly as written, and training on them yields a model that predicts its own targets reasonably. A missing or unreadable model file is reported as an error when initialising.",
  ["inputs", "configurations"], "all observations, model files and training tables",
  "One test trains on one recorded table and checks one prediction.",
  ["src/support_vector_regression_model.cc", "src/libsvm_target_observation_convertor.cc", "src/svr_similarity_to_quality_mapper.cc", "src/svr_training/training_data_file_reader.cc"],
  [("prediction", "SupportVectorRegressionModel::Predict"), ("feature layout", "LibSvmTargetObservationConvertor::ConvertObservation"), ("training data", "TrainingDataFileReader::Read")])

p("C23", "The public interface validates its configuration and applies its defaults",
  "Creating the public interface succeeds exactly when a sample rate is given, is supported (48 kHz, any in speech mode, or any when overridden) and the model, if the mode needs one, can be loaded; otherwise it reports an error, an invalid argument where the configuration is at fault. Every option that is set is honoured, every unset one has its documented default, and measuring gives the result the underlying comparison gives with those settings; measuring before a successful creation is refused, and a refused creation never changes how a later measurement is made.",
  ["configurations", "inputs"], "all configurations, set or unset field by field",
  "Two configurations can be tested offline.",
  ["src/visqol_api.cc", "src/proto/visqol_config.proto"],
  [("validation and defaults", "VisqolApi::Create"), ("measuring", "VisqolApi::Measure")])

p("C24", "Per-band statistics are the stated statistics of the patch results",
  "From any set of per-patch results, the per-band similarity is the mean over patches, the worst-decile value the mean of the lowest tenth (at least one), the deviation the pooled standard deviation over all frames of all patches, and the degraded energy the mean over patches; the score is predicted from exactly these. None of them depends on the order of the patches.",
  ["inputs"], "all sets of patch results with one or more patches and bands",
  "Three fixed vectors test the decile alone.",
  ["src/visqol.cc"],
  [("aggregation", "Visqol::CalcPerPatchMeanFreqBandMeans, CalcPerPatchFreqBandQuantile, CalcPerPatchMeanFreqBandStdDevs, CalcPerPatchMeanFreqBandDegradedEnergy"), ("prediction", "Visqol::PredictMos")],
  ["SimilarityResultMsg, SimilarityToQualityMapper::PredictQuality"])

p("C25", "Heavier degradation of the same kind does not score as more similar",
  "Making one degradation of a signal clearly heavier - faint noise made as loud as the signal, the same dropouts five times longer, a much lower cut-off, much harder clipping - does not raise the overall similarity or the exponential speech score beyond a small tolerance. A signal compared with unrelated material is less similar than with a lightly degraded copy of itself.",
  ["inputs", "configurations"], "all accepted references, degradations of these kinds and their strengths, all modes",
  "Tests compare fixed scores one by one and never relate two of them.",
  ["src/visqol.cc", "src/neurogram_similiarity_index_measure.cc", "src/comparison_patches_selector.cc", "src/misc_audio.cc"],
  [("whole comparison", "VisqolManager::Run")], ["SimilarityResultMsg.vnsim, moslqo"])

p("C26", "The Python binding measures what the C++ library measures",
  "For every history of calls from Python (managers and API objects made, initialised or created with any settings, run on any files or arrays), the binding returns what the C++ interface returns for the same arguments in the same order, raises an exception exactly when that returns an error and of the same code, leaves the caller's arrays as they were, and names the shipped models and the recorded conformance score as C++ does.",
  ["inputs", "configurations", "histories"], "all settings, all audio files and sample arrays, all histories of calls",
  "The Python tests compare a few recorded scores and are not run here; no test runs them offline.",
  ["python/visqol_lib_py.cc", "src/visqol_manager.cc", "src/visqol_api.cc"],
  [("binding", "PYBIND11_MODULE(visqol_lib_py)"), ("what it binds", "VisqolManager::Init, VisqolManager::Run, VisqolApi::Create, VisqolApi::Measure")])

p("C27", "What a comparison takes it gives back, however many come after it",
  "A process that compares any number of pairs, scored or refused, and that initialises, decodes, trains or writes results any number of times, uses a bounded amount of memory and of open files: each operation gives back what it took when it is over, and an instance gives back what it holds when it is destroyed or initialised again.",
  ["histories", "inputs"], "all sequences of comparisons, refusals, initialisations, trainings and writes, of any length",
  "Every test ends its process after one comparison.",
  ["src/visqol_manager.cc", "src/support_vector_regression_model.cc", "src/fft_manager.cc", "src/libsvm_target_observation_convertor.cc", "src/misc_audio.cc", "src/tflite_quality_mapper.cc"],
  [("transform plans and buffers", "FftManager"), ("models and observations", "SupportVectorRegressionModel"), ("files", "MiscAudio::LoadAsMono, SimilarityResultsWriter")],
  state=[("allocations and open files", "what the process holds", "the process")])

p("C28", "The training scripts turn measurements into the training data they describe",
  "From result files and subjective scores, in any column and row order, the training scripts pair each file's own measured values with its own score, band for band under the right names; exactly the files without a score or with a value that is not a number are left out, and the rest is divided into disjoint training and test sets of the asked ratio, the same ones each time. A libsvm file has one line per row: the score and the numbered per-band similarities in order. The fitted polynomial is the least-squares one, its error counts predictions limited to 1..5, and its scale takes perfect similarity to 5. A lattice model is configured with every feature and every setting as asked, increasing in the similarities and in the quantile, which is in every lattice, and is trained with the quantile loss. Result files written by the program are accepted as they are.",
  ["inputs", "configurations"], "all result and score files, all settings of the scripts",
  "The one test trains on random frames and only asks that something comes out; it needs TensorFlow and is not run here.",
  ["scripts/train_lattice.py", "scripts/make_svm_train_file.py", "scripts/fit_nsim_to_mos_poly.py", "src/include/sim_results_writer.h"],
  [("joining", "merge_fvnsim_and_mos, load_csv_to_data_frame"), ("libsvm lines", "make_svm_train_file.main"), ("polynomial", "PolyFitTrain, PolyFitError, ScaleForPerfectRef"), ("lattices", "make_tau_ensemble_estimator, make_feature_configs, loss_fn")])

p("C29", "The maintenance tools write what they say",
  "The commands the conformance script prints set every score that the conformance test compares to what this version measures with that test's files and settings (model included), whatever the scores before and after, and change nothing else. The TCD-VoIP script lists each reference recording of the dataset once, by its full path and with its own degraded recording, wherever the dataset lies, in the batch format of the program. The conversion script writes the converted model, and nothing else, to the output directory under the name of the model's directory.",
  ["inputs", "configurations"], "all scores, all dataset trees and locations without white space in names, all directory names and models",
  "No test runs these scripts.",
  ["scripts/create_conformance_scores.py", "scripts/make_tcd_voip_batch_csv.sh", "scripts/convert_saved_model_to_tflite.py", "src/include/conformance.h"],
  [("conformance scores", "CASES, RunVisqolWithSettings, RunCases"), ("dataset rows", "ref_paths"), ("converted model", "main")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
