From 610dd66033e02076dac709ef7502fdf43ae65150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 01/35] fix: matrices of different widths are not equal

AMatrix::operator== returned true for matrices with the same number of rows
and different numbers of columns.
---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..bc8f9bd 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From f94d5bfc93b07dabca7189e12bb2b55ce52732bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 02/35] fix: a matrix made from an rvalue vector owns its
 elements

The constructor kept pointing at the vector's storage, which the caller frees
as soon as the vector goes out of scope.
---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index bc8f9bd..8754efc 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,7 +62,7 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From 3b66224a40af36cec2095df738336c9f902f5f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 03/35] fix: WavReader never reads past the end of the data
 chunk

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From 42567e9be850b8c7bbb1418d21edb4ba0d5b4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 04/35] fix: skip the padding byte after WAV chunks of odd size

---
 src/wav_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..f5fd3b4 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -197,6 +197,10 @@ bool WavReader::ParseHeader() {
     }
 
     binary_stream_->seekg(header.data.header.size, std::ios::cur);
+    // Chunks of an odd size are followed by a padding byte.
+    if (header.data.header.size % 2 != 0 && binary_stream_->peek() == 0) {
+      binary_stream_->ignore();
+    }
 
     if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
         sizeof(header.data)) {
-- 
2.43.0


From d84fc52b78a2f43c8a19e5cb8c5702d87544b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 05/35] fix: refuse WAV files that do not hold 16 bit samples

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index f5fd3b4..b3f0935 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From 7166a93c04c7e3168fb879d82aae20823d312205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 06/35] fix: a signal that could not be loaded has a defined
 sample rate

---
 src/include/audio_signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
-- 
2.43.0


From 390f4ad4820631280e176de197e4654b9296e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 07/35] fix: load only the samples a WAV stream really holds,
 in whole frames

---
 src/misc_audio.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/misc_audio.cc b/src/misc_audio.cc
index 9fb14a6..0cc7fad 100644
--- a/src/misc_audio.cc
+++ b/src/misc_audio.cc
@@ -105,9 +105,12 @@ AudioSignal MiscAudio::LoadAsMono(std::stringstream* string_stream,
   const size_t num_total_samples = wav_reader.GetNumTotalSamples();
 
   if (wav_reader.IsHeaderValid() && num_total_samples != 0) {
-    std::vector<int16_t> interleaved_samples(num_total_samples);
-    const auto num_samp_read =
-        wav_reader.ReadSamples(num_total_samples, &interleaved_samples[0]);
+    // The header may claim more samples than the stream holds.
+    std::vector<int16_t> interleaved_samples(
+        std::min(num_total_samples,
+                 1 + string_stream->str().size() / sizeof(int16_t)));
+    const auto num_samp_read = wav_reader.ReadSamples(
+        interleaved_samples.size(), &interleaved_samples[0]);
 
     // Certain wav files are 'mostly valid' and have a slight difference with
     // the reported file length.  Warn for these.
@@ -117,7 +120,10 @@ AudioSignal MiscAudio::LoadAsMono(std::stringstream* string_stream,
                    " number (%lu).",
                    num_samp_read, num_total_samples);
     }
-    if (num_samp_read > 0) {
+    // Only keep the samples that were read and form complete frames.
+    interleaved_samples.resize(num_samp_read -
+                               num_samp_read % wav_reader.GetNumChannels());
+    if (!interleaved_samples.empty()) {
       const auto interleaved_norm_vec =
           MiscMath::NormalizeInt16ToDouble(interleaved_samples);
       const auto multi_chan_norm_vec = ExtractMultiChannel(
-- 
2.43.0


From 2b097ccc194d3dbe5287d09ad68f0901667776a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 08/35] fix: refuse empty input signals

---
 src/visqol_manager.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..c13e2ae 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -239,6 +239,13 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if there is nothing to compare.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0) {
+    return absl::InvalidArgumentError(
+        "Input audio signals must contain at least one sample.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From e551be52c7c6de91c7fa85c5f0cb502feb45940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 09/35] fix: an instance whose re-initialisation failed is not
 initialised

---
 src/visqol_manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index c13e2ae..f1343bb 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -53,6 +53,7 @@ absl::Status VisqolManager::Init(
     const FilePath& similarity_to_quality_mapper_model, bool use_speech_mode,
     bool use_unscaled_speech, int search_window, bool use_lattice_model,
     bool disable_global_alignment, bool disable_realignment) {
+  is_initialized_ = false;
   use_speech_mode_ = use_speech_mode;
   use_unscaled_speech_mos_mapping_ = use_unscaled_speech;
   search_window_ = search_window;
-- 
2.43.0


From d0250334f7b0223e137a2687ba2205e69a10efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 10/35] fix: refuse sample rates too low for the analysis
 window to advance

---
 src/gammatone_spectrogram_builder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index 6314f8e..af13b74 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -55,6 +55,13 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
   // Set up the windowing.
   size_t hop_size = window.size * window.overlap;
 
+  // Ensure that the sample rate allows for a window that can be moved.
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("The sample rate (", sample_rate,
+                     ") is too low to build a spectrogram."));
+  }
+
   // Ensure that the signal is large enough.
   if (sig.NumRows() <= window.size) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From 49b30d51e977af8b0cc0789b843e85fa776eb899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 11/35] fix: refuse speech references too short to hold a patch

---
 src/vad_patch_creator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..0a37e9d 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -18,7 +18,9 @@
 #include <numeric>
 #include <vector>
 
+#include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "amatrix.h"
 #include "analysis_window.h"
 #include "audio_signal.h"
@@ -63,6 +65,13 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
+  // Ensure that the spectrum can support at least a single patch.
+  if (spectrum_length < first_patch_idx + patch_size_) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Reference spectrum size (", spectrum_length,
+                     ") smaller than minimum patch size (",
+                     first_patch_idx + patch_size_, ")."));
+  }
   const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
-- 
2.43.0


From be4a4ac16b40ec209efdf9a2b38f3781b97c2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 12/35] fix: dropping every reference patch does not index
 before the first

---
 src/comparison_patches_selector.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..7547208 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -119,13 +119,11 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
     size_t num_frames_in_deg_spectro, size_t num_frames_per_patch) const {
   size_t num_patches = ref_patch_indices.size();
 
-  if (num_patches) {
-    // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
-      num_patches--;
-    }
+  // The last patch can start up to half a patch away.
+  while (num_patches && ref_patch_indices[num_patches - 1] -
+                                floor(num_frames_per_patch / 2) >
+                            num_frames_in_deg_spectro) {
+    num_patches--;
   }
 
   return num_patches;
-- 
2.43.0


From d09e9b3bc5b42f82cbc5151273b9ddeef898d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 13/35] fix: refuse to match when there are no reference
 patches

---
 src/comparison_patches_selector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 7547208..189a506 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -135,6 +135,11 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
+  // In speech mode, a reference without voice activity has no patches.
+  if (ref_patches.empty()) {
+    return absl::Status(absl::StatusCode::kCancelled,
+                        "There are no reference patches to score.");
+  }
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-- 
2.43.0


From 3914f2fff6fa1b06cabdbde2a9fbb185ccbd2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 14/35] fix: patches are never matched outside of their search
 window

---
 src/comparison_patches_selector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 189a506..7ae4ebf 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -162,9 +162,11 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   }
   // The vector to store the similarity results
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
+  // Offsets outside of the search window of a patch can not be chosen for it.
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From 00e5cac4529ea103c138734ed6795f9bce860fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 15/35] fix: refuse when the search window reaches no degraded
 frame

---
 src/comparison_patches_selector.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 7ae4ebf..9d6b7b4 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -190,7 +190,7 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   int last_index = num_patches - 1;
   // The last_offset stores the offset at which the last reference patch got the
   // maximal similarity score over all the reference patches.
-  int last_offset;
+  int last_offset = -1;
   int lower_limit = std::max(
       0, static_cast<int>(ref_patch_indices[last_index] - search_window));
   // The for loop is used to find the offset which maximizes the similarity
@@ -209,6 +209,12 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
       last_offset = slide_offset;
     }
   }
+  if (last_offset < 0) {
+    return absl::Status(
+        absl::StatusCode::kCancelled,
+        "No part of the degraded file lies within the search window of the "
+        "reference patches.");
+  }
 
   for (int patch_index = num_patches - 1; patch_index >= 0; patch_index--) {
     // This sets the reference and degraded patch start and end times.
-- 
2.43.0


From e221a81217e8e14f8bcdffa9014b4b72c54540a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 16/35] fix: cross-correlate short signals at the size the FFT
 really has

---
 src/xcorr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xcorr.cc b/src/xcorr.cc
index f6745cd..2860492 100644
--- a/src/xcorr.cc
+++ b/src/xcorr.cc
@@ -73,7 +73,8 @@ std::vector<double> XCorr::InverseFFTPointwiseProduct(
   // Calculate how many points in FFT (next ^2 elements)
   int exponent;
   frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);
-  const size_t fft_points = pow(2, exponent);
+  const size_t fft_points =
+      std::max<size_t>(pow(2, exponent), FftManager::kMinFftSize);
 
   // Calculate the pointwise product of the forward fft of both signals.
   auto fft_manager = std::make_unique<FftManager>(fft_points);
-- 
2.43.0


From b3159b5e4dd08a8c9e885efe729a8568e79894e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 17/35] fix: truncate aligned signals at the lag that was
 applied, of either sign

---
 src/alignment.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..70a769c 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -14,6 +14,7 @@
 
 #include "alignment.h"
 
+#include <cmath>
 #include <memory>
 #include <utility>
 
@@ -44,13 +45,13 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
     // that amount should be truncated.
-    new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    const size_t num_zeros =
+        lag > 0 ? std::llround(lag * degraded_signal.sample_rate) : 0;
+    new_reference_matrix =
+        reference_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
-    new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    new_degraded_matrix =
+        degraded_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
   }
 
   AudioSignal new_degraded_signal{new_degraded_matrix,
-- 
2.43.0


From 68fedab3e1ee4878d01ec1832717d1ba7f042589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 18/35] fix: blank and incomplete lines of a batch file are
 passed over

---
 src/commandline_parser.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..57dbc42 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,7 +200,7 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
       std::istringstream in(line);
@@ -208,7 +208,10 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      // Blank and incomplete lines do not name a pair.
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0


From 62d4b6a6ef736f8f3216fffbd1dd9d846def43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 19/35] fix: a model that was never initialised can be
 destroyed

---
 src/support_vector_regression_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..b1ae265 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -28,7 +28,7 @@ namespace Visqol {
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
 SupportVectorRegressionModel::SupportVectorRegressionModel()
-    : observations_ptr_{nullptr}, num_observations_{0} {}
+    : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
 SupportVectorRegressionModel::~SupportVectorRegressionModel() {
   if (model_) {
-- 
2.43.0


From 86898aa38e72b0369c2bf838fc5e768d32ba29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:09 +0000
Subject: [PATCH 20/35] fix: speech patches are laid out by the hop of the
 spectrogram

---
 src/vad_patch_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 0a37e9d..72982e3 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -61,7 +61,7 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
     const AnalysisWindow& window) const {
   const auto norm_mat = MiscMath::Normalize(ref_signal.data_matrix);
   const AudioSignal norm_sig{norm_mat, ref_signal.sample_rate};
-  const double frame_size = window.size * window.overlap;
+  const size_t frame_size = window.size * window.overlap;
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
-- 
2.43.0


From 0957bd6af25b07d6e1084f082697e3ce0bdbcd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:15 +0000
Subject: [PATCH 21/35] fix: refuse unusable sample rates before designing
 filters for them

---
 src/gammatone_spectrogram_builder.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index af13b74..45384b2 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -41,6 +41,16 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
   size_t sample_rate = signal.sample_rate;
   double max_freq = speech_mode_ ? kSpeechModeMaxFreq : sample_rate / 2.0;
 
+  // Set up the windowing.
+  size_t hop_size = window.size * window.overlap;
+
+  // Ensure that the sample rate allows for a window that can be moved.
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("The sample rate (", sample_rate,
+                     ") is too low to build a spectrogram."));
+  }
+
   // Get gammatone coeffients.
   ErbFiltersResult erb_rslt = EquivalentRectangularBandwidth::MakeFilters(
       sample_rate, filter_bank_.GetNumBands(), filter_bank_.GetMinFreq(),
@@ -52,16 +62,6 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
   filter_bank_.SetFilterCoefficients(filter_coeffs);
   filter_bank_.ResetFilterConditions();
 
-  // Set up the windowing.
-  size_t hop_size = window.size * window.overlap;
-
-  // Ensure that the sample rate allows for a window that can be moved.
-  if (hop_size == 0) {
-    return absl::InvalidArgumentError(
-        absl::StrCat("The sample rate (", sample_rate,
-                     ") is too low to build a spectrogram."));
-  }
-
   // Ensure that the signal is large enough.
   if (sig.NumRows() <= window.size) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From ef31c2cc3ae184adc6907015f0578b9791a1e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 22/35] fix: alignment never truncates the whole degraded
 signal

---
 src/alignment.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 70a769c..52d13cb 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -71,8 +71,9 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   int64_t best_lag =
       XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
 
-  // Limit the lag to half a patch.
+  // Limit the lag to half a patch, and to what the degraded signal can lose.
   if (best_lag == 0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows()) ||
       std::abs(best_lag) >
           static_cast<double>(reference_matrix.NumRows()) / 2.0) {
     return std::make_tuple(degraded_signal, 0);
-- 
2.43.0


From 1dcaa60bd4e286cda10465bda2653e3917db6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 23/35] fix: a refused configuration does not change the sample
 rate in use

---
 src/visqol_api.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 42a6b17..fc18f34 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -41,10 +41,10 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // Read the sample rate for the input signals.
   // The sample rate must be the same for both signals.
   auto audio_info = config.audio();
-  sample_rate_ = audio_info.sample_rate();
+  const size_t sample_rate = audio_info.sample_rate();
 
   // Ensure a sample rate value was provided.
-  if (sample_rate_ == 0) {
+  if (sample_rate == 0) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
                         "The sample rate for the signals must be set.");
   }
@@ -82,7 +82,7 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // specific frequencies (the bands are independent of sample rate, unlike how
   // visqolaudio works). It seems like if we did this for Visqol we could
   // support arbitrary sample rates.
-  if (sample_rate_ != k48kSampleRate && speech_mode == false &&
+  if (sample_rate != k48kSampleRate && speech_mode == false &&
       allow_sr_override == false) {
     return absl::Status(
         absl::StatusCode::kInvalidArgument,
@@ -95,6 +95,8 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
                                       unscaled_speech_map, search_window,
                                       use_lattice_model));
 
+  // Only a configuration that was accepted applies to later measurements.
+  sample_rate_ = sample_rate;
   return absl::Status();
 }
 
-- 
2.43.0


From 3def1fec7df034f0de7df2aea75bdda272cb0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:12 +0000
Subject: [PATCH 24/35] fix: extensible wav files without a fact chunk are
 decoded

---
 src/wav_reader.cc | 31 ++-----------------------------
 1 file changed, 2 insertions(+), 29 deletions(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index b3f0935..cfd3efe 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -141,34 +141,6 @@ bool WavReader::ParseHeader() {
       }
     }
   }
-  if (header.format.format_tag == kExtensibleWavFormat) {
-    // Skip extensible wav format "fact" header.
-    ChunkHeader fact_header;
-    if (ReadBinaryDataFromStream(&fact_header, sizeof(fact_header)) !=
-        sizeof(fact_header)) {
-      ABSL_RAW_LOG(ERROR,
-                   "Error parsing WAV Header - Error reading 'fact'"
-                   " header");
-      return false;
-    }
-    if (std::string(fact_header.id, 4) != "fact") {
-      ABSL_RAW_LOG(ERROR,
-                   "Error parsing WAV Header - Incorrect 'fact' header"
-                   " id");
-      return false;
-    }
-    int8_t fact_data;
-    for (size_t i = 0; i < static_cast<size_t>(fact_header.size); ++i) {
-      if (ReadBinaryDataFromStream(&fact_data, sizeof(fact_data)) !=
-          sizeof(fact_data)) {
-        ABSL_RAW_LOG(ERROR,
-                     "Error parsing WAV Header - Error reading 'fact'"
-                     " data");
-        return false;
-      }
-    }
-  }
-
   num_channels_ = header.format.num_channels;
   sample_rate_hz_ = header.format.samples_rate;
 
@@ -178,7 +150,8 @@ bool WavReader::ParseHeader() {
     return false;
   }
 
-  // Read chunks until we find the 'data' chunk
+  // Read chunks until we find the 'data' chunk. This skips the "fact" chunk
+  // that an extensible wav format may have.
   if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
       sizeof(header.data)) {
     ABSL_RAW_LOG(ERROR,
-- 
2.43.0


From 5afb4261d4071008d3ad17d0e1d0ce40c633fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:27 +0000
Subject: [PATCH 25/35] fix: extensible wav files with another encoding than
 PCM are refused

---
 src/wav_reader.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index cfd3efe..6318860 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -71,6 +71,9 @@ static_assert(sizeof(WavHeader) == kWavHeaderSize,
 // Supported WAV encoding formats.
 static const uint16_t kExtensibleWavFormat = 0xfffe;
 static const uint16_t kPcmFormat = 0x1;
+
+// Where the encoding is found in the extension of an extensible format.
+static const size_t kSubFormatOffset = 6;
 }  // namespace
 
 WavReader::WavReader(std::istream* binary_stream)
@@ -119,6 +122,8 @@ bool WavReader::ParseHeader() {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Incorrect format size.");
     return false;
   }
+  // The encoding that an extensible format declares in its extension.
+  uint16_t sub_format_tag = kPcmFormat;
   if (format_size != kFormatSubChunkHeader) {
     // Parse optional extension fields.
     int16_t extension_size;
@@ -129,7 +134,7 @@ bool WavReader::ParseHeader() {
                    " size");
       return false;
     }
-    int8_t extension_data;
+    uint8_t extension_data;
 
     for (size_t i = 0; i < static_cast<size_t>(extension_size); ++i) {
       if (ReadBinaryDataFromStream(&extension_data, sizeof(extension_data)) !=
@@ -139,6 +144,11 @@ bool WavReader::ParseHeader() {
                      " data");
         return false;
       }
+      if (i == kSubFormatOffset) {
+        sub_format_tag = extension_data;
+      } else if (i == kSubFormatOffset + 1) {
+        sub_format_tag |= extension_data << 8;
+      }
     }
   }
   num_channels_ = header.format.num_channels;
@@ -192,6 +202,8 @@ bool WavReader::ParseHeader() {
       bytes_in_payload % bytes_per_sample_ != 0 ||
       (header.format.format_tag != kPcmFormat &&
        header.format.format_tag != kExtensibleWavFormat) ||
+      (header.format.format_tag == kExtensibleWavFormat &&
+       sub_format_tag != kPcmFormat) ||
       (std::string(header.riff.header.id, 4) != "RIFF") ||
       (std::string(header.riff.format, 4) != "WAVE") ||
       (std::string(header.format.header.id, 4) != "fmt ") ||
-- 
2.43.0


From e8694aa771c6e9f8ac051753d1c40d66bdfd3ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 26/35] fix: take the fvnsim columns by name when making an svm
 training file

The results file has further columns (moslqo, fvnsim10_, fstdnsim,
fvdegenergy), and the file with the scores may have some too; each made the
script look for a band that does not exist.
---
 scripts/make_svm_train_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scripts/make_svm_train_file.py b/scripts/make_svm_train_file.py
index 30bc313..809e647 100644
--- a/scripts/make_svm_train_file.py
+++ b/scripts/make_svm_train_file.py
@@ -34,6 +34,8 @@ libsvm-3.24/tools/grid.py -v 4 -log2c -5,15,1 -log2g -5,10,1. -s 4 -t 2 -n .568
 You can repeat the process with finer and finer searches using -log2{c,g}, and then create the final model by using the parameters:
 libsvm-3.24/svm-train -s 4 -t 2 -n .568 -c 5.31474325639 -g 3.17773760038 file_created_by_make_svm_train_file.txt output_model_file_usable_with_visqols_similarity_to_quality_model_flag.txt
 """
+import re
+
 import pandas as pd
 
 from absl import app
@@ -56,14 +58,16 @@ def main(argv):
   fvnsims_df = pd.read_csv(FLAGS.results_csv_path)
   moslqs = pd.read_csv(FLAGS.moslqs_csv_path)
 
-  # Remove the ViSQOL reference,degraded columns that come before the nsim.
-  fvnsims_cols = fvnsims_df[fvnsims_df.columns[2:]]
+  # Keep only the fvnsim columns, in the order of their bands.
+  num_bands = sum(
+      1 for name in fvnsims_df.columns if re.fullmatch(r'fvnsim\d+', name))
+  fvnsims_cols = fvnsims_df[['fvnsim{}'.format(i) for i in range(num_bands)]]
   merged = moslqs.join(fvnsims_cols)
 
   for index, row in merged.iterrows():
     label_str = str(row['moslqs'])
     # Gather the fvnsims in 1:fvnsim0, 2:fvnsim1 format
-    input_str = ''.join([' {}:{}'.format(i + 1, row['fvnsim'+str(i)]) for i in range(len(row) - 1)])
+    input_str = ''.join([' {}:{}'.format(i + 1, row['fvnsim'+str(i)]) for i in range(num_bands)])
     print(label_str + input_str)
 
 
-- 
2.43.0


From 0e925451e4083088593d13f0f2d49eb2b472e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 27/35] fix: let fit_nsim_to_mos_poly run under Python 3

csv needs text files, dictionaries have no iteritems, and a sample can only be
taken of a sequence.
---
 scripts/fit_nsim_to_mos_poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/fit_nsim_to_mos_poly.py b/scripts/fit_nsim_to_mos_poly.py
index 90022ef..a6eb8eb 100644
--- a/scripts/fit_nsim_to_mos_poly.py
+++ b/scripts/fit_nsim_to_mos_poly.py
@@ -82,7 +82,7 @@ def LoadVNSIM(nsim_csv):
   """
   nsim_dict = {}
 
-  with open(nsim_csv, 'rb') as csvfile:
+  with open(nsim_csv, 'r') as csvfile:
     nsim_reader = csv.reader(csvfile)
     for row in nsim_reader:
       # Skip header
@@ -105,7 +105,7 @@ def LoadMOS(mos_csv):
     Dictionary with filename keys and MOS values
   """
   mos_dict = {}
-  with open(mos_csv, 'rb') as csvfile:
+  with open(mos_csv, 'r') as csvfile:
     mos_reader = csv.reader(csvfile)
     for row in mos_reader:
       # Skip header
@@ -129,7 +129,7 @@ def MergeVNSIMAndMOS(mos_dict, nsim_dict):
   # NSIM keys are full paths, wheras MOS keys are filenames
   merged_dict = {}
 
-  for nsim_key, nsim_value in nsim_dict.iteritems():
+  for nsim_key, nsim_value in nsim_dict.items():
     # Some nsim values are NaN, skip those.
     if nsim_value == 'nan':
       logging.warn('skipping nan nsim key %s', nsim_key)
@@ -219,7 +219,7 @@ def main(argv):
 
   logging.debug('merged dict: %s', merged_dict)
 
-  merged_list = merged_dict.items()
+  merged_list = list(merged_dict.items())
   train_list = random.sample(merged_list,
                              int(len(merged_list) * FLAGS.train_set_ratio))
   test_list = [x for x in merged_list if x not in train_list]
-- 
2.43.0


From 4895a508b8afca635dd0b595028ce8242f0ddd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:30 +0000
Subject: [PATCH 28/35] fix: quote file names with commas, quotes or line
 breaks in the results CSV

Such a name split its row into more columns than the header has.
---
 src/include/sim_results_writer.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/include/sim_results_writer.h b/src/include/sim_results_writer.h
index c2b7307..da74747 100644
--- a/src/include/sim_results_writer.h
+++ b/src/include/sim_results_writer.h
@@ -193,6 +193,28 @@ class SimilarityResultsWriter {
     }
   }
 
+  /**
+   * Quote a text field of a CSV file where it would not be read back as one
+   * field with this content otherwise.
+   *
+   * @param field The content of the field.
+   *
+   * @return The field as it is written to the file.
+   */
+  static std::string FormatCSVField(const std::string& field) {
+    if (field.find_first_of(",\"\r\n") == std::string::npos) {
+      return field;
+    }
+    std::string quoted = "\"";
+    for (const char c : field) {
+      if (c == '"') {
+        quoted += '"';
+      }
+      quoted += c;
+    }
+    return quoted + "\"";
+  }
+
   /**
    * Write the reference and degraded filepath, along with the resulting
    * MOS-LQO from their comparison, to a CSV file.
@@ -243,8 +265,8 @@ class SimilarityResultsWriter {
       out_file << std::endl;
     }
 
-    out_file << sim_res_msg.reference_filepath() << ","
-             << sim_res_msg.degraded_filepath();
+    out_file << FormatCSVField(sim_res_msg.reference_filepath()) << ","
+             << FormatCSVField(sim_res_msg.degraded_filepath());
 
     if (output_moslqo) {
       out_file << "," << std::setprecision(9) << sim_res_msg.moslqo();
-- 
2.43.0


From 77c78a935d4ddc1515cec84fd99df331f7db44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:49 +0000
Subject: [PATCH 29/35] fix: give create_conformance_scores.py the binding's
 arguments and the lattice model

---
 scripts/create_conformance_scores.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scripts/create_conformance_scores.py b/scripts/create_conformance_scores.py
index 9684680..4426d6a 100644
--- a/scripts/create_conformance_scores.py
+++ b/scripts/create_conformance_scores.py
@@ -23,6 +23,7 @@ from google3.third_party.visqol.src.proto import similarity_result_pb2
 # The search window radius is constant through the test cases.
 SEARCH_WINDOW_RADIUS = 60
 SVR_MODEL_FILE = 'google3/third_party/visqol/model/libsvm_nu_svr_model.txt'
+LATTICE_MODEL_FILE = 'google3/third_party/visqol/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite'
 
 
 @dataclasses.dataclass
@@ -141,13 +142,13 @@ CASES = [
 
 
 def RunVisqolWithSettings(
-    reference_file: str, degraded_file: str, svr_model_file: str,
+    reference_file: str, degraded_file: str, model_file: str,
     use_speech_mode: bool, use_unscaled_speech_mos_mapping: bool,
     search_window_radius: int,
     use_lattice_model: bool) -> similarity_result_pb2.SimilarityResultMsg:
   """Runs Visqol with settings that match the conformance test."""
   files_dir = resources.GetARootDirWithAllResources()
-  model_path = visqol_lib_py.FilePath(os.path.join(files_dir, svr_model_file))
+  model_path = visqol_lib_py.FilePath(os.path.join(files_dir, model_file))
 
   # The ConformanceCase file relative paths are missing a 'google3' to match
   # the cpp relative paths in conformance_test.cpp, so add it here.
@@ -158,15 +159,19 @@ def RunVisqolWithSettings(
   # Initialize a fresh VisqolManager instead of reusing the previous one.
   manager = visqol_lib_py.VisqolManager()
   manager.Init(model_path, use_speech_mode, use_unscaled_speech_mos_mapping,
-               search_window_radius, use_lattice_model)
+               search_window_radius, use_lattice_model,
+               False,  # disable_global_alignment
+               False)  # disable_realignment
   similarity_result = manager.Run(ref_path, deg_path)
   return similarity_result
 
 
 def RunCases(cases: Sequence[ConformanceCase]) -> None:
   for case in cases:
+    model_file = (
+        LATTICE_MODEL_FILE if case.use_lattice_model else SVR_MODEL_FILE)
     result = RunVisqolWithSettings(case.reference_file, case.degraded_file,
-                                   SVR_MODEL_FILE, case.use_speech_mode,
+                                   model_file, case.use_speech_mode,
                                    case.use_unscaled_speech_mos_mapping,
                                    SEARCH_WINDOW_RADIUS, case.use_lattice_model)
     score = result.moslqo
-- 
2.43.0


From 4ff477526be1e2e07ced3797d00388afe36e6a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:20 +0000
Subject: [PATCH 30/35] fix: list the right files when the TCD-VoIP dataset
 lies below a directory named ref

---
 scripts/make_tcd_voip_batch_csv.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/make_tcd_voip_batch_csv.sh b/scripts/make_tcd_voip_batch_csv.sh
index 1eb2d28..0a9e9bd 100644
--- a/scripts/make_tcd_voip_batch_csv.sh
+++ b/scripts/make_tcd_voip_batch_csv.sh
@@ -26,7 +26,7 @@
 # 4. run the script and pipe the output to myvalues.csv
 #
 # Ref paths are always in /ref/ subdir of the degraded category
-ref_paths="$(find "$(pwd -P)/Test_Set" -name "*.wav"| grep /ref/)"
+ref_paths="$(find "$(pwd -P)/Test_Set" -name "*.wav"| grep '/ref/R_[^/]*$')"
 
 # Degraded paths don't have the /ref subdir
 found_degraded_paths="$(find "Test_Set" -name "*.wav"| grep -v /ref/)"
@@ -39,5 +39,5 @@ echo reference, degraded
 
 for path in ${ref_paths};
 do
-  echo "${path}","$(echo ${path}| sed -e 's/\/ref\/R_/\/C_/')";
+  echo "${path}","$(echo ${path}| sed -e 's/\/ref\/R_\([^/]*\)$/\/C_\1/')";
 done
-- 
2.43.0


From 9aa1ff9ec32ff432dbe64870371e13047656a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:20 +0000
Subject: [PATCH 31/35] fix: name the TFLite model after a directory given with
 a trailing slash

---
 scripts/convert_saved_model_to_tflite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_saved_model_to_tflite.py b/scripts/convert_saved_model_to_tflite.py
index 3afc0fe..562f777 100644
--- a/scripts/convert_saved_model_to_tflite.py
+++ b/scripts/convert_saved_model_to_tflite.py
@@ -28,7 +28,7 @@ def main(_):
   # Save the model.  Use the saved model directory name as the basename.
   output_path = os.path.join(
       FLAGS.output_dir,
-      os.path.basename(FLAGS.saved_model_dir) + '.tflite')
+      os.path.basename(os.path.normpath(FLAGS.saved_model_dir)) + '.tflite')
 
   with open(output_path, 'wb') as f:
     f.write(tflite_model)
-- 
2.43.0


From b240bf4b5e2d02b02854b6e4037538b64681d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:08 +0000
Subject: [PATCH 32/35] fix: free the former support vector model when another
 is trained or loaded

---
 src/include/support_vector_regression_model.h |  5 +++++
 src/support_vector_regression_model.cc        | 21 +++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index 57c131a..456b982 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -72,6 +72,11 @@ class SupportVectorRegressionModel {
   double Predict(const MlObservation& observation) const;
 
  private:
+  /**
+   * Frees the model, and the observations that it was trained with.
+   */
+  void Clear();
+
   /**
    * The svm model provided by the LIBSVM library.
    */
diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index b1ae265..36ab82e 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -30,21 +30,28 @@ absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 SupportVectorRegressionModel::SupportVectorRegressionModel()
     : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
-SupportVectorRegressionModel::~SupportVectorRegressionModel() {
+SupportVectorRegressionModel::~SupportVectorRegressionModel() { Clear(); }
+
+void SupportVectorRegressionModel::Clear() {
   if (model_) {
     svm_free_model_content(model_);
     svm_free_and_destroy_model(&model_);
-    // Free the 2D array of observations.
-    for (size_t i = 0; i < num_observations_; ++i) {
-      free(observations_ptr_[i]);
-    }
-    free(observations_ptr_);
+    model_ = nullptr;
+  }
+  // Free the 2D array of observations.
+  for (size_t i = 0; i < num_observations_; ++i) {
+    free(observations_ptr_[i]);
   }
+  free(observations_ptr_);
+  observations_ptr_ = nullptr;
+  num_observations_ = 0;
 }
 
 void SupportVectorRegressionModel::Init(
     const std::vector<MlObservation>& observations,
     const std::vector<MlTarget>& targets) {
+  Clear();
+
   // Assumes all observations have same number of features
   size_t num_features = observations[0].size();
 
@@ -97,6 +104,8 @@ double SupportVectorRegressionModel::Predict(
 }
 
 absl::Status SupportVectorRegressionModel::Init(const FilePath& model_path) {
+  Clear();
+
   absl::MutexLock lock(&load_model_mutex_);
   model_ = svm_load_model(model_path.Path().c_str());
 
-- 
2.43.0


From 5add33791caeeeb0ff5519cb3bea14df3a58300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:32 +0000
Subject: [PATCH 33/35] fix: search the whole degraded signal when the search
 radius is beyond its length

---
 src/comparison_patches_selector.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 9d6b7b4..4ae979e 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -16,6 +16,8 @@
 
 #include <assert.h>
 
+#include <algorithm>
+#include <cstdint>
 #include <limits>
 #include <memory>
 #include <utility>
@@ -143,7 +145,13 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-  const int search_window = search_window_radius * num_frames_per_patch;
+  // No frame lies further away than this, however wide the window.
+  const int64_t max_search_window =
+      std::max(ref_patch_indices.back(), num_frames_in_deg_spectro);
+  const int search_window = static_cast<int>(std::max<int64_t>(
+      -1, std::min(max_search_window,
+                   static_cast<int64_t>(search_window_radius) *
+                       static_cast<int64_t>(num_frames_per_patch))));
   const size_t num_patches = CalcMaxNumPatches(
       ref_patch_indices, num_frames_in_deg_spectro, num_frames_per_patch);
 
-- 
2.43.0


From 75e4d0a9e2519f4437a92b8f8fa54f6e5d1c9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:31 +0000
Subject: [PATCH 34/35] fix: decode wav files with other chunks before the
 format

---
 src/wav_reader.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 6318860..b5fddb8 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -114,6 +114,28 @@ bool WavReader::ParseHeader() {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header.");
     return false;
   }
+  // Skip the chunks that some files, such as broadcast ones, have before the
+  // format. As much of them as the format would take has been read.
+  while (std::string(header.format.header.id, 4) != "fmt ") {
+    const int64_t next_chunk =
+        static_cast<int64_t>(binary_stream_->tellg()) -
+        static_cast<int64_t>(sizeof(WavFormat) - sizeof(ChunkHeader)) +
+        static_cast<int64_t>(header.format.header.size);
+    if (next_chunk > bytes_in_stream_) {
+      ABSL_RAW_LOG(ERROR, "Error parsing WAV Header.");
+      return false;
+    }
+    binary_stream_->seekg(next_chunk);
+    // Chunks of an odd size are followed by a padding byte.
+    if (header.format.header.size % 2 != 0 && binary_stream_->peek() == 0) {
+      binary_stream_->ignore();
+    }
+    if (ReadBinaryDataFromStream(&header.format, sizeof(header.format)) !=
+        sizeof(header.format)) {
+      ABSL_RAW_LOG(ERROR, "Error parsing WAV Header.");
+      return false;
+    }
+  }
   const uint32_t format_size = header.format.header.size;
   // Size of |WavFormat| without |ChunkHeader|.
   static const uint32_t kFormatSubChunkHeader =
-- 
2.43.0


From 9e2203cba19cfeb25c475632a8b6ebf137025607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:31 +0000
Subject: [PATCH 35/35] fix: mix signals of several channels in memory down as
 those of files

---
 src/include/misc_audio.h | 2 +-
 src/visqol_manager.cc    | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/misc_audio.h b/src/include/misc_audio.h
index 1c1a1cc..1c5eb69 100644
--- a/src/include/misc_audio.h
+++ b/src/include/misc_audio.h
@@ -98,7 +98,6 @@ class MiscAudio {
   static void PrepareSpectrogramsForComparison(Spectrogram& reference,
                                                Spectrogram& degraded);
 
- private:
   /**
    * For a given audio signal, downmix it to mono. If already mono, no work is
    * performed. The downmixing is performed by simply averaging the value of
@@ -112,6 +111,7 @@ class MiscAudio {
    */
   static AudioSignal ToMono(const AudioSignal& signal);
 
+ private:
   /**
    * For a given data matrix, downmix it to mono. If already mono, no work is
    * performed. The downmixing is performed by simply averaging the value of
diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index f1343bb..e367d6e 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -158,6 +158,14 @@ absl::StatusOr<SimilarityResultMsg> VisqolManager::Run(
   // Ensure the initialization succeeded.
   VISQOL_RETURN_IF_ERROR(ErrorIfNotInitialized());
 
+  // Signals of several channels are mixed down, as those of files are.
+  if (ref_signal.data_matrix.NumCols() > MiscAudio::kNumChanMono) {
+    return Run(MiscAudio::ToMono(ref_signal), deg_signal);
+  }
+  if (deg_signal.data_matrix.NumCols() > MiscAudio::kNumChanMono) {
+    deg_signal = MiscAudio::ToMono(deg_signal);
+  }
+
   VISQOL_RETURN_IF_ERROR(ValidateInputAudio(ref_signal, deg_signal));
 
   std::tuple<AudioSignal, double> alignment_result;
-- 
2.43.0

