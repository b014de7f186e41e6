From 482938c946a194b4b11d18bd891057a8080948f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/22] fix: matrices with different column counts do not
 compare equal

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..bc8f9bd 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From 976a697c278a88d5558929e7f1f907bf39c0323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 02/22] fix: a matrix built from a temporary vector owns its
 elements

---
 src/amatrix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index bc8f9bd..c083d43 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,7 +62,8 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  // The matrix must own its elements: data dies before the matrix does.
+  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From a6d5138b298eea3eed6e350c93b6519fa37505cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:09 +0000
Subject: [PATCH 03/22] fix: blank or incomplete lines of a batch file are
 skipped

---
 src/commandline_parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..2bf4c98 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,15 +200,24 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
+      // Skip blank lines, e.g. at the end of the file.
+      if (line.empty()) {
+        continue;
+      }
       std::istringstream in(line);
 
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      } else {
+        ABSL_RAW_LOG(ERROR, "Skipping batch line without two paths: %s",
+                     line.c_str());
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0


From dab6b5cfe80f9bcc34fa86cf7395c5c07f2d8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 04/22] fix: members that could be read before they were set
 have initial values

---
 src/include/audio_channel.h                   |  4 ++--
 src/include/audio_signal.h                    |  2 +-
 src/include/commandline_parser.h              |  4 ++--
 src/include/patch_similarity_comparator.h     | 10 +++++-----
 src/include/similarity_result.h               |  6 +++---
 src/include/support_vector_regression_model.h |  2 +-
 src/include/visqol_api.h                      |  2 +-
 src/include/wav_reader.h                      |  2 +-
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/include/audio_channel.h b/src/include/audio_channel.h
index 1d68210..a581805 100644
--- a/src/include/audio_channel.h
+++ b/src/include/audio_channel.h
@@ -125,12 +125,12 @@ class AudioChannel {
   /**
    *  Pointer to first element in the buffer.
    */
-  float* begin_itr_;
+  float* begin_itr_ = nullptr;
 
   /**
    * The number of samples in this AudioChannel.
    */
-  size_t size_;
+  size_t size_ = 0;
 };
 }  // namespace Visqol
 
diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
diff --git a/src/include/commandline_parser.h b/src/include/commandline_parser.h
index 7c73a88..5976592 100644
--- a/src/include/commandline_parser.h
+++ b/src/include/commandline_parser.h
@@ -110,12 +110,12 @@ struct CommandLineArgs {
   /**
   * If true, disables global alignment.
   **/
-  bool disable_global_alignment;
+  bool disable_global_alignment = false;
 
   /**
   * If true, disables patch-wise realignment.
   **/
-  bool disable_realignment;
+  bool disable_realignment = false;
 };
 
 /**
diff --git a/src/include/patch_similarity_comparator.h b/src/include/patch_similarity_comparator.h
index d1bddd2..5413b92 100644
--- a/src/include/patch_similarity_comparator.h
+++ b/src/include/patch_similarity_comparator.h
@@ -52,27 +52,27 @@ struct PatchSimilarityResult {
    * The similarity score following a comparison between a single reference
    * patch and a single degraded patch.
    */
-  double similarity;
+  double similarity = 0.0;
 
   /**
    * The time (in sec) where this patch starts in the reference signal.
    */
-  double ref_patch_start_time;
+  double ref_patch_start_time = 0.0;
 
   /**
    * The time (in sec) where this patch end in the reference signal.
    */
-  double ref_patch_end_time;
+  double ref_patch_end_time = 0.0;
 
   /**
    * The time (in sec) where this patch starts in the degraded signal.
    */
-  double deg_patch_start_time;
+  double deg_patch_start_time = 0.0;
 
   /**
    * The time (in sec) where this patch ends in the degraded signal.
    */
-  double deg_patch_end_time;
+  double deg_patch_end_time = 0.0;
 };
 
 /**
diff --git a/src/include/similarity_result.h b/src/include/similarity_result.h
index 911e01e..203a15e 100644
--- a/src/include/similarity_result.h
+++ b/src/include/similarity_result.h
@@ -43,12 +43,12 @@ struct SimilarityResult {
    * The predicted Mean Opinion Score - Listening Quality Objective (scored 1
    * to 5)
    */
-  double moslqo;
+  double moslqo = 0.0;
 
   /**
    * The mean of the FVNSIM values.
    */
-  double vnsim;
+  double vnsim = 0.0;
 
   /**
    * Represents the similarity between the two signals for each frequency band
@@ -105,7 +105,7 @@ struct SimilarityResult {
    * If the degraded audio was additionally aligned, this will store the value
    * received from alignment.cc
    */
-  double alignment_lag_s;
+  double alignment_lag_s = 0.0;
 };
 }  // namespace Visqol
 
diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index 57c131a..db9d880 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -75,7 +75,7 @@ class SupportVectorRegressionModel {
   /**
    * The svm model provided by the LIBSVM library.
    */
-  svm_model* model_;
+  svm_model* model_ = nullptr;
 
   /**
    * Accessing the LibSVM external libraries for loading the model must be
diff --git a/src/include/visqol_api.h b/src/include/visqol_api.h
index d3d31a5..d39427e 100644
--- a/src/include/visqol_api.h
+++ b/src/include/visqol_api.h
@@ -74,7 +74,7 @@ class VisqolApi {
   /**
    * The sample rate of the input signals to be compared.
    */
-  size_t sample_rate_;
+  size_t sample_rate_ = 0;
 };
 }  // namespace Visqol
 
diff --git a/src/include/wav_reader.h b/src/include/wav_reader.h
index 50f07c7..3c7949d 100644
--- a/src/include/wav_reader.h
+++ b/src/include/wav_reader.h
@@ -131,7 +131,7 @@ class WavReader {
   /**
    * Bytes per sample as defined in the WAV header.
    */
-  size_t bytes_per_sample_;
+  size_t bytes_per_sample_ = 0;
 
   /**
    * Offset into data stream where PCM data begins.
-- 
2.43.0


From 89af4ed42cb31ac80d09e41f0eaa57b869b39e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 05/22] fix: WavReader::ReadSamples stops at the end of the
 data chunk

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From 44af28f277dbc3d0f2aa130ad2d986712256124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 06/22] fix: the duration of a WAV file without channels is
 zero

---
 src/wav_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..1027936 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -256,6 +256,10 @@ int WavReader::GetSampleRateHz() const { return sample_rate_hz_; }
 bool WavReader::IsHeaderValid() const { return init_; }
 
 double WavReader::GetDuration() const {
+  if (num_channels_ == 0) {
+    // The header could not be parsed.
+    return 0.0;
+  }
   return ((num_total_samples_ / num_channels_) /
           static_cast<double>(sample_rate_hz_));
 }
-- 
2.43.0


From eff42058da02037848a009d84d11e26bb8340392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 07/22] fix: a failed re-initialization leaves the manager
 uninitialized

---
 src/visqol_manager.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..7158dec 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -53,6 +53,8 @@ absl::Status VisqolManager::Init(
     const FilePath& similarity_to_quality_mapper_model, bool use_speech_mode,
     bool use_unscaled_speech, int search_window, bool use_lattice_model,
     bool disable_global_alignment, bool disable_realignment) {
+  // A failure below must not leave an earlier initialization in effect.
+  is_initialized_ = false;
   use_speech_mode_ = use_speech_mode;
   use_unscaled_speech_mos_mapping_ = use_unscaled_speech;
   search_window_ = search_window;
-- 
2.43.0


From 1f267e9500e0dcc243c71167efb2663385bd7df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 08/22] fix: signals that are empty or failed to load are
 refused

---
 src/visqol_manager.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 7158dec..96cea33 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -241,6 +241,13 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if either signal is empty, e.g. because its file failed to load.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0) {
+    return absl::InvalidArgumentError(
+        "The reference or degraded signal could not be loaded or is empty.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From d4c1c3e8c75d0567cec425a5eb4ae918d5d3aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 09/22] fix: sample rates too low for the analysis window are
 refused

---
 src/gammatone_spectrogram_builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index 6314f8e..2966040 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -62,6 +62,12 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
                      ") in signal to  build spectrogram (", window.size,
                      " required minimum)."));
   }
+  // Ensure that the window can be moved.
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("The sample rate (", sample_rate,
+                     ") is too low to build a spectrogram."));
+  }
   size_t num_cols = 1 + floor((sig.NumRows() - window.size) / hop_size);
   AMatrix<double> out_matrix(filter_bank_.GetNumBands(), num_cols);
 
-- 
2.43.0


From 37f646562ae7b9ccdce5e46672395abfe9b8150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 10/22] fix: references shorter than one speech patch are
 refused

---
 src/vad_patch_creator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..d0f2866 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -18,7 +18,9 @@
 #include <numeric>
 #include <vector>
 
+#include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "amatrix.h"
 #include "analysis_window.h"
 #include "audio_signal.h"
@@ -57,6 +59,13 @@ std::vector<double> VadPatchCreator::GetVoiceActivity(
 absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
     const AMatrix<double>& spectrogram, const AudioSignal& ref_signal,
     const AnalysisWindow& window) const {
+  // Ensure that the spectrum is at least as big as the first patch.
+  if (spectrogram.NumCols() < patch_size_ / 2 - 1 + patch_size_) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Reference spectrum size (", spectrogram.NumCols(),
+                     ") smaller than minimum patch size (",
+                     patch_size_ / 2 - 1 + patch_size_, ")."));
+  }
   const auto norm_mat = MiscMath::Normalize(ref_signal.data_matrix);
   const AudioSignal norm_sig{norm_mat, ref_signal.sample_rate};
   const double frame_size = window.size * window.overlap;
-- 
2.43.0


From ee1cba2908973cf4027712532021344b0356805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 11/22] fix: voice activity frames stay within the signal at
 any sample rate

---
 src/vad_patch_creator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index d0f2866..a09a717 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -68,7 +68,8 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   }
   const auto norm_mat = MiscMath::Normalize(ref_signal.data_matrix);
   const AudioSignal norm_sig{norm_mat, ref_signal.sample_rate};
-  const double frame_size = window.size * window.overlap;
+  // Frames are whole samples, as they are in the spectrogram.
+  const size_t frame_size = window.size * window.overlap;
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
-- 
2.43.0


From 3bcc93acb227d20e1225acec8aa389dc34359761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 12/22] fix: no access to patches that are not there

---
 src/comparison_patches_selector.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..cb25a89 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -121,9 +121,10 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
 
   if (num_patches) {
     // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
+    while (num_patches > 0 &&
+           ref_patch_indices[num_patches - 1] -
+                   floor(num_frames_per_patch / 2) >
+               num_frames_in_deg_spectro) {
       num_patches--;
     }
   }
@@ -137,6 +138,10 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
+  if (ref_patches.empty()) {
+    return absl::Status(absl::StatusCode::kCancelled,
+                        "No reference patch was selected to be scored.");
+  }
   const size_t num_frames_per_patch = ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
-- 
2.43.0


From 47e1de5b6e8896446c76a4c745b2be7666966dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 13/22] fix: an empty search window ends in an error

---
 src/comparison_patches_selector.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index cb25a89..e315615 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -190,7 +190,7 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   int last_index = num_patches - 1;
   // The last_offset stores the offset at which the last reference patch got the
   // maximal similarity score over all the reference patches.
-  int last_offset;
+  int last_offset = -1;
   int lower_limit = std::max(
       0, static_cast<int>(ref_patch_indices[last_index] - search_window));
   // The for loop is used to find the offset which maximizes the similarity
@@ -210,6 +210,12 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     }
   }
 
+  if (last_offset < 0) {
+    return absl::Status(absl::StatusCode::kCancelled,
+                        "No degraded patch lies within the search window of "
+                        "the last reference patch.");
+  }
+
   for (int patch_index = num_patches - 1; patch_index >= 0; patch_index--) {
     // This sets the reference and degraded patch start and end times.
     ImagePatch ref_patch = ref_patches[patch_index];
-- 
2.43.0


From a62faf8dfb51c318ad5c291dd8b62edba5408212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 14/22] fix: truncating after a negative lag stays within the
 signals

---
 src/alignment.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..306190b 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -43,13 +43,14 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
         reference_matrix.GetRows(0, degraded_matrix.NumRows() - 1);
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
-    // that amount should be truncated.
+    // that amount should be truncated. For other lags there are no zeros.
+    const double padding = lag > 0.0 ? lag : 0.0;
     new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
+        static_cast<int>(padding * reference_signal.sample_rate),
         reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
     new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
+        static_cast<int>(padding * degraded_signal.sample_rate),
         reference_matrix.NumRows() - 1);
   }
 
-- 
2.43.0


From 1386b0081e0386cc80c51629747293166d7133b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 15/22] fix: every quality mapper predicts a score from 1 to 5,
 never NaN

---
 src/speech_similarity_to_quality_mapper.cc | 4 ++--
 src/svr_similarity_to_quality_mapper.cc    | 3 ++-
 src/tflite_quality_mapper.cc               | 6 +++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/speech_similarity_to_quality_mapper.cc b/src/speech_similarity_to_quality_mapper.cc
index 40de9e0..1c1d15c 100644
--- a/src/speech_similarity_to_quality_mapper.cc
+++ b/src/speech_similarity_to_quality_mapper.cc
@@ -53,7 +53,7 @@ double SpeechSimilarityToQualityMapper::PredictQuality(
 
   float scale = scale_to_max_mos_ ? kFitScale : 1.0;
 
-  // Clamp to 1-5 range
-  return std::min(std::max(mos * scale, 1.), 5.);
+  // Clamp to 1-5 range. The limit comes first, so that NaN becomes 1 as well.
+  return std::min(5., std::max(1., mos * scale));
 }
 }  // namespace Visqol
diff --git a/src/svr_similarity_to_quality_mapper.cc b/src/svr_similarity_to_quality_mapper.cc
index 7b460e9..381b55d 100644
--- a/src/svr_similarity_to_quality_mapper.cc
+++ b/src/svr_similarity_to_quality_mapper.cc
@@ -33,6 +33,7 @@ double SvrSimilarityToQualityMapper::PredictQuality(
     const std::vector<double>& fvnsim10_vector,
     const std::vector<double>& fstdnsim_vector,
     const std::vector<double>& fvdegenergy_vector) const {
-  return std::max(1.0, std::min(5.0, model_.Predict(fvnsim_vector)));
+  // The inner clamp comes with its limit first, so that NaN becomes 1 as well.
+  return std::min(5.0, std::max(1.0, model_.Predict(fvnsim_vector)));
 }
 }  // namespace Visqol
diff --git a/src/tflite_quality_mapper.cc b/src/tflite_quality_mapper.cc
index 83059b6..1d26582 100644
--- a/src/tflite_quality_mapper.cc
+++ b/src/tflite_quality_mapper.cc
@@ -15,6 +15,8 @@
  */
 #include "tflite_quality_mapper.h"
 
+#include <algorithm>
+
 #include "absl/base/internal/raw_logging.h"
 #include "tensorflow/lite/c/c_api_types.h"
 #include "tensorflow/lite/delegates/xnnpack/xnnpack_delegate.h"
@@ -106,6 +108,8 @@ double TFLiteQualityMapper::PredictQuality(
   predict_runner->Invoke();
   const TfLiteTensor* output_tensor =
       predict_runner->output_tensor("predictions");
-  return *output_tensor->data.f;
+  // Clamp to 1-5 range. The limit comes first, so that NaN becomes 1 as well.
+  return std::min(5.0, std::max(1.0, static_cast<double>(
+                                         *output_tensor->data.f)));
 }
 }  // namespace Visqol
-- 
2.43.0


From 2ad4fa9ebf9d97c1b3855987fb0278a317a582a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 16/22] fix: the lattice delegate outlives the interpreter that
 uses it

---
 src/include/tflite_quality_mapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/tflite_quality_mapper.h b/src/include/tflite_quality_mapper.h
index c27ed31..bba6efa 100644
--- a/src/include/tflite_quality_mapper.h
+++ b/src/include/tflite_quality_mapper.h
@@ -47,9 +47,10 @@ class TFLiteQualityMapper : public SimilarityToQualityMapper {
   const std::string model_path_;
   const int num_frequency_bands_;
   std::unique_ptr<tflite::FlatBufferModel> model_;
-  std::unique_ptr<tflite::Interpreter> interpreter_;
+  // The interpreter uses the delegate, so it has to be destroyed first.
   std::unique_ptr<TfLiteDelegate, std::function<void(TfLiteDelegate*)>>
       delegate_;
+  std::unique_ptr<tflite::Interpreter> interpreter_;
 };
 
 }  // namespace Visqol
-- 
2.43.0


From f47f6028a458329b2e04a33997559c3fc740e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 17/22] fix: an API session with a negative sample rate is
 refused

---
 src/visqol_api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 42a6b17..898daf2 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -44,7 +44,7 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   sample_rate_ = audio_info.sample_rate();
 
   // Ensure a sample rate value was provided.
-  if (sample_rate_ == 0) {
+  if (audio_info.sample_rate() <= 0) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
                         "The sample rate for the signals must be set.");
   }
-- 
2.43.0


From 0ae45ff7b98f880371fa08fb7180b187a5e7b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 18/22] fix: a refused VisqolApi::Create no longer leaves an
 earlier session active

---
 src/visqol_api.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 898daf2..bec2eb0 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -32,6 +32,9 @@ namespace Visqol {
 const size_t VisqolApi::k48kSampleRate = 48000;
 
 absl::Status VisqolApi::Create(const VisqolConfig config) {
+  // Discard any earlier session, so that nothing is scored after a failure.
+  visqol_ = VisqolManager();
+
   // If audio info was not supplied, return error.
   if (!config.has_audio()) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
-- 
2.43.0


From 6b4bdeba4d58da4c9ea1559b9306d87b9fad7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:28 +0000
Subject: [PATCH 19/22] fix: do not apply a lag that drops the whole degraded
 signal

For a degraded signal shorter than half the reference the best lag can be
minus its length or less (for instance when the upper envelopes correlate
negatively). Dropping that many rows asked armadillo for an invalid row range,
which throws. Such a lag is ignored, as one of more than half the reference is.
---
 src/alignment.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 306190b..c2751b0 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -71,10 +71,12 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   int64_t best_lag =
       XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
 
-  // Limit the lag to half a patch.
+  // Limit the lag to half a patch. A lag that would drop the whole degraded
+  // signal cannot be applied either.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      best_lag <= -static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From d8ec7b9105180ed6fafb9208eb8b08295894dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:05 +0000
Subject: [PATCH 20/22] fix: WavReader accepts only 16 bits per sample, not 17
 to 23

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1027936..3ed98cf 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From 44fe32db94ccce0eb3e18918246331fa89537471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:19 +0000
Subject: [PATCH 21/22] fix: patches are matched within the search window also
 when their similarity is negative

---
 src/comparison_patches_selector.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index e315615..9297197 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -164,9 +164,11 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   }
   // The vector to store the similarity results
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
+  // Offsets outside of the search window of a reference patch are never chosen.
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From 924a0b9af7f7b17e0d9aa2712a1c5bb63d13c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:06 +0000
Subject: [PATCH 22/22] fix: negative lags of signals of up to eight samples
 are found

---
 src/xcorr.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xcorr.cc b/src/xcorr.cc
index f6745cd..aae6a49 100644
--- a/src/xcorr.cc
+++ b/src/xcorr.cc
@@ -70,10 +70,12 @@ std::vector<double> XCorr::InverseFFTPointwiseProduct(
     signal_1_vec.resize(biggest_vec, 0.0);
   }
 
-  // Calculate how many points in FFT (next ^2 elements)
+  // Calculate how many points in FFT (next ^2 elements). The negative lags are
+  // at the end of the transform, so it must have the size that is used.
   int exponent;
   frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);
-  const size_t fft_points = pow(2, exponent);
+  const size_t fft_points = std::max(static_cast<size_t>(pow(2, exponent)),
+                                     FftManager::kMinFftSize);
 
   // Calculate the pointwise product of the forward fft of both signals.
   auto fft_manager = std::make_unique<FftManager>(fft_points);
-- 
2.43.0

