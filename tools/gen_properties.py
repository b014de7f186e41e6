#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the wording is here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Every reported score lies between 1 and 5",
  "The quality score (MOS-LQO) ViSQOL predicts and reports is always a number from 1.0 to 5.0 inclusive and never NaN, for every quality mapper (SVR, exponential speech mapping scaled or unscaled, lattice) and whatever the similarity features or the raw model output are.",
  ["inputs", "configurations"], "all feature vectors (including out-of-range and non-finite ones), all mappers and mode switches",
  "The tests score a handful of well-behaved files; the extreme raw predictions that need clamping never occur in them, and the lattice mapper and the manager are not even built here.",
  ["src/svr_similarity_to_quality_mapper.cc", "src/speech_similarity_to_quality_mapper.cc", "src/tflite_quality_mapper.cc", "src/visqol.cc"],
  [("clamp in every PredictQuality", "src/*_quality_mapper.cc"), ("AlterForSimilarityExtremes", "src/visqol.cc")],
  ["SimilarityToQualityMapper::PredictQuality result", "SimilarityResult.moslqo", "SimilarityResultMsg.moslqo"])

p("C02", "Totally dissimilar signals score 1; other scores are the mapper's own",
  "When the mean similarity over the frequency bands (vnsim) is below 0.15 the reported score is exactly 1.0. In every other case the reported score is exactly what the configured quality mapper predicted from the mean, 10%-quantile, standard-deviation and degraded-energy features of this comparison, each handed over in its own role, and vnsim is the mean of the reported fvnsim.",
  ["inputs"], "all audio pairs and features",
  "No stable test covers a totally dissimilar pair or checks the threshold, and tests that compare whole scores cannot be built here.",
  ["src/visqol.cc"],
  [("AlterForSimilarityExtremes", "src/visqol.cc"), ("PredictMos", "src/visqol.cc"), ("CalculateSimilarity", "src/visqol.cc")],
  ["SimilarityResult.moslqo", "SimilarityResult.vnsim"])

p("C03", "Every command-line option has its own documented effect",
  "Each command-line option governs exactly the behaviour documented for it, whatever the other options are: the reference, degraded, batch, results and debug paths, verbosity, speech mode, unscaled mapping, lattice model, search radius and the two alignment switches each reach their own consumer unchanged. Input files (and in audio mode an explicitly given model file) that do not exist are refused before anything is scored, a batch file replaces the single pair, and with no model given the default for the selected mode is used.",
  ["configurations"], "all combinations of options",
  "The one command-line test parses a batch file; no test drives the flags through to the pipeline and the number of combinations is out of reach of sampling.",
  ["src/main.cc", "src/commandline_parser.cc", "src/include/commandline_parser.h", "src/visqol_manager.cc", "src/include/sim_results_writer.h"],
  [("VisqolCommandLineParser::Parse", "src/commandline_parser.cc"), ("main", "src/main.cc"), ("VisqolManager::Init", "src/visqol_manager.cc")],
  ["components built by VisqolManager::Init", "arguments of CalculateSimilarity", "files opened by the results writer"])

p("C04", "Every API configuration option has its own documented effect",
  "An API session honours its configuration: speech scoring, unscaled mapping, lattice model, model path, search window radius and the sample rate override each reach the comparison unchanged and independently of each other. Options left out take the documented defaults (audio mode, search radius 60, the default model of the selected mode), and the measured samples are compared at the configured sample rate with the reference as reference and the degraded as degraded.",
  ["configurations", "inputs"], "all configurations accepted by the API and both measured buffers",
  "The API tests that exercise options cannot link here and even upstream sample a few combinations.",
  ["src/visqol_api.cc", "src/include/visqol_api.h", "src/visqol_manager.cc", "src/proto/visqol_config.proto"],
  [("VisqolApi::Create", "src/visqol_api.cc"), ("VisqolApi::Measure", "src/visqol_api.cc")],
  ["arguments of VisqolManager::Init and Run", "VisqolApi::Create status"])

p("C05", "Each mode builds one consistent pipeline and its shipped model fits it",
  "Speech mode always compares voice-active 20-frame patches over 21 gammatone bands from 50 Hz to at most 8 kHz and scores them with the lattice model or the exponential mapping; audio mode always compares 30-frame patches over 32 bands from 50 Hz to half the sample rate and scores with the SVR model. The model files shipped as defaults exist where the program looks for them, and have exactly the features and feature names that the program feeds them.",
  ["configurations"], "both modes, both model choices, all shipped model files",
  "No test checks that the number of bands, the patch creator and the mapper selected together agree with the model; a mismatch still runs and produces a plausible number.",
  ["src/visqol_manager.cc", "src/include/visqol_manager.h", "src/gammatone_spectrogram_builder.cc", "src/tflite_quality_mapper.cc", "model/"],
  [("InitPatchCreator/InitSpectrogramBuilder/InitSimilarityToQualityMapper", "src/visqol_manager.cc"), ("feature names", "src/tflite_quality_mapper.cc")],
  ["components held by VisqolManager after Init", "tensor names requested from the lattice model", "model/*.txt, model/*.tflite"])

p("C06", "The result message is complete and each field is the like-named quantity",
  "Every field of the result message carries the like-named quantity of that very comparison: score, vnsim, all bands of each per-band list in order, all patches in order with their similarity, band means and the four start/end times, the alignment lag in seconds (zero when global alignment is disabled) and, for file input, both file paths. Nothing is left out, duplicated, swapped or taken from another comparison.",
  ["inputs", "configurations"], "all comparisons, any number of bands and patches",
  "Tests read moslqo and at most the sizes of one list; swapped or truncated debug fields pass them all.",
  ["src/visqol_manager.cc", "src/visqol.cc", "src/include/similarity_result.h", "src/proto/similarity_result.proto"],
  [("PopulateSimResultMsg", "src/visqol_manager.cc"), ("gather results", "src/visqol.cc")],
  ["SimilarityResultMsg returned by VisqolManager::Run"])

p("C07", "Results CSV rows line up with their header and results are appended",
  "In the results CSV every row has exactly the columns named by the header, in the header's order, each under the name of the quantity it holds. The header is written exactly when the file does not exist yet; existing results are never overwritten, each comparison adds exactly one line to the CSV and one object to the debug JSON file, and these files are written only when asked for.",
  ["inputs", "histories"], "any number of bands, any sequence of comparisons, new or existing files",
  "No test looks at the files written.",
  ["src/include/sim_results_writer.h"],
  [("WriteResultsToCSV", "src/include/sim_results_writer.h"), ("WriteDebugJSON", "src/include/sim_results_writer.h"), ("Write", "src/include/sim_results_writer.h")],
  ["files named by results_csv and output_debug"])

p("C08", "No failure is dropped and no value is taken from a failed step",
  "Whenever a step reports failure (an error status, a model that fails to load or prepare) the operation that ran it fails too, passing the error on instead of continuing or reporting success. The value of a fallible step is used only where that step is known to have succeeded.",
  ["inputs", "fault_sequences"], "every fallible call in the library, the program and the bindings",
  "Tests inject almost no failures; most error paths are never executed.",
  ["src/visqol.cc", "src/visqol_manager.cc", "src/visqol_api.cc", "src/comparison_patches_selector.cc", "src/tflite_quality_mapper.cc", "src/main.cc", "src/include/status_macros.h"],
  [("VISQOL_RETURN_IF_ERROR / VISQOL_ASSIGN_OR_RETURN", "src/include/status_macros.h"), (".ok() checks", "all call sites")],
  ["status returned by each operation"])

p("C09", "Only a successfully initialised instance ever scores",
  "Running a comparison on an instance that was never initialised, or whose most recent initialisation failed, returns an Aborted error and does no comparison. Initialisation reports success only if the quality model for the selected mode was loaded, and after it succeeded comparisons are not refused for want of initialisation.",
  ["histories"], "any sequence of initialisations and runs",
  "Tests try one uninitialised run at most; re-initialisation after success is never tried and the manager cannot be built here.",
  ["src/visqol_manager.cc", "src/include/visqol_manager.h"],
  [("ErrorIfNotInitialized", "src/visqol_manager.cc"), ("is_initialized_", "src/include/visqol_manager.h")],
  ["status of VisqolManager::Run and Init"],
  [{"name": "is_initialized_", "meaning": "last Init succeeded", "where": "src/include/visqol_manager.h"}])

p("C10", "Audio that cannot be loaded yields an error, never a score",
  "If either input file is missing, is not a readable WAV file, or holds no samples, or either signal handed in is empty, the comparison returns an error status and no score. A failed load always yields an empty signal rather than partial or made-up audio.",
  ["inputs", "fault_sequences"], "all input files and streams, valid or not",
  "One test loads one empty stream; no test compares unloadable audio.",
  ["src/misc_audio.cc", "src/visqol_manager.cc", "src/include/audio_signal.h"],
  [("LoadAsMono", "src/misc_audio.cc"), ("ValidateInputAudio", "src/visqol_manager.cc")],
  ["status of VisqolManager::Run", "AudioSignal returned by LoadAsMono"])

p("C11", "Sample rates that do not match or are not supported are refused",
  "Two signals with different sample rates are never compared: the run fails with an InvalidArgument error. An API session is refused when audio information is missing, when its sample rate is zero or negative, or when it is not 48 kHz in audio mode without the explicit override, and is not refused for its sample rate otherwise.",
  ["inputs", "configurations"], "all sample rate combinations, modes and overrides",
  "Two tests try two rates; the decision table over mode, override and rate is not covered.",
  ["src/visqol_manager.cc", "src/visqol_api.cc"],
  [("ValidateInputAudio", "src/visqol_manager.cc"), ("Create", "src/visqol_api.cc")],
  ["status of VisqolManager::Run, VisqolApi::Create"])

p("C12", "Audio too short to score yields an error, not a crash or a score",
  "A signal no longer than one analysis window, a reference spectrogram too short for one patch, a degraded signal that none of the reference patches can be matched to and a reference without any selected patch each end in an error status. No such input causes a division by zero, an out-of-range access or an empty-sequence access before the error is returned.",
  ["inputs"], "all signal lengths, sample rates and mode choices",
  "Short inputs are sampled by two tests that cannot be built here; the boundary lengths are not.",
  ["src/gammatone_spectrogram_builder.cc", "src/image_patch_creator.cc", "src/vad_patch_creator.cc", "src/comparison_patches_selector.cc"],
  [("length checks", "Build, CreateRefPatchIndices, CalcMaxNumPatches, FindMostOptimalDegPatches")],
  ["status of Build, CreateRefPatchIndices, FindMostOptimalDegPatches"])

p("C13", "Batch mode scores every listed pair independently",
  "Each well-formed row of a batch file after the header gives exactly one comparison of its first path as reference against its second as degraded, in file order, with either line ending; blank or incomplete rows cause no crash and no comparison. A pair that fails is reported and does not stop or alter the comparisons after it, and only successful comparisons are written out.",
  ["inputs", "histories"], "all batch files and all patterns of failing pairs",
  "One test reads one well-formed batch file; failing pairs, blank lines and missing fields are not tried.",
  ["src/commandline_parser.cc", "src/main.cc"],
  [("ReadFilesToCompare", "src/commandline_parser.cc"), ("comparison loop", "src/main.cc")],
  ["pairs returned by BuildFilePairPaths", "calls of Run and Write"])

p("C14", "A comparison does not depend on what was compared before",
  "The result of a comparison is a function of its two signals and the configuration only. No state left behind by an earlier comparison, frame, patch or signal (filter state, accumulated results, caches, global variables), no clock, random source, environment or address can influence it.",
  ["histories", "inputs"], "any sequence of comparisons on one instance",
  "A test would have to repeat comparisons in every order; the tests use fresh objects.",
  ["src/gammatone_filterbank.cc", "src/gammatone_spectrogram_builder.cc", "src/rms_vad.cc", "src/visqol_manager.cc", "src/visqol.cc"],
  [("ResetFilterConditions before every filtering", "src/gammatone_spectrogram_builder.cc"), ("const pipeline objects", "src/visqol.cc")],
  ["VisqolManager::Run result"],
  [{"name": "fltr_cond_*", "meaning": "filter memory carried between calls", "where": "src/include/gammatone_filterbank.h"}])

p("C15", "Instances on different threads share nothing mutable",
  "Separate instances can be initialised and run concurrently: code reachable from initialising, running or destroying an instance touches no shared mutable variable, static or global, and calls no thread-unsafe library function, except under one lock shared by all instances. In particular loading an SVR model, whose parser uses global state, happens only while that lock is held.",
  ["schedules"], "all interleavings of instances on any number of threads",
  "One stress test samples a few interleavings and cannot be built here.",
  ["src/support_vector_regression_model.cc", "src/include/support_vector_regression_model.h"],
  [("load_model_mutex_", "src/support_vector_regression_model.cc")],
  ["accesses to static storage; svm_load_model call sites"])

p("C16", "Caller data is neither modified nor kept",
  "Measuring leaves the caller's sample buffers and the reference signal unchanged, and nothing ViSQOL keeps or returns refers to memory the caller or a temporary owns: matrices and signals own copies of the data they are built from, and assigning or copying one never ties it to another.",
  ["inputs", "histories"], "all inputs and all uses of the matrix and signal types",
  "Aliasing shows only when the caller later reuses its memory, which tests do not do.",
  ["src/amatrix.cc", "src/visqol_api.cc", "src/visqol.cc", "src/visqol_manager.cc"],
  [("copying constructors", "src/amatrix.cc"), ("const reference signal", "src/visqol.cc")],
  ["AMatrix storage", "buffers passed to VisqolApi::Measure"])

p("C17", "WAV reading accepts only valid 16-bit PCM and stays within the data chunk",
  "A stream is accepted only if its RIFF/WAVE/fmt/data identifiers are right, the format is PCM or extensible, samples are 16 bit, there is at least one channel and at least one whole sample, and parsing ends for every stream, however malformed. Reading never delivers more samples than asked for or than remain in the data chunk, and never writes past the caller's buffer.",
  ["inputs"], "all byte streams and all sequences of reads",
  "Tests read a few valid files and one empty stream.",
  ["src/wav_reader.cc", "src/include/wav_reader.h"],
  [("ParseHeader", "src/wav_reader.cc"), ("ReadSamples", "src/wav_reader.cc")],
  ["WavReader::IsHeaderValid, ReadSamples"],
  [{"name": "num_remaining_samples_", "meaning": "samples of the data chunk not yet read", "where": "src/include/wav_reader.h"}])

p("C18", "Sample conversions stay in range",
  "Every 16-bit sample is converted to a value in [-1, 1) proportional to it, channels are averaged (never summed) into mono so mono samples stay in that range too, and every value handed to the voice activity detector is limited to the 16-bit range, NaN included, before it becomes a 16-bit sample.",
  ["inputs"], "all sample values, any channel count, normalised signals of any range",
  "Tests load three files; full-scale, negative-only and silent signals are not among them.",
  ["src/misc_math.cc", "src/misc_audio.cc", "src/vad_patch_creator.cc"],
  [("NormalizeInt16ToDouble", "src/misc_math.cc"), ("ToMono", "src/misc_audio.cc"), ("clamp in GetVoiceActivity", "src/vad_patch_creator.cc")],
  ["AudioSignal.data_matrix", "argument of RmsVad::ProcessChunk"])

p("C19", "Every resource is released exactly once",
  "Memory and library objects the library acquires (libsvm models and nodes, FFT plans, aligned buffers, the lattice delegate) are released exactly once, on every path, when their user or owner is done, with the release function that belongs to them, and are not used afterwards. Objects owning such resources are never copied and an object that others depend on is released after them.",
  ["histories", "inputs"], "all paths through functions that acquire, and all owner lifetimes",
  "Leaks, double frees and wrong-order releases do not fail the unit tests.",
  ["src/support_vector_regression_model.cc", "src/libsvm_target_observation_convertor.cc", "src/fft_manager.cc", "src/include/audio_channel.h", "src/include/tflite_quality_mapper.h"],
  [("destructors", "SupportVectorRegressionModel, FftManager, AudioChannel"), ("free in Predict", "src/support_vector_regression_model.cc")],
  ["malloc/free, pffft_aligned_malloc/free, svm_*, TfLiteXNNPackDelegate* calls"])

p("C20", "Nothing is read before it is set",
  "No variable or object member is read before it has been given a value, whatever path leads to the read: every object is fully initialised by its construction, including after failed or skipped steps, and every local is assigned on all paths to its uses.",
  ["inputs", "histories"], "all functions, constructors and object lifetimes of the library and the program",
  "An uninitialised read usually sees zero in a test process and passes.",
  ["src/", "src/include/"],
  [("default member initialisers and constructors", "src/include/*.h"), ("local initialisation", "src/*.cc")],
  ["every read of a scalar local or member"])

p("C21", "Silence and non-finite samples never turn into non-finite features",
  "Comparing spectrograms on the decibel scale never produces infinities or NaN: silence is mapped to the noise floor instead of minus infinity, NaN cells are raised to the floor, and the similarity of any two finite patches is computed without dividing by zero or taking the root or logarithm of an invalid value.",
  ["inputs"], "all finite patches, all spectrogram cells including zero and NaN",
  "Tests use ordinary audio; silence and NaN cells do not occur.",
  ["src/spectrogram.cc", "src/neurogram_similiarity_index_measure.cc", "src/misc_audio.cc"],
  [("ConvertSampleToDb, RaiseFloor", "src/spectrogram.cc"), ("c1, c3 constants and negative-variance guard", "src/neurogram_similiarity_index_measure.cc")],
  ["Spectrogram cells", "PatchSimilarityResult"])

p("C22", "Aligned audio is shifted by exactly the reported lag",
  "Global alignment either returns the degraded signal untouched with lag zero, or shifts it by exactly the reported lag: prepending that much silence for a positive lag, dropping that much from its front for a negative one, never more than half the reference's length and always at the signal's sample rate. Aligning with truncation returns a reference and a degraded signal of equal length cut at the same point.",
  ["inputs"], "all pairs of non-empty signals and all detected lags",
  "The alignment code cannot be built here, and upstream tests try one lag.",
  ["src/alignment.cc"],
  [("GloballyAlign", "src/alignment.cc"), ("AlignAndTruncate", "src/alignment.cc")],
  ["signals and lag returned by Alignment"])

p("C23", "Reference and degraded spectrograms are prepared alike",
  "Both spectrograms go through the same preparation with the same parameters before they are compared: decibel conversion, the absolute noise floor of -45 dB, a per-frame floor 45 dB below the louder of the two in that frame, and subtraction of one common floor, the lower of the two minima. Every frame both have in common is treated, and no prepared value is negative.",
  ["inputs"], "all spectrogram pairs, of equal or different length",
  "No test compares the two sides; scores would shift slightly without any test here noticing.",
  ["src/misc_audio.cc", "src/spectrogram.cc"],
  [("PrepareSpectrogramsForComparison", "src/misc_audio.cc"), ("RaiseFloorPerFrame, SubtractFloor", "src/spectrogram.cc")],
  ["Spectrogram data after PrepareSpectrogramsForComparison"])

p("C24", "Patch matching stays within the search window and in time order",
  "Each reference patch is only ever compared with degraded patches that start within the search radius (in patch lengths) of its own position and inside the degraded spectrogram. Successive reference patches are matched to strictly later degraded positions or marked as lost, and every access to the matching tables is within their bounds.",
  ["inputs", "configurations"], "all spectrogram sizes, patch positions and search radii",
  "The tests run five small hand-made examples.",
  ["src/comparison_patches_selector.cc"],
  [("FindMostOptimalDegPatch", "src/comparison_patches_selector.cc"), ("backtrace", "src/comparison_patches_selector.cc")],
  ["patches passed to MeasurePatchSimilarity", "dynamic programming tables"])

p("C25", "SVR observations are encoded as libsvm requires",
  "Every observation handed to libsvm, for training or prediction, carries all its features in order under the indices 1 to n, ends with the terminator index -1 and lies wholly inside memory allocated for it; the score uses the per-band means it was given and nothing else.",
  ["inputs"], "all observations of any length",
  "One training test compares one prediction.",
  ["src/libsvm_target_observation_convertor.cc", "src/support_vector_regression_model.cc", "src/svr_similarity_to_quality_mapper.cc"],
  [("ConvertObservation(s)", "src/libsvm_target_observation_convertor.cc")],
  ["svm_node arrays passed to svm_train and svm_predict"])

p("C26", "Per-band features aggregate the right statistics over all patches",
  "For every band, fvnsim is the mean over all patches of the band's similarity, fvnsim10 the mean of the lowest tenth (at least one) of those similarities, fvdegenergy the mean of the degraded band energy, and fstdnsim pools the band's means and standard deviations weighted by each patch's number of frames and is never negative. No patch or band is skipped or counted twice.",
  ["inputs"], "any number of patches and bands",
  "One test checks one quantile; the other aggregates are untested.",
  ["src/visqol.cc"],
  [("CalcPerPatch*", "src/visqol.cc")],
  ["SimilarityResult.fvnsim, fvnsim10, fstdnsim, fvdegenergy"])

p("C27", "FFT buffers are always large enough",
  "Every transform runs on buffers of the transform's size, with a workspace whenever the transform is too large for the stack, and every copy into or out of a transform buffer moves no more samples than both sides hold. Sizes always come from the same plan, for every signal length.",
  ["inputs"], "all signal lengths",
  "The FFT code cannot be built here; overruns of aligned buffers rarely fail a test.",
  ["src/fft_manager.cc", "src/include/fft_manager.h", "src/include/audio_channel.h", "src/fast_fourier_transform.cc", "src/xcorr.cc"],
  [("FftManager", "src/fft_manager.cc"), ("AudioChannel::Init", "src/include/audio_channel.h")],
  ["pffft_* calls, std::copy_n and element accesses on AudioChannel"])

p("C28", "Fine realignment keeps every patch and never lowers its similarity",
  "Fine realignment returns exactly one result per matched patch, in the same order. A patch marked as lost is passed through unchanged; any other keeps its coarse result unless the realigned one is at least as similar, and a realigned result carries start and end times that follow from the applied lag and the realigned durations on each side. Audio cut for a patch keeps its position: silence standing in for missing audio goes before it where the patch starts before the signal, and after it where the patch ends after the signal.",
  ["inputs"], "all matched patch lists and signals",
  "Realignment needs the FFT library and is not exercised by any test that runs here.",
  ["src/comparison_patches_selector.cc"],
  [("FinelyAlignAndRecreatePatches", "src/comparison_patches_selector.cc"), ("Slice", "src/comparison_patches_selector.cc")],
  ["vector returned by FinelyAlignAndRecreatePatches", "signal returned by Slice"])

p("C29", "Matrix values behave as mathematical values",
  "Two matrices compare equal exactly when they have the same number of rows, the same number of columns and the same elements; building, slicing, joining, transforming and reading a matrix always keeps rows as rows and columns as columns, and every arithmetic operation uses both operands element by element.",
  ["inputs"], "all matrix shapes and contents",
  "The equality test compares one pair with different column counts through another path; operations are only exercised on a few shapes.",
  ["src/amatrix.cc", "src/include/amatrix.h"],
  [("AMatrix operators", "src/amatrix.cc")],
  ["AMatrix public operations"])

p("C30", "Training rows are read completely and faithfully",
  "Reading training data returns one row per line of the file with every value of the line in order and nothing carried over from another line, and an SVR is trained on exactly the given observations and targets with the documented nu-SVR/RBF parameters and the gamma implied by the number of features.",
  ["inputs"], "all training files and data sets",
  "One data set is used by one test, which only looks at one score.",
  ["src/svr_training/training_data_file_reader.cc", "src/support_vector_regression_model.cc", "src/include/misc_vector.h"],
  [("TrainingDataFileReader::Read", "src/svr_training/training_data_file_reader.cc"), ("SupportVectorRegressionModel::Init", "src/support_vector_regression_model.cc")],
  ["rows returned by Read", "svm_problem and svm_parameter passed to svm_train"])

# Properties that a static argument cannot settle (listed under not_applicable).
p("N01", "Scores match the published conformance values",
  "For the conformance audio files the score equals the published conformance number of this version, on every platform.",
  ["inputs"], "all conformance files and platforms",
  "Only the sampled files are compared, and the conformance tests cannot be built here.",
  ["src/include/conformance.h", "tests/conformance_test.cc"], [("kConformance*", "src/include/conformance.h")], ["moslqo"])
p("N02", "More degradation never raises the score",
  "Degrading a signal further (more noise, more loss, lower bit rate) never raises its reported score against the same reference.",
  ["inputs"], "all signals and degradations",
  "It is a statistical statement about a trained model over all audio.",
  ["src/visqol.cc"], [("pipeline", "src/visqol.cc")], ["moslqo"])
p("N03", "The chosen patch matching maximises total similarity",
  "Among all admissible in-order matchings of reference patches to degraded positions, the one reported has the greatest total similarity.",
  ["inputs"], "all similarity tables",
  "Five small examples are tested; optimality quantifies over all tables.",
  ["src/comparison_patches_selector.cc"], [("dynamic programming", "src/comparison_patches_selector.cc")], ["deg_patch_start_time"])
p("N04", "Filter bank coefficients follow the auditory model",
  "The gammatone filter coefficients and centre frequencies equal those of Slaney's ERB filter bank for every sample rate, band count and frequency range, and the filters are stable.",
  ["inputs"], "all sample rates and band counts",
  "One coefficient set is compared.",
  ["src/equivalent_rectangular_bandwidth.cc"], [("MakeFilters", "src/equivalent_rectangular_bandwidth.cc")], ["ErbFiltersResult"])
p("N05", "Memory and run time stay proportional to the input",
  "Time and memory of a comparison grow in proportion to the audio's length, and no header value alone can make them grow.",
  ["inputs"], "all inputs",
  "Only a long-duration test samples it.",
  ["src/visqol.cc", "src/wav_reader.cc"], [("pipeline", "src/visqol.cc")], ["resource usage"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
