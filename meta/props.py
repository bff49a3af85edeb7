TRUST = 'Bounded: holds for every case of the enumerated space, executed on the real library; trusts the harness reference, rustc and the stated float tolerances. '
ENUM = 'exhaustive bounded enumeration of inputs executed on the real code against an independent reference model'
SEQ = 'exhaustive enumeration of all operation/frame sequences up to a depth on the real code, compared state by state with a reference model'

prop('P01', 'Analysis is a pure function of its arguments',
 'Running any analysis on the same samples, sample rate and configuration always gives the same result, bit for bit (the measured processing time apart). It does not matter what was analysed before in the process, what is being analysed on other threads at the same time, in which process or with which hash seed it runs, and the caller\'s samples are never modified.',
 ['inputs', 'histories', 'schedules'], 'every sequence of earlier calls, every interleaving of concurrent calls, every process, hash seed, clock and log level',
 'Tests call the pipeline a handful of times, single-threaded and never compare results across histories, schedules or processes.',
 ['src/lib.rs', 'src/features/key/detector.rs', 'src/features/period/multi_resolution.rs', 'src/features/period/novelty.rs', 'src/features/chroma/extractor.rs'],
 [('no global mutable state; every call owns its buffers', 'src/lib.rs analyze_audio'), ('score ties resolved by rank, not by hash order', 'src/features/key/detector.rs')],
 'stateless model checking of the real code: all call histories up to a depth, all interleavings of two analyses at the instrumented points up to a preemption bound, all enumerated hash seeds, clocks and log levels',
 TRUST + 'Scheduling points are library allocations, log records and accesses to writable static memory; two threads, preemption bounded.')

prop('P02', 'Analysis always returns, for every input and configuration',
 'For any finite or non-finite samples, any sample rate and any configuration value the analysis entry point returns a result or an error: it never panics, never overflows, and ends within work proportional to the audio length and the requested tempo grid. Empty input, a zero sample rate, samples that are not finite numbers and (with silence trimming on) entirely silent audio are reported as errors rather than as a made-up result.',
 ['inputs', 'configurations'], 'every sample vector, rate and configuration',
 'Tests exercise a few well-formed tracks with default settings; lengths around frame/hop boundaries, extreme rates and non-default options are not sampled.',
 ['src/lib.rs', 'src/features/period/novelty.rs', 'src/features/period/comb_filter.rs', 'src/features/key/detector.rs', 'src/preprocessing/silence.rs'],
 [('argument validation and early errors', 'src/lib.rs analyze_audio'), ('stage failures degrade to warnings', 'src/lib.rs analyze_audio')],
 'exhaustive enumeration of signal x length x rate x configuration-deviation space on the real code with panic and hang monitors',
 TRUST + 'Configurations explored are all one- and two-field deviations from the default over the stated value sets.')

prop('P03', 'Every reported value lies in its documented range',
 'For every configuration inside its documented ranges, all confidences, the grid stability, the key clarity and the overall confidence of a successful analysis are finite and within 0..1, and the tempo is either 0 (unknown) or a finite value inside the configured tempo range. Beats, downbeats and bars are finite, non-negative, strictly increasing times that end no later than a beat tolerance (60 ms) after the trimmed audio, downbeats are beats, and the key is one of the 24 keys. An unknown tempo carries zero tempo confidence and an empty grid, and the reported duration and sample rate describe the audio that was analysed.',
 ['inputs', 'configurations'], 'every input and configuration for which analysis succeeds',
 'Tests check these ranges on a few fixtures only; the out-of-range paths (legacy tempo fallback, fusion, octave folding, variable-tempo grids) are reached by none of them.',
 ['src/lib.rs', 'src/analysis/result.rs', 'src/analysis/metadata.rs', 'src/features/period/mod.rs', 'src/features/beat_tracking/mod.rs', 'src/features/period/multi_resolution.rs'],
 [('clamping and validation at the end of each stage', 'src/lib.rs, src/features/*/mod.rs')],
 'exhaustive enumeration of signal x rate x configuration space on the real pipeline with range monitors on every result',
 TRUST)

prop('P04', 'Each configuration switch does exactly what it says in the pipeline',
 'The analysis result equals the composition of the published stages with the configured parameters: normalise only if enabled and with the configured method, trim silence with the configured threshold, detect onsets at the configured frame and hop size, estimate the tempo within the configured range, build the beat grid from that tempo, and detect the key with the configured options and detector (plain, segment voting, median, multi-scale or ensemble). Enabling, disabling or changing an option affects only the outputs that option is documented to affect; keys whose scores are equal are interchangeable.',
 ['inputs', 'configurations'], 'every input and every combination of switches',
 'Tests run the pipeline with the default configuration or with one switch and check only that a result exists.',
 ['src/lib.rs', 'src/config.rs'],
 [('stage sequencing', 'src/lib.rs analyze_audio')],
 'exhaustive enumeration of switch combinations; each run of the real pipeline is compared with a reference composition of the stages (model trace replayed against the implementation)',
 TRUST)

prop('P05', 'Normalization applies one exact gain and never exceeds the ceiling',
 'Normalising multiplies every sample by one and the same non-negative gain, chosen so that the selected measure (peak, RMS or gated loudness) reaches its target, limited so that no sample ends above full scale. Silent audio is returned unchanged, audio too quiet or too short for a loudness measurement is peak-normalised instead, and empty audio is rejected. The reported metadata are the gain actually applied and the loudness, peak and RMS of the signal as documented.',
 ['inputs', 'configurations'], 'every sample vector, method, target, headroom and sample rate',
 'Tests check a few constant or sine buffers at one target; the limiter/gating interplay over arbitrary words and block boundaries is not covered.',
 ['src/preprocessing/normalization.rs'],
 [('gain computation and headroom limiting', 'normalize_peak / normalize_rms / normalize_lufs')], ENUM, TRUST + 'Gain within 1e-4 relative of an f64 reference; gate decisions at the threshold are treated as ambiguous.')

prop('P06', 'Silence trimming never drops audible audio',
 'Trimming keeps one contiguous span of the input, unchanged and in order, that contains every audible frame (level above the threshold): leading silence is always removed, trailing silence only when it lasts at least the minimum duration. The reported silent regions are exactly the maximal quiet runs at least as long as the minimum duration, ordered, disjoint and within the input. Entirely silent input gives an empty result and one region covering everything.',
 ['inputs', 'configurations'], 'every sample vector, rate, threshold, frame size and minimum duration',
 'Tests use one layout (silence, tone, silence); interior gaps, partial tails and odd frame sizes are not enumerated.',
 ['src/preprocessing/silence.rs'],
 [('frame RMS scan and region merging', 'detect_and_trim')], ENUM, TRUST + 'Frame levels within 1e-4 of the threshold are not generated.')

prop('P07', 'Downmixing is exact, per sample and per mode',
 'Mixing two channels of equal length gives one output sample per input pair: the average for mono, the documented mid and centre formulas, and the louder of the two samples for dominant mode. Channels of different length are rejected, and no sample depends on any other pair.',
 ['inputs'], 'every pair of channel vectors and every mode',
 'Tests use a few short vectors per mode; long buffers, block boundaries and ties are not covered.',
 ['src/preprocessing/channel_mixer.rs'], [('per-mode sample formula', 'stereo_to_mono')], ENUM, TRUST)

prop('P08', 'The spectrogram is the exact windowed transform of every frame',
 'The magnitude spectrogram has one frame for every full frame of the input at the given hop and half the frame size plus one bins, and every value is the magnitude of the discrete Fourier transform of the Hann-windowed frame. Audio shorter than one frame, an empty input or a zero frame or hop size gives an empty result or an error, never a wrong frame, and frames are independent of each other.',
 ['inputs', 'configurations'], 'every sample vector, frame size and hop',
 'Tests check dimensions and one sine peak; arbitrary geometries, non-power-of-two sizes and late frames are not compared with a transform.',
 ['src/features/chroma/extractor.rs'], [('Hann window and real FFT per frame', 'compute_stft')], ENUM, TRUST + 'Magnitudes within 2e-5 of the frame L1 norm.')

prop('P09', 'Onset detectors report exactly the peaks of their novelty function',
 'The energy, spectral, high-frequency and percussive onset detectors report exactly those frames whose detection function rises above the threshold and is a local maximum, in increasing order, without duplicates and inside the input. A constant signal has no onsets, and malformed input or parameters are rejected. The adaptive thresholds (median plus deviation, percentile) are the statistics they are named after.',
 ['inputs', 'configurations'], 'every signal or spectrogram, threshold and frame geometry',
 'Tests check a few synthetic bursts and only that some onsets exist near them.',
 ['src/features/onset/energy_flux.rs', 'src/features/onset/spectral_flux.rs', 'src/features/onset/hfc.rs', 'src/features/onset/hpss.rs', 'src/features/onset/threshold.rs'],
 [('flux, normalisation and peak picking', 'detect_*_onsets')], SEQ, TRUST + 'Cases whose f32 and f64 decisions differ are counted ambiguous and checked structurally.')

prop('P10', 'Onset consensus merges nearby detections and counts each method once',
 'Voting groups detections whose successive distance is within the tolerance, reports one onset per group inside the span of its members, and every detection belongs to exactly one group. The confidence of a group is the total weight of the methods that voted for it, each counted once, and the list of voters is exact; results are ordered by position-independent, documented ranking. Negative weights and a zero sample rate are rejected.',
 ['inputs', 'configurations'], 'every assignment of onset lists to the methods, every weight set, tolerance and rate',
 'Tests vote over a few hand-made lists; collisions, duplicates, unsorted lists and large positions are not covered.',
 ['src/features/onset/consensus.rs'], [('sort and gap-chained clustering', 'vote_onsets')], ENUM, TRUST)

prop('P11', 'Periodicity tempo estimation follows the onsets and stays in range',
 'Autocorrelation and comb-filter estimation return only tempi inside the requested range, ordered by decreasing confidence, with confidences within 0..1 whose values are the normalised autocorrelation and the share of predicted beats that meet an onset. For evenly spaced onsets the true tempo gets close to full comb confidence and, when the spacing is a whole number of frames, ranks first in the autocorrelation. Merging groups tempi within 2 BPM, folds octave errors only onto a reported comb tempo, returns only tempi one of the methods supports and keeps confidences within 0..1; too few onsets give no estimate, and invalid parameters are errors.',
 ['inputs', 'configurations'], 'every onset list, rate, hop size and tempo range',
 'Tests use a handful of perfectly regular 120/128 BPM onset lists.',
 ['src/features/period/autocorrelation.rs', 'src/features/period/comb_filter.rs', 'src/features/period/candidate_filter.rs', 'src/features/period/peak_picking.rs', 'src/features/period/mod.rs'],
 [('ACF peaks, comb score, merge and guardrails', 'src/features/period/*')], ENUM, TRUST)

prop('P12', 'Tempogram tempo is the strongest candidate within the configured range',
 'The tempogram estimators score every tempo of the requested grid from the novelty curve alone, return candidates in decreasing strength within the requested range, and report the selected tempo, confidence and agreement consistently with those candidates. A steady pulse is reported at its tempo or an octave of it (within 4 per cent) at every tempo of the range.',
 ['inputs', 'configurations'], 'every novelty curve, rate, hop and tempo range',
 'Tests use one or two pulse trains at 120 BPM.',
 ['src/features/period/tempogram.rs', 'src/features/period/tempogram_autocorr.rs', 'src/features/period/tempogram_fft.rs'],
 [('autocorrelation and FFT tempogram plus candidate scoring', 'src/features/period/tempogram*.rs')], ENUM, TRUST)

prop('P13', 'Multi-resolution escalation never makes the tempo estimate unsafe',
 'Combining tempo estimates from several hop sizes returns a tempo inside the configured range that is a candidate (or an octave relative of a candidate) of at least one resolution, never promotes a moderate base tempo to an implausibly fast one, and its confidence stays within 0..1. When some of the resolutions of a shared spectrogram cannot be computed the others decide; a failing extra resolution of the pipeline leaves the base estimate in place.',
 ['inputs', 'configurations'], 'every candidate set per resolution and every audio length',
 'Tests run it on one pulse train.',
 ['src/features/period/multi_resolution.rs', 'src/lib.rs'], [('hypothesis scoring and octave guards', 'multi_resolution_analysis')], ENUM, TRUST)

prop('P14', 'Beat grids are regular, ordered, inside the audio and tied to onsets',
 'At a steady tempo every beat lies on the tempo lattice anchored at an onset and within 60 ms of an onset, beats are strictly increasing, non-negative and end no later than 60 ms after the last onset, and downbeats are beats one bar (plus or minus 10 per cent) apart with bars starting at the downbeats. With a varying tempo the segments are re-tracked separately and the beats stay ordered without repeats. Grid stability is 1 for perfectly regular beats, falls as the beat spacing varies and is always within 0..1; invalid tempi, rates or onset lists are rejected.',
 ['inputs', 'configurations'], 'every onset list, tempo and rate',
 'Tests track a few perfectly periodic onset lists.',
 ['src/features/beat_tracking/mod.rs', 'src/features/beat_tracking/hmm.rs'], [('Viterbi tracking and grid assembly', 'generate_beat_grid, HmmBeatTracker')], ENUM, TRUST)

prop('P15', 'The incremental tempo tracker stays consistent over every update history',
 'After any sequence of updates the tracker\'s tempo is one of the half-BPM candidates around the previous one within the supported range, or unchanged with zero confidence when that range offers none, its confidence stays within 0..1, and every update depends only on the current tempo and confidence and the new onsets. An update without usable onsets is rejected and leaves the state untouched, history keeps every accepted estimate in order, and onsets that confirm the current tempo or do not distinguish tempi never move it by more than half a BPM.',
 ['histories', 'inputs'], 'every sequence of updates up to the explored depth',
 'Tests do one or two updates from a fresh tracker.',
 ['src/features/beat_tracking/bayesian.rs'], [('prior x likelihood update', 'BayesianBeatTracker::update')],
 'explicit-state breadth-first exploration of all update histories of the real tracker, each transition compared with a reference transition function', TRUST)

prop('P16', 'Chroma is a unit-norm, gain-free pitch-class profile for every frame',
 'Every chroma vector has twelve non-negative finite entries and unit length, or is all zero for a silent frame; each spectral bin between 100 and 5000 Hz contributes only to its nearest pitch class (plus the documented soft neighbours), taking the tuning offset into account. Scaling the loudness does not change the chroma, frames do not influence one another, and beat-synchronous averaging, median smoothing, sharpening, harmonic (HPCP) and log-frequency variants compute exactly their documented formula.',
 ['inputs', 'configurations'], 'every spectrogram, rate, FFT size and option',
 'Tests check a few tones and shapes.',
 ['src/features/chroma/extractor.rs', 'src/features/chroma/normalization.rs', 'src/features/chroma/smoothing.rs'],
 [('bin to pitch class mapping and normalisation', 'extract_chroma*'), ('sharpening and smoothing', 'normalization.rs, smoothing.rs')], ENUM, TRUST)

prop('P17', 'Key detection returns the best-scoring key, consistently ranked',
 'Key scores are the (weighted) match of the chroma with the 24 rotated templates, normalised per mode; the reported key is the best-scoring one, the ranking is complete and ordered, and the confidence is the margin between the first two, within 0..1. Transposing the chroma transposes the detected key, loudness does not matter, and the mode-heuristic, multi-scale, median and ensemble detectors aggregate the single-segment results exactly as documented (segments weigh by their confidence, equally when none has any).',
 ['inputs', 'configurations'], 'every chroma sequence, weight vector, template set and parameter',
 'Tests detect a few synthetic keys.',
 ['src/features/key/detector.rs', 'src/features/key/templates.rs'], [('template scoring and aggregation', 'detect_key*')], SEQ, TRUST + 'Decisions whose operands agree to 1e-5 are ambiguous.')

prop('P18', 'Key names and numerical notation are mutually inverse and total',
 'Each of the 24 keys has one name and one numerical code, the codes are distinct and follow the circle of fifths with relative major and minor sharing a number, and parsing a code gives back exactly the key it was printed from. Any other string is rejected without a panic.',
 ['inputs'], 'every key and every string', 'Tests check a handful of keys and codes.',
 ['src/analysis/result.rs'], [('notation tables', 'Key::name / numerical / from_numerical')], ENUM, TRUST)

prop('P19', 'Confidence scoring follows its published rules for every result',
 'The confidence report is a fixed function of the analysis result: tempo confidence is zero for an unknown tempo and reduced when a tempo warning is present, key confidence is reduced for low clarity and key warnings, and the overall value is the documented weighted combination of the parts that are present. Warning flags appear exactly when the corresponding value is below its limit, and the high/low classification uses the documented limits.',
 ['inputs'], 'every analysis result', 'Tests evaluate a few hand-made results.',
 ['src/analysis/confidence.rs'], [('penalties, weights, flags', 'compute_confidence')], ENUM, TRUST)

prop('P20', 'Harmonic/percussive separation splits energy without creating any',
 'The harmonic and percussive parts have the shape of the input, are non-negative and finite, never exceed it and add up to it. Steady tones go to the harmonic part and clicks to the percussive part according to the medians over time and over frequency within the margin, and malformed spectrograms are rejected.',
 ['inputs', 'configurations'], 'every magnitude spectrogram and margin', 'Tests use one or two constant spectrograms.',
 ['src/features/onset/hpss.rs'], [('median filtering and soft masks', 'hpss_decompose')], ENUM, TRUST)

prop('P21', 'Tempo-variation and metre detection describe the beats they are given',
 'Tempo segments are ordered, cover only the span of the beats, carry the mean tempo of the beats inside them, and are marked variable exactly when the beat spacing varies more than the limit; windows with fewer than three beats give no segment. Metre detection returns one of the supported signatures with a confidence within 0..1, reports 4/4 for evenly spaced beats, needs enough beats, and does not depend on a common time offset of the beats.',
 ['inputs'], 'every beat sequence', 'Tests use perfectly steady or one drifting sequence.',
 ['src/features/beat_tracking/tempo_variation.rs', 'src/features/beat_tracking/time_signature.rs'],
 [('sliding segments and coefficient of variation', 'detect_tempo_variations'), ('accent autocorrelation', 'detect_time_signature')], ENUM, TRUST)

prop('P22', 'Key clarity and key changes reflect the ranked key scores',
 'Key clarity is a number within 0..1 computed from the ranked scores alone, zero when nothing stands out and growing with the margin of the best key. Key-change analysis cuts the track into consecutive segments with the requested length and overlap, reports the detected key of each, the most frequent one as primary, and a change exactly where consecutive confident segments differ, in time order.',
 ['inputs', 'configurations'], 'every score list, chroma sequence and segmentation', 'Tests use single-key chroma.',
 ['src/features/key/key_clarity.rs', 'src/features/key/key_changes.rs'], [('margin formula', 'compute_key_clarity'), ('segment loop', 'detect_key_changes')], SEQ, TRUST)

prop('P23', 'Novelty curves measure increases of spectral energy frame by frame',
 'Superflux, energy-flux and high-frequency novelty curves have one value per frame transition, are non-negative, within 0..1 after normalisation and zero for a steady spectrum; each value is the documented sum of positive changes of the (for superflux log-compressed) spectrum, and the combined curve is the weighted combination of the parts. Loudness of the input does not change the energy, high-frequency and plain spectral flux curves, and malformed spectrograms are rejected.',
 ['inputs', 'configurations'], 'every magnitude spectrogram and option', 'Tests use a few constant or stepped spectrograms.',
 ['src/features/period/novelty.rs'], [('positive flux, normalisation, smoothing', 'superflux_novelty etc.')], ENUM, TRUST)

prop('P24', 'Spectrogram conditioning for key detection keeps shape and energy bounds',
 'Time smoothing, the soft harmonic mask and the median-based harmonic mask return a spectrogram of the same shape whose values are non-negative, finite and (for the masks) never larger than the input, and equal the documented moving average or mask. The estimated tuning deviation is the circular mean of the detuning of the prominent spectral peaks, within half a semitone, and zero when there are none.',
 ['inputs', 'configurations'], 'every magnitude spectrogram, rate, FFT size and option', 'Tests check shapes only.',
 ['src/features/chroma/extractor.rs'], [('smoothing, masks, tuning', 'smooth_spectrogram_time, harmonic_*_mask, estimate_tuning_offset*')], ENUM, TRUST)

prop('P25', 'Results survive being written to and read from JSON',
 'Serializing any result, beat grid or confidence report and reading it back gives the same value, bit for bit in every number, text, flag, key and list. The document has one entry per field under the field\'s name, absent optional diagnostics are left out, a missing or null optional diagnostic reads as absent and unknown entries are ignored. A document that lacks a required entry or has a malformed key is rejected.',
 ['inputs'], 'every result value and every document derived from one', 'No test serializes a result; presence combinations, extreme numbers and hostile texts are not sampled.',
 ['src/analysis/result.rs', 'src/analysis/confidence.rs'], [('derived serialization with omitted optional fields', 'AnalysisResult, AnalysisMetadata, AnalysisConfidence')],
 'exhaustive enumeration of field presence, flag lists, keys and number classes; every document compared with a model and read back', TRUST)

prop('P26', 'Recordings are recognised whatever their level, polarity and padding',
 'With the default configuration a steady click track of at least twelve seconds and 60 to 180 BPM is reported at its tempo or an octave of it (within 5 per cent) at every sample rate from 11 to 48 kHz, and a major chord or I-vi-IV-V progression is reported as the key of its tonic, for all twelve tonics. Inverting the polarity of a recording never changes any part of the result, and neither does scaling its level by a power of two when peak or RMS normalisation is enabled. With peak normalisation and trimming enabled, making digital silence before the first sound or (if it already exceeds the half second that trimming needs) after the last one longer by whole frames changes nothing either.',
 ['inputs', 'configurations'], 'every recording and its transformed versions', 'Tests run a few fixtures once and never relate two analyses.',
 ['src/lib.rs', 'src/preprocessing/normalization.rs', 'src/preprocessing/silence.rs', 'src/features/period/tempogram.rs', 'src/features/key/detector.rs'],
 [('normalise, trim, then relative thresholds only', 'src/lib.rs analyze_audio')],
 'exhaustive enumeration of tempo, rhythm, rate, tonic and voicing grids and of signal x configuration x transformation on the real pipeline', TRUST + 'Synthetic recordings.')

PY = 'exhaustive bounded enumeration executed on the real Python tools against an independent reference model'
PTRUST = 'Bounded: holds for every case of the enumerated space, executed on the real validation toolkit; trusts the harness reference and the Python interpreter. '

prop('P27', 'The validation toolkit reads every spelling of a key as that key',
 'A key written with any letter, sharp or flat sign (ASCII or Unicode), major or minor word or abbreviation, in any letter case and with surrounding blanks, or in numerical wheel notation, is normalised to the one canonical name of its tonic and mode, enharmonic spellings included; normalising again changes nothing. Converting to key and mode numbers and back is the identity, the names the analyser prints are understood, and the circle-of-fifths distance is the number of fifths between two tonics. Any other text gives no key or a canonical one, never an exception.',
 ['inputs'], 'every key text', 'No test of the repository touches the Python toolkit.',
 ['validation/_keys.py', 'validation/tools/prepare_test_batch.py', 'validation/analysis/analyze_key_errors.py'],
 [('spelling normalisation', 'normalize_key'), ('key/mode numbers', 'key_name_to_echonest_key_mode, echonest_key_mode_to_name')], PY, PTRUST)

prop('P28', 'Tags are read back as written, and damaged files never raise',
 'For ID3v2.3 and 2.4 tags in any text encoding, title, artist, album, genre, key and tempo are read back as written, wherever their frames stand among other frames, with padding and terminators; user-defined key and tempo fields are used when the standard ones are missing. A file cut off at any byte yields exactly the fields whose frames are complete, and a file with any damaged byte still yields a well-formed answer with the fields before the damage. Tempo text gives its first number if positive, otherwise no tempo.',
 ['inputs', 'crash_points'], 'every frame sequence, encoding, truncation point and corrupted byte', 'No test of the repository touches the Python toolkit.',
 ['validation/_id3.py', 'validation/tools/run_validation.py'],
 [('frame iteration', 'iter_id3v2_frames'), ('text decoding and precedence', 'read_id3_text_fields'), ('tempo text', 'parse_bpm')],
 'exhaustive enumeration of frame sequences, all truncation points and single-byte corruptions of tagged files, on the real reader', PTRUST)

prop('P29', 'The validation workflow scores every track against its ground truth',
 'Tempo, key, genre and file captured from tags reach the test batch unchanged with unique, reproducible track ids, and later re-tagging does not alter them. A validation run gives exactly one row per track the analyser answered, with the absolute tempo error and the key match against ground truth (or the tag when there is none), whatever other tracks fail and however many jobs run; every analyser option given is passed on exactly once with its value. The printed summaries, error distributions, ratio buckets and key-error counts are those of the rows.',
 ['inputs', 'configurations', 'fault_sequences'], 'every batch, placement of analyser failures, option set and score table', 'No test of the repository touches the Python toolkit.',
 ['validation/tools/build_hllmr_metadata.py', 'validation/tools/prepare_test_batch.py', 'validation/tools/run_validation.py', 'validation/analysis/analyze_results.py', 'validation/analysis/analyze_ratio_buckets.py', 'validation/analysis/analyze_key_errors.py'],
 [('ground-truth capture', 'write_*_csv, read_fma_*_csv'), ('scoring and option forwarding', 'run_validation main')],
 'exhaustive enumeration of failure placements, options, ground-truth rows and score tables on the real tools with a recorded stand-in analyser', PTRUST + 'The analyser is a stand-in that records its arguments.')

prop('P30', 'Diagnosis and tuning reports count every track once, where it belongs',
 'The candidate diagnosis re-analyses exactly the tracks asked for (all, or those beyond the tolerance) of the latest batch, one row each, with the rank of the first candidate within the tolerance of the ground truth, whatever other tracks fail; its report puts every usable track in exactly one error bin. The fallback report counts triggered and used fallbacks and scores tracks with and without them; the exemplar report puts every track in the band of its true tempo and in a ratio bucket it fits and lists the largest errors in order; the tuning sweep runs every parameter combination exactly once, ranks by accuracy and then mean error, and re-runs the best ones when asked.',
 ['inputs', 'configurations', 'fault_sequences'], 'every candidate list, error table, flag table, failure placement and parameter grid', 'No test of the repository touches the Python toolkit.',
 ['validation/analysis/diagnose_candidates.py', 'validation/analysis/analyze_candidate_diagnosis.py', 'validation/analysis/analyze_fallback_flags.py', 'validation/analysis/analyze_exemplars.py', 'validation/tools/sweep_tempogram_tuning.py'],
 [('rank of the ground truth', 'find_rank'), ('error bins', 'analyze_candidate_diagnosis main'), ('leaderboard', 'sweep_tempogram_tuning main')],
 'exhaustive enumeration of candidate lists, failure placements, flag and error tables and parameter grids on the real tools with a recorded stand-in analyser', PTRUST + 'The analyser is a stand-in that records its arguments.')

prop('P31', 'The command-line tools report what the library returns for their input',
 'analyze_file decodes a RIFF/WAVE recording of any common sample format (8 to 32 bit integer, 32 and 64 bit float), channel count and rate to the mean of its channels, analyses it with exactly the configuration the options on its command line describe, whatever their order and with --json before or after the file name, and prints with --json one object whose fields are the values of the library rounded as documented; a file that cannot be read, has no samples or cannot be analysed ends with exit status 1 and no result, and a damaged header never crashes the tool. analyze_batch prints exactly one line per file, in the order given, whatever the number of jobs, the place of failing files and the characters in their names: the result of that file, or an error.',
 ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every sample format x channel count x rate, every option and option pair, every sequence of good and bad files and job count, every cut or damaged header byte', 'No test of the repository runs the tools.',
 ['examples/analyze_file.rs', 'examples/analyze_batch.rs', 'src/config.rs'],
 [('decoding and downmix', 'decode_audio_file'), ('options to configuration', 'examples/analyze_file.rs main'), ('one line per file in order', 'examples/analyze_batch.rs main')],
 'exhaustive enumeration of recordings, option sets, file sequences and header damage given to the real tools, compared field by field with the library', TRUST + 'The stages behind the tools are decided by the other properties. Compressed formats, decoded by a dependency, are not covered.')
