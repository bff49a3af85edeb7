From d8da199caca79bf9a088d427f7143f5f78e81bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:11 +0000
Subject: [PATCH 01/33] fix: report pre-normalization RMS in LoudnessMetadata
 for peak and LUFS methods

---
 src/preprocessing/normalization.rs | 36 ++++++++++++------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 5aca65f..2f3797c 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -294,12 +294,7 @@ fn normalize_peak(
     // Ensure we don't exceed 1.0
     let gain_linear = gain_linear.min(1.0 / peak);
 
-    // Apply gain
-    for sample in samples.iter_mut() {
-        *sample *= gain_linear;
-    }
-
-    // Calculate RMS for metadata
+    // Calculate RMS for metadata (before the gain is applied)
     let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
@@ -307,6 +302,11 @@ fn normalize_peak(
         f32::NEG_INFINITY
     };
 
+    // Apply gain
+    for sample in samples.iter_mut() {
+        *sample *= gain_linear;
+    }
+
     log::debug!(
         "Peak normalization: peak={:.2} dB, gain={:.2} dB",
         peak_db,
@@ -427,6 +427,14 @@ fn normalize_lufs(
     let peak = samples.iter().map(|&x| x.abs()).fold(0.0f32, f32::max);
     let peak_db = 20.0 * peak.log10();
 
+    // Calculate RMS for metadata (before the gain is applied)
+    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms_db = if rms > EPSILON {
+        20.0 * rms.log10()
+    } else {
+        f32::NEG_INFINITY
+    };
+
     let new_peak = peak * gain_linear;
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     if new_peak > target_peak_linear {
@@ -439,14 +447,6 @@ fn normalize_lufs(
             *sample *= max_gain_linear;
         }
 
-        // Calculate RMS for metadata
-        let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-        let rms_db = if rms > EPSILON {
-            20.0 * rms.log10()
-        } else {
-            f32::NEG_INFINITY
-        };
-
         return Ok(LoudnessMetadata {
             measured_lufs: Some(measured_lufs),
             peak_db,
@@ -460,14 +460,6 @@ fn normalize_lufs(
         *sample *= gain_linear;
     }
 
-    // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-    let rms_db = if rms > EPSILON {
-        20.0 * rms.log10()
-    } else {
-        f32::NEG_INFINITY
-    };
-
     log::debug!(
         "LUFS normalization: measured={:.2} LUFS, target={:.2} LUFS, gain={:.2} dB",
         measured_lufs,
-- 
2.43.0


From 040cfca7f8e4853f9472409a3ad776fecb57157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:11 +0000
Subject: [PATCH 02/33] fix: silence detection no longer divides by zero for a
 one-sample frame size

---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From ed21e93f8a4f703c9ad801d04a4f2fb5b44fe0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:30 +0000
Subject: [PATCH 03/33] fix: trailing silence no longer swallows audible
 samples after the last full frame

---
 src/preprocessing/silence.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index b31a8df..ac609f4 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -222,10 +222,22 @@ pub fn detect_and_trim(
         let silence_duration_frames = num_frames - silence_start_frame;
         if silence_duration_frames >= min_duration_frames || silence_start_frame == 0 {
             let start_sample = frame_starts[silence_start_frame];
+            // The samples after the last full frame were not analyzed above: the silence only
+            // extends to the end of the audio if they are silent too.
+            let analyzed_end =
+                (frame_starts[num_frames - 1] + detector.frame_size).min(samples.len());
+            let tail = &samples[analyzed_end..];
+            let tail_sum_sq: f32 = tail.iter().map(|&x| x * x).sum();
+            let tail_rms = (tail_sum_sq / tail.len().max(1) as f32).sqrt();
+            let end_sample = if tail_rms <= threshold_linear {
+                samples.len()
+            } else {
+                analyzed_end
+            };
             silence_regions.push(SilenceRegion {
                 start_sample,
-                end_sample: samples.len(),
-                duration_seconds: (samples.len() - start_sample) as f32 / sample_rate as f32,
+                end_sample,
+                duration_seconds: (end_sample - start_sample) as f32 / sample_rate as f32,
             });
         }
     }
-- 
2.43.0


From 7982f6fbcebec84015572fe31a046408b8f3ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:40 +0000
Subject: [PATCH 04/33] fix: consensus confidence counts each detection method
 once per onset cluster

---
 src/features/onset/consensus.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..4ce59c0 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -244,8 +244,11 @@ pub fn vote_onsets(
         let mut voted_by_methods = [false; 4]; // Track which methods voted
 
         for onset in cluster {
-            total_weight += onset.weight;
-            voted_by_methods[onset.method_idx] = true;
+            // A method votes once per cluster, however many of its onsets fall into it
+            if !voted_by_methods[onset.method_idx] {
+                total_weight += onset.weight;
+                voted_by_methods[onset.method_idx] = true;
+            }
         }
 
         // Count number of unique methods that voted
-- 
2.43.0


From 4d8ac31e4d085f2d64cc0759402512c487a1a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:40 +0000
Subject: [PATCH 05/33] fix: consensus clustering no longer truncates sample
 positions to 32 bits

---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 4ce59c0..0053db3 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From 750ef04d956976d6520e6c83d83b4b0527ee067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:32 +0000
Subject: [PATCH 06/33] fix: key voting breaks score ties by rank instead of
 hash-map iteration order

---
 src/features/key/detector.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..e794ea9 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -257,18 +257,25 @@ pub fn detect_key_weighted(
         second_score >= score_threshold && third_score >= score_threshold * 0.90;
 
     let final_key = if use_weighted_voting {
-        // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        // Weighted voting: count occurrences of each key in top 3, weighted by score.
+        // Votes are kept in rank order so that ties resolve to the higher-ranked key.
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            match key_votes.iter_mut().find(|(k, _)| k == key) {
+                Some((_, votes)) => *votes += vote_weight,
+                None => key_votes.push((*key, vote_weight)),
+            }
         }
 
-        // Select key with highest vote count
+        // Select key with highest vote count (first one wins a tie)
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
-            .map(|(k, _)| *k)
+            .fold(None::<(Key, f32)>, |best, cur| match best {
+                Some(b) if cur.1 <= b.1 || cur.1.is_nan() => Some(b),
+                _ => Some(*cur),
+            })
+            .map(|(k, _)| k)
             .unwrap_or(best_key)
     } else {
         best_key
-- 
2.43.0


From 514a4fb02a8b9a6212fe3465e157f2a87e63983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:34 +0000
Subject: [PATCH 07/33] fix: median and primary key ties no longer depend on
 hash-map iteration order

---
 src/features/key/detector.rs    | 19 ++++++++++++-------
 src/features/key/key_changes.rs | 16 ++++++++++------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index e794ea9..837584f 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -776,18 +776,23 @@ pub fn detect_key_median(
         return detect_key_weighted(chroma_vectors, templates, frame_weights);
     }
 
-    // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // Count key occurrences (weighted by confidence), in order of first appearance so that
+    // the selection below does not depend on hash-map iteration order
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += result.confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += result.confidence;
+            }
+            None => key_counts.push((*key, (1, result.confidence))),
+        }
     }
 
-    // Select median key (most common, with confidence as tiebreaker)
+    // Select median key (most common, with confidence as tiebreaker, then first appearance)
     let (median_key, (count, _total_conf)) = key_counts
         .iter()
+        .rev() // max_by keeps the last maximum
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..da8162b 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -131,17 +131,21 @@ pub fn detect_key_changes(
         ));
     }
 
-    // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // Find primary key (most common; the earliest one wins a tie)
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
-        entry.0 += 1;
-        entry.1 += confidence;
+        match key_counts.iter_mut().find(|(k, _)| k == key) {
+            Some((_, entry)) => {
+                entry.0 += 1;
+                entry.1 += confidence;
+            }
+            None => key_counts.push((*key, (1, *confidence))),
+        }
     }
 
     let (primary_key, (count, total_confidence)) = key_counts
         .iter()
+        .rev() // max_by_key keeps the last maximum
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-- 
2.43.0


From 0662d08bd7305498b14ec304cd1a0a1f499af4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:34 +0000
Subject: [PATCH 08/33] fix: Key::from_numerical returns None for notations
 ending in a multi-byte character

---
 src/analysis/result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..20d9d7b 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -111,7 +111,7 @@ impl Key {
     /// assert_eq!(Key::from_numerical("13A"), None); // Invalid
     /// ```
     pub fn from_numerical(notation: &str) -> Option<Self> {
-        if notation.len() < 2 {
+        if notation.len() < 2 || !notation.is_char_boundary(notation.len() - 1) {
             return None;
         }
 
-- 
2.43.0


From 1c6fd87b5b9fe69d3bd5f8a995a3fe8a33443bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:34 +0000
Subject: [PATCH 09/33] fix: detect_key_changes rejects an overlap longer than
 the segment instead of underflowing

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index da8162b..621135e 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 22ec103a83a7b50e900acd40433ba3b1a8a4add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:46 +0000
Subject: [PATCH 10/33] fix: compute_stft rejects zero frame/hop sizes and
 stays finite for one-sample frames

---
 src/features/chroma/extractor.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..6338463 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -305,6 +305,12 @@ pub fn compute_stft(
 ) -> Result<Vec<Vec<f32>>, AnalysisError> {
     let n_samples = samples.len();
 
+    if frame_size == 0 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(
+            "Frame size and hop size must be > 0".to_string(),
+        ));
+    }
+
     if n_samples < frame_size {
         // Not enough samples for even one frame
         return Ok(vec![]);
@@ -317,7 +323,7 @@ pub fn compute_stft(
     // Create Hann window
     let window: Vec<f32> = (0..frame_size)
         .map(|i| {
-            let x = 2.0 * std::f32::consts::PI * i as f32 / (frame_size - 1) as f32;
+            let x = 2.0 * std::f32::consts::PI * i as f32 / (frame_size - 1).max(1) as f32;
             0.5 * (1.0 - x.cos())
         })
         .collect();
-- 
2.43.0


From 46eb15dc347de3c57f59f7d03bfb59cf18dd77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:47 +0000
Subject: [PATCH 11/33] fix: key spectrogram helpers no longer panic when the
 band lies above the Nyquist frequency

---
 src/features/chroma/extractor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6338463..1891754 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -98,7 +98,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -740,6 +740,11 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     let nyquist = sample_rate as f32 / 2.0;
     let fmin = fmin_hz.max(20.0);
     let fmax = fmax_hz.min(nyquist - 1.0);
+    if fmin >= fmax {
+        return Err(AnalysisError::InvalidInput(
+            "Invalid semitone range: fmin >= fmax".to_string(),
+        ));
+    }
 
     // Compute semitone range: convert frequency bounds to semitones
     // semitone = 12 * log2(freq / 440.0) + 57.0
@@ -1409,7 +1414,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
-- 
2.43.0


From e1e57c829f2d7e2df5df30f0f817f796f1a2b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:55 +0000
Subject: [PATCH 12/33] fix: legacy tempo estimate reports a confidence within
 0..1

---
 src/features/period/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index ed193f4..1efc88e 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -338,7 +338,7 @@ fn estimate_bpm_internal(
         }
     }
 
-    let best = merged_vec.first().cloned();
+    let mut best = merged_vec.first().cloned();
     if let Some(ref est) = best {
         log::debug!("=== FINAL BPM SELECTION ===");
         log::debug!(
@@ -400,5 +400,9 @@ fn estimate_bpm_internal(
             log::debug!("  → Won: highest confidence");
         }
     }
+    // The boosts above are for ranking only: the reported confidence stays within [0, 1]
+    if let Some(est) = best.as_mut() {
+        est.confidence = est.confidence.min(1.0);
+    }
     Ok(best)
 }
-- 
2.43.0


From 5cdf923f89d380f666f7764e5360f6b89c99bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:08 +0000
Subject: [PATCH 13/33] fix: comb filter rejects tempo grids that never advance

---
 src/features/period/comb_filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..faffda4 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -137,6 +137,14 @@ pub fn estimate_bpm_from_comb_filter(
         )));
     }
 
+    // The candidate grid below must be finite: every step has to move the candidate
+    if !max_bpm.is_finite() || max_bpm + bpm_resolution <= max_bpm {
+        return Err(crate::error::AnalysisError::InvalidInput(format!(
+            "Invalid BPM grid: range=[{:.1}, {:.1}], resolution={:e}",
+            min_bpm, max_bpm, bpm_resolution
+        )));
+    }
+
     // Need at least 2 onsets for meaningful scoring
     if onsets.len() < 2 {
         log::warn!("Too few onsets for comb filter: {}", onsets.len());
-- 
2.43.0


From 59e1e769e131c8119c8b8029c58581506cfe331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:27 +0000
Subject: [PATCH 14/33] fix: FFT rounding noise in the onset autocorrelation is
 no longer reported as a tempo

---
 src/features/period/autocorrelation.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..6195ecf 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -252,11 +252,19 @@ fn compute_autocorrelation_fft(signal: &[f32]) -> Result<Vec<f32>, crate::error:
 
     // Extract real part and normalize by FFT size
     let scale = 1.0 / (fft_size as f32);
-    let acf: Vec<f32> = fft_input[..n]
+    let mut acf: Vec<f32> = fft_input[..n]
         .iter()
         .map(|x| (x.re * scale).max(0.0)) // Autocorrelation is non-negative
         .collect();
 
+    // Lags without any coincidence only carry FFT rounding noise: it must not look like a peak
+    let noise_floor = acf[0] * 1e-6;
+    for value in acf.iter_mut() {
+        if *value < noise_floor {
+            *value = 0.0;
+        }
+    }
+
     // Note: Ellis & Pikrakis (2006) mentions optional normalization by signal length
     // (ACF[lag] = ACF[lag] / (n - lag)) for better consistency across signal lengths.
     // However, this normalization can affect peak detection by favoring shorter lags,
-- 
2.43.0


From c50fe068b37470f63891e89ca5a968641afc90d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:36 +0000
Subject: [PATCH 15/33] fix: mel novelty no longer panics when the band starts
 at or above the Nyquist frequency

---
 src/features/period/novelty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..9c4fd54 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,8 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        // (not clamp: a band starting at or above Nyquist has no valid upper bound)
+        let fmax = fmax.min(nyquist).max(fmin + 1.0);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From ef7aab68d82ed6464ca422260a1fd3ab704a5c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:50 +0000
Subject: [PATCH 16/33] fix: autocorrelation tempogram rejects tempo grids that
 never advance

---
 src/features/period/tempogram_autocorr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..9744b04 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -116,6 +116,14 @@ pub fn autocorrelation_tempogram(
         )));
     }
 
+    // The hypothesis grid below must be finite: every step has to move the hypothesis
+    if !max_bpm.is_finite() || max_bpm + bpm_resolution <= max_bpm {
+        return Err(AnalysisError::InvalidInput(format!(
+            "Invalid BPM grid: min={}, max={}, resolution={}",
+            min_bpm, max_bpm, bpm_resolution
+        )));
+    }
+
     // Compute frame rate (frames per second)
     let frame_rate = sample_rate as f32 / hop_size as f32;
 
-- 
2.43.0


From 04f703eaa50ec0d35ccd886985802c62412fffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:48 +0000
Subject: [PATCH 17/33] fix: multi-resolution octave folding stays inside the
 requested tempo range

---
 src/features/period/multi_resolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..f37a43a 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -697,7 +697,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-down (high -> half)
     if best.bpm >= 170.0 {
         let half = best.bpm * 0.5;
-        if (70.0..=120.0).contains(&half) {
+        if (70.0..=120.0).contains(&half) && half >= min_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_half, a_half) = total_support(&c256, &c512, &c1024, half, tol);
             let ratio = if s_best > 0.0 { s_half / s_best } else { 0.0 };
@@ -726,7 +726,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-up (low -> double)
     if best.bpm <= 80.0 {
         let dbl = best.bpm * 2.0;
-        if (70.0..=180.0).contains(&dbl) {
+        if (70.0..=180.0).contains(&dbl) && dbl <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_dbl, a_dbl) = total_support(&c256, &c512, &c1024, dbl, tol);
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
-- 
2.43.0


From 029ee9c41cafaeb91835dbab72547c276d786dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 18/33] fix: metre detection keeps 4/4 when the beats fit every
 metre equally well

---
 src/features/beat_tracking/time_signature.rs | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/features/beat_tracking/time_signature.rs b/src/features/beat_tracking/time_signature.rs
index 8f45285..1384a09 100644
--- a/src/features/beat_tracking/time_signature.rs
+++ b/src/features/beat_tracking/time_signature.rs
@@ -34,6 +34,9 @@ use crate::error::AnalysisError;
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
 
+/// Minimum score advantage for preferring a less common time signature
+const MIN_SCORE_MARGIN: f32 = 1e-3;
+
 /// Musical time signature
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum TimeSignature {
@@ -136,16 +139,20 @@ pub fn detect_time_signature(
     let score_68 = score_time_signature(&intervals, 6, mean_interval);
     scores.push((TimeSignature::SixEight, score_68));
 
-    // Find best match
-    let (best_sig, best_score) = scores
-        .iter()
-        .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
-        .unwrap();
+    // Find best match. Evenly spaced beats fit every hypothesis equally well: keep the earlier
+    // (more common) signature unless a later one is better by more than rounding noise.
+    let (mut best_sig, mut best_score) = scores[0];
+    for &(sig, score) in &scores[1..] {
+        if score > best_score + MIN_SCORE_MARGIN {
+            best_sig = sig;
+            best_score = score;
+        }
+    }
 
     // Normalize confidence to [0, 1]
-    let confidence = (*best_score).clamp(0.0, 1.0);
+    let confidence = best_score.clamp(0.0, 1.0);
 
-    Ok((*best_sig, confidence))
+    Ok((best_sig, confidence))
 }
 
 /// Score a time signature hypothesis
-- 
2.43.0


From 766dd95d3cf563b8131d03241771cec7cf241be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 19/33] fix: tempo tracker no longer drifts down on onsets that
 do not distinguish tempi

---
 src/features/beat_tracking/bayesian.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/bayesian.rs b/src/features/beat_tracking/bayesian.rs
index 9fceeab..14b0265 100644
--- a/src/features/beat_tracking/bayesian.rs
+++ b/src/features/beat_tracking/bayesian.rs
@@ -134,7 +134,13 @@ impl BayesianBeatTracker {
         for &candidate_bpm in &bpm_candidates {
             let likelihood = self.compute_likelihood(onsets, candidate_bpm)?;
 
-            if likelihood > best_likelihood {
+            // Equally likely candidates are decided by the prior, so that evidence which does not
+            // distinguish tempi (e.g. a single onset) does not move the estimate
+            let tie = likelihood == best_likelihood
+                && likelihood > 0.0
+                && self.compute_prior(candidate_bpm) > self.compute_prior(best_bpm);
+
+            if likelihood > best_likelihood || tie {
                 best_likelihood = likelihood;
                 best_bpm = candidate_bpm;
             }
-- 
2.43.0


From ca77c9612635c960b6c5195e8a2e1ef65a5bd526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 20/33] fix: beat grids of variable-tempo tracks no longer
 repeat the beats of overlapping segments

---
 src/features/beat_tracking/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..421b681 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -210,7 +210,21 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
-            beat_positions = refined_beats;
+
+            // Segments overlap: where two of them report the same beat, keep the more confident one
+            let min_gap = 0.5 * 60.0 / bpm_estimate;
+            let mut merged_beats: Vec<BeatPosition> = Vec::with_capacity(refined_beats.len());
+            for beat in refined_beats {
+                match merged_beats.last_mut() {
+                    Some(last) if beat.time_seconds - last.time_seconds < min_gap => {
+                        if beat.confidence > last.confidence {
+                            *last = beat;
+                        }
+                    }
+                    _ => merged_beats.push(beat),
+                }
+            }
+            beat_positions = merged_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
                 beat_positions.len()
-- 
2.43.0


From 14670707de1b756616296a0ce5cb0f161ae20f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 21/33] fix: beat tracking rejects non-finite tempi and onset
 times instead of panicking

---
 src/features/beat_tracking/hmm.rs | 5 ++++-
 src/features/beat_tracking/mod.rs | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/features/beat_tracking/hmm.rs b/src/features/beat_tracking/hmm.rs
index d22c41a..2b86337 100644
--- a/src/features/beat_tracking/hmm.rs
+++ b/src/features/beat_tracking/hmm.rs
@@ -120,7 +120,10 @@ impl HmmBeatTracker {
     /// based on distance to nearest onset.
     pub fn track_beats(&self) -> Result<Vec<BeatPosition>, AnalysisError> {
         // Validate inputs
-        if self.bpm_estimate <= EPSILON || self.bpm_estimate > 300.0 {
+        if !self.bpm_estimate.is_finite()
+            || self.bpm_estimate <= EPSILON
+            || self.bpm_estimate > 300.0
+        {
             return Err(AnalysisError::InvalidInput(format!(
                 "Invalid BPM estimate: {:.2} (must be > 0 and <= 300)",
                 self.bpm_estimate
diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 421b681..83c7790 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -111,7 +111,7 @@ pub fn generate_beat_grid(
     onsets: &[f32],
     sample_rate: u32,
 ) -> Result<(BeatGrid, f32), AnalysisError> {
-    if bpm_estimate <= 0.0 || bpm_estimate > 300.0 {
+    if !bpm_estimate.is_finite() || bpm_estimate <= 0.0 || bpm_estimate > 300.0 {
         return Err(AnalysisError::InvalidInput(format!(
             "Invalid BPM estimate: {:.2}",
             bpm_estimate
@@ -124,6 +124,12 @@ pub fn generate_beat_grid(
         ));
     }
 
+    if onsets.iter().any(|t| !t.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Cannot generate beat grid: onset times must be finite".to_string(),
+        ));
+    }
+
     log::debug!(
         "Generating beat grid: BPM={:.2}, confidence={:.3}, {} onsets",
         bpm_estimate,
-- 
2.43.0


From 5ebf72a6f4df7f1c74213c68ac6998c74d4f91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:02 +0000
Subject: [PATCH 22/33] fix: median key detection reported all-zero scores when
 no segment has any confidence

---
 src/features/key/detector.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 837584f..5f59a53 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -816,12 +816,15 @@ pub fn detect_key_median(
         };
 
         // Sum scores for this key across all segments
+        // (weighted by confidence; plain average when no segment has any)
+        let unweighted = !segment_scores.iter().any(|r| r.confidence > 0.0);
         let mut total_score = 0.0f32;
         let mut total_weight = 0.0f32;
         for result in &segment_scores {
             if let Some((_, score)) = result.all_scores.iter().find(|(k, _)| *k == key) {
-                total_score += *score * result.confidence;
-                total_weight += result.confidence;
+                let weight = if unweighted { 1.0 } else { result.confidence };
+                total_score += *score * weight;
+                total_weight += weight;
             }
         }
 
-- 
2.43.0


From 3b56632e02853c71edee36c78c488fcd6940c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:16 +0000
Subject: [PATCH 23/33] fix: enable_key_median had no effect on the analysis

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..0234dbc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -976,6 +976,7 @@ pub fn analyze_audio(
         };
         use features::chroma::normalization::sharpen_chroma;
         use features::chroma::smoothing::smooth_chroma;
+        use features::key::detector::detect_key_median;
         use features::key::{
             compute_key_clarity, detect_key_ensemble, detect_key_multi_scale, detect_key_weighted,
             detect_key_weighted_mode_heuristic, KeyDetectionResult, KeyTemplates,
@@ -1328,6 +1329,16 @@ pub fn analyze_audio(
                             config.enable_key_minor_harmonic_bonus,
                             config.key_minor_leading_tone_bonus_weight,
                         )
+                    // Optional: median key detection (most common key across short segments).
+                    } else if config.enable_key_median {
+                        detect_key_median(
+                            chroma_slice,
+                            &templates,
+                            frame_weights.as_deref(),
+                            config.key_median_segment_length_frames,
+                            config.key_median_segment_hop_frames,
+                            config.key_median_min_segments,
+                        )
                     // Optional: segment voting (windowed detection + clarity-weighted score accumulation).
                     } else if config.enable_key_segment_voting
                         && chroma_slice.len() >= config.key_segment_len_frames.max(1)
-- 
2.43.0


From fea2c19b2faa78ae51ad007af6625022f53ee3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:25 +0000
Subject: [PATCH 24/33] fix: non-finite samples made the analysis panic instead
 of returning an error

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0234dbc..3067ce4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,12 @@ pub fn analyze_audio(
         ));
     }
 
+    if samples.iter().any(|s| !s.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Audio samples must be finite".to_string(),
+        ));
+    }
+
     // Phase 1A: Preprocessing
     let mut processed_samples = samples.to_vec();
 
-- 
2.43.0


From bd1239bc265d04e7a282d33e59f6d6452ac065f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:40 +0000
Subject: [PATCH 25/33] fix: key detection panicked when an option makes a
 score NaN

---
 src/features/key/key_clarity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 51f7efb..5d12ac5 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -73,11 +73,11 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     // Find range (max - min)
     let min_score = *score_values
         .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap();
     let max_score = *score_values
         .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap();
     let range = max_score - min_score;
 
-- 
2.43.0


From ec7ddd337b48e5df7eb663bec881dfb9fa962a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:55 +0000
Subject: [PATCH 26/33] fix: very large window and hop options overflowed

---
 src/features/chroma/extractor.rs | 4 ++++
 src/features/key/detector.rs     | 4 ++--
 src/features/onset/hpss.rs       | 4 ++--
 src/features/period/novelty.rs   | 6 +++---
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 1891754..ac85352 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -1279,6 +1279,7 @@ pub fn smooth_spectrogram_time(
         }
     }
 
+    let margin = margin.min(n_frames);
     let mut out = vec![vec![0.0f32; n_bins]; n_frames];
 
     // For each bin, do a sliding window average over time.
@@ -1448,6 +1449,9 @@ pub fn harmonic_spectrogram_hpss_median_mask(
         *m
     }
 
+    let time_margin = time_margin.min(n_ds);
+    let freq_margin = freq_margin.min(band_bins);
+
     // Harmonic estimate: median across time (horizontal median filter).
     let mut h_est = vec![vec![0.0f32; band_bins]; n_ds];
     let mut scratch: Vec<f32> = Vec::with_capacity(2 * time_margin + 1);
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 5f59a53..77d0245 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -602,7 +602,7 @@ pub fn detect_key_multi_scale(
             continue;
         }
 
-        let hop = segment_hop_frames.max(1);
+        let hop = segment_hop_frames.clamp(1, chroma_vectors.len());
         let mut start = 0usize;
 
         // Process all segments at this scale
@@ -740,7 +740,7 @@ pub fn detect_key_median(
     }
 
     let seg_len = segment_length_frames.min(chroma_vectors.len()).max(120); // Not a simple clamp: min first, then max
-    let hop = segment_hop_frames.max(1);
+    let hop = segment_hop_frames.clamp(1, chroma_vectors.len());
     let min_seg = min_segments.max(1);
 
     // Detect key for each segment
diff --git a/src/features/onset/hpss.rs b/src/features/onset/hpss.rs
index e90c795..67b65a3 100644
--- a/src/features/onset/hpss.rs
+++ b/src/features/onset/hpss.rs
@@ -187,7 +187,7 @@ fn apply_horizontal_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Ve
         for frame_idx in 0..n_frames {
             // Collect values in window around current frame
             let start = frame_idx.saturating_sub(margin);
-            let end = (frame_idx + margin + 1).min(n_frames);
+            let end = frame_idx.saturating_add(margin).saturating_add(1).min(n_frames);
 
             let mut window: Vec<f32> = (start..end).map(|f| spectrogram[f][bin_idx]).collect();
 
@@ -221,7 +221,7 @@ fn apply_vertical_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Vec<
         for bin_idx in 0..n_bins {
             // Collect values in window around current bin
             let start = bin_idx.saturating_sub(margin);
-            let end = (bin_idx + margin + 1).min(n_bins);
+            let end = bin_idx.saturating_add(margin).saturating_add(1).min(n_bins);
 
             let mut window: Vec<f32> = (start..end).map(|b| spectrogram[frame_idx][b]).collect();
 
diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index 9c4fd54..8ff6ff3 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -347,7 +347,7 @@ pub fn superflux_novelty(
         return Ok(Vec::new());
     }
 
-    let k = max_filter_bins.max(1);
+    let k = max_filter_bins.clamp(1, n_bins);
 
     // Precompute log-compressed frames
     let mut log_frames: Vec<Vec<f32>> = Vec::with_capacity(magnitude_spec_frames.len());
@@ -414,7 +414,7 @@ pub fn superflux_novelty_band(
         return Ok(Vec::new());
     }
 
-    let k = max_filter_bins.max(1);
+    let k = max_filter_bins.clamp(1, n_bins);
 
     // Precompute log-compressed frames (full frame, reused for band lookup).
     let mut log_frames: Vec<Vec<f32>> = Vec::with_capacity(magnitude_spec_frames.len());
@@ -565,7 +565,7 @@ pub fn mel_superflux_novelty(
     }
 
     let fb = MelFilterbank::new(sample_rate, n_bins, n_mels, fmin_hz, fmax_hz)?;
-    let k = max_filter_mels.max(1);
+    let k = max_filter_mels.clamp(1, n_bins.max(n_mels).max(1));
 
     // Precompute mel frames
     let mut mel_frames: Vec<Vec<f32>> = Vec::with_capacity(magnitude_spec_frames.len());
-- 
2.43.0


From dc91f0b83808345d59953b776ba3df477d4649f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 27/33] fix: a NaN tuning limit made the analysis panic

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3067ce4..009b0d2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1111,10 +1111,11 @@ pub fn analyze_audio(
                     config.key_tuning_frame_step,
                     config.key_tuning_peak_rel_threshold,
                 ) {
-                    Ok(d) => d.clamp(
-                        -config.key_tuning_max_abs_semitones.abs(),
-                        config.key_tuning_max_abs_semitones.abs(),
-                    ),
+                    Ok(d) => {
+                        // (max() maps a NaN limit to 0)
+                        let limit = config.key_tuning_max_abs_semitones.abs().max(0.0);
+                        d.clamp(-limit, limit)
+                    }
                     Err(e) => {
                         log::warn!("Key tuning estimation failed: {}", e);
                         0.0
-- 
2.43.0


From 2bc2f87179b132e65cf43e9e039e8b02890972ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:42 +0000
Subject: [PATCH 28/33] fix: NaN chroma or key scores made smoothing and key
 ranking panic

---
 src/features/chroma/smoothing.rs | 2 +-
 src/features/key/detector.rs     | 4 ++--
 src/lib.rs                       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/features/chroma/smoothing.rs b/src/features/chroma/smoothing.rs
index 2b082a0..4086083 100644
--- a/src/features/chroma/smoothing.rs
+++ b/src/features/chroma/smoothing.rs
@@ -79,7 +79,7 @@ pub fn smooth_chroma(chroma_vectors: &[Vec<f32>], window_size: usize) -> Vec<Vec
 
             // Compute median
             if !window_values.is_empty() {
-                window_values.sort_by(|a, b| a.partial_cmp(b).unwrap());
+                window_values.sort_by(|a, b| a.total_cmp(b));
                 let median_idx = window_values.len() / 2;
                 smoothed_frame[semitone_idx] = window_values[median_idx];
             } else {
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 77d0245..8f2c41d 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -243,7 +243,7 @@ pub fn detect_key_weighted(
     scores = refined_scores;
 
     // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
@@ -681,7 +681,7 @@ pub fn detect_key_multi_scale(
         }
 
         // Sort and build result
-        acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+        acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
         let (best_key, best_score) = acc_scores[0];
         let second_score = if acc_scores.len() > 1 {
             acc_scores[1].1
diff --git a/src/lib.rs b/src/lib.rs
index 009b0d2..41da069 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1430,7 +1430,7 @@ pub fn analyze_audio(
                             }
                         } else {
                             // Sort accumulated scores and build a KeyDetectionResult.
-                            acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+                            acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
                             let (best_key, best_score) = acc_scores[0];
                             let second_score = if acc_scores.len() > 1 {
                                 acc_scores[1].1
-- 
2.43.0


From a9d26756b15ce22ddbe1b2016b01a8c288078a14 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:38 +0000
Subject: [PATCH 29/33] fix: UTF-16 user text tags were split inside a
 character

The description/value separator of a UTF-16 TXXX frame was searched at any
byte offset, so 'key' or 'bpm' tags written as UTF-16 were never recognised.
---
 validation/_id3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/validation/_id3.py b/validation/_id3.py
index 8231d42..eedff21 100644
--- a/validation/_id3.py
+++ b/validation/_id3.py
@@ -145,7 +145,12 @@ def read_id3_text_fields(mp3_path: Path) -> dict:
             if enc in (0, 3):  # single-byte encodings
                 parts = rest.split(b"\x00", 1)
             else:  # UTF-16 variants
-                parts = rest.split(b"\x00\x00", 1)
+                # The terminator is a whole (aligned) code unit: "y\x00" + "\x00\x00"
+                # also contains an unaligned pair of zero bytes.
+                end = rest.find(b"\x00\x00")
+                while end >= 0 and end % 2 == 1:
+                    end = rest.find(b"\x00\x00", end + 1)
+                parts = [rest[:end], rest[end + 2:]] if end >= 0 else [rest]
             if len(parts) != 2:
                 continue
             desc = _decode_text_frame(bytes([enc]) + parts[0]).strip()
-- 
2.43.0


From 681af76ea7c2f3224bad548bbe6638878bab8aba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:38 +0000
Subject: [PATCH 30/33] fix: run_validation accepted the --key-median options
 but dropped them

---
 validation/tools/run_validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/validation/tools/run_validation.py b/validation/tools/run_validation.py
index 601f585..f5259fd 100644
--- a/validation/tools/run_validation.py
+++ b/validation/tools/run_validation.py
@@ -567,6 +567,18 @@ def main():
     if args.key_ensemble_temperley_weight is not None:
         extra_args += ["--key-ensemble-temperley-weight", str(float(args.key_ensemble_temperley_weight))]
 
+    # Pass-through key median flags (if provided)
+    if args.key_median:
+        extra_args.append("--key-median")
+    if args.no_key_median:
+        extra_args.append("--no-key-median")
+    if args.key_median_segment_length_frames is not None:
+        extra_args += ["--key-median-segment-length-frames", str(int(args.key_median_segment_length_frames))]
+    if args.key_median_segment_hop_frames is not None:
+        extra_args += ["--key-median-segment-hop-frames", str(int(args.key_median_segment_hop_frames))]
+    if args.key_median_min_segments is not None:
+        extra_args += ["--key-median-min-segments", str(int(args.key_median_min_segments))]
+
     # Pass-through multi-resolution tuning flags (if provided)
     if args.multi_res_top_k is not None:
         extra_args += ["--multi-res-top-k", str(args.multi_res_top_k)]
-- 
2.43.0


From 8819121ae796aedf01a0b803e4cec10350bcfec6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:38 +0000
Subject: [PATCH 31/33] fix: Cb, Fb, E# and B# keys were not normalised to
 their enharmonic name

---
 validation/_keys.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/validation/_keys.py b/validation/_keys.py
index efda7a5..0d13e0d 100644
--- a/validation/_keys.py
+++ b/validation/_keys.py
@@ -100,9 +100,19 @@ def normalize_key(key_str: str) -> str:
             accidental = "b"
 
     base = note + accidental
-    # Convert flats to sharps
-    flat_map = {"Db": "C#", "Eb": "D#", "Gb": "F#", "Ab": "G#", "Bb": "A#"}
-    base = flat_map.get(base, base)
+    # Convert flats (and enharmonic spellings of naturals) to the canonical sharps
+    enharmonic = {
+        "Db": "C#",
+        "Eb": "D#",
+        "Gb": "F#",
+        "Ab": "G#",
+        "Bb": "A#",
+        "Cb": "B",
+        "Fb": "E",
+        "E#": "F",
+        "B#": "C",
+    }
+    base = enharmonic.get(base, base)
 
     return base + ("m" if is_minor else "")
 
-- 
2.43.0


From 0b46f247d3d97e11a81ae772dc4834dcd9e5e381 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:48:38 +0000
Subject: [PATCH 32/33] fix: a superscript digit in a key tag made key
 normalisation raise

---
 validation/_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validation/_keys.py b/validation/_keys.py
index 0d13e0d..087eae0 100644
--- a/validation/_keys.py
+++ b/validation/_keys.py
@@ -57,7 +57,7 @@ def normalize_key(key_str: str) -> str:
     if (
         len(s_upper) in (2, 3)
         and s_upper[-1] in ("A", "B")
-        and s_upper[:-1].isdigit()
+        and s_upper[:-1].isdecimal()
         and 1 <= int(s_upper[:-1]) <= 12
     ):
         mapped = _numerical_to_key(s_upper)
-- 
2.43.0


From aa5173cb4231bd1857c041500c7b69365073536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 33/33] fix: tracks with zero tempo error were in no bin of the
 candidate diagnosis report

---
 validation/analysis/analyze_candidate_diagnosis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validation/analysis/analyze_candidate_diagnosis.py b/validation/analysis/analyze_candidate_diagnosis.py
index 529a193..fdd11ab 100644
--- a/validation/analysis/analyze_candidate_diagnosis.py
+++ b/validation/analysis/analyze_candidate_diagnosis.py
@@ -27,8 +27,9 @@ def main() -> int:
     print(f"n={len(rows)} GT-in-topN (±{args.tol}): {hit}/{len(rows)} ({100.0*hit/len(rows):.1f}%)")
     print()
 
+    # Bins are (a, b]; the first one also takes an error of exactly zero.
     bins = [
-        ("<=5", 0.0, 5.0),
+        ("<=5", float("-inf"), 5.0),
         ("5-20", 5.0, 20.0),
         ("20-50", 20.0, 50.0),
         ("50-100", 50.0, 100.0),
-- 
2.43.0

