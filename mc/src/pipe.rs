//! The whole pipeline (analyze_audio): P02 totality, P03 ranges, P04 composition.
use crate::chroma::lcg;
use crate::core::*;
use crate::ensure;
use crate::tempo::clicks;
use stratum_dsp::analysis::result::*;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::sharpen_chroma;
use stratum_dsp::features::chroma::smoothing::smooth_chroma;
use stratum_dsp::features::key::detector::detect_key_median;
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::features::key::*;
use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::{detect_hpss_onsets, hpss_decompose};
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::period::multi_resolution::multi_resolution_tempogram_from_samples;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::*;
use stratum_dsp::preprocessing::normalization::{normalize, NormalizationConfig, NormalizationMethod};
use stratum_dsp::preprocessing::silence::{detect_and_trim, SilenceDetector};
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisConfig, AnalysisError};

// ------------------------------------------------------------------ signals
pub const SIGS: &[&str] = &[
    "chord + 120 BPM clicks", "C major chord", "A minor triad, drifting level", "clicks 62 BPM", "clicks 90 BPM", "clicks 184 BPM",
    "noise", "silence, tone bursts, silence", "accelerating clicks", "single impulse", "constant", "all zero",
    "full-scale square", "tiny (1e-5) tone", "clicks 128 BPM with off-beats", "sparse clicks 40 BPM + low chord",
];
pub fn sig(kind: usize, sr: u32, n: usize) -> Vec<f32> {
    let r = sr as f32;
    let tone = |f: f32, i: usize| (2.0 * std::f64::consts::PI * f as f64 * i as f64 / r as f64).sin() as f32;
    let chord = |fs: &[f32], i: usize| fs.iter().map(|f| tone(*f, i)).sum::<f32>() / fs.len() as f32;
    let cl = |bpm: f32, k: usize| {
        let mut v = clicks(sr, n as f32 / r + 0.01, bpm, k);
        v.resize(n, 0.0);
        v
    };
    match kind {
        0 => cl(120.0, 0).iter().enumerate().map(|(i, c)| 0.5 * c + 0.3 * chord(&[261.63, 329.63, 392.0], i)).collect(),
        1 => (0..n).map(|i| 0.6 * chord(&[261.63, 329.63, 392.0, 523.25], i)).collect(),
        2 => (0..n).map(|i| (0.3 + 0.5 * ((i as f32 / r) * 2.5).sin().abs()) * chord(&[220.0, 261.63, 329.63], i)).collect(),
        3 => cl(62.0, 0),
        4 => cl(90.0, 0),
        5 => cl(184.0, 0),
        6 => (0..n).map(|i| 0.5 * lcg(9, i)).collect(),
        7 => (0..n)
            .map(|i| {
                let t = i as f32 / n.max(1) as f32;
                if !(0.25..=0.7).contains(&t) || ((t * 40.0) as usize % 2 == 1) { 0.0 } else { 0.5 * tone(440.0, i) }
            })
            .collect(),
        8 => {
            let mut x: Vec<f32> = (0..n).map(|i| 0.005 * lcg(2, i)).collect();
            let (mut t, mut per) = (0.05f32, 0.62f32);
            while (t * r) as usize + 1 < n {
                let p = (t * r) as usize;
                for j in 0..(sr as usize / 100).max(4) {
                    if p + j < n {
                        x[p + j] += 0.8 * tone(900.0, j + 1);
                    }
                }
                t += per;
                per = (per * 0.97).max(0.25);
            }
            x
        }
        9 => (0..n).map(|i| if i == n / 2 { 0.9 } else { 0.0 }).collect(),
        10 => vec![0.4; n],
        11 => vec![0.0; n],
        12 => (0..n).map(|i| if (i / 23) % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        13 => (0..n).map(|i| 1e-5 * tone(330.0, i)).collect(),
        14 => cl(128.0, 2),
        _ => cl(40.0, 0).iter().enumerate().map(|(i, c)| 0.6 * c + 0.3 * chord(&[110.0, 138.59, 164.81], i)).collect(),
    }
}

/// Small configuration: same switches as the default, sizes scaled to short test signals.
pub fn small() -> AnalysisConfig {
    AnalysisConfig {
        frame_size: 256,
        hop_size: 64,
        key_stft_frame_size: 1024,
        key_stft_hop_size: 64,
        key_segment_len_frames: 120,
        key_segment_hop_frames: 60,
        key_multi_scale_lengths: vec![30, 90],
        key_multi_scale_hop: 20,
        key_median_segment_length_frames: 120,
        key_median_segment_hop_frames: 15,
        ..AnalysisConfig::default()
    }
}

// ------------------------------------------------------------------ configuration fields
pub struct Field {
    pub name: &'static str,
    pub n: usize,
    pub set: fn(&mut AnalysisConfig, usize) -> String,
}
macro_rules! fields {
    ($( $f:ident : [ $($v:expr),* $(,)? ] ),* $(,)?) => {
        vec![$( Field { name: stringify!($f), n: [$( { let _ = stringify!($v); 0 } ),*].len(), set: |c: &mut AnalysisConfig, i: usize| {
            let mut k = 0usize;
            $( if k == i { c.$f = $v; } k += 1; )*
            let _ = k;
            format!("{}={:?}", stringify!($f), c.$f)
        } } ),*]
    };
}
/// sensible deviations: every value is inside the documented range of its option
pub fn sane_fields() -> Vec<Field> {
    fields! {
        min_amplitude_db: [-60.0, -20.0],
        normalization: [NormalizationMethod::RMS, NormalizationMethod::Loudness],
        enable_normalization: [false],
        enable_silence_trimming: [false],
        enable_onset_consensus: [false],
        onset_threshold_percentile: [0.5, 0.95],
        onset_consensus_tolerance_ms: [5, 200],
        onset_consensus_weights: [[1.0, 0.0, 0.0, 0.0], [0.1, 0.2, 0.3, 0.4]],
        enable_hpss_onsets: [true],
        hpss_margin: [2, 20],
        force_legacy_bpm: [true],
        enable_bpm_fusion: [true],
        enable_legacy_bpm_guardrails: [false],
        enable_tempogram_multi_resolution: [false],
        tempogram_multi_res_top_k: [1, 60, 120],
        tempogram_multi_res_w512: [0.0, 1.0],
        tempogram_multi_res_w256: [0.0, 1.0],
        tempogram_multi_res_w1024: [0.0, 1.0],
        tempogram_multi_res_structural_discount: [0.2, 1.0],
        tempogram_multi_res_double_time_512_factor: [0.3, 1.0],
        tempogram_multi_res_margin_threshold: [0.0, 0.5],
        tempogram_multi_res_use_human_prior: [true],
        enable_tempogram_percussive_fallback: [true],
        enable_tempogram_band_fusion: [false],
        tempogram_band_low_max_hz: [60.0, 600.0],
        tempogram_band_mid_max_hz: [900.0, 3000.0],
        tempogram_band_high_max_hz: [3500.0, 16000.0],
        tempogram_band_w_full: [0.0, 1.0],
        tempogram_band_w_low: [0.0, 1.0],
        tempogram_band_w_mid: [0.0, 1.0],
        tempogram_band_w_high: [0.0, 1.0],
        tempogram_band_seed_only: [false],
        tempogram_band_support_threshold: [0.0, 0.9],
        tempogram_band_consensus_bonus: [0.0, 0.5],
        tempogram_novelty_w_spectral: [0.0, 1.0],
        tempogram_novelty_w_energy: [0.0, 1.0],
        tempogram_novelty_w_hfc: [0.0, 1.0],
        tempogram_novelty_local_mean_window: [0, 4],
        tempogram_novelty_smooth_window: [0, 9],
        debug_track_id: [Some(7)],
        debug_gt_bpm: [Some(120.0)],
        debug_top_n: [1],
        enable_tempogram_mel_novelty: [false],
        tempogram_mel_n_mels: [8, 80],
        tempogram_mel_fmin_hz: [100.0],
        tempogram_mel_fmax_hz: [3000.0],
        tempogram_mel_max_filter_bins: [0, 6],
        tempogram_mel_weight: [0.0, 1.0],
        tempogram_superflux_max_filter_bins: [0, 12],
        emit_tempogram_candidates: [true],
        tempogram_candidates_top_n: [1, 50, 150],
        legacy_bpm_preferred_min: [100.0],
        legacy_bpm_preferred_max: [110.0],
        legacy_bpm_soft_min: [70.0],
        legacy_bpm_soft_max: [170.0],
        legacy_bpm_conf_mul_preferred: [0.5],
        legacy_bpm_conf_mul_soft: [1.2],
        legacy_bpm_conf_mul_extreme: [1.0],
        min_bpm: [60.0, 90.0],
        max_bpm: [100.0, 180.0, 300.0],
        bpm_resolution: [0.5, 2.0, 6.0],
        frame_size: [128, 512, 300],
        hop_size: [32, 256, 100],
        center_frequency: [440.0],
        soft_chroma_mapping: [false],
        soft_mapping_sigma: [0.2, 1.0],
        chroma_sharpening_power: [1.5, 2.0],
        enable_key_spectrogram_time_smoothing: [false],
        key_spectrogram_smooth_margin: [0, 3],
        enable_key_frame_weighting: [false],
        key_min_tonalness: [0.05, 0.1, 0.15, 0.2, 0.3, 0.9],
        key_tonalness_power: [0.0, 1.0],
        key_energy_power: [0.0, 1.0],
        enable_key_harmonic_mask: [false],
        key_harmonic_mask_power: [1.0, 4.0],
        enable_key_hpss_harmonic: [true],
        key_hpss_frame_step: [1, 9],
        key_hpss_time_margin: [2],
        key_hpss_freq_margin: [2],
        key_hpss_mask_power: [1.0],
        enable_key_stft_override: [false],
        key_stft_frame_size: [512, 2048, 300],
        key_stft_hop_size: [128, 90, 900, 1500],
        enable_key_log_frequency: [true],
        enable_key_beat_synchronous: [true],
        enable_key_multi_scale: [true],
        key_template_set: [TemplateSet::Temperley],
        enable_key_ensemble: [true],
        key_ensemble_kk_weight: [0.0, 0.9],
        key_ensemble_temperley_weight: [0.0, 0.9],
        enable_key_median: [true],
        key_median_segment_length_frames: [120, 240],
        key_median_segment_hop_frames: [7, 60],
        key_median_min_segments: [1, 12],
        key_multi_scale_lengths: [vec![40], vec![20, 50, 120], vec![30, 100000], vec![100000]],
        key_multi_scale_hop: [5, 64],
        key_multi_scale_min_clarity: [0.0, 0.9],
        key_multi_scale_weights: [vec![1.0, 0.0], vec![0.2, 0.8]],
        enable_key_tuning_compensation: [true],
        key_tuning_max_abs_semitones: [0.0, 0.5],
        key_tuning_frame_step: [1, 7],
        key_tuning_peak_rel_threshold: [0.05, 0.8],
        enable_key_edge_trim: [true],
        key_edge_trim_fraction: [0.0, 0.4],
        enable_key_segment_voting: [false],
        key_segment_len_frames: [119, 200],
        key_segment_hop_frames: [25, 400],
        key_segment_min_clarity: [0.0, 0.6],
        enable_key_mode_heuristic: [true],
        key_mode_third_ratio_margin: [0.1],
        key_mode_flip_min_score_ratio: [0.2, 0.95],
        enable_key_hpcp: [false],
        key_hpcp_peaks_per_frame: [3, 80],
        key_hpcp_num_harmonics: [1, 8],
        key_hpcp_harmonic_decay: [0.2, 0.95],
        key_hpcp_mag_power: [0.25, 1.0],
        enable_key_hpcp_whitening: [true],
        key_hpcp_whitening_smooth_bins: [5, 101],
        enable_key_hpcp_bass_blend: [true],
        key_hpcp_bass_fmin_hz: [30.0],
        key_hpcp_bass_fmax_hz: [200.0],
        key_hpcp_bass_weight: [0.0, 1.0],
        enable_key_minor_harmonic_bonus: [true],
        key_minor_leading_tone_bonus_weight: [0.0, 0.8],
    }
}
/// all switches that must be on for a field to be reached at all
pub fn enable_for(c: &mut AnalysisConfig, name: &str) {
    if name.starts_with("key_ensemble") {
        c.enable_key_ensemble = true;
    } else if name.starts_with("key_multi_scale") {
        c.enable_key_multi_scale = true;
    } else if name.starts_with("key_median") {
        c.enable_key_median = true;
    } else if name.starts_with("key_tuning") {
        c.enable_key_tuning_compensation = true;
    } else if name.starts_with("key_edge") {
        c.enable_key_edge_trim = true;
    } else if name.starts_with("key_hpss") {
        c.enable_key_hpss_harmonic = true;
    } else if name.starts_with("key_mode") {
        c.enable_key_mode_heuristic = true;
    } else if name.starts_with("key_minor") {
        c.enable_key_minor_harmonic_bonus = true;
    } else if name.starts_with("key_hpcp_bass") {
        c.enable_key_hpcp_bass_blend = true;
    } else if name.starts_with("key_hpcp_white") {
        c.enable_key_hpcp_whitening = true;
    } else if name.starts_with("soft_") {
        c.enable_key_hpcp = false;
    } else if name.starts_with("legacy_bpm") {
        c.force_legacy_bpm = true;
    } else if name.starts_with("debug_") {
        c.debug_track_id = Some(1);
    } else if name == "hpss_margin" {
        c.enable_hpss_onsets = true;
    } else if name == "tempogram_candidates_top_n" {
        c.emit_tempogram_candidates = true;
    }
}

// ------------------------------------------------------------------ reference composition
pub struct Ref {
    pub bpm: f32,
    pub bpm_conf: f32,
    pub grid: BeatGrid,
    pub stability: f32,
    pub key: Key,
    pub key_conf: f32,
    pub clarity: f32,
    pub scores: Vec<(Key, f32)>,
    pub duration: f32,
    pub any_energy_onset: bool,
    pub cands: Option<Vec<TempogramCandidateDebug>>,
    pub mr: (Option<bool>, Option<bool>),
    pub perc: (Option<bool>, Option<bool>),
    pub path: u64,
}

thread_local! {
    /// base tempo of the last explored case in which only the promotion rule kept the base tempo
    pub static BLOCKED: std::cell::Cell<Option<f32>> = const { std::cell::Cell::new(None) };
}

fn related(a: f32, b: f32) -> bool {
    let r = (a / b).max(b / a);
    [2.0, 1.5, 4.0 / 3.0].iter().any(|x: &f32| (r - x).abs() < 0.05)
}

/// Rounding variant of the key part of the reference: shifts the segment-clarity and the tonalness
/// threshold by a rounding error and perturbs the frame weights in the last digits, for cases in
/// which a key decision hangs on a tie in single precision.
#[derive(Clone, Copy, Default)]
pub struct Tweak {
    pub clarity: f32,
    pub ton: f32,
    pub jitter: f32,
}
pub fn reference(samples: &[f32], sr: u32, c: &AnalysisConfig, eps: Tweak) -> Result<Ref, AnalysisError> {
    let bad = |m: &str| AnalysisError::InvalidInput(m.into());
    if samples.is_empty() {
        return Err(bad("empty"));
    }
    if sr == 0 {
        return Err(bad("rate"));
    }
    if samples.iter().any(|x| !x.is_finite()) {
        return Err(bad("non-finite"));
    }
    let mut x = samples.to_vec();
    if c.enable_normalization {
        normalize(&mut x, NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, sr as f32)?;
    }
    if c.enable_silence_trimming {
        x = detect_and_trim(&x, sr, SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size })?.0;
    }
    if x.is_empty() {
        return Err(AnalysisError::ProcessingError("silent".into()));
    }
    let mut path = H::new();
    let energy = detect_energy_flux_onsets(&x, c.frame_size, c.hop_size, -20.0)?;
    let spec = compute_stft(&x, c.frame_size, c.hop_size)?;
    // onsets
    let mut onsets = energy.clone();
    if c.enable_onset_consensus && !spec.is_empty() {
        let to_pos = |f: Result<Vec<usize>, AnalysisError>| -> Vec<usize> {
            let s: std::collections::BTreeSet<usize> = f.unwrap_or_default().into_iter().map(|f| f * c.hop_size).filter(|p| *p < x.len()).collect();
            s.into_iter().collect()
        };
        let votes = vote_onsets(
            OnsetConsensus {
                energy_flux: energy.clone(),
                spectral_flux: to_pos(detect_spectral_flux_onsets(&spec, c.onset_threshold_percentile)),
                hfc: to_pos(detect_hfc_onsets(&spec, sr, c.onset_threshold_percentile)),
                hpss: if c.enable_hpss_onsets {
                    to_pos(hpss_decompose(&spec, c.hpss_margin).and_then(|hp| detect_hpss_onsets(&hp.1, c.onset_threshold_percentile)))
                } else {
                    vec![]
                },
            },
            c.onset_consensus_weights,
            c.onset_consensus_tolerance_ms,
            sr,
        );
        if let Ok(v) = votes {
            let pos = |min: u32| -> Vec<usize> {
                let s: std::collections::BTreeSet<usize> = v.iter().filter(|o| o.voted_by >= min).map(|o| o.time_samples).collect();
                s.into_iter().collect()
            };
            let pick = if pos(2).is_empty() { pos(0) } else { pos(2) };
            if !pick.is_empty() {
                onsets = pick;
                path = path.u(1);
            }
        }
    }
    // legacy estimate
    let legacy = if onsets.len() < 2 {
        None
    } else if c.enable_legacy_bpm_guardrails {
        estimate_bpm_with_guardrails(
            &onsets, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution,
            LegacyBpmGuardrails {
                preferred_min: c.legacy_bpm_preferred_min,
                preferred_max: c.legacy_bpm_preferred_max,
                soft_min: c.legacy_bpm_soft_min,
                soft_max: c.legacy_bpm_soft_max,
                mul_preferred: c.legacy_bpm_conf_mul_preferred,
                mul_soft: c.legacy_bpm_conf_mul_soft,
                mul_extreme: c.legacy_bpm_conf_mul_extreme,
            },
        )?
    } else {
        estimate_bpm(&onsets, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution)?
    };
    // tempogram
    let band = TempogramBandFusionConfig {
        enabled: c.enable_tempogram_band_fusion,
        low_max_hz: c.tempogram_band_low_max_hz,
        mid_max_hz: c.tempogram_band_mid_max_hz,
        high_max_hz: c.tempogram_band_high_max_hz,
        w_full: c.tempogram_band_w_full,
        w_low: c.tempogram_band_w_low,
        w_mid: c.tempogram_band_w_mid,
        w_high: c.tempogram_band_w_high,
        seed_only: c.tempogram_band_seed_only,
        support_threshold: c.tempogram_band_support_threshold,
        consensus_bonus: c.tempogram_band_consensus_bonus,
        enable_mel: c.enable_tempogram_mel_novelty,
        mel_n_mels: c.tempogram_mel_n_mels,
        mel_fmin_hz: c.tempogram_mel_fmin_hz,
        mel_fmax_hz: c.tempogram_mel_fmax_hz,
        mel_max_filter_bins: c.tempogram_mel_max_filter_bins,
        w_mel: c.tempogram_mel_weight,
        novelty_w_spectral: c.tempogram_novelty_w_spectral,
        novelty_w_energy: c.tempogram_novelty_w_energy,
        novelty_w_hfc: c.tempogram_novelty_w_hfc,
        novelty_local_mean_window: c.tempogram_novelty_local_mean_window,
        novelty_smooth_window: c.tempogram_novelty_smooth_window,
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: c.debug_top_n,
        superflux_max_filter_bins: c.tempogram_superflux_max_filter_bins,
    };
    let aux = c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0;
    let tempogram = |s: &[Vec<f32>], top: usize| {
        if aux {
            estimate_bpm_tempogram_with_candidates_band_fusion(s, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, top, band.clone())
        } else {
            estimate_bpm_tempogram_with_candidates(s, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, top)
        }
    };
    let (mut cands, mut mr, mut perc) = (None, (None, None), (None, None));
    let mut tempo = None;
    if !c.force_legacy_bpm && !spec.is_empty() {
        if !c.enable_tempogram_multi_resolution {
            if let Ok((e, k)) = tempogram(&spec, c.tempogram_candidates_top_n) {
                tempo = Some(e);
                cands = Some(k);
            }
        } else {
            let top = c.tempogram_candidates_top_n.max(c.tempogram_multi_res_top_k).max(10);
            if let Ok((base, bc)) = tempogram(&spec, top) {
                let tol = c.bpm_resolution.max(2.0);
                let near = |b: f32| bc.iter().filter(|k| (k.bpm - b).abs() <= tol).map(|k| k.score).fold(0.0f32, f32::max);
                let s0 = near(base.bpm) * 0.9;
                let competes = [2.0, 0.5].iter().any(|m| near(base.bpm * m) > 0.0 && near(base.bpm * m) >= s0);
                let low = (55.0..=80.0).contains(&base.bpm);
                let high = (170.0..=200.0).contains(&base.bpm);
                let weak = base.method_agreement == 0 || base.confidence < 0.06;
                let amb = low || high || competes || (weak && (170.0..=200.0).contains(&(base.bpm * 2.0)));
                path = path.u(2 + low as u64 + 2 * high as u64 + 4 * competes as u64 + 8 * amb as u64);
                mr = (Some(amb), Some(false));
                let (mut est, mut ec) = (base.clone(), bc.clone());
                if amb {
                    if let Ok((m, mc)) = multi_resolution_tempogram_from_samples(
                        &x, sr, c.frame_size, c.min_bpm, c.max_bpm, c.bpm_resolution, c.tempogram_multi_res_top_k,
                        c.tempogram_multi_res_w512, c.tempogram_multi_res_w256, c.tempogram_multi_res_w1024,
                        c.tempogram_multi_res_structural_discount, c.tempogram_multi_res_double_time_512_factor,
                        c.tempogram_multi_res_margin_threshold, c.tempogram_multi_res_use_human_prior, Some(band.clone()),
                    ) {
                        let fam = base.bpm > 1e-6 && related(m.bpm, base.bpm);
                        let stronger = m.confidence >= base.confidence + 0.05;
                        let agreed = m.method_agreement > base.method_agreement && m.confidence >= base.confidence * 0.90;
                        let safer = (low || high) && fam && m.confidence >= base.confidence * 0.88 && ((70.0..=180.0).contains(&m.bpm) || base.bpm > 180.0);
                        let promotes = base.bpm <= 180.0 && m.bpm > 180.0;
                        path = path.u(stronger as u64 + 2 * agreed as u64 + 4 * safer as u64 + 8 * promotes as u64);
                        if promotes && (stronger || agreed || safer) {
                            BLOCKED.with(|b| b.set(Some(base.bpm)));
                        }
                        if !promotes && (stronger || agreed || safer) {
                            est = m;
                            ec = mc;
                            mr.1 = Some(true);
                        }
                    }
                }
                let needed = amb && low;
                perc.0 = Some(needed);
                if c.enable_tempogram_percussive_fallback {
                    perc.1 = Some(false);
                    if needed {
                        if let Ok((p, pc)) = hpss_decompose(&spec, c.hpss_margin).and_then(|hp| tempogram(&hp.1, top)) {
                            let ok = related(p.bpm, est.bpm) && est.bpm > 1e-6 && (70.0..=180.0).contains(&p.bpm) && !(est.bpm <= 180.0 && p.bpm > 180.0);
                            // `needed` implies the low trap, where the 0.85 rule applies
                            let strong = p.confidence >= est.confidence + 0.04
                                || p.confidence >= est.confidence * 0.85
                                || (p.method_agreement > est.method_agreement && p.confidence >= est.confidence * 0.92);
                            path = path.u(100 + ok as u64 + 2 * strong as u64);
                            if ok && strong {
                                est = p;
                                ec = pc;
                                perc.1 = Some(true);
                            }
                        }
                    }
                }
                tempo = Some(est);
                cands = Some(ec);
            }
        }
    }
    if !c.emit_tempogram_candidates {
        cands = None;
    }
    // tempo decision
    let from_legacy = || legacy.as_ref().map(|e| (e.bpm, e.confidence)).unwrap_or((0.0, 0.0));
    let (bpm, bpm_conf) = match (&tempo, c.force_legacy_bpm) {
        (_, true) | (None, _) => from_legacy(),
        (Some(t), _) if !c.enable_bpm_fusion => (t.bpm, t.confidence),
        (Some(t), _) if t.bpm <= 0.0 => from_legacy(),
        (Some(t), _) => {
            let tc = t.confidence.clamp(0.0, 1.0);
            match &legacy {
                Some(l) if l.bpm > 0.0 => {
                    if [1.0, 0.5, 2.0, 2.0 / 3.0, 1.5].iter().any(|m| (l.bpm - t.bpm * m).abs() <= 2.0) {
                        path = path.u(200);
                        (t.bpm, (tc + 0.12 * l.confidence.clamp(0.0, 1.0)).min(1.0))
                    } else {
                        path = path.u(201);
                        (t.bpm, tc * 0.9)
                    }
                }
                _ => (t.bpm, tc),
            }
        }
    };
    // beat grid
    let empty = || BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] };
    let (grid, stability) = if bpm > 0.0 && onsets.len() >= 2 {
        let t: Vec<f32> = onsets.iter().map(|o| *o as f32 / sr as f32).collect();
        stratum_dsp::features::beat_tracking::generate_beat_grid(bpm, bpm_conf, &t, sr).unwrap_or((empty(), 0.0))
    } else {
        (empty(), 0.0)
    };
    // key
    let (mut key, mut key_conf, mut clarity, mut scores) = (Key::Major(0), 0.0, 0.0, vec![]);
    if x.len() >= c.frame_size {
        let (ff, kspec, khop) = if c.enable_key_stft_override {
            let (f, h) = (c.key_stft_frame_size.max(256), c.key_stft_hop_size.max(1));
            (f, compute_stft(&x, f, h)?, h)
        } else {
            (c.frame_size, spec.clone(), c.hop_size)
        };
        let cond = if kspec.is_empty() {
            vec![]
        } else if c.enable_key_hpss_harmonic {
            harmonic_spectrogram_hpss_median_mask(&kspec, sr, ff, 100.0, 5000.0, c.key_hpss_frame_step, c.key_hpss_time_margin, c.key_hpss_freq_margin, c.key_hpss_mask_power)
                .unwrap_or_else(|_| kspec.clone())
        } else if c.enable_key_harmonic_mask {
            harmonic_spectrogram_time_mask(&kspec, c.key_spectrogram_smooth_margin, c.key_harmonic_mask_power).unwrap_or_else(|_| kspec.clone())
        } else if c.enable_key_spectrogram_time_smoothing {
            smooth_spectrogram_time(&kspec, c.key_spectrogram_smooth_margin).unwrap_or_else(|_| kspec.clone())
        } else {
            kspec.clone()
        };
        let logspec = if c.enable_key_log_frequency && !cond.is_empty() {
            convert_linear_to_log_frequency_spectrogram(&cond, sr, ff, 100.0, 5000.0).ok()
        } else {
            None
        };
        let tuning = if c.enable_key_tuning_compensation && !cond.is_empty() && logspec.is_none() {
            let m = c.key_tuning_max_abs_semitones.abs();
            estimate_tuning_offset_semitones_from_spectrogram(&cond, sr, ff, 80.0, 2000.0, c.key_tuning_frame_step, c.key_tuning_peak_rel_threshold)
                .map(|d| d.max(-m).min(m))
                .unwrap_or(0.0)
        } else {
            0.0
        };
        let chroma = if let Some(ls) = &logspec {
            // first semitone bin of the 100 Hz band edge: A4 (440 Hz) is semitone 57
            extract_chroma_from_log_frequency_spectrogram(ls, 31)
                .map(|v| (v, ls.iter().map(|f| f.iter().map(|m| m * m).sum::<f32>()).collect::<Vec<f32>>()))
        } else if c.enable_key_beat_synchronous && !grid.beats.is_empty() {
            extract_beat_synchronous_chroma(&cond, sr, ff, khop, &grid.beats, c.soft_chroma_mapping, c.soft_mapping_sigma, tuning)
        } else if c.enable_key_hpcp && c.enable_key_hpcp_bass_blend {
            extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(
                &cond, sr, ff, c.soft_mapping_sigma, tuning, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
                c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins, c.key_hpcp_bass_fmin_hz, c.key_hpcp_bass_fmax_hz, c.key_hpcp_bass_weight,
            )
        } else if c.enable_key_hpcp {
            extract_hpcp_from_spectrogram_with_options_and_energy_tuned(
                &cond, sr, ff, c.soft_mapping_sigma, tuning, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
                c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins,
            )
        } else {
            extract_chroma_from_spectrogram_with_options_and_energy_tuned(&cond, sr, ff, c.soft_chroma_mapping, c.soft_mapping_sigma, tuning)
        };
        if let Ok((mut ch, en)) = chroma {
            if c.chroma_sharpening_power > 1.0 {
                ch = ch.iter().map(|v| sharpen_chroma(v, c.chroma_sharpening_power)).collect();
            }
            if ch.len() > 5 {
                ch = smooth_chroma(&ch, 5);
            }
            let n = ch.len();
            let (mut a, mut b) = (0, n);
            if c.enable_key_edge_trim && n == en.len() && n >= 200 {
                let f = c.key_edge_trim_fraction.clamp(0.0, 0.49);
                let (s, e) = ((n as f32 * f).round() as usize, (n as f32 * (1.0 - f)).round() as usize);
                if e > s + 50 && e <= n {
                    (a, b) = (s, e);
                }
            }
            let same = n == en.len();
            let ch = &ch[a..b];
            let mut weights = None;
            if c.enable_key_frame_weighting && same && !ch.is_empty() {
                let en = &en[a..b];
                let mut so = en.to_vec();
                so.sort_by(f32::total_cmp);
                let med = so[so.len() / 2].max(1e-12);
                let w: Vec<f32> = ch
                    .iter()
                    .zip(en)
                    .enumerate()
                    .map(|(i, (v, e))| {
                        let j = 1.0 + eps.jitter * lcg(77, i);
                        let sum: f64 = v.iter().map(|x| *x as f64).sum();
                        let ton = if sum <= 1e-12 {
                            0.0
                        } else {
                            let ent: f64 = v.iter().map(|x| *x as f64 / sum).filter(|p| *p > 1e-12).map(|p| -p * p.ln()).sum();
                            (1.0 - ent / 12f64.ln()).clamp(0.0, 1.0)
                        };
                        let ton = if (ton as f32) < c.key_min_tonalness + eps.ton { 0.0 } else { ton as f32 };
                        ton.powf(c.key_tonalness_power.max(0.0)) * (e / med).max(0.0).powf(c.key_energy_power.max(0.0)) * j
                    })
                    .collect();
                if w.iter().sum::<f32>() > 1e-12 && w.iter().filter(|x| **x > 0.0).count() >= 10 {
                    weights = Some(w);
                }
            }
            let w = weights.as_deref();
            let tpl = KeyTemplates::new_with_template_set(c.key_template_set);
            let flip = if c.enable_key_mode_heuristic { c.key_mode_flip_min_score_ratio } else { 0.0 };
            let plain = |v: &[Vec<f32>], w: Option<&[f32]>| {
                if c.enable_key_mode_heuristic || c.enable_key_minor_harmonic_bonus {
                    detect_key_weighted_mode_heuristic(v, &tpl, w, c.key_mode_third_ratio_margin, flip, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight)
                } else {
                    detect_key_weighted(v, &tpl, w)
                }
            };
            let ms = &c.key_multi_scale_lengths;
            let r = if c.enable_key_ensemble {
                path = path.u(300);
                detect_key_ensemble(ch, w, c.key_ensemble_kk_weight, c.key_ensemble_temperley_weight)
            } else if c.enable_key_multi_scale && !ms.is_empty() && ch.len() >= *ms.iter().min().unwrap() {
                path = path.u(301);
                let sw = &c.key_multi_scale_weights;
                detect_key_multi_scale(
                    ch, &tpl, w, ms, c.key_multi_scale_hop.max(1), c.key_multi_scale_min_clarity.clamp(0.0, 1.0), if sw.is_empty() { None } else { Some(sw) },
                    c.enable_key_mode_heuristic, c.key_mode_third_ratio_margin, flip, c.enable_key_minor_harmonic_bonus, c.key_minor_leading_tone_bonus_weight,
                )
            } else if c.enable_key_median {
                path = path.u(302);
                detect_key_median(ch, &tpl, w, c.key_median_segment_length_frames, c.key_median_segment_hop_frames, c.key_median_min_segments)
            } else if c.enable_key_segment_voting && c.key_segment_len_frames >= 120 && ch.len() >= c.key_segment_len_frames && c.key_segment_hop_frames >= 1 {
                let (len, hop) = (c.key_segment_len_frames, c.key_segment_hop_frames.min(c.key_segment_len_frames));
                let mut acc = [0.0f32; 24];
                let ix = |k: &Key| match k {
                    Key::Major(i) => *i as usize % 12,
                    Key::Minor(i) => 12 + *i as usize % 12,
                };
                let mut used = 0;
                for s in (0..=ch.len() - len).step_by(hop) {
                    let r = plain(&ch[s..s + len], w.map(|w| &w[s..s + len]))?;
                    let cl = compute_key_clarity(&r.all_scores);
                    if cl >= c.key_segment_min_clarity.clamp(0.0, 1.0) + eps.clarity {
                        used += 1;
                        for (k, v) in &r.all_scores {
                            acc[ix(k)] += v * cl;
                        }
                    }
                }
                path = path.u(310 + (used > 0) as u64);
                if used == 0 {
                    plain(ch, w)
                } else {
                    let mut all: Vec<(Key, f32)> = (0..24).map(|i| (if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }, acc[i])).collect();
                    all.sort_by(|a, b| b.1.total_cmp(&a.1));
                    let conf = if all[0].1 > 0.0 { ((all[0].1 - all[1].1) / all[0].1).clamp(0.0, 1.0) } else { 0.0 };
                    Ok(KeyDetectionResult { key: all[0].0, confidence: conf, top_keys: all[..3].to_vec(), all_scores: all })
                }
            } else {
                path = path.u(320);
                plain(ch, w)
            };
            if let Ok(r) = r {
                key = r.key;
                key_conf = r.confidence;
                clarity = compute_key_clarity(&r.all_scores);
                scores = r.all_scores;
            }
        }
    }
    Ok(Ref {
        bpm, bpm_conf, grid, stability, key, key_conf, clarity, scores,
        duration: x.len() as f32 / sr as f32,
        any_energy_onset: !energy.is_empty(),
        cands, mr, perc,
        path: path.done(),
    })
}

pub fn err_kind(e: &AnalysisError) -> u64 {
    match e {
        AnalysisError::InvalidInput(_) => 1,
        AnalysisError::DecodingError(_) => 2,
        AnalysisError::ProcessingError(_) => 3,
        AnalysisError::NotImplemented(_) => 4,
        AnalysisError::NumericalError(_) => 5,
    }
}

fn vec_close(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, 1e-5, 1e-5))
}

/// run the real pipeline and the composition of its stages on the same input
pub fn compare(x: &[f32], sr: u32, c: &AnalysisConfig) -> CaseResult {
    let got = guarded(|| analyze_audio(x, sr, c.clone()))?;
    let first = compare_at(&got, x, sr, c, Tweak::default(), true);
    if first.is_err() && got.is_ok() {
        // a key decided by the last digit: accept any rounding variant; if the variants disagree
        // among themselves the key of this case is not determined and only the rest is compared
        let base = reference(x, sr, c, Tweak::default()).ok().map(|r| (r.key, r.key_conf, r.clarity));
        let mut unstable = false;
        let z = Tweak::default();
        for e in [
            Tweak { clarity: 1e-5, ..z }, Tweak { clarity: -1e-5, ..z }, Tweak { ton: 1e-5, ..z }, Tweak { ton: -1e-5, ..z },
            Tweak { clarity: 1e-5, ton: 1e-5, ..z }, Tweak { clarity: -1e-5, ton: -1e-5, ..z }, Tweak { jitter: 2e-6, ..z }, Tweak { jitter: -2e-6, ..z },
            Tweak { jitter: 1e-5, ..z }, Tweak { jitter: -1e-5, ..z },
        ] {
            if let Ok(o) = compare_at(&got, x, sr, c, e, true) {
                return Ok(o);
            }
            let r = reference(x, sr, c, e).ok().map(|r| (r.key, r.key_conf, r.clarity));
            unstable |= match (&base, &r) {
                (Some(a), Some(b)) => a.0 != b.0 || !close(a.1, b.1, 1e-3, 1e-4) || !close(a.2, b.2, 1e-3, 1e-4),
                _ => true,
            };
        }
        if unstable {
            return compare_at(&got, x, sr, c, z, false);
        }
    }
    first
}
fn compare_at(got: &Result<AnalysisResult, AnalysisError>, x: &[f32], sr: u32, c: &AnalysisConfig, eps: Tweak, with_key: bool) -> CaseResult {
    let want = guarded(|| reference(x, sr, c, eps)).map_err(|p| format!("reference composition: {}", p))?;
    let (g, w) = match (got, want) {
        (Err(a), Err(b)) => {
            ensure!(err_kind(a) == err_kind(&b), "error kind differs: {:?} instead of {:?}", a, b);
            return Ok(Obs::new(900 + err_kind(a), false, 2));
        }
        (Err(e), Ok(_)) => return Err(format!("analysis failed with {:?} although every stage succeeds", e)),
        (Ok(_), Err(e)) => return Err(format!("analysis succeeded although a stage fails with {:?}", e)),
        (Ok(g), Ok(w)) => (g, w),
    };
    ensure!(close(g.bpm, w.bpm, 1e-5, 1e-4), "tempo {} instead of {}", g.bpm, w.bpm);
    ensure!(close(g.bpm_confidence, w.bpm_conf, 1e-4, 1e-5), "tempo confidence {} instead of {}", g.bpm_confidence, w.bpm_conf);
    ensure!(vec_close(&g.beat_grid.beats, &w.grid.beats), "beats {:?} instead of {:?}", g.beat_grid.beats, w.grid.beats);
    ensure!(vec_close(&g.beat_grid.downbeats, &w.grid.downbeats), "downbeats {:?} instead of {:?}", g.beat_grid.downbeats, w.grid.downbeats);
    ensure!(vec_close(&g.beat_grid.bars, &w.grid.bars), "bars {:?} instead of {:?}", g.beat_grid.bars, w.grid.bars);
    ensure!(close(g.grid_stability, w.stability, 1e-4, 1e-5), "grid stability {} instead of {}", g.grid_stability, w.stability);
    if with_key && g.key != w.key {
        // equal scores: either key is a correct composition result
        let s = |k: &Key| w.scores.iter().find(|(q, _)| q == k).map(|x| x.1);
        match (s(&g.key), s(&w.key)) {
            (Some(a), Some(b)) if close(a, b, 1e-5, 1e-9) => {}
            (a, b) => return Err(format!("key {:?} (score {:?}) instead of {:?} (score {:?})", g.key, a, w.key, b)),
        }
    }
    ensure!(!with_key || close(g.key_confidence, w.key_conf, 1e-3, 1e-4), "key confidence {} instead of {}", g.key_confidence, w.key_conf);
    ensure!(!with_key || close(g.key_clarity, w.clarity, 1e-3, 1e-4), "key clarity {} instead of {}", g.key_clarity, w.clarity);
    let m = &g.metadata;
    ensure!(close(m.duration_seconds, w.duration, 1e-6, 1e-7), "duration {} instead of {}", m.duration_seconds, w.duration);
    ensure!(m.sample_rate == sr, "sample rate {} instead of {}", m.sample_rate, sr);
    ensure!(m.onset_method_consensus == if w.any_energy_onset { 1.0 } else { 0.0 }, "onset method consensus {}", m.onset_method_consensus);
    ensure!((m.tempogram_multi_res_triggered, m.tempogram_multi_res_used) == w.mr, "multi-resolution triggered/used {:?} instead of {:?}", (m.tempogram_multi_res_triggered, m.tempogram_multi_res_used), w.mr);
    ensure!((m.tempogram_percussive_triggered, m.tempogram_percussive_used) == w.perc, "percussive triggered/used {:?} instead of {:?}", (m.tempogram_percussive_triggered, m.tempogram_percussive_used), w.perc);
    match (&m.tempogram_candidates, &w.cands) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{} candidates emitted instead of {}", a.len(), b.len());
            for (p, q) in a.iter().zip(b) {
                ensure!(
                    close(p.bpm, q.bpm, 1e-5, 1e-4) && close(p.score, q.score, 1e-4, 1e-5) && close(p.fft_norm, q.fft_norm, 1e-4, 1e-5) && close(p.autocorr_norm, q.autocorr_norm, 1e-4, 1e-5) && p.selected == q.selected,
                    "candidate {:?} instead of {:?}", p, q
                );
            }
        }
        (a, b) => return Err(format!("candidates emitted: {} instead of {}", a.is_some(), b.is_some())),
    }
    // warnings and flags follow the reported values
    let has = |s: &str| m.confidence_warnings.iter().any(|t| t.contains(s));
    ensure!(has("BPM detection failed") == (g.bpm == 0.0), "tempo warning {:?} with tempo {}", m.confidence_warnings, g.bpm);
    ensure!(has("beat grid stability") == (g.grid_stability < 0.5), "grid warning {:?} with stability {}", m.confidence_warnings, g.grid_stability);
    ensure!(has("key detection confidence") == (g.key_confidence < 0.3), "key warning {:?} with confidence {}", m.confidence_warnings, g.key_confidence);
    ensure!(has("key clarity") == (g.key_clarity < 0.2), "clarity warning {:?} with clarity {}", m.confidence_warnings, g.key_clarity);
    let weak = m.flags.iter().any(|f| matches!(f, AnalysisFlag::WeakTonality));
    ensure!(weak == (g.key_clarity < 0.2), "WeakTonality flag {} with clarity {}", weak, g.key_clarity);
    Ok(Obs::new(H(w.path).u((g.bpm * 4.0) as u64).u(g.beat_grid.beats.len() as u64).s(&g.key.name()).done(), g.bpm > 0.0 || g.key_confidence > 0.0, 2))
}

// ------------------------------------------------------------------ case spaces
/// (field index, value index) of every single deviation
fn deviations(f: &[Field]) -> Vec<(usize, usize)> {
    f.iter().enumerate().flat_map(|(i, x)| (0..x.n).map(move |v| (i, v))).collect()
}
fn bit(c: usize, i: usize) -> bool {
    c >> i & 1 == 1
}
pub fn tempo_switches(c: &mut AnalysisConfig, m: usize) {
    c.force_legacy_bpm = bit(m, 0);
    c.enable_bpm_fusion = bit(m, 1);
    c.enable_legacy_bpm_guardrails = !bit(m, 2);
    c.enable_tempogram_multi_resolution = !bit(m, 3);
    c.enable_tempogram_percussive_fallback = bit(m, 4);
    c.enable_tempogram_band_fusion = !bit(m, 5);
    c.enable_tempogram_mel_novelty = !bit(m, 6);
    c.tempogram_band_consensus_bonus = if bit(m, 7) { 0.0 } else { 0.08 };
    c.emit_tempogram_candidates = bit(m, 8);
    c.tempogram_band_seed_only = !bit(m, 9);
}
pub fn key_front(c: &mut AnalysisConfig, m: usize) {
    c.enable_key_stft_override = !bit(m, 0);
    c.enable_key_hpss_harmonic = bit(m, 1);
    c.enable_key_harmonic_mask = !bit(m, 2);
    c.enable_key_spectrogram_time_smoothing = !bit(m, 3);
    c.enable_key_log_frequency = bit(m, 4);
    c.enable_key_tuning_compensation = bit(m, 5);
    c.enable_key_beat_synchronous = bit(m, 6);
    c.enable_key_hpcp = !bit(m, 7);
    c.enable_key_hpcp_bass_blend = bit(m, 8);
    c.enable_key_hpcp_whitening = bit(m, 9);
    c.soft_chroma_mapping = !bit(m, 10);
    c.key_tuning_max_abs_semitones = 0.5;
    c.key_tuning_frame_step = 3;
}
pub fn key_decide(c: &mut AnalysisConfig, m: usize) {
    c.enable_key_frame_weighting = !bit(m, 0);
    c.enable_key_edge_trim = bit(m, 1);
    c.enable_key_ensemble = bit(m, 2);
    c.enable_key_multi_scale = bit(m, 3);
    c.enable_key_median = bit(m, 4);
    c.enable_key_segment_voting = !bit(m, 5);
    c.enable_key_mode_heuristic = bit(m, 6);
    c.enable_key_minor_harmonic_bonus = bit(m, 7);
    if bit(m, 8) {
        c.key_template_set = TemplateSet::Temperley;
    }
    c.key_segment_min_clarity = if bit(m, 9) { 0.01 } else { 0.2 };
}
pub fn front(c: &mut AnalysisConfig, mut m: usize) {
    let mut t = |n: usize| {
        let r = m % n;
        m /= n;
        r
    };
    match t(4) {
        0 => {}
        1 => c.normalization = NormalizationMethod::RMS,
        2 => c.normalization = NormalizationMethod::Loudness,
        _ => c.enable_normalization = false,
    }
    c.enable_silence_trimming = t(2) == 0;
    c.min_amplitude_db = [-40.0, -15.0][t(2)];
    c.enable_onset_consensus = t(2) == 0;
    c.enable_hpss_onsets = t(2) == 1;
    c.onset_threshold_percentile = [0.8, 0.5][t(2)];
    c.onset_consensus_tolerance_ms = [50, 10][t(2)];
}
pub const FRONT: usize = 4 * 64;

pub fn cfg_text(c: &AnalysisConfig) -> String {
    // only what differs from the small configuration
    let (a, b) = (format!("{:?}", c), format!("{:?}", small()));
    let split = |s: &str| -> Vec<String> {
        let mut out = vec![];
        let (mut depth, mut cur) = (0, String::new());
        for ch in s.trim_start_matches("AnalysisConfig {").trim_end_matches('}').chars() {
            match ch {
                '[' | '(' => depth += 1,
                ']' | ')' => depth -= 1,
                _ => {}
            }
            if ch == ',' && depth == 0 {
                out.push(cur.trim().to_string());
                cur.clear();
            } else {
                cur.push(ch);
            }
        }
        out.push(cur.trim().to_string());
        out
    };
    let d: Vec<String> = split(&a).into_iter().zip(split(&b)).filter(|(x, y)| x != y).map(|(x, _)| x).collect();
    if d.is_empty() {
        "small config".into()
    } else {
        format!("small config, {}", d.join(", "))
    }
}

/// a named space of (signal, rate, configuration) cases
pub struct Space {
    pub name: &'static str,
    pub n: usize,
    pub make: Box<dyn Fn(usize) -> (String, Vec<f32>, u32, AnalysisConfig) + Sync>,
}

pub fn spaces(th: bool) -> Vec<Space> {
    let mut out: Vec<Space> = vec![];
    let sr = 8000u32;
    let named = move |k: usize, sr: u32, n: usize, c: AnalysisConfig| (format!("{} ({} samples, {} Hz), {}", SIGS[k], n, sr, cfg_text(&c)), sig(k, sr, n), sr, c);
    // every single option value, with the switch that makes it matter turned on and off
    {
        let n_dev = deviations(&sane_fields()).len();
        let sigs: Vec<usize> = if th { (0..SIGS.len()).collect() } else { vec![0, 2, 3, 14] };
        let n = n_dev * 2 * sigs.len();
        out.push(Space {
            name: "one_option",
            n,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let f = sane_fields();
                let (fi, v) = deviations(&f)[ix.take(n_dev)];
                let on = ix.take(2) == 0;
                let k = *ix.of(&sigs);
                let mut c = small();
                if on {
                    enable_for(&mut c, f[fi].name);
                }
                (f[fi].set)(&mut c, v);
                named(k, sr, 24000, c)
            }),
        });
    }
    if th {
        let n_dev = deviations(&sane_fields()).len();
        out.push(Space {
            name: "two_options",
            n: n_dev * n_dev,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let f = sane_fields();
                let d = deviations(&f);
                let (a, b) = (d[ix.take(n_dev)], d[ix.take(n_dev)]);
                let mut c = small();
                enable_for(&mut c, f[a.0].name);
                enable_for(&mut c, f[b.0].name);
                (f[a.0].set)(&mut c, a.1);
                (f[b.0].set)(&mut c, b.1);
                named([0, 2, 14, 3][(a.0 + b.0) % 4], sr, 16000, c)
            }),
        });
    }
    let sigs: Vec<usize> = if th { vec![0, 3, 4, 5, 8, 14, 15] } else { vec![3, 14] };
    {
        let sigs = sigs.clone();
        out.push(Space {
            name: "tempo_switches",
            n: 1024 * sigs.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let mut c = small();
                tempo_switches(&mut c, ix.take(1024));
                named(*ix.of(&sigs), sr, 32000, c)
            }),
        });
    }
    {
        let bpms: Vec<usize> = (if th { 40..=220 } else { 44..=212 }).step_by(if th { 2 } else { 8 }).collect();
        let masks = [0usize, 1 << 4, 1 << 1, 0b1110_0000, 1 << 1 | 1, 1 << 3];
        out.push(Space {
            name: "tempo_range",
            n: bpms.len() * 3 * masks.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let bpm = *ix.of(&bpms);
                let kind = ix.take(3);
                let mut c = small();
                tempo_switches(&mut c, *ix.of(&masks));
                let n = 40000;
                let mut x = clicks(sr, 5.01, bpm as f32, kind);
                x.truncate(n);
                (format!("clicks at {} BPM (kind {}), {}", bpm, kind, cfg_text(&c)), x, sr, c)
            }),
        });
    }
    {
        // tempo grids of every fineness and offset, long candidate lists, rhythm over sustained harmony
        let bpms: Vec<usize> = if th { (46..=210).step_by(4).collect() } else { vec![58, 66, 76, 87, 92, 97, 128, 174, 186, 198] };
        let res: Vec<f32> = if th { vec![0.25, 1.5, 3.0, 4.0, 5.5, 8.0, 11.0] } else { vec![0.25, 3.0, 5.5, 8.0] };
        let lo = if th { vec![40.0f32, 41.5, 43.0, 47.0] } else { vec![40.0, 43.0] };
        out.push(Space {
            name: "tempo_grid",
            n: bpms.len() * res.len() * lo.len() * 6 * 2,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let bpm = *ix.of(&bpms);
                let kind = ix.take(6);
                let fall = ix.take(2) == 1;
                let mut c = small();
                c.enable_tempogram_percussive_fallback = fall;
                c.emit_tempogram_candidates = fall;
                c.min_bpm = *ix.of(&lo);
                c.bpm_resolution = *ix.of(&res);
                c.tempogram_candidates_top_n = [1, 10, 80, 300][i % 4];
                // the key is not in question here
                c.enable_key_stft_override = false;
                let n = 40000;
                let mut x = clicks(sr, 5.01, bpm as f32 * if kind >= 4 { 0.5 } else { 1.0 }, kind % 3);
                x.truncate(n);
                if kind >= 3 {
                    // pads that swell with every second beat, or twice or three times as fast as the clicks
                    let rate = bpm as f32 / 60.0 * [0.5, 1.0, 1.5][kind - 3];
                    for (j, v) in x.iter_mut().enumerate() {
                        let t = j as f32 / sr as f32;
                        let mut swell = 0.5 + 0.5 * (2.0 * std::f32::consts::PI * rate * t).sin();
                        if kind > 3 {
                            swell = (1.0 - (rate * t).fract()).powi(3);
                        }
                        *v = if kind > 3 { 0.15 } else { 0.4 } * *v + 0.25 * swell * ((2.0 * std::f32::consts::PI * 220.0 * t).sin() + (2.0 * std::f32::consts::PI * 330.0 * t).sin());
                    }
                }
                (format!("clicks at {} BPM (kind {}), {}", bpm, kind, cfg_text(&c)), x, sr, c)
            }),
        });
    }
    {
        let sigs: Vec<usize> = if th { vec![0, 1, 2, 7, 15] } else { vec![0] };
        out.push(Space {
            name: "key_front",
            n: 2048 * sigs.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let mut c = small();
                key_front(&mut c, ix.take(2048));
                named(*ix.of(&sigs), sr, 20000, c)
            }),
        });
    }
    {
        // every value of every key option under every chroma front end
        let sigs: Vec<usize> = if th { vec![0, 2, 6, 7, 15] } else { vec![0] };
        let fields: Vec<(usize, usize)> = sane_fields()
            .iter()
            .enumerate()
            .filter(|(_, f)| f.name.contains("key") || f.name.contains("chroma") || f.name.contains("soft"))
            .flat_map(|(k, f)| (0..f.n).map(move |v| (k, v)))
            .collect();
        out.push(Space {
            name: "key_cross",
            n: fields.len() * 7 * sigs.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let mut c = small();
                let (k, v) = *ix.of(&fields);
                match ix.take(7) {
                    0 => c.enable_key_log_frequency = true,
                    1 => c.enable_key_beat_synchronous = true,
                    2 => {
                        c.enable_key_hpcp = false;
                        c.enable_key_hpcp_bass_blend = false;
                    }
                    3 => c.enable_key_hpcp_bass_blend = !c.enable_key_hpcp_bass_blend,
                    4 => {
                        c.enable_key_hpcp = false;
                        c.soft_chroma_mapping = false;
                        c.enable_key_tuning_compensation = true;
                    }
                    5 => {
                        c.enable_key_log_frequency = true;
                        c.enable_key_segment_voting = false;
                        c.enable_key_multi_scale = true;
                    }
                    _ => {
                        c.enable_key_median = true;
                        c.enable_key_edge_trim = true;
                    }
                }
                (sane_fields()[k].set)(&mut c, v);
                named(*ix.of(&sigs), sr, 20000, c)
            }),
        });
    }
    {
        let sigs: Vec<usize> = if th { vec![0, 1, 2, 6, 7, 15] } else { vec![2, 7] };
        out.push(Space {
            name: "key_decide",
            n: 1024 * sigs.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let mut c = small();
                key_decide(&mut c, ix.take(1024));
                named(*ix.of(&sigs), sr, 24000, c)
            }),
        });
    }
    {
        let sigs: Vec<usize> = if th { (0..SIGS.len()).collect() } else { vec![0, 7, 8, 13] };
        out.push(Space {
            name: "front",
            n: FRONT * sigs.len(),
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let mut c = small();
                front(&mut c, ix.take(FRONT));
                named(*ix.of(&sigs), sr, 20000, c)
            }),
        });
    }
    {
        // the default configuration at usual sample rates
        let rates: Vec<u32> = if th { vec![8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000] } else { vec![11025, 44100, 176400] };
        let sigs: Vec<usize> = if th { (0..SIGS.len()).collect() } else { vec![0, 2, 3, 7, 14, 15] };
        out.push(Space {
            name: "default_rates",
            n: rates.len() * sigs.len() * 2,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let r = *ix.of(&rates);
                let k = *ix.of(&sigs);
                let secs = [3.0, 6.3][ix.take(2)];
                let n = (r as f32 * secs) as usize;
                (format!("{} ({} samples, {} Hz), default config", SIGS[k], n, r), sig(k, r, n), r, AnalysisConfig::default())
            }),
        });
    }
    {
        // a staircase of levels: the trimmed length shows every decibel of the gain that was applied
        let rates = [8000u32, 44100, 48001, 96000, 192000];
        out.push(Space {
            name: "level_stairs",
            n: rates.len() * 4 * 3 * 2,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let r = *ix.of(&rates);
                let mut c = small();
                match ix.take(4) {
                    0 => {}
                    1 => c.normalization = NormalizationMethod::RMS,
                    2 => c.normalization = NormalizationMethod::Loudness,
                    _ => c.enable_normalization = false,
                }
                c.min_amplitude_db = [-40.0, -26.0, -12.0][ix.take(3)];
                c.hop_size = 256;
                c.frame_size = 512;
                c.enable_key_stft_override = false;
                let gain = [1.0f32, 0.1][ix.take(2)];
                let x: Vec<f32> = (0..60 * 2048)
                    .map(|j| gain * 10f32.powf(-0.4 * (59 - j / 2048) as f32 / 10.0) * if (j / 7) % 2 == 0 { 1.0 } else { -1.0 })
                    .collect();
                (format!("staircase of 0.8 dB steps at gain {}, {} Hz, {}", gain, r, cfg_text(&c)), x, r, c)
            }),
        });
    }
    {
        // very short recordings of fast pulses: every frame count through the onset side
        let ks: Vec<usize> = if th { (1..=70).collect() } else { (2..=40).step_by(2).chain([31, 33, 35]).collect() };
        let per = [200usize, 320, 450, 701];
        out.push(Space {
            name: "short_onsets",
            n: ks.len() * per.len() * 2 * 8,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let n = 256 + 64 * *ix.of(&ks) + 5;
                let p = *ix.of(&per);
                let noisy = ix.take(2) == 1;
                let mut c = small();
                c.enable_onset_consensus = ix.take(2) == 0;
                c.enable_hpss_onsets = ix.take(2) == 0;
                c.force_legacy_bpm = ix.take(2) == 0;
                c.onset_consensus_tolerance_ms = [1, 50, 8][i % 3];
                c.onset_threshold_percentile = [0.8, 0.5, 0.95][i / 3 % 3];
                c.enable_silence_trimming = false;
                c.enable_key_stft_override = false;
                c.min_bpm = 60.0;
                c.max_bpm = 2500.0;
                let mut z = 12345u32;
                let x: Vec<f32> = (0..n)
                    .map(|j| {
                        z = z.wrapping_mul(1664525).wrapping_add(1013904223);
                        let w = (z >> 8) as f32 / (1 << 24) as f32 - 0.5;
                        let k = (j + p / 2) % p;
                        let click = if k < 60 { (1.0 - k as f32 / 60.0) * if (j / p) % 2 == 0 { 0.8 } else { 0.5 } * w } else { 0.0 };
                        // a soft hum that swells between the clicks
                        let hum = 0.2 * (2.0 * std::f32::consts::PI * 440.0 * j as f32 / sr as f32).sin() * (std::f32::consts::PI * j as f32 / 500.0).sin().abs();
                        click + hum + if noisy { 0.02 * w } else { 0.0 }
                    })
                    .collect();
                (format!("pulse every {} samples{} ({} samples), {}", p, if noisy { " in noise" } else { "" }, n, cfg_text(&c)), x, sr, c)
            }),
        });
    }
    {
        // lengths around every size boundary of the small configuration
        let mut ls = vec![0usize, 1, 2, 3];
        for b in [64usize, 128, 192, 256, 320, 512, 1024, 1088, 2048, 1024 + 5 * 64, 1024 + 15 * 64, 1024 + 31 * 64, 1024 + 60 * 64, 1024 + 119 * 64, 1024 + 199 * 64] {
            for d in 0..3 {
                ls.push(b + d - 1);
            }
        }
        let sigs: Vec<usize> = if th { (0..SIGS.len()).collect() } else { vec![0, 1, 6, 9, 11, 12] };
        out.push(Space {
            name: "lengths",
            n: ls.len() * sigs.len() * 2,
            make: Box::new(move |i| {
                let mut ix = Ix(i);
                let n = *ix.of(&ls);
                let k = *ix.of(&sigs);
                let mut c = small();
                if ix.take(2) == 1 {
                    c.enable_key_stft_override = false;
                    c.enable_silence_trimming = false;
                }
                named(k, sr, n, c)
            }),
        });
    }
    out
}

/// the debug options print to stderr; keep the run quiet
pub fn mute_stderr() {
    extern "C" {
        fn dup2(a: i32, b: i32) -> i32;
    }
    if std::env::var("MC_VERBOSE").is_err() {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            use std::os::fd::AsRawFd;
            unsafe { dup2(f.as_raw_fd(), 2) };
        }
    }
}

pub fn run_spaces(ctx: &Ctx, th: bool, body: fn(&[f32], u32, &AnalysisConfig) -> CaseResult) {
    mute_stderr();
    for s in spaces(th) {
        ctx.sweep(s.name, s.n, |i| (s.make)(i).0, |i| {
            let (_, x, sr, c) = (s.make)(i);
            body(&x, sr, &c)
        });
    }
}

pub fn p04(ctx: &Ctx) {
    ctx.rule("analyze_audio equals the composition of its public stages under the same configuration, for every case of the switch products and option deviations");
    ctx.assume("the stages themselves are decided by P05-P24; floats are compared within 1e-4 relative and keys of equal score are interchangeable");
    run_spaces(ctx, ctx.thorough(), compare);
}

// ------------------------------------------------------------------ P03
/// range monitor over one analysis
pub fn in_range(x: &[f32], sr: u32, c: &AnalysisConfig) -> CaseResult {
    let before = H::new().fs(x).done();
    let r = match analyze_audio(x, sr, c.clone()) {
        Ok(r) => r,
        Err(e) => {
            let silent_or_bad = x.is_empty() || sr == 0 || x.iter().any(|v| !v.is_finite());
            return Ok(Obs::new(err_kind(&e) + 10 * silent_or_bad as u64, false, 1));
        }
    };
    ensure!(before == H::new().fs(x).done(), "the caller's samples were modified");
    check_ranges(&r, x.len(), sr, c)?;
    if let Some(n) = analysed_len(x, sr, c) {
        ensure!(close(r.metadata.duration_seconds, n as f32 / sr as f32, 1e-6, 0.0), "duration {} s reported for {} analysed samples at {} Hz", r.metadata.duration_seconds, n, sr);
    }
    Ok(Obs::new(
        H::new().u((r.bpm * 2.0) as u64).u((r.bpm_confidence * 20.0) as u64).u((r.grid_stability * 20.0) as u64).u((r.key_clarity * 20.0) as u64).s(&r.key.name()).done(),
        r.bpm > 0.0 && !r.beat_grid.beats.is_empty(),
        1,
    ))
}

/// Samples left after normalisation and trimming, if those succeed.
pub fn analysed_len(samples: &[f32], sr: u32, c: &AnalysisConfig) -> Option<usize> {
    if !c.enable_silence_trimming {
        return Some(samples.len());
    }
    let mut x = samples.to_vec();
    if c.enable_normalization {
        normalize(&mut x, NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, sr as f32).ok()?;
    }
    Some(detect_and_trim(&x, sr, SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size }).ok()?.0.len())
}

pub fn check_ranges(r: &AnalysisResult, n: usize, sr: u32, c: &AnalysisConfig) -> Result<(), String> {
    let unit = |v: f32| (0.0..=1.0).contains(&v);
    ensure!(r.bpm == 0.0 || (r.bpm >= c.min_bpm * (1.0 - 1e-5) && r.bpm <= c.max_bpm * (1.0 + 1e-5)), "tempo {} outside {}..{}", r.bpm, c.min_bpm, c.max_bpm);
    ensure!(unit(r.bpm_confidence), "tempo confidence {}", r.bpm_confidence);
    ensure!(unit(r.key_confidence), "key confidence {}", r.key_confidence);
    ensure!(unit(r.key_clarity), "key clarity {}", r.key_clarity);
    ensure!(unit(r.grid_stability), "grid stability {}", r.grid_stability);
    let k = match r.key {
        Key::Major(k) | Key::Minor(k) => k,
    };
    ensure!(k < 12, "key {:?}", r.key);
    let g = &r.beat_grid;
    let dur = r.metadata.duration_seconds;
    for (name, v) in [("beats", &g.beats), ("downbeats", &g.downbeats), ("bars", &g.bars)] {
        ensure!(v.iter().all(|t| t.is_finite() && *t >= 0.0), "{} contain a negative or non-finite time: {:?}", name, v);
        ensure!(v.windows(2).all(|p| p[0] < p[1]), "{} not strictly increasing: {:?}", name, v);
        ensure!(v.iter().all(|t| *t <= dur + 0.06), "{} reach {:?} s in {} s of audio", name, v.last(), dur);
    }
    ensure!(g.downbeats.iter().all(|d| g.beats.iter().any(|b| (b - d).abs() < 1e-3)), "downbeats {:?} are not beats {:?}", g.downbeats, g.beats);
    if r.bpm == 0.0 {
        ensure!(r.bpm_confidence == 0.0, "unknown tempo with confidence {}", r.bpm_confidence);
        ensure!(g.beats.is_empty() && g.downbeats.is_empty() && g.bars.is_empty() && r.grid_stability == 0.0, "unknown tempo with a beat grid");
    }
    if g.beats.is_empty() {
        ensure!(r.grid_stability == 0.0, "no beats but stability {}", r.grid_stability);
    }
    let m = &r.metadata;
    let full = n as f32 / sr as f32;
    ensure!(m.sample_rate == sr, "sample rate {} reported for {}", m.sample_rate, sr);
    ensure!(dur.is_finite() && dur >= 0.0 && dur <= full * (1.0 + 1e-6), "duration {} for {} s of audio", dur, full);
    if !c.enable_silence_trimming {
        ensure!(close(dur, full, 1e-6, 0.0), "duration {} for {} s of untrimmed audio", dur, full);
    }
    ensure!(m.processing_time_ms.is_finite() && m.processing_time_ms >= 0.0, "processing time {}", m.processing_time_ms);
    ensure!(unit(m.onset_method_consensus), "onset consensus {}", m.onset_method_consensus);
    if let Some(cs) = &m.tempogram_candidates {
        ensure!(c.emit_tempogram_candidates, "candidates emitted without being asked for");
        let cap = if c.enable_tempogram_multi_resolution { c.tempogram_candidates_top_n.max(c.tempogram_multi_res_top_k).max(10) } else { c.tempogram_candidates_top_n };
        // the selected tempo is always listed, even beyond the cap
        ensure!(cs.len() <= cap + 1, "{} candidates emitted, at most {}", cs.len(), cap);
        for k in cs {
            ensure!(k.bpm >= c.min_bpm * (1.0 - 1e-5) && k.bpm <= c.max_bpm * (1.0 + 1e-5), "candidate tempo {}", k.bpm);
            ensure!(k.score.is_finite() && unit(k.fft_norm) && unit(k.autocorr_norm), "candidate {:?}", k);
        }
    }
    ensure!(m.tempogram_multi_res_used != Some(true) || m.tempogram_multi_res_triggered == Some(true), "multi-resolution used but not triggered");
    ensure!(m.tempogram_percussive_used != Some(true) || m.tempogram_percussive_triggered == Some(true), "percussive estimate used but not triggered");
    ensure!(c.enable_tempogram_multi_resolution || m.tempogram_multi_res_triggered.is_none(), "multi-resolution reported although disabled");
    let o = compute_confidence(r);
    for (name, v) in [("overall", o.overall_confidence), ("tempo", o.bpm_confidence), ("key", o.key_confidence), ("grid", o.grid_stability)] {
        ensure!(unit(v), "{} confidence score {}", name, v);
    }
    Ok(())
}

/// (min, max, resolution) tempo searches
pub const BPM_RANGES: &[(f32, f32, f32)] = &[(40.0, 240.0, 1.0), (60.0, 180.0, 0.5), (100.0, 110.0, 1.0), (119.5, 120.5, 0.1), (40.0, 79.0, 1.0), (150.0, 240.0, 1.0), (90.0, 179.0, 3.0), (20.0, 400.0, 5.0), (80.0, 80.5, 1.0), (200.0, 300.0, 7.0)];

pub fn p03(ctx: &Ctx) {
    ctx.rule("every reported value of every successful analysis is inside its documented range");
    ctx.assume("configurations are inside the documented ranges of their options; a beat may follow the last onset by up to 54 ms");
    let th = ctx.thorough();
    run_spaces(ctx, th, in_range);
    // tempo ranges x tempo paths x rhythms
    let bpms: Vec<usize> = (if th { 38..=230 } else { 42..=210 }).step_by(if th { 4 } else { 14 }).collect();
    let masks = [0usize, 1, 2, 3, 4, 8, 16, 5, 1 << 3 | 1 << 8, 0b1110_0000];
    let nm = if th { masks.len() } else { 5 };
    ctx.sweep(
        "tempo_limits",
        BPM_RANGES.len() * bpms.len() * 2 * nm,
        |i| {
            let mut ix = Ix(i);
            format!("range {:?}, clicks {} BPM kind {}, tempo switches {:#b}", ix.of(BPM_RANGES), ix.of(&bpms), ix.take(2) * 2, ix.of(&masks[..nm]))
        },
        |i| {
            let mut ix = Ix(i);
            let (lo, hi, res) = *ix.of(BPM_RANGES);
            let bpm = *ix.of(&bpms);
            let kind = ix.take(2) * 2;
            let mut c = small();
            tempo_switches(&mut c, *ix.of(&masks[..nm]));
            (c.min_bpm, c.max_bpm, c.bpm_resolution) = (lo, hi, res);
            c.enable_key_stft_override = false;
            in_range(&clicks(8000, 4.0, bpm as f32, kind), 8000, &c)
        },
    );
    // rates and levels
    let rates = [1u32, 7, 100, 1000, 4000, 192000, 1 << 24, u32::MAX];
    let lens = [300usize, 2000, 9000];
    let gains = [1.0f32, 1e-4, 1e-20, 30.0, 1e15, 1e30];
    let ns = if th { SIGS.len() } else { 7 };
    ctx.sweep(
        "rates_levels",
        rates.len() * lens.len() * gains.len() * ns * 2,
        |i| {
            let mut ix = Ix(i);
            format!("{} Hz, {} samples, gain {}, {}, normalise/trim {}", ix.of(&rates), ix.of(&lens), ix.of(&gains), SIGS[ix.take(ns)], ix.take(2) == 0)
        },
        |i| {
            let mut ix = Ix(i);
            let (sr, n, g) = (*ix.of(&rates), *ix.of(&lens), *ix.of(&gains));
            let k = ix.take(ns);
            let mut c = small();
            if ix.take(2) == 1 {
                c.enable_normalization = false;
                c.enable_silence_trimming = false;
            }
            let x: Vec<f32> = sig(k, 8000, n).iter().map(|v| v * g).collect();
            in_range(&x, sr, &c)
        },
    );
}

// ------------------------------------------------------------------ P02
/// values nobody should use, per option
pub fn wild_fields() -> Vec<Field> {
    const N: f32 = f32::NAN;
    const I: f32 = f32::INFINITY;
    const U: usize = usize::MAX;
    fields! {
        min_amplitude_db: [N, I, -I, 0.0, 200.0, -500.0],
        onset_threshold_percentile: [N, -1.0, 0.0, 1.0, 2.0, I],
        onset_consensus_tolerance_ms: [0, 1, 100000, u32::MAX],
        onset_consensus_weights: [[N; 4], [0.0; 4], [-1.0; 4], [I; 4], [1e38; 4]],
        hpss_margin: [0, 1, 5000, U],
        tempogram_multi_res_top_k: [0, 1, 5000, U],
        tempogram_multi_res_w512: [N, -1.0, I],
        tempogram_multi_res_w256: [N, -1.0, I],
        tempogram_multi_res_w1024: [N, -1.0, I],
        tempogram_multi_res_structural_discount: [N, -1.0, I, 0.0],
        tempogram_multi_res_double_time_512_factor: [N, -1.0, I, 0.0],
        tempogram_multi_res_margin_threshold: [N, -1.0, I, 0.0],
        tempogram_band_low_max_hz: [N, -1.0, I, 0.0, 1e9],
        tempogram_band_mid_max_hz: [N, -1.0, I, 0.0, 1e9],
        tempogram_band_high_max_hz: [N, -1.0, I, 0.0, 1e9],
        tempogram_band_w_full: [N, -1.0, I, 0.0],
        tempogram_band_w_low: [N, -1.0, I, 0.0],
        tempogram_band_w_mid: [N, -1.0, I],
        tempogram_band_w_high: [N, -1.0, I],
        tempogram_band_support_threshold: [N, -1.0, I],
        tempogram_band_consensus_bonus: [N, -1.0, I],
        tempogram_novelty_w_spectral: [N, -1.0, I],
        tempogram_novelty_w_energy: [N, -1.0, I],
        tempogram_novelty_w_hfc: [N, -1.0, I],
        tempogram_novelty_local_mean_window: [1, 2, 5000, U],
        tempogram_novelty_smooth_window: [1, 2, 5000, U],
        debug_gt_bpm: [Some(N), Some(0.0), Some(-1.0)],
        debug_top_n: [0, 5000, U],
        tempogram_mel_n_mels: [0, 1, 2, 5000],
        tempogram_mel_fmin_hz: [N, -1.0, I, 0.0, 1e9],
        tempogram_mel_fmax_hz: [N, -1.0, I, 0.0, 1e9, 30.0],
        tempogram_mel_max_filter_bins: [1, 5000, U],
        tempogram_mel_weight: [N, -1.0, I],
        tempogram_superflux_max_filter_bins: [1, 5000, U],
        tempogram_candidates_top_n: [0, 5000, U],
        legacy_bpm_preferred_min: [N, -1.0, I, 0.0],
        legacy_bpm_preferred_max: [N, -1.0, I, 0.0],
        legacy_bpm_soft_min: [N, -1.0, I, 0.0],
        legacy_bpm_soft_max: [N, -1.0, I, 0.0],
        legacy_bpm_conf_mul_preferred: [N, -1.0, I, 1e9],
        legacy_bpm_conf_mul_soft: [N, -1.0, I, 1e9],
        legacy_bpm_conf_mul_extreme: [N, -1.0, I, 1e9],
        min_bpm: [N, -10.0, 0.0, 1e-6, I, 240.0, 2000.0],
        max_bpm: [N, -10.0, 0.0, 40.0, I, 2000.0, 1e30],
        bpm_resolution: [N, -1.0, 0.0, 1e-30, 0.05, I, 1e6],
        frame_size: [0, 1, 2, 3, 5, 16, 255, 257, 2048, 9000, 100000],
        hop_size: [0, 8, 255, 256, 257, 5000, 100000],
        center_frequency: [N, 0.0, -1.0, I],
        soft_mapping_sigma: [N, 0.0, -1.0, I, 1e-30],
        chroma_sharpening_power: [N, 0.0, -1.0, I, 1e9],
        key_spectrogram_smooth_margin: [1, 5000, U],
        key_min_tonalness: [N, -1.0, 2.0, I],
        key_tonalness_power: [N, -1.0, 1e9, I],
        key_energy_power: [N, -1.0, 1e9, I],
        key_harmonic_mask_power: [N, -1.0, 0.0, 1e9, I],
        key_hpss_frame_step: [0, 5000, U],
        key_hpss_time_margin: [0, 5000, U],
        key_hpss_freq_margin: [0, 5000, U],
        key_hpss_mask_power: [N, -1.0, 0.0, 1e9, I],
        key_stft_frame_size: [0, 1, 256, 257, 1 << 17],
        key_stft_hop_size: [0, 3, 1 << 17],
        key_ensemble_kk_weight: [N, -1.0, I, -0.5],
        key_ensemble_temperley_weight: [N, -1.0, I, -0.5],
        key_median_segment_length_frames: [0, 1, 119, 5000, U],
        key_median_segment_hop_frames: [0, 1, 5000, U],
        key_median_min_segments: [0, 5000, U],
        key_multi_scale_lengths: [vec![], vec![0], vec![1], vec![119, 120, 121], vec![5000, 20], vec![U]],
        key_multi_scale_hop: [0, 1, 5000, U],
        key_multi_scale_min_clarity: [N, -1.0, 2.0, I],
        key_multi_scale_weights: [vec![N, N], vec![0.0], vec![-1.0, 1.0], vec![I, I], vec![1.0, 2.0, 3.0, 4.0]],
        key_tuning_max_abs_semitones: [N, -0.3, I, 100.0],
        key_tuning_frame_step: [0, 5000, U],
        key_tuning_peak_rel_threshold: [N, -1.0, 0.0, 2.0, I],
        key_edge_trim_fraction: [N, -1.0, 0.49, 0.5, 1.0, I],
        key_segment_len_frames: [0, 1, 120, 5000, U],
        key_segment_hop_frames: [0, 1, 5000, U],
        key_segment_min_clarity: [N, -1.0, 2.0, I],
        key_mode_third_ratio_margin: [N, -1.0, 2.0, I],
        key_mode_flip_min_score_ratio: [N, -1.0, 2.0, I],
        key_hpcp_peaks_per_frame: [0, 1, 5000, U],
        key_hpcp_num_harmonics: [0, 100, 5000],
        key_hpcp_harmonic_decay: [N, -1.0, 0.0, 2.0, I],
        key_hpcp_mag_power: [N, -1.0, 0.0, 9.0, I],
        key_hpcp_whitening_smooth_bins: [0, 1, 2, 5000, U],
        key_hpcp_bass_fmin_hz: [N, -1.0, 0.0, 1e9, I],
        key_hpcp_bass_fmax_hz: [N, -1.0, 0.0, 1e9, I],
        key_hpcp_bass_weight: [N, -1.0, 2.0, I],
        key_minor_leading_tone_bonus_weight: [N, -1.0, 9.0, I],
        debug_track_id: [Some(0), Some(u32::MAX)],
    }
}

fn returns(x: &[f32], sr: u32, c: &AnalysisConfig) -> CaseResult {
    let r = analyze_audio(x, sr, c.clone());
    let must_fail = x.is_empty() || sr == 0 || x.iter().any(|v| !v.is_finite()) || (c.enable_silence_trimming && c.min_amplitude_db.is_finite() && x.iter().all(|v| *v == 0.0));
    ensure!(!must_fail || r.is_err(), "analysis of empty, silent or non-finite audio (or at a zero rate) succeeded");
    Ok(match r {
        Ok(r) => Obs::new(H::new().u((r.bpm as f64).min(1e6) as u64).s(&r.key.name()).done(), true, 1),
        Err(e) => Obs::new(1000 + err_kind(&e), must_fail, 1),
    })
}

pub fn p02(ctx: &Ctx) {
    ctx.rule("the analysis returns a result or an error; panics, overflows and hangs are violations");
    let th = ctx.thorough();
    run_spaces(ctx, false, returns);
    // wild option values, one at a time, with the option's own switch on
    let nd = deviations(&wild_fields()).len();
    let sigs: Vec<usize> = if th { (0..SIGS.len()).collect() } else { vec![0, 3, 7] };
    let variants = 3; // own switch / everything on / own switch and legacy+fusion
    let mk = |fi: &[(usize, usize)], var: usize| -> (String, AnalysisConfig) {
        let f = wild_fields();
        let mut c = small();
        match var {
            1 => {
                c.enable_hpss_onsets = true;
                c.enable_tempogram_percussive_fallback = true;
                c.emit_tempogram_candidates = true;
                c.enable_key_hpcp_bass_blend = true;
                c.enable_key_hpcp_whitening = true;
                c.enable_key_tuning_compensation = true;
                c.enable_key_edge_trim = true;
                c.enable_key_mode_heuristic = true;
                c.enable_key_minor_harmonic_bonus = true;
                c.enable_bpm_fusion = true;
                c.tempogram_multi_res_use_human_prior = true;
                c.tempogram_band_seed_only = false;
            }
            2 => {
                c.enable_tempogram_multi_resolution = false;
                c.enable_key_stft_override = false;
                c.enable_key_hpcp = false;
                c.enable_key_beat_synchronous = true;
                c.enable_normalization = false;
                c.enable_silence_trimming = false;
            }
            _ => {}
        }
        let mut d = vec![];
        for (a, _) in fi {
            enable_for(&mut c, f[*a].name);
        }
        for (a, v) in fi {
            d.push((f[*a].set)(&mut c, *v));
        }
        (format!("{} (variant {})", d.join(", "), var), c)
    };
    let one = |i: usize| {
        let mut ix = Ix(i);
        let d = deviations(&wild_fields())[ix.take(nd)];
        let k = *ix.of(&sigs);
        let (t, c) = mk(&[d], ix.take(variants));
        (format!("{}: {}", SIGS[k], t), k, c)
    };
    ctx.sweep("wild_one", nd * sigs.len() * variants, |i| one(i).0, |i| {
        let (_, k, c) = one(i);
        returns(&sig(k, 8000, if th { 17000 } else { 9000 }), 8000, &c)
    });
    // wild pairs
    let (a, b) = if th { (nd, nd) } else { (nd, 24) };
    // quick: every deviation against the first value of the size/tempo options; thorough: all pairs
    let heavy: Vec<usize> = {
        let f = wild_fields();
        deviations(&f).iter().enumerate().filter(|(_, d)| ["frame_size", "hop_size", "min_bpm", "max_bpm", "bpm_resolution", "key_stft_frame_size"].contains(&f[d.0].name)).map(|(i, _)| i).collect()
    };
    let nb = if th { b } else { heavy.len() };
    let two = |i: usize| {
        let mut ix = Ix(i);
        let f = wild_fields();
        let d = deviations(&f);
        let p = d[ix.take(a)];
        let q = if th { d[ix.take(nb)] } else { d[heavy[ix.take(nb)]] };
        let (t, c) = mk(&[p, q], 0);
        (t, c)
    };
    ctx.sweep("wild_two", a * nb, |i| two(i).0, |i| returns(&sig(0, 8000, 5000), 8000, &two(i).1));
    // every length for tiny frames, at ordinary and absurd rates
    let geo = [(16usize, 4usize), (16, 16), (16, 23), (17, 5), (2, 1), (1, 1), (64, 16)];
    let rates = [0u32, 1, 8000, 44100, u32::MAX];
    let maxn = if th { 160 } else { 70 };
    ctx.sweep(
        "tiny_lengths",
        geo.len() * rates.len() * (maxn + 1) * 6,
        |i| {
            let mut ix = Ix(i);
            format!("frame/hop {:?}, {} Hz, {} samples, {}", ix.of(&geo), ix.of(&rates), ix.take(maxn + 1), SIGS[[0, 6, 9, 10, 11, 12][ix.take(6)]])
        },
        |i| {
            let mut ix = Ix(i);
            let ((f, h), sr, n) = (*ix.of(&geo), *ix.of(&rates), ix.take(maxn + 1));
            let k = [0, 6, 9, 10, 11, 12][ix.take(6)];
            let c = AnalysisConfig { frame_size: f, hop_size: h, enable_key_stft_override: false, ..small() };
            returns(&sig(k, 8000, n), sr, &c)
        },
    );
    // one non-finite sample deep inside a long recording: every power-of-two distance from either end
    let sizes: Vec<usize> = if th { vec![70_001, 1_100_003, 4_200_007, 17_000_023] } else { vec![70_001, 1_100_003, 4_200_007] };
    let mut deep: Vec<(usize, usize, usize)> = vec![];
    for n in &sizes {
        let mut d = 1usize;
        while d < *n {
            for p in [d, n - d, d - 1, n - d - (d > 1 && n - d > 0) as usize] {
                for v in 0..3 {
                    deep.push((*n, p, v));
                }
            }
            d *= 2;
        }
    }
    ctx.sweep(
        "deep_non_finite",
        deep.len(),
        |i| format!("{} at {} of {} samples", [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][deep[i].2], deep[i].1, deep[i].0),
        |i| {
            let (n, p, v) = deep[i];
            let mut x = vec![0.25f32; n];
            x[p] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][v];
            returns(&x, 44100, &AnalysisConfig { frame_size: 2048, hop_size: 2048, enable_key_stft_override: false, ..small() })
        },
    );
    // non-finite and extreme samples at every kind of position
    let vals = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 1e20, -1e30, f32::MIN_POSITIVE, 1e-42, -0.0];
    let places = ["first", "middle", "last", "every 100th", "all"];
    let sg = [0usize, 1, 6, 11];
    ctx.sweep(
        "strange_samples",
        vals.len() * places.len() * sg.len() * 6,
        |i| {
            let mut ix = Ix(i);
            format!("{} at {} of {}, variant {}", ix.of(&vals), ix.of(&places), SIGS[*ix.of(&sg)], ix.take(6))
        },
        |i| {
            let mut ix = Ix(i);
            let v = *ix.of(&vals);
            let p = ix.take(places.len());
            let k = *ix.of(&sg);
            let n = 12000;
            let mut x = sig(k, 8000, n);
            match p {
                0 => x[0] = v,
                1 => x[n / 2] = v,
                2 => x[n - 1] = v,
                3 => x.iter_mut().step_by(100).for_each(|s| *s = v),
                _ => x.iter_mut().for_each(|s| *s = v),
            }
            let var = ix.take(6);
            let mut c = mk(&[], var % 3).1;
            if var >= 3 {
                c.normalization = if var == 3 { NormalizationMethod::RMS } else { NormalizationMethod::Loudness };
                c.enable_normalization = var != 5;
                c.enable_silence_trimming = var == 4;
            }
            returns(&x, 8000, &c)
        },
    );
}
