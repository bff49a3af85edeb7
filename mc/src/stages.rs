//! Every public stage of the library as an operation of its own, each with four contrasting inputs:
//! 0 = loud, 1 = the same shape quiet and sparse, 2 = another length and content, 3 = input 0 with other parameters.
use crate::chroma::lcg;
use crate::tempo::band_cfg;
use std::fmt::Debug;
use stratum_dsp::analysis::result::*;
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
use stratum_dsp::features::beat_tracking::tempo_variation::*;
use stratum_dsp::features::beat_tracking::time_signature::*;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::*;
use stratum_dsp::features::chroma::smoothing::*;
use stratum_dsp::features::key::detector::*;
use stratum_dsp::features::key::templates::{KeyTemplates, TemplateSet};
use stratum_dsp::features::key::*;
use stratum_dsp::features::onset::consensus::*;
use stratum_dsp::features::onset::energy_flux::*;
use stratum_dsp::features::onset::hfc::*;
use stratum_dsp::features::onset::hpss::*;
use stratum_dsp::features::onset::spectral_flux::*;
use stratum_dsp::features::onset::threshold::*;
use stratum_dsp::features::period::multi_resolution::*;
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::*;
use stratum_dsp::preprocessing::channel_mixer::*;
use stratum_dsp::preprocessing::normalization::*;
use stratum_dsp::preprocessing::silence::*;

pub type Job = Box<dyn FnOnce() -> Box<dyn Debug>>;
pub const VARIANTS: usize = 4;

fn audio(v: usize) -> Vec<f32> {
    let n = if v == 2 { 1500 } else { 1200 };
    (0..n)
        .map(|i| {
            let beat = i % [200, 400, 170, 200][v] < [30, 12, 25, 30][v];
            let level = [0.8, 0.004, 0.3, 0.8][v];
            let tail = [0.02, 0.0, 0.05, 0.02][v];
            let w = ((i as f32) * [0.31, 0.31, 0.52, 0.31][v]).sin();
            if beat { level * w } else { tail * lcg(7 + v as u64, i) }
        })
        .collect()
}
fn spec(v: usize) -> Vec<Vec<f32>> {
    let (t, b) = [(48, 33), (48, 33), (40, 33), (48, 33)][v];
    let level = [4.0, 0.01, 0.7, 4.0][v];
    (0..t)
        .map(|f| {
            let hit = f % [6, 9, 5, 6][v] == 0;
            (0..b).map(|k| level * (lcg(v as u64 % 3, f * b + k).abs() * 0.2 + if hit { 1.0 + 0.3 * (k % 3) as f32 } else { 0.0 } + if k % 7 == 2 + v % 3 { 0.8 } else { 0.0 })).collect()
        })
        .collect()
}
fn curve(v: usize) -> Vec<f32> {
    let n = [220, 220, 180, 220][v];
    let level = [1.0, 0.002, 0.4, 1.0][v];
    (0..n).map(|i| level * (if i % [12, 19, 15, 12][v] == 0 { 1.0 } else { 0.1 * lcg(v as u64 % 3, i).abs() })).collect()
}
fn times(v: usize) -> Vec<f32> {
    let n = [20, 20, 14, 20][v];
    let p = [0.5, 0.61, 0.42, 0.5][v];
    (0..n).map(|i| i as f32 * p + [0.0, 0.015, 0.01, 0.0][v] * (i % 3) as f32).collect()
}
fn samples_of(v: usize) -> Vec<usize> {
    times(v).iter().map(|t| (t * 8000.0) as usize).collect()
}
fn chroma(v: usize) -> Vec<Vec<f32>> {
    let n = [60, 60, 44, 60][v];
    (0..n)
        .map(|t| {
            let mut c: Vec<f32> = (0..12).map(|p| [1.0, 0.01, 0.5, 1.0][v] * (0.1 * lcg(v as u64 % 3, t * 12 + p).abs() + if [0, 4, 7].contains(&((p + 12 - [0, 5, 9, 0][v]) % 12)) { 1.0 } else { 0.0 })).collect();
            if v == 1 && t > 30 {
                c.rotate_right(3);
            }
            c
        })
        .collect()
}
fn tpl(v: usize) -> KeyTemplates {
    if v == 3 { KeyTemplates::new_with_template_set(TemplateSet::Temperley) } else { KeyTemplates::new() }
}
fn cands(v: usize, s: f32) -> Vec<BpmCandidate> {
    (0..6 + v).map(|i| BpmCandidate { bpm: 60.0 + s + 23.0 * i as f32 + v as f32, confidence: [0.9, 0.02, 0.5, 0.9][v] / (1 + i) as f32 }).collect()
}
fn result(v: usize) -> AnalysisResult {
    AnalysisResult {
        bpm: [120.0, 90.0, 150.0, 120.0][v],
        bpm_confidence: [0.9, 0.05, 0.5, 0.9][v],
        key: if v == 1 { Key::Minor(9) } else { Key::Major(v as u32) },
        key_confidence: [0.8, 0.01, 0.4, 0.1][v],
        key_clarity: [0.7, 0.02, 0.3, 0.7][v],
        beat_grid: BeatGrid { downbeats: times(v).into_iter().step_by(4).collect(), beats: times(v), bars: times(v).into_iter().step_by(4).collect() },
        grid_stability: [0.9, 0.1, 0.5, 0.2][v],
        metadata: AnalysisMetadata {
            duration_seconds: 10.0,
            sample_rate: 8000,
            processing_time_ms: 0.0,
            algorithm_version: String::new(),
            onset_method_consensus: 1.0,
            methods_used: vec![],
            flags: vec![],
            confidence_warnings: vec![],
            tempogram_candidates: None,
            tempogram_multi_res_triggered: None,
            tempogram_multi_res_used: None,
            tempogram_percussive_triggered: None,
            tempogram_percussive_used: None,
        },
    }
}

macro_rules! stages {
    ($v:ident; $( $name:literal => { $($prep:tt)* } $call:block )*) => {
        pub const NAMES: &[&str] = &[$($name),*];
        #[allow(unused_assignments, unused_variables)]
        pub fn prepare(stage: usize, $v: usize) -> Job {
            let mut k = 0usize;
            $( if k == stage { $($prep)* return Box::new(move || Box::new($call)); } k += 1; )*
            unreachable!()
        }
    };
}
stages! { v;
    "energy onsets" => { let x = audio(v); } { detect_energy_flux_onsets(&x, 64, 32, [-20.0, -20.0, -20.0, -35.0][v]) }
    "spectral onsets" => { let s = spec(v); } { detect_spectral_flux_onsets(&s, [0.8, 0.8, 0.8, 0.5][v]) }
    "hfc onsets" => { let s = spec(v); } { detect_hfc_onsets(&s, if v == 3 { 4000 } else { 8000 }, [0.8, 0.8, 0.8, 0.5][v]) }
    "hpss" => { let s = spec(v); } { hpss_decompose(&s, [3, 3, 3, 5][v]) }
    "hpss onsets" => { let s = spec(v); } { detect_hpss_onsets(&s, [0.8, 0.8, 0.8, 0.5][v]) }
    "onset vote" => { let t = samples_of(v); } { vote_onsets(OnsetConsensus { energy_flux: t.clone(), spectral_flux: t.iter().map(|x| x + 90).collect(), hfc: t.iter().step_by(2).copied().collect(), hpss: vec![] }, [[0.25; 4], [0.25; 4], [0.25; 4], [0.4, 0.3, 0.2, 0.1]][v], [50, 50, 50, 5][v], 8000) }
    "adaptive threshold" => { let c = curve(v); } { adaptive_threshold_median_mad(&c, [1.5, 1.5, 1.5, 3.0][v]) }
    "percentile threshold" => { let c = curve(v); } { percentile_threshold(&c, [0.8, 0.8, 0.8, 0.3][v]) }
    "spectral novelty" => { let s = spec(v); } { spectral_flux_novelty(&s) }
    "superflux novelty" => { let s = spec(v); } { superflux_novelty(&s, [4, 4, 4, 1][v]) }
    "superflux band novelty" => { let s = spec(v); } { superflux_novelty_band(&s, [4, 4, 4, 1][v], [0, 0, 0, 4][v], 20) }
    "energy novelty" => { let s = spec(v); } { energy_flux_novelty(&s) }
    "energy band novelty" => { let s = spec(v); } { energy_flux_novelty_band(&s, [0, 0, 0, 4][v], 20) }
    "mel novelty" => { let s = spec(v); } { mel_superflux_novelty(&s, [8000, 8000, 8000, 16000][v], [10, 10, 10, 7][v], 30.0, 3900.0, 2) }
    "hfc novelty" => { let s = spec(v); } { hfc_novelty(&s, [8000, 8000, 8000, 16000][v]) }
    "hfc band novelty" => { let s = spec(v); } { hfc_novelty_band(&s, [0, 0, 0, 4][v], 20) }
    "combined novelty" => { let (a, b) = (curve(v), curve((v + 2) % 4)); let n = a.len().min(b.len()); } { combined_novelty(&a[..n], &b[..n], &a[..n]) }
    "weighted novelty" => { let (a, b) = (curve(v), curve((v + 2) % 4)); let n = a.len().min(b.len()); } { combined_novelty_with_params(&a[..n], &b[..n], &a[..n], [0.3, 0.3, 0.3, 0.1][v], 0.3, 0.3, [16, 16, 16, 5][v], [5, 5, 5, 3][v]) }
    "autocorrelation tempogram" => { let c = curve(v); } { autocorrelation_tempogram(&c, 8000, [128, 128, 128, 100][v], 60.0, 180.0, [2.0, 2.0, 2.0, 5.0][v]).map(|t| (find_best_bpm_autocorr(&t).map(|r| (r.bpm, r.confidence)), t)) }
    "fft tempogram" => { let c = curve(v); } { fft_tempogram(&c, 8000, [128, 128, 128, 100][v], 60.0, 180.0).map(|t| (find_best_bpm_fft(&t).map(|r| (r.bpm, r.confidence)), t)) }
    "tempogram tempo" => { let s = spec(v); } { estimate_bpm_tempogram(&s, 8000, [256, 256, 256, 200][v], 60.0, 180.0, 5.0).map(|e| (e.bpm, e.confidence)) }
    "tempogram candidates" => { let s = spec(v); } { estimate_bpm_tempogram_with_candidates(&s, 8000, [256, 256, 256, 200][v], 60.0, 180.0, 5.0, 8).map(|(e, c)| (e.bpm, e.confidence, c.iter().map(|k| (k.bpm, k.score)).collect::<Vec<_>>())) }
    "band fusion tempo" => { let s = spec(v); let mut b = band_cfg(); b.seed_only = v == 3; b.mel_n_mels = [10, 10, 10, 7][v]; } { estimate_bpm_tempogram_band_fusion(&s, 8000, 256, 60.0, 180.0, 5.0, b).map(|e| (e.bpm, e.confidence)) }
    "band fusion candidates" => { let s = spec(v); let mut b = band_cfg(); b.seed_only = v == 3; b.mel_n_mels = [10, 10, 10, 7][v]; } { estimate_bpm_tempogram_with_candidates_band_fusion(&s, 8000, 256, 60.0, 180.0, 5.0, 8, b).map(|(e, c)| (e.bpm, e.confidence, c.iter().map(|k| (k.bpm, k.score)).collect::<Vec<_>>())) }
    "multi-resolution analysis" => { let s = spec(v); } { multi_resolution_analysis(&s, 8000, [256, 256, 256, 200][v], 60.0, 180.0, 5.0).map(|e| (e.bpm, e.confidence)) }
    "multi-resolution tempo" => { let x: Vec<f32> = (0..16).flat_map(|_| audio(v)).collect(); } { multi_resolution_tempogram_from_samples(&x, 16000, 256, 60.0, 180.0, [5.0, 5.0, 5.0, 8.0][v], 5, 0.45, 0.35, 0.2, 0.85, 0.9, 0.08, v == 3, None).map(|(e, c)| (e.bpm, e.confidence, c.iter().map(|k| (k.bpm, k.score)).collect::<Vec<_>>())) }
    "peaks" => { let c = curve(v); } { find_peaks(&c, [0.3, 0.3, 0.3, 0.6][v], [4, 4, 4, 20][v]) }
    "autocorrelation tempo" => { let o = samples_of(v); } { estimate_bpm_from_autocorrelation(&o, 8000, [256, 256, 256, 200][v], 60.0, 180.0) }
    "comb filter tempo" => { let o = samples_of(v); } { estimate_bpm_from_comb_filter(&o, 8000, 256, 60.0, 180.0, [5.0, 5.0, 5.0, 3.0][v]) }
    "coarse to fine" => { let o = samples_of(v); } { coarse_to_fine_search(&o, 8000, 256, 60.0, 180.0, [5.0, 5.0, 5.0, 2.0][v]) }
    "merge candidates" => { let (a, b) = (cands(v, 0.0), cands(v, 1.5)); } { merge_bpm_candidates(a, b, [50.0, 50.0, 50.0, 10.0][v]) }
    "legacy tempo" => { let o = samples_of(v); } { estimate_bpm(&o, 8000, 256, 60.0, 180.0, [5.0, 5.0, 5.0, 3.0][v]) }
    "legacy tempo with guardrails" => { let o = samples_of(v); let g = LegacyBpmGuardrails { preferred_min: 75.0, preferred_max: 150.0, soft_min: 60.0, soft_max: 180.0, mul_preferred: 1.0, mul_soft: 0.7, mul_extreme: [0.1, 0.1, 0.1, 0.4][v] }; } { estimate_bpm_with_guardrails(&o, 8000, 256, 60.0, 180.0, 5.0, g) }
    "stft" => { let x = audio(v); } { compute_stft(&x, 64, [32, 32, 32, 40][v]) }
    "stft of another size" => { let x = audio(v); } { compute_stft(&x, [128, 128, 96, 100][v], 50) }
    "tuning" => { let s = spec(v); } { estimate_tuning_offset_semitones_from_spectrogram(&s, 8000, 64, 80.0, [3000.0, 3000.0, 3000.0, 2000.0][v], 1, 0.3) }
    "chroma" => { let x = audio(v); } { extract_chroma(&x, 8000, 64, [32, 32, 32, 40][v]) }
    "soft chroma" => { let x = audio(v); } { extract_chroma_with_options(&x, 8000, 64, 32, true, [0.5, 0.5, 0.5, 1.0][v]) }
    "log frequency" => { let s = spec(v); } { convert_linear_to_log_frequency_spectrogram(&s, 8000, 64, [100.0, 100.0, 100.0, 150.0][v], 3000.0) }
    "log frequency chroma" => { let s: Vec<Vec<f32>> = spec(v); } { extract_chroma_from_log_frequency_spectrogram(&s, [0, 0, 0, 3][v]) }
    "beat chroma" => { let s = spec(v); let t: Vec<f32> = times(v).iter().map(|t| t * 0.2).collect(); } { extract_beat_synchronous_chroma(&s, 8000, 64, 256, &t, v != 3, 0.5, 0.0) }
    "spectrogram chroma" => { let s = spec(v); } { extract_chroma_from_spectrogram_with_options(&s, 8000, 64, true, [0.5, 0.5, 0.5, 1.0][v]) }
    "spectrogram chroma and energy" => { let s = spec(v); } { extract_chroma_from_spectrogram_with_options_and_energy(&s, 8000, 64, v != 3, 0.5) }
    "tuned chroma" => { let s = spec(v); } { extract_chroma_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 64, true, 0.5, [0.1, 0.1, 0.1, -0.2][v]) }
    "hpcp" => { let s = spec(v); } { extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 64, 0.5, [0.0, 0.0, 0.0, 0.2][v], 8, 3, 0.6, 0.5, true, 3) }
    "hpcp bass" => { let s = spec(v); } { extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 64, 0.5, 0.0, [8, 8, 8, 4][v], 3, 0.6, 0.5, v != 3, 3, 50.0, 600.0, [0.35, 0.35, 0.35, 0.6][v]) }
    "spectrogram smoothing" => { let s = spec(v); } { smooth_spectrogram_time(&s, [3, 3, 3, 5][v]) }
    "time mask" => { let s = spec(v); } { harmonic_spectrogram_time_mask(&s, [3, 3, 3, 5][v], 2.0) }
    "median mask" => { let s = spec(v); } { harmonic_spectrogram_hpss_median_mask(&s, 8000, 64, 100.0, 3500.0, [1, 1, 1, 2][v], 3, 3, 2.0) }
    "chroma smoothing" => { let c = chroma(v); } { smooth_chroma(&c, [5, 5, 5, 3][v]) }
    "chroma averaging" => { let c = chroma(v); } { smooth_chroma_average(&c, [5, 5, 5, 3][v]) }
    "sharpen and normalise" => { let c = chroma(v); } { c.iter().take(8).map(|f| (sharpen_chroma(f, [1.5, 1.5, 1.5, 2.0][v]), l2_normalize_chroma(f))).collect::<Vec<_>>() }
    "templates" => { let u = (); } { (0..24).map(|k| tpl(v).get_template(k).to_vec()).collect::<Vec<_>>() }
    "key" => { let (c, t) = (chroma(v), tpl(v)); } { detect_key(&c, &t).map(|r| (r.key, r.confidence, r.all_scores)) }
    "weighted key" => { let (c, t) = (chroma(v), tpl(v)); let w: Vec<f32> = (0..c.len()).map(|i| (i % (3 + v)) as f32).collect(); } { detect_key_weighted(&c, &t, Some(&w)).map(|r| (r.key, r.confidence, r.all_scores)) }
    "mode heuristic key" => { let (c, t) = (chroma(v), tpl(v)); } { detect_key_weighted_mode_heuristic(&c, &t, None, [0.0, 0.0, 0.0, 0.3][v], 0.6, true, 0.3).map(|r| (r.key, r.confidence, r.all_scores)) }
    "multi-scale key" => { let (c, t) = (chroma(v), tpl(v)); } { detect_key_multi_scale(&c, &t, None, &[12, 25], [6, 6, 6, 9][v], 0.0, None, true, 0.0, 0.6, true, 0.2).map(|r| (r.key, r.confidence, r.all_scores)) }
    "median key" => { let (c, t) = (chroma(v), tpl(v)); } { detect_key_median(&c, &t, None, 15, [5, 5, 5, 8][v], 2).map(|r| (r.key, r.confidence, r.all_scores)) }
    "ensemble key" => { let c = chroma(v); } { detect_key_ensemble(&c, None, [0.5, 0.5, 0.5, 0.2][v], 0.5).map(|r| (r.key, r.confidence, r.all_scores)) }
    "clarity" => { let s: Vec<(Key, f32)> = (0..24u32).map(|k| (Key::Major(k % 12), [1.0, 0.01, 0.4, 1.0][v] * lcg(v as u64, k as usize).abs())).collect(); } { compute_key_clarity(&s) }
    "key changes" => { let (c, t) = (chroma(v), tpl(v)); } { detect_key_changes(&c, 8000, 2000, &t, [4.0, 4.0, 4.0, 2.5][v], 1.0) }
    "beat grid" => { let t = times(v); } { generate_beat_grid([120.0, 98.0, 143.0, 60.0][v], 0.8, &t, 8000) }
    "beat tracking" => { let t = times(v); } { HmmBeatTracker::new([120.0, 98.0, 143.0, 122.0][v], t, 8000).track_beats().map(|b| b.iter().map(|p| (p.beat_index, p.time_seconds, p.confidence)).collect::<Vec<_>>()) }
    "tempo tracking" => { let t = times(v); } { { let mut b = BayesianBeatTracker::new([120.0, 98.0, 143.0, 90.0][v], 0.7); (0..3).map(|k| (b.update_with_onsets(&t[k..], 8000), b.get_bpm(), b.get_confidence(), b.get_history().to_vec())).collect::<Vec<_>>() } }
    "tempo variation" => { let t = times(v); } { detect_tempo_variations(&t, [120.0, 98.0, 143.0, 60.0][v]).map(|s| s.iter().map(|g| (g.start_time, g.end_time, g.bpm, g.confidence)).collect::<Vec<_>>()) }
    "time signature" => { let t = times(v); } { detect_time_signature(&t, [120.0, 98.0, 143.0, 60.0][v]).map(|(s, c)| (s.name(), c)) }
    "peak normalisation" => { let mut x = audio(v); } { { let m = normalize(&mut x, NormalizationConfig { method: NormalizationMethod::Peak, target_loudness_lufs: -14.0, max_headroom_db: [1.0, 1.0, 1.0, 6.0][v] }, 8000.0); (x, format!("{:?}", m)) } }
    "rms normalisation" => { let mut x = audio(v); } { { let m = normalize(&mut x, NormalizationConfig { method: NormalizationMethod::RMS, target_loudness_lufs: [-14.0, -14.0, -14.0, -23.0][v], max_headroom_db: 1.0 }, 8000.0); (x, format!("{:?}", m)) } }
    "loudness normalisation" => { let mut x: Vec<f32> = (0..4).flat_map(|_| audio(v)).collect(); } { { let m = normalize(&mut x, NormalizationConfig { method: NormalizationMethod::Loudness, target_loudness_lufs: [-14.0, -14.0, -14.0, -23.0][v], max_headroom_db: 1.0 }, [8000.0, 8000.0, 8000.0, 11025.0][v]); (x, format!("{:?}", m)) } }
    "trim" => { let mut x = vec![0.0; 300]; x.extend(audio(v)); x.extend(vec![0.0; 400]); } { detect_and_trim(&x, 8000, SilenceDetector { threshold_db: [-40.0, -70.0, -40.0, -20.0][v], min_duration_ms: 10, frame_size: 64 }) }
    "downmix" => { let (a, b) = (audio(v), audio(0)); let n = a.len().min(b.len()); } { stereo_to_mono(&a[..n], &b[..n], if v == 3 { ChannelMixMode::MidSide } else { ChannelMixMode::Mono }) }
    "dominant downmix" => { let (a, b) = (audio(v), audio((v + 2) % 4)); let n = a.len().min(b.len()); } { stereo_to_mono(&a[..n], &b[..n], ChannelMixMode::Dominant) }
    "confidence" => { let r = result(v); } { { let c = stratum_dsp::compute_confidence(&r); (format!("{:?}", c), c.confidence_level()) } }
    "key names" => { let u = (); } { (0..12).map(|k| { let k = if v % 2 == 0 { Key::Major(k) } else { Key::Minor(k) }; (k.name(), k.numerical(), Key::from_numerical(&k.numerical())) }).collect::<Vec<_>>() }
}
