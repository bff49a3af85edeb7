//! P31: the command-line tools report what the library returns for the recording and options they were given.
use crate::chroma::lcg;
use crate::core::*;
use crate::e2e::cadence;
use crate::ensure;
use crate::tempo::clicks;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisConfig};

// ------------------------------------------------------------------ recordings
#[derive(Clone, Copy, PartialEq, Debug)]
enum Enc {
    U8,
    S16,
    S24,
    S32,
    F32,
    F64,
}
const ENCS: [Enc; 6] = [Enc::U8, Enc::S16, Enc::S24, Enc::S32, Enc::F32, Enc::F64];
impl Enc {
    fn bytes(self) -> usize {
        match self {
            Enc::U8 => 1,
            Enc::S16 => 2,
            Enc::S24 => 3,
            Enc::S32 | Enc::F32 => 4,
            Enc::F64 => 8,
        }
    }
    /// bytes of one sample, and the value a reader gets back
    fn put(self, x: f32, out: &mut Vec<u8>) -> f32 {
        let q = |s: f64| (x as f64 * s).round().clamp(-s, s - 1.0);
        match self {
            Enc::U8 => {
                let v = q(128.0);
                out.push((v + 128.0) as u8);
                (v / 128.0) as f32
            }
            Enc::S16 => {
                let v = q(32768.0);
                out.extend((v as i16).to_le_bytes());
                (v / 32768.0) as f32
            }
            Enc::S24 => {
                let v = q(8388608.0);
                out.extend(&(v as i32).to_le_bytes()[..3]);
                (v / 8388608.0) as f32
            }
            Enc::S32 => {
                let v = q(2147483648.0);
                out.extend((v as i32).to_le_bytes());
                (v as i32) as f32 / 2147483648.0
            }
            Enc::F32 => {
                out.extend(x.to_le_bytes());
                x
            }
            Enc::F64 => {
                let v = x as f64 * 1.000000001;
                out.extend(v.to_le_bytes());
                v as f32
            }
        }
    }
}
/// a RIFF file with these channels; the mono samples a reader must see
fn wav(ch: &[Vec<f32>], sr: u32, enc: Enc) -> (Vec<u8>, Vec<f32>) {
    let (n, c, b) = (ch[0].len(), ch.len(), enc.bytes());
    let mut data = Vec::new();
    let mut mono = Vec::new();
    for i in 0..n {
        let v: Vec<f32> = ch.iter().map(|x| enc.put(x[i], &mut data)).collect();
        mono.push(if c == 1 { v[0] } else { v.iter().sum::<f32>() / c as f32 });
    }
    let ext = c > 2 || b > 2 && !matches!(enc, Enc::F32 | Enc::F64);
    let tag: u16 = if matches!(enc, Enc::F32 | Enc::F64) { 3 } else { 1 };
    let mut fmt = Vec::new();
    fmt.extend((if ext { 0xfffeu16 } else { tag }).to_le_bytes());
    fmt.extend((c as u16).to_le_bytes());
    fmt.extend(sr.to_le_bytes());
    fmt.extend((sr * (c * b) as u32).to_le_bytes());
    fmt.extend(((c * b) as u16).to_le_bytes());
    fmt.extend(((8 * b) as u16).to_le_bytes());
    if ext {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend(((8 * b) as u16).to_le_bytes());
        fmt.extend(((1u32 << c) - 1).to_le_bytes());
        fmt.extend(tag.to_le_bytes());
        fmt.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    }
    let mut f = b"RIFF".to_vec();
    f.extend(((4 + 8 + fmt.len() + 8 + data.len() + data.len() % 2) as u32).to_le_bytes());
    f.extend(b"WAVEfmt ");
    f.extend((fmt.len() as u32).to_le_bytes());
    f.extend(fmt);
    f.extend(b"data");
    f.extend((data.len() as u32).to_le_bytes());
    let odd = data.len() % 2 == 1;
    f.extend(data);
    if odd {
        f.push(0);
    }
    (f, mono)
}
/// test music: kind 0 = clicks over a chord progression, 1 = minor cadence with noise and syncopation
fn music(kind: usize, sr: u32, secs: f32) -> Vec<f32> {
    let n = (sr as f32 * secs) as usize;
    let c = clicks(sr, secs, [126.0, 92.0, 174.0][kind], kind);
    let t = cadence(sr, [2, 9, 5][kind], kind == 1, secs, [0.9, 0.6, 1.1][kind], 5, [1, 0, 1][kind], -1, false);
    (0..n).map(|i| 0.5 * c.get(i).copied().unwrap_or(0.0) + 1.2 * t.get(i).copied().unwrap_or(0.0) + 0.02 * lcg(3, i)).collect()
}

/// tracks for the options; the second one has long quiet ends
fn track(k: usize, sr: u32) -> Vec<f32> {
    let mut x = music(k, sr, 5.0);
    if k == 1 {
        let q = sr as usize * 7 / 10;
        x.iter_mut().take(q).for_each(|v| *v *= 1e-5);
        x.iter_mut().rev().take(q).for_each(|v| *v *= 1e-5);
    }
    x
}

// ------------------------------------------------------------------ options
type Set = fn(&mut AnalysisConfig);
type Opt = (&'static str, &'static str, Set);
macro_rules! o {
    ($($f:literal $v:literal => $($p:ident = $e:expr),*;)*) => { vec![$(($f, $v, (|_c: &mut AnalysisConfig| { $(_c.$p = $e;)* }) as Set)),*] };
}
/// every documented option with values, and what it says about the configuration
fn options() -> Vec<Opt> {
    o! {
        "--no-preprocess" "" => enable_normalization = false, enable_silence_trimming = false;
        "--no-normalize" "" => enable_normalization = false;
        "--no-trim" "" => enable_silence_trimming = false;
        "--no-onset-consensus" "" => enable_onset_consensus = false;
        "--force-legacy-bpm" "" => force_legacy_bpm = true;
        "--bpm-fusion" "" => enable_bpm_fusion = true;
        "--bpm-candidates" "" => emit_tempogram_candidates = true;
        "--bpm-candidates-top" "3" => emit_tempogram_candidates = true, tempogram_candidates_top_n = 3;
        "--bpm-candidates-top" "40" => emit_tempogram_candidates = true, tempogram_candidates_top_n = 40;
        "--no-key-harmonic-mask" "" => enable_key_harmonic_mask = false;
        "--key-harmonic-mask-power" "4.0" => key_harmonic_mask_power = 4.0;
        "--key-harmonic-mask-power" "0.5" => key_harmonic_mask_power = 0.5;
        "--key-hpss" "" => enable_key_hpss_harmonic = true;
        "--no-key-hpss" "" => enable_key_hpss_harmonic = false;
        "--key-hpss-frame-step" "3" => enable_key_hpss_harmonic = true, key_hpss_frame_step = 3;
        "--key-hpss-time-margin" "2" => enable_key_hpss_harmonic = true, key_hpss_time_margin = 2;
        "--key-hpss-freq-margin" "3" => enable_key_hpss_harmonic = true, key_hpss_freq_margin = 3;
        "--key-hpss-mask-power" "1.0" => enable_key_hpss_harmonic = true, key_hpss_mask_power = 1.0;
        "--no-key-stft-override" "" => enable_key_stft_override = false;
        "--key-stft-override" "" => enable_key_stft_override = true;
        "--key-stft-frame-size" "4096" => enable_key_stft_override = true, key_stft_frame_size = 4096;
        "--key-stft-hop-size" "100" => enable_key_stft_override = true, key_stft_hop_size = 100;
        "--key-log-freq" "" => enable_key_log_frequency = true;
        "--no-key-log-freq" "" => enable_key_log_frequency = false;
        "--key-beat-sync" "" => enable_key_beat_synchronous = true;
        "--no-key-beat-sync" "" => enable_key_beat_synchronous = false;
        "--key-multi-scale" "" => enable_key_multi_scale = true;
        "--no-key-multi-scale" "" => enable_key_multi_scale = false;
        "--key-multi-scale-lengths" "30,90" => enable_key_multi_scale = true, key_multi_scale_lengths = vec![30, 90];
        "--key-multi-scale-lengths" "45" => enable_key_multi_scale = true, key_multi_scale_lengths = vec![45];
        "--key-multi-scale-hop" "11" => enable_key_multi_scale = true, key_multi_scale_hop = 11;
        "--key-multi-scale-min-clarity" "0.05" => enable_key_multi_scale = true, key_multi_scale_min_clarity = 0.05;
        "--key-multi-scale-weights" "0.2,0.8,1.0" => enable_key_multi_scale = true, key_multi_scale_weights = vec![0.2, 0.8, 1.0];
        "--key-template-temperley" "" => key_template_set = TemplateSet::Temperley;
        "--key-template-kk" "" => key_template_set = TemplateSet::KrumhanslKessler;
        "--key-ensemble" "" => enable_key_ensemble = true;
        "--no-key-ensemble" "" => enable_key_ensemble = false;
        "--key-ensemble-kk-weight" "0.9" => enable_key_ensemble = true, key_ensemble_kk_weight = 0.9;
        "--key-ensemble-temperley-weight" "0.1" => enable_key_ensemble = true, key_ensemble_temperley_weight = 0.1;
        "--key-median" "" => enable_key_median = true;
        "--no-key-median" "" => enable_key_median = false;
        "--key-median-segment-length-frames" "130" => enable_key_median = true, key_median_segment_length_frames = 130;
        "--key-median-segment-hop-frames" "17" => enable_key_median = true, key_median_segment_hop_frames = 17;
        "--key-median-min-segments" "2" => enable_key_median = true, key_median_min_segments = 2;
        "--no-key-tuning" "" => enable_key_tuning_compensation = false;
        "--key-tuning-max-semitones" "0.1" => key_tuning_max_abs_semitones = 0.1;
        "--key-tuning-frame-step" "5" => key_tuning_frame_step = 5;
        "--key-tuning-peak-rel-threshold" "0.6" => key_tuning_peak_rel_threshold = 0.6;
        "--no-key-edge-trim" "" => enable_key_edge_trim = false;
        "--key-edge-trim-fraction" "0.3" => key_edge_trim_fraction = 0.3;
        "--no-key-segment-voting" "" => enable_key_segment_voting = false;
        "--key-segment-len-frames" "40" => key_segment_len_frames = 40;
        "--key-segment-hop-frames" "20" => key_segment_hop_frames = 20;
        "--key-segment-min-clarity" "0.9" => key_segment_min_clarity = 0.9;
        "--key-mode-heuristic" "" => enable_key_mode_heuristic = true;
        "--no-key-mode-heuristic" "" => enable_key_mode_heuristic = false;
        "--key-mode-third-margin" "0.9" => enable_key_mode_heuristic = true, key_mode_third_ratio_margin = 0.9;
        "--key-mode-flip-min-score-ratio" "0.2" => enable_key_mode_heuristic = true, key_mode_flip_min_score_ratio = 0.2;
        "--key-hpcp" "" => enable_key_hpcp = true;
        "--key-hpcp-peaks" "4" => enable_key_hpcp = true, key_hpcp_peaks_per_frame = 4;
        "--key-hpcp-harmonics" "1" => enable_key_hpcp = true, key_hpcp_num_harmonics = 1;
        "--key-hpcp-harmonic-decay" "0.95" => enable_key_hpcp = true, key_hpcp_harmonic_decay = 0.95;
        "--key-hpcp-mag-power" "1.5" => enable_key_hpcp = true, key_hpcp_mag_power = 1.5;
        "--key-hpcp-whitening" "" => enable_key_hpcp = true, enable_key_hpcp_whitening = true;
        "--key-hpcp-whitening-smooth-bins" "5" => enable_key_hpcp = true, enable_key_hpcp_whitening = true, key_hpcp_whitening_smooth_bins = 5;
        "--key-minor-harmonic-bonus" "" => enable_key_minor_harmonic_bonus = true;
        "--no-key-minor-harmonic-bonus" "" => enable_key_minor_harmonic_bonus = false;
        "--key-minor-leading-tone-bonus-weight" "2.5" => enable_key_minor_harmonic_bonus = true, key_minor_leading_tone_bonus_weight = 2.5;
        "--no-key-hpcp-bass" "" => enable_key_hpcp_bass_blend = false;
        "--key-hpcp-bass-fmin-hz" "120.0" => enable_key_hpcp_bass_blend = true, key_hpcp_bass_fmin_hz = 120.0;
        "--key-hpcp-bass-fmax-hz" "500.0" => enable_key_hpcp_bass_blend = true, key_hpcp_bass_fmax_hz = 500.0;
        "--key-hpcp-bass-weight" "0.9" => enable_key_hpcp_bass_blend = true, key_hpcp_bass_weight = 0.9;
        "--no-key-spec-smooth" "" => enable_key_spectrogram_time_smoothing = false;
        "--key-spec-smooth-margin" "30" => key_spectrogram_smooth_margin = 30;
        "--no-key-frame-weighting" "" => enable_key_frame_weighting = false;
        "--key-min-tonalness" "0.4" => key_min_tonalness = 0.4;
        "--key-tonalness-power" "6.0" => key_tonalness_power = 6.0;
        "--key-energy-power" "3.0" => key_energy_power = 3.0;
        "--no-tempogram-multi-res" "" => enable_tempogram_multi_resolution = false;
        "--multi-res-top-k" "2" => enable_tempogram_multi_resolution = true, tempogram_multi_res_top_k = 2;
        "--multi-res-w512" "0.05" => enable_tempogram_multi_resolution = true, tempogram_multi_res_w512 = 0.05;
        "--multi-res-w256" "0.95" => enable_tempogram_multi_resolution = true, tempogram_multi_res_w256 = 0.95;
        "--multi-res-w1024" "0.95" => enable_tempogram_multi_resolution = true, tempogram_multi_res_w1024 = 0.95;
        "--multi-res-structural-discount" "0.1" => enable_tempogram_multi_resolution = true, tempogram_multi_res_structural_discount = 0.1;
        "--multi-res-double-time-512-factor" "0.1" => enable_tempogram_multi_resolution = true, tempogram_multi_res_double_time_512_factor = 0.1;
        "--multi-res-margin-threshold" "0.9" => enable_tempogram_multi_resolution = true, tempogram_multi_res_margin_threshold = 0.9;
        "--multi-res-human-prior" "" => enable_tempogram_multi_resolution = true, tempogram_multi_res_use_human_prior = true;
        "--no-tempogram-percussive" "" => enable_tempogram_percussive_fallback = false;
        "--no-tempogram-band-fusion" "" => enable_tempogram_band_fusion = false;
        "--band-score-fusion" "" => tempogram_band_seed_only = false;
        "--no-tempogram-mel-novelty" "" => enable_tempogram_mel_novelty = false;
        "--band-low-max-hz" "900.0" => tempogram_band_low_max_hz = 900.0;
        "--band-mid-max-hz" "700.0" => tempogram_band_mid_max_hz = 700.0;
        "--band-high-max-hz" "3000.0" => tempogram_band_high_max_hz = 3000.0;
        "--band-w-full" "0.05" => tempogram_band_w_full = 0.05;
        "--band-w-low" "0.95" => tempogram_band_w_low = 0.95;
        "--band-w-mid" "0.95" => tempogram_band_w_mid = 0.95;
        "--band-w-high" "0.95" => tempogram_band_w_high = 0.95;
        "--superflux-max-filter-bins" "1" => tempogram_superflux_max_filter_bins = 1;
        "--superflux-max-filter-bins" "20" => tempogram_superflux_max_filter_bins = 20;
        "--band-support-threshold" "0.9" => tempogram_band_support_threshold = 0.9;
        "--band-consensus-bonus" "0.9" => tempogram_band_consensus_bonus = 0.9;
        "--mel-n-mels" "12" => tempogram_mel_n_mels = 12;
        "--mel-fmin-hz" "400.0" => tempogram_mel_fmin_hz = 400.0;
        "--mel-fmax-hz" "2000.0" => tempogram_mel_fmax_hz = 2000.0;
        "--mel-max-filter-bins" "9" => tempogram_mel_max_filter_bins = 9;
        "--mel-weight" "0.9" => tempogram_mel_weight = 0.9;
        "--novelty-w-spectral" "0.9" => tempogram_novelty_w_spectral = 0.9;
        "--novelty-w-energy" "0.9" => tempogram_novelty_w_energy = 0.9;
        "--novelty-w-hfc" "0.9" => tempogram_novelty_w_hfc = 0.9;
        "--novelty-local-mean-window" "4" => tempogram_novelty_local_mean_window = 4;
        "--novelty-smooth-window" "11" => tempogram_novelty_smooth_window = 11;
        "--legacy-preferred-min" "140.0" => legacy_bpm_preferred_min = 140.0;
        "--legacy-preferred-max" "80.0" => legacy_bpm_preferred_max = 80.0;
        "--legacy-soft-min" "135.0" => legacy_bpm_soft_min = 135.0;
        "--legacy-soft-max" "85.0" => legacy_bpm_soft_max = 85.0;
        "--legacy-mul-preferred" "0.3" => legacy_bpm_conf_mul_preferred = 0.3;
        "--legacy-mul-soft" "0.9" => legacy_bpm_conf_mul_soft = 0.9;
        "--legacy-mul-extreme" "0.9" => legacy_bpm_conf_mul_extreme = 0.9;
        "--debug-track-id" "7" => ;
    }
}
/// options that only matter together with another one
fn companion(f: &str) -> &'static [&'static str] {
    if f.starts_with("--band-w") || f.starts_with("--band-support") || f.starts_with("--band-consensus") || f == "--mel-weight" {
        &["--band-score-fusion"]
    } else if f.starts_with("--legacy") {
        if f.contains("soft") || f.contains("extreme") { &["--force-legacy-bpm", "--legacy-preferred-min"] } else { &["--force-legacy-bpm"] }
    } else if f.starts_with("--key-hpss") {
        &["--key-hpss"]
    } else if f.starts_with("--key-median") {
        &["--key-stft-hop-size", "--key-median"]
    } else if f.starts_with("--key-multi-scale") {
        &["--key-multi-scale"]
    } else if f.starts_with("--key-ensemble") {
        &["--key-ensemble"]
    } else {
        &[]
    }
}

// ------------------------------------------------------------------ running the tools
struct Run {
    code: Option<i32>,
    out: String,
}
fn exe(root: &str, name: &str) -> PathBuf {
    PathBuf::from(format!("{}/target/ex/release/examples/{}", root, name))
}
fn run(bin: &Path, args: &[String], dir: &Path) -> Result<Run, String> {
    let o = std::process::Command::new(bin).args(args).current_dir(dir).env_remove("RUST_LOG").env("RUST_LOG", "off").output().map_err(|e| format!("{}: {}", bin.display(), e))?;
    Ok(Run { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned() })
}
type Fields = BTreeMap<String, String>;
/// the fields the single-file tool must report, as text ("" = any number >= 0)
fn want_single(x: &[f32], sr: u32, c: AnalysisConfig) -> Option<Fields> {
    if x.is_empty() {
        return None;
    }
    let r = analyze_audio(x, sr, c).ok()?;
    let k = compute_confidence(&r);
    let mut f = Fields::new();
    let mut p = |n: &str, v: String| {
        f.insert(n.into(), v);
    };
    let n2 = |v: f32| num(&format!("{:.2}", v));
    p("bpm", n2(r.bpm));
    p("bpm_confidence", n2(k.bpm_confidence));
    p("key", format!("\"{}\"", r.key.name()));
    p("key_confidence", n2(k.key_confidence));
    p("key_clarity", n2(r.key_clarity));
    p("grid_stability", n2(r.grid_stability));
    p("processing_time_ms", String::new());
    let m = &r.metadata;
    for (n, v) in [("tempogram_multi_res_triggered", m.tempogram_multi_res_triggered), ("tempogram_multi_res_used", m.tempogram_multi_res_used), ("tempogram_percussive_triggered", m.tempogram_percussive_triggered), ("tempogram_percussive_used", m.tempogram_percussive_used)] {
        if let Some(v) = v {
            p(n, v.to_string());
        }
    }
    if let Some(cs) = &m.tempogram_candidates {
        for (i, c) in cs.iter().enumerate() {
            let n4 = |v: f32| num(&format!("{:.4}", v));
            p(&format!("bpm_candidates.{:03}", i), format!("{} {} {} {} {}", n2(c.bpm), n4(c.score), n4(c.fft_norm), n4(c.autocorr_norm), c.selected));
        }
        p("bpm_candidates", cs.len().to_string());
    }
    Some(f)
}
fn num(s: &str) -> String {
    s.parse::<f64>().map(|v| if v == 0.0 { "0".to_string() } else { v.to_string() }).unwrap_or_else(|_| s.into())
}
fn txt(v: &serde_json::Value) -> String {
    match v {
        serde_json::Value::Number(n) => num(&n.to_string()),
        _ => v.to_string(),
    }
}
fn got_single(out: &str) -> Result<Fields, String> {
    let v: serde_json::Value = serde_json::from_str(out).map_err(|e| format!("the output is not JSON ({}): {:?}", e, out.chars().take(200).collect::<String>()))?;
    let m = v.as_object().ok_or("the output is not a JSON object")?;
    let mut f = Fields::new();
    for (k, v) in m {
        if let Some(a) = v.as_array() {
            for (i, c) in a.iter().enumerate() {
                let g = |n: &str| txt(&c[n]);
                f.insert(format!("{}.{:03}", k, i), format!("{} {} {} {} {}", g("bpm"), g("score"), g("fft_norm"), g("autocorr_norm"), g("selected")));
            }
            f.insert(k.clone(), a.len().to_string());
        } else {
            f.insert(k.clone(), txt(v));
        }
    }
    Ok(f)
}
fn compare(got: &Fields, want: &Fields) -> Result<(), String> {
    for (k, w) in want {
        let g = got.get(k).ok_or_else(|| format!("field {} is missing", k))?;
        if w.is_empty() {
            ensure!(g.parse::<f64>().map(|v| v >= 0.0).unwrap_or(false), "{} is {}", k, g);
        } else {
            ensure!(g == w, "{} is {} but the library says {}", k, g, w);
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
        return Err(format!("unexpected field {}", k));
    }
    Ok(())
}
fn single(root: &str, dir: &Path, args: &[String], want: &Option<Fields>) -> CaseResult {
    let r = run(&exe(root, "analyze_file"), args, dir)?;
    match want {
        None => {
            ensure!(r.code == Some(1), "no analysis is possible but the tool ends with {:?}", r.code);
            ensure!(!r.out.contains('{'), "a failed run prints a result");
            Ok(Obs::new(1, false, 1))
        }
        Some(w) => {
            ensure!(r.code == Some(0), "the tool ends with {:?}", r.code);
            compare(&got_single(&r.out)?, w)?;
            Ok(Obs::new(H::new().s(&format!("{:?}", w)).done(), true, 1))
        }
    }
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn p31(ctx: &Ctx) {
    ctx.rule("every enumerated recording (encoding x channels x rate x content), every option alone, with its companion and in pairs, and every batch (all sequences of files up to length 3, job counts) is given to the real tools; their output is compared field by field with the library called on the decoded samples with the stated configuration; nontrivial = runs that must print a result");
    ctx.assume("recordings are RIFF/WAVE files written by the checker; compressed formats are decoded by a dependency and not covered");
    let th = ctx.thorough();
    let root = ctx.root().to_string();
    let dir = Scratch(std::env::temp_dir().join(format!("mc_p31_{}", std::process::id())));
    let d = dir.0.clone();
    std::fs::create_dir_all(&d).expect("scratch directory");
    let s = |x: &str| x.to_string();

    // ---------------------------------------------------------------- decoding
    let chans = [1usize, 2, 3, 6];
    let rates: &[u32] = if th { &[8000, 11025, 22050, 44100, 48000] } else { &[8000, 44100] };
    let kinds = if th { 4 } else { 2 };
    let total = ENCS.len() * chans.len() * rates.len() * kinds;
    ctx.sweep("recordings", total, |i| format!("{:?} x {} channels at {} Hz, layout {}", ENCS[i % 6], chans[i / 6 % 4], rates[i / 24 % rates.len()], i / 24 / rates.len()), |i| {
        let (enc, c, sr, k) = (ENCS[i % 6], chans[i / 6 % 4], rates[i / 24 % rates.len()], i / 24 / rates.len());
        let base = music(k % 3, sr, 2.0);
        let ch: Vec<Vec<f32>> = (0..c)
            .map(|j| match (k, j) {
                (0, _) => base.iter().map(|v| v * (0.9 - 0.1 * j as f32)).collect(),
                // channels with different content
                (1, 0) | (2, 0) => base.clone(),
                (1, _) => music(j % 3, sr, 2.0).iter().map(|v| 0.7 * v).collect(),
                // all music in the last channel, polarity inverted
                (_, j) => if j + 1 == c { base.iter().map(|v| -v).collect() } else { base.iter().enumerate().map(|(i, _)| 0.1 * lcg(j as u64, i)).collect() },
            })
            .collect();
        let (bytes, mono) = wav(&ch, sr, enc);
        let f = d.join(format!("r{}.wav", i));
        std::fs::write(&f, bytes).map_err(|e| e.to_string())?;
        let w = want_single(&mono, sr, AnalysisConfig { emit_tempogram_candidates: true, ..Default::default() });
        let r = single(&root, &d, &[f.to_string_lossy().into_owned(), s("--json"), s("--bpm-candidates")], &w);
        let _ = std::fs::remove_file(&f);
        r
    });

    // ---------------------------------------------------------------- options
    let opts = options();
    let sr = 22050;
    let nm = if th { 3 } else { 2 };
    let tracks: Vec<Vec<f32>> = (0..nm)
        .map(|k| {
            let (bytes, mono) = wav(&[track(k, sr)], sr, Enc::F32);
            let _ = std::fs::write(d.join(format!("t{}.wav", k)), bytes);
            mono
        })
        .collect();
    let apply = |names: &[&Opt]| -> (Vec<String>, AnalysisConfig) {
        // options that name a value win over plain switches, whatever the order on the command line
        let mut a = Vec::new();
        let mut c = AnalysisConfig::default();
        for o in names {
            a.push(o.0.to_string());
            if !o.1.is_empty() {
                a.push(o.1.to_string());
            }
            (o.2)(&mut c);
        }
        (a, c)
    };
    let find = |n: &str| opts.iter().find(|o| o.0 == n);
    let cand = *find("--bpm-candidates").unwrap();
    let visible: Vec<std::sync::atomic::AtomicBool> = (0..opts.len()).map(|_| Default::default()).collect();
    let case = |t: usize, list: Vec<&Opt>, front: bool| -> (CaseResult, bool) {
        let (_, c) = apply(&list);
        let w = want_single(&tracks[t], sr, c);
        // does the last option show in the output at all?
        let seen = w != want_single(&tracks[t], sr, apply(&list[..list.len() - 1]).1);
        // the same options in the given order, or in reverse order behind --json
        let mut a = vec![format!("t{}.wav", t)];
        if front {
            a.extend(apply(&list).0);
            a.push(s("--json"));
        } else {
            a.push(s("--json"));
            a.extend(apply(&list.iter().rev().copied().collect::<Vec<_>>()).0);
        }
        (single(&root, &d, &a, &w), seen)
    };
    ctx.sweep("options", opts.len() * nm * 2, |i| format!("{} {} on track {}, {}", opts[i / 2 / nm].0, opts[i / 2 / nm].1, i / 2 % nm, ["alone", "with its companion"][i % 2]), |i| {
        let o = &opts[i / 2 / nm];
        let mut l: Vec<&Opt> = vec![&cand];
        if i % 2 == 1 {
            for n in companion(o.0) {
                if *n != o.0 {
                    l.push(find(n).unwrap());
                }
            }
            if l.len() == 1 {
                l = vec![];
            }
        }
        l.push(o);
        let (r, seen) = case(i / 2 % nm, l, i % 2 == 0);
        if seen {
            visible[i / 2 / nm].store(true, std::sync::atomic::Ordering::SeqCst);
        }
        r
    });
    let hidden: Vec<String> = (0..opts.len()).filter(|i| !visible[*i].load(std::sync::atomic::Ordering::SeqCst)).map(|i| format!("{} {}", opts[i].0, opts[i].1).trim().to_string()).collect();
    ctx.note("options_total", opts.len());
    ctx.note("options_without_visible_effect", hidden.join("; "));
    // pairs, in both orders; pairs that contradict each other (x and no-x) are left out
    let stem = |f: &str| f.trim_start_matches("--").trim_start_matches("no-").to_string();
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for a in 0..opts.len() {
        for b in a + 1..opts.len() {
            let (x, y) = (stem(opts[a].0), stem(opts[b].0));
            let clash = x == y || x.starts_with(&y) || y.starts_with(&x) || [&x, &y].iter().all(|n| n.starts_with("key-template") || n.starts_with("preprocess")) || touches_same(&opts[a], &opts[b]);
            if !clash && (if th { (a * 7 + b) % 3 == 0 } else { (a * 13 + b * 5) % 29 == 0 }) {
                pairs.push((a, b));
            }
        }
    }
    ctx.sweep("option_pairs", pairs.len(), |i| format!("{} {} with {} {}", opts[pairs[i].0].0, opts[pairs[i].0].1, opts[pairs[i].1].0, opts[pairs[i].1].1), |i| {
        let (a, b) = pairs[i];
        case(i % nm, vec![&cand, &opts[a], &opts[b]], i % 2 == 0).0
    });

    // ---------------------------------------------------------------- invocations
    let forms: Vec<(&str, Vec<String>, bool)> = vec![
        ("file then --json", vec![s("t0.wav"), s("--json")], true),
        ("--json then file (README)", vec![s("--json"), s("t0.wav")], true),
        ("./file", vec![s("./t0.wav"), s("--json")], true),
        ("absolute path", vec![d.join("t0.wav").to_string_lossy().into_owned(), s("--json")], true),
        ("missing file", vec![s("nothing.wav"), s("--json")], false),
        ("a directory", vec![s("."), s("--json")], false),
        ("no arguments", vec![], false),
        ("not audio", vec![s("junk.wav"), s("--json")], false),
        ("no samples", vec![s("none.wav"), s("--json")], false),
        ("silence", vec![s("silent.wav"), s("--json")], false),
    ];
    let _ = std::fs::write(d.join("junk.wav"), (0..4000).map(|i| (i * 7 % 251) as u8).collect::<Vec<u8>>());
    let _ = std::fs::write(d.join("none.wav"), wav(&[vec![]], 8000, Enc::S16).0);
    let _ = std::fs::write(d.join("silent.wav"), wav(&[vec![0.0; 30000]], 8000, Enc::S16).0);
    let default0 = want_single(&tracks[0], sr, AnalysisConfig::default());
    ctx.sweep("invocations", forms.len(), |i| forms[i].0.to_string(), |i| single(&root, &d, &forms[i].1, if forms[i].2 { &default0 } else { &None }));

    // ---------------------------------------------------------------- batches
    // short recordings, a missing file, a damaged file, a recording without music, a name that needs escaping
    let names = ["a.wav", "b \"q\" \\ é.wav", "junk.wav", "gone.wav", "silent.wav"];
    let mut bw: Vec<Option<Fields>> = Vec::new();
    for (k, n) in names.iter().enumerate() {
        bw.push(if k < 2 {
            let (bytes, mono) = wav(&[music(k, 8000, 1.5)], 8000, Enc::S16);
            let _ = std::fs::write(d.join(n), bytes);
            analyze_audio(&mono, 8000, AnalysisConfig::default()).ok().map(|r| {
                let c = compute_confidence(&r);
                let m = &r.metadata;
                let b = |v: Option<bool>| v.map(|v| v.to_string()).unwrap_or_else(|| s("null"));
                [
                    (s("bpm"), num(&format!("{:.2}", r.bpm))),
                    (s("bpm_confidence"), num(&format!("{:.4}", c.bpm_confidence))),
                    (s("key"), format!("\"{}\"", r.key.name())),
                    (s("key_confidence"), num(&format!("{:.4}", c.key_confidence))),
                    (s("processing_time_ms"), String::new()),
                    (s("tempogram_multi_res_triggered"), b(m.tempogram_multi_res_triggered)),
                    (s("tempogram_multi_res_used"), b(m.tempogram_multi_res_used)),
                    (s("tempogram_percussive_triggered"), b(m.tempogram_percussive_triggered)),
                    (s("tempogram_percussive_used"), b(m.tempogram_percussive_used)),
                ]
                .into_iter()
                .collect()
            })
        } else {
            None
        });
    }
    let mut seqs: Vec<Vec<usize>> = Vec::new();
    for len in 1..=if th { 4 } else { 3 } {
        let m = 5usize.pow(len as u32);
        seqs.extend((0..m).map(|x| (0..len).map(|p| x / 5usize.pow(p as u32) % 5).collect::<Vec<_>>()));
    }
    let jobs = [Some(1), Some(2), Some(8), None];
    let nb = seqs.len() * 2 * if th { 4 } else { 1 };
    ctx.sweep("batches", nb, |i| format!("files {:?}, jobs {:?}, {}", seqs[i / 2 % seqs.len()], jobs[if th { i / 2 / seqs.len() } else { i / 2 % 4 }], ["json", "text"][i % 2]), |i| {
        let q = &seqs[i / 2 % seqs.len()];
        let j = jobs[if th { i / 2 / seqs.len() } else { i / 2 % 4 }];
        let json = i % 2 == 0;
        let mut a: Vec<String> = Vec::new();
        let files: Vec<String> = q.iter().map(|k| s(names[*k])).collect();
        if let Some(j) = j {
            a.extend([s("--jobs"), j.to_string()]);
        }
        // the switch in front, in the middle or at the end
        a.extend(files[..files.len() / 2].iter().cloned());
        if json {
            a.push(s("--json"));
        }
        a.extend(files[files.len() / 2..].iter().cloned());
        let r = run(&exe(&root, "analyze_batch"), &a, &d)?;
        ensure!(r.code == Some(0), "the tool ends with {:?}", r.code);
        let lines: Vec<&str> = r.out.lines().collect();
        ensure!(lines.len() == q.len(), "{} lines for {} files", lines.len(), q.len());
        for (p, k) in q.iter().enumerate() {
            if json {
                let v: serde_json::Value = serde_json::from_str(lines[p]).map_err(|e| format!("line {} is not JSON: {}", p, e))?;
                let m = v.as_object().ok_or("not an object")?;
                ensure!(v["file"].as_str() == Some(names[*k]), "line {} is about {} instead of {:?}", p, v["file"], names[*k]);
                match &bw[*k] {
                    Some(w) => {
                        let got: Fields = m.iter().filter(|(n, _)| *n != "file").map(|(n, v)| (n.clone(), txt(v))).collect();
                        compare(&got, w)?;
                    }
                    None => ensure!(v["error"].is_string() && m.len() == 2, "line {} reports no error: {}", p, lines[p]),
                }
            } else {
                let head = format!("[{}/{}] {}: ", p + 1, q.len(), names[*k]);
                let rest = lines[p].strip_prefix(head.as_str()).ok_or_else(|| format!("line {} is {:?}, expected {:?}...", p, lines[p], head))?;
                match &bw[*k] {
                    Some(w) => {
                        let bpm = rest.strip_prefix("BPM=").and_then(|x| x.split(' ').next()).map(num).unwrap_or_default();
                        ensure!(bpm == w["bpm"] && rest.contains(&format!("Key={} ", w["key"].trim_matches('"'))), "line {} is {:?}, expected {} {}", p, lines[p], w["bpm"], w["key"]);
                    }
                    None => ensure!(rest.starts_with("ERROR"), "line {} reports no error: {}", p, lines[p]),
                }
            }
        }
        Ok(Obs::new(H::new().u(i as u64).s(&format!("{:?}", q)).done(), q.len() > 1, q.len() as u64))
    });

    // ---------------------------------------------------------------- damaged recordings
    // every truncation of the header and every single damaged header byte: one line each, results only from what is there
    let (full, _) = wav(&[music(0, 8000, 1.0)], 8000, Enc::S16);
    let hdr = 46;
    let vals: &[u8] = if th { &[0, 1, 0x7f, 0x80, 0xff] } else { &[0, 0xff] };
    let dn = hdr + hdr * vals.len();
    ctx.sweep("damaged", dn, |i| if i < hdr { format!("file cut after {} bytes", i) } else { format!("byte {} set to {}", (i - hdr) / vals.len(), vals[(i - hdr) % vals.len()]) }, |i| {
        let mut b = full.clone();
        if i < hdr {
            b.truncate(i);
        } else {
            b[(i - hdr) / vals.len()] = vals[(i - hdr) % vals.len()];
        }
        let f = format!("d{}.wav", i);
        std::fs::write(d.join(&f), &b).map_err(|e| e.to_string())?;
        let a = run(&exe(&root, "analyze_file"), &[f.clone(), s("--json")], &d)?;
        let _ = std::fs::remove_file(d.join(&f));
        ensure!(a.code == Some(0) || a.code == Some(1), "the tool ends with {:?}", a.code);
        if a.code == Some(0) {
            got_single(&a.out)?;
        } else {
            ensure!(!a.out.contains('{'), "a failed run prints a result");
        }
        Ok(Obs::new(H::new().u(i as u64).u(a.code.unwrap_or(9) as u64).done(), a.code == Some(0), 1))
    });
    drop(dir);
}
/// two options that set the same field to different values
fn touches_same(a: &Opt, b: &Opt) -> bool {
    let f = |l: &[&Opt]| {
        let mut c = AnalysisConfig::default();
        l.iter().for_each(|o| (o.2)(&mut c));
        format!("{:?}", c)
    };
    f(&[a, b]) != f(&[b, a])
}
