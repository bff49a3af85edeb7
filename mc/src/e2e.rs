//! P26: end-to-end recognition and invariance.
use crate::core::*;
use crate::ensure;
use crate::pipe::{sig, small, SIGS};
use crate::tempo::clicks;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisError, AnalysisResult, Key};


/// one chord per `per` seconds with clicks; progression in scale degrees
pub fn cadence(sr: u32, tonic: usize, minor: bool, secs: f32, per: f32, harm: usize, prog: usize, oct: i32, with_clicks: bool) -> Vec<f32> {
    let n = (sr as f32 * secs) as usize;
    let chords: Vec<[i32; 3]> = match (minor, prog) {
        (false, 0) => vec![[0, 4, 7], [5, 9, 12], [7, 11, 14], [0, 4, 7]],
        (false, 1) => vec![[0, 4, 7], [9, 12, 16], [5, 9, 12], [7, 11, 14]],
        (false, _) => vec![[0, 4, 7]],
        (true, 0) => vec![[0, 3, 7], [5, 8, 12], [7, 11, 14], [0, 3, 7]],
        (true, 1) => vec![[0, 3, 7], [5, 8, 12], [7, 10, 14], [0, 3, 7]],
        (true, _) => vec![[0, 3, 7]],
    };
    let mut x = if with_clicks { clicks(sr, secs, 120.0, 0).into_iter().map(|v| 0.3 * v).collect() } else { vec![0.0f32; n] };
    x.resize(n, 0.0);
    for i in 0..n {
        let t = i as f64 / sr as f64;
        let ch = &chords[(t / per as f64) as usize % chords.len()];
        let mut v = 0.0;
        for p in ch {
            let f = 261.6255653 * 2f64.powf((tonic as i32 + p + 12 * oct) as f64 / 12.0);
            for h in 1..=harm {
                v += 0.6f64.powi(h as i32 - 1) * (2.0 * std::f64::consts::PI * f * h as f64 * t).sin();
            }
        }
        x[i] += 0.12 * v as f32;
    }
    x
}

pub fn tempo_error(got: f32, want: f32) -> f32 {
    if got <= 0.0 { return f32::INFINITY; }
    [0.5f32, 1.0, 2.0].iter().map(|m| (got / (want * m) - 1.0).abs()).fold(f32::INFINITY, f32::min)
}

/// every musical value of a result, bit for bit
fn print(r: &Result<AnalysisResult, AnalysisError>) -> Vec<u64> {
    match r {
        Err(e) => vec![u64::MAX, crate::pipe::err_kind(e)],
        Ok(r) => {
            let mut v: Vec<u64> = [r.bpm, r.bpm_confidence, r.key_confidence, r.key_clarity, r.grid_stability, r.metadata.duration_seconds].iter().map(|x| x.to_bits() as u64).collect();
            v.push(match r.key {
                Key::Major(i) => i as u64,
                Key::Minor(i) => 100 + i as u64,
            });
            for l in [&r.beat_grid.beats, &r.beat_grid.downbeats, &r.beat_grid.bars] {
                v.push(l.len() as u64);
                v.extend(l.iter().map(|x| x.to_bits() as u64));
            }
            v
        }
    }
}
fn show(r: &Result<AnalysisResult, AnalysisError>) -> String {
    match r {
        Err(e) => format!("{:?}", e),
        Ok(r) => format!("tempo {} ({}), key {} ({}, {}), {} beats, {} s", r.bpm, r.bpm_confidence, r.key.name(), r.key_confidence, r.key_clarity, r.beat_grid.beats.len(), r.metadata.duration_seconds),
    }
}
fn same(what: &str, a: &Result<AnalysisResult, AnalysisError>, b: &Result<AnalysisResult, AnalysisError>) -> CaseResult {
    let (p, q) = (print(a), print(b));
    ensure!(p == q, "{}: {} instead of {}", what, show(b), show(a));
    let mut h = H::new();
    for v in &p {
        h = h.u(*v);
    }
    Ok(Obs::new(h.done(), a.as_ref().is_ok_and(|r| r.bpm > 0.0 || r.key_confidence > 0.0), 2))
}
const NORM: [NormalizationMethod; 3] = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness];

pub fn p26(ctx: &Ctx) {
    ctx.rule("default configuration: pulse tracks over the whole tempo grid x rhythm accent x sample rate, major progressions on all twelve tonics x voicing; every test signal x configuration x gain (powers of two), polarity and padding with digital silence, results compared bit for bit with the untransformed run");
    // a steady pulse is recognised
    let bp: Vec<f32> = (60..=180).step_by(ctx.pick(3, 1)).map(|b| b as f32 + 0.3).collect();
    let rates: &[u32] = ctx.pick(&[22050, 44100][..], &[11025, 16000, 22050, 32000, 44100, 48000][..]);
    let secs: &[f32] = ctx.pick(&[12.0][..], &[12.0, 16.5][..]);
    ctx.sweep(
        "pulse",
        bp.len() * 3 * rates.len() * secs.len(),
        |i| {
            let mut x = Ix(i);
            format!("{:.1} BPM accent {} at {} Hz, {} s", x.of(&bp), x.take(3), x.of(rates), x.of(secs))
        },
        |i| {
            let mut x = Ix(i);
            let (b, k, sr, t) = (*x.of(&bp), x.take(3), *x.of(rates), *x.of(secs));
            let r = analyze_audio(&clicks(sr, t, b, k), sr, AnalysisConfig::default()).map_err(|e| format!("{:?}", e))?;
            ensure!(tempo_error(r.bpm, b) <= 0.05, "reported {} BPM", r.bpm);
            Ok(Obs::new(H::new().f(r.bpm).done(), true, 1))
        },
    );
    // a plain major progression is recognised on every tonic
    let rates: &[u32] = ctx.pick(&[22050][..], &[11025, 22050, 44100][..]);
    ctx.sweep(
        "major",
        12 * 2 * 2 * 2 * 2 * rates.len(),
        |i| {
            let mut x = Ix(i);
            format!("tonic {} progression {} partials {} octave {} clicks {} at {} Hz", x.take(12), 1 + x.take(2), [1, 3][x.take(2)], x.take(2), x.take(2), x.of(rates))
        },
        |i| {
            let mut x = Ix(i);
            let (t, p, h, o, cl) = (x.take(12), 1 + x.take(2), [1, 3][x.take(2)], x.take(2) as i32 - 1, x.take(2) == 1);
            let sr = *x.of(rates);
            let r = analyze_audio(&cadence(sr, t, false, 8.0, 1.0, h, p, o, cl), sr, AnalysisConfig::default()).map_err(|e| format!("{:?}", e))?;
            ensure!(r.key == Key::Major(t as u32), "reported {}", r.key.name());
            ensure!(r.key_clarity > 0.0, "no key clarity");
            Ok(Obs::new(H::new().s(&r.key.name()).done(), true, 1))
        },
    );
    // loudness, polarity, surrounding silence
    let sr = 8000u32;
    let n_sig = SIGS.len() + 2;
    let mk = |k: usize| -> Vec<f32> {
        // a whole number of frames, so that appended silence is trimmed at the same place
        let n = 94 * 256;
        let mut v = if k < SIGS.len() { sig(k, sr, n) } else { cadence(sr, 3 * (k - SIGS.len()), false, 3.2, 0.4, 2, 0, 0, true) };
        v.truncate(n);
        v
    };
    let cfgs = 6usize;
    let cfg = |k: usize| {
        let mut c = small();
        c.normalization = NORM[k % 3];
        if k >= 3 {
            c.enable_key_stft_override = false;
            c.enable_tempogram_percussive_fallback = true;
            c.enable_bpm_fusion = true;
            c.enable_key_hpcp = k % 2 == 0;
            c.force_legacy_bpm = k == 5;
        }
        c
    };
    let gains: Vec<i32> = ctx.pick(vec![-12, -7, -3, -1, 1, 4], (-16..=8).filter(|e| *e != 0).collect());
    ctx.sweep(
        "loudness",
        n_sig * 4 * (gains.len() + 1),
        |i| {
            let mut x = Ix(i);
            let (k, c) = (x.take(n_sig), [0, 1, 3, 4][x.take(4)]);
            let g = x.take(gains.len() + 1);
            format!("signal {}, configuration {}, {}", k, c, if g == 0 { "inverted".into() } else { format!("x 2^{}", gains[g - 1]) })
        },
        |i| {
            let mut x = Ix(i);
            let (a, c) = (mk(x.take(n_sig)), cfg([0, 1, 3, 4][x.take(4)]));
            let g = x.take(gains.len() + 1);
            let f = if g == 0 { -1.0 } else { 2f32.powi(gains[g - 1]) };
            let b: Vec<f32> = a.iter().map(|v| v * f).collect();
            same(if g == 0 { "inverted" } else { "scaled" }, &analyze_audio(&a, sr, c.clone()), &analyze_audio(&b, sr, c))
        },
    );
    ctx.sweep("polarity", n_sig * cfgs, |i| format!("signal {}, configuration {}", i % n_sig, i / n_sig), |i| {
        let (a, mut c) = (mk(i % n_sig), cfg(i / n_sig));
        c.enable_normalization = (i / n_sig) % 2 == 0;
        c.enable_silence_trimming = (i / n_sig) % 3 != 0;
        let b: Vec<f32> = a.iter().map(|v| -v).collect();
        same("inverted", &analyze_audio(&a, sr, c.clone()), &analyze_audio(&b, sr, c))
    });
    // (frames before, frames after); trailing silence has to last 500 ms = 16 frames here. One frame of
    // silence before and 17 after is the reference: detection frames overlap the first audible ones.
    let pads = [(2usize, 17usize), (7, 17), (31, 17), (1, 18), (1, 40), (3, 19), (60, 60)];
    ctx.sweep(
        "padding",
        n_sig * 2 * pads.len(),
        |i| {
            let mut x = Ix(i);
            format!("signal {}, configuration {}, {:?} frames of silence", x.take(n_sig), [0, 3][x.take(2)], x.of(&pads))
        },
        |i| {
            let mut x = Ix(i);
            let (a, c) = (mk(x.take(n_sig)), cfg([0, 3][x.take(2)]));
            let (p, q) = *x.of(&pads);
            let pad = |p: usize, q: usize| {
                let mut b = vec![0.0; p * c.frame_size];
                b.extend(&a);
                b.extend(vec![0.0; q * c.frame_size]);
                b
            };
            same("padded", &analyze_audio(&pad(1, 17), sr, c.clone()), &analyze_audio(&pad(p, q), sr, c.clone()))
        },
    );
}
