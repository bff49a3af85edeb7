//! P12 tempograms and tempogram tempo selection, P13 multi-resolution fusion.
use crate::chroma::lcg;
use crate::core::*;
use crate::ensure;
use stratum_dsp::features::chroma::extractor::compute_stft;
use stratum_dsp::features::period::multi_resolution::*;
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::BpmEstimate;

type Sp = Vec<Vec<f32>>;
fn es(e: stratum_dsp::AnalysisError) -> String {
    e.to_string()
}

fn sorted_desc(what: &str, t: &[(f32, f32)]) -> Result<(), String> {
    for w in t.windows(2) {
        ensure!(w[0].1 >= w[1].1, "{}: not sorted by strength: {:?} before {:?}", what, w[0], w[1]);
    }
    Ok(())
}

/// autocorrelation tempogram against an f64 reference
fn ac_case(x: &[f32], sr: u32, hop: u32, lo: f32, hi: f32, res: f32) -> CaseResult {
    let t = autocorrelation_tempogram(x, sr, hop, lo, hi, res).map_err(es)?;
    sorted_desc("autocorrelation tempogram", &t)?;
    let mut by: Vec<(f32, f32)> = t.clone();
    by.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let cnt = ((hi as f64 - lo as f64) / res as f64 + 1e-6).floor() as usize + 1;
    // accumulated single-precision steps may gain or lose the last grid point
    let edge = {
        let q = (hi as f64 - lo as f64) / res as f64;
        // (steps and ends in eighths of a BPM add up exactly)
        let exact = |v: f32| (v * 8.0).fract() == 0.0 && v < 1e5;
        (q - q.round()).abs() < 1e-3 && !(exact(lo) && exact(hi) && exact(res))
    };
    ensure!(by.len() == cnt || (edge && by.len().abs_diff(cnt) <= 1), "autocorrelation tempogram has {} tempi, want {}", by.len(), cnt);
    let fr = sr as f64 / hop as f64;
    let pw: f64 = x.iter().map(|v| (*v as f64).powi(2)).fold(0.0, f64::max);
    for (k, (b, s)) in by.iter().enumerate() {
        let bpm = lo as f64 + k as f64 * res as f64;
        ensure!((*b as f64 - bpm).abs() < 1e-3 * (1.0 + k as f64 * 1e-2), "grid tempo {} is {}, want {}", k, b, bpm);
        ensure!(*b >= lo && *b <= hi, "tempo {} outside the range", b);
        let q = fr * 60.0 / *b as f64;
        let strength = |lag: usize| {
            if lag >= x.len() {
                return 0.0;
            }
            let n = x.len() - lag;
            (0..n).map(|i| x[i] as f64 * x[i + lag] as f64).sum::<f64>() / n as f64
        };
        let tol = 1e-5 * pw.max(1e-9) + 1e-12;
        let mut ok = (*s as f64 - strength(q as usize)).abs() <= tol;
        if (q - q.round()).abs() < 1e-4 * q.max(1.0) {
            ok |= (*s as f64 - strength(q.round() as usize)).abs() <= tol;
            ok |= q.round() >= 1.0 && (*s as f64 - strength(q.round() as usize - 1)).abs() <= tol;
        }
        ensure!(ok, "strength of {} BPM is {}, want {} (lag {})", b, s, strength(q as usize), q);
    }
    best_case("autocorrelation", &t, find_best_bpm_autocorr(&t).map(|r| (r.bpm, r.confidence, r.strength)))?;
    Ok(Obs::new(H::new().fs(&t.iter().map(|v| v.1).collect::<Vec<_>>()).done(), t.iter().any(|v| v.1 > 0.0), 1))
}

fn best_case(what: &str, t: &[(f32, f32)], b: Option<(f32, f32, f32)>) -> Result<(), String> {
    let Some((bpm, conf, s)) = b else {
        ensure!(t.is_empty(), "{}: no best tempo of {} candidates", what, t.len());
        return Ok(());
    };
    ensure!(!t.is_empty() && (bpm, s) == t[0], "{}: best tempo {}/{} is not the strongest candidate {:?}", what, bpm, s, t.first());
    let want = if t.len() == 1 {
        0.5
    } else if s > 2e-10 {
        ((s as f64 - t[1].1 as f64) / s as f64).clamp(0.0, 1.0)
    } else if s < 5e-11 {
        0.0
    } else {
        conf as f64
    };
    ensure!((conf as f64 - want).abs() < 1e-5, "{}: confidence {}, want {}", what, conf, want);
    Ok(())
}

fn fft_case(x: &[f32], sr: u32, hop: u32, lo: f32, hi: f32) -> CaseResult {
    let t = fft_tempogram(x, sr, hop, lo, hi).map_err(es)?;
    sorted_desc("FFT tempogram", &t)?;
    let mut by = t.clone();
    by.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let n = x.len();
    let nf = n.next_power_of_two();
    let mean = x.iter().map(|v| *v as f64).sum::<f64>() / n as f64;
    let y: Vec<f64> = x
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let w = if n > 1 { 0.5 * (1.0 - (2.0 * std::f64::consts::PI * i as f64 / (n - 1) as f64).cos()) } else { 1.0 };
            (*v as f64 - mean) * w
        })
        .collect();
    let l1: f64 = y.iter().map(|v| v.abs()).sum::<f64>() + x.iter().map(|v| v.abs() as f64).fold(0.0, f64::max) * 1e-2;
    let step = sr as f64 / hop as f64 / nf as f64 * 60.0;
    let mut j = 0;
    for b in 0..=nf / 2 {
        let bpm = b as f64 * step;
        let near = |l: f32| (bpm - l as f64).abs() < 1e-5 * bpm.max(1.0);
        let inside = bpm >= lo as f64 && bpm <= hi as f64;
        let here = j < by.len() && (by[j].0 as f64 - bpm).abs() < 1e-4 * bpm.max(1.0);
        if near(lo) || near(hi) {
            if !here {
                continue;
            }
        } else if !inside {
            ensure!(!here, "bin {} ({} BPM) is outside the range", b, bpm);
            continue;
        }
        ensure!(here, "bin {} ({} BPM) is missing: {:?}", b, bpm, by.get(j));
        let (mut re, mut im) = (0.0, 0.0);
        for (i, v) in y.iter().enumerate() {
            let a = -2.0 * std::f64::consts::PI * ((b * i) % nf) as f64 / nf as f64;
            re += v * a.cos();
            im += v * a.sin();
        }
        let p = re * re + im * im;
        ensure!((by[j].1 as f64 - p).abs() <= 2e-5 * l1 * l1, "power at {} BPM is {}, want {}", bpm, by[j].1, p);
        j += 1;
    }
    ensure!(j == by.len(), "{} tempi that are no transform bin", by.len() - j);
    best_case("FFT", &t, find_best_bpm_fft(&t).map(|r| (r.bpm, r.confidence, r.power)))?;
    Ok(Obs::new(H::new().fs(&t.iter().map(|v| v.1).collect::<Vec<_>>()).done(), !t.is_empty(), 1))
}

pub fn band_cfg() -> TempogramBandFusionConfig {
    let c = stratum_dsp::AnalysisConfig::default();
    TempogramBandFusionConfig {
        enabled: true,
        low_max_hz: c.tempogram_band_low_max_hz,
        mid_max_hz: c.tempogram_band_mid_max_hz,
        high_max_hz: c.tempogram_band_high_max_hz,
        w_full: c.tempogram_band_w_full,
        w_low: c.tempogram_band_w_low,
        w_mid: c.tempogram_band_w_mid,
        w_high: c.tempogram_band_w_high,
        seed_only: c.tempogram_band_seed_only,
        support_threshold: c.tempogram_band_support_threshold,
        consensus_bonus: c.tempogram_band_consensus_bonus,
        enable_mel: c.enable_tempogram_mel_novelty,
        mel_n_mels: c.tempogram_mel_n_mels,
        mel_fmin_hz: c.tempogram_mel_fmin_hz,
        mel_fmax_hz: c.tempogram_mel_fmax_hz,
        mel_max_filter_bins: c.tempogram_mel_max_filter_bins,
        w_mel: c.tempogram_mel_weight,
        novelty_w_spectral: c.tempogram_novelty_w_spectral,
        novelty_w_energy: c.tempogram_novelty_w_energy,
        novelty_w_hfc: c.tempogram_novelty_w_hfc,
        novelty_local_mean_window: c.tempogram_novelty_local_mean_window,
        novelty_smooth_window: c.tempogram_novelty_smooth_window,
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: 5,
        superflux_max_filter_bins: c.tempogram_superflux_max_filter_bins,
    }
}

struct V {
    w: f64,
    fft: Vec<(f32, f32)>,
    ac: Vec<(f32, f32)>,
}

/// value range of the entries nearest to `bpm` (a range when the nearest one is not decided by
/// single precision)
fn nearest(t: &[(f32, f32)], bpm: f32, tol: f32) -> (f64, f64) {
    let d = |b: f32| (b as f64 - bpm as f64).abs();
    let m = t.iter().map(|e| d(e.0)).fold(f64::INFINITY, f64::min);
    let eps = 2e-4;
    if m > tol as f64 + eps {
        return (0.0, 0.0);
    }
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    let mut add = |v: f64| {
        lo = lo.min(v);
        hi = hi.max(v);
    };
    // exact ties keep the strongest (= first) entry
    let mut first_exact = true;
    for e in t {
        let x = d(e.0);
        if x == m && first_exact {
            first_exact = false;
            add(e.1 as f64);
        } else if x > m && x <= m + eps && x - m > 0.0 {
            add(e.1 as f64);
        }
    }
    if (m - tol as f64).abs() <= eps && m != tol as f64 {
        add(0.0);
    }
    (lo, hi)
}

#[derive(Clone)]
struct Args<'a> {
    sp: &'a Sp,
    sr: u32,
    hop: u32,
    lo: f32,
    hi: f32,
    res: f32,
}

/// None: the whole-case reference is undecidable in single precision
fn est_case(ctx: &Ctx, a: &Args, cfg: Option<&TempogramBandFusionConfig>) -> CaseResult {
    let call = |n: usize| match cfg {
        None => estimate_bpm_tempogram_with_candidates(a.sp, a.sr, a.hop, a.lo, a.hi, a.res, n),
        Some(c) => estimate_bpm_tempogram_with_candidates_band_fusion(a.sp, a.sr, a.hop, a.lo, a.hi, a.res, n, c.clone()),
    };
    let got = call(usize::MAX);
    // variants
    let k = cfg.map(|c| c.superflux_max_filter_bins).unwrap_or(4);
    let comb = |s: &[f32], e: &[f32], h: &[f32]| match cfg {
        None => combined_novelty(s, e, h),
        Some(c) => combined_novelty_with_params(s, e, h, c.novelty_w_spectral, c.novelty_w_energy, c.novelty_w_hfc, c.novelty_local_mean_window, c.novelty_smooth_window),
    };
    let tg = |nov: &[f32], w: f32| -> Result<V, String> {
        Ok(V {
            w: w as f64,
            fft: fft_tempogram(nov, a.sr, a.hop, a.lo, a.hi).map_err(es)?,
            ac: autocorrelation_tempogram(nov, a.sr, a.hop, a.lo, a.hi, a.res).map_err(es)?,
        })
    };
    let nov = comb(&superflux_novelty(a.sp, k).map_err(es)?, &energy_flux_novelty(a.sp).map_err(es)?, &hfc_novelty(a.sp, a.sr).map_err(es)?);
    if nov.is_empty() {
        ensure!(got.is_err(), "an estimate without any novelty");
        return Ok(Obs::new(0, false, 1));
    }
    let mut vs = vec![tg(&nov, cfg.map(|c| c.w_full).unwrap_or(1.0))?];
    if let Some(c) = cfg {
        let nb = a.sp[0].len();
        let fr = a.sr as f32 / ((nb - 1) * 2).max(2) as f32;
        let bin = |hz: f32| {
            if hz.is_finite() && hz > 0.0 {
                ((hz / fr).round() as usize).min(nb - 1)
            } else {
                0
            }
        };
        if c.enabled {
            let b0 = 1.min(nb - 1);
            let bl = bin(c.low_max_hz).max(b0);
            let bm = bin(c.mid_max_hz).max(bl + 1);
            let bh = if c.high_max_hz > 0.0 { bin(c.high_max_hz).max(bm + 1) } else { nb }.min(nb);
            for (s, e, w) in [(b0, bl, c.w_low), (bl, bm, c.w_mid), (bm, bh, c.w_high)] {
                if !(w.is_finite() && w > 0.0) || e <= s + 1 {
                    continue;
                }
                let n = comb(
                    &superflux_novelty_band(a.sp, k, s, e).map_err(es)?,
                    &energy_flux_novelty_band(a.sp, s, e).map_err(es)?,
                    &hfc_novelty_band(a.sp, s, e).map_err(es)?,
                );
                if !n.is_empty() {
                    vs.push(tg(&n, w)?);
                }
            }
        }
        if c.enable_mel {
            let m = mel_superflux_novelty(a.sp, a.sr, c.mel_n_mels, c.mel_fmin_hz, c.mel_fmax_hz, c.mel_max_filter_bins).map_err(es)?;
            if !m.is_empty() {
                vs.push(tg(&m, c.w_mel)?);
            }
        }
    }
    let bf = find_best_bpm_fft(&vs[0].fft).map(|r| r.bpm).unwrap_or(0.0);
    let ba = find_best_bpm_autocorr(&vs[0].ac).map(|r| r.bpm).unwrap_or(0.0);
    let mut seeds: Vec<f32> = vec![];
    for v in &vs {
        seeds.extend(v.fft.iter().take(8).map(|x| x.0));
        seeds.extend(v.ac.iter().take(8).map(|x| x.0));
    }
    let mut amb = false;
    let mut cand: Vec<f32> = vec![];
    for s in seeds {
        for f in [1.0f32, 0.5, 2.0, 1.0 / 3.0, 3.0, 2.0 / 3.0, 1.5] {
            let b = s * f;
            for l in [a.lo, a.hi] {
                // whether a rounded multiple of a tempo still lies in the range is undecided
                amb |= f != 1.0 && b != l && (b - l).abs() < 1e-3;
            }
            if b.is_finite() && b >= a.lo && b <= a.hi {
                cand.push(b);
            }
        }
    }
    cand.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let mut uniq: Vec<f32> = vec![];
    for b in cand {
        if let Some(l) = uniq.last() {
            let d = b as f64 - *l as f64;
            amb |= d != 0.75 && (d - 0.75).abs() < 5e-4;
            if d < 0.75 {
                continue;
            }
        }
        uniq.push(b);
    }
    let (est, list) = match got {
        Err(e) => {
            ensure!(uniq.is_empty(), "no estimate ({}) although {} candidates exist", e, uniq.len());
            return Ok(Obs::new(1, false, 1));
        }
        Ok(g) => g,
    };
    // structural facts, decided on every case
    let sel = |b: f32| (b - est.bpm).abs() < 0.75;
    for c in &list {
        ensure!(c.bpm >= a.lo && c.bpm <= a.hi, "candidate {} BPM outside {}..{}", c.bpm, a.lo, a.hi);
        ensure!((0.0..=1.0).contains(&c.fft_norm) && (0.0..=1.0).contains(&c.autocorr_norm), "support outside 0..1: {:?}", c);
        ensure!(c.score.is_finite() && c.score >= 0.0, "candidate score {:?}", c);
        ensure!(c.selected == sel(c.bpm), "candidate {:?} wrongly marked for the selected tempo {}", c, est.bpm);
    }
    for w in list.windows(2) {
        ensure!(w[0].score >= w[1].score, "candidates not in decreasing score: {:?} before {:?}", w[0], w[1]);
    }
    ensure!(!list.is_empty(), "estimate without candidates");
    // selection from the published list
    let mut best = list[0].clone();
    let mut fold_amb = false;
    if best.bpm > 180.0 {
        let half = best.bpm / 2.0;
        fold_amb |= list.iter().any(|c| ((c.bpm - half).abs() - 0.75).abs() < 1e-3) || (half - a.lo).abs() < 1e-3;
        if half >= a.lo {
            if let Some(h) = list.iter().find(|c| (c.bpm - half).abs() < 0.75) {
                let r1 = (best.autocorr_norm as f64 + 1e-6) / (h.autocorr_norm as f64 + 1e-6);
                let r2 = (best.fft_norm as f64 + 1e-6) / (h.fft_norm as f64 + 1e-6);
                fold_amb |= (r1 - 2.0).abs() < 1e-4 || (r2 - 2.0).abs() < 1e-4;
                if !(r1 > 2.0 && r2 > 2.0) {
                    best = h.clone();
                }
            }
        }
    }
    if fold_amb || (list[0].bpm - 180.0).abs() < 1e-3 && list[0].bpm != 180.0 {
        ctx.ambiguous();
        best = list.iter().min_by(|x, y| (x.bpm - est.bpm).abs().partial_cmp(&(y.bpm - est.bpm).abs()).unwrap()).unwrap().clone();
    }
    ensure!(est.bpm == best.bpm, "selected {} BPM, want {} from candidates {:?}", est.bpm, best.bpm, &list[..list.len().min(4)]);
    let second = list.get(1).map(|c| c.score as f64).unwrap_or(0.0);
    let conf = if best.score > 1e-12 { ((best.score as f64 - second).max(0.0) / best.score as f64).clamp(0.0, 1.0) } else { 0.0 };
    ensure!((est.confidence as f64 - conf).abs() < 1e-5, "confidence {}, want {}", est.confidence, conf);
    let agree = [bf, ba].iter().filter(|b| **b > 0.0 && (**b - est.bpm).abs() < 2.0).count() as u32;
    ensure!(est.method_agreement == agree, "{} methods agree, want {}", est.method_agreement, agree);
    // truncated lists are prefixes
    for n in [0usize, 1, 3, list.len() - 1, list.len(), 51, 200] {
        let (e2, l2) = call(n).map_err(es)?;
        ensure!(e2.bpm == est.bpm && e2.confidence == est.confidence, "the list length changes the estimate");
        ensure!(l2.len() == n.min(list.len()) && l2.iter().zip(&list).all(|(x, y)| x.bpm == y.bpm && x.score == y.score), "top {} is not a prefix", n);
    }
    let plain = match cfg {
        None => estimate_bpm_tempogram(a.sp, a.sr, a.hop, a.lo, a.hi, a.res),
        Some(c) => estimate_bpm_tempogram_band_fusion(a.sp, a.sr, a.hop, a.lo, a.hi, a.res, c.clone()),
    }
    .map_err(es)?;
    ensure!(plain.bpm == est.bpm && plain.confidence == est.confidence && plain.method_agreement == est.method_agreement, "entry points disagree");
    let out = H::new().f(est.bpm).f(est.confidence).u(list.len() as u64).done();
    if amb {
        ctx.ambiguous();
        return Ok(Obs::new(out, true, 6));
    }
    ensure!(list.len() == uniq.len(), "{} candidates, want {}", list.len(), uniq.len());
    let seed_only = cfg.map(|c| c.seed_only).unwrap_or(true);
    let sv: Vec<&V> = if seed_only { vs.iter().take(1).collect() } else { vs.iter().collect() };
    let wsum = sv.iter().map(|v| v.w.max(0.0)).sum::<f64>().max(1e-6);
    let th = cfg.map(|c| c.support_threshold).unwrap_or(0.25).clamp(0.0, 1.0) as f64;
    let bonus = cfg.filter(|c| c.enabled || c.enable_mel).map(|c| c.consensus_bonus.max(0.0)).unwrap_or(0.0) as f64;
    let nrm = |t: &[(f32, f32)], b: f32, tol: f32| {
        let m = t.first().map(|x| x.1).unwrap_or(1.0).max(1e-12) as f64;
        let (l, h) = nearest(t, b, tol);
        ((l / m).clamp(0.0, 1.0), (h / m).clamp(0.0, 1.0))
    };
    let actol = a.res.max(0.5);
    for b in &uniq {
        let Some(c) = list.iter().find(|c| (c.bpm - b).abs() < 1e-3) else {
            return Err(format!("candidate {} BPM is missing", b));
        };
        let (mut f, mut r) = ((0.0, 0.0), (0.0, 0.0));
        for v in sv.iter().filter(|v| v.w > 0.0) {
            let x = nrm(&v.fft, *b, 0.75);
            let y = nrm(&v.ac, *b, actol);
            f = (f.0 + v.w * x.0, f.1 + v.w * x.1);
            r = (r.0 + v.w * y.0, r.1 + v.w * y.1);
        }
        let cl = |x: (f64, f64)| ((x.0 / wsum).clamp(0.0, 1.0), (x.1 / wsum).clamp(0.0, 1.0));
        let (f, r) = (cl(f), cl(r));
        let within = |g: f32, x: (f64, f64)| g as f64 >= x.0 - 2e-5 && g as f64 <= x.1 + 2e-5;
        ensure!(within(c.fft_norm, f), "transform support of {} BPM is {}, want {:?}", b, c.fft_norm, f);
        ensure!(within(c.autocorr_norm, r), "autocorrelation support of {} BPM is {}, want {:?}", b, c.autocorr_norm, r);
        let mut s = (0.55 * r.0 + 0.45 * f.0, 0.55 * r.1 + 0.45 * f.1);
        if bonus > 0.0 {
            let (mut n0, mut n1) = (0, 0);
            for v in &vs[1..] {
                let x = nrm(&v.fft, *b, 0.75);
                let y = nrm(&v.ac, *b, actol);
                n0 += (x.0.max(y.0) >= th + 1e-6) as i32;
                n1 += (x.1.max(y.1) >= th - 1e-6) as i32;
            }
            let g = |n: i32| if n >= 2 { 1.0 + bonus * (n - 1) as f64 } else { 1.0 };
            s = (s.0 * g(n0), s.1 * g(n1));
        }
        let pen = |b: f64| -> f64 { if b > 180.0 { 0.8 } else if b < 60.0 { 0.9 } else { 1.0 } };
        let (pa, pb) = (pen(*b as f64 - 1e-4), pen(*b as f64 + 1e-4));
        let (pa, pb) = if *b == 180.0 || *b == 60.0 { (1.0, 1.0) } else { (pa.min(pb), pa.max(pb)) };
        ensure!(within(c.score, (s.0 * pa, s.1 * pb)), "score of {} BPM is {}, want {:?}", b, c.score, (s.0 * pa, s.1 * pb));
    }
    Ok(Obs::new(out, true, 6))
}

/// pulse-train spectrogram: period/phase in frames, with per-pulse pattern
pub fn pulses(frames: usize, bins: usize, period: usize, phase: usize, pattern: usize) -> Sp {
    (0..frames)
        .map(|i| {
            let on = i % period == phase % period;
            let beat = i / period;
            let lev = match pattern {
                0 => 1.0,
                1 => if beat % 2 == 0 { 1.0 } else { 0.4 },
                2 => if beat % 4 == 0 { 1.0 } else { 0.6 },
                _ => if beat % 3 == 0 { 1.0 } else { 0.5 },
            };
            let off = pattern == 4 && i % period == (phase + period / 2) % period;
            (0..bins).map(|b| 0.05 + if on { lev } else if off { 0.5 } else { 0.0 } * (1.0 + (b % 5) as f32 * 0.1)).collect()
        })
        .collect()
}

pub fn p12(ctx: &Ctx) {
    ctx.rule("all novelty words over {0,1/2,1} (autocorrelation, transform) up to the stated length x frame rate x tempo grid; all on/off frame words x band configurations; pulse trains of every period x phase x pattern x configuration; candidate lists checked entry by entry against an f64 reference and the selection rule");
    ctx.assume("single-precision ties (nearest-entry, 0.75 BPM grouping, factor-2 fold) are counted ambiguous and checked structurally only");
    // (sr, hop)
    let rates: &[(u32, u32)] = &[(8, 1), (100, 7), (8000, 512), (44100, 512), (48000, 256)];
    let grids: &[(f32, f32, f32)] = &[(40.0, 240.0, 1.0), (60.0, 180.0, 7.5), (50.0, 210.0, 0.5), (100.0, 101.0, 3.0)];
    let lmax = ctx.pick(7, 9);
    for l in 1..=lmax {
        let nw = 3usize.pow(l);
        ctx.sweep(
            &format!("words{}", l),
            nw * rates.len() * grids.len(),
            |i| format!("word {} (base 3), rate/grid {}", i % nw, i / nw),
            |i| {
                let mut x = Ix(i);
                let mut w = x.take(nw);
                let v: Vec<f32> = (0..l)
                    .map(|_| {
                        let d = w % 3;
                        w /= 3;
                        d as f32 * 0.5
                    })
                    .collect();
                let (sr, hop) = *x.of(rates);
                let (lo, hi, res) = *x.of(grids);
                let a = ac_case(&v, sr, hop, lo, hi, res)?;
                let b = fft_case(&v, sr, hop, lo, hi)?;
                Ok(Obs::new(H::new().u(a.outcome).u(b.outcome).done(), a.nontrivial, 2))
            },
        );
    }
    // long curves: every length around powers of two, every pulse period
    let lens: Vec<usize> = if ctx.thorough() { (1..=300).chain([511, 512, 513, 700, 1023, 1024, 1025]).collect() } else { (1..=40).chain([63, 64, 65, 127, 128, 129, 300]).collect() };
    let pers: Vec<usize> = (1..=ctx.pick(24, 60)).collect();
    ctx.sweep(
        "curves",
        lens.len() * pers.len() * 4,
        |i| format!("length {} period {} kind {}", lens[i % lens.len()], pers[(i / lens.len()) % pers.len()], i / lens.len() / pers.len()),
        |i| {
            let mut x = Ix(i);
            let n = *x.of(&lens);
            let p = *x.of(&pers);
            let kind = x.take(4);
            let s = 77 + p as u64;
            let v: Vec<f32> = (0..n)
                .map(|i| match kind {
                    0 => (i % p == 0) as u32 as f32,
                    1 => (i % p == p / 2) as u32 as f32 * if (i / p) % 2 == 0 { 1.0 } else { 0.3 },
                    2 => 0.5 + 0.5 * (2.0 * std::f32::consts::PI * i as f32 / p as f32).cos(),
                    _ => lcg(s, i) * 0.5 + (i % p == 0) as u32 as f32 * 0.5,
                })
                .map(|v| v.clamp(0.0, 1.0))
                .collect();
            let (sr, hop) = rates[(n + p) % rates.len()];
            let (lo, hi, res) = grids[(n + p / 2) % 3];
            let a = ac_case(&v, sr, hop, lo, hi, res)?;
            let b = fft_case(&v, sr, hop, lo, hi)?;
            Ok(Obs::new(H::new().u(a.outcome).u(b.outcome).done(), a.nontrivial, 2))
        },
    );
    // recordings of an hour and more, and very fine tempo grids
    let big: &[(usize, u32, u32, f32, f32, f32)] = &[
        (16_385, 44100, 512, 50.0, 90.0, 8.0),
        (33_000, 44100, 512, 118.0, 130.0, 4.0),
        (70_000, 44100, 512, 120.0, 126.0, 2.0),
        (300, 44100, 512, 40.0, 240.0, 0.015625),
        (64, 8000, 512, 1.0, 3000.0, 1.0),
    ];
    ctx.sweep(
        "big",
        big.len() * 2,
        |i| format!("(values, rate, hop, min, max, step) {:?} kind {}", big[i / 2], i % 2),
        |i| {
            let (n, sr, hop, lo, hi, res) = big[i / 2];
            let v: Vec<f32> = (0..n).map(|k| if i % 2 == 0 { (k % 43 == 0) as u32 as f32 } else { lcg(5, k).abs() * 0.4 + (k * 3 % 127 < 3) as u32 as f32 * 0.5 }).collect();
            let a = ac_case(&v, sr, hop, lo, hi, res)?;
            let b = fft_case(&v, sr, hop, lo, hi)?;
            Ok(Obs::new(H::new().u(a.outcome).u(b.outcome).done(), a.nontrivial, 2))
        },
    );
    // best-of-list function on all short descending lists
    let lv: &[f32] = &[0.0, 1e-11, 0.25, 0.5, 1.0, 4.0];
    ctx.sweep(
        "best",
        1 + lv.len() + lv.len().pow(2) + lv.len().pow(3),
        |i| format!("list {}", i),
        |i| {
            let (l, mut k) = if i == 0 {
                (0, 0)
            } else if i <= lv.len() {
                (1, i - 1)
            } else if i <= lv.len() + lv.len().pow(2) {
                (2, i - 1 - lv.len())
            } else {
                (3, i - 1 - lv.len() - lv.len().pow(2))
            };
            let mut t: Vec<(f32, f32)> = (0..l)
                .map(|j| {
                    let v = lv[k % lv.len()];
                    k /= lv.len();
                    (100.0 + j as f32, v)
                })
                .collect();
            t.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
            best_case("autocorrelation", &t, find_best_bpm_autocorr(&t).map(|r| (r.bpm, r.confidence, r.strength)))?;
            best_case("FFT", &t, find_best_bpm_fft(&t).map(|r| (r.bpm, r.confidence, r.power)))?;
            Ok(Obs::new(i as u64, l > 0, 2))
        },
    );
    let cfgs = cfg_variants();
    // every on/off frame word
    let wl = ctx.pick(9usize, 12);
    let rr: &[(u32, u32)] = &[(64, 8), (8000, 1000), (44100, 4096)];
    let gg: &[(f32, f32, f32)] = &[(40.0, 240.0, 1.0), (60.0, 200.0, 2.5), (90.0, 400.0, 3.0)];
    ctx.sweep(
        "frames",
        (1 << wl) * (cfgs.len() + 1) * rr.len(),
        |i| format!("frame word {:b} config {} rate {}", i & ((1 << wl) - 1), (i >> wl) % (cfgs.len() + 1), (i >> wl) / (cfgs.len() + 1)),
        |i| {
            let mut x = Ix(i);
            let w = x.take(1 << wl);
            let c = x.take(cfgs.len() + 1);
            let (sr, hop) = *x.of(rr);
            let (lo, hi, res) = gg[(w + c) % gg.len()];
            let sp: Sp = (0..wl).map(|f| (0..17).map(|b| if w >> f & 1 == 1 { 1.0 + ((b + f) % 3) as f32 * 0.25 } else { 0.1 }).collect()).collect();
            est_case(ctx, &Args { sp: &sp, sr, hop, lo, hi, res }, if c == 0 { None } else { Some(&cfgs[c - 1]) })
        },
    );
    // pulse trains
    let pers: Vec<usize> = (4..=ctx.pick(30, 48)).collect();
    let phs: &[usize] = &[0, 1, 3];
    ctx.sweep(
        "pulses",
        pers.len() * phs.len() * 5 * (cfgs.len() + 1),
        |i| {
            let mut x = Ix(i);
            format!("period {} phase {} pattern {} config {}", x.of(&pers), x.of(phs), x.take(5), x.take(cfgs.len() + 1))
        },
        |i| {
            let mut x = Ix(i);
            let p = *x.of(&pers);
            let ph = *x.of(phs);
            let pat = x.take(5);
            let c = x.take(cfgs.len() + 1);
            let sp = pulses(200 + 13 * pat, 33, p, ph, pat);
            let (lo, hi, res) = gg[(p + c) % gg.len()];
            let (sr, hop) = [(4000, 256), (8000, 512), (22050, 1024)][(p + pat) % 3];
            est_case(ctx, &Args { sp: &sp, sr, hop, lo, hi, res }, if c == 0 { None } else { Some(&cfgs[c - 1]) })
        },
    );
    // irregular music: long candidate lists over a wide tempo range
    let nr = ctx.pick(40usize, 200);
    ctx.sweep(
        "irregular",
        nr * (cfgs.len() + 1),
        |i| format!("material {} config {}", i % nr, i / nr),
        |i| {
            let (m, c) = (i % nr, i / nr);
            let sp: Sp = (0..300 + 37 * (m % 9)).map(|f| (0..17).map(|b| if lcg(m as u64 + 3, f) > 0.55 { 1.0 + ((b + f) % 3) as f32 * 0.25 } else { 0.1 }).collect()).collect();
            let (lo, hi, res) = [(20.0, 400.0, 1.0), (30.0, 600.0, 0.5), (40.0, 240.0, 1.0)][m % 3];
            let (sr, hop) = [(8000, 256), (44100, 512)][m / 3 % 2];
            est_case(ctx, &Args { sp: &sp, sr, hop, lo, hi, res }, if c == 0 { None } else { Some(&cfgs[c - 1]) })
        },
    );
    steady(ctx);
    invalid(ctx);
}

fn cfg_variants() -> Vec<TempogramBandFusionConfig> {
    let b = band_cfg();
    let mut v = vec![b.clone()];
    let mut add = |f: &dyn Fn(&mut TempogramBandFusionConfig)| {
        let mut c = b.clone();
        f(&mut c);
        v.push(c);
    };
    add(&|c| c.seed_only = false);
    add(&|c| c.enable_mel = false);
    add(&|c| c.enabled = false);
    add(&|c| {
        c.seed_only = false;
        c.w_low = 0.0;
        c.w_full = 0.2;
        c.w_mel = 2.0;
        c.consensus_bonus = 0.0;
    });
    add(&|c| {
        c.low_max_hz = 20.0;
        c.mid_max_hz = 40.0;
        c.high_max_hz = 3000.0;
        c.seed_only = false;
        c.consensus_bonus = 0.5;
        c.support_threshold = 0.9;
    });
    add(&|c| {
        c.novelty_local_mean_window = 0;
        c.novelty_smooth_window = 0;
        c.novelty_w_energy = 0.0;
        c.superflux_max_filter_bins = 1;
        c.consensus_bonus = 0.3;
    });
    add(&|c| {
        c.w_mid = f32::NAN;
        c.w_high = -1.0;
        c.mel_n_mels = 4;
        c.mel_fmin_hz = 500.0;
        c.seed_only = false;
    });
    v
}

/// A steady pulse is found at its tempo or a simple metrical relative of it.
fn steady(ctx: &Ctx) {
    let cfgs = cfg_variants();
    let sel: Vec<usize> = vec![0, 1, 2, 3];
    let frs: &[(u32, u32)] = &[(44100, 512), (22050, 256), (48000, 1024), (8000, 64)];
    let plist: Vec<(usize, u32, u32)> = frs
        .iter()
        .flat_map(|(sr, hop)| (2..400usize).filter(move |p| { let b = 60.0 * *sr as f64 / *hop as f64 / *p as f64; (45.0..=235.0).contains(&b) }).map(move |p| (p, *sr, *hop)))
        .collect();
    ctx.sweep(
        "steady",
        plist.len() * sel.len(),
        |i| {
            let (p, sr, hop) = plist[i % plist.len()];
            format!("period {} frames at {}/{} Hz ({:.2} BPM) config {}", p, sr, hop, 60.0 * sr as f64 / hop as f64 / p as f64, i / plist.len())
        },
        |i| {
            let (p, sr, hop) = plist[i % plist.len()];
            let c = i / plist.len();
            let sp = pulses(p * 16, 17, p, p / 3, 0);
            let t = 60.0 * sr as f64 / hop as f64 / p as f64;
            let e = if c == 0 { estimate_bpm_tempogram(&sp, sr, hop, 40.0, 240.0, 0.5) } else { estimate_bpm_tempogram_band_fusion(&sp, sr, hop, 40.0, 240.0, 0.5, cfgs[sel[c]].clone()) }.map_err(es)?;
            let r = e.bpm as f64 / t;
            let fam = [1.0, 0.5, 2.0];
            let best = fam.iter().map(|f| (r / f - 1.0).abs()).fold(f64::INFINITY, f64::min);
            if std::env::var("MC_STEADY").is_ok() {
                let f = fam.iter().min_by(|a, b| (r / **a - 1.0).abs().partial_cmp(&(r / **b - 1.0).abs()).unwrap()).unwrap();
                eprintln!("steady {:.2} -> {:.2} rel {:.3} off {:.4} conf {:.3}", t, e.bpm, f, best, e.confidence);
            }
            ensure!(best < 0.04, "a steady pulse at {:.2} BPM is reported as {:.2} BPM", t, e.bpm);
            Ok(Obs::new(H::new().f(e.bpm).done(), true, 1))
        },
    );
}

fn invalid(ctx: &Ctx) {
    let x = vec![0.0f32, 1.0, 0.0, 1.0];
    let sp: Sp = vec![vec![0.1; 9], vec![1.0; 9], vec![0.1; 9]];
    ctx.sweep(
        "invalid",
        12,
        |i| format!("invalid argument {}", i),
        |i| {
            let (sr, hop, lo, hi, res) = match i {
                0 => (0, 1, 40.0, 240.0, 1.0),
                1 => (8, 0, 40.0, 240.0, 1.0),
                2 => (8, 1, 0.0, 240.0, 1.0),
                3 => (8, 1, -4.0, 240.0, 1.0),
                4 => (8, 1, 100.0, 100.0, 1.0),
                5 => (8, 1, 200.0, 100.0, 1.0),
                6 => (8, 1, 40.0, 240.0, 0.0),
                7 => (8, 1, 40.0, 240.0, -1.0),
                8 => (8, 1, 40.0, f32::INFINITY, 1.0),
                9 => (8, 1, 40.0, 240.0, 1e-9),
                _ => (8, 1, 40.0, 240.0, 1.0),
            };
            if i == 10 {
                ensure!(autocorrelation_tempogram(&[], sr, hop, lo, hi, res).is_err() && fft_tempogram(&[], sr, hop, lo, hi).is_err(), "an empty curve is accepted");
                return Ok(Obs::new(10, true, 2));
            }
            if i == 11 {
                ensure!(estimate_bpm_tempogram(&[], sr, hop, lo, hi, res).is_err(), "an empty spectrogram is accepted");
                ensure!(estimate_bpm_tempogram(&[vec![]], sr, hop, lo, hi, res).is_err(), "an empty frame is accepted");
                return Ok(Obs::new(11, true, 2));
            }
            ensure!(autocorrelation_tempogram(&x, sr, hop, lo, hi, res).is_err(), "autocorrelation tempogram accepts it");
            if i < 6 {
                ensure!(fft_tempogram(&x, sr, hop, lo, hi).is_err(), "transform tempogram accepts it");
            }
            ensure!(estimate_bpm_tempogram(&sp, sr, hop, lo, hi, res).is_err(), "tempogram estimate accepts it");
            Ok(Obs::new(i as u64, true, 3))
        },
    );
}

// ---------------------------------------------------------------- P13

type Cands = Vec<TempogramCandidateDebug>;

#[derive(Clone, Debug)]
struct Fuse {
    lo: f32,
    hi: f32,
    res: f32,
    k: usize,
    w: [f32; 3], // 512, 256, 1024
    dbl: f32,
    margin: f32,
    prior: bool,
    band: Option<TempogramBandFusionConfig>,
}

/// decides `a < b`; operands closer than `eps` make the whole case undecidable
struct Dec {
    amb: bool,
}
impl Dec {
    fn lt(&mut self, a: f64, b: f64, eps: f64) -> bool {
        if a != b && (a - b).abs() < eps {
            self.amb = true;
        }
        a < b
    }
    fn le(&mut self, a: f64, b: f64, eps: f64) -> bool {
        if a != b && (a - b).abs() < eps {
            self.amb = true;
        }
        a <= b
    }
    /// score of the candidate nearest to `bpm`
    fn look(&mut self, c: &Cands, bpm: f64, tol: f64) -> f64 {
        let mut bd = f64::INFINITY;
        let mut bs = 0.0;
        for x in c {
            let d = (x.bpm as f64 - bpm).abs();
            if (d - tol).abs() < 2e-4 && d != tol {
                self.amb = true;
            }
            if d <= tol {
                if bd.is_finite() && (d - bd).abs() < 2e-4 && d != bd && (x.score as f64 - bs).abs() > 1e-9 {
                    self.amb = true;
                }
                if d < bd {
                    bd = d;
                    bs = x.score as f64;
                }
            }
        }
        bs
    }
}

fn contrast(nov: &[f32], sr: u32, bpm: f64, dc: &mut Dec) -> f64 {
    let n = nov.len();
    if n < 16 || !(bpm > 0.0) {
        return 0.0;
    }
    let fpb = 60.0 * sr as f64 / (bpm * 512.0);
    if dc.lt(fpb, 3.0, 1e-4) {
        return 0.0;
    }
    if ((fpb - fpb.floor()) - 0.5).abs() < 1e-4 * fpb.max(1.0) / 4.0 {
        dc.amb = true;
    }
    let p = fpb.round() as usize;
    if !(3..=512).contains(&p) {
        return 0.0;
    }
    let tot = nov.iter().map(|x| *x as f64).sum::<f64>().max(1e-6);
    let win = |i: usize| nov[i.saturating_sub(2)..(i + 3).min(n)].iter().cloned().fold(0.0f32, f32::max) as f64;
    let mean = |v: &[f64]| if v.is_empty() { 0.0 } else { v.iter().sum::<f64>() / v.len() as f64 };
    let mut best = -1e9f64;
    for ph in 0..p {
        let (mut b, mut h, mut t) = (vec![], vec![], vec![]);
        let mut i = ph;
        while i < n {
            b.push(win(i));
            if p >= 6 && i + p / 2 < n {
                h.push(win(i + p / 2));
            }
            if p >= 9 {
                for f in [1, 2] {
                    if i + p * f / 3 < n {
                        t.push(win(i + p * f / 3));
                    }
                }
            }
            i += p;
        }
        let c = mean(&b) - 0.6 * mean(&h) - 0.4 * mean(&t);
        best = best.max((c / (tot / n as f64).max(1e-6)).clamp(-10.0, 10.0));
    }
    best
}

struct FuseOut {
    bpm: f64,
    conf: f64,
    agree: u32,
}

fn ref_fuse(f: &Fuse, c256: &Cands, c512: &Cands, c1024: &Cands, nov: Option<&[f32]>, sr: u32, dc: &mut Dec) -> Option<FuseOut> {
    let tol = (f.res as f64).max(2.0);
    const E: f64 = 1e-5;
    let (lo, hi) = (f.lo as f64, f.hi as f64);
    let [w5, w2, w1] = f.w.map(|x| x as f64);
    let df = f.dbl as f64;
    let mut hyps: Vec<(f64, f64)> = vec![];
    for t in c512.iter().take(f.k.max(1)) {
        let b = t.bpm as f64;
        let l = |d: &mut Dec, x: f64| (d.look(c512, x, tol), d.look(c256, x, tol), d.look(c1024, x, tol));
        let (t5, t2, t1) = l(dc, b);
        let (d5, d2, d1) = l(dc, 2.0 * b);
        let (h5, h2, h1) = l(dc, 0.5 * b);
        let ht = w5 * t5 + w2 * t2 + w1 * t1;
        let mut hd = w5 * (df * t5 + (1.0 - df) * d5) + w2 * d2 + w1 * d1;
        let mut hh = w5 * (df * t5 + (1.0 - df) * h5) + w2 * h2 + w1 * h1;
        if dc.lt(h1 * 1.02, t1, 1e-6) {
            hh *= 0.9;
        }
        if dc.lt(d1 * 1.02, t1, 1e-6) {
            hd *= 0.9;
        }
        let r2 = (d2 + 1e-6) / (t2 + 1e-6);
        let r1 = (h1 + 1e-6) / (t1 + 1e-6);
        for (r, h) in [(r2, &mut hd), (r1, &mut hh)] {
            for lim in [1.1, 1.0] {
                if dc.lt(r, lim, E) {
                    *h *= 0.75;
                }
            }
        }
        let mut loc: Vec<(f64, f64)> = vec![];
        for (i, (x, s)) in [(b, ht), (2.0 * b, hd), (0.5 * b, hh)].into_iter().enumerate() {
            if i > 0 && (dc.lt(x, lo, 1e-4) || dc.lt(hi, x, 1e-4)) {
                continue;
            }
            let s = if dc.lt(210.0, x, 1e-4) {
                s * 0.8
            } else if dc.lt(180.0, x, 1e-4) {
                s * 0.9
            } else if dc.lt(x, 60.0, 1e-4) {
                s * 0.92
            } else {
                s
            };
            loc.push((x, s));
        }
        for i in 0..loc.len() {
            for j in 0..i {
                if (loc[i].1 - loc[j].1).abs() < 1e-6 && loc[i].1 != loc[j].1 {
                    dc.amb = true;
                }
            }
        }
        loc.sort_by(|x, y| y.1.partial_cmp(&x.1).unwrap());
        let (mut cb, mut cs) = loc[0];
        let margin = loc[0].1 - loc.get(1).map(|x| x.1).unwrap_or(0.0);
        let small = dc.lt(margin, f.margin as f64, E);
        if cb != b && small {
            cb = b;
            cs = ht;
        }
        if small && f.prior && dc.le(70.0, cb, 1e-4) && dc.le(cb, 180.0, 1e-4) && dc.lt(margin, 0.05, E) {
            cs += 0.05;
        }
        hyps.push((cb, cs));
    }
    if hyps.is_empty() {
        return None;
    }
    for i in 0..hyps.len() {
        for j in 0..i {
            let d = (hyps[i].1 - hyps[j].1).abs();
            if d < 2e-6 && (d > 0.0 && hyps[i].0 != hyps[j].0 || d == 0.0 && false) {
                dc.amb = true;
            }
        }
    }
    hyps.sort_by(|x, y| y.1.partial_cmp(&x.1).unwrap());
    let mut uniq: Vec<(f64, f64)> = vec![];
    for h in hyps {
        let mut dup = false;
        for u in &uniq {
            dup |= dc.lt((u.0 - h.0).abs(), 0.75, 2e-4);
        }
        if !dup {
            uniq.push(h);
            if uniq.len() >= 8 {
                break;
            }
        }
    }
    let mut best = uniq[0];
    let sup = |d: &mut Dec, x: f64| {
        let v = [d.look(c256, x, tol), d.look(c512, x, tol), d.look(c1024, x, tol)];
        (v.iter().sum::<f64>(), v.iter().filter(|s| **s > 0.0).count())
    };
    if dc.le(170.0, best.0, 1e-4) {
        let h = best.0 * 0.5;
        if dc.le(70.0, h, 1e-4) && dc.le(h, 120.0, 1e-4) && dc.le(lo, h, 1e-4) {
            let (sb, _) = sup(dc, best.0);
            let (sh, ah) = sup(dc, h);
            if ah >= 3 && sb > 0.0 && !dc.lt(sh / sb, 0.45, E) {
                best = (h, sh);
            }
        }
    }
    if dc.le(best.0, 80.0, 1e-4) {
        let d = best.0 * 2.0;
        if dc.le(70.0, d, 1e-4) && dc.le(d, 180.0, 1e-4) && dc.le(d, hi, 1e-4) {
            let (sb, _) = sup(dc, best.0);
            let (sd, ad) = sup(dc, d);
            if ad >= 2 && sd > 0.0 && sb > 0.0 && !dc.lt(sd / sb, 0.55, E) {
                best = (d, sd);
            }
        }
    }
    if let Some(nov) = nov.filter(|n| !n.is_empty()) {
        if dc.le(70.0, best.0, 1e-4) && dc.le(best.0, 180.0, 1e-4) {
            let mut fam: Vec<(f64, f64, f64)> = vec![];
            for k in [1.0, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75] {
                let x = best.0 * k;
                if dc.lt(x, lo, 1e-4) || dc.lt(hi, x, 1e-4) || dc.lt(x, 70.0, 1e-4) || dc.lt(180.0, x, 1e-4) {
                    continue;
                }
                let (s, n) = sup(dc, x);
                if n >= 2 && s > 0.0 {
                    fam.push((x, s, contrast(nov, sr, x, dc)));
                }
            }
            if fam.len() >= 2 {
                let ms = fam.iter().map(|x| x.1).fold(1e-6, f64::max);
                let alt = fam.iter().filter(|x| (x.0 - best.0).abs() > 0.75).map(|x| x.1 / ms).fold(0.0, f64::max);
                if !dc.lt(alt, 0.45, E) {
                    let sc: Vec<f64> = fam.iter().map(|x| x.2 + 0.35 * (x.1 / ms).clamp(0.0, 1.0)).collect();
                    let mut c = 0;
                    for i in 1..fam.len() {
                        if dc.lt(sc[c], sc[i], 1e-4) {
                            c = i;
                        }
                    }
                    let cur = contrast(nov, sr, best.0, dc);
                    if (fam[c].0 - best.0).abs() > 0.75 && !dc.lt(fam[c].2, cur + 0.4, 1e-4) {
                        best = (fam[c].0, fam[c].1);
                    }
                }
            }
        }
    }
    let second = uniq.get(1).map(|x| x.1).unwrap_or(0.0);
    let conf = if best.1 > 1e-6 { ((best.1 - second) / best.1).clamp(0.0, 1.0) } else { 0.0 };
    let agree = sup(dc, best.0).1 as u32;
    Some(FuseOut { bpm: best.0, conf, agree })
}

fn fuse_case(ctx: &Ctx, x: &[f32], sr: u32, frame: usize, f: &Fuse) -> CaseResult {
    let got = guarded(|| {
        multi_resolution_tempogram_from_samples(x, sr, frame, f.lo, f.hi, f.res, f.k, f.w[0], f.w[1], f.w[2], 0.5, f.dbl, f.margin, f.prior, f.band.clone())
    })?;
    if x.len() < frame {
        ensure!(got.is_err(), "audio shorter than a frame is accepted");
        return Ok(Obs::new(0, false, 1));
    }
    let kx = (f.k.max(1) * 4).clamp(25, 200);
    let res: Vec<_> = [(256u32, kx), (512, f.k.max(1)), (1024, kx)]
        .iter()
        .map(|(hop, k)| {
            let sp = compute_stft(x, frame, *hop as usize).map_err(es)?;
            let r = match f.band.as_ref().filter(|c| c.enabled || c.enable_mel || c.consensus_bonus > 0.0) {
                Some(c) => estimate_bpm_tempogram_with_candidates_band_fusion(&sp, sr, *hop, f.lo, f.hi, f.res, *k, c.clone()),
                None => estimate_bpm_tempogram_with_candidates(&sp, sr, *hop, f.lo, f.hi, f.res, *k),
            };
            Ok::<_, String>((sp, r))
        })
        .collect::<Result<_, _>>()?;
    if res.iter().any(|r| r.1.is_err()) {
        ensure!(got.is_err(), "an estimate although one resolution has none");
        return Ok(Obs::new(1, false, 4));
    }
    let c: Vec<&Cands> = res.iter().map(|r| &r.1.as_ref().unwrap().1).collect();
    let (est, list) = match got {
        Ok(g) => g,
        Err(e) => {
            ensure!(c[1].is_empty(), "no fused estimate: {}", e);
            return Ok(Obs::new(2, false, 4));
        }
    };
    // unconditional guarantees
    ensure!(est.bpm.is_finite() && est.bpm >= f.lo && est.bpm <= f.hi, "fused tempo {} outside {}..{}", est.bpm, f.lo, f.hi);
    ensure!((0.0..=1.0).contains(&est.confidence), "fused confidence {}", est.confidence);
    ensure!(est.method_agreement <= 3, "{} resolutions agree", est.method_agreement);
    let fam = [1.0f32, 2.0, 0.5, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75, 3.0, 1.0 / 3.0, 8.0 / 3.0, 0.375];
    ensure!(c.iter().any(|l| l.iter().any(|k| fam.iter().any(|m| (k.bpm * m - est.bpm).abs() < 1e-2))), "fused tempo {} is unrelated to every candidate", est.bpm);
    ensure!(list.len() == c[1].len() && list.iter().zip(c[1].iter()).all(|(a, b)| a.bpm == b.bpm && a.score == b.score), "the candidate list is not the one of the base resolution");
    ensure!(list.iter().all(|k| k.selected == ((k.bpm - est.bpm).abs() < 0.75)), "wrong candidate marked as selected");
    let nov = f.band.as_ref().map(|cfg| {
        let sp = &res[1].0;
        combined_novelty_with_params(
            &superflux_novelty(sp, cfg.superflux_max_filter_bins).unwrap_or_default(),
            &energy_flux_novelty(sp).unwrap_or_default(),
            &hfc_novelty(sp, sr).unwrap_or_default(),
            cfg.novelty_w_spectral,
            cfg.novelty_w_energy,
            cfg.novelty_w_hfc,
            cfg.novelty_local_mean_window,
            cfg.novelty_smooth_window,
        )
    });
    let mut dc = Dec { amb: false };
    let r = ref_fuse(f, c[0], c[1], c[2], nov.as_deref(), sr, &mut dc);
    let out = H::new().f(est.bpm).f(est.confidence).u(est.method_agreement as u64).done();
    if dc.amb {
        ctx.ambiguous();
        return Ok(Obs::new(out, true, 4));
    }
    let r = r.ok_or("the reference has no hypothesis")?;
    ensure!((est.bpm as f64 - r.bpm).abs() < 1e-2, "fused tempo {}, want {}", est.bpm, r.bpm);
    ensure!((est.confidence as f64 - r.conf).abs() < 1e-4, "fused confidence {}, want {}", est.confidence, r.conf);
    ensure!(est.method_agreement == r.agree, "{} resolutions agree, want {}", est.method_agreement, r.agree);
    Ok(Obs::new(out, true, 4))
}

fn wrap_case(sp: &Sp, sr: u32, hop: u32, lo: f32, hi: f32, res: f32) -> CaseResult {
    let got = multi_resolution_analysis(sp, sr, hop, lo, hi, res);
    let r: Vec<BpmEstimate> = [256u32, 512, 1024].iter().filter_map(|h| estimate_bpm_tempogram(sp, sr, *h, lo, hi, res).ok()).collect();
    if r.is_empty() {
        ensure!(got.is_err(), "a tempo although every resolution failed");
        return Ok(Obs::new(0, false, 4));
    }
    let g = got.map_err(|e| format!("failed although {} resolutions succeeded: {}", r.len(), e))?;
    let agree = r.iter().all(|e| (e.bpm - r[0].bpm).abs() < 2.0);
    let n = r.len() as f64;
    let (b, c, m) = if r.len() == 1 {
        (r[0].bpm as f64, r[0].confidence as f64, r[0].method_agreement)
    } else if agree {
        (r.iter().map(|e| e.bpm as f64).sum::<f64>() / n, (r.iter().map(|e| e.confidence as f64).sum::<f64>() / n * 1.2).min(1.0), r.len() as u32)
    } else {
        // the last of equally confident resolutions wins
        let mx = r.iter().map(|e| e.confidence).fold(0.0, f32::max);
        ensure!(r.iter().any(|e| e.confidence == mx && e.bpm == g.bpm), "tempo {} is not the one of the most confident resolution", g.bpm);
        (g.bpm as f64, mx as f64 * 0.9, 1)
    };
    ensure!((g.bpm as f64 - b).abs() < 1e-3, "combined tempo {}, want {}", g.bpm, b);
    ensure!((g.confidence as f64 - c).abs() < 1e-5 && g.confidence <= 1.0, "combined confidence {}, want {}", g.confidence, c);
    ensure!(g.method_agreement == m, "agreement {}, want {}", g.method_agreement, m);
    Ok(Obs::new(H::new().f(g.bpm).f(g.confidence).done(), true, 4))
}

/// click track: tempo, optional off-beat and triplet subdivisions, accents
pub fn clicks(sr: u32, secs: f32, bpm: f32, kind: usize) -> Vec<f32> {
    let n = (sr as f32 * secs) as usize;
    let mut x: Vec<f32> = (0..n).map(|i| 0.01 * lcg(5, i)).collect();
    let per = 60.0 * sr as f32 / bpm;
    let len = (sr as usize / 100).max(8);
    let mut put = |pos: f32, amp: f32, f: f32| {
        for j in 0..len {
            let i = pos as usize + j;
            if i < n {
                x[i] += amp * (1.0 - j as f32 / len as f32) * (2.0 * std::f32::consts::PI * f * j as f32 / sr as f32).sin();
            }
        }
    };
    let mut k = 0;
    loop {
        let t = 0.11 * sr as f32 + k as f32 * per;
        if t as usize >= n {
            break;
        }
        let acc = match kind {
            1 => if k % 2 == 0 { 0.9 } else { 0.35 },
            2 => if k % 4 == 0 { 0.9 } else { 0.5 },
            3 => if k % 3 == 0 { 0.9 } else { 0.4 },
            _ => 0.8,
        };
        put(t, acc, 900.0);
        match kind {
            4 => put(t + per / 2.0, 0.5, 2500.0),
            5 => {
                put(t + per / 3.0, 0.4, 2500.0);
                put(t + per * 2.0 / 3.0, 0.4, 2500.0);
            }
            6 => put(t + per / 2.0, 0.75, 900.0),
            7 => put(t + per * 0.75, 0.6, 1500.0),
            _ => {}
        }
        k += 1;
    }
    x
}

pub fn p13(ctx: &Ctx) {
    ctx.rule("click tracks of every tempo of the grid x rhythm pattern x rate x fusion parameters: the fused estimate is compared with an f64 reference fusion of the candidate lists of the three resolutions; same-spectrogram wrapper on pulse trains");
    ctx.assume("decisions whose operands agree to single precision are counted ambiguous; range, confidence and candidate-relation guarantees are still checked there");
    let base = Fuse { lo: 40.0, hi: 240.0, res: 1.0, k: 25, w: [0.45, 0.35, 0.2], dbl: 0.5, margin: 0.08, prior: false, band: Some(band_cfg()) };
    let c = stratum_dsp::AnalysisConfig::default();
    let mut fs = vec![Fuse {
        k: c.tempogram_multi_res_top_k,
        w: [c.tempogram_multi_res_w512, c.tempogram_multi_res_w256, c.tempogram_multi_res_w1024],
        dbl: c.tempogram_multi_res_double_time_512_factor,
        margin: c.tempogram_multi_res_margin_threshold,
        prior: c.tempogram_multi_res_use_human_prior,
        ..base.clone()
    }];
    fs.push(Fuse { band: None, ..base.clone() });
    fs.push(Fuse { prior: true, margin: 0.5, k: 5, ..base.clone() });
    fs.push(Fuse { w: [0.1, 0.1, 0.8], dbl: 0.9, margin: 0.0, ..base.clone() });
    fs.push(Fuse { w: [0.1, 0.8, 0.1], dbl: 0.1, margin: 0.0, res: 2.5, ..base.clone() });
    fs.push(Fuse { lo: 99.0, hi: 240.0, ..base.clone() });
    fs.push(Fuse { lo: 60.0, hi: 150.0, k: 1, ..base.clone() });
    fs.push(Fuse { lo: 40.0, hi: 119.0, band: None, res: 0.5, ..base.clone() });
    let step = ctx.pick(3, 1);
    let bpms: Vec<f32> = (42..=236).step_by(step).map(|b| b as f32 + 0.37).collect();
    let kinds = 8;
    let rates: &[u32] = ctx.pick(&[8000][..], &[8000, 11025][..]);
    ctx.sweep(
        "fusion",
        bpms.len() * kinds * fs.len() * rates.len(),
        |i| {
            let mut x = Ix(i);
            format!("{:.2} BPM rhythm {} parameters {} rate {}", x.of(&bpms), x.take(kinds), x.take(fs.len()), x.of(rates))
        },
        |i| {
            let mut x = Ix(i);
            let b = *x.of(&bpms);
            let k = x.take(kinds);
            let f = &fs[x.take(fs.len())];
            let sr = *x.of(rates);
            let a = clicks(sr, 7.0, b, k);
            fuse_case(ctx, &a, sr, 512, f)
        },
    );
    // octave relations that end just inside or outside the tempo range
    let eb: Vec<f32> = (52..=ctx.pick(112, 118)).step_by(ctx.pick(6, 2)).map(|b| b as f32 + 0.2).collect();
    let ed: &[f32] = &[-1.6, -0.9, -0.3, 0.3, 0.9];
    ctx.sweep(
        "range_edges",
        eb.len() * ed.len() * 2 * 4 * 2,
        |i| {
            let mut x = Ix(i);
            format!("{} BPM, limit off by {}, side {}, rhythm {}, weights {}", x.of(&eb), x.of(ed), x.take(2), x.take(4), x.take(2))
        },
        |i| {
            let mut x = Ix(i);
            let b = *x.of(&eb);
            let d = *x.of(ed);
            let side = x.take(2);
            let kind = [1, 2, 5, 7][x.take(4)];
            let w = [[0.1, 0.8, 0.1], [0.1, 0.1, 0.8]][x.take(2)];
            let (lo, hi) = if side == 0 { (b * 0.75, 2.0 * b + d) } else { (b * 0.5 + d, b * 1.75) };
            let f = Fuse { lo, hi, w, dbl: 0.9, margin: 0.0, res: 0.5, ..base.clone() };
            fuse_case(ctx, &clicks(8000, 6.0, b, kind), 8000, 512, &f)
        },
    );
    // the escalation decision of the pipeline: base estimate, ambiguity test, promotion rule
    {
        use crate::pipe::{compare, small, BLOCKED};
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        use stratum_dsp::AnalysisConfig;
        let blocked: Vec<AtomicU64> = (0..20).map(|_| AtomicU64::new(0)).collect();
        let hops: &[(usize, usize)] = ctx.pick(&[(256, 64)][..], &[(256, 64), (512, 128), (512, 256), (1024, 512)][..]);
        let only256 = |c: &mut AnalysisConfig| {
            c.tempogram_multi_res_w256 = 1.0;
            c.tempogram_multi_res_w512 = 0.0;
            c.tempogram_multi_res_w1024 = 0.0;
        };
        let alts = ["default", "hop 256 only", "up to 300 BPM", "hop 256 only, up to 400 BPM", "percussive fallback", "no auxiliary bands, up to 400 BPM", "hop 512 only, no discounts"];
        let n_alt = ctx.pick(5, 7);
        let kinds: &[usize] = ctx.pick(&[0, 2, 4, 5, 7][..], &[0, 1, 2, 3, 4, 5, 6, 7][..]);
        let bp: Vec<f32> = (42..=236).step_by(ctx.pick(3, 1)).map(|b| b as f32 + 0.37).collect();
        ctx.sweep(
            "escalation",
            bp.len() * kinds.len() * hops.len() * n_alt,
            |i| {
                let mut x = Ix(i);
                format!("{:.2} BPM rhythm {} frame/hop {:?}, {}", x.of(&bp), x.of(kinds), x.of(hops), alts[x.take(n_alt)])
            },
            |i| {
                let mut x = Ix(i);
                let (b, k) = (*x.of(&bp), *x.of(kinds));
                let (f, h) = *x.of(hops);
                let mut c = small();
                c.frame_size = f;
                c.hop_size = h;
                c.enable_tempogram_multi_resolution = true;
                // the key is not the subject: cheapest detector
                c.enable_key_stft_override = false;
                c.enable_key_harmonic_mask = false;
                c.enable_key_segment_voting = false;
                c.enable_key_hpcp = false;
                match x.take(n_alt) {
                    1 => only256(&mut c),
                    2 => c.max_bpm = 300.0,
                    3 => {
                        only256(&mut c);
                        c.max_bpm = 400.0;
                    }
                    4 => c.enable_tempogram_percussive_fallback = true,
                    5 => {
                        c.enable_tempogram_band_fusion = false;
                        c.enable_tempogram_mel_novelty = false;
                        c.tempogram_band_consensus_bonus = 0.0;
                        c.max_bpm = 400.0;
                    }
                    6 => {
                        c.tempogram_multi_res_w512 = 1.0;
                        c.tempogram_multi_res_w256 = 0.0;
                        c.tempogram_multi_res_w1024 = 0.0;
                        c.tempogram_multi_res_double_time_512_factor = 1.0;
                        c.tempogram_multi_res_structural_discount = 1.0;
                        c.tempogram_multi_res_margin_threshold = 0.0;
                    }
                    _ => {}
                }
                let a = clicks(8000, 5.0, b, k);
                BLOCKED.with(|b| b.set(None));
                let r = compare(&a, 8000, &c);
                if let Some(q) = BLOCKED.with(|b| b.get()) {
                    blocked[((q / 10.0) as usize).min(19)].fetch_add(1, Relaxed);
                }
                r
            },
        );
        let b: Vec<String> = blocked.iter().enumerate().filter(|(_, n)| n.load(Relaxed) > 0).map(|(i, n)| format!("{}-{} BPM: {}", i * 10, i * 10 + 10, n.load(Relaxed))).collect();
        ctx.note("promotions_blocked_by_base_tempo", b.join(", "));
    }
    {
        use crate::pipe::*;
        let grid: Vec<(f32, f32, f32, f32, usize)> = if ctx.thorough() {
            let mut g = Vec::new();
            for alt in 0..2 {
                for n in [0.01f32, 0.1, 0.4] {
                    for a in [0.1f32, 0.4, 0.8] {
                        for r in [2.0f32, 1.5, 4.0 / 3.0, 3.0, 0.75] {
                            for b in (42..=236).step_by(4) {
                                g.push((b as f32 + 0.37, r, a, n, alt));
                            }
                        }
                    }
                }
            }
            g.extend_from_slice(EDGE_RHYTHMS);
            g
        } else {
            EDGE_RHYTHMS.to_vec()
        };
        ctx.sweep(
            "two_rhythms",
            grid.len(),
            |i| {
                let (b, r, a, n, alt) = grid[i];
                format!("click trains at {b:.2} and {:.2} BPM, second level {a}, noise {n}, configuration {alt}", b * r)
            },
            |i| {
                let (b, r, a, n, alt) = grid[i];
                let mut c = small();
                c.enable_tempogram_multi_resolution = true;
                c.enable_tempogram_percussive_fallback = true;
                c.enable_key_stft_override = false;
                c.enable_key_harmonic_mask = false;
                c.enable_key_segment_voting = false;
                c.enable_key_hpcp = false;
                if alt == 1 {
                    c.max_bpm = 300.0;
                    c.tempogram_multi_res_w256 = 1.0;
                    c.tempogram_multi_res_w512 = 0.0;
                    c.tempogram_multi_res_w1024 = 0.0;
                }
                compare(&poly(8000, 5.0, b, r, a, n), 8000, &c)
            },
        );
    }
    // lengths around the frame size and the hops
    let lens: Vec<usize> = [0usize, 1, 255, 256, 257, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 1279, 1280, 1535, 1536, 1537, 2047, 2048, 2559, 2560, 4096, 6000].to_vec();
    ctx.sweep(
        "lengths",
        lens.len() * fs.len() * 3,
        |i| {
            let mut x = Ix(i);
            format!("{} samples, parameters {}, signal {}", x.of(&lens), x.take(fs.len()), x.take(3))
        },
        |i| {
            let mut x = Ix(i);
            let n = *x.of(&lens);
            let f = &fs[x.take(fs.len())];
            let s = x.take(3);
            let a: Vec<f32> = (0..n).map(|i| match s { 0 => 0.0, 1 => lcg(3, i) * 0.5, _ => (i % 700 < 20) as u32 as f32 * 0.8 }).collect();
            fuse_case(ctx, &a, 8000, 512, f)
        },
    );
    // same-spectrogram wrapper
    let pers: Vec<usize> = (3..=ctx.pick(40, 80)).collect();
    let gg: &[(f32, f32, f32)] = &[(40.0, 240.0, 0.5), (100.0, 140.0, 0.5), (60.0, 200.0, 4.0), (115.0, 117.0, 1.0), (20.0, 900.0, 5.0), (119.8, 120.4, 1.0), (89.0, 90.6, 0.25)];
    ctx.sweep(
        "wrapper",
        pers.len() * 5 * gg.len() * 3,
        |i| {
            let mut x = Ix(i);
            format!("period {} pattern {} grid {} rate {}", x.of(&pers), x.take(5), x.take(gg.len()), x.take(3))
        },
        |i| {
            let mut x = Ix(i);
            let p = *x.of(&pers);
            let pat = x.take(5);
            let (lo, hi, res) = *x.of(gg);
            let sr = [8000, 22050, 44100][x.take(3)];
            let sp = pulses([3, 150, 210][(p + pat) % 3], 17, p, 1, pat);
            wrap_case(&sp, sr, 512, lo, hi, res)
        },
    );
    ctx.sweep(
        "wrapper_invalid",
        4,
        |i| format!("invalid {}", i),
        |i| {
            let sp = pulses(60, 9, 7, 0, 0);
            let r = match i {
                0 => multi_resolution_analysis(&[], 8000, 512, 40.0, 240.0, 1.0),
                1 => multi_resolution_analysis(&sp, 0, 512, 40.0, 240.0, 1.0),
                2 => multi_resolution_analysis(&sp, 8000, 512, 240.0, 40.0, 1.0),
                _ => multi_resolution_analysis(&sp, 8000, 512, 40.0, 240.0, 0.0),
            };
            ensure!(r.is_err(), "invalid arguments accepted");
            Ok(Obs::new(i as u64, true, 1))
        },
    );
}
/// two click trains (tempi b and r*b, levels 0.8 and a) in noise
pub fn poly(sr: u32, secs: f32, b: f32, r: f32, a: f32, noise: f32) -> Vec<f32> {
    let n = (sr as f32 * secs) as usize;
    let mut x: Vec<f32> = (0..n).map(|i| noise * lcg(5, i)).collect();
    let len = (sr as usize / 100).max(8);
    for (bpm, amp, f) in [(b, 0.8, 900.0f32), (b * r, a, 2500.0)] {
        let per = 60.0 * sr as f32 / bpm;
        let mut k = 0;
        loop {
            let t = (0.11 * sr as f32 + k as f32 * per) as usize;
            if t >= n {
                break;
            }
            for j in 0..len.min(n - t) {
                x[t + j] += amp * (1.0 - j as f32 / len as f32) * (2.0 * std::f32::consts::PI * f * j as f32 / sr as f32).sin();
            }
            k += 1;
        }
    }
    x
}

/// Two-train rhythms (tempo, ratio, second level, noise, alternative) on which one of the thresholds
/// of the escalation decides: found once by enumerating the whole grid of the thorough sweep.
#[rustfmt::skip]
pub const EDGE_RHYTHMS: &[(f32, f32, f32, f32, usize)] = &[
    (42.37, 2.0, 0.4, 0.01, 0),
    (46.37, 0.75, 0.4, 0.4, 0),
    (46.37, 2.0, 0.1, 0.01, 0),
    (46.37, 2.0, 0.4, 0.4, 0),
    (48.37, 4.0 / 3.0, 0.1, 0.01, 0),
    (48.37, 2.0, 0.1, 0.01, 0),
    (54.37, 4.0 / 3.0, 0.1, 0.01, 0),
    (54.37, 4.0 / 3.0, 0.8, 0.01, 0),
    (54.37, 2.0, 0.1, 0.01, 0),
    (56.37, 2.0, 0.1, 0.01, 0),
    (60.37, 0.75, 0.8, 0.01, 0),
    (60.37, 4.0 / 3.0, 0.8, 0.4, 1),
    (60.37, 1.5, 0.8, 0.1, 0),
    (62.37, 0.75, 0.4, 0.1, 0),
    (62.37, 3.0, 0.1, 0.1, 0),
    (66.37, 2.0, 0.1, 0.01, 1),
    (70.37, 0.75, 0.4, 0.01, 0),
    (72.37, 4.0 / 3.0, 0.4, 0.1, 0),
    (74.37, 0.75, 0.4, 0.4, 1),
    (74.37, 4.0 / 3.0, 0.4, 0.4, 0),
    (78.37, 0.75, 0.8, 0.4, 0),
    (90.37, 2.0, 0.1, 0.01, 0),
    (92.37, 4.0 / 3.0, 0.4, 0.4, 0),
    (92.37, 2.0, 0.1, 0.01, 0),
    (92.37, 3.0, 0.4, 0.01, 0),
    (94.37, 3.0, 0.8, 0.4, 0),
    (98.37, 4.0 / 3.0, 0.4, 0.01, 0),
    (116.37, 0.75, 0.8, 0.01, 0),
    (118.37, 0.75, 0.8, 0.01, 0),
    (122.37, 0.75, 0.8, 0.4, 0),
    (128.37, 0.75, 0.8, 0.4, 0),
    (128.37, 0.75, 0.8, 0.4, 1),
    (176.37, 4.0 / 3.0, 0.4, 0.01, 0),
    (178.37, 0.75, 0.4, 0.01, 1),
    (178.37, 0.75, 0.4, 0.4, 0),
    (178.37, 1.5, 0.1, 0.01, 1),
    (178.37, 1.5, 0.4, 0.01, 1),
    (178.37, 2.0, 0.1, 0.01, 1),
    (178.37, 3.0, 0.8, 0.1, 0),
    (178.37, 3.0, 0.8, 0.4, 0),
    (182.37, 0.75, 0.4, 0.1, 0),
    (194.37, 1.5, 0.8, 0.01, 0),
    (194.37, 1.5, 0.8, 0.1, 0),
    (210.37, 4.0 / 3.0, 0.8, 0.1, 0),
];
