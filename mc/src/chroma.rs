//! P08 STFT, P16 chroma/HPCP, P24 key spectrogram conditioning.
use crate::core::*;
use crate::ensure;
use std::f64::consts::PI;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::{l2_normalize_chroma, sharpen_chroma};
use stratum_dsp::features::chroma::smoothing::{smooth_chroma, smooth_chroma_average};

pub fn lcg(seed: u64, i: usize) -> f32 {
    // deterministic pseudo-noise in [-1, 1)
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i as u64).wrapping_mul(0xD1B54A32D192ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^= x >> 31;
    ((x >> 40) as f32) / ((1u64 << 23) as f32) - 1.0
}

// ---------------------------------------------------------------- STFT
/// f64 DFT magnitude of one Hann-windowed frame (naive for small, radix-2 for large powers of two)
fn ref_frame(x: &[f32]) -> Vec<f64> {
    let n = x.len();
    let w: Vec<f64> = (0..n).map(|i| x[i] as f64 * if n == 1 { 0.0 } else { 0.5 * (1.0 - (2.0 * PI * i as f64 / (n - 1) as f64).cos()) }).collect();
    if n >= 64 && n.is_power_of_two() {
        let mut re = w.clone();
        let mut im = vec![0.0; n];
        fft64(&mut re, &mut im);
        return (0..n / 2 + 1).map(|k| (re[k] * re[k] + im[k] * im[k]).sqrt()).collect();
    }
    let tw: Vec<(f64, f64)> = (0..n).map(|j| ((2.0 * PI * j as f64 / n as f64).cos(), (2.0 * PI * j as f64 / n as f64).sin())).collect();
    (0..n / 2 + 1)
        .map(|k| {
            let (mut a, mut b) = (0.0, 0.0);
            for i in 0..n {
                let t = tw[(i * k) % n];
                a += w[i] * t.0;
                b -= w[i] * t.1;
            }
            (a * a + b * b).sqrt()
        })
        .collect()
}
fn fft64(re: &mut [f64], im: &mut [f64]) {
    let n = re.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let a = -2.0 * PI * k as f64 / len as f64;
                let (c, d) = (a.cos(), a.sin());
                let (p, q) = (s + k, s + k + len / 2);
                let (xr, xi) = (re[q] * c - im[q] * d, re[q] * d + im[q] * c);
                re[q] = re[p] - xr;
                im[q] = im[p] - xi;
                re[p] += xr;
                im[p] += xi;
            }
        }
        len <<= 1;
    }
}

fn stft_case(x: &[f32], fs: usize, hop: usize) -> CaseResult {
    let got = compute_stft(x, fs, hop).map_err(|e| format!("error {}", e))?;
    let nf = if x.len() < fs { 0 } else { (x.len() - fs) / hop + 1 };
    ensure!(got.len() == nf, "{} frames from {} samples, expected {}", got.len(), x.len(), nf);
    let mut h = H::new().u(nf as u64).u(fs as u64);
    for (t, g) in got.iter().enumerate() {
        ensure!(g.len() == fs / 2 + 1, "frame {} has {} bins", t, g.len());
        let seg = &x[t * hop..t * hop + fs];
        let r = ref_frame(seg);
        let l1: f64 = seg.iter().map(|v| v.abs() as f64).sum::<f64>().max(1e-12);
        for k in 0..g.len() {
            ensure!((g[k] as f64 - r[k]).abs() <= 2e-5 * l1, "frame {} bin {}: {} expected {}", t, k, g[k], r[k]);
        }
        h = h.u((r.iter().sum::<f64>() * 16.0) as u64);
    }
    Ok(Obs::new(h.done(), nf > 0 && x.iter().any(|v| *v != 0.0), 1))
}

pub fn signal(kind: usize, n: usize) -> Vec<f32> {
    (0..n)
        .map(|i| match kind {
            0 => 0.0,
            1 => 0.5,
            2 => if i % 2 == 0 { 0.7 } else { -0.7 },
            3 => ((i as f64 * 0.37).sin() * 0.8) as f32,
            4 => if i + 1 == n { 1.0 } else { 0.0 },
            5 => if i == 0 { 1.0 } else { 0.0 },
            6 => lcg(7, i),
            7 => ((i as f64 * 0.011).sin() * 0.5 + (i as f64 * 0.7).sin() * 0.25) as f32 + 0.05 * lcg(3, i),
            8 => 1e-6 * lcg(5, i),
            _ => if i % 97 == 0 { 0.9 } else { 0.0 },
        })
        .collect()
}

pub fn p08(ctx: &Ctx) {
    ctx.rule("every (length, frame size, hop, signal) of the stated grids against a f64 DFT of the Hann-windowed frame; nontrivial = at least one frame of a non-silent signal");
    ctx.assume("magnitudes agree within 2e-5 of the frame's L1 norm (single-precision FFT rounding)");
    // all small geometries, all unit impulses
    let fmax = ctx.pick(10usize, 16);
    let lmax = 2 * fmax + 4;
    let n = fmax * fmax * (lmax + 1);
    ctx.sweep("small_geometry", n * 4, |i| format!("frame {} hop {} len {} kind {}", i / 4 % fmax + 1, i / 4 / fmax % fmax + 1, i / 4 / fmax / fmax, [2, 3, 6, 4][i % 4]), |i| {
        let (fs, hop, len) = (i / 4 % fmax + 1, i / 4 / fmax % fmax + 1, i / 4 / fmax / fmax);
        stft_case(&signal([2, 3, 6, 4][i % 4], len), fs, hop)
    });
    let imax = ctx.pick(24usize, 64);
    ctx.sweep("impulses", imax * imax, |i| format!("frame {} impulse {}", i / imax + 1, i % imax), |i| {
        let fs = i / imax + 1;
        let mut x = vec![0.0f32; imax];
        x[i % imax] = 1.0;
        stft_case(&x, fs, (fs / 2).max(1))
    });
    let fss = ctx.pick(vec![64usize, 100, 128, 255, 256, 257, 512, 1024, 2048, 4096], vec![64, 96, 100, 128, 255, 256, 257, 441, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8192, 16384]);
    let mut cases = vec![];
    for &fs in &fss {
        for hop in [1usize.max(fs / 8), fs / 4, fs / 2, fs, fs + 3] {
            for nfr in [1usize, 2, 3, 5, 8] {
                for d in [-1i64, 0, 1] {
                    let len = (fs + (nfr - 1) * hop) as i64 + d;
                    for kind in [1usize, 3, 6, 7, 8] {
                        if fs > 1024 && !fs.is_power_of_two() && (nfr > 2 || kind == 1) {
                            continue;
                        }
                        cases.push((fs, hop, len as usize, kind));
                    }
                }
            }
        }
    }
    ctx.sweep("typical_geometry", cases.len(), |i| format!("(frame, hop, len, kind) {:?}", cases[i]), |i| {
        let (fs, hop, len, kind) = cases[i];
        stft_case(&signal(kind, len), fs, hop)
    });
    // many frames: a block boundary in a long file
    let longs: Vec<(usize, usize, usize)> = vec![(64, 16, 300), (64, 16, 1025), (256, 64, 513), (256, 64, 4097), (512, 128, 2050), (2048, 512, 900), (8, 3, 66_000), (4, 441, 38_100)]; // more than 2^16 frames; positions beyond 2^24
    let longs: Vec<(usize, usize, usize)> = longs.into_iter().chain(ctx.pick(vec![], vec![(64, 16, 20_000), (128, 1, 70_000), (2048, 512, 10_400)])).collect();
    ctx.sweep("many_frames", longs.len(), |i| format!("(frame, hop, frames) {:?}", longs[i]), |i| {
        let (fs, hop, nf) = longs[i];
        stft_case(&signal(if nf > 30_000 { 6 } else { 7 }, fs + (nf - 1) * hop + hop / 2), fs, hop)
    });
    ctx.sweep("invalid", 4, |i| format!("invalid {}", i), |i| {
        let x = signal(3, 100);
        let r = match i {
            0 => compute_stft(&x, 0, 4),
            1 => compute_stft(&x, 16, 0),
            2 => compute_stft(&x, 0, 0),
            _ => compute_stft(&[], 16, 0),
        };
        ensure!(r.is_err(), "zero frame/hop accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
    // the chroma front end is the same STFT followed by the same mapping
    ctx.sweep("front_end", 4 * 3 * 2, |i| format!("sr/fs/soft {}", i), |i| {
        let mut x = Ix(i);
        let sr = *x.of(&[8000u32, 22050, 44100, 48000]);
        let (fs, hop) = *x.of(&[(512usize, 128usize), (2048, 512), (1024, 1000)]);
        let soft = x.take(2) == 1;
        let s = signal(7, fs + 5 * hop + 3);
        let a = extract_chroma_with_options(&s, sr, fs, hop, soft, 0.5).map_err(|e| e.to_string())?;
        let b = extract_chroma_from_spectrogram_with_options(&compute_stft(&s, fs, hop).map_err(|e| e.to_string())?, sr, fs, soft, 0.5).map_err(|e| e.to_string())?;
        ensure!(a == b, "chroma from samples differs from chroma of the samples' spectrogram");
        if soft {
            ensure!(a == extract_chroma(&s, sr, fs, hop).map_err(|e| e.to_string())?, "default options differ");
        }
        Ok(Obs::new(H::new().fs(&a[0]).done(), true, 3))
    });
}

// ---------------------------------------------------------------- chroma
fn semis(f: f64, tune: f64) -> f64 {
    12.0 * (f / 440.0).log2() + 57.0 - tune
}
fn unit(v: &mut [f64]) -> bool {
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n > 1e-10 {
        v.iter_mut().for_each(|x| *x /= n);
        true
    } else {
        false
    }
}
/// bins whose band membership or nearest semitone cannot be decided beyond f32 rounding
fn undecidable(bin: usize, sr: u32, fft: usize, tune: f64, lo: f64, hi: f64) -> bool {
    let f = bin as f64 * sr as f64 / fft as f64;
    let g = bin as f32 * (sr as f32 / fft as f32);
    for e in [lo, hi, sr as f64 / 2.0] {
        if (f < e) != ((g as f64) < e) || (f > e) != ((g as f64) > e) {
            return true;
        }
    }
    if f <= 0.0 {
        return false;
    }
    let s = semis(f, tune);
    ((s - s.floor()) - 0.5).abs() < 2e-4
}
fn spread(pc: &mut [f64], s: f64, c: f64, sigma: f64) {
    let p = s.rem_euclid(12.0);
    let prim = (p.round() as i64).rem_euclid(12);
    for o in -1..=1 {
        let t = (prim + o).rem_euclid(12);
        let mut d = (p - t as f64).abs();
        d = d.min(12.0 - d);
        pc[t as usize] += c * (-d * d / (2.0 * sigma * sigma)).exp();
    }
}
fn ref_chroma(frame: &[f32], sr: u32, fft: usize, soft: bool, sigma: f64, tune: f64) -> Vec<f64> {
    let mut v = vec![0.0; 12];
    let sigma = sigma.max(1e-6);
    for (b, &m) in frame.iter().enumerate() {
        let f = b as f64 * sr as f64 / fft as f64;
        if f < 100.0 || f > 5000.0 || f >= sr as f64 / 2.0 {
            continue;
        }
        let c = (m.max(0.0) as f64).powf(0.6);
        let s = semis(f, tune);
        if soft {
            spread(&mut v, s, c, sigma);
        } else {
            v[(s.round() as i64).rem_euclid(12) as usize] += c;
        }
    }
    unit(&mut v);
    v
}
fn same12(got: &[f32], want: &[f64], tol: f64) -> Result<(), String> {
    ensure!(got.len() == 12, "chroma vector has {} elements", got.len());
    for j in 0..12 {
        ensure!((got[j] as f64 - want[j]).abs() <= tol, "pitch class {}: {} expected {:.6} (got {:?})", j, got[j], want[j], got);
    }
    Ok(())
}
fn clean(frame: &mut [f32], sr: u32, fft: usize, tune: f64, bands: &[f64]) {
    for b in 0..frame.len() {
        for w in bands.chunks(2) {
            if undecidable(b, sr, fft, tune, w[0], w[1]) {
                frame[b] = 0.0;
            }
        }
    }
}
fn chroma_obs(v: &[f64], steps: u64) -> CaseResult {
    let best = (0..12).max_by(|a, b| v[*a].partial_cmp(&v[*b]).unwrap()).unwrap();
    let mut h = H::new().u(best as u64);
    for x in v {
        h = h.u((x * 50.0).round() as u64);
    }
    Ok(Obs::new(h.done(), v[best] > 0.0, steps))
}

const RATES: [u32; 9] = [150, 8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000];

struct Hp {
    sigma: f64,
    tune: f64,
    k: usize,
    nh: usize,
    decay: f64,
    p: f64,
    white: bool,
    wb: usize,
}
/// None = a peak decision is within rounding
fn ref_hpcp(frame: &[f32], sr: u32, fft: usize, o: &Hp, lo: f64, hi: f64) -> Option<Vec<f64>> {
    let mut pc = vec![0.0; 12];
    let res = sr as f64 / fft as f64;
    let lo = lo.max(20.0);
    let hi = hi.min(sr as f64 / 2.0);
    if frame.is_empty() || hi <= lo {
        return Some(pc);
    }
    let n = frame.len();
    let white = o.white && o.wb >= 3;
    let val: Vec<f64> = if white {
        let half = (o.wb.max(3) | 1) / 2;
        (0..n)
            .map(|i| {
                let (l, r) = (i.saturating_sub(half), (i + half).min(n - 1));
                let m = (l..=r).map(|j| frame[j].max(0.0) as f64).sum::<f64>() / (r + 1 - l) as f64;
                (frame[i].max(0.0) as f64 / (m + 1e-12)).min(20.0)
            })
            .collect()
    } else {
        frame.iter().map(|x| *x as f64).collect()
    };
    // the whitening denominator is a difference of single-precision prefix sums
    let total: f64 = frame.iter().map(|x| x.max(0.0) as f64).sum();
    let least = if white {
        let half = (o.wb.max(3) | 1) / 2;
        (0..n).map(|i| (i.saturating_sub(half)..=(i + half).min(n - 1)).map(|j| frame[j].max(0.0) as f64).sum::<f64>()).filter(|s| *s > 0.0).fold(f64::MAX, f64::min)
    } else {
        1.0
    };
    let tol = if white { 2e-4f64.max(1e-6 * total / least).min(0.05) } else { 0.0 };
    let near = |a: f64, b: f64| a != b && (a - b).abs() <= tol * a.abs().max(b.abs());
    // whitened ties are only exact when both operands are exact (0 or capped)
    let exact = |a: f64| !white || a == 0.0 || a == 20.0;
    let mut peaks = vec![];
    for b in 1..n.saturating_sub(1) {
        let f = b as f64 * res;
        if f < lo {
            continue;
        }
        if f > hi {
            break;
        }
        let (m, p, q) = (val[b], val[b - 1], val[b + 1]);
        if near(m, p) || near(m, q) || (m == p && !exact(m)) || (m == q && !exact(m)) {
            return None;
        }
        if m <= p || m < q {
            continue;
        }
        peaks.push((b, m));
    }
    if peaks.is_empty() {
        return Some(pc);
    }
    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    let k = o.k.clamp(1, peaks.len());
    if k < peaks.len() && (peaks[k - 1].1 == peaks[k].1 || near(peaks[k - 1].1, peaks[k].1)) {
        return None;
    }
    peaks.truncate(k);
    let sigma = o.sigma.max(1e-6);
    let decay = o.decay.clamp(0.0, 1.0);
    let pw = o.p.clamp(0.05, 1.0);
    for (b, _) in peaks {
        let f0 = b as f64 * res;
        let w0 = (frame[b].max(0.0) as f64).powf(pw);
        if w0 <= 0.0 {
            continue;
        }
        for h in 1..=o.nh.max(1) {
            let f = f0 * h as f64;
            if (f - hi).abs() < 1e-4 * hi && h > 1 {
                return None;
            }
            if f > hi {
                break;
            }
            let s = semis(f, o.tune);
            if ((s - s.floor()) - 0.5).abs() < 2e-4 {
                return None;
            }
            spread(&mut pc, s, w0 * decay.powi(h as i32 - 1) / h as f64, sigma);
        }
    }
    unit(&mut pc);
    Some(pc)
}

fn spec_frame(kind: usize, n: usize, seed: usize) -> Vec<f32> {
    (0..n)
        .map(|b| match kind {
            0 => lcg(seed as u64 + 11, b).abs(),
            1 => if b % 7 == seed % 7 { 1.0 + lcg(seed as u64, b).abs() } else { 0.01 * lcg(seed as u64 + 1, b).abs() },
            2 => 3.0 / (1.0 + b as f32) + 0.2 * lcg(seed as u64 + 2, b).abs(),
            3 => lcg(seed as u64 + 5, b), // includes negative magnitudes (treated as zero)
            _ => if b == (seed * 37 + 11) % n { 2.5 } else { 0.0 },
        })
        .collect()
}

pub fn p16(ctx: &Ctx) {
    ctx.rule("every bin / frame kind / parameter combination of the stated grids through every chroma, HPCP, log-frequency, beat-synchronous, smoothing and sharpening entry point vs an independent f64 reference; nontrivial = non-zero chroma");
    ctx.assume("bins whose semitone lies within 2e-4 of a rounding boundary are silenced in the generated spectra; unit-norm components agree within 3e-4");
    let ffts = ctx.pick(vec![256usize, 2048, 4096], vec![256, 512, 1000, 1024, 2048, 4096, 8192]);
    let tunes = [0.0f32, 0.31, -0.47];
    // every single FFT bin: pitch-class mapping
    for &fft in &ffts {
        let nb = fft / 2 + 1;
        let n = RATES.len() * nb * 2 * tunes.len();
        ctx.sweep(&format!("single_bin_{}", fft), n, |i| {
            let mut x = Ix(i);
            format!("sr {} soft {} tuning {} bin {}", x.of(&RATES), x.take(2), x.of(&tunes), x.0)
        }, |i| {
            let mut x = Ix(i);
            let sr = *x.of(&RATES);
            let soft = x.take(2) == 1;
            let tune = *x.of(&tunes);
            let bin = x.0;
            if undecidable(bin, sr, fft, tune as f64, 100.0, 5000.0) {
                ctx.ambiguous();
                return Ok(Obs::new(0, false, 0));
            }
            let mut f = vec![0.0f32; nb];
            f[bin] = 0.37;
            let (c, e) = extract_chroma_from_spectrogram_with_options_and_energy_tuned(&[f.clone()], sr, fft, soft, 0.5, tune).map_err(|e| e.to_string())?;
            ensure!((e[0] - 0.37f32 * 0.37).abs() < 1e-5, "energy {}", e[0]);
            let r = ref_chroma(&f, sr, fft, soft, 0.5, tune as f64);
            same12(&c[0], &r, 3e-4)?;
            chroma_obs(&r, 1)
        });
    }
    // broadband frames
    let nfr = ctx.pick(6usize, 40);
    let sig = [0.5f32, 0.1, 1.5, 0.0];
    let nk = 5;
    let nn = ffts.len() * RATES.len() * 2 * sig.len() * tunes.len() * nk;
    ctx.sweep("frames", nn * nfr / 2, |i| format!("params {} seed {}", i % nn, i / nn), |i| {
        let mut x = Ix(i % nn);
        let fft = *x.of(&ffts);
        let sr = *x.of(&RATES);
        let soft = x.take(2) == 1;
        let sg = *x.of(&sig);
        let tune = *x.of(&tunes);
        let kind = x.take(nk);
        let mut fr: Vec<Vec<f32>> = (0..2).map(|j| spec_frame(kind, fft / 2 + 1, i / nn * 2 + j)).collect();
        for f in fr.iter_mut() {
            clean(f, sr, fft, tune as f64, &[100.0, 5000.0]);
        }
        let (c, e) = extract_chroma_from_spectrogram_with_options_and_energy_tuned(&fr, sr, fft, soft, sg, tune).map_err(|e| e.to_string())?;
        ensure!(c.len() == 2 && e.len() == 2, "{} vectors for 2 frames", c.len());
        let mut last = vec![];
        for j in 0..2 {
            let r = ref_chroma(&fr[j], sr, fft, soft, sg as f64, tune as f64);
            if sg > 0.0 {
                same12(&c[j], &r, 3e-4)?;
            }
            let en: f64 = fr[j].iter().map(|v| (*v as f64).powi(2)).sum();
            ensure!(closed(e[j] as f64, en, 1e-4, 1e-9), "energy {} expected {}", e[j], en);
            for v in &c[j] {
                ensure!(v.is_finite() && *v >= 0.0, "chroma component {}", v);
            }
            last = r;
        }
        if tune == 0.0 {
            let d = extract_chroma_from_spectrogram_with_options(&fr, sr, fft, soft, sg).map_err(|e| e.to_string())?;
            let (d2, e2) = extract_chroma_from_spectrogram_with_options_and_energy(&fr, sr, fft, soft, sg).map_err(|e| e.to_string())?;
            ensure!(d == c && d2 == c && e2 == e, "entry points disagree at zero tuning");
        }
        chroma_obs(&last, 3)
    });
    // loudness: pitch-class distribution does not depend on level
    let gains = [1e-4f32, 1e-2, 10.0, 1e3];
    ctx.sweep("gain", gains.len() * 5 * 4, |i| format!("gain {} kind {} soft/rate {}", gains[i % 4], i / 4 % 5, i / 20), |i| {
        let g = gains[i % 4];
        let kind = i / 4 % 5;
        let sr = [22050u32, 44100][i / 20 % 2];
        let soft = i / 40 == 1;
        let f = spec_frame(kind, 1025, 3);
        let s: Vec<f32> = f.iter().map(|x| x * g).collect();
        let a = extract_chroma_from_spectrogram_with_options(&[f], sr, 2048, soft, 0.5).map_err(|e| e.to_string())?;
        let b = extract_chroma_from_spectrogram_with_options(&[s], sr, 2048, soft, 0.5).map_err(|e| e.to_string())?;
        let r: Vec<f64> = a[0].iter().map(|x| *x as f64).collect();
        same12(&b[0], &r, 1e-4)?;
        chroma_obs(&r, 2)
    });
    // frame independence over long spectrograms: frame t of a long input == that frame alone
    ctx.sweep("frame_independence", 6, |i| format!("{}", i), |i| {
        let n = [3usize, 64, 257, 1025, 2049, 4097][i];
        let fr: Vec<Vec<f32>> = (0..n).map(|j| spec_frame(j % 5, 129, j / 3)).collect();
        let c = extract_chroma_from_spectrogram_with_options(&fr, 8000, 256, true, 0.5).map_err(|e| e.to_string())?;
        let (c2, _) = extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&fr, 8000, 256, 0.5, 0.0, 24, 4, 0.6, 0.5, true, 31).map_err(|e| e.to_string())?;
        ensure!(c.len() == n && c2.len() == n, "{} vectors for {} frames", c.len(), n);
        for t in 0..n {
            let one = extract_chroma_from_spectrogram_with_options(&fr[t..t + 1], 8000, 256, true, 0.5).map_err(|e| e.to_string())?;
            let (two, _) = extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&fr[t..t + 1], 8000, 256, 0.5, 0.0, 24, 4, 0.6, 0.5, true, 31).map_err(|e| e.to_string())?;
            ensure!(one[0] == c[t] && two[0] == c2[t], "frame {} depends on its neighbours", t);
        }
        Ok(Obs::new(n as u64, true, n as u64))
    });
    // HPCP
    let ks = [0usize, 1, 3, 24, 1000];
    let nhs = [0usize, 1, 4, 8];
    let dp = [(0.6f32, 0.5f32), (1.0, 1.0), (0.0, 0.0), (1.7, 2.0)];
    let wh = [(false, 0usize), (true, 2), (true, 3), (true, 8), (true, 31)];
    let hf = ctx.pick(vec![256usize, 2048], vec![256, 1024, 2048, 8192]);
    let hrates = [150u32, 8000, 22050, 44100, 48000];
    let bass = [(55.0f32, 300.0f32, 0.35f32), (10.0, 200.0, 1.0), (300.0, 100.0, 0.5), (40.0, 250.0, 0.0), (40.0, 250.0, 3.0)];
    let nh = ks.len() * nhs.len() * dp.len() * wh.len() * hf.len() * hrates.len();
    let seeds = ctx.pick(2usize, 8);
    ctx.sweep("hpcp", nh * seeds, |i| format!("params {} seed {}", i % nh, i / nh), |i| {
        let mut x = Ix(i % nh);
        let k = *x.of(&ks);
        let nhm = *x.of(&nhs);
        let (dec, p) = *x.of(&dp);
        let (w, wb) = *x.of(&wh);
        let fft = *x.of(&hf);
        let sr = *x.of(&hrates);
        let seed = i / nh;
        let tune = [0.0f32, 0.23][seed % 2];
        let (blo, bhi, bw) = bass[i % bass.len()];
        let mut fr = spec_frame([2, 1, 0, 4][(i / 3 + seed) % 4], fft / 2 + 1, seed + i % 13);
        clean(&mut fr, sr, fft, tune as f64, &[100.0, 5000.0, blo.max(20.0) as f64, bhi as f64]);
        let o = Hp { sigma: 0.5, tune: tune as f64, k, nh: nhm, decay: dec as f64, p: p as f64, white: w, wb };
        let fs = vec![fr.clone()];
        let (c, e) = extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&fs, sr, fft, 0.5, tune, k, nhm, dec, p, w, wb).map_err(|e| e.to_string())?;
        let en: f64 = fr.iter().map(|v| (*v as f64).powi(2)).sum();
        ensure!(closed(e[0] as f64, en, 1e-4, 1e-9), "energy {}", e[0]);
        let full = ref_hpcp(&fr, sr, fft, &o, 100.0, 5000.0);
        if let Some(r) = &full {
            same12(&c[0], r, 5e-4)?;
        } else {
            ctx.ambiguous();
        }
        let (cb, eb) = extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&fs, sr, fft, 0.5, tune, k, nhm, dec, p, w, wb, blo, bhi, bw).map_err(|e| e.to_string())?;
        ensure!(eb == e, "bass blend changes the energies");
        let ob = Hp { k: k.clamp(1, 12), ..o };
        if let (Some(f), Some(b)) = (&full, ref_hpcp(&fr, sr, fft, &ob, blo as f64, bhi as f64)) {
            let ww = (bw as f64).clamp(0.0, 1.0);
            let mut m: Vec<f64> = (0..12).map(|j| (1.0 - ww) * f[j] + ww * b[j]).collect();
            unit(&mut m);
            same12(&cb[0], &m, 5e-4)?;
        }
        chroma_obs(full.as_deref().unwrap_or(&[0.0; 12]), 2)
    });
    // log-frequency spectrogram and its chroma
    let bands = [(100.0f32, 5000.0f32), (55.0, 2000.0), (10.0, 30000.0), (440.0, 880.0), (200.0, 230.0)];
    let nl = ffts.len() * RATES.len() * bands.len();
    ctx.sweep("log_frequency", nl * nfr, |i| format!("params {} seed {}", i % nl, i / nl), |i| {
        let mut x = Ix(i % nl);
        let fft = *x.of(&ffts);
        let sr = *x.of(&RATES);
        let (lo, hi) = *x.of(&bands);
        let seed = i / nl;
        let mut fr = spec_frame(seed % 5, fft / 2 + 1, seed);
        let l = (lo as f64).max(20.0);
        let h = (hi as f64).min(sr as f64 / 2.0 - 1.0);
        let got = convert_linear_to_log_frequency_spectrogram(&[fr.clone()], sr, fft, lo, hi);
        if l >= h {
            ensure!(got.is_err(), "empty band accepted");
            return Ok(Obs::new(1, true, 1));
        }
        clean(&mut fr, sr, fft, 0.0, &[l, h]);
        let got = convert_linear_to_log_frequency_spectrogram(&[fr.clone()], sr, fft, lo, hi).map_err(|e| e.to_string())?;
        let smin = semis(l, 0.0).floor() as i64;
        let smax = semis(h, 0.0).ceil() as i64;
        let nb = (smax - smin + 1) as usize;
        ensure!(got[0].len() == nb, "{} semitone bins, expected {}", got[0].len(), nb);
        let mut want = vec![0.0; nb];
        for (b, &m) in fr.iter().enumerate() {
            let f = b as f64 * sr as f64 / fft as f64;
            if m <= 0.0 || f < l || f >= h {
                continue;
            }
            let s = semis(f, 0.0) - smin as f64;
            let a = s.floor() as usize;
            want[a] += m as f64 * (1.0 - (s - a as f64));
            if a + 1 < nb {
                want[a + 1] += m as f64 * (s - a as f64);
            }
        }
        let tot: f64 = want.iter().sum();
        for b in 0..nb {
            ensure!((got[0][b] as f64 - want[b]).abs() <= 1e-4 * tot.max(1e-9), "semitone bin {}: {} expected {}", b, got[0][b], want[b]);
        }
        let off = smin as i32;
        let c = extract_chroma_from_log_frequency_spectrogram(&got, off).map_err(|e| e.to_string())?;
        let mut r = vec![0.0; 12];
        for b in 0..nb {
            r[(off as i64 + b as i64).rem_euclid(12) as usize] += (got[0][b] as f64).max(0.0);
        }
        unit(&mut r);
        same12(&c[0], &r, 3e-4)?;
        chroma_obs(&r, 2)
    });
    ctx.sweep("log_chroma_offsets", 120 * 30, |i| format!("offset {} bin {}", i / 30, i % 30), |i| {
        let off = i as i32 / 30 - 60;
        let mut f = vec![0.0f32; 30];
        f[i % 30] = 0.8;
        f[(i + 7) % 30] = -0.8;
        let c = extract_chroma_from_log_frequency_spectrogram(&[f], off).map_err(|e| e.to_string())?;
        let mut r = vec![0.0; 12];
        r[(off + (i % 30) as i32).rem_euclid(12) as usize] = 1.0;
        same12(&c[0], &r, 1e-5)?;
        chroma_obs(&r, 1)
    });
    // beat-synchronous chroma: every beat vector over a small grid of times
    let times = [-0.1f32, 0.0, 0.03125, 0.0625, 0.1, 0.25, 0.3125, 0.5, 0.51, 2.0];
    let fr8: Vec<Vec<f32>> = (0..8).map(|t| spec_frame(t % 3, 129, t)).collect();
    let nbt = ctx.pick(4u32, 5);
    ctx.sweep("beat_sync", times.len().pow(nbt) * 2, |i| format!("beat vector {} soft {}", i / 2, i % 2), |i| {
        let mut x = Ix(i / 2);
        let mut bt: Vec<f32> = (0..nbt).map(|_| *x.of(&times)).collect();
        let len = 1 + (i / 2 * 7 + 3) % nbt as usize;
        bt.truncate(len.max(2));
        bt.sort_by(|a, b| a.partial_cmp(b).unwrap());
        beat_sync_case(&fr8, 8192, 256, 512, &bt, i % 2 == 1, 0.1)
    });
    ctx.sweep("beat_sync_typical", 8 * 3, |i| format!("{}", i), |i| {
        let (sr, fft, hop) = [(44100u32, 2048usize, 512usize), (48000, 2048, 512), (44100, 8192, 512)][i % 3];
        let fr: Vec<Vec<f32>> = (0..120).map(|t| spec_frame(t % 5, fft / 2 + 1, t)).collect();
        let bpm = [60.0f32, 85.3, 100.0, 120.0, 128.7, 140.2, 174.1, 240.0][i / 3];
        let bt: Vec<f32> = (0..6).map(|k| 0.0137 + k as f32 * 60.0 / bpm).collect();
        beat_sync_case(&fr, sr, fft, hop, &bt, true, 0.0)
    });
    ctx.sweep("beat_sync_edges", 3, |i| format!("edge {}", i), |i| {
        let r = match i {
            0 => extract_beat_synchronous_chroma(&[], 8192, 256, 512, &[0.0, 1.0], true, 0.5, 0.0),
            1 => extract_beat_synchronous_chroma(&fr8, 8192, 256, 512, &[], true, 0.5, 0.0),
            _ => extract_beat_synchronous_chroma(&fr8, 8192, 256, 512, &[0.25], true, 0.5, 0.0),
        };
        match i {
            1 => ensure!(r.is_err(), "no beats accepted"),
            _ => {
                let r = r.map_err(|e| e.to_string())?;
                ensure!(r.0.is_empty() && r.1.is_empty(), "vectors without an interval");
            }
        }
        Ok(Obs::new(i as u64, true, 1))
    });
    // temporal smoothing: every short history over a value alphabet
    let vals = [0.0f32, 0.25, 0.5, 1.0];
    let hl = ctx.pick(6u32, 8);
    let wins = [0usize, 1, 2, 3, 4, 5, 7, 9, 100];
    ctx.sweep("smoothing", vals.len().pow(hl) * wins.len(), |i| format!("history base-4 {} window {}", i / wins.len(), wins[i % wins.len()]), |i| {
        let w = wins[i % wins.len()];
        let mut x = Ix(i / wins.len());
        let len = hl as usize - (i / wins.len()) % 3;
        let v: Vec<f32> = (0..len).map(|_| *x.of(&vals)).collect();
        smooth_case(&v, w)
    });
    let sl = [63usize, 64, 65, 128, 256, 257, 512, 1023, 1025, 5000];
    ctx.sweep("smoothing_long", sl.len() * wins.len(), |i| format!("n {} window {}", sl[i / wins.len()], wins[i % wins.len()]), |i| {
        let v: Vec<f32> = (0..sl[i / wins.len()]).map(|t| lcg(9, t).abs()).collect();
        smooth_case(&v, wins[i % wins.len()])
    });
    // sharpening / normalisation
    let pw = [0.0f32, 0.5, 1.0, 1.5, 2.0, 4.0];
    ctx.sweep("sharpen", 4096 * pw.len(), |i| format!("set {:#x} power {}", i / pw.len(), pw[i % pw.len()]), |i| {
        let p = pw[i % pw.len()];
        let m = i / pw.len();
        let v: Vec<f32> = (0..12).map(|j| if m >> j & 1 == 1 { 0.2 + 0.05 * j as f32 } else { 0.0 }).collect();
        let s = sharpen_chroma(&v, p);
        let l = l2_normalize_chroma(&v);
        let mut a: Vec<f64> = v.iter().map(|x| (*x as f64).powf(p as f64)).collect();
        let mut b: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        if !unit(&mut a) {
            a = vec![1.0 / 12f64.sqrt(); 12];
        }
        if !unit(&mut b) {
            b = vec![1.0 / 12f64.sqrt(); 12];
        }
        same12(&s, &a, 1e-4)?;
        same12(&l, &b, 1e-4)?;
        chroma_obs(&a, 2)
    });
}

fn beat_sync_case(fr: &[Vec<f32>], sr: u32, fft: usize, hop: usize, bt: &[f32], soft: bool, tune: f32) -> CaseResult {
    let (c, e) = extract_beat_synchronous_chroma(fr, sr, fft, hop, bt, soft, 0.5, tune).map_err(|e| e.to_string())?;
    ensure!(c.len() == bt.len() - 1 && e.len() == bt.len() - 1, "{} vectors for {} intervals", c.len(), bt.len() - 1);
    let (per, en) = extract_chroma_from_spectrogram_with_options_and_energy_tuned(fr, sr, fft, soft, 0.5, tune).map_err(|e| e.to_string())?;
    let mut h = H::new();
    let mut any = false;
    for k in 0..c.len() {
        let mut want = vec![0.0f64; 12];
        let mut we = 0.0f64;
        let mut n = 0;
        for t in 0..fr.len() {
            let ft = t as f64 * hop as f64 / sr as f64;
            let f32t = t as f32 * (hop as f32 / sr as f32);
            let ins = ft >= bt[k] as f64 && ft < bt[k + 1] as f64;
            if ins != (f32t >= bt[k] && f32t < bt[k + 1]) {
                return Ok(Obs::new(0, false, 1)); // boundary within rounding
            }
            if ins {
                n += 1;
                we += en[t] as f64;
                for j in 0..12 {
                    want[j] += per[t][j] as f64;
                }
            }
        }
        if n > 0 {
            any = true;
            want.iter_mut().for_each(|x| *x /= n as f64);
            unit(&mut want);
        }
        same12(&c[k], &want, 1e-4)?;
        ensure!(closed(e[k] as f64, we, 1e-4, 1e-9), "interval energy {} expected {}", e[k], we);
        h = h.u(n);
    }
    Ok(Obs::new(h.done(), any, 1))
}

fn smooth_case(v: &[f32], w: usize) -> CaseResult {
    let n = v.len();
    // 12 classes: the history, shifted copies and constants, to show classes are independent
    let ch: Vec<Vec<f32>> = (0..n).map(|t| (0..12).map(|j| if j == 3 { 0.4 } else { v[(t + j) % n] }).collect()).collect();
    let m = smooth_chroma(&ch, w);
    let a = smooth_chroma_average(&ch, w);
    ensure!(m.len() == n && a.len() == n, "length changed");
    let odd = if w > 1 && w % 2 == 0 { w + 1 } else { w };
    for t in 0..n {
        ensure!(m[t].len() == 12 && a[t].len() == 12, "class count changed");
        for j in 0..12 {
            let (wm, wa) = if w <= 1 {
                (ch[t][j], ch[t][j] as f64)
            } else {
                let h = odd / 2;
                let mut x: Vec<f32> = (t.saturating_sub(h)..(t + h + 1).min(n)).map(|k| ch[k][j]).collect();
                x.sort_by(|p, q| p.partial_cmp(q).unwrap());
                let lo = t.saturating_sub(w / 2);
                let hi = (t + w - w / 2).min(n); // window offsets -w/2 .. w-1-w/2
                let y: f64 = (lo..hi).map(|k| ch[k][j] as f64).sum::<f64>() / (hi - lo) as f64;
                (x[x.len() / 2], y)
            };
            ensure!(m[t][j] == wm, "median frame {} class {}: {} expected {}", t, j, m[t][j], wm);
            ensure!((a[t][j] as f64 - wa).abs() < 1e-5, "average frame {} class {}: {} expected {}", t, j, a[t][j], wa);
        }
    }
    Ok(Obs::new(H::new().fs(&m[n / 2]).u(w as u64).done(), w > 1, 2))
}

// ---------------------------------------------------------------- key spectrogram conditioning
fn ref_smooth(x: &[Vec<f32>], margin: usize) -> Vec<Vec<f64>> {
    let n = x.len();
    (0..n)
        .map(|t| {
            let (a, b) = (t.saturating_sub(margin), (t + margin + 1).min(n));
            (0..x[0].len()).map(|k| (a..b).map(|u| x[u][k] as f64).sum::<f64>() / (b - a) as f64).collect()
        })
        .collect()
}
fn med(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v[v.len() / 2]
}

fn cond_case(x: &[Vec<f32>], margin: usize, p: f32) -> CaseResult {
    let (n, nb) = (x.len(), x[0].len());
    let s = smooth_spectrogram_time(x, margin).map_err(|e| e.to_string())?;
    let r = ref_smooth(x, margin);
    let h = harmonic_spectrogram_time_mask(x, margin, p).map_err(|e| e.to_string())?;
    ensure!(s.len() == n && h.len() == n, "frame count changed");
    let pw = (p as f64).max(1.0);
    let mut acc = H::new();
    for b in 0..nb {
        let tot: f64 = x.iter().map(|f| f[b].abs() as f64).sum::<f64>();
        for t in 0..n {
            ensure!(s[t].len() == nb && h[t].len() == nb, "bin count changed");
            ensure!((s[t][b] as f64 - r[t][b]).abs() <= 2e-6 * tot + 1e-7 * r[t][b].abs(), "smoothed [{}][{}] = {} expected {}", t, b, s[t][b], r[t][b]);
            let xv = (x[t][b] as f64).max(0.0);
            let hv = (s[t][b] as f64).max(0.0); // compose with the (checked) smoother
            let rv = (xv - hv).max(0.0);
            let m = hv.powf(pw) / (hv.powf(pw) + rv.powf(pw) + 1e-12);
            ensure!((h[t][b] as f64 - xv * m).abs() <= 1e-4 * xv + 1e-7, "masked [{}][{}] = {} expected {}", t, b, h[t][b], xv * m);
            ensure!(h[t][b] >= 0.0 && h[t][b] as f64 <= xv * (1.0 + 1e-6), "mask amplifies: {} from {}", h[t][b], xv);
            acc = acc.u((r[t][b] * 64.0) as u64);
        }
    }
    Ok(Obs::new(acc.done(), margin > 0, 2))
}

fn hpss_mask_case(x: &[Vec<f32>], sr: u32, fft: usize, lo: f32, hi: f32, step: usize, tm: usize, fm: usize, p: f32) -> CaseResult {
    let (n, nb) = (x.len(), x[0].len());
    let got = harmonic_spectrogram_hpss_median_mask(x, sr, fft, lo, hi, step, tm, fm, p).map_err(|e| e.to_string())?;
    ensure!(got.len() == n && got.iter().all(|f| f.len() == nb), "shape changed");
    let res = sr as f64 / fft as f64;
    let l = (lo as f64).max(20.0);
    let h = (hi as f64).max(l + 1.0).min(sr as f64 / 2.0);
    let bs = ((l / res).floor() as i64).clamp(0, nb as i64) as usize;
    let be = ((h / res).ceil() as i64).clamp(0, nb as i64) as usize;
    if be <= bs {
        ensure!(got == x, "empty band must leave the spectrogram untouched");
        return Ok(Obs::new(7, true, 1));
    }
    let step = step.max(1);
    let ds: Vec<usize> = (0..n).step_by(step).collect();
    let g = |k: usize, b: usize| (x[ds[k]][b] as f64).max(0.0);
    let pw = (p as f64).max(1.0);
    let mut mask = vec![vec![0.0; be - bs]; ds.len()];
    for k in 0..ds.len() {
        for b in bs..be {
            let hm = med((k.saturating_sub(tm)..(k + tm + 1).min(ds.len())).map(|u| g(u, b)).collect());
            let pm = med((b.max(bs + fm) - fm..(b + fm + 1).min(be)).map(|c| g(k, c)).collect());
            mask[k][b - bs] = hm.powf(pw) / (hm.powf(pw) + pm.powf(pw) + 1e-12);
        }
    }
    let mut acc = H::new();
    for t in 0..n {
        let k = (t / step).min(ds.len() - 1);
        for b in 0..nb {
            let want = if b < bs || b >= be { 0.0 } else { (x[t][b] as f64).max(0.0) * mask[k][b - bs] };
            ensure!((got[t][b] as f64 - want).abs() <= 1e-4 * want.abs().max(x[t][b].abs() as f64) + 1e-7, "[{}][{}] = {} expected {}", t, b, got[t][b], want);
            acc = acc.u((want * 64.0) as u64);
        }
    }
    Ok(Obs::new(acc.done(), true, 1))
}

fn tuning_case(ctx: &Ctx, x: &[Vec<f32>], sr: u32, fft: usize, lo: f32, hi: f32, step: usize, thr: f32) -> CaseResult {
    let got = estimate_tuning_offset_semitones_from_spectrogram(x, sr, fft, lo, hi, step, thr).map_err(|e| e.to_string())? as f64;
    ensure!((-0.5001..=0.5001).contains(&got), "offset {} outside half a semitone", got);
    let res = sr as f64 / fft as f64;
    let l = (lo as f64).max(20.0);
    let h = (hi as f64).max(l + 1.0).min(sr as f64 / 2.0);
    let th = (thr as f64).clamp(0.0, 1.0);
    let (mut ss, mut sc, mut sw) = (0.0, 0.0, 0.0);
    for f in x.iter().step_by(step.max(1)) {
        let inb = |b: usize| b as f64 * res >= l && b as f64 * res <= h;
        let peak = (0..f.len()).filter(|b| inb(*b)).map(|b| f[b] as f64).fold(0.0, f64::max);
        if peak <= 1e-12 {
            continue;
        }
        for b in 0..f.len() {
            let m = f[b] as f64;
            if !inb(b) {
                continue;
            }
            if m < peak * th {
                if m > peak * th * (1.0 - 1e-5) {
                    ctx.ambiguous();
                    return Ok(Obs::new(0, false, 1));
                }
                continue;
            }
            let s = semis(b as f64 * res, 0.0);
            let r = s - s.round();
            let w = m.max(0.0).sqrt();
            if w <= 0.0 {
                continue;
            }
            ss += w * (2.0 * PI * r).sin();
            sc += w * (2.0 * PI * r).cos();
            sw += w;
        }
    }
    let r = if sw > 0.0 { (ss * ss + sc * sc as f64).sqrt() / sw } else { 0.0 };
    if sw <= 1e-6 || r < 0.049 {
        ensure!(got == 0.0, "unconcentrated residuals must give no correction, got {}", got);
        return Ok(Obs::new(0, false, 1));
    }
    if r < 0.051 {
        ctx.ambiguous();
        return Ok(Obs::new(0, false, 1));
    }
    let want = ss.atan2(sc) / (2.0 * PI);
    let mut d = (got - want).abs();
    d = d.min((1.0 - d).abs());
    ensure!(d < 2e-3 / r.max(0.05) * 0.2 + 2e-4, "tuning offset {} expected {} (concentration {:.3})", got, want, r);
    Ok(Obs::new(H::new().u(((want + 1.0) * 50.0) as u64).done(), true, 1))
}

pub fn p24(ctx: &Ctx) {
    ctx.rule("every small spectrogram over a magnitude alphabet and every parameter combination, plus long/typical geometries, vs f64 references of the moving average, soft masks, median masks and circular-mean tuning; nontrivial = a non-identity transformation");
    let vals = [0.0f32, 0.3, 1.0, 4.0];
    let len = ctx.pick(5u32, 7);
    let margins = [0usize, 1, 2, 3, 12];
    let powers = [0.5f32, 1.0, 2.0, 3.5];
    let np = margins.len() * powers.len();
    ctx.sweep("smooth_small", vals.len().pow(len) * np, |i| format!("history {} params {}", i / np, i % np), |i| {
        let mut x = Ix(i / np);
        let n = len as usize - (i / np) % 3;
        let v: Vec<f32> = (0..n).map(|_| *x.of(&vals)).collect();
        let sp: Vec<Vec<f32>> = (0..n).map(|t| vec![v[t], v[n - 1 - t], 0.7, if t % 2 == 0 { 1e-6 } else { 0.0 }]).collect();
        cond_case(&sp, margins[i % np % 5], powers[i % np / 5])
    });
    let longs = [63usize, 64, 65, 255, 256, 257, 511, 513, 1024, 1025, 2049, 4100, 9000, 17000];
    ctx.sweep("smooth_long", longs.len() * np, |i| format!("n {} params {}", longs[i / np], i % np), |i| {
        let sp: Vec<Vec<f32>> = (0..longs[i / np]).map(|t| (0..5).map(|b| lcg(b as u64 + 1, t).abs()).collect()).collect();
        cond_case(&sp, margins[i % np % 5], powers[i % np / 5])
    });
    // HPSS median mask: all 3x4 binary-ish spectrograms
    let alpha = [0.0f32, 1.0, 0.35];
    let cells = ctx.pick(9u32, 12);
    let par: Vec<(usize, usize, usize, f32)> = vec![(1, 1, 1, 2.0), (0, 0, 2, 1.0), (2, 1, 0, 2.0), (1, 8, 8, 0.5), (3, 1, 1, 3.0)];
    ctx.sweep("hpss_small", alpha.len().pow(cells) * par.len(), |i| format!("cells {} params {:?}", i / par.len(), par[i % par.len()]), |i| {
        let (st, tm, fm, p) = par[i % par.len()];
        let mut x = Ix(i / par.len());
        let rows = cells as usize / 3;
        let sp: Vec<Vec<f32>> = (0..rows).map(|_| (0..3).map(|_| *x.of(&alpha)).chain([0.2, 0.9]).collect()).collect();
        // 5 bins of 50 Hz: band 20..120 Hz keeps bins 0..3
        hpss_mask_case(&sp, 400, 8, 60.0, 140.0, st, tm, fm, p)
    });
    let geo: Vec<(u32, usize, f32, f32)> = vec![(44100, 2048, 100.0, 5000.0), (48000, 2048, 100.0, 5000.0), (22050, 1024, 100.0, 5000.0), (8000, 512, 100.0, 5000.0), (150, 256, 100.0, 5000.0), (8000, 256, 3000.0, 100.0), (44100, 256, 10.0, 30000.0)];
    ctx.sweep("hpss_typical", geo.len() * par.len() * 4, |i| format!("geometry {:?} params {:?} frames {}", geo[i / par.len() % geo.len()], par[i % par.len()], [1, 7, 64, 65][i / par.len() / geo.len()]), |i| {
        let (sr, fft, lo, hi) = geo[i / par.len() % geo.len()];
        let (st, tm, fm, p) = par[i % par.len()];
        let n = [1, 7, 64, 65][i / par.len() / geo.len()];
        let sp: Vec<Vec<f32>> = (0..n).map(|t| spec_frame(t % 3, fft / 2 + 1, t)).collect();
        hpss_mask_case(&sp, sr, fft, lo, hi, st, tm.min(4), fm, p)
    });
    // tuning: single partials and combs at every detuning
    let srs = [8000u32, 22050, 44100, 48000];
    let steps = [0usize, 1, 2, 5];
    let thrs = [0.0f32, 0.35, 1.0, -1.0, 2.0];
    let nd = ctx.pick(60usize, 400);
    ctx.sweep("tuning_comb", nd * 4 * 4 * 5, |i| format!("detune {} params {}", i / 80, i % 80), |i| {
        let mut x = Ix(i % 80);
        let sr = *x.of(&srs);
        let st = *x.of(&steps);
        let th = *x.of(&thrs);
        let fft = 8192usize;
        let det = (i / 80) as f64 / nd as f64 - 0.5;
        let mut f = vec![0.001f32; fft / 2 + 1];
        for (k, s) in [45.0f64, 52.0, 57.0, 61.0, 64.0, 69.0, 76.0].iter().enumerate() {
            let fr = 440.0 * 2f64.powf((s + det - 57.0) / 12.0);
            let b = (fr * fft as f64 / sr as f64).round() as usize;
            if b < f.len() {
                f[b] = 1.0 - 0.09 * k as f32;
            }
        }
        let sp = vec![f.clone(), f.iter().map(|v| v * 0.5).collect(), vec![0.0; f.len()], f];
        tuning_case(ctx, &sp, sr, fft, 100.0, 2000.0, st, th)
    });
    ctx.sweep("tuning_frames", 5 * 7 * 4, |i| format!("{}", i), |i| {
        let (sr, fft, lo, hi) = geo[i / 5 % geo.len()];
        let n = [1usize, 3, 64, 300][i / 35];
        let sp: Vec<Vec<f32>> = (0..n).map(|t| spec_frame(i % 5, fft / 2 + 1, t)).collect();
        tuning_case(ctx, &sp, sr, fft, lo, hi, 1 + i % 3, 0.33)
    });
    // long recordings whose tuning changes late: every frame counts
    ctx.sweep("tuning_long", 4 * 3, |i| format!("case {}", i), |i| {
        let n = [2500usize, 6000, 17000, 70000][i % 4];
        let (sr, fft) = (8000u32, 512usize);
        let late = |t: usize| match i / 4 {
            0 => t * 4 >= n,
            1 => t + n / 3 >= n,
            _ => t * 20 >= n,
        };
        let sp: Vec<Vec<f32>> = (0..n)
            .map(|t| {
                let mut f = vec![0.0f32; 130];
                for b in if late(t) { [28usize, 47, 63] } else { [29usize, 35, 75] } {
                    f[b] = if late(t) { 4.0 } else { 1.0 };
                }
                f
            })
            .collect();
        tuning_case(ctx, &sp, sr, fft, 100.0, 2000.0, 1 + i % 3, 0.33)
    });
    ctx.sweep("shapes", 8, |i| format!("shape {}", i), |i| {
        let rag = vec![vec![1.0f32; 4], vec![1.0; 3]];
        let emp: Vec<Vec<f32>> = vec![vec![]];
        let ok = match i {
            0 => smooth_spectrogram_time(&rag, 1).is_err(),
            1 => harmonic_spectrogram_time_mask(&rag, 1, 2.0).is_err(),
            2 => harmonic_spectrogram_hpss_median_mask(&rag, 8000, 256, 1.0, 2.0, 1, 1, 1, 2.0).is_err(),
            3 => estimate_tuning_offset_semitones_from_spectrogram(&rag, 8000, 256, 1.0, 2.0, 1, 0.1).is_err(),
            4 => smooth_spectrogram_time(&[], 3).map(|v| v.is_empty()).unwrap_or(false),
            5 => harmonic_spectrogram_time_mask(&[], 3, 2.0).map(|v| v.is_empty()).unwrap_or(false),
            6 => estimate_tuning_offset_semitones_from_spectrogram(&[], 8000, 256, 1.0, 2.0, 1, 0.1).map(|v| v == 0.0).unwrap_or(false),
            _ => harmonic_spectrogram_time_mask(&emp, 3, 2.0).is_err() && estimate_tuning_offset_semitones_from_spectrogram(&emp, 8000, 256, 1.0, 2.0, 1, 0.1).is_err(),
        };
        ensure!(ok, "shape handling");
        Ok(Obs::new(i as u64, true, 1))
    });
}
