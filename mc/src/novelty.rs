//! P23 novelty curves.
use crate::chroma::lcg;
use crate::core::*;
use crate::ensure;
use stratum_dsp::features::period::novelty::*;

type Sp = Vec<Vec<f32>>;

/// reference curve plus the absolute error single precision may introduce per value
fn norm(v: Vec<f64>, err: f64) -> (Vec<f64>, f64) {
    let m = v.iter().cloned().fold(0.0, f64::max);
    if m > 1e-10 {
        (v.iter().map(|x| x / m).collect(), err / m)
    } else {
        (v, err)
    }
}

fn cmp_curve(what: &str, got: &[f32], want: &(Vec<f64>, f64), raw_max: f64) -> Result<(), String> {
    ensure!(got.len() == want.0.len(), "{}: {} values, want {}", what, got.len(), want.0.len());
    for (i, (g, w)) in got.iter().zip(&want.0).enumerate() {
        ensure!(g.is_finite() && *g >= 0.0 && *g <= 1.0 + 1e-6, "{}: value {} at {} outside 0..1", what, g, i);
        // a curve whose maximum is near the normalisation epsilon may or may not be scaled
        // and so may one that is within the rounding error of the summation (relative error > 1/4)
        if raw_max < 1e-8 && want.1 > 0.0 || want.1 > 0.25 {
            continue;
        }
        ensure!((*g as f64 - w).abs() <= 2e-5 + want.1, "{}: value {} at transition {}, want {} (±{:e})", what, g, i, w, want.1);
    }
    Ok(())
}

fn raw_energy(sp: &Sp, lo: usize, hi: usize, hfc: bool) -> (Vec<f64>, f64) {
    let e: Vec<f64> = sp.iter().map(|f| (lo..hi).map(|k| (if hfc { k as f64 } else { 1.0 }) * f[k] as f64 * f[k] as f64).sum()).collect();
    let mx = e.iter().cloned().fold(0.0, f64::max);
    (e.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect(), mx * 1e-6 * (((hi - lo) as f64).sqrt() + 2.0))
}

fn super_flux(fr: &[Vec<f64>], k: usize) -> Vec<f64> {
    fr.windows(2)
        .map(|w| {
            let n = w[0].len();
            (0..n)
                .map(|b| {
                    let m = w[0][b.saturating_sub(k)..(b + k + 1).min(n)].iter().cloned().fold(0.0, f64::max);
                    let d = (w[1][b] - m).max(0.0);
                    d * d
                })
                .sum::<f64>()
                .sqrt()
        })
        .collect()
}

fn logs(sp: &Sp, lo: usize, hi: usize) -> Vec<Vec<f64>> {
    sp.iter().map(|f| f[lo..hi].iter().map(|x| (1.0 + x.max(0.0) as f64).ln()).collect()).collect()
}

fn fmax(v: &[f64]) -> f64 {
    v.iter().cloned().fold(0.0, f64::max)
}

pub fn plain_case(sp: &Sp, k: usize) -> CaseResult {
    let n = sp[0].len();
    let es = |e: stratum_dsp::AnalysisError| e.to_string();
    // plain spectral flux: per-frame peak normalisation, positive L2 difference
    let nf: Vec<Vec<f64>> = sp
        .iter()
        .map(|f| {
            let m = f.iter().cloned().fold(0.0f32, f32::max) as f64;
            f.iter().map(|x| if m > 1e-10 { *x as f64 / m } else { 0.0 }).collect()
        })
        .collect();
    let sf: Vec<f64> = nf.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| (b - a).max(0.0).powi(2)).sum::<f64>().sqrt()).collect();
    let m = fmax(&sf);
    let g = spectral_flux_novelty(sp).map_err(es)?;
    cmp_curve("spectral flux", &g, &norm(sf, 1e-6), m)?;
    let s2 = super_flux(&logs(sp, 0, n), k.max(1));
    let m = fmax(&s2);
    let lm = logs(sp, 0, n).iter().flatten().cloned().fold(0.0, f64::max);
    let g2 = superflux_novelty(sp, k).map_err(es)?;
    cmp_curve("superflux", &g2, &norm(s2, (lm * 2e-7 + 6e-8) * (n as f64).sqrt()), m)?;
    let (e, err) = raw_energy(sp, 0, n, false);
    let m = fmax(&e);
    let ge = energy_flux_novelty(sp).map_err(es)?;
    cmp_curve("energy flux", &ge, &norm(e, err), m)?;
    let (h, err) = raw_energy(sp, 0, n, true);
    let m = fmax(&h);
    let gh = hfc_novelty(sp, 44100).map_err(es)?;
    cmp_curve("high-frequency content", &gh, &norm(h, err), m)?;
    let steady = sp.windows(2).all(|w| w[0] == w[1]);
    if steady {
        for c in [&g, &g2, &ge, &gh] {
            ensure!(c.iter().all(|x| *x == 0.0), "a steady spectrum has novelty {:?}", c);
        }
    }
    Ok(Obs::new(H::new().fs(&g).fs(&g2).fs(&ge).fs(&gh).done(), !steady, 4))
}

fn band_case(sp: &Sp, k: usize, lo: usize, hi: usize) -> CaseResult {
    let n = sp[0].len();
    let es = |e: stratum_dsp::AnalysisError| e.to_string();
    let (a, b) = (lo.min(n), hi.min(n));
    let s = superflux_novelty_band(sp, k, lo, hi).map_err(es)?;
    let e = energy_flux_novelty_band(sp, lo, hi).map_err(es)?;
    let h = hfc_novelty_band(sp, lo, hi).map_err(es)?;
    if b <= a + 1 {
        ensure!(s.is_empty() && e.is_empty() && h.is_empty(), "an empty band has a curve");
        return Ok(Obs::new(0, false, 3));
    }
    let l = logs(sp, a, b);
    let lm = l.iter().flatten().cloned().fold(0.0, f64::max);
    let r = super_flux(&l, k.max(1));
    let m = fmax(&r);
    cmp_curve("band superflux", &s, &norm(r, (lm * 2e-7 + 6e-8) * ((b - a) as f64).sqrt()), m)?;
    let (r, err) = raw_energy(sp, a, b, false);
    let m = fmax(&r);
    cmp_curve("band energy flux", &e, &norm(r, err), m)?;
    let (r, err) = raw_energy(sp, a, b, true);
    let m = fmax(&r);
    cmp_curve("band high-frequency content", &h, &norm(r, err), m)?;
    Ok(Obs::new(H::new().fs(&s).fs(&e).fs(&h).done(), true, 3))
}

/// mel filter weights per (mel, bin); None if a band edge rounds ambiguously
fn ref_mel(sr: u32, n_bins: usize, n_mels: usize, fmin: f32, fmax_hz: f32) -> Option<Vec<Vec<f64>>> {
    let n_mels = n_mels.max(4);
    let ny = sr as f64 * 0.5;
    let lo = (fmin.max(0.0) as f64).min(ny.max(1.0));
    let hi = if fmax_hz.is_finite() && fmax_hz > 0.0 { fmax_hz as f64 } else { ny };
    let hi = hi.min(ny).max(lo + 1.0);
    let fr = sr as f64 / ((n_bins - 1) * 2) as f64;
    let mel = |f: f64| 2595.0 * (1.0 + f / 700.0).log10();
    let inv = |m: f64| 700.0 * (10f64.powf(m / 2595.0) - 1.0);
    let (a, b) = (mel(lo), mel(hi));
    let mut pts: Vec<usize> = vec![];
    for i in 0..n_mels + 2 {
        let q = inv(a + (b - a) / (n_mels + 1) as f64 * i as f64) / fr;
        if ((q - q.floor()) - 0.5).abs() < 2e-4 * q.max(1.0) / 10.0 + 1e-4 {
            return None;
        }
        pts.push((q.round().max(0.0) as usize).min(n_bins - 1));
    }
    for i in 1..pts.len() {
        if pts[i] <= pts[i - 1] {
            pts[i] = (pts[i - 1] + 1).min(n_bins - 1);
        }
    }
    let mut w = vec![vec![0.0; n_bins]; n_mels];
    for m in 0..n_mels {
        let (l, c, r) = (pts[m], pts[m + 1], pts[m + 2]);
        if !(l < c && c < r) {
            continue;
        }
        for b in l..=c {
            w[m][b] += (b - l) as f64 / (c - l) as f64;
        }
        for b in c..=r {
            w[m][b] += (r - b) as f64 / (r - c) as f64;
        }
    }
    Some(w)
}

fn mel_case(ctx: &Ctx, sp: &Sp, sr: u32, nm: usize, lo: f32, hi: f32, k: usize) -> CaseResult {
    let n = sp[0].len();
    let g = mel_superflux_novelty(sp, sr, nm, lo, hi, k).map_err(|e| e.to_string())?;
    ensure!(g.len() == sp.len() - 1, "mel curve has {} values for {} frames", g.len(), sp.len());
    ensure!(g.iter().all(|x| x.is_finite() && *x >= 0.0 && *x <= 1.0 + 1e-6), "mel curve outside 0..1");
    let Some(w) = ref_mel(sr, n, nm, lo, hi) else {
        ctx.ambiguous();
        return Ok(Obs::new(1, false, 1));
    };
    let l = logs(sp, 0, n);
    let fr: Vec<Vec<f64>> = l.iter().map(|f| w.iter().map(|r| r.iter().zip(f).map(|(a, b)| a * b).sum()).collect()).collect();
    let lm = fr.iter().flatten().cloned().fold(0.0, f64::max);
    let r = super_flux(&fr, k.max(1));
    let m = fmax(&r);
    cmp_curve("mel superflux", &g, &norm(r, (lm * 1e-6 + 3e-7) * (nm as f64).sqrt()), m)?;
    Ok(Obs::new(H::new().fs(&g).done(), m > 0.0, 1))
}

fn ref_combined(s: &[f32], e: &[f32], h: &[f32], ws: [f32; 3], lm: usize, sm: usize) -> Vec<f64> {
    let n = s.len().min(e.len()).min(h.len());
    let w: Vec<f64> = ws.iter().map(|x| x.max(0.0) as f64).collect();
    let sum = (w[0] + w[1] + w[2]).max(1e-10);
    let mut c: Vec<f64> = (0..n).map(|i| (s[i] as f64 * w[0] + e[i] as f64 * w[1] + h[i] as f64 * w[2]) / sum).collect();
    let nrm = |c: &mut Vec<f64>| {
        let m = fmax(c);
        if m > 1e-10 {
            c.iter_mut().for_each(|x| *x /= m);
        }
    };
    let win = |c: &[f64], i: usize, w: usize| {
        let (a, b) = (i.saturating_sub(w / 2), (i + w / 2 + 1).min(c.len()));
        c[a..b].iter().sum::<f64>() / (b - a) as f64
    };
    nrm(&mut c);
    if lm > 1 {
        c = (0..n).map(|i| (c[i] - win(&c, i, lm)).max(0.0)).collect();
        // rounding residue of constant stretches
        c.iter_mut().for_each(|x| {
            if *x < 1e-14 {
                *x = 0.0
            }
        });
    }
    if sm > 1 && n >= 3 {
        c = (0..n).map(|i| win(&c, i, sm)).collect();
    }
    nrm(&mut c);
    c
}

fn combined_case(ctx: &Ctx, s: &[f32], e: &[f32], h: &[f32], ws: [f32; 3], lm: usize, sm: usize) -> CaseResult {
    let g = combined_novelty_with_params(s, e, h, ws[0], ws[1], ws[2], lm, sm);
    let want = ref_combined(s, e, h, ws, lm, sm);
    ensure!(g.len() == want.len(), "{} values, want {}", g.len(), want.len());
    ensure!(g.iter().all(|x| x.is_finite() && *x >= 0.0 && *x <= 1.0 + 1e-6), "combined curve outside 0..1: {:?}", g);
    // a curve that is flat after conditioning carries only rounding noise
    if fmax(&want) < 0.5 {
        ctx.ambiguous();
        return Ok(Obs::new(0, false, 1));
    }
    // pre-normalisation magnitude bounds the amplification of rounding
    for i in 0..g.len() {
        ensure!((g[i] as f64 - want[i]).abs() < 1e-4, "combined value {} at {}, want {}", g[i], i, want[i]);
    }
    if lm == 16 && sm == 5 && ws == [0.5, 0.3, 0.2] {
        let d = combined_novelty(s, e, h);
        ensure!(d.len() == g.len() && d.iter().zip(&g).all(|(a, b)| (a - b).abs() < 1e-5), "default combination differs from its documented parameters");
    }
    Ok(Obs::new(H::new().fs(&g).done(), true, 1))
}

pub fn p23(ctx: &Ctx) {
    ctx.rule("every small spectrogram over a magnitude alphabet through every novelty curve (x band, x filter radius), every short curve triple through the combiner (x weights x windows), typical geometries; f64 references; non-trivial = a changing spectrum");
    ctx.assume("values agree within 2e-5 plus the rounding of the energy differences; combined curves whose reference is flat are only range-checked");
    let vals = [0.0f32, 0.5, 1.0, 3.0];
    for (nf, nb) in ctx.pick(vec![(2usize, 3usize), (3, 3), (4, 2), (2, 4)], vec![(2, 3), (3, 3), (4, 2), (2, 5), (5, 2)]) {
        let n = vals.len().pow((nf * nb) as u32);
        let mk = move |i: usize| -> Sp {
            let mut x = Ix(i);
            (0..nf).map(|_| (0..nb).map(|_| *x.of(&vals)).collect()).collect()
        };
        ctx.sweep(&format!("plain{}x{}", nf, nb), n * 2, move |i| format!("{:?} radius {}", mk(i / 2), i % 2 * 2), move |i| plain_case(&mk(i / 2), i % 2 * 2));
    }
    let mk = |i: usize| -> Sp {
        let mut x = Ix(i);
        (0..3).map(|_| (0..4).map(|_| *x.of(&[0.0f32, 0.7, 2.0])).collect()).collect()
    };
    let nb = 3usize.pow(12) / ctx.pick(27, 1);
    ctx.sweep("bands", nb, |i| format!("{:?} band {:?}", mk(i * 29 % 531441), (i % 5, i / 5 % 6)), |i| band_case(&mk(i * 29 % 531441), 1 + i % 2, i % 5, i / 5 % 6));
    ctx.sweep("bands_wide", 40 * 40, |i| format!("band {}..{}", i % 40, i / 40), |i| {
        let sp: Sp = (0..6).map(|t| (0..33).map(|b| lcg(t as u64 + 7, b).abs() * (1.0 + b as f32 / 9.0)).collect()).collect();
        band_case(&sp, 1 + i % 4, i % 40, i / 40)
    });
    // typical geometries
    let bins = [2usize, 65, 129, 513, 1025];
    let frs = [2usize, 3, 64, 130];
    ctx.sweep("typical", 5 * 4 * 6 * 3, |i| format!("bins {} frames {} kind {} radius {}", bins[i % 5], frs[i / 5 % 4], i / 20 % 6, [1, 4, 9][i / 120]), |i| {
        let (n, f, kind, k) = (bins[i % 5], frs[i / 5 % 4], i / 20 % 6, [1usize, 4, 9][i / 120]);
        plain_case(&spectro(kind, f, n), k)
    });
    // the levels of real spectrograms (full scale: hundreds per bin), and recordings of more than an hour
    ctx.sweep("levels", 6 * 6, |i| format!("kind {} level {}", i / 6, [1e-3, 16.0, 300.0, 1024.0, 4096.0, 65536.0][i % 6]), |i| {
        let l = [1e-3f32, 16.0, 300.0, 1024.0, 4096.0, 65536.0][i % 6];
        let sp: Sp = spectro(i / 6, 40, 257).iter().map(|f| f.iter().map(|v| v * l).collect()).collect();
        plain_case(&sp, 4)?;
        band_case(&sp, 4, 1, 20)?;
        mel_case(ctx, &sp, 44100, 40, 30.0, 8000.0, 2)
    });
    ctx.sweep("many_frames", 3 * 2, |i| format!("frames {} kind {}", [5000, 20_000, 66_000][i % 3], 1 + i / 3), |i| {
        let sp = spectro(1 + i / 3, [5000, 20_000, 66_000][i % 3], 5);
        plain_case(&sp, 1)?;
        band_case(&sp, 1, 1, 4)
    });
    let srs = [8000u32, 22050, 44100, 48000, 100];
    let nms = [1usize, 4, 24, 40, 64];
    let rg = [(30.0f32, 8000.0f32), (0.0, 0.0), (100.0, 3000.0), (5000.0, 2000.0), (30000.0, 40000.0), (60.0, f32::NAN)];
    let mk2 = [0usize, 1, 2, 5];
    let nmel = 5 * 5 * 6 * 4 * 4 * 3;
    ctx.sweep("mel", nmel, |i| format!("case {}", i), |i| {
        let mut x = Ix(i);
        let sr = *x.of(&srs);
        let nm = *x.of(&nms);
        let (lo, hi) = *x.of(&rg);
        let k = *x.of(&mk2);
        let n = *x.of(&[2usize, 65, 129, 513]);
        let kind = x.take(3);
        mel_case(ctx, &spectro([1, 2, 4][kind], 9, n), sr, nm, lo, hi, k)
    });
    ctx.sweep("mel_bins", 129 * 4, |i| format!("bin {} case {}", i / 4, i % 4), |i| {
        let sp: Sp = vec![vec![0.0; 129], (0..129).map(|b| if b == i / 4 { 2.0 } else { 0.0 }).collect(), vec![0.0; 129], (0..129).map(|b| if b == (i / 4 + 40) % 129 { 1.0 } else { 0.0 }).collect()];
        mel_case(ctx, &sp, [8000, 44100][i % 2], [40, 12][i / 2 % 2], 30.0, 8000.0, 2)
    });
    // combination
    let cv = [0.0f32, 0.4, 1.0];
    let wsets = [[0.5f32, 0.3, 0.2], [1.0, 0.0, 0.0], [0.0, 2.0, 1.0], [-1.0, 0.5, 0.5], [0.0, 0.0, 0.0]];
    let wins = [(16usize, 5usize), (0, 0), (1, 1), (3, 0), (0, 3), (2, 4), (5, 2)];
    let cl = ctx.pick(5u32, 6);
    for l in 0..=cl {
        let n = 3usize.pow(l);
        ctx.sweep(&format!("combine{}", l), n * 5 * 7 * 3, |i| format!("word {} params {}", i / 105, i % 105), |i| {
            let mut x = Ix(i / 105);
            let s: Vec<f32> = (0..l).map(|_| *x.of(&cv)).collect();
            let mut y = Ix((i / 105) * 7 + 3);
            let ex = [0usize, 1, 3][i / 35 % 3];
            let e: Vec<f32> = (0..l as usize + ex).map(|_| *y.of(&cv)).collect();
            let h: Vec<f32> = (0..l as usize + ex / 2).map(|k| cv[(k + i / 105) % 3]).collect();
            let (lm, sm) = wins[i % 7];
            combined_case(ctx, &s, &e, &h, wsets[i / 7 % 5], lm, sm)
        });
    }
    ctx.sweep("combine_long", 6 * 35, |i| format!("len {} params {}", [17, 64, 65, 257, 1000, 5000][i / 35], i % 35), |i| {
        let n = [17usize, 64, 65, 257, 1000, 5000][i / 35];
        let c = |s: u64| -> Vec<f32> { (0..n).map(|k| if k % 21 == 0 { 1.0 } else { lcg(s, k).abs() * 0.3 }).collect() };
        let (lm, sm) = wins[i % 7];
        combined_case(ctx, &c(1), &c(2), &c(3), wsets[i / 7 % 5], lm, sm)
    });
    // gain: energy, high-frequency and plain spectral flux do not depend on the level
    ctx.sweep("gain", 6 * 4, |i| format!("kind {} gain {}", i / 4, [0.25, 4.0, 0.01, 30.0][i % 4]), |i| {
        let g = [0.25f32, 4.0, 0.01, 30.0][i % 4];
        let a = spectro(i / 4, 40, 65);
        let b: Sp = a.iter().map(|f| f.iter().map(|x| x * g).collect()).collect();
        let eq = |x: Vec<f32>, y: Vec<f32>| x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| (p - q).abs() < 1e-4);
        // clicks have the same relative spectrum throughout and a moving tone the same energy: those curves are
        // zero but for rounding, and only gains without rounding keep that unchanged
        let exact = i % 4 < 2;
        if i / 4 != 0 {
            ensure!(i / 4 == 2 && !exact || eq(spectral_flux_novelty(&a).unwrap(), spectral_flux_novelty(&b).unwrap()), "spectral flux depends on the level");
            ensure!(i / 4 == 4 && !exact || eq(energy_flux_novelty(&a).unwrap(), energy_flux_novelty(&b).unwrap()), "energy flux depends on the level");
            ensure!(eq(hfc_novelty(&a, 44100).unwrap(), hfc_novelty(&b, 44100).unwrap()), "HFC depends on the level");
        }
        Ok(Obs::new(i as u64, true, 6))
    });
    ctx.sweep("invalid", 12, |i| format!("{}", i), |i| {
        let rag = vec![vec![1.0f32; 4], vec![1.0; 4], vec![1.0; 3]];
        let emp: Sp = vec![vec![], vec![]];
        let one: Sp = vec![vec![1.0; 4]];
        let none: Sp = vec![];
        let r: Vec<Result<Vec<f32>, stratum_dsp::AnalysisError>> = (0..2)
            .map(|_| match i % 6 {
                0 => spectral_flux_novelty(&rag),
                1 => superflux_novelty(&rag, 2),
                2 => energy_flux_novelty(&rag),
                3 => hfc_novelty(&rag, 44100),
                4 => energy_flux_novelty_band(&rag, 0, 4),
                _ => mel_superflux_novelty(&rag, 44100, 8, 30.0, 8000.0, 2),
            })
            .collect();
        ensure!(r.iter().all(|x| x.is_err()), "ragged spectrogram accepted");
        let r = match i % 6 {
            0 => spectral_flux_novelty(&emp),
            1 => superflux_novelty(&emp, 2),
            2 => energy_flux_novelty(&emp),
            3 => hfc_novelty(&emp, 44100),
            4 => hfc_novelty_band(&emp, 0, 4),
            _ => superflux_novelty_band(&emp, 2, 0, 4),
        };
        ensure!(r.is_err(), "frames without bins accepted");
        for s in [&one, &none] {
            let r = match i % 6 {
                0 => spectral_flux_novelty(s),
                1 => superflux_novelty(s, 2),
                2 => energy_flux_novelty(s),
                3 => hfc_novelty(s, 44100),
                4 => hfc_novelty_band(s, 0, 4),
                _ => mel_superflux_novelty(s, 44100, 8, 30.0, 8000.0, 2),
            };
            ensure!(r.map_err(|e| e.to_string())?.is_empty(), "fewer than two frames have a curve");
        }
        ensure!(hfc_novelty(&[vec![1.0; 3], vec![2.0; 3]], 0).is_err(), "zero sample rate accepted");
        Ok(Obs::new(i as u64, true, 5))
    });
}

/// enumerated spectrogram families: 0 steady, 1 noise, 2 clicks, 3 ramps, 4 moving tone, 5 quiet clicks over noise
pub fn spectro(kind: usize, nf: usize, nb: usize) -> Sp {
    (0..nf)
        .map(|t| {
            (0..nb)
                .map(|b| match kind {
                    0 => 0.3 + b as f32 / nb as f32,
                    1 => lcg(t as u64 * 31 + 5, b).abs(),
                    2 => (if t % 7 == 3 { 5.0 } else { 0.1 }) * (1.0 + (b % 5) as f32 * 0.1),
                    3 => ((t * (b % 3 + 1)) % 11) as f32 * 0.2,
                    4 => if b == (t * 3) % nb { 4.0 } else { 0.02 },
                    _ => lcg(t as u64 + 99, b).abs() * 0.01 + if t % 11 == 0 { 0.05 } else { 0.0 },
                })
                .collect()
        })
        .collect()
}
