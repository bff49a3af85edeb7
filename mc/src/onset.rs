//! P09 onset detectors, P10 consensus voting, P20 harmonic/percussive separation.
use crate::core::*;
use crate::ensure;
use std::cmp::Ordering;
use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::{detect_hpss_onsets, hpss_decompose};
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::onset::threshold::{adaptive_threshold_median_mad, percentile_threshold};

/// A quantity computed in exact-ish (f64) and in single precision. Comparisons are decided only
/// when rounding cannot matter: clearly apart in f64, or exactly tied in both.
#[derive(Clone, Copy, Debug)]
pub struct D(pub f64, pub f32);
pub fn cmp3(a: D, b: D) -> Option<Ordering> {
    if a.0 == b.0 && a.1 == b.1 {
        return Some(Ordering::Equal);
    }
    if (a.0 - b.0).abs() > 2e-5 * a.0.abs().max(b.0.abs()).max(1e-9) {
        return a.0.partial_cmp(&b.0);
    }
    None
}
fn gt(a: D, b: D) -> Option<bool> {
    cmp3(a, b).map(|o| o == Ordering::Greater)
}
fn ge(a: D, b: D) -> Option<bool> {
    cmp3(a, b).map(|o| o != Ordering::Less)
}
/// three-valued and
fn and(v: &[Option<bool>]) -> Option<bool> {
    if v.iter().any(|x| *x == Some(false)) {
        return Some(false);
    }
    if v.iter().any(|x| x.is_none()) {
        return None;
    }
    Some(true)
}

/// Reference peak picking on a flux curve: strictly above the threshold, strictly above the
/// predecessor, not below the successor. flux[i] belongs to frame i+1. None = undecidable.
pub fn ref_peaks(flux: &[D], thr: D) -> Vec<Option<bool>> {
    let n = flux.len();
    (0..n)
        .map(|i| {
            if n < 2 {
                return Some(false);
            }
            let mut c = vec![gt(flux[i], thr)];
            if i > 0 {
                c.push(gt(flux[i], flux[i - 1]));
            }
            if i + 1 < n {
                c.push(ge(flux[i], flux[i + 1]));
            }
            and(&c)
        })
        .collect()
}

fn pct(flux: &[D], p: f32) -> Option<D> {
    let n = flux.len();
    let i32_ = ((n as f32) * p) as usize;
    let i64_ = (n as f64 * p as f64) as usize;
    if i32_ != i64_ {
        return None;
    }
    let i = i32_.min(n - 1);
    let mut a: Vec<f64> = flux.iter().map(|d| d.0).collect();
    let mut b: Vec<f32> = flux.iter().map(|d| d.1).collect();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap());
    b.sort_by(|x, y| x.partial_cmp(y).unwrap());
    Some(D(a[i], b[i]))
}

fn compare(ctx: &Ctx, got: &[usize], want: &[Option<bool>], scale: usize) -> CaseResult {
    for w in got.windows(2) {
        ensure!(w[0] < w[1], "onsets not strictly ascending: {:?}", got);
    }
    for &g in got {
        ensure!(g % scale == 0 && g / scale >= 1 && g / scale <= want.len(), "onset {} is not a frame start", g);
    }
    let mut amb = false;
    for (i, w) in want.iter().enumerate() {
        let has = got.contains(&((i + 1) * scale));
        match w {
            Some(true) => ensure!(has, "missing onset at frame {} (got {:?})", i + 1, got),
            Some(false) => ensure!(!has, "spurious onset at frame {} (got {:?})", i + 1, got),
            None => amb = true,
        }
    }
    if amb {
        ctx.ambiguous();
    }
    Ok(Obs::new(H::new().us(got).u(want.len() as u64).done(), !got.is_empty(), 1))
}

fn energy_case(ctx: &Ctx, x: &[f32], fs: usize, hop: usize, thr_db: f32) -> CaseResult {
    let got = detect_energy_flux_onsets(x, fs, hop, thr_db).map_err(|e| format!("error: {}", e))?;
    for &g in &got {
        ensure!(g < x.len(), "onset {} beyond {} samples", g, x.len());
    }
    if x.len() < fs || (x.len() - fs) / hop + 1 < 2 {
        ensure!(got.is_empty(), "onsets {:?} from fewer than two frames", got);
        return Ok(Obs::new(0, false, 1));
    }
    let nf = (x.len() - fs) / hop + 1;
    let e: Vec<D> = (0..nf)
        .map(|i| {
            let f = &x[i * hop..i * hop + fs];
            let s: f64 = f.iter().map(|&v| (v as f64).powi(2)).sum();
            let s32: f32 = f.iter().map(|&v| v * v).sum();
            D((s / fs as f64).sqrt(), (s32 / fs as f32).sqrt())
        })
        .collect();
    let scale = e.iter().fold(0f64, |a, d| a.max(d.0)).max(1e-12);
    let flux: Vec<D> = e
        .windows(2)
        .map(|w| {
            let d = w[1].0 - w[0].0;
            // differences at rounding level are noise, not energy rises
            if d.abs() < 1e-5 * scale && w[1].1 == w[0].1 {
                D(0.0, 0.0)
            } else {
                D(d.max(0.0), (w[1].1 - w[0].1).max(0.0))
            }
        })
        .collect();
    let mx = flux.iter().fold(D(0.0, 0.0), |a, d| D(a.0.max(d.0), a.1.max(d.1)));
    if mx.0 <= 1e-9 {
        ensure!(got.is_empty() || mx.0 > 1e-11, "onsets {:?} without any energy rise", got);
        return Ok(Obs::new(1, false, 1));
    }
    let f = 10f64.powf(thr_db as f64 / 20.0);
    let thr = D(mx.0 * f, mx.1 * 10f32.powf(thr_db / 20.0));
    compare(ctx, &got, &ref_peaks(&flux, thr), hop)
}

#[derive(Clone, Copy, Debug)]
enum Det {
    Spectral,
    Hfc,
    Hpss,
}
fn spec_flux(det: Det, m: &[Vec<f32>]) -> Vec<D> {
    match det {
        Det::Spectral => {
            let norm: Vec<Vec<D>> = m
                .iter()
                .map(|f| {
                    let mx = f.iter().copied().fold(0f32, f32::max);
                    f.iter()
                        .map(|&v| if mx > 1e-10 { D(v as f64 / mx as f64, v / mx) } else { D(0.0, 0.0) })
                        .collect()
                })
                .collect();
            norm.windows(2)
                .map(|w| {
                    let (mut s, mut s32) = (0f64, 0f32);
                    for (a, b) in w[0].iter().zip(&w[1]) {
                        s += (b.0 - a.0).max(0.0).powi(2);
                        let d = (b.1 - a.1).max(0.0);
                        s32 += d * d;
                    }
                    D(s.sqrt(), s32.sqrt())
                })
                .collect()
        }
        Det::Hfc | Det::Hpss => {
            let e: Vec<D> = m
                .iter()
                .map(|f| {
                    let (mut s, mut s32) = (0f64, 0f32);
                    for (k, &v) in f.iter().enumerate() {
                        let w = if matches!(det, Det::Hfc) { k as f64 } else { 1.0 };
                        s += w * (v as f64).powi(2);
                        s32 += w as f32 * v * v;
                    }
                    D(s, s32)
                })
                .collect();
            let scale = e.iter().fold(0f64, |a, d| a.max(d.0)).max(1e-12);
            e.windows(2)
                .map(|w| {
                    let d = w[1].0 - w[0].0;
                    if d != 0.0 && d.abs() < 1e-5 * scale {
                        // undecidable rise: keep f64/f32 as they are (comparisons will abstain)
                        return D(d.max(0.0), (w[1].1 - w[0].1).max(0.0));
                    }
                    D(d.max(0.0), (w[1].1 - w[0].1).max(0.0))
                })
                .collect()
        }
    }
}
fn run_det(det: Det, m: &[Vec<f32>], p: f32) -> Result<Vec<usize>, stratum_dsp::AnalysisError> {
    match det {
        Det::Spectral => detect_spectral_flux_onsets(m, p),
        Det::Hfc => detect_hfc_onsets(m, 44100, p),
        Det::Hpss => detect_hpss_onsets(m, p),
    }
}
fn spec_case(ctx: &Ctx, det: Det, m: &[Vec<f32>], p: f32) -> CaseResult {
    let got = run_det(det, m, p).map_err(|e| format!("error: {}", e))?;
    for &g in &got {
        ensure!(g < m.len(), "onset frame {} of {}", g, m.len());
    }
    if m.len() < 2 {
        ensure!(got.is_empty(), "onsets from fewer than two frames");
        return Ok(Obs::new(0, false, 1));
    }
    let flux = spec_flux(det, m);
    let Some(thr) = pct(&flux, p) else {
        ctx.ambiguous();
        return Ok(Obs::new(1, false, 1));
    };
    // a threshold that is rounding noise above zero cannot be decided either
    compare(ctx, &got, &ref_peaks(&flux, thr), 1)
}

pub fn p09(ctx: &Ctx) {
    ctx.rule("all block-level words (energy flux) and all frame words over a 6-frame alphabet (spectral flux, HFC, percussive flux) x thresholds, plus enumerated periodic families at real sizes; reference peak picking; non-trivial = an onset reported");
    let levels = [0.0f32, 0.25, 0.5, 1.0];
    let geos = [(2usize, 2usize), (4, 2), (3, 2), (4, 1), (2, 5)];
    let thrs = [-20.0f32, -6.0, 0.0, -60.0];
    let nb = ctx.pick(6, 8);
    for len in 0..=nb {
        let words = 4usize.pow(len as u32);
        let n = words * geos.len() * thrs.len() * 2;
        let dec = |i: usize| {
            let mut ix = Ix(i);
            let g = *ix.of(&geos);
            let t = *ix.of(&thrs);
            let tail = ix.take(2);
            let w: Vec<f32> = (0..len).map(|_| *ix.of(&levels)).collect();
            (w, g, t, tail)
        };
        ctx.sweep(&format!("energy_words{}", len), n, |i| format!("{:?}", dec(i)), |i| {
            let (w, (fs, hop), t, tail) = dec(i);
            let mut x = vec![];
            for (k, &l) in w.iter().enumerate() {
                x.extend((0..hop).map(|j| if (j + k) % 2 == 0 { l } else { -l }));
            }
            if tail == 1 && hop > 1 {
                x.extend(std::iter::repeat_n(1.0, hop - 1));
            }
            energy_case(ctx, &x, fs, hop, t)
        });
    }
    // real geometry: bursts at enumerated periods/phases/levels over a bed
    let real = [(2048usize, 512usize), (1024, 256), (4096, 1024), (512, 512)];
    let (np, nph) = ctx.pick((12, 4), (40, 8));
    let fam = real.len() * np * nph * 3 * thrs.len();
    let decf = |i: usize| {
        let mut ix = Ix(i);
        let g = *ix.of(&real);
        let per = 2 + ix.take(np);
        let ph = ix.take(nph);
        let bed = *ix.of(&[0.0f32, 0.01, 0.2]);
        let t = *ix.of(&thrs);
        (g, per, ph, bed, t)
    };
    ctx.sweep("energy_bursts", fam, |i| format!("{:?}", decf(i)), |i| {
        let ((fs, hop), per, ph, bed, t) = decf(i);
        let total = 60 * hop + 17 * ph;
        let x: Vec<f32> = (0..total)
            .map(|k| {
                let b = k / hop + ph;
                let inb = b % per == 0;
                let amp = if inb { [0.3f32, 0.9, 0.5][(b / per) % 3] } else { bed };
                amp * if k % 4 < 2 { 1.0 } else { -1.0 }
            })
            .collect();
        energy_case(ctx, &x, fs, hop, t)
    });
    ctx.sweep("energy_invalid", 2, |i| format!("{}", i), |i| {
        let r = detect_energy_flux_onsets(&[0.5; 20], if i == 0 { 0 } else { 4 }, if i == 1 { 0 } else { 2 }, -20.0);
        ensure!(r.is_err(), "zero frame/hop accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
    // spectrogram detectors: all words over frames with 3 bins
    let frames: [[f32; 3]; 6] = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 1.0, 4.0], [3.0, 3.0, 3.0], [1.0, 2.0, 1.0]];
    let dets = [Det::Spectral, Det::Hfc, Det::Hpss];
    let pcts = [0.0f32, 0.25, 0.5, 0.8, 0.9, 1.0];
    let nf = ctx.pick(6, 7);
    for len in 0..=nf {
        let n = 6usize.pow(len as u32) * 3 * pcts.len();
        let dec = |i: usize| {
            let mut ix = Ix(i);
            let d = *ix.of(&dets);
            let p = *ix.of(&pcts);
            let w: Vec<usize> = (0..len).map(|_| ix.take(6)).collect();
            (w, d, p)
        };
        ctx.sweep(&format!("spec_words{}", len), n, |i| format!("{:?}", dec(i)), |i| {
            let (w, d, p) = dec(i);
            let m: Vec<Vec<f32>> = w.iter().map(|&k| frames[k].to_vec()).collect();
            spec_case(ctx, d, &m, p)
        });
    }
    let bins = [1usize, 2, 33, 257, 1025];
    let lens = [5usize, 40, 101, 200, 333];
    let fam = 3 * pcts.len() * bins.len() * lens.len() * ctx.pick(10, 40) * 2;
    let decs = |i: usize| {
        let mut ix = Ix(i);
        let d = *ix.of(&dets);
        let p = *ix.of(&pcts);
        let b = *ix.of(&bins);
        let l = *ix.of(&lens);
        let sharp = ix.take(2);
        let per = 2 + ix.0;
        (d, p, b, l, sharp, per)
    };
    ctx.sweep("spec_families", fam, |i| format!("{:?}", decs(i)), |i| {
        let (d, p, b, l, sharp, per) = decs(i);
        let m: Vec<Vec<f32>> = (0..l)
            .map(|t| {
                let on = t % per == per / 2;
                let acc = [1.0f32, 4.0, 2.0, 8.0][(t / per) % 4];
                (0..b)
                    .map(|k| {
                        let base = [0.5f32, 0.25, 1.0][(k + t / 7) % 3];
                        if on && (sharp == 1 || k * 3 >= b) { base + acc } else { base }
                    })
                    .collect()
            })
            .collect();
        spec_case(ctx, d, &m, p)
    });
    // one bin at a time carries the whole event, whatever its place in the spectrum
    let hb = ctx.pick(vec![2usize, 9, 65, 257], vec![2, 9, 65, 257, 1025]);
    let hots: Vec<(usize, usize)> = hb.iter().flat_map(|&b| (0..b).map(move |k| (b, k))).collect();
    ctx.sweep("hot_bins", hots.len() * 3 * 2, |i| format!("(bins, bin) {:?} detector {} bed {}", hots[i / 6], i % 3, i / 3 % 2), |i| {
        let (b, k) = hots[i / 6];
        let m: Vec<Vec<f32>> = (0..14)
            .map(|t| (0..b).map(|j| (if i / 3 % 2 == 0 { 0.0 } else { 0.125 * ((j * 5 + 1) % 3) as f32 }) + if j == k { [1.0f32, 1.0, 8.0, 2.0, 2.0, 0.5, 0.5, 6.0, 0.25, 0.25, 0.25, 3.0, 1.0, 0.0][t] } else { 0.0 }).collect())
            .collect();
        spec_case(ctx, dets[i % 3], &m, 0.5)
    });
    // very many frames
    ctx.sweep("many_frames", 4, |i| format!("detector {}", i), |i| {
        let n = 66_000usize;
        let lv = |t: usize| [0.25f32, 0.25, 4.0, 1.0, 1.0, 2.0, 0.5][t % 7] * if t % 1001 == 2 { 2.0 } else { 1.0 };
        if i == 3 {
            let x: Vec<f32> = (0..n * 2).map(|k| lv(k / 2) * if k % 2 == 0 { 0.1 } else { -0.1 }).collect();
            return energy_case(ctx, &x, 2, 2, -20.0);
        }
        let m: Vec<Vec<f32>> = (0..n).map(|t| vec![lv(t), 0.25, lv(t + 3)]).collect();
        spec_case(ctx, dets[i], &m, 0.8)
    });
    ctx.sweep("spec_invalid", 3 * 4, |i| format!("{}", i), |i| {
        let d = dets[i % 3];
        let r = match i / 3 {
            0 => run_det(d, &[vec![1.0, 2.0], vec![2.0, 1.0]], -0.1),
            1 => run_det(d, &[vec![1.0, 2.0], vec![2.0, 1.0]], 1.5),
            2 => run_det(d, &[vec![1.0, 2.0], vec![2.0, 1.0]], f32::NAN),
            _ => {
                if matches!(d, Det::Hpss) {
                    return Ok(Obs::new(9, false, 0));
                }
                run_det(d, &[vec![1.0, 2.0], vec![2.0]], 0.5)
            }
        };
        ensure!(r.is_err(), "invalid argument accepted by {:?}", d);
        Ok(Obs::new(i as u64, true, 1))
    });
    // threshold helpers: order statistics
    let vals = [0.0f32, 0.5, 1.0, 2.0, 5.0];
    let nl = ctx.pick(6, 8);
    for len in 0..=nl {
        ctx.sweep(&format!("threshold{}", len), 5usize.pow(len as u32), |i| {
            let mut ix = Ix(i);
            format!("{:?}", (0..len).map(|_| *ix.of(&vals)).collect::<Vec<_>>())
        }, |i| {
            let mut ix = Ix(i);
            let v: Vec<f32> = (0..len).map(|_| *ix.of(&vals)).collect();
            if v.is_empty() {
                ensure!(adaptive_threshold_median_mad(&v, 1.0).is_err() && percentile_threshold(&v, 0.5).is_err(), "empty accepted");
                return Ok(Obs::new(0, false, 2));
            }
            let med = |mut a: Vec<f64>| {
                a.sort_by(|x, y| x.partial_cmp(y).unwrap());
                let n = a.len();
                if n % 2 == 0 { (a[n / 2 - 1] + a[n / 2]) / 2.0 } else { a[n / 2] }
            };
            let m = med(v.iter().map(|x| *x as f64).collect());
            let mad = med(v.iter().map(|x| (*x as f64 - m).abs()).collect());
            let mut h = H::new();
            for k in [0.0f32, 1.0, 3.0] {
                let t = adaptive_threshold_median_mad(&v, k).map_err(|e| e.to_string())?;
                ensure!(closed(t as f64, m + k as f64 * mad, 1e-5, 1e-6), "median+{}*MAD = {} expected {}", k, t, m + k as f64 * mad);
                h = h.f(t);
            }
            ensure!(adaptive_threshold_median_mad(&v, -1.0).is_err(), "negative multiplier accepted");
            let mut s = v.clone();
            s.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for p in [0.0f32, 0.25, 0.5, 0.75, 1.0] {
                let t = percentile_threshold(&v, p).map_err(|e| e.to_string())?;
                let e = s[((s.len() as f32 * p) as usize).min(s.len() - 1)];
                ensure!(t == e, "percentile {} of {:?} = {} expected {}", p, v, t, e);
            }
            Ok(Obs::new(h.done(), true, 9))
        });
    }
}

// ---------------------------------------------------------------- P10
fn consensus_case(ctx: &Ctx, lists: &[Vec<usize>; 4], w: [f32; 4], tol_ms: u32, sr: u32) -> CaseResult {
    let got = vote_onsets(
        OnsetConsensus { energy_flux: lists[0].clone(), spectral_flux: lists[1].clone(), hfc: lists[2].clone(), hpss: lists[3].clone() },
        w, tol_ms, sr,
    )
    .map_err(|e| format!("error: {}", e))?;
    let t32 = (tol_ms as f32 / 1000.0 * sr as f32) as usize;
    let t64 = (tol_ms as u64 * sr as u64 / 1000) as usize;
    let tol = t64;
    let mut all: Vec<(usize, usize)> = lists.iter().enumerate().flat_map(|(m, l)| l.iter().map(move |&s| (s, m))).collect();
    all.sort();
    if t32 != t64 && all.windows(2).any(|p| p[1].0 - p[0].0 == t64 || p[1].0 - p[0].0 == t32) {
        ctx.ambiguous();
        return Ok(Obs::new(0, false, 1));
    }
    let sumw: f64 = w.iter().map(|x| *x as f64).sum();
    let mut want: Vec<(usize, f64, u32)> = vec![];
    let mut i = 0;
    while i < all.len() {
        let mut j = i + 1;
        while j < all.len() && all[j].0 - all[j - 1].0 <= tol {
            j += 1;
        }
        let c = &all[i..j];
        let center = (c.iter().map(|x| x.0 as u128).sum::<u128>() / c.len() as u128) as usize;
        let mut tot = 0.0;
        let mut votes = 0;
        for m in 0..4 {
            if c.iter().any(|x| x.1 == m) {
                tot += w[m] as f64;
                votes += 1;
            }
        }
        want.push((center, if sumw > 0.0 { tot / sumw } else { 0.0 }, votes));
        i = j;
    }
    ensure!(got.len() == want.len(), "{} candidates, expected {}: {:?}", got.len(), want.len(), got);
    for p in got.windows(2) {
        ensure!(p[0].confidence >= p[1].confidence - 1e-6, "not sorted by confidence: {:?}", got);
    }
    let mut g: Vec<_> = got.iter().collect();
    g.sort_by_key(|c| c.time_samples);
    for (a, b) in g.iter().zip(&want) {
        ensure!(a.time_samples.abs_diff(b.0) <= 1, "cluster centre {} expected {}", a.time_samples, b.0);
        ensure!(closed(a.confidence as f64, b.1, 1e-4, 1e-5), "cluster at {}: confidence {} expected {}", b.0, a.confidence, b.1);
        ensure!(a.voted_by == b.2, "cluster at {}: voted_by {} expected {}", b.0, a.voted_by, b.2);
        ensure!(closed(a.time_seconds as f64, a.time_samples as f64 / sr as f64, 1e-5, 1e-6), "time {} s for sample {}", a.time_seconds, a.time_samples);
        ensure!((0.0..=1.0).contains(&a.confidence), "confidence {}", a.confidence);
    }
    let h = want.iter().fold(H::new(), |h, x| h.u(x.0 as u64).u(x.2 as u64).u((x.1 * 1000.0) as u64));
    Ok(Obs::new(h.done(), want.iter().any(|x| x.2 >= 2), 1))
}

pub fn p10(ctx: &Ctx) {
    ctx.rule("all assignments of subsets of 5 colliding positions to the 4 methods x weight sets x tolerance/rate geometry, all short unsorted/duplicated lists, far positions; reference = gap-chained clusters; non-trivial = some cluster has two methods");
    let ws: [[f32; 4]; 8] = [[0.25; 4], [0.5, 0.25, 0.125, 0.125], [1.0, 0.0, 0.0, 0.0], [0.0; 4], [2.0, 1.0, 4.0, 1.0], [0.0, 0.0, 0.5, 0.5], [0.125, 0.0625, 0.25, 0.03125], [1e-3, 2e-3, 0.0, 5e-4]];
    // (sr, tolerance, positions relative to the tolerance)
    let geos: [(u32, u32); 4] = [(1000, 50), (44100, 50), (8000, 25), (48000, 100)];
    let posf = |t: usize| [[0usize, t, 2 * t + 1, 3 * t + 1, 9 * t], [5, 5 + t / 2, 5 + t + 1, 4 * t + 5, 5 * t + 6]];
    let npos = 2;
    let n = 32usize.pow(4) * ctx.pick(1, ws.len() * geos.len() * npos);
    let dec = |i: usize| {
        let mut ix = Ix(i);
        let masks: Vec<usize> = (0..4).map(|_| ix.take(32)).collect();
        let s = if ctx.thorough() { ix.0 } else { masks.iter().fold(0, |a, m| a * 31 + m) };
        let w = ws[s % ws.len()];
        let g = geos[(s / ws.len()) % geos.len()];
        let pv = (s / (ws.len() * geos.len())) % npos;
        (masks, w, g, pv)
    };
    ctx.sweep("subsets", n, |i| format!("{:?}", dec(i)), |i| {
        let (m, w, (sr, tol), pv) = dec(i);
        let pos = posf((tol as usize) * sr as usize / 1000)[pv];
        let l: [Vec<usize>; 4] = std::array::from_fn(|k| (0..5).filter(|b| m[k] >> b & 1 == 1).map(|b| pos[b]).collect());
        consensus_case(ctx, &l, w, tol, sr)
    });
    // unsorted and duplicated lists: words up to length 3 for two methods, one each for the others
    let p = [100usize, 0, 150, 201, 151, 1000];
    let per = 1 + 6 + 36 + 216;
    let word = |mut k: usize| -> Vec<usize> {
        for len in 0..4 {
            let c = 6usize.pow(len);
            if k < c {
                let mut ix = Ix(k);
                return (0..len).map(|_| *ix.of(&p)).collect();
            }
            k -= c;
        }
        unreachable!()
    };
    let n = per * per * ctx.pick(1, 7);
    ctx.sweep("words", n, |i| format!("{}", i), |i| {
        let mut ix = Ix(i);
        let a = word(ix.take(per));
        let b = word(ix.take(per));
        let c = word(ix.0 % 7);
        consensus_case(ctx, &[b, c, a, vec![]], ws[i % ws.len()], 50, 1000)
    });
    // every gap around the tolerance for many tolerance/rate pairs, positions far into a long recording
    let srs = [8000u32, 11025, 16000, 22050, 32000, 44100, 48000, 88200, 96000, 192000];
    let tols = [1u32, 10, 20, 50, 100, 250, 1000];
    let bases = [0usize, 1_000_000, 400_000_000, (1usize << 31) - 2000, (1usize << 32) + 7];
    let n = srs.len() * tols.len() * bases.len() * 7;
    ctx.sweep("gaps", n, |i| format!("{}", i), |i| {
        let mut ix = Ix(i);
        let sr = *ix.of(&srs);
        let tol = *ix.of(&tols);
        let b = *ix.of(&bases);
        let t = (sr as u64 * tol as u64 / 1000) as i64;
        let g = (t + [-2i64, -1, 0, 1, 2, 100, -t][ix.take(7)]).max(0) as usize;
        consensus_case(ctx, &[vec![b, b + 10 * t as usize], vec![b + g], vec![b + 2 * g], vec![]], [0.25; 4], tol, sr)
    });
    // chains: every detection within the tolerance of the one before, however long the group gets
    let cl: Vec<usize> = (1..=ctx.pick(40, 120)).chain([64, 255, 256, 257, 400]).collect();
    ctx.sweep("chains", cl.len() * 4 * 3, |i| format!("members {} spread {} methods {}", cl[i / 12], i % 4, i / 4 % 3), |i| {
        let (n, d) = (cl[i / 12], [50usize, 49, 26, 51][i % 4]);
        let mut l: [Vec<usize>; 4] = Default::default();
        for k in 0..n {
            let m = match i / 4 % 3 { 0 => k % 4, 1 => 3 - (k % 2), _ => (k * k) % 4 };
            l[m].push(7 + k * d);
        }
        // a second group clear of the first
        l[1].push(7 + n * d + 51);
        consensus_case(ctx, &l, ws[i % ws.len()], 50, 1000)
    });
    // long lists: two drifting detectors (clusters must neither merge nor split)
    ctx.sweep("long", 200, |i| format!("{}", i), |i| {
        let per = 400 + 37 * (i % 20);
        let drift = i / 20;
        let a: Vec<usize> = (0..300).map(|k| 50 + k * per).collect();
        let b: Vec<usize> = (0..300).map(|k| 50 + k * per + k * drift / 4).collect();
        let c: Vec<usize> = (0..150).map(|k| 50 + 2 * k * per + per / 2).collect();
        consensus_case(ctx, &[a, b, c, vec![]], ws[4], 50, 1000)
    });
    ctx.sweep("invalid", 6, |i| format!("{}", i), |i| {
        let mut w = [0.25f32; 4];
        if i >= 2 {
            w[i - 2] = -0.1;
        }
        let r = vote_onsets(OnsetConsensus { energy_flux: vec![1], spectral_flux: vec![], hfc: vec![], hpss: vec![] }, w, if i == 0 { 0 } else { 50 }, if i == 1 { 0 } else { 44100 });
        ensure!(r.is_err(), "invalid argument accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
}

// ---------------------------------------------------------------- P20
pub fn median_filter(m: &[Vec<f64>], margin: usize, time: bool) -> Vec<Vec<f64>> {
    let (nf, nb) = (m.len(), m[0].len());
    let mut o = vec![vec![0.0; nb]; nf];
    for t in 0..nf {
        for b in 0..nb {
            let (c, n) = if time { (t, nf) } else { (b, nb) };
            let mut w: Vec<f64> = (c.saturating_sub(margin)..c.saturating_add(margin).saturating_add(1).min(n)).map(|k| if time { m[k][b] } else { m[t][k] }).collect();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let l = w.len();
            o[t][b] = if l % 2 == 0 { (w[l / 2 - 1] + w[l / 2]) * 0.5 } else { w[l / 2] };
        }
    }
    o
}
fn ref_hpss(m: &[Vec<f32>], margin: usize, iters: usize) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let orig: Vec<Vec<f64>> = m.iter().map(|f| f.iter().map(|v| *v as f64).collect()).collect();
    let (mut h, mut p) = (orig.clone(), orig.clone());
    for it in 0..iters {
        let (hp, pp) = (h.clone(), p.clone());
        h = median_filter(&h, margin, true);
        p = median_filter(&p, margin, false);
        let mut ch = 0f64;
        for t in 0..m.len() {
            for b in 0..m[0].len() {
                let tot = h[t][b] + p[t][b];
                let r = if tot > 1e-10 { h[t][b] / tot } else { 0.5 };
                h[t][b] = orig[t][b] * r;
                p[t][b] = orig[t][b] * (1.0 - r);
                ch = ch.max((h[t][b] - hp[t][b]).abs()).max((p[t][b] - pp[t][b]).abs());
            }
        }
        if it > 0 && ch < 1e-6 {
            break;
        }
    }
    (h, p)
}
fn hpss_case(m: &[Vec<f32>], margin: usize) -> CaseResult {
    let (h, p) = hpss_decompose(m, margin).map_err(|e| format!("error: {}", e))?;
    ensure!(h.len() == m.len() && p.len() == m.len(), "frame count changed");
    let mut hh = H::new();
    let mut sep = false;
    for t in 0..m.len() {
        ensure!(h[t].len() == m[t].len() && p[t].len() == m[t].len(), "bin count changed");
        for b in 0..m[t].len() {
            let (x, a, c) = (m[t][b], h[t][b], p[t][b]);
            ensure!(a >= 0.0 && c >= 0.0, "negative component at ({},{}): {} {}", t, b, a, c);
            ensure!(close(a + c, x, 1e-4, 1e-6), "components do not add up at ({},{}): {}+{} != {}", t, b, a, c, x);
            if x > 0.0 && (a - c).abs() > 0.2 * x {
                sep = true;
            }
            hh = hh.u(((a - c) * 64.0).round() as i64 as u64);
        }
    }
    let (rh, _) = ref_hpss(m, margin, 10);
    for t in 0..m.len() {
        for b in 0..m[t].len() {
            ensure!(closed(h[t][b] as f64, rh[t][b], 5e-3, 1e-4), "harmonic part at ({},{}): {} expected {} of {}", t, b, h[t][b], rh[t][b], m[t][b]);
        }
    }
    Ok(Obs::new(hh.done(), sep, 1))
}
pub fn p20(ctx: &Ctx) {
    ctx.rule("all 0/1/4-valued spectrograms of a small shape x margin, line families (every tone row, every click column, crossings) at larger shapes; reference median-filter masking; non-trivial = some cell clearly separated");
    let vals = [0.0f32, 1.0, 4.0];
    for (nf, nb) in ctx.pick(vec![(1, 1), (1, 4), (4, 1), (2, 3), (3, 3)], vec![(1, 1), (1, 6), (6, 1), (2, 3), (3, 3), (3, 4), (4, 3), (2, 5)]) {
        let margins = [0usize, 1, 2, 10];
        let n = 3usize.pow((nf * nb) as u32) * margins.len();
        let dec = move |i: usize| {
            let mut ix = Ix(i);
            let mg = *ix.of(&margins);
            let m: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb).map(|_| *ix.of(&vals)).collect()).collect();
            (m, mg)
        };
        ctx.sweep(&format!("cells{}x{}", nf, nb), n, move |i| format!("{:?}", dec(i)), move |i| {
            let (m, mg) = dec(i);
            hpss_case(&m, mg)
        });
    }
    let shapes = ctx.pick(vec![(12usize, 9usize), (30, 20), (9, 40)], vec![(12, 9), (30, 20), (9, 40), (60, 33), (25, 65), (101, 17)]);
    for (nf, nb) in shapes {
        let mgs = [1usize, 2, 3, 5, 10, 17];
        let n = nf.min(10) * nb.min(10) * mgs.len() * 3;
        let dec = move |i: usize| {
            let mut ix = Ix(i);
            let row = ix.take(nb.min(10)) * nb / nb.min(10);
            let col = ix.take(nf.min(10)) * nf / nf.min(10);
            let mg = *ix.of(&mgs);
            (row, col, mg, ix.0)
        };
        ctx.sweep(&format!("lines{}x{}", nf, nb), n, move |i| format!("{:?}", dec(i)), move |i| {
            let (row, col, mg, k) = dec(i);
            let m: Vec<Vec<f32>> = (0..nf)
                .map(|t| {
                    (0..nb)
                        .map(|b| {
                            let tone = b == row && k != 1;
                            let click = t == col && k != 0;
                            0.125 * ((t * 3 + b * 5) % 4) as f32 + if tone { 4.0 } else { 0.0 } + if click { 2.0 } else { 0.0 }
                        })
                        .collect()
                })
                .collect();
            let o = hpss_case(&m, mg)?;
            let (h, p) = hpss_decompose(&m, mg).map_err(|e| e.to_string())?;
            // an isolated sustained row is harmonic, an isolated full column percussive
            if k == 0 && nf > 2 * mg + 1 && nb > 2 * mg + 1 {
                let s: f32 = (0..nf).map(|t| h[t][row]).sum();
                let q: f32 = (0..nf).map(|t| p[t][row]).sum();
                ensure!(s > q, "sustained tone classified percussive: {} <= {}", s, q);
            }
            if k == 1 && nf > 2 * mg + 1 && nb > 2 * mg + 1 {
                let s: f32 = h[col].iter().sum();
                let q: f32 = p[col].iter().sum();
                ensure!(q > s, "click classified harmonic: {} <= {}", q, s);
            }
            Ok(o)
        });
    }
    // filter windows wider than usual, and the levels of real spectrograms
    let wide = [(7usize, 300usize), (300, 7), (3, 1025)];
    let wm = [33usize, 65, 100, 129, 200, 500, usize::MAX];
    ctx.sweep("wide", wide.len() * wm.len() * 5, |i| format!("shape {:?} margin {} level {}", wide[i % 3], wm[i / 3 % 7], [1.0, 256.0, 0.03125, 1e20, 1e-6][i / 21]), |i| {
        let ((nf, nb), mg, lv) = (wide[i % 3], wm[i / 3 % 7], [1.0f32, 256.0, 0.03125, 1e20, 1e-6][i / 21]);
        // a level that rises along the longer axis, so that every width has its own median
        let m: Vec<Vec<f32>> = (0..nf).map(|t| (0..nb).map(|b| lv * (0.25 + ((t.max(b) * 7) / nf.max(nb)) as f32 + ((t * 3 + b * 5) % 4) as f32 * 0.125)).collect()).collect();
        hpss_case(&m, mg)
    });
    ctx.sweep("invalid", 3, |i| format!("{}", i), |i| {
        let m: Vec<Vec<f32>> = match i { 0 => vec![], 1 => vec![vec![]], _ => vec![vec![1.0, 2.0], vec![1.0]] };
        ensure!(hpss_decompose(&m, 2).is_err(), "malformed spectrogram accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
}
