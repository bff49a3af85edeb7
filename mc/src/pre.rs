//! P05 normalization, P06 silence trimming, P07 stereo downmix.
use crate::core::*;
use crate::ensure;
use stratum_dsp::preprocessing::channel_mixer::{stereo_to_mono, ChannelMixMode};
use stratum_dsp::preprocessing::normalization::{
    normalize, LoudnessMetadata, NormalizationConfig, NormalizationMethod,
};
use stratum_dsp::preprocessing::silence::{detect_and_trim, SilenceDetector};

// ---------------------------------------------------------------- P05
/// Reference K-weighted, gated loudness (f64).
pub fn ref_lufs(x: &[f32], sr: f64) -> Option<f64> {
    let block = (sr as f32 * 400.0 / 1000.0) as usize;
    assert!(block > 0);
    let w0 = 2.0 * std::f64::consts::PI * 1681.9745 / sr;
    let (c, s) = (w0.cos(), w0.sin());
    let alpha = s / 2.0 * (1.0f64 / 0.707).sqrt();
    let a0 = 1.0 + alpha;
    let (b0, b1, b2) = ((1.0 + c) / 2.0 / a0, -(1.0 + c) / a0, (1.0 + c) / 2.0 / a0);
    let (a1, a2) = (-2.0 * c / a0, (1.0 - alpha) / a0);
    let (mut z1, mut z2) = (0.0f64, 0.0f64);
    let y: Vec<f64> = x
        .iter()
        .map(|&v| {
            let v = v as f64;
            let o = b0 * v + z1;
            z1 = b1 * v + z2 - a1 * o;
            z2 = b2 * v - a2 * o;
            o
        })
        .collect();
    let gate = 10f64.powf((-70.0 + 0.691) / 10.0);
    let e: Vec<f64> = y
        .chunks(block)
        .map(|b| b.iter().map(|v| v * v).sum::<f64>() / b.len() as f64)
        .collect();
    // a block sitting on the gate is not decidable in f32
    if e.iter().any(|v| (v / gate - 1.0).abs() < 1e-3) {
        return None;
    }
    let g: Vec<f64> = e.into_iter().filter(|v| *v > gate).collect();
    if g.is_empty() {
        return Some(f64::NEG_INFINITY);
    }
    Some(-0.691 + 10.0 * (g.iter().sum::<f64>() / g.len() as f64).log10())
}

fn db(x: f64) -> f64 {
    20.0 * x.log10()
}

fn p05_case(
    ctx: &Ctx,
    input: &[f32],
    method: NormalizationMethod,
    target: f32,
    head: f32,
    sr: f32,
) -> CaseResult {
    let cfg = NormalizationConfig { method, target_loudness_lufs: target, max_headroom_db: head };
    let mut out = input.to_vec();
    let r = normalize(&mut out, cfg.clone(), sr);
    if input.is_empty() {
        ensure!(r.is_err(), "empty input accepted: {:?}", r);
        return Ok(Obs::new(0, false, 1));
    }
    let md: LoudnessMetadata = match r {
        Ok(m) => m,
        Err(e) => return Err(format!("error on valid input: {}", e)),
    };
    ensure!(out.len() == input.len(), "length changed");
    let n = input.len() as f64;
    let peak = input.iter().fold(0f64, |a, &x| a.max(x.abs() as f64));
    let rms = (input.iter().map(|&x| (x as f64).powi(2)).sum::<f64>() / n).sqrt();
    let headroom = 10f64.powf(-(head as f64) / 20.0);
    // reference gain
    let eps = 1e-10f64;
    // "silent" inputs sit well away from the 1e-10 limit in the alphabet
    let mut lufs = None;
    let gain: Option<f64> = match method {
        NormalizationMethod::Peak => (peak > eps).then(|| headroom / peak),
        NormalizationMethod::RMS => (rms > eps).then(|| {
            let t = 10f64.powf((target as f64 + 3.0 - head as f64) / 20.0) / rms;
            t.min(1.0 / peak)
        }),
        NormalizationMethod::Loudness => match ref_lufs(input, sr as f64) {
            None => {
                ctx.ambiguous();
                return Ok(Obs::new(1, false, 1));
            }
            Some(l) if l == f64::NEG_INFINITY => (peak > eps).then(|| headroom / peak),
            Some(l) => {
                lufs = Some(l);
                Some(10f64.powf((target as f64 - l) / 20.0).min(headroom / peak))
            }
        },
    };
    match gain {
        None => {
            ensure!(out == input, "silent input was altered");
            ensure!(md.gain_db == 0.0, "silent input: gain_db {}", md.gain_db);
            ensure!(md.peak_db == f32::NEG_INFINITY && md.rms_db == f32::NEG_INFINITY, "silent input levels {:?}", md);
            Ok(Obs::new(2, false, 1))
        }
        Some(g) => {
            let (ia, _) = input.iter().enumerate().fold((0, 0f32), |m, (i, &v)| if v.abs() > m.1 { (i, v.abs()) } else { m });
            let got = out[ia] as f64 / input[ia] as f64;
            ensure!(closed(got, g, 3e-3, 0.0), "applied gain {} expected {}", got, g);
            for (i, (&a, &b)) in input.iter().zip(&out).enumerate() {
                let e = a as f64 * got;
                ensure!(
                    closed(b as f64, e, 1e-5, 1e-30),
                    "sample {}: {} -> {} expected {} (one uniform gain {})", i, a, b, e, got
                );
            }
            let op = out.iter().fold(0f32, |a, &x| a.max(x.abs()));
            ensure!(op <= 1.0 + 1e-5, "output peak {} above full scale", op);
            if !matches!(method, NormalizationMethod::RMS) {
                ensure!(op as f64 <= headroom * (1.0 + 1e-4), "output peak {} above headroom {}", op, headroom);
            }
            ensure!(closed(md.gain_db as f64, db(got), 0.0, 5e-3), "gain_db {} but applied {}", md.gain_db, db(got));
            ensure!(closed(md.peak_db as f64, db(peak), 0.0, 1e-2), "peak_db {} but input peak {}", md.peak_db, db(peak));
            if rms > 2e-10 {
                ensure!(closed(md.rms_db as f64, db(rms), 0.0, 3e-2), "rms_db {} but input rms {}", md.rms_db, db(rms));
            }
            match (lufs, md.measured_lufs) {
                (None, None) => {}
                (Some(a), Some(b)) => ensure!(closed(a, b as f64, 0.0, 5e-2), "measured {} LUFS, reference {}", b, a),
                (a, b) => return Err(format!("measured_lufs {:?} reference {:?}", b, a)),
            }
            Ok(Obs::new(H::new().u((db(g) * 10.0).round() as i64 as u64).u(method as u64).done(), true, 1))
        }
    }
}

pub fn p05(ctx: &Ctx) {
    ctx.rule("all words over a 9-letter sample alphabet up to a length, x method x target x headroom x rate, plus all block patterns of long buffers; f64 reference gain; non-trivial = a gain was applied");
    let letters: [f32; 9] = [0.0, 1e-7, -0.001, 0.05, -0.3, 0.5, 0.9, -1.0, 2.5];
    let methods = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness];
    let targets = [-14.0f32, -23.0, -6.0, 0.0];
    let heads = [0.0f32, 1.0, 3.0, 12.0];
    let max_len = ctx.pick(4, 5);
    for len in 0..=max_len {
        let words = letters.len().pow(len as u32);
        let n = words * 3 * 4 * 4;
        let dec = |i: usize| {
            let mut ix = Ix(i);
            let m = *ix.of(&methods);
            let t = *ix.of(&targets);
            let h = *ix.of(&heads);
            let w: Vec<f32> = (0..len).map(|_| *ix.of(&letters)).collect();
            (w, m, t, h)
        };
        ctx.sweep(
            &format!("words{}", len),
            n,
            |i| format!("{:?}", dec(i)),
            |i| {
                let (w, m, t, h) = dec(i);
                p05_case(ctx, &w, m, t, h, 44100.0)
            },
        );
    }
    // long buffers: sequences of blocks (quarter of a loudness block each) of differing level/content
    let rates = [8000.0f32, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0, 11025.0];
    let kinds: [(f32, f32); 6] = [(0.0, 0.0), (0.0005, 440.0), (0.02, 1000.0), (0.3, 440.0), (0.9, 3000.0), (1.8, 100.0)];
    let nb = ctx.pick(4, 6);
    let words = kinds.len().pow(nb as u32);
    let tails = [0usize, 1, 37];
    let n = words * 3 * tails.len();
    let dec = |i: usize| {
        let mut ix = Ix(i);
        let m = *ix.of(&methods);
        let tail = *ix.of(&tails);
        let w: Vec<usize> = (0..nb).map(|_| ix.take(kinds.len())).collect();
        let s = w.iter().fold(tail, |a, b| a * 7 + b);
        (w, m, tail, rates[s % 7], targets[s % 4], heads[(s / 3) % 4], s)
    };
    ctx.sweep(
        "blocks",
        n,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (w, m, tail, sr, t, h, s) = dec(i);
            // block lengths that align / misalign with the 400 ms loudness block
            let bl = (sr * [0.4, 0.2, 0.13][s % 3]) as usize;
            let mut x = Vec::new();
            for &k in &w {
                let (a, f) = kinds[k];
                let o = x.len();
                x.extend((0..bl).map(|j| a * ((o + j) as f32 * f * std::f32::consts::TAU / sr).sin()));
            }
            x.extend((0..tail).map(|j| if j % 2 == 0 { 0.25 } else { -0.25 }));
            p05_case(ctx, &x, m, t, h, sr)
        },
    );
    // rejected: loudness with a rate below one sample per block
    ctx.sweep("low_rate", 4, |i| format!("rate {}", [0.0, -1.0, 1.0, 2.0][i]), |i| {
        let mut x = vec![0.5f32; 8];
        let r = normalize(&mut x, NormalizationConfig { method: NormalizationMethod::Loudness, ..Default::default() }, [0.0f32, -1.0, 1.0, 2.0][i]);
        ensure!(r.is_err(), "unusable rate accepted");
        ensure!(x == vec![0.5f32; 8], "buffer altered by a rejected call");
        Ok(Obs::new(i as u64, true, 1))
    });
}

// ---------------------------------------------------------------- P06
/// Reference: maximal runs of silent frames. Returns (trimmed range, map) or None if a frame is
/// too close to the threshold to be decided in f32.
pub fn ref_trim(
    x: &[f32],
    sr: u32,
    thr_db: f32,
    min_ms: u32,
    fs: usize,
) -> Option<((usize, usize), Vec<(usize, usize)>)> {
    let n = x.len();
    if n == 0 {
        return Some(((0, 0), vec![]));
    }
    let thr = 10f64.powf(thr_db as f64 / 20.0);
    let hop = (fs / 2).max(1);
    let nf = if n >= fs { (n - fs) / hop + 1 } else { 1 };
    let rms = |a: usize, b: usize| -> Option<bool> {
        let e = (x[a..b].iter().map(|&v| (v as f64).powi(2)).sum::<f64>() / (b - a).max(1) as f64).sqrt();
        if (e - thr).abs() < 1e-5 * thr {
            return None;
        }
        Some(e <= thr)
    };
    let mut silent = vec![];
    for i in 0..nf {
        silent.push(rms(i * hop, (i * hop + fs).min(n))?);
    }
    let covered = ((nf - 1) * hop + fs).min(n);
    let tail_silent = if covered < n { rms(covered, n)? } else { true };
    let min_samples = (min_ms as f32 / 1000.0 * sr as f32) as usize;
    let min_frames = min_samples.div_ceil(hop);
    let mut map = vec![];
    let mut i = 0;
    while i < nf {
        if !silent[i] {
            i += 1;
            continue;
        }
        let s = i;
        while i < nf && silent[i] {
            i += 1;
        }
        if s == 0 || i - s >= min_frames {
            let end = if i < nf {
                i * hop
            } else if tail_silent {
                n
            } else {
                covered
            };
            map.push((s * hop, end));
        }
    }
    let a = map.first().filter(|r| r.0 == 0).map(|r| r.1).unwrap_or(0);
    let b = map.last().filter(|r| r.1 == n).map(|r| r.0).unwrap_or(n);
    Some(((a.min(b), b.max(a.min(b))), map))
}

fn p06_case(ctx: &Ctx, x: &[f32], sr: u32, thr: f32, min_ms: u32, fs: usize) -> CaseResult {
    let (out, map) = detect_and_trim(x, sr, SilenceDetector { threshold_db: thr, min_duration_ms: min_ms, frame_size: fs })
        .map_err(|e| format!("error on valid input: {}", e))?;
    let n = x.len();
    // structural, model-free
    let mut prev = 0;
    for (k, &(a, b)) in map.iter().enumerate() {
        ensure!(a < b && b <= n, "region ({},{}) outside 0..{}", a, b, n);
        ensure!(k == 0 || a >= prev, "regions not ascending/disjoint: {:?}", map);
        prev = b;
    }
    let Some(((a, b), rmap)) = ref_trim(x, sr, thr, min_ms, fs) else {
        ctx.ambiguous();
        return Ok(Obs::new(0, false, 1));
    };
    ensure!(map == rmap, "silence map {:?}, expected {:?}", map, rmap);
    ensure!(out.len() == b - a, "kept {} samples, expected {}..{} of {}", out.len(), a, b, n);
    ensure!(out.iter().zip(&x[a..b]).all(|(p, q)| p.to_bits() == q.to_bits()), "kept samples differ from the input slice {}..{}", a, b);
    Ok(Obs::new(H::new().u(a as u64).u((n - b) as u64).u(rmap.len() as u64).done(), !rmap.is_empty(), 1))
}

pub fn p06(ctx: &Ctx) {
    ctx.rule("all words over {0, quiet, loud} samples up to a length x frame size x min duration; all words over half-frame blocks x unexamined tail at real frame sizes; non-trivial = at least one silence region");
    let thr = -40.0;
    let letters = [0.0f32, 0.004, 0.8];
    let max_len = ctx.pick(10, 12);
    for len in 0..=max_len {
        let words = 3usize.pow(len as u32);
        // min durations expressed at 1 kHz: 0, 1, 2, 3, 6 samples
        let mins = [0u32, 1, 2, 3, 6];
        let fss = [1usize, 2, 3, 4, 5, 7];
        let n = words * mins.len() * fss.len();
        let dec = |i: usize| {
            let mut ix = Ix(i);
            let m = *ix.of(&mins);
            let f = *ix.of(&fss);
            let w: Vec<f32> = (0..len).map(|_| *ix.of(&letters)).collect();
            (w, m, f)
        };
        ctx.sweep(
            &format!("words{}", len),
            n,
            |i| format!("{:?}", dec(i)),
            |i| {
                let (w, m, f) = dec(i);
                p06_case(ctx, &w, 1000, thr, m, f)
            },
        );
    }
    // realistic geometry: half-frame blocks, default 500 ms
    let geo = [(44100u32, 2048usize), (8000, 256), (48000, 1024), (22050, 4096)];
    let nb = ctx.pick(5, 7);
    let words = 3usize.pow(nb as u32);
    let tails = [0usize, 1, 2, 3];
    let tailk = [0.0f32, 0.004, 0.8];
    let reps = [1usize, 30]; // block repeated 1x (short) or ~30x (longer than 500 ms)
    let n = words * tails.len() * tailk.len() * reps.len() * geo.len() * 3;
    let dec = |i: usize| {
        let mut ix = Ix(i);
        let g = *ix.of(&geo);
        let rep = *ix.of(&reps);
        let t = *ix.of(&tails);
        let tk = *ix.of(&tailk);
        let th = *ix.of(&[-40.0f32, -60.0, -20.0]);
        let w: Vec<usize> = (0..nb).map(|_| ix.take(3)).collect();
        (w, g, rep, t, tk, th)
    };
    ctx.sweep(
        "blocks",
        n,
        |i| format!("{:?}", dec(i)),
        |i| {
            let (w, (sr, fs), rep, t, tk, th) = dec(i);
            let hop = fs / 2;
            let mut x = vec![];
            for &k in &w {
                let rep = if k == 0 { rep } else { 1 };
                x.extend(std::iter::repeat_n(letters[k], hop * rep));
            }
            let tl = [0, 1, hop / 2, hop - 1][t];
            x.extend(std::iter::repeat_n(tk, tl));
            p06_case(ctx, &x, sr, th, 500, fs)
        },
    );
    ctx.sweep("invalid", 2, |i| format!("invalid {}", i), |i| {
        let r = detect_and_trim(&[0.5; 10], if i == 0 { 0 } else { 8000 }, SilenceDetector { threshold_db: -40.0, min_duration_ms: 500, frame_size: if i == 0 { 4 } else { 0 } });
        ensure!(r.is_err(), "zero rate / zero frame accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
}

// ---------------------------------------------------------------- P07
pub fn p07(ctx: &Ctx) {
    ctx.rule("all pairs of stereo words over an 11-letter alphabet up to a length x 4 modes, mismatched lengths, long buffers at every block boundary length; non-trivial = channels differ");
    let letters: [f32; 11] = [0.0, -0.0, 0.25, -0.25, 0.5, -1.0, 1.0, 0.3333333, f32::MIN_POSITIVE, 2.5, -1e4];
    let modes = [ChannelMixMode::Mono, ChannelMixMode::MidSide, ChannelMixMode::Dominant, ChannelMixMode::Center];
    let check = |l: &[f32], r: &[f32], m: ChannelMixMode| -> CaseResult {
        let res = stereo_to_mono(l, r, m);
        if l.len() != r.len() {
            ensure!(res.is_err(), "length mismatch accepted");
            return Ok(Obs::new(7, true, 1));
        }
        let out = res.map_err(|e| format!("error: {}", e))?;
        ensure!(out.len() == l.len(), "length {} for {} frames", out.len(), l.len());
        for i in 0..l.len() {
            let (a, b) = (l[i], r[i]);
            let ok = match m {
                ChannelMixMode::Dominant => {
                    if a.abs() > b.abs() {
                        out[i] == a
                    } else if b.abs() > a.abs() {
                        out[i] == b
                    } else {
                        // equal magnitude: documented as the louder channel, left wins ties
                        out[i] == a
                    }
                }
                _ => closed(out[i] as f64, (a as f64 + b as f64) / 2.0, 1e-6, 1e-38),
            };
            ensure!(ok, "frame {}: L={} R={} {:?} -> {}", i, a, b, m, out[i]);
        }
        Ok(Obs::new(H::new().fs(&out).done(), l != r, 1))
    };
    let max_len = ctx.pick(2, 3);
    for len in 0..=max_len {
        let words = letters.len().pow(2 * len as u32);
        let dec = |i: usize| {
            let mut ix = Ix(i);
            let m = *ix.of(&modes);
            let l: Vec<f32> = (0..len).map(|_| *ix.of(&letters)).collect();
            let r: Vec<f32> = (0..len).map(|_| *ix.of(&letters)).collect();
            (l, r, m)
        };
        ctx.sweep(&format!("words{}", len), words * 4, |i| format!("{:?}", dec(i)), |i| {
            let (l, r, m) = dec(i);
            check(&l, &r, m)
        });
    }
    // every length 0..=1100 (block-boundary errors in chunked rewrites), then some long ones
    let lens: Vec<usize> = (0..=1100).chain([2047, 2048, 2049, 4095, 4096, 4097, 44100, 65535, 65536, 65537]).collect();
    // unrelated, identical, opposite, one-sided and overloaded channels
    let lens: Vec<usize> = lens.into_iter().chain(ctx.pick(vec![1 << 20], vec![1 << 20, (1 << 24) + 3])).collect();
    ctx.sweep("lengths", lens.len() * 4 * 6, |i| format!("len {} mode {:?} channels {}", lens[i / 24], modes[i % 4], i / 4 % 6), |i| {
        let n = lens[i / 24];
        let mut l: Vec<f32> = (0..n).map(|k| ((k * 7919 % 2003) as f32 / 1001.0) - 1.0).collect();
        let mut r: Vec<f32> = (0..n).map(|k| ((k * 104729 % 1999) as f32 / 999.0) - 1.0).collect();
        match i / 4 % 6 {
            0 => {}
            1 => r.clone_from(&l),
            2 => r = l.iter().map(|v| -v).collect(),
            3 => l.fill(0.0),
            4 => r.fill(0.0),
            _ => {
                l.iter_mut().for_each(|v| *v *= 7.0);
                r.iter_mut().for_each(|v| *v *= 7.0);
            }
        }
        check(&l, &r, modes[i % 4])
    });
    ctx.sweep("mismatch", 36 * 4, |i| format!("{}x{}", (i / 4) % 6, i / 24), |i| {
        let l = vec![0.5f32; (i / 4) % 6];
        let r = vec![0.5f32; i / 24];
        check(&l, &r, modes[i % 4])
    });
}
