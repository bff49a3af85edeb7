//! P14 beat grids, P15 incremental tempo tracker, P21 tempo variation and metre.
use crate::core::*;
use crate::ensure;
use std::collections::{BTreeSet, VecDeque};
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
use stratum_dsp::features::beat_tracking::tempo_variation::*;
use stratum_dsp::features::beat_tracking::time_signature::*;

fn es(e: stratum_dsp::AnalysisError) -> String {
    e.to_string()
}

// ---------------------------------------------------------------- P21

fn mean_cv(v: &[f64]) -> (f64, f64) {
    let m = v.iter().sum::<f64>() / v.len() as f64;
    let var = v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / v.len() as f64;
    (m, if m > 1e-10 { var.sqrt() / m } else { 0.0 })
}

fn gaps(b: &[f32]) -> Vec<f64> {
    b.windows(2).map(|w| w[1] as f64 - w[0] as f64).filter(|g| *g > 0.0).collect()
}

fn variation_case(ctx: &Ctx, b: &[f32], nominal: f32) -> CaseResult {
    let got = detect_tempo_variations(b, nominal).map_err(es)?;
    let single = |conf: f32| -> CaseResult {
        let g = &got[0];
        ensure!(got.len() == 1 && !g.is_variable && g.bpm == nominal && g.confidence == conf, "short input: {:?}", got);
        ensure!(b.is_empty() || (g.start_time == b[0] && g.end_time == b[b.len() - 1]), "short input covers {:?}", g);
        ensure!(!has_tempo_variation(&got), "short input is variable");
        Ok(Obs::new(1, false, 1))
    };
    if b.len() < 4 {
        return single(0.5);
    }
    let (first, last) = (b[0] as f64, b[b.len() - 1] as f64);
    let total = last - first;
    if (total - 2.0).abs() < 1e-5 && total != 2.0 {
        ctx.ambiguous();
        return Ok(Obs::new(2, false, 1));
    }
    if total < 2.0 {
        return single(0.8);
    }
    ensure!(!got.is_empty(), "no segment");
    for s in &got {
        ensure!(s.start_time as f64 >= first - 1e-5 && s.end_time as f64 <= last + 1e-5 && s.start_time <= s.end_time, "segment {:?} leaves the beats {}..{}", s, first, last);
        ensure!((0.0..=1.0).contains(&s.confidence) && s.bpm.is_finite() && s.bpm > 0.0, "segment values {:?}", s);
    }
    ensure!(got.windows(2).all(|w| w[0].start_time < w[1].start_time && w[0].end_time <= w[1].end_time), "segments out of order");
    ensure!(has_tempo_variation(&got) == got.iter().any(|s| s.is_variable), "variation summary wrong");
    let dur = (total / 4.0).clamp(4.0, 8.0);
    let mut want: Vec<(f64, f64, f64, f64, f64)> = vec![];
    let mut amb = false;
    let mut t = first;
    while t < last - 1e-9 {
        let e = (t + dur).min(last);
        for x in b {
            for lim in [t, e] {
                let d = (*x as f64 - lim).abs();
                amb |= d != 0.0 && d < 2e-5 * (1.0 + last.abs());
            }
        }
        amb |= (last - t).abs() < 1e-4;
        let inside: Vec<f32> = b.iter().cloned().filter(|x| *x as f64 >= t && *x as f64 <= e).collect();
        if inside.len() >= 3 {
            let g = gaps(&inside);
            if !g.is_empty() {
                let (m, cv) = mean_cv(&g);
                amb |= (cv - 0.15).abs() < 1e-4;
                want.push((t, e, 60.0 / m, cv, (1.0 - (cv / 0.3).min(1.0)).max(0.0)));
            }
        }
        t += dur * 0.5;
    }
    if amb {
        ctx.ambiguous();
        return Ok(Obs::new(3, true, 1));
    }
    if want.is_empty() {
        ensure!(got.len() == 1 && !got[0].is_variable && got[0].bpm == nominal && got[0].confidence == 0.8, "no analysable segment: {:?}", got);
        ensure!(got[0].start_time == b[0] && got[0].end_time == b[b.len() - 1], "fallback segment {:?}", got[0]);
        return Ok(Obs::new(4, true, 1));
    }
    ensure!(got.len() == want.len(), "{} segments, want {}", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        ensure!((g.start_time as f64 - w.0).abs() < 1e-4 && (g.end_time as f64 - w.1).abs() < 1e-4, "segment {}..{}, want {}..{}", g.start_time, g.end_time, w.0, w.1);
        ensure!((g.bpm as f64 - w.2).abs() < 1e-3 * w.2, "segment tempo {}, want {}", g.bpm, w.2);
        ensure!((g.confidence as f64 - w.4).abs() < 1e-3, "segment confidence {}, want {}", g.confidence, w.4);
        ensure!(g.is_variable == (w.3 > 0.15), "segment variable={}, spacing varies by {}", g.is_variable, w.3);
    }
    let mut h = H::new();
    for g in &got {
        h = h.f(g.bpm).f(g.start_time).u(g.is_variable as u64);
    }
    Ok(Obs::new(h.done(), true, 1))
}

fn metre_case(ctx: &Ctx, b: &[f32], bpm: f32) -> CaseResult {
    let (sig, conf) = detect_time_signature(b, bpm).map_err(es)?;
    ensure!((0.0..=1.0).contains(&conf), "metre confidence {}", conf);
    let n = sig.beats_per_bar();
    ensure!(matches!((n, sig.name()), (4, "4/4") | (3, "3/4") | (6, "6/8")), "metre {} {}", n, sig.name());
    let g = gaps(b);
    if b.len() < 8 || g.is_empty() {
        ensure!(n == 4 && conf == 0.5, "too few beats give {} with {}", sig.name(), conf);
        return Ok(Obs::new(n as u64, false, 1));
    }
    let (m, cv) = mean_cv(&g);
    let score = |lag: usize| {
        if g.len() <= lag {
            return 0.0;
        }
        let k = g.len() - lag;
        let a = (0..k).map(|i| 1.0 / (1.0 + (g[i] - g[i + lag]).abs() / m)).sum::<f64>() / k as f64;
        (a * 0.7 + 0.3 / (1.0 + cv)).min(1.0)
    };
    let s = [(4u32, score(4)), (3, score(3)), (6, score(6))];
    let mut best = s[0];
    let mut amb = false;
    for x in &s[1..] {
        let d = x.1 - best.1;
        amb |= (d - 1e-3).abs() < 5e-4;
        if d > 1e-3 {
            best = *x;
        }
    }
    if amb {
        // near the decision margin either neighbour may win; the score reported is still one of them
        ctx.ambiguous();
        ensure!(s.iter().any(|x| x.0 == n && (x.1 - conf as f64).abs() < 1e-3), "metre {} reported with {}", n, conf);
        return Ok(Obs::new(n as u64, true, 1));
    }
    ensure!(n == best.0, "metre {}, want {} (scores {:?})", n, best.0, s);
    ensure!((conf as f64 - best.1).abs() < 1e-3, "metre confidence {}, want {}", conf, best.1);
    Ok(Obs::new(H::new().u(n as u64).f(conf).done(), true, 1))
}

fn from_gaps(start: f32, g: &[f32], times: usize) -> Vec<f32> {
    let mut t = start as f64;
    let mut v = vec![start];
    for _ in 0..times {
        for x in g {
            t += *x as f64;
            v.push(t as f32);
        }
    }
    v
}

pub fn p21(ctx: &Ctx) {
    ctx.rule("all beat-gap words up to the stated length (once, and repeated to long sequences) x start time x nominal tempo: segments, tempi, variable flags, metre and confidences compared with an f64 reference; metre at shifted start times compared");
    let al: &[f32] = &[0.25, 0.5, 0.625, 1.0, 2.5];
    let lm = ctx.pick(8, 9);
    for l in 0..=lm {
        let nw = al.len().pow(l);
        ctx.sweep(
            &format!("gaps{}", l),
            nw * 2,
            |i| format!("gap word {} (base {}), start {}", i % nw, al.len(), i / nw),
            |i| {
                let mut x = Ix(i);
                let mut w = x.take(nw);
                let st = [0.0, 3.5][x.take(2)];
                let g: Vec<f32> = (0..l)
                    .map(|_| {
                        let d = w % al.len();
                        w /= al.len();
                        al[d]
                    })
                    .collect();
                let b = from_gaps(st, &g, 1);
                let a = variation_case(ctx, &b, 120.0)?;
                let c = metre_case(ctx, &b, 120.0)?;
                Ok(Obs::new(H::new().u(a.outcome).u(c.outcome).done(), a.nontrivial, 2))
            },
        );
    }
    // repeated words: long tracks, every metre period
    let al2: &[f32] = &[0.5, 0.53, 0.375, 0.75, 0.0];
    let lm2 = ctx.pick(6, 8);
    let reps: &[usize] = &[2, 3, 5, 9, 21];
    for l in 1..=lm2 {
        let nw = al2.len().pow(l);
        ctx.sweep(
            &format!("repeat{}", l),
            nw * reps.len(),
            |i| format!("gap word {} (base 5) repeated {}", i % nw, reps[i / nw]),
            |i| {
                let mut x = Ix(i);
                let mut w = x.take(nw);
                let r = *x.of(reps);
                let g: Vec<f32> = (0..l)
                    .map(|_| {
                        let d = w % 5;
                        w /= 5;
                        al2[d]
                    })
                    .collect();
                let b = from_gaps(0.0, &g, r);
                let a = variation_case(ctx, &b, 97.0)?;
                let c = metre_case(ctx, &b, 97.0)?;
                Ok(Obs::new(H::new().u(a.outcome).u(c.outcome).done(), a.nontrivial, 2))
            },
        );
    }
    // whole tracks and sets: many segments; bursts of beats closer than any tempo
    let al3: &[f32] = &[0.5, 0.53125, 0.03125, 0.015625, 1.0];
    let reps3: &[usize] = &[60, 300, 1500];
    ctx.sweep(
        "tracks",
        125 * reps3.len(),
        |i| format!("gap word {} (base 5) repeated {}", i % 125, reps3[i / 125]),
        |i| {
            let g: Vec<f32> = [i % 5, i / 5 % 5, i / 25 % 5].iter().map(|d| al3[*d]).collect();
            let b = from_gaps(0.25, &g, reps3[i / 125]);
            let a = variation_case(ctx, &b, 111.0)?;
            let c = metre_case(ctx, &b, 111.0)?;
            Ok(Obs::new(H::new().u(a.outcome).u(c.outcome).done(), a.nontrivial, 2))
        },
    );
    // steady beats: same metre wherever they start, steady tempo reported everywhere
    let bpms: Vec<f32> = (80..=ctx.pick(400u32, 480)).map(|b| b as f32 * 0.5).collect();
    let sts: &[f32] = &[0.0, 0.1, 1.0 / 3.0, 7.77, 63.01];
    ctx.sweep(
        "steady",
        bpms.len() * sts.len() * 4,
        |i| {
            let mut x = Ix(i);
            format!("{} BPM from {} s, length {}", x.of(&bpms), x.of(sts), [8, 13, 40, 200][x.take(4)])
        },
        |i| {
            let mut x = Ix(i);
            let bpm = *x.of(&bpms);
            let st = *x.of(sts);
            let n = [8usize, 13, 40, 200][x.take(4)];
            let b: Vec<f32> = (0..n).map(|k| st + k as f32 * 60.0 / bpm).collect();
            let (sig, conf) = detect_time_signature(&b, bpm).map_err(es)?;
            ensure!(sig.beats_per_bar() == 4 && conf > 0.99, "steady beats are {} with {}", sig.name(), conf);
            let s = detect_tempo_variations(&b, bpm).map_err(es)?;
            ensure!(s.iter().all(|x| !x.is_variable && (x.bpm - bpm).abs() < 0.005 * bpm), "steady beats at {} give {:?}", bpm, s.iter().find(|x| x.is_variable || (x.bpm - bpm).abs() >= 0.005 * bpm));
            Ok(Obs::new(H::new().f(bpm).done(), true, 2))
        },
    );
    ctx.sweep(
        "invalid",
        4,
        |i| format!("invalid tempo {}", i),
        |i| {
            let b = from_gaps(0.0, &[0.5], 12);
            let bpm = [0.0, -1.0, 1e-11, f32::NEG_INFINITY][i];
            ensure!(detect_tempo_variations(&b, bpm).is_err() && detect_time_signature(&b, bpm).is_err(), "tempo {} accepted", bpm);
            Ok(Obs::new(i as u64, true, 2))
        },
    );
}

// ---------------------------------------------------------------- P14

const REACH: f64 = 0.053_649; // distance at which the emission probability is 0.1

/// distance to the closest of the sorted onsets
fn nearest(on: &[f32], t: f64) -> f64 {
    let p = on.partition_point(|o| (*o as f64) < t);
    let at = |i: usize| on.get(i).map_or(f64::INFINITY, |o| (*o as f64 - t).abs());
    at(p).min(if p > 0 { at(p - 1) } else { f64::INFINITY })
}

/// reference beats (time, confidence); None when single precision cannot decide membership
fn ref_track(bpm: f32, on: &[f32]) -> Option<Vec<(f64, f64)>> {
    let iv = 60.0 / bpm as f64;
    let (a, z) = (on[0] as f64, on[on.len() - 1] as f64);
    let n = (((z - a) / iv) - 1e-6).ceil().max(0.0) as usize + 1;
    let mut r = vec![];
    for k in 0..n + 1 {
        let t = a + k as f64 * iv;
        let d = nearest(on, t);
        if (d - REACH).abs() < 3e-5 * (1.0 + t.abs() * 0.05) {
            return None;
        }
        if d < REACH {
            let e = (-d * d / (2.0 * 0.025 * 0.025)).exp();
            let al = if d < 0.05 { 1.0 - d / 0.05 } else { 0.0 };
            r.push((t, (e * 0.7 + al * 0.3).min(1.0)));
        }
    }
    Some(r)
}

fn grid_case(ctx: &Ctx, bpm: f32, conf: f32, on: &[f32]) -> CaseResult {
    let (grid, stab) = generate_beat_grid(bpm, conf, on, 44100).map_err(|e| format!("rejected: {}", e))?;
    let mut so = on.to_vec();
    so.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (lo, hi) = (so[0] as f64, so[so.len() - 1] as f64);
    // guarantees of every grid
    let b = &grid.beats;
    ensure!(!b.is_empty(), "no beats");
    ensure!(b.windows(2).all(|w| w[0] < w[1]), "beats are not strictly increasing: {:?}", b.windows(2).find(|w| w[0] >= w[1]));
    for t in b {
        let d = nearest(&so, *t as f64);
        ensure!(t.is_finite() && d < REACH + 1e-3, "beat {} is {} s from every onset", t, d);
        ensure!(*t as f64 >= lo - 1e-4 && *t as f64 <= hi + REACH + 1e-3, "beat {} outside the onsets", t);
    }
    ensure!(grid.downbeats.first() == b.first(), "first beat is no downbeat");
    ensure!(grid.downbeats.iter().all(|d| b.contains(d)), "a downbeat is no beat");
    ensure!(grid.downbeats.windows(2).all(|w| w[0] < w[1]), "downbeats not increasing");
    ensure!(grid.bars == grid.downbeats, "bars do not start at the downbeats");
    ensure!(stab.is_finite() && (0.0..=1.0).contains(&stab), "stability {}", stab);
    // HMM stage
    let hm = HmmBeatTracker::new(bpm, so.clone(), 44100).track_beats().map_err(es)?;
    let Some(r) = ref_track(bpm, &so) else {
        ctx.ambiguous();
        return Ok(Obs::new(H::new().fs(b).done(), true, 2));
    };
    ensure!(hm.len() == r.len(), "{} tracked beats, want {}", hm.len(), r.len());
    for (g, w) in hm.iter().zip(&r) {
        ensure!((g.time_seconds as f64 - w.0).abs() < 2e-5 + 6e-7 * w.0.abs(), "tracked beat at {}, want {}", g.time_seconds, w.0);
        ensure!((g.confidence as f64 - w.1).abs() < 2e-3, "beat confidence {}, want {}", g.confidence, w.1);
    }
    // composition
    let times: Vec<f32> = hm.iter().map(|x| x.time_seconds).collect();
    let segs = detect_tempo_variations(&times, bpm).map_err(es)?;
    let variable = segs.iter().any(|s| s.is_variable);
    let mut want: Vec<(f32, f32)> = hm.iter().map(|x| (x.time_seconds, x.confidence)).collect();
    if variable {
        let mut all: Vec<(f32, f32)> = vec![];
        let mut tr = BayesianBeatTracker::new(bpm, conf);
        for s in &segs {
            if s.is_variable {
                let o: Vec<f32> = so.iter().cloned().filter(|t| *t >= s.start_time && *t <= s.end_time).collect();
                if !o.is_empty() {
                    let (nb, _) = tr.update_with_onsets(&o, 44100).map_err(es)?;
                    if let Ok(v) = HmmBeatTracker::new(nb, o, 44100).track_beats() {
                        all.extend(v.iter().map(|x| (x.time_seconds, x.confidence)));
                    }
                }
            } else {
                all.extend(hm.iter().filter(|x| x.time_seconds >= s.start_time && x.time_seconds <= s.end_time).map(|x| (x.time_seconds, x.confidence)));
            }
        }
        if !all.is_empty() {
            all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
            let gap = 30.0 / bpm;
            let mut m: Vec<(f32, f32)> = vec![];
            for x in all {
                match m.last_mut() {
                    Some(l) if ((x.0 - l.0) - gap).abs() < 1e-4 => {
                        let _ = l;
                        ctx.ambiguous();
                        return Ok(Obs::new(H::new().fs(b).done(), true, 2));
                    }
                    Some(l) if x.0 - l.0 < gap => {
                        if x.1 > l.1 {
                            *l = x;
                        }
                    }
                    _ => m.push(x),
                }
            }
            want = m;
        }
    }
    ensure!(b.len() == want.len(), "{} beats, want {} (variable tempo: {})", b.len(), want.len(), variable);
    for (g, w) in b.iter().zip(&want) {
        ensure!((g - w.0).abs() < 1e-4, "beat at {}, want {}", g, w.0);
    }
    let (sig, _) = detect_time_signature(b, bpm).map_err(es)?;
    let bar = 60.0 / bpm as f64 * sig.beats_per_bar() as f64;
    let mut down = vec![b[0]];
    for t in &b[1..] {
        let d = (*t as f64 - *down.last().unwrap() as f64 - bar).abs();
        if (d - bar * 0.1).abs() < 2e-5 * (1.0 + hi) {
            ctx.ambiguous();
            return Ok(Obs::new(H::new().fs(b).done(), true, 2));
        }
        if d < bar * 0.1 {
            down.push(*t);
        }
    }
    ensure!(grid.downbeats == down, "downbeats {:?}, want {:?} in {}", grid.downbeats, down, sig.name());
    let g = gaps(b);
    let ws = if g.is_empty() { 0.0 } else { 1.0 / (1.0 + mean_cv(&g).1) };
    ensure!((stab as f64 - ws).abs() < 1e-3, "stability {}, want {}", stab, ws);
    Ok(Obs::new(H::new().fs(b).fs(&grid.downbeats).f(stab).done(), b.len() > 1, 3))
}

pub fn p14(ctx: &Ctx) {
    ctx.rule("all onset words (per half-beat slot: absent/present; per beat slot: absent or one of five timing offsets) up to the stated length, once and repeated, x tempo x start x order: grids compared with an f64 tracking reference and the composition of the variation, tracker and metre stages");
    ctx.assume("onsets within 30 us of the acceptance distance and spacings at a decision limit are ambiguous; ordering, containment and downbeat guarantees are still checked there");
    let bpms: &[f32] = &[120.0, 60.0, 173.5, 300.0, 41.0, 128.25];
    let l = ctx.pick(14usize, 18);
    // slots half a beat apart, first always present
    ctx.sweep(
        "slots",
        (1 << l) * bpms.len() * 2,
        |i| {
            let mut x = Ix(i);
            format!("slot word {:b}, {} BPM, start {}", x.take(1 << l), x.of(bpms), [0.0, 2.3][x.take(2)])
        },
        |i| {
            let mut x = Ix(i);
            let w = x.take(1 << l);
            let bpm = *x.of(bpms);
            let st = [0.0f32, 2.3][x.take(2)];
            let mut on = vec![st];
            for k in 0..l {
                if w >> k & 1 == 1 {
                    on.push(st + (k + 1) as f32 * 30.0 / bpm);
                }
            }
            grid_case(ctx, bpm, 0.7, &on)
        },
    );
    // timing offsets
    let off: &[Option<f32>] = &[None, Some(0.0), Some(0.02), Some(-0.045), Some(0.051), Some(0.07)];
    let lo = ctx.pick(7, 9);
    let nw = off.len().pow(lo);
    ctx.sweep(
        "offsets",
        nw * 2,
        |i| format!("offset word {} (base 6) at {} BPM", i % nw, [120.0, 96.5][i / nw]),
        |i| {
            let mut x = Ix(i);
            let mut w = x.take(nw);
            let bpm = [120.0f32, 96.5][x.take(2)];
            let mut on = vec![1.0f32];
            for k in 0..lo {
                if let Some(o) = off[w % off.len()] {
                    on.push(1.0 + (k + 1) as f32 * 60.0 / bpm + o);
                }
                w /= off.len();
            }
            grid_case(ctx, bpm, 0.4, &on)
        },
    );
    // long tracks: repeated beat words (missing beats make the tempo variable), tempo error
    let lw = ctx.pick(8usize, 12);
    let errs: &[f32] = &[0.0, 0.01, -0.02, 0.04];
    ctx.sweep(
        "long",
        (1 << lw) * 4 * errs.len() * 3,
        |i| {
            let mut x = Ix(i);
            format!("beat word {:b}, repeats {}, tempo error {}, tempo {}", x.take(1 << lw), [3, 6, 12, 25][x.take(4)], x.of(errs), x.take(3))
        },
        |i| {
            let mut x = Ix(i);
            let w = x.take(1 << lw) | 1;
            let rep = [3usize, 6, 12, 25][x.take(4)];
            let e = *x.of(errs);
            let bpm = [120.0f32, 77.0, 200.0][x.take(3)];
            let iv = 60.0 / (bpm * (1.0 + e));
            let mut on = vec![];
            for k in 0..lw * rep {
                // one irregular region in the middle
                let miss = k * 3 / (lw * rep) == 1 && k % 3 == 1;
                if w >> (k % lw) & 1 == 1 && !miss {
                    on.push(0.25 + k as f32 * iv);
                }
            }
            grid_case(ctx, bpm, 0.9, &on)
        },
    );
    // hours of music: thousands of beats on one clock
    let vl: &[usize] = ctx.pick(&[1500, 2600][..], &[1500, 2600, 5000][..]);
    let vb: &[f32] = &[120.0, 77.0, 174.3, 93.7];
    ctx.sweep(
        "very_long",
        vl.len() * vb.len() * 3,
        |i| format!("{} beats at {} BPM, kind {}", vl[i % vl.len()], vb[i / vl.len() % vb.len()], i / vl.len() / vb.len()),
        |i| {
            let mut x = Ix(i);
            let n = *x.of(vl);
            let bpm = *x.of(vb);
            let kind = x.take(3);
            let on: Vec<f32> = (0..n)
                .filter(|k| match kind {
                    0 => true,
                    1 => k % 7 != 3,
                    _ => *k < n / 3 || *k > n / 2 || k % 3 != 1,
                })
                .map(|k| (0.25 + k as f64 * 60.0 / bpm as f64) as f32)
                .collect();
            grid_case(ctx, bpm, 0.9, &on)
        },
    );
    // order and duplicates do not matter
    let perms = 40320usize;
    let stepp = ctx.pick(3, 1);
    ctx.sweep(
        "order",
        perms / stepp,
        |i| format!("permutation {} of eight onsets", i * stepp),
        |i| {
            let mut pool: Vec<f32> = (0..8).map(|k| 0.3 + k as f32 * 0.5 + if k == 5 { 0.03 } else { 0.0 }).collect();
            let sorted = pool.clone();
            let mut n = i * stepp;
            let mut v = vec![];
            for k in (1..=8).rev() {
                v.push(pool.remove(n % k));
                n /= k;
            }
            v.push(v[0]);
            let a = generate_beat_grid(120.0, 0.5, &v, 8000).map_err(es)?;
            let b = generate_beat_grid(120.0, 0.5, &sorted, 8000).map_err(es)?;
            ensure!(a.0.beats == b.0.beats && a.0.downbeats == b.0.downbeats && a.1 == b.1, "onset order changes the grid");
            Ok(Obs::new(1, true, 2))
        },
    );
    ctx.sweep(
        "invalid",
        14,
        |i| format!("invalid argument {}", i),
        |i| {
            let on = [0.0f32, 0.5, 1.0];
            let n = f32::NAN;
            let (bpm, o): (f32, &[f32]) = match i {
                0 => (0.0, &on),
                1 => (-1.0, &on),
                2 => (300.5, &on),
                3 => (n, &on),
                4 => (f32::INFINITY, &on),
                5 => (120.0, &[]),
                6 => (120.0, &[0.0, n]),
                7 => (120.0, &[f32::INFINITY]),
                8 => (120.0, &[0.0, f32::NEG_INFINITY]),
                _ => (120.0, &on),
            };
            let r = guarded(|| generate_beat_grid(bpm, 0.5, o, 44100))?;
            ensure!(r.is_err() == (i < 9), "argument {} gives {:?}", i, r.map(|x| x.0.beats));
            if i < 6 {
                ensure!(HmmBeatTracker::new(bpm, o.to_vec(), 1).track_beats().is_err(), "tracker accepts it");
            }
            // sample rate and confidence do not matter
            if i >= 9 {
                let a = generate_beat_grid(120.0, [0.0, 1.0, -3.0, n, 0.2][i - 9], &on, i as u32).map_err(es)?;
                let b = generate_beat_grid(120.0, 0.5, &on, 44100).map_err(es)?;
                ensure!(a.0.beats == b.0.beats && a.1 == b.1, "confidence or rate changes a steady grid");
            }
            Ok(Obs::new(i as u64, true, 2))
        },
    );
}

// ---------------------------------------------------------------- P15

fn likelihood(on: &[f32], bpm: f64) -> f64 {
    let iv = 60.0 / bpm;
    let s = on[0] as f64;
    let l: f64 = on
        .iter()
        .map(|t| {
            let q = (*t as f64 - s) / iv;
            let d = (q - q.round()).abs() * iv;
            -d * d / (2.0 * 0.05 * 0.05)
        })
        .sum();
    (l / on.len() as f64).exp()
}

/// one transition of the real tracker against the reference transition relation
fn step_check(tr: &mut BayesianBeatTracker, on: &[f32]) -> Result<bool, String> {
    let (b0, c0, h0) = (tr.current_bpm, tr.current_confidence, tr.history.clone());
    let r = tr.update_with_onsets(on, 44100);
    if on.is_empty() || b0 <= 1e-10 || b0 > 300.0 {
        ensure!(r.is_err(), "update accepted with tempo {} and {} onsets", b0, on.len());
        ensure!(tr.current_bpm.to_bits() == b0.to_bits() && tr.current_confidence == c0 && tr.history.len() == h0.len(), "rejected update changed the tracker");
        return Ok(false);
    }
    let (b1, c1) = r.map_err(es)?;
    ensure!(b1 == tr.current_bpm && c1 == tr.current_confidence && tr.get_bpm() == b1 && tr.get_confidence() == c1, "returned values are not the state");
    ensure!(tr.history.len() == h0.len() + 1 && tr.history[..h0.len()] == h0[..] && *tr.history.last().unwrap() == b1 && tr.get_history() == &tr.history[..], "history {:?}", tr.history);
    ensure!((0.0..=1.0).contains(&c1), "confidence {}", c1);
    ensure!(b1 == b0 || (60.0..=180.0).contains(&b1), "tempo moved to {}", b1);
    ensure!((b1 - b0).abs() <= 5.001 || !(60.0..=180.0).contains(&b0), "tempo jumped from {} to {}", b0, b1);
    // reference
    let (lo, hi) = ((b0 as f64 - 5.0).max(60.0), (b0 as f64 + 5.0).min(180.0));
    let mut grid = vec![];
    let mut x = lo;
    while x <= hi + 1e-6 {
        grid.push(x);
        x += 0.5;
    }
    if grid.is_empty() {
        ensure!(b1 == b0 && c1 == 0.0, "tempo without candidates: {} -> {} ({})", b0, b1, c1);
        return Ok(true);
    }
    let ls: Vec<f64> = grid.iter().map(|g| likelihood(on, *g)).collect();
    let m = ls.iter().cloned().fold(0.0, f64::max);
    let near: Vec<usize> = (0..grid.len()).filter(|i| ls[*i] >= m * (1.0 - 2e-4) - 1e-7).collect();
    if m < 1e-30 {
        return Ok(true);
    }
    let Some(k) = near.iter().find(|i| (grid[**i] - b1 as f64).abs() < 1e-2) else {
        return Err(format!("tempo {} -> {}, best supported is {:?}", b0, b1, near.iter().map(|i| grid[*i]).collect::<Vec<_>>()));
    };
    // evidence that does not distinguish tempi leaves the nearest candidate
    if ls.iter().all(|l| *l == 1.0) {
        ensure!((b1 - b0).abs() <= 0.2501 || !(60.0..=180.0).contains(&b0), "uninformative onsets moved {} to {}", b0, b1);
    }
    let ch = (b1 as f64 - b0 as f64).abs();
    let pens: Vec<f64> = [(0.0, 1.0, 1.0), (1.0, 3.0, 0.8), (3.0, 1e9, 0.5)].iter().filter(|p| ch > p.0 - 1e-3 && ch < p.1 + 1e-3).map(|p| p.2).collect();
    ensure!(pens.iter().any(|p| (c1 as f64 - (ls[*k] * p).min(1.0)).abs() < 1e-3), "confidence {} for likelihood {} and change {}", c1, ls[*k], ch);
    Ok(true)
}

fn train(start: f32, bpm: f32, n: usize) -> Vec<f32> {
    (0..n).map(|k| start + k as f32 * 60.0 / bpm).collect()
}

fn batches(ctx: &Ctx) -> Vec<Vec<f32>> {
    let mut v: Vec<Vec<f32>> = vec![vec![], vec![1.0], vec![0.0, 0.0], vec![0.0, 0.5], vec![3.0, 3.37, 4.9], vec![0.0, 30.0], vec![5.0, 4.0, 4.5]];
    let step = ctx.pick(8, 3);
    let mut b = 56;
    while b <= 190 {
        v.push(train(2.0, b as f32 + 0.25, 8));
        b += step;
    }
    v.push(train(100.0, 122.0, 3));
    v.push(train(0.0, 118.5, 24));
    // a train with one missing and one displaced onset
    let mut t = train(0.4, 121.0, 12);
    t.remove(5);
    t[7] += 0.06;
    v.push(t);
    v
}

pub fn p15(ctx: &Ctx) {
    ctx.rule("breadth-first closure of the reachable tracker states (tempo) under every batch of the onset alphabet, from every initial tempo; plus every batch sequence up to a depth; each transition compared with a reference transition relation and repeated on a fresh tracker");
    ctx.assume("candidates whose likelihoods agree to 2e-4 are both accepted");
    let ops = batches(ctx);
    let inits: Vec<f32> = vec![120.0, 60.0, 62.3, 54.9, 55.0, 57.5, 64.75, 179.9, 180.0, 183.0, 185.0, 186.0, 240.0, 300.0, 300.5, 40.0, 0.0, -5.0, 128.37];
    ctx.sweep(
        "closure",
        inits.len(),
        |i| format!("initial tempo {}", inits[i]),
        |i| {
            let mut seen: BTreeSet<u32> = BTreeSet::new();
            let mut q: VecDeque<(f32, Vec<u16>)> = VecDeque::new();
            seen.insert(inits[i].to_bits());
            q.push_back((inits[i], vec![]));
            let mut tr_n = 0u64;
            while let Some((b, path)) = q.pop_front() {
                for (k, on) in ops.iter().enumerate() {
                    let mut t = BayesianBeatTracker::new(b, 0.37);
                    ensure!(t.current_confidence == 0.37 && t.history.len() == 1, "fresh tracker");
                    step_check(&mut t, on).map_err(|e| format!("after batches {:?} then {}: {}", path, k, e))?;
                    tr_n += 1;
                    if seen.insert(t.current_bpm.to_bits()) {
                        if seen.len() > 4000 {
                            ctx.cap_hit();
                            return Ok(Obs::new(seen.len() as u64, true, tr_n));
                        }
                        let mut p = path.clone();
                        p.push(k as u16);
                        q.push_back((t.current_bpm, p));
                    }
                }
                // onsets that confirm the state do not move it
                if (60.0..=180.0).contains(&b) {
                    for n in [1usize, 2, 4, 9, 24] {
                        for st in [0.0f32, 1.7] {
                            let mut t = BayesianBeatTracker::new(b, 0.9);
                            step_check(&mut t, &train(st, b, n))?;
                            tr_n += 1;
                            let lim = if b - 5.0 >= 60.0 { 0.01 } else { 0.2501 };
                            ensure!((t.current_bpm - b).abs() <= lim, "{} onsets at the current tempo {} moved it to {}", n, b, t.current_bpm);
                        }
                    }
                }
            }
            ctx.note(&format!("reachable_tempi_from_{}", inits[i]), seen.len());
            Ok(Obs::new(H::new().u(seen.len() as u64).u(i as u64).done(), true, tr_n))
        },
    );
    // updates with very many onsets, displaced by an enumerated amount
    let many = [100usize, 255, 257, 300, 513, 1000];
    ctx.sweep(
        "many_onsets",
        many.len() * 5 * 4 * 4,
        |i| format!("{} onsets, displacement {}, tempo {}, error {}", many[i % 6], i / 6 % 5, i / 30 % 4, i / 120),
        |i| {
            let (n, d) = (many[i % 6], [0.0f32, 0.004, 0.01, 0.02, 0.04][i / 6 % 5]);
            let b = [62.0f32, 97.5, 120.0, 174.0][i / 30 % 4];
            let err = [0.0f32, 0.5, -1.5, 3.0][i / 120];
            let on: Vec<f32> = train(1.0, b, n).iter().enumerate().map(|(k, t)| t + d * [0.0, 1.0, -1.0, 0.5][k % 4]).collect();
            let mut t = BayesianBeatTracker::new(b + err, 0.6);
            step_check(&mut t, &on)?;
            Ok(Obs::new(H::new().f(t.current_bpm).f(t.current_confidence).done(), true, 1))
        },
    );
    // one tracker through a whole set
    let nu = ctx.pick(400usize, 3000);
    ctx.sweep(
        "long_history",
        inits.len() * 3,
        |i| format!("initial tempo {} order {}", inits[i / 3], i % 3),
        |i| {
            let mut t = BayesianBeatTracker::new(inits[i / 3], 0.5);
            let mut h = H::new();
            for k in 0..nu {
                let on = &ops[[k, k / 7, k * k][i % 3] % ops.len()];
                let mut fresh = BayesianBeatTracker::new(t.current_bpm, t.current_confidence);
                let ok = step_check(&mut t, on).map_err(|e| format!("update {}: {}", k, e))?;
                let _ = fresh.update_with_onsets(on, 8000);
                ensure!(!ok || (fresh.current_bpm == t.current_bpm && fresh.current_confidence == t.current_confidence), "update {} depends on more than tempo and onsets", k);
                h = h.f(t.current_bpm).f(t.current_confidence);
            }
            Ok(Obs::new(h.done(), true, 2 * nu as u64))
        },
    );
    // real histories: one tracker, all batch sequences, against fresh trackers
    let depth = 4;
    let sub: Vec<usize> = (0..ops.len()).collect();
    let n = sub.len().pow(depth);
    ctx.sweep(
        "histories",
        n,
        |i| format!("batch sequence {} (base {})", i, sub.len()),
        |i| {
            let mut x = Ix(i);
            let init = [120.0f32, 62.3, 171.0][i % 3];
            let mut t = BayesianBeatTracker::new(init, [0.8, -2.0, 7.0][i % 3]);
            ensure!((0.0..=1.0).contains(&t.current_confidence), "initial confidence {}", t.current_confidence);
            let mut h = H::new();
            for _ in 0..depth {
                let on = &ops[x.take(sub.len())];
                let mut fresh = BayesianBeatTracker::new(t.current_bpm, t.current_confidence);
                let ok = step_check(&mut t, on)?;
                let _ = fresh.update_with_onsets(on, 8000);
                ensure!(!ok || (fresh.current_bpm == t.current_bpm && fresh.current_confidence == t.current_confidence), "the update depends on more than tempo and onsets");
                h = h.f(t.current_bpm).f(t.current_confidence);
            }
            Ok(Obs::new(h.done(), true, 2 * depth as u64))
        },
    );
}
