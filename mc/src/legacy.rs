//! P11 onset-list tempo estimation: autocorrelation, comb filter, candidate merging, guardrails.
use crate::core::*;
use crate::ensure;
use std::cell::Cell;
use stratum_dsp::features::period::*;

/// integer autocorrelation of the frame-quantised onset list
fn ref_acf(onsets: &[usize], hop: usize) -> Vec<u64> {
    let n = onsets.iter().max().unwrap() / hop + 1;
    let mut b = vec![false; n];
    for &o in onsets {
        b[o / hop] = true;
    }
    let idx: Vec<usize> = (0..n).filter(|&i| b[i]).collect();
    let mut a = vec![0u64; n];
    for (k, &i) in idx.iter().enumerate() {
        for &j in &idx[k..] {
            a[j - i] += 1;
        }
    }
    a
}

fn near_int(x: f64) -> bool {
    let r = x.round();
    x != r && (x - r).abs() < 1e-3
}

fn autocorr_case(ctx: &Ctx, onsets: &[usize], sr: u32, hop: usize, lo: f32, hi: f32) -> CaseResult {
    let got = estimate_bpm_from_autocorrelation(onsets, sr, hop, lo, hi);
    if onsets.is_empty() || sr == 0 || hop == 0 || !(lo > 0.0) || !(hi > 0.0) || lo >= hi {
        ensure!(got.is_err(), "invalid parameters accepted: {:?}", got);
        return Ok(Obs::new(1, false, 1));
    }
    if onsets.len() < 2 {
        let g = got.map_err(|e| e.to_string())?;
        ensure!(g.is_empty(), "a single onset yields {:?}", g);
        return Ok(Obs::new(2, false, 1));
    }
    let acf = ref_acf(onsets, hop);
    if acf.len() < 2 {
        ensure!(got.map(|g| g.is_empty()).unwrap_or(true), "all onsets in one frame yield a tempo");
        return Ok(Obs::new(3, false, 1));
    }
    let g = got.map_err(|e| e.to_string())?;
    for c in &g {
        ensure!(c.bpm >= lo && c.bpm <= hi, "tempo {} outside [{}, {}]", c.bpm, lo, hi);
        ensure!((0.0..=1.0).contains(&c.confidence), "confidence {}", c.confidence);
    }
    ensure!(g.windows(2).all(|w| w[0].confidence >= w[1].confidence), "not ordered by confidence: {:?}", g);
    let q = |b: f32| 60.0 * sr as f64 / (b as f64 * hop as f64);
    let (ql, qh) = (q(hi), q(lo));
    if near_int(ql) || near_int(qh) {
        ctx.ambiguous();
        return Ok(Obs::new(4, false, 1));
    }
    let (lmin, lmax) = (ql.ceil() as usize, qh.floor() as usize);
    let mut want: Vec<(usize, f64)> = vec![];
    if lmin < lmax && lmax < acf.len() {
        let m = *acf[lmin..=lmax].iter().max().unwrap();
        for l in lmin + 1..lmax {
            let nb = acf[l - 1].max(acf[l + 1]);
            if acf[l] > nb {
                let p = acf[l] - nb;
                if 10 * p == m {
                    ctx.ambiguous();
                    return Ok(Obs::new(5, false, 1));
                }
                if 10 * p > m {
                    want.push((l, acf[l] as f64 / acf[0] as f64));
                }
            }
        }
    }
    ensure!(g.len() == want.len(), "{} candidates, {} autocorrelation peaks expected: got {:?}, want (lag, value) {:?}", g.len(), want.len(), g, want);
    let mut used = vec![false; g.len()];
    for (l, v) in &want {
        let b = 60.0 * sr as f64 / (*l as f64 * hop as f64);
        let k = (0..g.len()).find(|&k| !used[k] && closed(g[k].bpm as f64, b, 1e-5, 0.0) && (g[k].confidence as f64 - v).abs() < 2e-4);
        match k {
            Some(k) => used[k] = true,
            None => return Err(format!("no candidate at {:.3} BPM (lag {}) with confidence {:.4}: {:?}", b, l, v, g)),
        }
    }
    let mut h = H::new();
    for (l, v) in &want {
        h = h.u(*l as u64).u((v * 1e4) as u64);
    }
    Ok(Obs::new(h.done(), !want.is_empty(), 1))
}

/// Interval of the raw comb score of one tempo (rounding of the beat position / tolerance).
fn comb_score(on: &[usize], sr: u32, bpm: f64) -> (f64, f64) {
    let period = 60.0 * sr as f64 / bpm;
    let tol = (0.1 * 120.0 / bpm).clamp(0.05, 0.15) * period;
    let last = *on.last().unwrap() as f64;
    let q = last / period;
    let mut ns = vec![q.ceil() as usize + 1];
    if (q - q.round()).abs() < 1e-5 * q.max(1.0) {
        // the quotient is a whole number up to rounding: one beat more or less at the very end
        ns = vec![q.round() as usize + 1, q.round() as usize + 2];
    }
    let (mut lo, mut hi) = (f64::INFINITY, 0.0f64);
    for n in ns {
        let (mut a, mut b) = (0usize, 0usize);
        for k in 0..n {
            let t = k as f64 * period;
            let p = on.partition_point(|&o| (o as f64) < t);
            let mut d = f64::INFINITY;
            if p < on.len() {
                d = d.min((on[p] as f64 - t).abs());
            }
            if p > 0 {
                d = d.min((on[p - 1] as f64 - t).abs());
            }
            let eps = 1e-6 * t.max(period);
            // distances are compared after truncation to whole samples when choosing the nearest
            if d <= tol - 1.0 - eps || (d <= tol - eps && on.len() == 1) {
                a += 1;
            }
            if d <= tol + eps {
                b += 1;
            }
        }
        lo = lo.min(a as f64 / n as f64);
        hi = hi.max(b as f64 / n as f64);
    }
    (lo, hi)
}

fn comb_case(onsets: &[usize], sr: u32, lo: f32, hi: f32, res: f32) -> CaseResult {
    let got = estimate_bpm_from_comb_filter(onsets, sr, 512, lo, hi, res);
    if onsets.is_empty() || sr == 0 || !(lo > 0.0) || !(hi > 0.0) || lo >= hi || res <= 0.0 {
        ensure!(got.is_err(), "invalid parameters accepted: {:?}", got.map(|g| g.len()));
        return Ok(Obs::new(1, false, 1));
    }
    let g = got.map_err(|e| e.to_string())?;
    if onsets.len() < 2 {
        ensure!(g.is_empty(), "a single onset yields {:?}", g);
        return Ok(Obs::new(2, false, 1));
    }
    let mut on = onsets.to_vec();
    on.sort();
    let mut grid = vec![];
    let mut k = 0;
    while lo as f64 + k as f64 * res as f64 <= hi as f64 {
        grid.push(lo as f64 + k as f64 * res as f64);
        k += 1;
    }
    let sc: Vec<(f64, f64)> = grid.iter().map(|&b| comb_score(&on, sr, b)).collect();
    let (mlo, mhi) = (sc.iter().map(|s| s.0).fold(0.0, f64::max), sc.iter().map(|s| s.1).fold(0.0, f64::max));
    ensure!(g.windows(2).all(|w| w[0].confidence >= w[1].confidence), "not ordered by confidence");
    let mut seen = vec![None; grid.len()];
    for c in &g {
        ensure!(c.confidence >= 0.1 && c.confidence <= 1.0, "confidence {}", c.confidence);
        let k = ((c.bpm as f64 - lo as f64) / res as f64).round() as usize;
        ensure!(k < grid.len() && (grid[k] - c.bpm as f64).abs() < 1e-3, "tempo {} is not on the grid [{}, {}] step {}", c.bpm, lo, hi, res);
        ensure!(seen[k].is_none(), "tempo {} reported twice", c.bpm);
        seen[k] = Some(c.confidence as f64);
    }
    let mut exact = 0;
    for k in 0..grid.len() {
        let a = if mhi > 0.0 { sc[k].0 / mhi } else { 0.0 };
        let b = if mlo > 0.0 { (sc[k].1 / mlo).min(1.0) } else { 1.0 };
        if a == b {
            exact += 1;
        }
        match seen[k] {
            Some(v) => ensure!(v >= a - 1e-5 && v <= b + 1e-5, "{} BPM: confidence {}, beat/onset agreement gives [{}, {}]", grid[k], v, a, b),
            None => ensure!(a < 0.1 + 1e-6, "{} BPM missing although its confidence is at least {}", grid[k], a),
        }
    }
    Ok(Obs::new(H::new().u(g.len() as u64).u(exact).u((mhi * 1e5) as u64).f(g.first().map(|c| c.bpm).unwrap_or(0.0)).done(), !g.is_empty(), 1))
}

fn coarse_case(onsets: &[usize], sr: u32, lo: f32, hi: f32, range: f32) -> CaseResult {
    let got = coarse_to_fine_search(onsets, sr, 512, lo, hi, range).map_err(|e| e.to_string())?;
    let coarse = estimate_bpm_from_comb_filter(onsets, sr, 512, lo, hi, 2.0).map_err(|e| e.to_string())?;
    if coarse.is_empty() {
        ensure!(got.is_empty(), "no coarse candidate but {:?}", got);
        return Ok(Obs::new(0, false, 2));
    }
    let eq = |a: &[BpmCandidate], b: &[BpmCandidate]| {
        a.len() == b.len() && {
            let k = |v: &[BpmCandidate]| {
                let mut x: Vec<(u32, u32)> = v.iter().map(|c| (c.bpm.to_bits(), (c.confidence * 1e6).round() as u32)).collect();
                x.sort();
                x
            };
            k(a) == k(b)
        }
    };
    ensure!(got.windows(2).all(|w| w[0].confidence >= w[1].confidence), "not ordered by confidence");
    let top = coarse[0].confidence;
    let mut st = 2;
    for c in coarse.iter().filter(|c| c.confidence >= top - 1e-6) {
        st += 1;
        let fine = estimate_bpm_from_comb_filter(onsets, sr, 512, (c.bpm - range).max(lo), (c.bpm + range).min(hi), 0.5).map_err(|e| e.to_string())?;
        let want = if fine.is_empty() { &coarse } else { &fine };
        if eq(&got, want) {
            return Ok(Obs::new(H::new().u(got.len() as u64).f(got[0].bpm).done(), true, st));
        }
    }
    Err(format!("result is not the refinement around a best coarse candidate: {:?}", got.first()))
}

#[derive(Clone, Debug)]
struct Est {
    bpm: f64,
    conf: f64,
    n: u32,
}
impl Est {
    fn inr(&self) -> bool {
        self.bpm >= 60.0 && self.bpm <= 180.0
    }
    fn key(&self) -> f64 {
        if self.inr() {
            self.conf + 0.5
        } else {
            self.conf * 0.5
        }
    }
}

/// Reference merge. The flag says whether some decision was too close to call in single precision.
fn ref_merge(ac: &[BpmCandidate], cb: &[BpmCandidate], cents: f32) -> (Vec<Est>, bool) {
    let amb = Cell::new(false);
    // a < b, flagging near-ties of inexact operands
    let lt = |a: f64, b: f64| {
        if (a - b).abs() < 1e-4 {
            amb.set(true);
        }
        a < b
    };
    let le_exact = |a: f64, b: f64, inexact: bool| {
        if (a - b).abs() < 1e-4 && (inexact || a != b) {
            amb.set(true);
        }
        a <= b
    };
    let inr = |b: f64| {
        if ((b - 60.0).abs() < 1e-4 && b != 60.0) || ((b - 180.0).abs() < 1e-4 && b != 180.0) {
            amb.set(true);
        }
        (60.0..=180.0).contains(&b)
    };
    let mut a: Vec<(f64, f64)> = ac.iter().map(|c| (c.bpm as f64, c.confidence as f64)).collect();
    let c: Vec<(f64, f64)> = cb.iter().map(|c| (c.bpm as f64, c.confidence as f64)).collect();
    let tol = (cents as f64 / 1200.0).exp2() - 1.0;
    for x in a.iter_mut() {
        for t in c.iter().take(3) {
            if lt((x.0 / t.0 / 2.0 - 1.0).abs(), tol) && (inr(t.0) || x.0 > 200.0 || x.0 < 30.0) {
                x.0 = t.0;
                break;
            }
        }
    }
    for x in a.iter_mut() {
        for t in c.iter().take(3) {
            if lt((t.0 / x.0 / 2.0 - 1.0).abs(), tol) && inr(t.0) {
                x.0 = t.0;
                break;
            }
        }
    }
    let disagree = match (a.first(), c.first()) {
        (Some(x), Some(y)) => {
            let d = (x.0 - y.0).abs();
            if ((d - 10.0).abs() < 1e-4 && d != 10.0) || ((d - 50.0).abs() < 1e-4 && d != 50.0) {
                amb.set(true);
            }
            d > 10.0 && d < 50.0
        }
        _ => false,
    };
    let mut al: Vec<(f64, f64)> = a.iter().take(10).cloned().collect();
    for x in &a {
        if inr(x.0) && !al.iter().any(|y| {
            let d = (x.0 - y.0).abs();
            if (d - 1.0).abs() < 1e-4 && d != 1.0 {
                amb.set(true);
            }
            d < 1.0
        }) {
            al.push(*x);
        }
    }
    let cl: Vec<(f64, f64)> = c.iter().take(10).cloned().collect();
    // groups: bpm, total, count, max
    let mut gr: Vec<(f64, f64, u32, f64)> = vec![];
    for x in al.iter().chain(cl.iter()) {
        let mut hit = false;
        for g in gr.iter_mut() {
            if le_exact((x.0 - g.0).abs(), 2.0, g.2 > 1) {
                g.0 = (g.0 * g.2 as f64 + x.0) / (g.2 + 1) as f64;
                g.1 += x.1;
                g.2 += 1;
                g.3 = g.3.max(x.1);
                hit = true;
                break;
            }
        }
        if !hit {
            gr.push((x.0, x.1, 1, x.1));
        }
    }
    let mut es: Vec<Est> = gr
        .iter()
        .map(|g| {
            let mut conf = if g.2 >= 2 { ((g.1 / g.2 as f64 + g.3) / 2.0 * 1.2).min(1.0) } else { g.1.min(1.0) };
            if disagree && g.2 == 1 {
                conf *= 0.7;
            }
            Est { bpm: g.0, conf, n: g.2 }
        })
        .collect();
    for e in es.iter_mut() {
        let direct = |v: &[(f64, f64)]| v.iter().take(5).any(|y| lt((y.0 - e.bpm).abs(), 2.5));
        let harm = |v: &[(f64, f64)]| {
            v.iter().take(5).any(|y| {
                let r = (y.0 / e.bpm).max(e.bpm / y.0);
                lt((r - 2.0).abs(), 0.1) || lt((r - 1.5).abs(), 0.1) || lt((r - 0.75).abs(), 0.1)
            })
        };
        let (ad, cd) = (direct(&al), direct(&cl));
        let (ah, ch) = (harm(&al), harm(&cl));
        if ad && cd {
            e.conf *= 1.5;
        } else if (ad && ch) || (cd && ah) {
            e.conf *= 1.3;
        }
        if cd && inr(e.bpm) {
            e.conf *= 1.4;
        }
    }
    if !es.iter().take(5).any(|e| inr(e.bpm)) {
        if let Some(k) = es.iter().position(|e| inr(e.bpm)) {
            es[k].conf *= 2.0;
        }
    }
    es.sort_by(|x, y| y.key().partial_cmp(&x.key()).unwrap());
    (es, amb.get())
}

fn same(e: &Est, g: &BpmEstimate) -> bool {
    closed(e.bpm, g.bpm as f64, 1e-5, 0.0) && closed(e.conf, g.confidence as f64, 2e-5, 1e-6) && e.n == g.method_agreement
}

fn merge_case(ctx: &Ctx, ac: &[BpmCandidate], cb: &[BpmCandidate], cents: f32) -> CaseResult {
    let g = merge_bpm_candidates(ac.to_vec(), cb.to_vec(), cents).map_err(|e| e.to_string())?;
    let (want, amb) = ref_merge(ac, cb, cents);
    let (lo, hi) = ac.iter().chain(cb).fold((f32::INFINITY, 0.0f32), |a, c| (a.0.min(c.bpm), a.1.max(c.bpm)));
    for e in &g {
        ensure!(e.bpm >= lo * 0.99999 && e.bpm <= hi * 1.00001, "merged tempo {} outside the candidates' span", e.bpm);
        ensure!(e.confidence.is_finite() && e.confidence >= 0.0, "confidence {}", e.confidence);
    }
    if amb {
        ctx.ambiguous();
        return Ok(Obs::new(1, false, 1));
    }
    ensure!(g.len() == want.len(), "{} estimates, want {}: {:?} vs {:?}", g.len(), want.len(), g, want);
    let mut used = vec![false; g.len()];
    for (i, e) in g.iter().enumerate() {
        let k = (0..want.len()).find(|&k| !used[k] && same(&want[k], e));
        match k {
            Some(k) => {
                used[k] = true;
                ensure!((want[k].key() - want[i].key()).abs() < 1e-4, "estimate {} is {:?}, ranking wants {:?}", i, e, want[i]);
            }
            None => return Err(format!("estimate {:?} has no counterpart in {:?}", e, want)),
        }
    }
    let mut h = H::new();
    for w in &want {
        h = h.u((w.bpm * 1e3) as u64).u((w.conf * 1e4) as u64).u(w.n as u64);
    }
    Ok(Obs::new(h.done(), want.iter().any(|w| w.n > 1), 1))
}

fn rails(i: usize) -> Option<LegacyBpmGuardrails> {
    let g = |a: f32, b: f32, c: f32, d: f32, e: f32, f: f32, h: f32| Some(LegacyBpmGuardrails { preferred_min: a, preferred_max: b, soft_min: c, soft_max: d, mul_preferred: e, mul_soft: f, mul_extreme: h });
    match i {
        0 => None,
        1 => g(72.0, 168.0, 60.0, 210.0, 1.3, 0.7, 0.01),
        2 => g(100.0, 110.0, 90.0, 130.0, 1.0, 0.5, 0.0),
        3 => g(168.0, 72.0, 210.0, 60.0, 1.3, f32::NAN, -1.0),
        4 => g(40.0, 70.0, 60.0, 65.0, f32::INFINITY, 2.0, 3.0),
        5 => g(72.0, 168.0, 60.0, 210.0, 0.05, 0.04, f32::NAN),
        _ => g(90.0, 110.0, 70.0, 150.0, -0.5, -0.1, 0.03),
    }
}

fn est_case(ctx: &Ctx, on: &[usize], sr: u32, hop: usize, lo: f32, hi: f32, res: f32, rail: usize) -> CaseResult {
    let r = rails(rail);
    let got = match r {
        None => estimate_bpm(on, sr, hop, lo, hi, res),
        Some(g) => estimate_bpm_with_guardrails(on, sr, hop, lo, hi, res, g),
    };
    let ac = estimate_bpm_from_autocorrelation(on, sr, hop, lo, hi);
    let cb = estimate_bpm_from_comb_filter(on, sr, hop, lo, hi, res);
    let (ac, cb) = match (ac, cb) {
        (Ok(a), Ok(c)) => (a, c),
        _ => {
            ensure!(got.is_err(), "a failing stage is not reported");
            return Ok(Obs::new(0, false, 3));
        }
    };
    let got = got.map_err(|e| e.to_string())?;
    let (mut want, mut amb) = ref_merge(&ac, &cb, 50.0);
    if let Some(g) = &got {
        ensure!(g.bpm >= lo - 1e-3 && g.bpm <= hi + 1e-3, "tempo {} outside [{}, {}]", g.bpm, lo, hi);
        ensure!((0.0..=1.0).contains(&g.confidence), "confidence {}", g.confidence);
    }
    let (mut pmin, mut pmax) = (60.0f64, 180.0f64);
    if let Some(g) = r {
        pmin = g.preferred_min.min(g.preferred_max) as f64;
        pmax = g.preferred_min.max(g.preferred_max) as f64;
        let (smin, smax) = ((g.soft_min.min(g.soft_max) as f64).min(pmin), (g.soft_min.max(g.soft_max) as f64).max(pmax));
        let fin = |x: f32| if x.is_finite() { x.max(0.0) as f64 } else { 0.0 };
        for e in want.iter_mut() {
            for b in [pmin, pmax, smin, smax] {
                if (e.bpm - b).abs() < 1e-4 && e.bpm != b {
                    amb = true;
                }
            }
            e.conf *= if e.bpm >= pmin && e.bpm <= pmax {
                fin(g.mul_preferred)
            } else if e.bpm >= smin && e.bpm <= smax {
                fin(g.mul_soft)
            } else {
                fin(g.mul_extreme)
            };
        }
        want.sort_by(|a, b| b.conf.partial_cmp(&a.conf).unwrap());
    }
    if amb {
        ctx.ambiguous();
        return Ok(Obs::new(1, false, 3));
    }
    let Some(got) = got else {
        ensure!(want.is_empty(), "no estimate although {:?} was merged", want.first());
        return Ok(Obs::new(2, false, 3));
    };
    ensure!(!want.is_empty(), "estimate {:?} without any candidate", got);
    let pref = ac.iter().find(|c| {
        let b = c.bpm as f64;
        b >= pmin && b <= pmax
    }).map(|c| c.bpm as f64);
    // a confidence tie between candidates on the edge of the preferred band is resolved either way
    let mut ok: Vec<Est> = vec![];
    if let Some(p) = pref {
        let m: Vec<&Est> = want.iter().filter(|e| (e.bpm - p).abs() < 2.0 + 1e-4).collect();
        if let Some(f) = m.iter().find(|e| (e.bpm - p).abs() < 2.0 - 1e-4) {
            let rank = |e: &Est| if r.is_some() { e.conf } else { e.key() };
            let fk = rank(f);
            ok = m.iter().filter(|e| rank(e) >= fk - 1e-5).map(|e| (*e).clone()).collect();
        } else if !m.is_empty() {
            ctx.ambiguous();
            return Ok(Obs::new(3, false, 3));
        }
    }
    if ok.is_empty() {
        let rank = |e: &Est| if r.is_some() { e.conf } else { e.key() };
        let top = rank(&want[0]);
        ok = want.iter().filter(|e| rank(e) >= top - 1e-5).cloned().collect();
    }
    ensure!(
        ok.iter().any(|e| closed(e.bpm, got.bpm as f64, 1e-5, 0.0) && closed(e.conf.min(1.0), got.confidence as f64, 2e-5, 1e-6) && e.n == got.method_agreement),
        "estimate {:?}, want one of {:?}", got, ok
    );
    Ok(Obs::new(H::new().u((got.bpm * 1e3) as u64).u((got.confidence * 1e4) as u64).done(), true, 3))
}

fn peaks_case(x: &[f32], thr: f32, md: usize) -> CaseResult {
    let g = find_peaks(x, thr, md);
    let n = x.len();
    let mx = x.iter().cloned().fold(0.0f32, f32::max);
    let t = if thr > 0.0 && thr < 1.0 && mx > 0.0 { mx * thr } else { thr };
    let mut pk = vec![];
    if n >= 3 && mx >= 1e-10 {
        for i in 0..n {
            if (i == 0 || x[i] > x[i - 1]) && (i + 1 == n || x[i] > x[i + 1]) && x[i] >= t {
                pk.push(i);
            }
        }
    }
    ensure!(g.windows(2).all(|w| w[0].1 >= w[1].1), "not ordered by value {:?}", g);
    let mut kept = vec![false; n];
    for (i, v) in &g {
        ensure!(pk.contains(i) && x[*i] == *v, "({}, {}) is not a peak of {:?} (thr {})", i, v, x, thr);
        ensure!(!kept[*i], "peak {} reported twice", i);
        kept[*i] = true;
    }
    for i in 0..n {
        for j in i + 1..n {
            ensure!(!(kept[i] && kept[j] && j - i < md), "peaks {} and {} closer than {}", i, j, md);
        }
    }
    for &p in &pk {
        ensure!(kept[p] || (0..n).any(|j| kept[j] && j != p && j.abs_diff(p) < md && x[j] >= x[p]), "peak {} of {:?} missing (thr {} dist {})", p, x, thr, md);
    }
    Ok(Obs::new(g.iter().fold(H::new(), |h, (i, v)| h.u(*i as u64).f(*v)).done(), !g.is_empty(), 1))
}

pub fn p11(ctx: &Ctx) {
    ctx.rule("every subset / interval word of onset lists x geometry x tempo range through autocorrelation, comb filter, coarse-to-fine search, merge and guardrails, plus all short candidate lists and all short peak-picking signals; integer/f64 references; non-trivial = a tempo was reported");
    ctx.assume("comb alignment within one sample of the tolerance and merge decisions within 1e-4 are undecided (interval / structural check only)");
    let nbits = ctx.pick(13usize, 15);
    // every onset subset of a small frame grid
    let geo = [(60u32, 1usize, 300.0f32, 1800.0f32), (60, 1, 360.0, 3600.0), (600, 10, 450.0, 1200.0)];
    ctx.sweep("ac_subsets", (1 << nbits) * geo.len(), |i| format!("frames {:#x} geometry {:?}", i / geo.len(), geo[i % geo.len()]), |i| {
        let (sr, hop, lo, hi) = geo[i % geo.len()];
        let m = i / geo.len();
        let mut on: Vec<usize> = (0..nbits).filter(|b| m >> b & 1 == 1).map(|b| b * hop + b % hop.min(3)).collect();
        match m % 4 {
            1 => on.reverse(),
            2 => {
                let k = m % 5 % on.len();
                on.rotate_left(k)
            }
            _ => {}
        }
        autocorr_case(ctx, &on, sr, hop, lo, hi)
    });
    // interval words at real geometries
    let iv = [21usize, 22, 43, 44, 65, 86];
    let wl = ctx.pick(4u32, 6);
    let rg = [(44100u32, 512usize, 40.0f32, 240.0f32), (44100, 512, 60.0, 180.0), (48000, 256, 40.0, 240.0), (22050, 512, 55.0, 215.0)];
    let word = |mut k: usize, hop: usize, jit: usize| {
        let mut t = jit * 137;
        let mut on = vec![t];
        for n in 0..8 {
            t += iv[k % 6] * hop;
            k = if n as u32 % wl == wl - 1 { k / 6 + n * 31 } else { k / 6 };
            on.push(t + if jit == 2 { (n * 97) % 300 } else { 0 });
        }
        on
    };
    let nw = 6usize.pow(wl) * rg.len() * 3;
    ctx.sweep("ac_words", nw, |i| format!("word {} geometry {:?} jitter {}", i / 12, rg[i % 4], i / 4 % 3), |i| {
        let (sr, hop, lo, hi) = rg[i % 4];
        autocorr_case(ctx, &word(i / 12, hop, i / 4 % 3), sr, hop, lo, hi)
    });
    let res = [1.0f32, 0.5, 2.0, 5.0];
    ctx.sweep("comb_words", nw, |i| format!("word {} geometry {:?} jitter {} res {}", i / 12, rg[i % 4], i / 4 % 3, res[(i / 12 + i) % 4]), |i| {
        let (sr, hop, lo, hi) = rg[i % 4];
        comb_case(&word(i / 12, hop, i / 4 % 3), sr, lo, hi, res[(i / 12 + i) % 4])
    });
    ctx.sweep("comb_subsets", (1 << nbits) * 2, |i| format!("positions {:#x} res {}", i / 2, res[i % 2]), |i| {
        let m = i / 2;
        let mut on: Vec<usize> = (0..nbits).filter(|b| m >> b & 1 == 1).map(|b| b * 230 + b * b % 7).collect();
        if i % 3 == 1 {
            on.reverse();
        }
        if i % 5 == 2 && !on.is_empty() {
            on.push(on[0]);
        }
        comb_case(&on, 1000, 50.0, 200.0, res[i % 2])
    });
    ctx.sweep("coarse_fine", nw / 4, |i| format!("word {} geometry {:?} range {}", i / 3, rg[i / 3 % 4], [5.0, 3.0, 10.0][i % 3]), |i| {
        let (sr, hop, lo, hi) = rg[i / 3 % 4];
        coarse_case(&word(i / 3, hop, i / 3 % 3), sr, lo, hi, [5.0f32, 3.0, 10.0][i % 3])
    });
    // refinement at the ends of the tempo range
    ctx.sweep("coarse_edges", 21 * 5 * 4, |i| format!("case {}", i), |i| {
        let mut x = Ix(i);
        let b = 60.0 + 6.0 * x.take(21) as f64;
        let (dl, dh) = [(20.0, 1.0), (1.0, 20.0), (0.0, 30.0), (30.0, 0.0), (2.5, 2.5)][x.take(5)];
        let range = [5.0f32, 3.0, 10.0, 0.75][x.take(4)];
        let on: Vec<usize> = (0..12).map(|k| (k as f64 * 60.0 * 8000.0 / b).round() as usize).collect();
        coarse_case(&on, 8000, (b - dl) as f32, (b + dh) as f32, range)
    });
    // long recordings: hundreds and thousands of onsets
    let ll: &[usize] = ctx.pick(&[500, 700, 1300][..], &[500, 700, 1300, 2600][..]);
    ctx.sweep("comb_long", ll.len() * 4, |i| format!("{} onsets kind {}", ll[i % ll.len()], i / ll.len()), |i| {
        let n = ll[i % ll.len()];
        let mut on: Vec<usize> = (0..n).map(|k| k * 11025 + if i / ll.len() % 2 == 1 { k * k * 31 % 700 } else { 0 }).collect();
        if i / ll.len() >= 2 {
            // a different tempo in the second half
            let m = on[n / 2];
            for (k, o) in on.iter_mut().enumerate().skip(n / 2) {
                *o = m + (k - n / 2) * 12600;
            }
        }
        let a = autocorr_case(ctx, &on, 22050, 512, 60.0, 180.0)?;
        let c = comb_case(&on, 22050, 100.0, 124.0, 1.0)?;
        let e = est_case(ctx, &on, 22050, 512, 100.0, 124.0, 2.0, 1)?;
        Ok(Obs::new(H::new().u(a.outcome).u(c.outcome).u(e.outcome).done(), true, 5))
    });
    ctx.sweep("estimate_words", nw / 3 * 7, |i| format!("word {} geometry {:?} rails {}", i / 28, rg[i % 4], i / 4 % 7), |i| {
        let (sr, hop, lo, hi) = rg[i % 4];
        est_case(ctx, &word(i / 28, hop, i / 28 % 3), sr, hop, lo, hi, res[i / 28 % 4], i / 4 % 7)
    });
    // steady pulses over the whole tempo range
    let srs = [22050u32, 44100, 48000];
    let nbs = ctx.pick(vec![2usize, 3, 4, 8, 16, 64], vec![2usize, 3, 4, 8, 16, 64, 200]);
    let npul = 201 * 3 * nbs.len() * 3;
    ctx.sweep("pulses", npul, |i| format!("bpm {} case {}", 40 + i % 201, i / 201), |i| {
        let mut x = Ix(i);
        let b = 40 + x.take(201);
        let sr = *x.of(&srs);
        let nb = *x.of(&nbs);
        let ph = *x.of(&[0usize, 777, 5000]);
        let per = 60.0 * sr as f64 / b as f64;
        let on: Vec<usize> = (0..nb).map(|k| ph + (k as f64 * per).round() as usize).collect();
        let c = estimate_bpm_from_comb_filter(&on, sr, 512, 40.0, 240.0, 1.0).map_err(|e| e.to_string())?;
        if ph == 0 && nb > 1 {
            let t = c.iter().find(|c| (c.bpm - b as f32).abs() < 1e-3);
            // every predicted beat of the true tempo meets an onset; the grid may hold one beat more than the train
            let mn = (nb as f32 - 1.0) / nb as f32;
            ensure!(t.map_or(false, |t| t.confidence >= mn.min(nb as f32 / (nb as f32 + 1.0)) - 1e-4), "true tempo {} has comb confidence {:?}", b, t);
        }
        let a = autocorr_case(ctx, &on, sr, 512, 40.0, 240.0)?;
        let k = comb_case(&on, sr, 40.0, 240.0, 1.0)?;
        let e = est_case(ctx, &on, sr, 512, 40.0, 240.0, 1.0, i / 201 % 5)?;
        Ok(Obs::new(H::new().u(a.outcome).u(k.outcome).u(e.outcome).done(), true, 6))
    });
    ctx.sweep("exact_pulses", 110 * 3, |i| format!("lag {} beats {}", 22 + i % 110, [8, 32, 100][i / 110]), |i| {
        // beats a whole number of frames apart: the true tempo is the best autocorrelation candidate
        let lag = 22 + i % 110;
        let nb = [8usize, 32, 100][i / 110];
        let on: Vec<usize> = (0..nb).map(|k| 1000 + k * lag * 512).collect();
        let a = estimate_bpm_from_autocorrelation(&on, 44100, 512, 38.0, 240.0).map_err(|e| e.to_string())?;
        let b = 60.0 * 44100.0 / (lag * 512) as f32;
        let q = 60.0 * 44100.0f64 / (38.0 * 512.0);
        if lag > 22 && (lag as f64) < q - 1.0 && nb * lag > 140 {
            ensure!(a.first().map_or(false, |c| close(c.bpm, b, 1e-4, 0.0)), "best candidate {:?}, true tempo {}", a.first(), b);
        }
        Ok(Obs::new(H::new().u(lag as u64).u(a.len() as u64).done(), true, 1))
    });
    // merging: all short candidate lists
    let bp = [30.0f32, 45.0, 59.5, 60.0, 80.0, 81.5, 82.5, 90.0, 120.0, 121.0, 122.0, 160.0, 165.0, 180.0, 210.0, 240.0];
    let cf = [1.0f32, 0.8, 0.45, 0.1];
    let nl = bp.len() * cf.len();
    let lists: Vec<Vec<BpmCandidate>> = {
        let mk = |k: usize| BpmCandidate { bpm: bp[k % bp.len()], confidence: cf[k / bp.len()] };
        let mut v: Vec<Vec<BpmCandidate>> = vec![vec![]];
        v.extend((0..nl).map(|k| vec![mk(k)]));
        for a in 0..nl {
            for b in 0..nl {
                if a / bp.len() <= b / bp.len() {
                    v.push(vec![mk(a), mk(b)]);
                }
            }
        }
        if ctx.thorough() {
            for a in 0..bp.len() {
                for b in 0..bp.len() {
                    for c in 0..bp.len() {
                        v.push(vec![mk(a), mk(b + bp.len()), mk(c + 2 * bp.len())]);
                    }
                }
            }
        }
        v
    };
    let ln = lists.len();
    let step = 1;
    ctx.sweep("merge_lists", ln * ln / step, |i| format!("autocorr {:?} comb {:?}", lists[i * step % ln], lists[i * step / ln]), |i| {
        merge_case(ctx, &lists[i * step % ln], &lists[i * step / ln], 50.0)
    });
    // long lists: limits, extra in-range candidates, safety boost
    let starts = [40.0f32, 58.0, 61.3, 150.0, 181.0, 185.0];
    let steps = [0.7f32, 1.3, 2.3, 4.1, 7.7];
    let lens = [0usize, 1, 4, 9, 10, 11, 12, 25, 40];
    let nlong = (6 * 5 * 9 * 2) * (6 * 5 * 4);
    ctx.sweep("merge_long", nlong, |i| format!("case {}", i), |i| {
        let mut x = Ix(i);
        let (s, d, n, dec) = (*x.of(&starts), *x.of(&steps), *x.of(&lens), x.take(2));
        let (s2, d2, n2) = (*x.of(&starts), *x.of(&steps), [0usize, 3, 11, 30][x.take(4)]);
        let mk = |s: f32, d: f32, n: usize, rev: bool| -> Vec<BpmCandidate> { (0..n).map(|k| BpmCandidate { bpm: s + d * (if rev { n - 1 - k } else { k }) as f32, confidence: 1.0 - 0.02 * k as f32 - 0.003 * (k * k % 5) as f32 }).collect() };
        merge_case(ctx, &mk(s, d, n, dec == 1), &mk(s2, d2, n2, false), 50.0)
    });
    // the octave tolerance: every ratio around 2 and 1/2
    let cents = [0.0f32, 10.0, 25.0, 50.0, 100.0, 300.0];
    ctx.sweep("merge_cents", 6 * 5 * 2 * 201, |i| format!("case {}", i), |i| {
        let mut x = Ix(i);
        let (c, base, up) = (*x.of(&cents), *x.of(&[31.0f32, 62.0, 90.0, 111.0, 179.0]), x.take(2));
        let r = (2.0f64 * 2f64.powf((x.take(201) as f64 - 100.0) * 3.7 / 1200.0)) as f32;
        let other = if up == 0 { base * r } else { base / r };
        merge_case(ctx, &[BpmCandidate { bpm: other, confidence: 0.9 }], &[BpmCandidate { bpm: base, confidence: 0.8 }, BpmCandidate { bpm: 140.3, confidence: 0.4 }], c)
    });
    // peak picking
    let vals = [0.0f32, 0.3, 0.5, 1.0, -0.2];
    let pl = ctx.pick(6u32, 8);
    let (ths, mds) = ([0.0f32, 0.3, 0.5, 1.0, 1.5, -1.0], [0usize, 1, 2, 3]);
    for l in 0..=pl {
        ctx.sweep(&format!("peaks{}", l), 5usize.pow(l) * 24, |i| format!("{} thr {} dist {}", i / 24, ths[i % 6], mds[i / 6 % 4]), |i| {
            let mut x = Ix(i / 24);
            let v: Vec<f32> = (0..l).map(|_| *x.of(&vals)).collect();
            peaks_case(&v, ths[i % 6], mds[i / 6 % 4])
        });
    }
    ctx.sweep("peaks_long", 40 * 24, |i| format!("{}", i), |i| {
        let v: Vec<f32> = (0..50 + 61 * (i / 24)).map(|k| ((k * k * 31 + k * 17) % 101) as f32 / 50.0).collect();
        peaks_case(&v, ths[i % 6], [0usize, 5, 30, 90][i / 6 % 4])
    });
    // invalid parameters
    let on = vec![0usize, 22050, 44100, 66150];
    ctx.sweep("invalid", 12, |i| format!("invalid {}", i), |i| {
        let (mut o, mut sr, mut hop, mut lo, mut hi, mut res) = (on.clone(), 44100u32, 512usize, 60.0f32, 180.0f32, 1.0f32);
        match i {
            0 => o.clear(),
            1 => sr = 0,
            2 => hop = 0,
            3 => lo = 0.0,
            4 => lo = -5.0,
            5 => hi = 60.0,
            6 => (lo, hi) = (180.0, 60.0),
            7 => res = 0.0,
            8 => res = -1.0,
            9 => res = 1e-9,
            10 => res = 1e-30,
            _ => hi = f32::INFINITY,
        }
        let e = estimate_bpm(&o, sr, hop, lo, hi, res);
        ensure!(e.is_err(), "invalid parameters accepted: {:?}", e);
        if i < 7 && i != 2 {
            ensure!(estimate_bpm_from_comb_filter(&o, sr, hop, lo, hi, res).is_err(), "comb filter accepted invalid parameters");
        }
        if i < 7 {
            ensure!(estimate_bpm_from_autocorrelation(&o, sr, hop, lo, hi).is_err(), "autocorrelation accepted invalid parameters");
        }
        Ok(Obs::new(i as u64, true, 2))
    });
    ctx.sweep("few", 4, |i| format!("{}", i), |i| {
        let o = [vec![5usize], vec![0], vec![100, 200], vec![300, 300, 300]][i].clone();
        let e = estimate_bpm(&o, 44100, 512, 40.0, 240.0, 1.0);
        ensure!(!matches!(e, Ok(Some(_))), "too few onsets give {:?}", e);
        Ok(Obs::new(i as u64, true, 1))
    });
}
