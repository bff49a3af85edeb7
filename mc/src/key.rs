//! P17 key detection, P18 key notation, P22 key clarity and key changes.
use crate::core::*;
use crate::ensure;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::features::key::detector::detect_key_median;
use stratum_dsp::features::key::templates::{KeyTemplates, TemplateSet};
use stratum_dsp::features::key::{
    compute_key_clarity, detect_key, detect_key_changes, detect_key_ensemble, detect_key_multi_scale,
    detect_key_weighted, detect_key_weighted_mode_heuristic, KeyDetectionResult,
};

const KK_MAJ: [f64; 12] = [6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88];
const KK_MIN: [f64; 12] = [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17];
const TE_MAJ: [f64; 12] = [5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0];
const TE_MIN: [f64; 12] = [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5];
const FIFTHS: [usize; 12] = [0, 7, 2, 9, 4, 11, 6, 1, 8, 3, 10, 5];

pub fn kidx(k: Key) -> usize {
    match k {
        Key::Major(i) => i as usize,
        Key::Minor(i) => 12 + i as usize,
    }
}
fn kof(i: usize) -> Key {
    if i < 12 {
        Key::Major(i as u32)
    } else {
        Key::Minor(i as u32 - 12)
    }
}

fn tmpl(t: &KeyTemplates) -> Vec<[f64; 12]> {
    (0..24)
        .map(|k| {
            let v = if k < 12 { &t.major[k] } else { &t.minor[k - 12] };
            let mut a = [0f64; 12];
            for i in 0..12 {
                a[i] = v[i] as f64;
            }
            a
        })
        .collect()
}

struct Ref {
    /// refined score per key; None when an undecidable tie decides who receives the bonus
    score: Vec<f64>,
    amb: bool,
    top: [usize; 2],
    normed: bool,
    raw: Vec<f64>,
}

fn reference(ch: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>) -> Ref {
    let tm = tmpl(t);
    let mut raw = vec![0f64; 24];
    for (i, c) in ch.iter().enumerate() {
        let wt = w.map(|w| w[i] as f64).unwrap_or(1.0);
        if w.is_some() && !(wt > 0.0) {
            continue;
        }
        for k in 0..24 {
            raw[k] += wt * (0..12).map(|j| c[j] as f64 * tm[k][j]).sum::<f64>();
        }
    }
    let mut amb = false;
    let mut top = [0usize; 2];
    let mut mx = [0f64; 2];
    for m in 0..2 {
        let r = &raw[m * 12..m * 12 + 12];
        let best = r.iter().cloned().fold(f64::MIN, f64::max);
        let near = r.iter().filter(|v| (**v - best).abs() <= (3e-6 + 2e-7 * ch.len() as f64) * best.abs().max(1e-9)).count();
        if near > 1 {
            amb = true;
        }
        top[m] = m * 12 + r.iter().position(|v| *v == best).unwrap();
        mx[m] = best.max(0.0);
    }
    let normed = mx[0] > 1e-9 && mx[1] > 1e-9;
    if (mx[0] > 1e-10 && mx[0] < 1e-8) || (mx[1] > 1e-10 && mx[1] < 1e-8) {
        amb = true;
    }
    let base: Vec<f64> = (0..24).map(|k| if normed { raw[k] / mx[k / 12] } else { raw[k] }).collect();
    let mut score = base.clone();
    for k in 0..24 {
        let r = base[top[k / 12]];
        if r > 1e-9 {
            let p = FIFTHS.iter().position(|x| *x == k % 12).unwrap() as i32;
            let q = FIFTHS.iter().position(|x| *x == top[k / 12] % 12).unwrap() as i32;
            let d = (p - q).abs().min(12 - (p - q).abs());
            if d <= 2 {
                score[k] += r * 0.20 * (1.0 - 0.5 * d as f64);
            }
        }
    }
    Ref { score, amb, top, normed, raw }
}

/// Structural guarantees of every detection result.
fn well_formed(r: &KeyDetectionResult, key_is_top: bool) -> Result<(), String> {
    ensure!(r.all_scores.len() == 24, "{} scores", r.all_scores.len());
    let mut seen = [false; 24];
    for (k, s) in &r.all_scores {
        let i = kidx(*k);
        ensure!(i < 24 && !seen[i], "key {:?} listed twice or out of range", k);
        ensure!(s.is_finite(), "score {}", s);
        seen[i] = true;
    }
    for p in r.all_scores.windows(2) {
        ensure!(p[0].1 >= p[1].1, "scores not ranked: {:?}", p);
    }
    ensure!((0.0..=1.0).contains(&r.confidence), "confidence {}", r.confidence);
    ensure!(r.top_keys.len() == 3, "top_keys has {} entries", r.top_keys.len());
    for (k, s) in &r.top_keys {
        let f = r.all_scores.iter().find(|x| x.0 == *k).unwrap();
        ensure!(f.1 == *s, "top_keys score of {:?} is {} but table says {}", k, s, f.1);
    }
    ensure!(r.top_keys[0] == r.all_scores[0] && r.top_keys[1] == r.all_scores[1], "top_keys {:?} vs ranking {:?}", r.top_keys, &r.all_scores[..3]);
    if key_is_top {
        ensure!(r.key == r.all_scores[0].0, "key {:?} is not the best-ranked key {:?}", r.key, r.all_scores[0]);
        ensure!(r.top_keys[2] == r.all_scores[2], "top_keys {:?}", r.top_keys);
    }
    Ok(())
}

fn obs(r: &KeyDetectionResult, steps: u64) -> CaseResult {
    let mut h = H::new().u(kidx(r.key) as u64);
    for (k, _) in &r.all_scores {
        h = h.u(kidx(*k) as u64);
    }
    Ok(Obs::new(h.done(), r.all_scores[0].1 > 0.0, steps))
}

fn conf_of(scores: &[(Key, f32)], key: Key) -> f64 {
    let own = scores.iter().find(|x| x.0 == key).unwrap().1 as f64;
    let other = scores.iter().filter(|x| x.0 != key).map(|x| x.1 as f64).fold(f64::MIN, f64::max);
    if own > 0.0 {
        ((own - other) / own).clamp(0.0, 1.0)
    } else {
        0.0
    }
}

fn weighted_case(ctx: &Ctx, ch: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>) -> CaseResult {
    let r = detect_key_weighted(ch, t, w).map_err(|e| format!("error {}", e))?;
    well_formed(&r, true)?;
    let rf = reference(ch, t, w);
    ensure!(closed(r.confidence as f64, conf_of(&r.all_scores, r.key), 1e-4, 1e-5), "confidence {} vs {}", r.confidence, conf_of(&r.all_scores, r.key));
    if rf.amb {
        ctx.ambiguous();
        // the tie decides only who gets the circle-of-fifths bonus: the un-bonused part still has to match
        for (k, s) in &r.all_scores {
            let b = rf.raw[kidx(*k)] / if rf.normed { rf.raw[rf.top[kidx(*k) / 12]] } else { 1.0 };
            let top = rf.raw[rf.top[kidx(*k) / 12]] / if rf.normed { rf.raw[rf.top[kidx(*k) / 12]] } else { 1.0 };
            ensure!(*s as f64 >= b - (1e-4 + 1e-7 * ch.len() as f64) * b.abs().max(1e-6) && *s as f64 <= b + (0.2001 + 1e-7 * ch.len() as f64) * top.max(0.0) + 1e-6, "score of {:?} is {}, base {}", k, s, b);
        }
        return obs(&r, 1);
    }
    let scale = rf.score.iter().fold(0f64, |a, b| a.max(b.abs())).max(1e-9);
    let tol = 2e-5 + 1e-7 * ch.len() as f64;
    for (k, s) in &r.all_scores {
        let e = rf.score[kidx(*k)];
        ensure!((*s as f64 - e).abs() <= tol * scale, "score of {:?} is {}, expected {}", k, s, e);
    }
    if rf.normed {
        ensure!(kidx(r.key) == rf.top[0] || kidx(r.key) == rf.top[1], "key {:?} is neither the best major nor the best minor template match", r.key);
        ensure!(kidx(r.key) == rf.top[0], "exact major/minor tie must resolve to the first-ranked (major) key, got {:?}", r.key);
    } else {
        let best = (0..24).max_by(|a, b| rf.score[*a].partial_cmp(&rf.score[*b]).unwrap()).unwrap();
        let near = (0..24).filter(|k| (rf.score[*k] - rf.score[best]).abs() < tol.max(1e-5) * scale).count();
        if near == 1 {
            ensure!(kidx(r.key) == best, "key {:?}, expected {:?}", r.key, kof(best));
        }
    }
    obs(&r, 1)
}

fn mask_chroma(mask: usize, lo: f32, hi: f32) -> Vec<f32> {
    (0..12).map(|i| if mask >> i & 1 == 1 { hi } else { lo }).collect()
}
/// Frame alphabet: pure templates, triads, single notes, silence, flat.
fn letter(i: usize) -> Vec<f32> {
    let mut v = vec![0.02f32; 12];
    match i {
        0 => return vec![0.0; 12],
        1 => return vec![0.288; 12],
        2 => {
            for (j, x) in [0usize, 4, 7].iter().zip([1.0, 0.8, 0.9]) {
                v[*j] = x;
            }
        }
        3 => {
            for (j, x) in [9usize, 0, 4].iter().zip([1.0, 0.7, 0.85]) {
                v[*j] = x;
            }
        }
        4 => {
            for (j, x) in [6usize, 10, 1].iter().zip([0.9, 0.75, 0.6]) {
                v[*j] = x;
            }
        }
        5 => v[2] = 1.0,
        6 => {
            for j in 0..12 {
                v[j] = KK_MIN[(j + 12 - 7) % 12] as f32 / 13.0;
            }
        }
        7 => {
            for (j, x) in [0usize, 3, 7, 10, 11].iter().zip([1.0, 0.9, 0.7, 0.2, 0.5]) {
                v[*j] = x;
            }
        }
        _ => {
            for j in 0..12 {
                v[j] = ((i * 31 + j * 17) % 23) as f32 / 23.0;
            }
        }
    }
    v
}
fn templates(i: usize) -> KeyTemplates {
    match i {
        0 => KeyTemplates::new(),
        1 => KeyTemplates::new_with_template_set(TemplateSet::Temperley),
        2 => KeyTemplates::new_with_template_set(TemplateSet::KrumhanslKessler),
        _ => {
            // user-supplied one-hot major templates, silent minor templates: un-normalised path
            let mut t = KeyTemplates::new();
            for k in 0..12 {
                for j in 0..12 {
                    t.major[k][j] = if j == k { 1.0 } else { 0.0 };
                    t.minor[k][j] = 0.0;
                }
            }
            t
        }
    }
}

/// Scores after the minor-harmonic bonus, mode flip decision, from a base result.
fn mode_case(ctx: &Ctx, ch: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>, margin: f32, flip: f32, bonus: bool, bw: f32) -> CaseResult {
    let base = detect_key_weighted(ch, t, w).map_err(|e| format!("error {}", e))?;
    let r = detect_key_weighted_mode_heuristic(ch, t, w, margin, flip, bonus, bw).map_err(|e| format!("error {}", e))?;
    let same = |a: &KeyDetectionResult, b: &KeyDetectionResult| a.key == b.key && a.all_scores == b.all_scores && a.top_keys == b.top_keys && a.confidence == b.confidence;
    let mut avg = [0f64; 12];
    let mut ws = 0f64;
    for (i, c) in ch.iter().enumerate() {
        let wt = w.map(|w| w[i] as f64).unwrap_or(1.0);
        if w.is_some() && !(wt > 0.0) {
            continue;
        }
        ws += wt;
        for j in 0..12 {
            avg[j] += wt * c[j] as f64;
        }
    }
    let flipr = (flip as f64).clamp(0.0, 1.0);
    if (!bonus && flipr <= 0.0) || ws <= 1e-9 {
        ensure!(same(&base, &r), "heuristic disabled but the result differs from plain detection");
        return obs(&r, 2);
    }
    well_formed(&r, false)?;
    let s: f64 = avg.iter().sum();
    if s > 1e-9 {
        avg.iter_mut().for_each(|x| *x /= s);
    }
    let mut exp = vec![0f64; 24];
    for (k, v) in &base.all_scores {
        exp[kidx(*k)] = *v as f64;
        if bonus && kidx(*k) >= 12 {
            let ton = kidx(*k) - 12;
            exp[kidx(*k)] += ws * (bw as f64).max(0.0) * (avg[(ton + 11) % 12] - avg[(ton + 10) % 12]);
        }
    }
    let scale = exp.iter().fold(1e-9f64, |a, b| a.max(b.abs()));
    for (k, v) in &r.all_scores {
        ensure!((*v as f64 - exp[kidx(*k)]).abs() <= 2e-5 * scale, "score of {:?} is {}, expected {}", k, v, exp[kidx(*k)]);
    }
    if !bonus {
        ensure!(r.all_scores == base.all_scores, "ranking changed without a bonus");
    }
    ensure!(closed(r.confidence as f64, conf_of(&r.all_scores, r.key).max(0.0), 1e-3, 1e-4), "confidence {} vs {}", r.confidence, conf_of(&r.all_scores, r.key));
    let best = kidx(r.all_scores[0].0);
    let ton = best % 12;
    let m = (margin as f64).max(0.0);
    let amb = std::cell::Cell::new(false);
    let gt = |a: f64, b: f64| {
        if (a - b).abs() < 1e-5 * a.abs().max(b.abs()).max(1e-6) && !(a == 0.0 && b == 0.0) {
            amb.set(true);
        }
        a > b
    };
    let (mut mi, mut ma) = (0f64, 0f64);
    for (lo, hi, wt) in [(3, 4, 2.0), (8, 9, 1.0), (10, 11, 1.0)] {
        let (a, b) = (avg[(ton + lo) % 12], avg[(ton + hi) % 12]);
        let d = (a - b).abs() * wt;
        if gt(a, b * (1.0 + m)) {
            mi += d
        } else if gt(b, a * (1.0 + m)) {
            ma += d
        }
    }
    let any = mi + ma > 1e-9;
    let minor_pref = any && gt(mi, ma * (1.0 + 0.5 * m));
    let major_pref = any && gt(ma, mi * (1.0 + 0.5 * m));
    let sc = |k: usize| r.all_scores.iter().find(|x| kidx(x.0) == k).unwrap().1 as f64;
    let mut want = best;
    if flipr > 0.0 {
        let alt = (best + 12) % 24;
        let pref = if best < 12 { minor_pref } else { major_pref };
        if pref && sc(best) > 0.0 {
            let (x, y) = (sc(alt), sc(best) * flipr);
            if (x - y).abs() < 1e-6 * y.abs() {
                amb.set(true);
            }
            if x >= y {
                want = alt;
            }
        }
    }
    if amb.get() {
        ctx.ambiguous();
        ensure!(kidx(r.key) % 12 == ton, "flip may only change the mode: {:?} from {:?}", r.key, kof(best));
    } else {
        ensure!(kidx(r.key) == want, "key {:?}, expected {:?} (best {:?}, minor evidence {:.4}, major evidence {:.4})", r.key, kof(want), kof(best), mi, ma);
    }
    ensure!(r.top_keys.iter().any(|x| x.0 == r.key), "chosen key {:?} missing from top_keys {:?}", r.key, r.top_keys);
    obs(&r, 2)
}

fn seqs(n: usize, letters: usize, mut i: usize) -> Vec<Vec<f32>> {
    (0..n)
        .map(|_| {
            let l = i % letters;
            i /= letters;
            letter(l)
        })
        .collect()
}
fn long_chroma(n: usize, kind: usize) -> Vec<Vec<f32>> {
    (0..n)
        .map(|i| match kind {
            0 => letter(2),
            1 => letter(if i * 2 < n { 2 } else { 4 }),
            2 => letter(8 + i % 13),
            3 => letter([2, 3, 6, 0][(i * 4) / n]),
            _ => letter(if i + 1 == n { 3 } else { 4 }),
        })
        .collect()
}
fn weights(n: usize, kind: usize) -> Option<Vec<f32>> {
    match kind {
        0 => None,
        1 => Some(vec![1.0; n]),
        2 => Some((0..n).map(|i| if i % 2 == 0 { 0.0 } else { 0.7 }).collect()),
        3 => Some((0..n).map(|i| [0.5, -1.0, 2.0, 1e-4][i % 4]).collect()),
        4 => Some(vec![0.0; n]),
        5 => Some((0..n).map(|i| [0.008, 0.002, 0.0065, 0.0][i % 4]).collect()),
        _ => Some((0..n).map(|i| [3e-6, 1e-6, 2e-6][i % 3]).collect()),
    }
}

/// compare two score tables key by key
fn same_scores(got: &[(Key, f32)], want: &[f64], tol: f64) -> Result<(), String> {
    let scale = want.iter().fold(1e-9f64, |a, b| a.max(b.abs()));
    for (k, s) in got {
        ensure!((*s as f64 - want[kidx(*k)]).abs() <= tol * scale, "aggregated score of {:?} is {}, expected {}", k, s, want[kidx(*k)]);
    }
    Ok(())
}

fn multi_case(ctx: &Ctx, ch: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>, lens: &[usize], hop: usize, minc: f32, sw: Option<&[f32]>, heur: bool, bonus: bool) -> CaseResult {
    let (margin, flip, bw) = (0.2f32, 0.6f32, 0.3f32);
    let one = |c: &[Vec<f32>], w: Option<&[f32]>| {
        if heur || bonus {
            detect_key_weighted_mode_heuristic(c, t, w, margin, if heur { flip } else { 0.0 }, bonus, bw)
        } else {
            detect_key_weighted(c, t, w)
        }
        .map_err(|e| format!("error {}", e))
    };
    let r = detect_key_multi_scale(ch, t, w, lens, hop, minc, sw, heur, margin, flip, bonus, bw).map_err(|e| format!("error {}", e))?;
    let mut acc = vec![0f64; 24];
    let (mut tot, mut used, mut steps) = (0f64, 0usize, 1u64);
    let mut amb = false;
    for (si, &l) in lens.iter().enumerate() {
        let sc = sw.and_then(|x| x.get(si).copied()).unwrap_or(1.0) as f64;
        if l == 0 || l > ch.len() || sc <= 0.0 {
            continue;
        }
        let mut s = 0;
        while s + l <= ch.len() {
            let seg = one(&ch[s..s + l], w.map(|w| &w[s..s + l]))?;
            steps += 1;
            let c = compute_key_clarity(&seg.all_scores) as f64;
            if (c - minc as f64).abs() < 1e-6 && c != minc as f64 {
                amb = true;
            }
            if c >= minc as f64 {
                used += 1;
                tot += c * sc;
                for (k, v) in &seg.all_scores {
                    acc[kidx(*k)] += *v as f64 * c * sc;
                }
            }
            s += hop.max(1);
        }
    }
    if amb {
        ctx.ambiguous();
        well_formed(&r, false)?;
        return obs(&r, steps);
    }
    if used == 0 || tot <= 1e-12 {
        let g = one(ch, w)?;
        ensure!(g.key == r.key && g.all_scores == r.all_scores && g.confidence == r.confidence && g.top_keys == r.top_keys, "no usable segment: expected the full-track result {:?}, got {:?}", g.key, r.key);
    } else {
        acc.iter_mut().for_each(|x| *x /= tot);
        well_formed(&r, true)?;
        same_scores(&r.all_scores, &acc, 1e-4)?;
        ensure!(closed(r.confidence as f64, conf_of(&r.all_scores, r.key), 1e-3, 1e-4), "confidence {}", r.confidence);
    }
    obs(&r, steps)
}

fn median_case(ch: &[Vec<f32>], t: &KeyTemplates, w: Option<&[f32]>, len: usize, hop: usize, minseg: usize) -> CaseResult {
    let r = detect_key_median(ch, t, w, len, hop, minseg).map_err(|e| format!("error {}", e))?;
    let l = len.min(ch.len()).max(120);
    let mut segs = vec![];
    let mut s = 0;
    while s + l <= ch.len() {
        segs.push(detect_key_weighted(&ch[s..s + l], t, w.map(|w| &w[s..s + l])).map_err(|e| e.to_string())?);
        s += hop.max(1);
    }
    if segs.len() < minseg.max(1) {
        let g = detect_key_weighted(ch, t, w).map_err(|e| e.to_string())?;
        ensure!(g.key == r.key && g.all_scores == r.all_scores && g.confidence == r.confidence, "too few segments: expected the full-track result");
        return obs(&r, 2);
    }
    let mut cnt: Vec<(Key, usize, f64)> = vec![];
    for g in &segs {
        match cnt.iter_mut().find(|c| c.0 == g.key) {
            Some(c) => {
                c.1 += 1;
                c.2 += g.confidence as f64
            }
            None => cnt.push((g.key, 1, g.confidence as f64)),
        }
    }
    let mine = cnt.iter().find(|c| c.0 == r.key);
    ensure!(mine.is_some(), "median key {:?} is not the key of any segment", r.key);
    let mine = mine.unwrap();
    for c in &cnt {
        ensure!(c.1 <= mine.1, "median key {:?} occurs {}x but {:?} occurs {}x", r.key, mine.1, c.0, c.1);
        ensure!(c.1 < mine.1 || c.2 <= mine.2 + 1e-4, "count tie must go to the larger total confidence");
    }
    let tw: f64 = segs.iter().map(|g| g.confidence as f64).sum();
    let mut want = vec![0f64; 24];
    for g in &segs {
        let wt = if tw > 0.0 { g.confidence as f64 / tw } else { 1.0 / segs.len() as f64 };
        for (k, v) in &g.all_scores {
            want[kidx(*k)] += *v as f64 * wt;
        }
    }
    same_scores(&r.all_scores, &want, 1e-4)?;
    for p in r.all_scores.windows(2) {
        ensure!(p[0].1 >= p[1].1, "scores not ranked");
    }
    ensure!((0.0..=1.0).contains(&r.confidence), "confidence {}", r.confidence);
    ensure!(closed(r.confidence as f64, conf_of(&r.all_scores, r.key), 1e-3, 1e-4), "confidence {}", r.confidence);
    obs(&r, segs.len() as u64 + 1)
}

fn ensemble_case(ch: &[Vec<f32>], w: Option<&[f32]>, a: f32, b: f32) -> CaseResult {
    let r = detect_key_ensemble(ch, w, a, b).map_err(|e| format!("error {}", e))?;
    well_formed(&r, true)?;
    let t = a as f64 + b as f64;
    let (ka, kb) = if t > 1e-9 { (a as f64 / t, b as f64 / t) } else { (0.5, 0.5) };
    let x = detect_key_weighted(ch, &templates(0), w).map_err(|e| e.to_string())?;
    let y = detect_key_weighted(ch, &templates(1), w).map_err(|e| e.to_string())?;
    let mut want = vec![0f64; 24];
    for (k, s) in &x.all_scores {
        want[kidx(*k)] += ka * *s as f64;
    }
    for (k, s) in &y.all_scores {
        want[kidx(*k)] += kb * *s as f64;
    }
    same_scores(&r.all_scores, &want, 2e-5)?;
    ensure!(closed(r.confidence as f64, conf_of(&r.all_scores, r.key), 1e-3, 1e-4), "confidence {}", r.confidence);
    obs(&r, 3)
}

pub fn p17(ctx: &Ctx) {
    ctx.rule("every chroma history over the stated frame/weight/parameter alphabets is run through the real detectors and compared with an independent reference scorer (f64) or with the composition of the real single-segment detector; nontrivial = a positive best score");
    ctx.assume("score comparisons within 2e-5 relative; decisions whose operands agree to 1e-5 in f64 are counted as ambiguous and only checked structurally");
    // templates themselves
    ctx.sweep("templates", 2 * 24, |i| format!("set {} key {}", i / 24, i % 24), |i| {
        let set = i / 24;
        let k = i % 24;
        let t = KeyTemplates::new_with_template_set(if set == 0 { TemplateSet::KrumhanslKessler } else { TemplateSet::Temperley });
        let base = match (set, k / 12) {
            (0, 0) => KK_MAJ,
            (0, _) => KK_MIN,
            (_, 0) => TE_MAJ,
            _ => TE_MIN,
        };
        let n = base.iter().map(|x| x * x).sum::<f64>().sqrt();
        let v = t.get_template(k as u32);
        let v2 = if k < 12 { t.get_major_template(k as u32) } else { t.get_minor_template(k as u32 - 12) };
        ensure!(v == v2 && v.len() == 12, "accessors disagree");
        for j in 0..12 {
            let e = base[(j + 12 - k % 12) % 12] / n;
            ensure!((v[j] as f64 - e).abs() < 1e-6, "component {} is {}, expected {}", j, v[j], e);
        }
        Ok(Obs::new(H::new().fs(v).done(), true, 3))
    });
    // every pitch-class set, both template sets
    ctx.sweep("pitch_sets", 4096 * 3, |i| format!("pitch-class set {:#05x}, templates {}", i / 3, [0, 1, 3][i % 3]), |i| {
        let t = templates([0, 1, 3][i % 3]);
        weighted_case(ctx, &[mask_chroma(i / 3, 0.013, 0.71)], &t, None)
    });
    // three-level vectors
    let n3 = ctx.pick(3usize.pow(9), 3usize.pow(12));
    let t0 = templates(0);
    ctx.sweep("three_level", n3, |i| format!("chroma digits base 3 of {}", i), |i| {
        let mut x = i;
        let lv = [0.0f32, 0.31, 0.9];
        let ch: Vec<f32> = (0..12)
            .map(|_| {
                let v = lv[x % 3];
                x /= 3;
                v
            })
            .collect();
        weighted_case(ctx, &[ch], &t0, None)
    });
    // every frame sequence up to length 4 with every weight pattern
    let fl = ctx.pick(3, 4);
    let nl = 10usize;
    ctx.sweep("sequences", nl.pow(fl as u32) * 7 * 2, |i| format!("frames base-10 {}, weights {}, templates {}", i / 14, i % 7, i / 7 % 2), |i| {
        let ch = seqs(fl, nl, i / 14);
        let w = weights(fl, i % 7);
        weighted_case(ctx, &ch, &templates(i / 7 % 2), w.as_deref())
    });
    let lens: Vec<usize> = vec![1, 2, 7, 8, 9, 63, 64, 65, 119, 120, 121, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9000, 33000, 70000];
    ctx.sweep("long", lens.len() * 5 * 7, |i| format!("{} frames, kind {}, weights {}", lens[i / 35], i / 7 % 5, i % 7), |i| {
        let n = lens[i / 35];
        let w = weights(n, i % 7);
        weighted_case(ctx, &long_chroma(n, i / 7 % 5), &templates(0), w.as_deref())
    });
    // gain of the whole chroma history must not matter for the ranking (tiny and huge)
    let gains = [1e-6f32, 1e-3, 0.1, 30.0, 1e4];
    ctx.sweep("gain", 4096 / 8 * gains.len(), |i| format!("set {:#x} gain {}", i / gains.len() * 8 + 5, gains[i % gains.len()]), |i| {
        let g = gains[i % gains.len()];
        let ch = mask_chroma(i / gains.len() * 8 + 5, 0.013, 0.71);
        let sc: Vec<f32> = ch.iter().map(|x| x * g).collect();
        weighted_case(ctx, &[sc], &templates(0), None)
    });
    // invalid shapes
    ctx.sweep("invalid", 8, |i| format!("invalid shape {}", i), |i| {
        let t = templates(0);
        let ok = vec![0.3f32; 12];
        let r = match i {
            0 => detect_key(&[], &t),
            1 => detect_key(&[vec![0.0; 11]], &t),
            2 => detect_key(&[ok.clone(), vec![0.0; 13]], &t),
            3 => detect_key_weighted(&[ok.clone()], &t, Some(&[])),
            4 => detect_key_weighted(&[ok.clone()], &t, Some(&[1.0, 1.0])),
            5 => detect_key_multi_scale(&[], &t, None, &[1], 1, 0.0, None, false, 0.2, 0.6, false, 0.0),
            6 => detect_key_multi_scale(&[ok.clone()], &t, None, &[], 1, 0.0, None, false, 0.2, 0.6, false, 0.0),
            _ => detect_key_median(&[], &t, None, 1, 1, 1),
        };
        ensure!(r.is_err(), "invalid input accepted");
        Ok(Obs::new(1, true, 1))
    });
    // unweighted entry point is the weighted one without weights
    ctx.sweep("plain", 1000, |i| format!("frames base-10 {}", i), |i| {
        let ch = seqs(3, 10, i);
        let t = templates(0);
        let a = detect_key(&ch, &t).map_err(|e| e.to_string())?;
        let b = detect_key_weighted(&ch, &t, None).map_err(|e| e.to_string())?;
        ensure!(a.key == b.key && a.all_scores == b.all_scores && a.confidence == b.confidence, "detect_key differs from unweighted detect_key_weighted");
        obs(&a, 2)
    });
    // mode heuristic: every pitch-class set x parameter grid
    let margins = [0.0f32, 0.2, 1.0, -0.5];
    let flips = [0.0f32, 0.6, 0.85, 1.0, 2.0, -1.0];
    let bws = [(false, 0.0f32), (true, 0.0), (true, 0.3), (true, 2.0), (true, -1.0)];
    let npar = margins.len() * flips.len() * bws.len();
    let step = ctx.pick(1usize, 1);
    let ncm = 4096 / step;
    ctx.sweep("mode_sets", ncm * npar, |i| format!("set {:#x} params {}", i / npar * step, i % npar), |i| {
        let mut x = Ix(i % npar);
        let (m, f, (b, bw)) = (*x.of(&margins), *x.of(&flips), *x.of(&bws));
        let mask = i / npar * step;
        // uneven levels so that evidence comparisons are decidable
        let ch: Vec<f32> = (0..12).map(|j| if mask >> j & 1 == 1 { 0.4 + 0.037 * j as f32 } else { 0.02 + 0.0011 * j as f32 }).collect();
        mode_case(ctx, &[ch], &t0, None, m, f, b, bw)
    });
    ctx.sweep("mode_sequences", 1000 * 7 * 4, |i| format!("frames {} weights {} par {}", i / 28, i % 7, i / 7 % 4), |i| {
        let ch = seqs(3, 10, i / 28);
        let w = weights(3, i % 7);
        let (m, f, b, bw) = [(0.2, 0.6, false, 0.0), (0.1, 0.3, true, 0.5), (0.0, 0.0, true, 1.0), (0.2, 0.0, false, 0.0)][i / 7 % 4];
        mode_case(ctx, &ch, &t0, w.as_deref(), m, f, b, bw)
    });
    // multi-scale aggregation
    let scale_sets: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![4], vec![1, 2, 4], vec![3, 8], vec![0, 2, 100], vec![100]];
    let hops = [0usize, 1, 2, 3];
    let mincs = [0.0f32, 0.3, 0.55, 2.0];
    let sws: Vec<Option<Vec<f32>>> = vec![None, Some(vec![1.0, 0.5, 0.25]), Some(vec![0.0, 2.0]), Some(vec![-1.0])];
    let nm = scale_sets.len() * 4 * 4 * 4 * 4;
    let nfr = ctx.pick(40usize, 400);
    ctx.sweep("multi_scale", nfr * nm, |i| format!("frames #{} params {}", i / nm, i % nm), |i| {
        let mut x = Ix(i % nm);
        let ls = x.of(&scale_sets).clone();
        let hop = *x.of(&hops);
        let mc = *x.of(&mincs);
        let sw = x.of(&sws).clone();
        let hb = x.take(4);
        let s = i / nm;
        let n = 1 + s % 8;
        let ch: Vec<Vec<f32>> = (0..n).map(|j| letter((s * 7 + j * (s / 8 + 1)) % 16)).collect();
        let w = weights(n, [0, 1, 2, 3, 5, 6][s % 6]);
        multi_case(ctx, &ch, &t0, w.as_deref(), &ls, hop, mc, sw.as_deref(), hb & 1 == 1, hb & 2 == 2)
    });
    ctx.sweep("multi_scale_long", 5 * 6, |i| format!("kind {} cfg {}", i / 6, i % 6), |i| {
        let n = [120, 200, 360, 720, 1024, 1500][i % 6];
        multi_case(ctx, &long_chroma(n, i / 6), &t0, None, &[120, 360, 720], 60, 0.2, Some(&[1.0, 1.0, 1.0]), true, false)
    });
    // median
    let mlens = [1usize, 60, 120, 121, 200, 400, 1000];
    let tot = [1usize, 119, 120, 121, 240, 360, 500];
    let oh = templates(3);
    ctx.sweep("median", 7 * 7 * 4 * 4 * 5 * 2 * 3, |i| format!("case {}", i), |i| {
        let mut x = Ix(i);
        let (l, n) = (*x.of(&mlens), *x.of(&tot));
        let hop = *x.of(&[0usize, 30, 60, 120]);
        let ms = *x.of(&[0usize, 1, 3, 5]);
        let kind = x.take(5);
        let onehot = x.take(2) == 1;
        let w = weights(n, [0, 3, 5][x.take(3)]);
        median_case(&long_chroma(n, kind), if onehot { &oh } else { &t0 }, w.as_deref(), l, hop.max(7), ms)
    });
    // ensemble
    let ew = [(0.5f32, 0.5f32), (1.0, 0.0), (0.0, 1.0), (0.0, 0.0), (3.0, 1.0), (0.001, 0.003), (2e-6, 1e-6), (400.0, 900.0)];
    ctx.sweep("ensemble", 4096 * ew.len(), |i| format!("set {:#x} weights {:?}", i / ew.len(), ew[i % ew.len()]), |i| {
        let (a, b) = ew[i % ew.len()];
        ensemble_case(&[mask_chroma(i / ew.len(), 0.013, 0.71)], None, a, b)
    });
    ctx.sweep("ensemble_seq", 1000 * 7, |i| format!("frames {} weights {}", i / 7, i % 7), |i| {
        let w = weights(3, i % 7);
        ensemble_case(&seqs(3, 10, i / 7), w.as_deref(), 0.7, 0.3)
    });
    // finding: the reference profile of a minor key is reported as a major key by the plain detector
    ctx.sweep("minor_profile", 1, |_| "chroma = A minor Krumhansl-Kessler profile".to_string(), |_| {
        let t = templates(0);
        let r = detect_key(&[t.minor[9].clone()], &t).map_err(|e| e.to_string())?;
        ensure!(r.key == Key::Minor(9), "the A minor profile itself is detected as {:?}", r.key);
        obs(&r, 1)
    });
}

pub fn p18(ctx: &Ctx) {
    ctx.rule("every key index in the explored ranges and every string up to the stated length over a hostile alphabet; nontrivial = a valid key/notation");
    const NAMES: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];
    let n = ctx.pick(3000usize, 200_000);
    ctx.sweep("keys", n, |i| format!("index {}", i), |i| {
        let v = if i % 2 == 0 { (i / 2) as u32 } else { u32::MAX - (i / 2) as u32 };
        let pc = (v % 12) as usize;
        let (ma, mi) = (Key::Major(v), Key::Minor(v));
        ensure!(ma.name() == NAMES[pc], "Major({}) is named {}", v, ma.name());
        ensure!(mi.name() == format!("{}m", NAMES[pc]), "Minor({}) is named {}", v, mi.name());
        // up a fifth (7 semitones) advances the number by one
        let pos = (0..12).find(|p| (p * 7) % 12 == pc).unwrap();
        let posm = (0..12).find(|p| (9 + p * 7) % 12 == pc).unwrap();
        ensure!(ma.numerical() == format!("{}A", pos + 1), "Major({}) numerical {}", v, ma.numerical());
        ensure!(mi.numerical() == format!("{}B", posm + 1), "Minor({}) numerical {}", v, mi.numerical());
        ensure!(Key::from_numerical(&ma.numerical()) == Some(Key::Major(pc as u32)), "round trip of Major({})", v);
        ensure!(Key::from_numerical(&mi.numerical()) == Some(Key::Minor(pc as u32)), "round trip of Minor({})", v);
        Ok(Obs::new(pc as u64, true, 6))
    });
    const AL: [&str; 18] = ["0", "1", "2", "3", "9", "A", "B", "a", "b", "C", " ", "-", "+", ".", "é", "１", "\0", "😀"];
    let depth = ctx.pick(4u32, 5);
    let total: usize = (0..=depth).map(|d| AL.len().pow(d)).sum();
    let string = |mut i: usize| {
        let mut d = 0;
        while i >= AL.len().pow(d) {
            i -= AL.len().pow(d);
            d += 1;
        }
        (0..d)
            .map(|_| {
                let c = AL[i % AL.len()];
                i /= AL.len();
                c
            })
            .collect::<String>()
    };
    ctx.sweep("strings", total, |i| format!("{:?}", string(i)), |i| {
        let s = string(i);
        let got = Key::from_numerical(&s);
        let want = s
            .strip_suffix('A')
            .map(|p| (p, false))
            .or(s.strip_suffix('B').map(|p| (p, true)))
            .and_then(|(p, minor)| {
                let num: u64 = p.strip_prefix('+').unwrap_or(p).chars().all(|c| c.is_ascii_digit()).then(|| p.parse().ok())??;
                if !(1..=12).contains(&num) {
                    return None;
                }
                let k = ((if minor { 9 } else { 0 }) + (num as u32 - 1) * 7) % 12;
                Some(if minor { Key::Minor(k) } else { Key::Major(k) })
            });
        ensure!(got == want, "from_numerical({:?}) = {:?}, expected {:?}", s, got, want);
        Ok(Obs::new(H::new().s(&format!("{:?}", got)).done(), got.is_some(), 1))
    });
    let odd = ["99999999999A", "4294967297A", "4294967308B", "00000000001A", "12AB", "1A ", " 1A", "1A\n", "12", "AA", "1AA", "𝟏A", "１A", "1Ａ"];
    ctx.sweep("odd_strings", odd.len(), |i| format!("{:?}", odd[i]), |i| {
        let got = Key::from_numerical(odd[i]);
        let want = if odd[i] == "00000000001A" { Some(Key::Major(0)) } else { None };
        ensure!(got == want, "from_numerical({:?}) = {:?}", odd[i], got);
        Ok(Obs::new(i as u64, true, 1))
    });
}

pub fn p22(ctx: &Ctx) {
    ctx.rule("every ranked score list over the value alphabet (clarity); every block sequence of chroma letters x segmentation (key changes); nontrivial = positive clarity / at least two segments");
    let vals = [1.2f32, 1.0, 0.99, 0.5, 0.25, 1e-3, 0.0, -0.5];
    // all non-increasing lists up to length L over vals: enumerate all tuples, keep sorted ones
    let maxl = ctx.pick(5u32, 6);
    let tot: usize = (0..=maxl).map(|l| vals.len().pow(l)).sum();
    let list = |mut i: usize| {
        let mut d = 0;
        while i >= vals.len().pow(d) {
            i -= vals.len().pow(d);
            d += 1;
        }
        (0..d)
            .map(|_| {
                let v = vals[i % vals.len()];
                i /= vals.len();
                v
            })
            .collect::<Vec<f32>>()
    };
    let clarity = |v: &[f32]| -> CaseResult {
        let sc: Vec<(Key, f32)> = v.iter().enumerate().map(|(i, s)| (kof(i % 24), *s)).collect();
        let got = compute_key_clarity(&sc) as f64;
        ensure!((0.0..=1.0).contains(&got), "clarity {}", got);
        let want = if v.len() < 2 {
            0.0
        } else {
            let mx = v.iter().cloned().fold(f32::MIN, f32::max) as f64;
            let mn = v.iter().cloned().fold(f32::MAX, f32::min) as f64;
            let av = v.iter().map(|x| *x as f64).sum::<f64>() / v.len() as f64;
            if mx - mn > 1e-10 {
                ((mx - av) / (mx - mn)).clamp(0.0, 1.0)
            } else {
                0.0
            }
        };
        let (mx, mn) = v.iter().fold((0f64, f64::MAX), |a, x| (a.0.max(x.abs() as f64), a.1.min(*x as f64)));
        let range = (v.first().copied().unwrap_or(0.0) as f64 - mn).max(1e-9);
        ensure!((got - want).abs() < 1e-4 + 1e-6 * mx / range, "clarity {} expected {}", got, want);
        Ok(Obs::new(H::new().u((want * 1e4) as u64).done(), want > 0.0, 1))
    };
    ctx.sweep("clarity_lists", tot, |i| format!("{:?}", list(i)), |i| {
        let v = list(i);
        if v.windows(2).any(|w| w[0] < w[1]) {
            return Ok(Obs::new(0, false, 0));
        }
        clarity(&v)
    });
    // 24-entry ranked tables: a entries at hi, b at mid, rest low
    ctx.sweep("clarity_tables", 25 * 25 * 4, |i| format!("table {}", i), |i| {
        let mut x = Ix(i);
        let (a, b) = (x.take(25), x.take(25));
        let (hi, mid, lo) = *x.of(&[(1.2f32, 1.1f32, 0.7f32), (1.0, 0.999, 0.9985), (1e-4, 5e-5, 0.0), (0.3, 0.0, -0.2)]);
        let v: Vec<f32> = (0..24).map(|j| if j < a { hi } else if j < a + b { mid } else { lo }).collect();
        clarity(&v)
    });

    // ---- key changes ----
    let letters: Vec<Vec<f32>> = vec![letter(2), letter(4), letter(3), letter(0)];
    let onehot: Vec<Vec<f32>> = (0..4)
        .map(|k| {
            let mut v = vec![0.0f32; 12];
            if k < 3 {
                v[[0usize, 6, 3][k]] = 1.0;
            }
            v
        })
        .collect();
    let nb = ctx.pick(5usize, 7);
    // (sample rate, hop, duration, overlap, frames per block)
    let geo: Vec<(u32, usize, f32, f32, usize)> = vec![
        (8, 1, 1.0, 0.0, 8),
        (8, 1, 1.0, 0.5, 8),
        (8, 1, 1.0, 0.5, 4),
        (44100, 512, 0.1, 0.03, 8),
        (48000, 480, 0.25, 0.1, 13),
        (100, 10, 0.45, 0.2, 3),
        (8, 1, 20.0, 0.0, 8),
    ];
    let ns = 4usize.pow(nb as u32);
    let tpl = [templates(0), templates(3)];
    ctx.sweep("changes", ns * geo.len() * 2, |i| format!("blocks base-4 {}, geometry {:?}, templates {}", i / (geo.len() * 2), geo[i / 2 % geo.len()], i % 2), |i| {
        let (sr, hop, dur, ov, per) = geo[i / 2 % geo.len()];
        let al = if i % 2 == 0 { &letters } else { &onehot };
        let mut s = i / (geo.len() * 2);
        let mut ch = vec![];
        for _ in 0..nb {
            for _ in 0..per {
                ch.push(al[s % 4].clone());
            }
            s /= 4;
        }
        changes_case(&ch, sr, hop, &tpl[i % 2], dur, ov)
    });
    ctx.sweep("changes_long", 4, |i| format!("long {}", i), |i| {
        let (sr, hop, dur, ov) = [(44100u32, 512usize, 8.0f32, 2.0f32), (44100, 512, 4.0, 1.0), (22050, 512, 8.0, 2.0), (48000, 1024, 16.0, 8.0)][i];
        let ch: Vec<Vec<f32>> = (0..4000).map(|f| onehot[f / 900 % 3].clone()).collect();
        changes_case(&ch, sr, hop, &tpl[1], dur, ov)
    });
    ctx.sweep("changes_invalid", 6, |i| format!("invalid {}", i), |i| {
        let ch = vec![letter(2); 20];
        let t = templates(0);
        let r = match i {
            0 => detect_key_changes(&[], 8, 1, &t, 1.0, 0.0),
            1 => detect_key_changes(&ch, 8, 1, &t, 0.0, 0.0),
            2 => detect_key_changes(&ch, 8, 1, &t, 1.0, 1.0),
            3 => detect_key_changes(&ch, 8, 1, &t, 1.0, 2.0),
            4 => detect_key_changes(&ch, 8, 1, &t, 100.0, 0.0),
            _ => detect_key_changes(&ch, 8, 1, &t, -1.0, 0.0),
        };
        ensure!(r.is_err(), "invalid segmentation accepted");
        Ok(Obs::new(i as u64, true, 1))
    });
    ctx.sweep("modulation", 1, |_| "C major then F# major, standard templates".to_string(), |_| {
        let t = templates(0);
        let ch: Vec<Vec<f32>> = (0..64).map(|f| t.major[if f < 32 { 0 } else { 6 }].clone()).collect();
        let r = detect_key_changes(&ch, 8, 1, &t, 2.0, 0.0).map_err(|e| e.to_string())?;
        ensure!(r.segment_keys[0].1 == Key::Major(0) && r.segment_keys[3].1 == Key::Major(6), "segment keys {:?}", r.segment_keys);
        ensure!(r.key_changes.len() == 1, "C major to F# major modulation yields {} reported key changes (segment confidences {:?})", r.key_changes.len(), r.segment_keys.iter().map(|s| s.2).collect::<Vec<_>>());
        Ok(Obs::new(1, true, 1))
    });
}

fn changes_case(ch: &[Vec<f32>], sr: u32, hop: usize, t: &KeyTemplates, dur: f32, ov: f32) -> CaseResult {
    let fps = sr as f64 / hop as f64;
    let seg = (dur as f64 * fps + 1e-6) as usize;
    let ovf = (ov as f64 * fps + 1e-6) as usize;
    let res = detect_key_changes(ch, sr, hop, t, dur, ov);
    let step = seg - ovf;
    let mut want = vec![];
    let mut s = 0;
    while s + seg <= ch.len() {
        let r = detect_key(&ch[s..s + seg], t).map_err(|e| e.to_string())?;
        want.push((s as f64 / fps, r.key, r.confidence));
        s += step;
    }
    if want.is_empty() {
        ensure!(res.is_err(), "result without any complete segment");
        return Ok(Obs::new(0, false, 1));
    }
    let r = res.map_err(|e| format!("error {}", e))?;
    ensure!(r.segment_keys.len() == want.len(), "{} segments, expected {}", r.segment_keys.len(), want.len());
    for (g, w) in r.segment_keys.iter().zip(&want) {
        ensure!((g.0 as f64 - w.0).abs() < 1e-3 && g.1 == w.1 && g.2 == w.2, "segment {:?}, expected {:?}", g, w);
    }
    let mut cnt: Vec<(Key, usize, f64)> = vec![];
    for w in &want {
        match cnt.iter_mut().find(|c| c.0 == w.1) {
            Some(c) => {
                c.1 += 1;
                c.2 += w.2 as f64
            }
            None => cnt.push((w.1, 1, w.2 as f64)),
        }
    }
    let p = cnt.iter().find(|c| c.0 == r.primary_key).ok_or("primary key is no segment's key")?;
    ensure!(cnt.iter().all(|c| c.1 <= p.1), "primary key {:?} is not the most common", r.primary_key);
    ensure!((r.primary_confidence as f64 - p.2 / p.1 as f64).abs() < 1e-5, "primary confidence {}", r.primary_confidence);
    let mut exp = vec![];
    for w in want.windows(2) {
        let c = (w[0].2 as f64 + w[1].2 as f64) / 2.0;
        if w[0].1 != w[1].1 && c > 0.2 {
            exp.push((w[1].0, w[0].1, w[1].1, c));
        }
    }
    ensure!(r.key_changes.len() == exp.len(), "{} key changes, expected {}", r.key_changes.len(), exp.len());
    for (g, w) in r.key_changes.iter().zip(&exp) {
        ensure!((g.timestamp as f64 - w.0).abs() < 1e-3 && g.from_key == w.1 && g.to_key == w.2 && (g.confidence as f64 - w.3).abs() < 1e-5, "change {:?}, expected {:?}", g, w);
    }
    Ok(Obs::new(H::new().u(exp.len() as u64).u(want.len() as u64).u(kidx(r.primary_key) as u64).done(), want.len() > 1, 1 + want.len() as u64))
}
