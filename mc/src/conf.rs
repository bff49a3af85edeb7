//! P19 confidence scoring.
use crate::core::*;
use crate::ensure;
use stratum_dsp::analysis::result::*;
use stratum_dsp::compute_confidence;

pub fn result(bpm: f32, bc: f32, key: Key, kc: f32, clarity: f32, stab: f32, warn: Vec<String>, flags: Vec<AnalysisFlag>) -> AnalysisResult {
    AnalysisResult {
        bpm,
        bpm_confidence: bc,
        key,
        key_confidence: kc,
        key_clarity: clarity,
        beat_grid: BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] },
        grid_stability: stab,
        metadata: AnalysisMetadata {
            duration_seconds: 30.0,
            sample_rate: 44100,
            processing_time_ms: 1.0,
            algorithm_version: "x".into(),
            onset_method_consensus: 1.0,
            methods_used: vec![],
            flags,
            confidence_warnings: warn,
            tempogram_candidates: None,
            tempogram_multi_res_triggered: None,
            tempogram_multi_res_used: None,
            tempogram_percussive_triggered: None,
            tempogram_percussive_used: None,
        },
    }
}

pub fn ref_conf(r: &AnalysisResult) -> (f64, f64, f64, f64) {
    let w = &r.metadata.confidence_warnings;
    let has = |p: &[&str]| w.iter().any(|s| p.iter().any(|q| s.contains(q)));
    let b = if r.bpm <= 0.0 { 0.0 } else { (r.bpm_confidence as f64).clamp(0.0, 1.0) * if has(&["BPM"]) { 0.7 } else { 1.0 } };
    let k = if r.key_confidence <= 0.0 {
        0.0
    } else {
        let c = r.key_clarity;
        (r.key_confidence as f64).clamp(0.0, 1.0) * if c < 0.2 { 0.6 } else if c < 0.5 { 0.85 } else { 1.0 } * if has(&["key", "Key", "tonality"]) { 0.7 } else { 1.0 }
    };
    let g = (r.grid_stability as f64).clamp(0.0, 1.0);
    let o = if b > 0.0 && k > 0.0 {
        (0.4 * b + 0.3 * k + 0.3 * g).clamp(0.0, 1.0)
    } else if b > 0.0 {
        0.6 * b
    } else if k > 0.0 {
        0.6 * k
    } else {
        0.0
    };
    (b, k, g, o)
}

pub fn check(r: &AnalysisResult) -> Result<u64, String> {
    let c = compute_confidence(r);
    let (b, k, g, o) = ref_conf(r);
    for (n, got, want) in [("tempo", c.bpm_confidence, b), ("key", c.key_confidence, k), ("grid", c.grid_stability, g), ("overall", c.overall_confidence, o)] {
        ensure!((0.0..=1.0).contains(&got), "{} confidence {}", n, got);
        ensure!((got as f64 - want).abs() < 1e-5, "{} confidence {}, want {}", n, got, want);
    }
    let mut want = r.metadata.flags.clone();
    if c.bpm_confidence < 0.3 {
        want.push(AnalysisFlag::MultimodalBpm);
    }
    if c.key_confidence < 0.2 {
        want.push(AnalysisFlag::WeakTonality);
    }
    if c.grid_stability < 0.3 {
        want.push(AnalysisFlag::TempoVariation);
    }
    let key = |v: &[AnalysisFlag]| {
        let mut s: Vec<String> = v.iter().map(|f| format!("{:?}", f)).collect();
        s.sort();
        s
    };
    ensure!(key(&c.flags) == key(&want), "flags {:?}, want {:?}", c.flags, want);
    let lev = if c.overall_confidence >= 0.7 { "High" } else if c.overall_confidence < 0.5 { "Low" } else { "Medium" };
    ensure!(c.confidence_level() == lev && c.is_high_confidence() == (lev == "High") && c.is_low_confidence() == (lev == "Low") && c.is_medium_confidence() == (lev == "Medium"), "level {} for {}", c.confidence_level(), c.overall_confidence);
    Ok(H::new().f(c.overall_confidence).f(c.bpm_confidence).f(c.key_confidence).u(c.flags.len() as u64).done())
}

pub fn p19(ctx: &Ctx) {
    ctx.rule("full product of boundary and mid values of every input of the score (tempo, tempo/key confidence, clarity, stability), every warning set and existing-flag set; all 101x101 grid points of the classification limits");
    let bpm: &[f32] = &[-1.0, 0.0, 1e-6, 59.0, 120.0, 400.0];
    let q = [-0.5f32, 0.0, 1e-6, 0.1, 0.2, 0.25, 0.299, 0.3, 0.301, 0.333, 0.428, 0.4286, 0.5, 0.7, 0.85, 0.99, 1.0, 1.5];
    let bc: &[f32] = &q;
    let kc: &[f32] = &q;
    let cl: &[f32] = &[-1.0, 0.0, 0.199, 0.2, 0.201, 0.35, 0.499, 0.5, 0.501, 1.0, 2.0];
    let st: &[f32] = &[-0.2, 0.0, 0.29, 0.2999, 0.3, 0.31, 0.6, 1.0, 3.0];
    let warn: Vec<Vec<String>> = [
        vec![],
        vec!["BPM detection failed: too few onsets"],
        vec!["Key detection failed"],
        vec!["Low key clarity"],
        vec!["weak tonality"],
        vec!["Bpm low", "KEY low", "Tonality"],
        vec!["grid unstable"],
        vec!["grid unstable", "Low BPM confidence"],
        vec!["BPM low", "BPM lower", "Low key confidence", "low tonality"],
        vec!["chroma empty", "monkey"],
    ]
    .iter()
    .map(|v| v.iter().map(|s| s.to_string()).collect())
    .collect();
    let flags: Vec<Vec<AnalysisFlag>> = vec![vec![], vec![AnalysisFlag::WeakTonality], vec![AnalysisFlag::TempoVariation, AnalysisFlag::MultimodalBpm]];
    let keys = [Key::Major(0), Key::Minor(11)];
    let n = bpm.len() * bc.len() * kc.len() * cl.len() * st.len() * warn.len();
    ctx.sweep(
        "product",
        n,
        |i| {
            let mut x = Ix(i);
            format!("bpm {} conf {} key conf {} clarity {} stability {} warnings {}", x.of(bpm), x.of(bc), x.of(kc), x.of(cl), x.of(st), x.take(warn.len()))
        },
        |i| {
            let mut x = Ix(i);
            let (b, c, k, l, s) = (*x.of(bpm), *x.of(bc), *x.of(kc), *x.of(cl), *x.of(st));
            let w = x.of(&warn).clone();
            let mut h = H::new();
            let nf = ctx.pick(1, 3);
            for j in 0..nf {
                let f = flags[(i + j) % 3].clone();
                h = h.u(check(&result(b, c, keys[(i + j) % 2], k, l, s, w.clone(), f))?);
            }
            Ok(Obs::new(h.done(), b > 0.0 || k > 0.0, nf as u64))
        },
    );
    let m = ctx.pick(101usize, 401);
    ctx.sweep(
        "levels",
        m * m,
        |i| format!("confidences {} and {}", i % m, i / m),
        |i| {
            let v = |k: usize| k as f32 / (m - 1) as f32;
            let h = check(&result(120.0, v(i % m), Key::Major(3), v(i / m), 0.8, v((i % m + i / m) / 2), vec![], vec![]))?;
            Ok(Obs::new(h, true, 1))
        },
    );
}
