//! P25: results survive serialization (JSON, the format of the CLI and of the result types).
use crate::core::*;
use crate::ensure;
use crate::pipe::{sig, small};
use serde_json::{json, Map, Value};
use stratum_dsp::analysis::result::*;
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisConfidence};

fn num(v: f32) -> Value {
    json!(v)
}
fn nums(v: &[f32]) -> Value {
    Value::Array(v.iter().map(|x| num(*x)).collect())
}
fn key_json(k: &Key) -> Value {
    match k {
        Key::Major(i) => json!({ "Major": i }),
        Key::Minor(i) => json!({ "Minor": i }),
    }
}
fn flag_name(f: &AnalysisFlag) -> &'static str {
    match f {
        AnalysisFlag::MultimodalBpm => "MultimodalBpm",
        AnalysisFlag::WeakTonality => "WeakTonality",
        AnalysisFlag::TempoVariation => "TempoVariation",
        AnalysisFlag::OnsetDetectionAmbiguous => "OnsetDetectionAmbiguous",
    }
}
fn flags_json(f: &[AnalysisFlag]) -> Value {
    Value::Array(f.iter().map(|f| json!(flag_name(f))).collect())
}
/// The document a result is expected to become: one entry per field under the field's name,
/// absent optional diagnostics left out.
pub fn model(r: &AnalysisResult) -> Value {
    let m = &r.metadata;
    let mut md = Map::new();
    md.insert("duration_seconds".into(), num(m.duration_seconds));
    md.insert("sample_rate".into(), json!(m.sample_rate));
    md.insert("processing_time_ms".into(), num(m.processing_time_ms));
    md.insert("algorithm_version".into(), json!(m.algorithm_version));
    md.insert("onset_method_consensus".into(), num(m.onset_method_consensus));
    md.insert("methods_used".into(), json!(m.methods_used));
    md.insert("flags".into(), flags_json(&m.flags));
    md.insert("confidence_warnings".into(), json!(m.confidence_warnings));
    if let Some(c) = &m.tempogram_candidates {
        let v: Vec<Value> = c
            .iter()
            .map(|c| json!({"bpm": num(c.bpm), "score": num(c.score), "fft_norm": num(c.fft_norm), "autocorr_norm": num(c.autocorr_norm), "selected": c.selected}))
            .collect();
        md.insert("tempogram_candidates".into(), Value::Array(v));
    }
    for (n, v) in [
        ("tempogram_multi_res_triggered", m.tempogram_multi_res_triggered),
        ("tempogram_multi_res_used", m.tempogram_multi_res_used),
        ("tempogram_percussive_triggered", m.tempogram_percussive_triggered),
        ("tempogram_percussive_used", m.tempogram_percussive_used),
    ] {
        if let Some(b) = v {
            md.insert(n.into(), json!(b));
        }
    }
    json!({
        "bpm": num(r.bpm), "bpm_confidence": num(r.bpm_confidence), "key": key_json(&r.key),
        "key_confidence": num(r.key_confidence), "key_clarity": num(r.key_clarity),
        "beat_grid": {"downbeats": nums(&r.beat_grid.downbeats), "beats": nums(&r.beat_grid.beats), "bars": nums(&r.beat_grid.bars)},
        "grid_stability": num(r.grid_stability), "metadata": Value::Object(md),
    })
}
fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
/// bit-exact equality of every field; returns the first that differs
pub fn differs(a: &AnalysisResult, b: &AnalysisResult) -> Option<&'static str> {
    let f = |x: f32, y: f32| x.to_bits() == y.to_bits();
    let (m, n) = (&a.metadata, &b.metadata);
    let cand = |c: &Option<Vec<TempoCandidateDebug>>| c.as_ref().map(|v| v.iter().map(|c| (bits(&[c.bpm, c.score, c.fft_norm, c.autocorr_norm]), c.selected)).collect::<Vec<_>>());
    let t = [
        ("bpm", f(a.bpm, b.bpm)),
        ("bpm_confidence", f(a.bpm_confidence, b.bpm_confidence)),
        ("key", a.key == b.key),
        ("key_confidence", f(a.key_confidence, b.key_confidence)),
        ("key_clarity", f(a.key_clarity, b.key_clarity)),
        ("grid_stability", f(a.grid_stability, b.grid_stability)),
        ("beats", bits(&a.beat_grid.beats) == bits(&b.beat_grid.beats)),
        ("downbeats", bits(&a.beat_grid.downbeats) == bits(&b.beat_grid.downbeats)),
        ("bars", bits(&a.beat_grid.bars) == bits(&b.beat_grid.bars)),
        ("duration_seconds", f(m.duration_seconds, n.duration_seconds)),
        ("sample_rate", m.sample_rate == n.sample_rate),
        ("processing_time_ms", f(m.processing_time_ms, n.processing_time_ms)),
        ("algorithm_version", m.algorithm_version == n.algorithm_version),
        ("onset_method_consensus", f(m.onset_method_consensus, n.onset_method_consensus)),
        ("methods_used", m.methods_used == n.methods_used),
        ("flags", m.flags.iter().map(flag_name).eq(n.flags.iter().map(flag_name))),
        ("confidence_warnings", m.confidence_warnings == n.confidence_warnings),
        ("tempogram_candidates", cand(&m.tempogram_candidates) == cand(&n.tempogram_candidates)),
        ("tempogram_multi_res_triggered", m.tempogram_multi_res_triggered == n.tempogram_multi_res_triggered),
        ("tempogram_multi_res_used", m.tempogram_multi_res_used == n.tempogram_multi_res_used),
        ("tempogram_percussive_triggered", m.tempogram_percussive_triggered == n.tempogram_percussive_triggered),
        ("tempogram_percussive_used", m.tempogram_percussive_used == n.tempogram_percussive_used),
    ];
    t.iter().find(|x| !x.1).map(|x| x.0)
}
/// write, read back, compare; then the document itself against the model
pub fn trip(r: &AnalysisResult) -> Result<u64, String> {
    let text = serde_json::to_string(r).map_err(|e| format!("not written: {}", e))?;
    let back: AnalysisResult = serde_json::from_str(&text).map_err(|e| format!("not read back: {} from {}", e, text))?;
    if let Some(f) = differs(r, &back) {
        return Err(format!("{} changed by writing and reading: {}", f, text));
    }
    let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    let want = model(r);
    ensure!(same(&v, &want), "document {} instead of {}", v, want);
    let val = serde_json::to_value(r).map_err(|e| e.to_string())?;
    let back: AnalysisResult = serde_json::from_value(val).map_err(|e| format!("value not read back: {}", e))?;
    if let Some(f) = differs(r, &back) {
        return Err(format!("{} changed through a value", f));
    }
    let again = serde_json::to_string(&back).map_err(|e| e.to_string())?;
    ensure!(again == text, "second writing differs: {} / {}", text, again);
    Ok(H::new().s(&text).done())
}
/// same document, decimal numbers compared as the 32-bit values they denote
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.is_f64() == y.is_f64() && if x.is_f64() { (x.as_f64().unwrap() as f32).to_bits() == (y.as_f64().unwrap() as f32).to_bits() } else { x == y },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        _ => a == b,
    }
}
fn conf_trip(c: &AnalysisConfidence) -> Result<u64, String> {
    let text = serde_json::to_string(c).map_err(|e| e.to_string())?;
    let b: AnalysisConfidence = serde_json::from_str(&text).map_err(|e| format!("not read back: {} from {}", e, text))?;
    ensure!(bits(&[c.bpm_confidence, c.key_confidence, c.grid_stability, c.overall_confidence]) == bits(&[b.bpm_confidence, b.key_confidence, b.grid_stability, b.overall_confidence]), "confidence changed: {}", text);
    ensure!(c.flags.iter().map(flag_name).eq(b.flags.iter().map(flag_name)), "flags changed: {}", text);
    let v: Value = serde_json::from_str(&text).unwrap();
    let want = ["bpm_confidence", "flags", "grid_stability", "key_confidence", "overall_confidence"];
    let mut names: Vec<&str> = v.as_object().map(|o| o.keys().map(|k| k.as_str()).collect()).unwrap_or_default();
    names.sort();
    ensure!(names == want, "fields {:?}", names);
    ensure!(v["flags"] == flags_json(&c.flags), "flags written as {}", v["flags"]);
    Ok(H::new().s(&text).done())
}
fn base() -> AnalysisResult {
    let mut r = crate::conf::result(128.0, 0.75, Key::Major(0), 0.4, 0.3, 0.9, vec![], vec![]);
    r.beat_grid = BeatGrid { downbeats: vec![0.5, 2.375], beats: vec![0.5, 0.96875, 1.4375, 1.90625, 2.375], bars: vec![0.5, 2.375] };
    r
}
const ALL: [AnalysisFlag; 4] = [AnalysisFlag::MultimodalBpm, AnalysisFlag::WeakTonality, AnalysisFlag::TempoVariation, AnalysisFlag::OnsetDetectionAmbiguous];
fn cand(i: usize) -> TempoCandidateDebug {
    TempoCandidateDebug { bpm: 60.0 + 0.5 * i as f32, score: 0.1 * i as f32, fft_norm: 1.0 / (1.0 + i as f32), autocorr_norm: 1.0 - 0.3 * i as f32, selected: i % 2 == 1 }
}
fn set_field(r: &mut AnalysisResult, i: usize, v: f32) {
    match i {
        0 => r.bpm = v,
        1 => r.bpm_confidence = v,
        2 => r.key_confidence = v,
        3 => r.key_clarity = v,
        4 => r.grid_stability = v,
        5 => r.metadata.duration_seconds = v,
        6 => r.metadata.processing_time_ms = v,
        7 => r.metadata.onset_method_consensus = v,
        8 => r.beat_grid.beats[1] = v,
        9 => r.beat_grid.downbeats[1] = v,
        10 => r.beat_grid.bars[0] = v,
        _ => {
            let mut c = cand(1);
            match i {
                11 => c.bpm = v,
                12 => c.score = v,
                13 => c.fft_norm = v,
                _ => c.autocorr_norm = v,
            }
            r.metadata.tempogram_candidates = Some(vec![cand(0), c]);
        }
    }
}

pub fn p25(ctx: &Ctx) {
    ctx.rule("full product of presence and value of every optional diagnostic, every ordered flag list up to length 4, all 24 keys, every number field x a grid of all binary exponents, every text field x a set of hostile strings, every subset of missing optional fields in the document, every missing required field and every malformed key/flag, and results of real analyses; each is written, compared with the document model, read back and compared bit for bit");
    let tri = [None, Some(false), Some(true)];
    // optional diagnostics: 3^4 x 4 candidate lists x keys
    ctx.sweep(
        "options",
        81 * 4 * 24,
        |i| {
            let mut x = Ix(i);
            format!("diagnostics {:?}/{:?}/{:?}/{:?}, candidate list {}, key {}", tri[x.take(3)], tri[x.take(3)], tri[x.take(3)], tri[x.take(3)], x.take(4), x.take(24))
        },
        |i| {
            let mut x = Ix(i);
            let mut r = base();
            let m = &mut r.metadata;
            m.tempogram_multi_res_triggered = tri[x.take(3)];
            m.tempogram_multi_res_used = tri[x.take(3)];
            m.tempogram_percussive_triggered = tri[x.take(3)];
            m.tempogram_percussive_used = tri[x.take(3)];
            m.tempogram_candidates = match x.take(4) {
                0 => None,
                k => Some((0..[0, 0, 1, 3][k]).map(cand).collect()),
            };
            let k = x.take(24) as u32;
            r.key = if k < 12 { Key::Major(k) } else { Key::Minor(k - 12) };
            Ok(Obs::new(trip(&r)?, true, 5))
        },
    );
    // every ordered flag list
    let nf: usize = (0..=4).map(|l| 4usize.pow(l)).sum();
    let list = |mut i: usize| {
        let mut l = 0u32;
        while i >= 4usize.pow(l) {
            i -= 4usize.pow(l);
            l += 1;
        }
        (0..l).map(|j| ALL[i / 4usize.pow(j) % 4].clone()).collect::<Vec<_>>()
    };
    ctx.sweep("flags", nf, |i| format!("{:?}", list(i)), |i| {
        let mut r = base();
        r.metadata.flags = list(i);
        let a = trip(&r)?;
        let mut c = compute_confidence(&r);
        let b = conf_trip(&c)?;
        c.flags = list(i);
        Ok(Obs::new(a ^ b ^ conf_trip(&c)?, i > 0, 9))
    });
    // numbers: every exponent x mantissa pattern x sign in every field
    let man: Vec<u32> = if ctx.thorough() { (0..128).map(|i| (i as u32).wrapping_mul(0x9e3779b1) >> 9).chain([0, 1, 0x400000, 0x7fffff]).collect() } else { vec![0, 1, 0x400000, 0x555555, 0x7fffff] };
    let vals: Vec<f32> = (0..255u32).flat_map(|e| man.iter().flat_map(move |m| [0u32, 1].map(|s| f32::from_bits(s << 31 | e << 23 | m)))).collect();
    ctx.sweep("numbers", vals.len() * 15, |i| format!("field {} = {:e}", i % 15, vals[i / 15]), |i| {
        let mut r = base();
        set_field(&mut r, i % 15, vals[i / 15]);
        Ok(Obs::new(trip(&r)?, true, 5))
    });
    ctx.sweep("confidence_numbers", vals.len() * 4, |i| format!("field {} = {:e}", i % 4, vals[i / 4]), |i| {
        let mut c = compute_confidence(&base());
        let v = vals[i / 4];
        match i % 4 {
            0 => c.bpm_confidence = v,
            1 => c.key_confidence = v,
            2 => c.grid_stability = v,
            _ => c.overall_confidence = v,
        }
        Ok(Obs::new(conf_trip(&c)?, true, 2))
    });
    let rates = [0u32, 1, 7, 8000, 44100, 192000, u32::MAX];
    ctx.sweep("rates", rates.len(), |i| format!("{} Hz", rates[i]), |i| {
        let mut r = base();
        r.metadata.sample_rate = rates[i];
        Ok(Obs::new(trip(&r)?, true, 5))
    });
    // texts
    let txt: Vec<String> = ["", "a", "Low \"key\" confidence", "back\\slash", "line\nbreak\ttab\r", "\u{0}\u{1f}\u{7f}", "ünïcödé ♯♭ 🎵", "{\"bpm\": 1}", "null", "\u{2028}\u{feff}"].iter().map(|s| s.to_string()).chain(std::iter::once("x".repeat(5000))).collect();
    let nt = txt.len();
    ctx.sweep("texts", 3 * (1 + nt + nt * nt), |i| format!("field {} list {}", i % 3, i / 3), |i| {
        let j = i / 3;
        let l: Vec<String> = if j == 0 {
            vec![]
        } else if j <= nt {
            vec![txt[j - 1].clone()]
        } else {
            vec![txt[(j - 1 - nt) % nt].clone(), txt[(j - 1 - nt) / nt].clone()]
        };
        let mut r = base();
        match i % 3 {
            0 => r.metadata.methods_used = l,
            1 => r.metadata.confidence_warnings = l,
            _ => r.metadata.algorithm_version = l.concat(),
        }
        Ok(Obs::new(trip(&r)?, j > 0, 5))
    });
    // beat lists of every size, each different
    ctx.sweep("lists", 6 * 6 * 6, |i| format!("{} beats, {} downbeats, {} bars", i % 6, i / 6 % 6, i / 36), |i| {
        let mk = |n: usize, o: f32| (0..n).map(|k| o + k as f32 * 0.3).collect::<Vec<f32>>();
        let mut r = base();
        r.beat_grid = BeatGrid { beats: mk(i % 6, 0.01), downbeats: mk(i / 6 % 6, 0.02), bars: mk(i / 36, 0.03) };
        let g = serde_json::to_string(&r.beat_grid).map_err(|e| e.to_string())?;
        let b: BeatGrid = serde_json::from_str(&g).map_err(|e| e.to_string())?;
        ensure!(bits(&b.beats) == bits(&r.beat_grid.beats) && bits(&b.downbeats) == bits(&r.beat_grid.downbeats) && bits(&b.bars) == bits(&r.beat_grid.bars), "grid changed: {}", g);
        Ok(Obs::new(trip(&r)?, true, 7))
    });
    // documents: any subset of the optional fields missing or null or extended; any required field missing
    let opt = ["tempogram_candidates", "tempogram_multi_res_triggered", "tempogram_multi_res_used", "tempogram_percussive_triggered", "tempogram_percussive_used"];
    ctx.sweep("documents", 243 * 2, |i| format!("optional fields kept/absent/null pattern {}, unknown field {}", i % 243, i / 243), |i| {
        let mut full = base();
        full.metadata.tempogram_candidates = Some(vec![cand(1), cand(2)]);
        full.metadata.tempogram_multi_res_triggered = Some(true);
        full.metadata.tempogram_multi_res_used = Some(false);
        full.metadata.tempogram_percussive_triggered = Some(true);
        full.metadata.tempogram_percussive_used = Some(true);
        let mut want = full.clone();
        let mut doc = model(&full);
        let mut x = Ix(i);
        for n in opt {
            let k = x.take(3);
            if k == 0 {
                continue;
            }
            let md = doc["metadata"].as_object_mut().unwrap();
            if k == 1 {
                md.remove(n);
            } else {
                md.insert(n.into(), Value::Null);
            }
            let m = &mut want.metadata;
            match n {
                "tempogram_candidates" => m.tempogram_candidates = None,
                "tempogram_multi_res_triggered" => m.tempogram_multi_res_triggered = None,
                "tempogram_multi_res_used" => m.tempogram_multi_res_used = None,
                "tempogram_percussive_triggered" => m.tempogram_percussive_triggered = None,
                _ => m.tempogram_percussive_used = None,
            }
        }
        if x.take(2) == 1 {
            doc["metadata"]["future_field"] = json!([1, 2]);
            doc["other"] = json!("x");
        }
        let r: AnalysisResult = serde_json::from_value(doc.clone()).map_err(|e| format!("rejected: {} {}", e, doc))?;
        if let Some(f) = differs(&r, &want) {
            return Err(format!("{} read wrongly from {}", f, doc));
        }
        Ok(Obs::new(H::new().s(&doc.to_string()).done(), true, 1))
    });
    // damaged documents are rejected rather than read as something else
    let req: Vec<(&str, &str)> = ["bpm", "bpm_confidence", "key", "key_confidence", "key_clarity", "beat_grid", "grid_stability", "metadata"].iter().map(|n| ("", *n)).chain(["downbeats", "beats", "bars"].iter().map(|n| ("beat_grid", *n))).chain(["duration_seconds", "sample_rate", "processing_time_ms", "algorithm_version", "onset_method_consensus", "methods_used", "flags", "confidence_warnings"].iter().map(|n| ("metadata", *n))).collect();
    let bad_keys = [json!("C"), json!({"Major": -1}), json!({"Major": "0"}), json!({"major": 0}), json!({"Minor": 4294967296u64}), json!({}), json!(null), json!({"Major": 1.5}), json!({"Major": 1, "Minor": 2})];
    let nb = req.len() + bad_keys.len();
    ctx.sweep("damaged", nb, |i| if i < req.len() { format!("{}.{} missing", req[i].0, req[i].1) } else { format!("key {}", bad_keys[i - req.len()]) }, |i| {
        let mut doc = model(&base());
        if i < req.len() {
            let o = if req[i].0.is_empty() { &mut doc } else { &mut doc[req[i].0] };
            o.as_object_mut().unwrap().remove(req[i].1);
        } else {
            doc["key"] = bad_keys[i - req.len()].clone();
        }
        let r: Result<AnalysisResult, _> = serde_json::from_value(doc.clone());
        ensure!(r.is_err(), "accepted {}", doc);
        Ok(Obs::new(i as u64, true, 1))
    });
    // real results
    let (kinds, rates, modes) = (ctx.pick(16, 16), [8000u32, 16000], 4usize);
    ctx.sweep("analyses", kinds * 2 * modes, |i| format!("signal {} at {} Hz, config {}", i % kinds, rates[i / kinds % 2], i / kinds / 2), |i| {
        let sr = rates[i / kinds % 2];
        let x = sig(i % kinds, sr, sr as usize * 3);
        let mut c = small();
        match i / kinds / 2 {
            0 => {}
            1 => c.emit_tempogram_candidates = true,
            2 => {
                c.enable_tempogram_multi_resolution = true;
                c.emit_tempogram_candidates = true;
            }
            _ => c.force_legacy_bpm = true,
        }
        match analyze_audio(&x, sr, c) {
            Ok(r) => {
                let a = trip(&r)?;
                let _ = a;
                let f = compute_confidence(&r);
                conf_trip(&f)?;
                let back: AnalysisResult = serde_json::from_str(&serde_json::to_string(&r).unwrap()).unwrap();
                let g = compute_confidence(&back);
                ensure!(bits(&[f.bpm_confidence, f.key_confidence, f.grid_stability, f.overall_confidence]) == bits(&[g.bpm_confidence, g.key_confidence, g.grid_stability, g.overall_confidence]), "confidence of the restored result differs");
                Ok(Obs::new(H::new().f(r.bpm).f(r.key_confidence).u(r.beat_grid.beats.len() as u64).done(), true, 4))
            }
            Err(_) => Ok(Obs::new(0, false, 1)),
        }
    });
}
