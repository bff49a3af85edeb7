//! P01: analysis is a pure function of its arguments, over histories, schedules, processes and hash seeds.
//!
//! The deciding runs happen in child processes of this binary (`mc --p01 ...`) so that every history and
//! every schedule starts from a process in which the library has never run.
use crate::chroma::lcg;
use crate::core::*;
use crate::ensure;
use crate::pipe::*;
use crate::stages;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;
use stratum_dsp::analysis::result::*;
use stratum_dsp::{analyze_audio, compute_confidence, AnalysisConfig};

// ------------------------------------------------------------------ operations
pub fn digest(r: &Result<AnalysisResult, stratum_dsp::AnalysisError>) -> u64 {
    match r {
        Err(e) => H::new().s(&format!("{:?}", e)).done(),
        Ok(r) => {
            let m = &r.metadata;
            let mut h = H::new().f(r.bpm).f(r.bpm_confidence).s(&format!("{:?}", r.key)).f(r.key_confidence).f(r.key_clarity).f(r.grid_stability);
            h = h.fs(&r.beat_grid.beats).fs(&r.beat_grid.downbeats).fs(&r.beat_grid.bars);
            h = h.f(m.duration_seconds).u(m.sample_rate as u64).s(&m.algorithm_version).f(m.onset_method_consensus);
            h = h.s(&format!("{:?}{:?}{:?}", m.methods_used, m.flags, m.confidence_warnings));
            h = h.s(&format!("{:?}{:?}{:?}{:?}", m.tempogram_multi_res_triggered, m.tempogram_multi_res_used, m.tempogram_percussive_triggered, m.tempogram_percussive_used));
            if let Some(c) = &m.tempogram_candidates {
                for k in c {
                    h = h.f(k.bpm).f(k.score).f(k.fft_norm).f(k.autocorr_norm).u(k.selected as u64);
                }
            }
            let c = compute_confidence(r);
            h.f(c.overall_confidence).f(c.bpm_confidence).f(c.key_confidence).done()
        }
    }
}

fn base_cfg() -> AnalysisConfig {
    AnalysisConfig { emit_tempogram_candidates: true, key_stft_frame_size: 512, ..small() }
}
const N: usize = 6400;

fn n_dev() -> usize {
    sane_fields().iter().map(|f| f.n).sum()
}
/// operations other than single option deviations
const EXTRA: usize = 16 + 5 + 4 + 6 + 14;
/// first of the stage operations
fn first_stage() -> usize {
    n_dev() + EXTRA
}
pub fn n_ops() -> usize {
    first_stage() + stages::NAMES.len() * stages::VARIANTS
}
/// run without scheduling points (building inputs, digesting answers)
fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = BUSY.with(|b| b.replace(true));
    let r = f();
    BUSY.with(|b| b.set(was));
    r
}

/// run operation i; the digest covers every bit of the answer (the measured time apart)
pub fn op(i: usize) -> (String, u64) {
    let nd = n_dev();
    if i < nd {
        let mut k = i;
        for f in sane_fields() {
            if k < f.n {
                let mut c = base_cfg();
                enable_for(&mut c, f.name);
                let t = (f.set)(&mut c, k);
                // alternate the track so that neighbouring operations also differ in content
                let x = sig(0, 8000, N);
                return (format!("analyse with {}", t), digest(&analyze_audio(&x, 8000, c)));
            }
            k -= f.n;
        }
        unreachable!()
    }
    let mut k = i - nd;
    let run = |t: String, x: Vec<f32>, sr: u32, c: AnalysisConfig| {
        let before = H::new().fs(&x).done();
        let d = digest(&analyze_audio(&x, sr, c));
        let after = H::new().fs(&x).done();
        (t, if before == after { d } else { H(d).u(0xbad).done() })
    };
    if k < 16 {
        return run(format!("analyse {}", SIGS[k]), sig(k, 8000, N), 8000, base_cfg());
    }
    k -= 16;
    if k < 5 {
        let sr = [4000, 11025, 16000, 44100, 7999][k];
        return run(format!("analyse at {} Hz", sr), sig(0, 8000, N), sr, base_cfg());
    }
    k -= 5;
    if k < 4 {
        let n = [N - 1, N + 1, N + 64, N / 2][k];
        return run(format!("analyse {} samples", n), sig(0, 8000, n), 8000, base_cfg());
    }
    k -= 4;
    if k < 6 {
        let mut x = sig(0, 8000, N);
        let t = ["half the level", "inverted", "reversed", "one sample changed", "second half changed", "first half changed"][k];
        match k {
            0 => x.iter_mut().for_each(|v| *v *= 0.5),
            1 => x.iter_mut().for_each(|v| *v = -*v),
            2 => x.reverse(),
            3 => x[N / 2] = -x[N / 2] + 0.2,
            4 => (N / 2..N).for_each(|j| x[j] = 0.4 * lcg(3, j)),
            _ => (0..N / 2).for_each(|j| x[j] = 0.4 * lcg(4, j)),
        }
        return run(format!("analyse {}", t), x, 8000, base_cfg());
    }
    k -= 6;
    if k < 14 {
        return stage(k);
    }
    k -= 14;
    let (st, v) = (k / stages::VARIANTS, k % stages::VARIANTS);
    let job = quiet(|| stages::prepare(st, v));
    let out = job();
    quiet(|| (format!("{} {}", stages::NAMES[st], v), H::new().s(&format!("{:?}", out)).done()))
}

/// single stages called directly
fn stage(k: usize) -> (String, u64) {
    use stratum_dsp::features::beat_tracking::generate_beat_grid;
    use stratum_dsp::features::chroma::extractor::*;
    use stratum_dsp::features::key::detector::detect_key_median;
    use stratum_dsp::features::key::*;
    use stratum_dsp::features::onset::consensus::*;
    use stratum_dsp::features::period::*;
    use stratum_dsp::preprocessing::normalization::*;
    use stratum_dsp::preprocessing::silence::*;
    let x = sig(0, 8000, 6000);
    let beats = |b: f32, n: usize| -> Vec<f32> { (0..n).map(|i| i as f32 * 60.0 / b + if i % 3 == 0 { 0.01 } else { 0.0 }).collect() };
    let chroma = |s: u64, n: usize| -> Vec<Vec<f32>> { (0..n).map(|t| (0..12).map(|p| lcg(s, t * 12 + p).abs()).collect()).collect() };
    let keyd = |r: &KeyDetectionResult| {
        let mut h = H::new().s(&format!("{:?}", r.key)).f(r.confidence);
        for (k, v) in &r.all_scores {
            h = h.s(&k.name()).f(*v);
        }
        h.done()
    };
    let t = KeyTemplates::new();
    match k {
        0 | 1 => {
            let s = compute_stft(&x, [256, 512][k], [64, 100][k]).unwrap();
            (format!("stft {}", k), s.iter().fold(H::new(), |h, f| h.fs(f)).done())
        }
        2 | 3 => {
            let r = generate_beat_grid([120.0, 95.0][k - 2], 0.8, &beats([120.0, 97.0][k - 2], 24), 8000);
            (format!("beat grid {}", k - 2), r.map(|(g, s)| H::new().fs(&g.beats).fs(&g.downbeats).f(s).done()).unwrap_or(1))
        }
        4 => ("flat chroma, multi-scale key".into(), keyd(&detect_key_multi_scale(&vec![vec![1.0; 12]; 60], &t, None, &[20, 30], 5, 0.0, None, false, 0.0, 0.0, false, 0.0).unwrap())),
        5 => ("tied chroma, median key".into(), {
            let mut c = chroma(3, 1);
            c = (0..260).map(|i| { let mut v = c[0].clone(); v.rotate_right((i / 65) * 3); v }).collect();
            keyd(&detect_key_median(&c, &t, None, 120, 20, 1).unwrap())
        }),
        6 => ("ensemble key".into(), keyd(&detect_key_ensemble(&chroma(5, 30), None, 0.5, 0.5).unwrap())),
        7 => ("key changes".into(), {
            let r = detect_key_changes(&chroma(6, 400), 8000, 512, &t, 4.0, 2.0);
            match r {
                Ok(r) => H::new().s(&format!("{:?}", r)).done(),
                Err(e) => H::new().s(&format!("{:?}", e)).done(),
            }
        }),
        8 => ("onset vote".into(), {
            let c = OnsetConsensus { energy_flux: vec![100, 900, 4000], spectral_flux: vec![120, 950, 3000], hfc: vec![100, 2000], hpss: vec![4010] };
            H::new().s(&format!("{:?}", vote_onsets(c, [0.25; 4], 50, 8000).unwrap())).done()
        }),
        9 | 10 => (format!("legacy tempo {}", k), {
            let on: Vec<usize> = beats([128.0, 88.0][k - 9], 20).iter().map(|t| (t * 8000.0) as usize).collect();
            H::new().s(&format!("{:?}", estimate_bpm(&on, 8000, 64, 40.0, 240.0, 1.0))).done()
        }),
        11 => ("normalise".into(), {
            let mut y = x.clone();
            let m = normalize(&mut y, NormalizationConfig { method: NormalizationMethod::Loudness, target_loudness_lufs: -14.0, max_headroom_db: 1.0 }, 8000.0);
            H::new().fs(&y).s(&format!("{:?}", m)).done()
        }),
        12 => ("trim".into(), {
            let r = detect_and_trim(&sig(7, 8000, 9000), 8000, SilenceDetector { threshold_db: -40.0, min_duration_ms: 100, frame_size: 128 }).unwrap();
            H::new().fs(&r.0).s(&format!("{:?}", r.1)).done()
        }),
        _ => ("multi-resolution tempo".into(), {
            let s = compute_stft(&sig(14, 8000, 20000), 256, 64).unwrap();
            H::new().s(&format!("{:?}", multi_resolution_analysis(&s, 8000, 64, 40.0, 240.0, 1.0))).done()
        }),
    }
}

// ------------------------------------------------------------------ controlled scheduler
// Scheduling points: every allocation/deallocation and every log record of a controlled thread.
thread_local! {
    static SLOT: Cell<u32> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
static TURN: AtomicU32 = AtomicU32::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static ALLOC_POINTS: AtomicBool = AtomicBool::new(false);
static LOG_POINTS: AtomicBool = AtomicBool::new(true);
static DONE: [AtomicBool; 4] = [const { AtomicBool::new(false) }; 4];
static NTHREADS: AtomicU32 = AtomicU32::new(0);
/// global step numbers at which the running thread is preempted, ascending; u64::MAX = none
static PRE: [AtomicU64; 4] = [const { AtomicU64::new(u64::MAX) }; 4];
static NEXT_PRE: AtomicU32 = AtomicU32::new(0);
static STALLS: AtomicU64 = AtomicU64::new(0);
static M: Mutex<()> = Mutex::new(());
static CV: Condvar = Condvar::new();

fn other(me: u32) -> u32 {
    // next unfinished thread after me, else me
    let n = NTHREADS.load(SeqCst);
    for d in 1..n {
        let t = (me - 1 + d) % n + 1;
        if !DONE[t as usize - 1].load(SeqCst) {
            return t;
        }
    }
    me
}
fn wait_turn(me: u32) {
    let mut g = M.lock().unwrap();
    let mut seen = STEP.load(SeqCst);
    while TURN.load(SeqCst) != me {
        let (g2, to) = CV.wait_timeout(g, Duration::from_millis(400)).unwrap();
        g = g2;
        if to.timed_out() && TURN.load(SeqCst) != me {
            let s = STEP.load(SeqCst);
            if s == seen {
                // the running thread is blocked on something we hold: take over
                STALLS.fetch_add(1, SeqCst);
                TURN.store(me, SeqCst);
                CV.notify_all();
            }
            seen = s;
        }
    }
}
fn hand_over(to: u32) {
    let _g = M.lock().unwrap();
    TURN.store(to, SeqCst);
    CV.notify_all();
}
fn point() {
    let me = SLOT.with(|s| s.get());
    if me == 0 || BUSY.with(|b| b.replace(true)) {
        return;
    }
    if TURN.load(SeqCst) != me {
        wait_turn(me);
    }
    let s = STEP.fetch_add(1, SeqCst);
    let k = NEXT_PRE.load(SeqCst) as usize;
    if k < PRE.len() && PRE[k].load(SeqCst) == s {
        NEXT_PRE.store(k as u32 + 1, SeqCst);
        let o = other(me);
        if o != me {
            hand_over(o);
            wait_turn(me);
        }
    }
    BUSY.with(|b| b.set(false));
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ALLOC_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
            point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ALLOC_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
            point();
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ALLOC_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
            point();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ALLOC_POINTS.load(std::sync::atomic::Ordering::Relaxed) {
            point();
        }
        System.realloc(p, l, n)
    }
}
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, _: &log::Record) {
        if LOG_POINTS.load(SeqCst) {
            point();
        }
    }
    fn flush(&self) {}
}

// ------------------------------------------------------------------ accesses to static memory
// In the instrumented build (`--features sc`, library compiled with load/store callbacks) every access
// of the library to writable static memory is a scheduling point. Memory reachable by two analyses that
// share no argument starts at a static, so these are the only places where their order can matter.
static SH_LO: AtomicU64 = AtomicU64::new(u64::MAX);
static SH_HI: AtomicU64 = AtomicU64::new(0);
/// address ranges that are not the library's own state: the log level and logger of the host program,
/// the processor feature cache of the standard library
static SH_SKIP: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static SH_NSKIP: AtomicU32 = AtomicU32::new(0);
static SH_N: AtomicU64 = AtomicU64::new(0);
static SH_ON: AtomicBool = AtomicBool::new(false);
#[cfg(feature = "sc")]
mod callbacks {
    use super::*;
    #[inline(always)]
    fn acc(p: usize) {
        use std::sync::atomic::Ordering::Relaxed;
        let p = p as u64;
        if p >= SH_LO.load(Relaxed) && p < SH_HI.load(Relaxed) && SH_ON.load(Relaxed) && !skipped(p) {
            SH_N.fetch_add(1, SeqCst);
            point();
        }
    }
    macro_rules! cb { ($($f:ident),*) => { $(#[no_mangle] pub extern "C" fn $f(p: usize) { acc(p) })* } }
    cb!(__sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16);
    cb!(__sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);
}
#[cfg_attr(not(feature = "sc"), allow(dead_code))]
fn skipped(p: u64) -> bool {
    use std::sync::atomic::Ordering::Relaxed;
    (0..SH_NSKIP.load(Relaxed) as usize).any(|k| p >= SH_SKIP[2 * k].load(Relaxed) && p < SH_SKIP[2 * k + 1].load(Relaxed))
}
/// addresses (relative to the executable) of statics that belong to `log` and `std_detect`, from its symbol table
fn foreign_statics(exe: &std::path::Path) -> String {
    let o = std::process::Command::new("nm").args(["-C", "-S", "--defined-only"]).arg(exe).output();
    let Ok(o) = o else { return String::new() };
    let mut r = Vec::new();
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let f: Vec<&str> = l.splitn(4, ' ').collect();
        if f.len() == 4 && "bBdD".contains(f[2]) && (f[3].starts_with("log::") || f[3].starts_with("std_detect::")) {
            if let (Ok(a), Ok(n)) = (u64::from_str_radix(f[0], 16), u64::from_str_radix(f[1], 16)) {
                r.push(format!("{:x}-{:x}", a, a + n));
            }
        }
    }
    r.join(",")
}
/// the writable static memory of this executable; the log level (which the host program sets) is left out
fn static_range() -> bool {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let exe = std::env::current_exe().unwrap_or_default().to_string_lossy().into_owned();
    let (mut lo, mut hi) = (u64::MAX, 0u64);
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let Some((a, b)) = f[0].split_once('-') else { continue };
        let (a, b) = (u64::from_str_radix(a, 16).unwrap_or(0), u64::from_str_radix(b, 16).unwrap_or(0));
        let own = f.last() == Some(&exe.as_str());
        if f[1].starts_with("rw") && (own || (f.len() == 5 && a == hi)) {
            lo = lo.min(a);
            hi = b;
        }
    }
    if lo >= hi {
        return false;
    }
    let load = maps.lines().find(|l| l.ends_with(&exe)).and_then(|l| l.split('-').next()).and_then(|a| u64::from_str_radix(a, 16).ok()).unwrap_or(0);
    let mut k = 0;
    for w in std::env::var("MC_SKIP").unwrap_or_default().split(',').filter_map(|w| w.split_once('-')) {
        if let (Ok(a), Ok(b)) = (u64::from_str_radix(w.0, 16), u64::from_str_radix(w.1, 16)) {
            if 2 * k + 1 < SH_SKIP.len() {
                SH_SKIP[2 * k].store(load + a, SeqCst);
                SH_SKIP[2 * k + 1].store(load + b, SeqCst);
                k += 1;
            }
        }
    }
    SH_NSKIP.store(k as u32, SeqCst);
    log::set_max_level(log::LevelFilter::Trace);
    SH_LO.store(lo, SeqCst);
    SH_HI.store(hi, SeqCst);
    true
}

/// run the operations concurrently under one schedule; digests in order, and the number of steps
fn schedule(ops: &[usize], first: u32, pre: &[u64], alloc: bool) -> (Vec<u64>, u64) {
    schedule_of(ops, first, pre, alloc, tiny_op)
}
fn schedule_of(ops: &[usize], first: u32, pre: &[u64], alloc: bool, f: fn(usize) -> u64) -> (Vec<u64>, u64) {
    let n = ops.len() as u32;
    NTHREADS.store(n, SeqCst);
    STEP.store(0, SeqCst);
    NEXT_PRE.store(0, SeqCst);
    for k in 0..4 {
        PRE[k].store(pre.get(k).copied().unwrap_or(u64::MAX), SeqCst);
        DONE[k].store(false, SeqCst);
    }
    TURN.store(first, SeqCst);
    ALLOC_POINTS.store(alloc, SeqCst);
    let out: Vec<u64> = std::thread::scope(|sc| {
        let hs: Vec<_> = ops
            .iter()
            .enumerate()
            .map(|(k, o)| {
                let (me, o) = (k as u32 + 1, *o);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        BUSY.with(|b| b.set(true));
                        SLOT.with(|s| s.set(me));
                        wait_turn(me);
                        BUSY.with(|b| b.set(false));
                        let r = guarded(|| f(o));
                        BUSY.with(|b| b.set(true));
                        SLOT.with(|s| s.set(0));
                        DONE[me as usize - 1].store(true, SeqCst);
                        hand_over(other(me));
                        r.unwrap_or(0xdead)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0xdeadbeef)).collect()
    });
    ALLOC_POINTS.store(false, SeqCst);
    (out, STEP.load(SeqCst))
}

/// small analyses for the schedule exploration: they differ in sizes, rate, content and options
pub const TINY: usize = 8;
pub fn tiny_op(k: usize) -> u64 {
    if k >= TINY {
        return op(k - TINY).1;
    }
    let mut c = AnalysisConfig {
        frame_size: 64,
        hop_size: 32,
        enable_key_stft_override: false,
        enable_tempogram_multi_resolution: false,
        tempogram_mel_n_mels: 6,
        emit_tempogram_candidates: true,
        min_bpm: 100.0,
        max_bpm: 130.0,
        bpm_resolution: 5.0,
        ..small()
    };
    let (mut kind, mut sr, mut n) = (0, 1000, 1400);
    match k {
        0 => {}
        1 => {
            c.frame_size = 128;
            c.enable_key_hpcp = false;
        }
        2 => {
            kind = 14;
            sr = 1100;
        }
        3 => {
            n = 1100;
            c.tempogram_mel_n_mels = 9;
            c.enable_key_tuning_compensation = true;
        }
        4 => {
            kind = 2;
            c.enable_key_ensemble = true;
            c.force_legacy_bpm = true;
        }
        5 => {
            kind = 6;
            c.enable_hpss_onsets = true;
            c.hpss_margin = 2;
            n = 900;
        }
        6 => {
            kind = 8;
            c.enable_key_beat_synchronous = true;
            c.enable_bpm_fusion = true;
            c.key_template_set = stratum_dsp::features::key::templates::TemplateSet::Temperley;
        }
        _ => {
            kind = 3;
            c.enable_tempogram_multi_resolution = true;
            c.min_bpm = 60.0;
            c.bpm_resolution = 10.0;
            n = 3000;
        }
    }
    digest(&analyze_audio(&sig(kind, sr, n), sr, c))
}

// ------------------------------------------------------------------ child process
/// `mc --p01 <what> ...`
pub fn child(a: &[String]) -> i32 {
    let num = |k: usize| a.get(k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    mute_stderr();
    // end with the parent
    let parent = std::os::unix::process::parent_id();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if std::os::unix::process::parent_id() != parent {
            std::process::exit(4);
        }
    });
    match a[0].as_str() {
        // first call of a fresh process
        "base" => println!("{:016x}", op(num(1)).1),
        // the same with a logger installed at the given level
        "logged" => {
            let _ = log::set_logger(&Log);
            LOG_POINTS.store(false, SeqCst);
            log::set_max_level([log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace][num(2) % 6]);
            println!("{:016x}", op(num(1)).1);
        }
        // the clock as the library sees it: does time pass between two readings?
        "clockprobe" => {
            let t = std::time::Instant::now();
            std::thread::sleep(Duration::from_millis(2));
            println!("{:016x}", t.elapsed().as_secs() * 2 + (t.elapsed().as_nanos() > 0) as u64);
        }
        "tiny" => println!("{:016x}", tiny_op(num(1))),
        // history: <first op> <file with all fresh digests>: a b0 a b1 a b2 ...
        "hist" => {
            let want: Vec<u64> = std::fs::read_to_string(&a[2]).unwrap().lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect();
            let first = num(1);
            let step = num(3).max(1);
            let mut calls = 0u64;
            let mut prev = String::from("nothing");
            let mut go = |i: usize| -> bool {
                let (t, d) = op(i);
                calls += 1;
                if d != want[i] {
                    println!("BAD call {}: '{}' after '{}' differs from the same call in a fresh process", calls, t, prev);
                    return false;
                }
                prev = t;
                true
            };
            // neighbours (other values of the same option), the plain analyses, and every step-th operation
            let n = want.len();
            let (part, parts) = (num(4), num(5).max(1));
            let others = (0..n).filter(|b| b.abs_diff(first) <= 4 || *b == n_dev() || b % step == first % step && b / step % parts == part);
            for b in others {
                if !go(first) || !go(b) {
                    break;
                }
            }
            go(first);
            println!("CALLS {}", calls);
        }
        // schedules of a pair: <a> <b> <alloc 0/1> <bound> <chunk> <chunks> <want a> <want b> [cap on preemption points]
        "sched" => {
            let _ = log::set_logger(&Log);
            log::set_max_level(log::LevelFilter::Trace);
            let ops = [num(1), num(2)];
            let alloc = num(3) == 1;
            let (bound, chunk, chunks) = (num(4), num(5), num(6));
            let cap = if a.len() > 9 { num(9).max(1) } else { usize::MAX };
            let want: Vec<u64> = (7..9).map(|k| u64::from_str_radix(&a[k], 16).unwrap()).collect();
            let mut runs = 0u64;
            let mut steps = 0u64;
            let mut bad = false;
            let mut go = |first: u32, pre: &[u64]| -> u64 {
                let (d, s) = schedule(&ops, first, pre, alloc);
                runs += 1;
                steps += s;
                if d != want && !bad {
                    bad = true;
                    println!("BAD schedule: thread {} starts, preempted at steps {:?}: results {:x?} instead of {:x?}", first, pre, d, want);
                }
                s
            };
            let (s1, s2) = (go(1, &[]), go(2, &[]));
            for (first, s) in [(1u32, s1), (2, s2)] {
                for p in 0..s {
                    if bound == 1 {
                        let k = (s as usize / cap).max(1);
                        if p as usize % k == 0 && p as usize / k % chunks == chunk {
                            go(first, &[p]);
                        }
                    } else {
                        for q in p + 1..s {
                            if ((p * 31 + q) as usize) % chunks == chunk {
                                go(first, &[p, q]);
                            }
                        }
                    }
                }
            }
            println!("CALLS {} STEPS {} STALLS {}", runs, steps, STALLS.load(SeqCst));
        }
        // accesses of one operation to static memory
        "shared" => {
            let _ = log::set_logger(&Log);
            LOG_POINTS.store(false, SeqCst);
            let ok = static_range();
            SH_ON.store(true, SeqCst);
            let d = op(num(1)).1;
            SH_ON.store(false, SeqCst);
            println!("DIGEST {:016x} RANGE {} SKIP {} ACCESSES {}", d, ok as u8, (SH_NSKIP.load(SeqCst) > 0) as u8, SH_N.load(SeqCst));
        }
        // <a> <b> <want a> <want b> <part> <parts>: preempt at every access to static memory
        "schedsh" => {
            let _ = log::set_logger(&Log);
            LOG_POINTS.store(false, SeqCst);
            static_range();
            SH_ON.store(true, SeqCst);
            let ops = [num(1), num(2)];
            let want: Vec<u64> = (3..5).map(|k| u64::from_str_radix(&a[k], 16).unwrap()).collect();
            let (part, parts) = (num(5), num(6).max(1));
            let (mut runs, mut steps, mut bad) = (0u64, 0u64, false);
            let mut go = |first: u32, pre: &[u64]| -> u64 {
                let (d, s) = schedule_of(&ops, first, pre, false, |o| op(o).1);
                runs += 1;
                steps += s;
                if d != want && !bad {
                    bad = true;
                    println!("BAD schedule: thread {} starts, preempted at accesses {:?} to static memory: results {:x?} instead of {:x?}", first, pre, d, want);
                }
                s
            };
            let (s1, s2) = (go(1, &[]), go(2, &[]));
            let mut capped = 0;
            for (first, s) in [(1u32, s1), (2, s2)] {
                // a program that touches statics more often than this is explored at every k-th access only
                let k = (s / SH_CAP).max(1);
                capped += (k > 1) as u64;
                for p in (0..s).step_by(k as usize).filter(|p| (p / k) as usize % parts == part) {
                    go(first, &[p]);
                }
                if s <= 40 {
                    for p in 0..s {
                        for q in (p + 1..s).filter(|q| (p + q) as usize % parts == part) {
                            go(first, &[p, q]);
                        }
                    }
                }
            }
            println!("CALLS {} STEPS {} CAPPED {}", runs, steps, capped);
        }
        "seedprobe" => {
            use std::hash::{BuildHasher, Hasher};
            println!("{:016x}", std::collections::hash_map::RandomState::new().build_hasher().finish());
        }
        _ => return 2,
    }
    0
}

const SH_CAP: u64 = 600;

struct Child {
    out: String,
}
fn spawn(ctx_root: &str, args: &[String], seed: Option<u64>) -> Result<Child, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    spawn_exe(exe, ctx_root, args, seed)
}
fn spawn_exe(exe: std::path::PathBuf, ctx_root: &str, args: &[String], seed: Option<u64>) -> Result<Child, String> {
    let mut c = std::process::Command::new(exe);
    c.arg("--p01").args(args);
    if let Some(s) = seed {
        c.env("LD_PRELOAD", format!("{}/target/seed.so", ctx_root)).env("MC_HASH_SEED", s.to_string());
    }
    let o = c.output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        return Err(format!("child {:?} ended with {:?}", args, o.status));
    }
    Ok(Child { out })
}
impl Child {
    fn word(&self) -> Result<u64, String> {
        u64::from_str_radix(self.out.trim(), 16).map_err(|_| format!("child said {:?}", self.out))
    }
    fn num(&self, tag: &str) -> u64 {
        let mut it = self.out.split_whitespace();
        while let Some(w) = it.next() {
            if w == tag {
                return it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            }
        }
        0
    }
    fn bad(&self) -> Option<&str> {
        self.out.lines().find(|l| l.starts_with("BAD"))
    }
}

pub fn p01(ctx: &Ctx) {
    ctx.rule("every call gives bit for bit the answer it gives as the first call of a fresh process: for all ordered pairs of operations (each history in its own process), all two-thread schedules with one preemption at any allocation, log record or access of the library to writable static memory (two at log records), and all enumerated hash seeds, clocks (racing, standing still, another century) and log levels; nontrivial = histories or schedules with at least two different operations");
    ctx.assume("scheduling points are the allocations, deallocations and log records of the library and, in a second build with load/store callbacks, its accesses to writable static memory (read-modify-write instructions are seen only through the plain accesses next to them); preemption bound 1 (allocations, static accesses) and 2 (log records)");
    let th = ctx.thorough();
    let root = ctx.root().to_string();
    let n = n_ops();
    let s = |x: &str| x.to_string();
    // baselines, one fresh process each
    let base: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let only = std::env::var("MC_CASE").is_ok();
    let fill = |i: usize| -> Result<u64, String> {
        let d = spawn(&root, &[s("base"), i.to_string()], None)?.word()?;
        base[i].store(d, SeqCst);
        Ok(d)
    };
    if only {
        for i in 0..n {
            let _ = fill(i);
        }
    }
    ctx.sweep("fresh_process", n, |i| format!("operation {} twice in fresh processes", i), |i| {
        let a = fill(i)?;
        let b = spawn(&root, &[s("base"), i.to_string()], None)?.word()?;
        ensure!(a == b, "two fresh processes disagree on operation {}", i);
        Ok(Obs::new(a, false, 2))
    });
    let dir = std::env::temp_dir().join(format!("mc_p01_{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join("base.txt");
    let _ = std::fs::write(&file, base.iter().map(|b| format!("{:016x}\n", b.load(SeqCst))).collect::<String>());
    let stride = if th { 1 } else { 12 };
    let parts = if th { 8 } else { 1 };
    ctx.sweep("histories", n * parts, |i| format!("operation {} then the others, alternating, in one process (part {})", i / parts, i % parts), |i| {
        let c = spawn(&root, &[s("hist"), (i / parts).to_string(), file.to_string_lossy().into_owned(), stride.to_string(), (i % parts).to_string(), parts.to_string()], None)?;
        if let Some(b) = c.bad() {
            return Err(b.to_string());
        }
        ensure!(c.num("CALLS") > 2, "history did not run: {}", c.out);
        Ok(Obs::new(i as u64, true, c.num("CALLS")))
    });
    let _ = std::fs::remove_dir_all(&dir);
    // hash seeds
    let seeds = if th { 64 } else { 12 };
    let p = |sd: u64| spawn(&root, &[s("seedprobe")], Some(sd)).and_then(|c| c.word()).ok();
    let live = p(1).is_some() && p(1) == p(1) && p(1) != p(2);
    ctx.note("hash_seed_control", live);
    let picks: Vec<usize> = (0..n).filter(|i| *i >= n_dev() || th && i % 3 == 0).collect();
    ctx.sweep("hash_seeds", seeds * picks.len(), |i| format!("operation {} with hash seed {}", picks[i / seeds], i % seeds), |i| {
        let (o, sd) = (picks[i / seeds], (i % seeds) as u64);
        let d = spawn(&root, &[s("base"), o.to_string()], if live { Some(sd) } else { None })?.word()?;
        ensure!(d == base[o].load(SeqCst), "the answer depends on the hash seed");
        Ok(Obs::new(H::new().u(d).u(sd).done(), true, 1))
    });
    // the course of time and the log level
    let clocked = |args: &[String], k: u64| -> Result<u64, String> {
        std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
            .arg("--p01")
            .args(args)
            .env("LD_PRELOAD", format!("{}/target/seed.so", root))
            .env("MC_CLOCK", k.to_string())
            .output()
            .map_err(|e| e.to_string())
            .and_then(|o| u64::from_str_radix(String::from_utf8_lossy(&o.stdout).trim(), 16).map_err(|_| format!("child {:?} ended with {:?}", args, o.status)))
    };
    let probe = |k: u64| clocked(&[s("clockprobe")], k).unwrap_or(0);
    ctx.note("clock_control", probe(1) >= 2000 && probe(2) == 0 && probe(0) == 1);
    ctx.sweep("clocks", 3 * n, |i| format!("operation {} while {}", i / 3, ["an age passes between any two readings of the clock", "time stands still", "the clock shows another century"][i % 3]), |i| {
        let d = clocked(&[s("base"), (i / 3).to_string()], i as u64 % 3 + 1)?;
        ensure!(d == base[i / 3].load(SeqCst), "the answer depends on the clock");
        Ok(Obs::new(H::new().u(d).u(i as u64 % 3).done(), true, 1))
    });
    let levels = if th { vec![0usize, 1, 2, 3, 4, 5] } else { vec![0, 3, 5] };
    let nl = levels.len();
    ctx.sweep("log_levels", nl * n, |i| format!("operation {} at log level {}", i / nl, levels[i % nl]), |i| {
        let d = spawn(&root, &[s("logged"), (i / nl).to_string(), levels[i % nl].to_string()], None)?.word()?;
        ensure!(d == base[i / nl].load(SeqCst), "the answer depends on the log level");
        Ok(Obs::new(H::new().u(d).u(levels[i % nl] as u64).done(), true, 1))
    });
    // schedules
    let tb: Vec<Result<u64, String>> = (0..TINY).map(|k| spawn(&root, &[s("tiny"), k.to_string()], None).and_then(|c| c.word())).collect();
    // thorough: a covering set of pairs in which every operation meets four others
    let pairs: Vec<(usize, usize)> = vec![(0, 1), (0, 2), (3, 6), (1, 4), (0, 0), (6, 7), (3, 1), (2, 3), (4, 6), (0, 4), (1, 7), (2, 5)];
    let sched = |a: usize, b: usize, alloc: bool, bound: usize, chunk: usize, chunks: usize| -> CaseResult {
        let (wa, wb) = (tb[a].clone()?, tb[b].clone()?);
        let args: Vec<String> = vec![s("sched"), a.to_string(), b.to_string(), (alloc as usize).to_string(), bound.to_string(), chunk.to_string(), chunks.to_string(), format!("{:x}", wa), format!("{:x}", wb)];
        let c = spawn(&root, &args, None)?;
        if let Some(m) = c.bad() {
            return Err(m.to_string());
        }
        ensure!(c.num("CALLS") >= 2, "schedules did not run: {}", c.out);
        Ok(Obs::new(H::new().u(c.num("CALLS")).u(c.num("STEPS")).done(), true, c.num("STEPS")))
    };
    let few: Vec<(usize, usize)> = if th { pairs.clone() } else { vec![(0, 1), (3, 6), (1, 4), (0, 2)] };
    let ch = 8;
    ctx.sweep("schedules_alloc", few.len() * ch, |i| format!("operations {:?}, one preemption at any allocation (part {})", few[i / ch], i % ch), |i| {
        let (a, b) = few[i / ch];
        sched(a, b, true, 1, i % ch, ch)
    });
    // every two inputs of every stage, one preemption at any allocation or log record
    let (fs0, nv0) = (first_stage(), stages::VARIANTS);
    let parts = if th { 8 } else { 1 };
    let sp: Vec<(usize, usize)> = (0..stages::NAMES.len()).flat_map(|st| (0..nv0).flat_map(move |a| (a + 1..nv0).map(move |b| (fs0 + st * nv0 + a, fs0 + st * nv0 + b)))).collect();
    ctx.sweep("schedules_stage", sp.len() * parts, |i| format!("operations {:?} ({}), one preemption at any allocation or log record (part {})", sp[i / parts], stages::NAMES[(sp[i / parts].0 - fs0) / nv0], i % parts), |i| {
        let (a, b) = sp[i / parts];
        let (wa, wb) = (base[a].load(SeqCst), base[b].load(SeqCst));
        let args: Vec<String> = vec![s("sched"), (a + TINY).to_string(), (b + TINY).to_string(), s("1"), s("1"), (i % parts).to_string(), parts.to_string(), format!("{:x}", wa), format!("{:x}", wb), if th { s("3000") } else { s("250") }];
        let c = spawn(&root, &args, None)?;
        if let Some(m) = c.bad() {
            return Err(m.to_string());
        }
        ensure!(c.num("CALLS") >= 2, "schedules did not run: {}", c.out);
        Ok(Obs::new(H::new().u(i as u64).u(c.num("CALLS")).u(c.num("STEPS")).done(), true, c.num("STEPS")))
    });
    let all: Vec<(usize, usize)> = (0..TINY).flat_map(|a| (a..TINY).map(move |b| (a, b))).collect();
    ctx.sweep("schedules_log", all.len(), |i| format!("operations {:?}, one preemption at any log record", all[i]), |i| sched(all[i].0, all[i].1, false, 1, 0, 1));
    let two: Vec<(usize, usize)> = if th { pairs.clone() } else { vec![(0, 1)] };
    let ch = 16;
    ctx.sweep("schedules_log2", two.len() * ch, |i| format!("operations {:?}, two preemptions at any log records (part {})", two[i / ch], i % ch), |i| {
        let (a, b) = two[i / ch];
        sched(a, b, false, 2, i % ch, ch)
    });
    // accesses to static memory, in the instrumented build
    let sc = std::path::PathBuf::from(format!("{}/target/sc/release/mc", root));
    if !sc.exists() {
        ctx.note("static_memory_exploration", "no instrumented build");
        return;
    }
    std::env::set_var("MC_SKIP", foreign_statics(&sc));
    let acc: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let sdig: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
    let (ranges, skips, same) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    ctx.sweep("static_memory", n, |i| format!("operation {}: accesses to writable static memory", i), |i| {
        let c = spawn_exe(sc.clone(), &root, &[s("shared"), i.to_string()], None)?;
        let d = c.out.split_whitespace().nth(1).and_then(|w| u64::from_str_radix(w, 16).ok()).ok_or("no digest")?;
        same.fetch_add((d == base[i].load(SeqCst)) as u64, SeqCst);
        sdig[i].store(d, SeqCst);
        ranges.fetch_add(c.num("RANGE"), SeqCst);
        skips.fetch_add(c.num("SKIP"), SeqCst);
        acc[i].store(c.num("ACCESSES"), SeqCst);
        Ok(Obs::new(H::new().u(i as u64).u(c.num("ACCESSES")).done(), true, 1))
    });
    let total: u64 = acc.iter().map(|a| a.load(SeqCst)).sum();
    ctx.note("static_memory_accesses", total);
    ctx.note("instrumented_answers_identical", same.load(SeqCst));
    ctx.note("static_memory_visible", ranges.load(SeqCst) == n as u64 && skips.load(SeqCst) == n as u64);
    // only operations that touch statics can interfere. Pairs: every two inputs of the same stage, each
    // analysis with its neighbour, itself and one from the other half of the list
    let touch: Vec<usize> = (0..n).filter(|i| acc[*i].load(SeqCst) > 0).collect();
    ctx.note("operations_touching_static_memory", touch.len());
    let (fs, nv) = (first_stage(), stages::VARIANTS);
    let mut prs: Vec<(usize, usize)> = Vec::new();
    for (x, a) in touch.iter().enumerate().filter(|t| *t.1 >= fs) {
        for b in touch[x + 1..].iter().filter(|b| (**b - fs) / nv == (*a - fs) / nv) {
            prs.push((*a, *b));
        }
    }
    let whole: Vec<usize> = touch.iter().copied().filter(|i| *i < fs).collect();
    let want = if th { whole.len() } else { whole.len().min(12) };
    for j in 0..want {
        let k = j * whole.len() / want;
        for d in [0, 1, whole.len() / 2 + 1] {
            prs.push((whole[k], whole[(k + d) % whole.len()]));
        }
    }
    let sp = 4;
    ctx.sweep("schedules_static", prs.len() * sp, |i| format!("operations {:?}, preempted at any access to static memory (part {})", prs[i / sp], i % sp), |i| {
        let (a, b) = prs[i / sp];
        let w = |o: usize| format!("{:x}", sdig[o].load(SeqCst));
        let c = spawn_exe(sc.clone(), &root, &[s("schedsh"), a.to_string(), b.to_string(), w(a), w(b), (i % sp).to_string(), sp.to_string()], None)?;
        if let Some(m) = c.bad() {
            return Err(m.to_string());
        }
        ensure!(c.num("CALLS") >= 2, "schedules did not run: {}", c.out);
        Ok(Obs::new(H::new().u(c.num("CALLS")).u(c.num("STEPS")).done(), true, c.num("STEPS")))
    });
}
