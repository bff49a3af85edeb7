"""P29: the validation workflow carries ground truth, options and scores through unchanged."""
import contextlib, csv, io, itertools, os, re, shutil, stat, subprocess, sys, tempfile
from pathlib import Path
from core import Bad, ensure
from keys import NAMES, name
from tags import tag, text_frame, txxx

STUB = """#!/bin/sh
printf '%s\\n' "$@" > "$1.args"
[ -f "$1.out" ] && cat "$1.out"
[ -f "$1.rc" ] && exit 3
[ -f "$1.kill" ] && kill -9 $$
exit 0
"""


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc_runs_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        yield Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def call(main, argv):
    """run a tool's main with arguments; (exit code, stdout)"""
    old = sys.argv
    sys.argv = ["tool"] + [str(a) for a in argv]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                rc = main()
            except SystemExit as e:
                rc = e.code
    finally:
        sys.argv = old
    return (rc or 0), out.getvalue()


@contextlib.contextmanager
def dir_order(names):
    """the directory lists its entries in the given order"""
    real, lst = os.scandir, os.listdir
    rank = {n: i for i, n in enumerate(names)}

    class It:
        def __init__(self, it):
            with it:
                self.e = iter(sorted(it, key=lambda x: rank.get(x.name if isinstance(x.name, str) else os.fsdecode(x.name), 999)))

        def __iter__(self):
            return self.e

        def __next__(self):
            return next(self.e)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            return False

        def close(self):
            pass

    os.scandir = lambda *a: It(real(*a))
    os.listdir = lambda *a: sorted(lst(*a), key=lambda x: rank.get(x if isinstance(x, str) else os.fsdecode(x), 999))
    try:
        yield
    finally:
        os.scandir, os.listdir = real, lst


def stub(d):
    p = d / "stub.sh"
    p.write_text(STUB)
    p.chmod(0o755)
    return p


@contextlib.contextmanager
def timeouts():
    """an analyser whose recording is marked runs into the time limit of the tool"""
    real, fired = subprocess.run, []

    def run(cmd, *a, **k):
        if isinstance(cmd, (list, tuple)) and any(str(x).endswith(".mp3") and os.path.exists(str(x) + ".timeout") for x in cmd) and k.get("timeout"):
            fired.append(cmd)
            raise subprocess.TimeoutExpired(cmd, k["timeout"])
        return real(cmd, *a, **k)

    subprocess.run = run
    try:
        yield fired
    finally:
        subprocess.run = real


def jout(bpm, key):
    import json
    return json.dumps({"bpm": bpm, "key": key, "bpm_confidence": 0.5, "key_confidence": 0.25, "key_clarity": 0.75, "grid_stability": 1.0})


def batch(d, rows):
    """rows: (id, file, bpm, key, genre) -> results dir with a test batch"""
    r = d / "results"
    r.mkdir(parents=True, exist_ok=True)
    with open(r / "test_batch_20200101_000000.csv", "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f)
        w.writerow(["track_id", "filename", "bpm_gt", "key_gt", "genre"])
        w.writerows(rows)
    return r


def results(r):
    fs = sorted(r.glob("validation_results_*.csv"))
    if not fs:
        return None
    with open(fs[-1], encoding="utf-8", newline="") as f:
        return list(csv.DictReader(f))


def expect(bpm_gt, key_gt, pred_bpm, pred_key, tag_bpm, tag_key):
    """reference scoring; keys are canonical names or ''"""
    if key_gt:
        ref, m = "GT", "YES" if pred_key == key_gt else "NO"
        tm = "YES" if tag_key == key_gt else "NO"
    elif tag_key:
        ref, m, tm = "TAG", "YES" if pred_key == tag_key else "NO", "N/A"
    else:
        ref, m, tm = "N/A", "N/A", "N/A"
    return dict(err=abs(pred_bpm - bpm_gt), terr=None if tag_bpm is None else abs(tag_bpm - bpm_gt), ref=ref, m=m, tm=tm)


def check_row(row, e, bpm_gt, pred_bpm, tag_bpm):
    ensure(abs(float(row["bpm_gt"]) - bpm_gt) < 1e-6 and abs(float(row["bpm_pred"]) - pred_bpm) < 1e-6, "tempi of the row: %r" % row)
    ensure(abs(float(row["bpm_error"]) - e["err"]) < 1e-6, "tempo error %s, expected %r" % (row["bpm_error"], e["err"]))
    if tag_bpm is None:
        ensure(row["bpm_tag"] == "" and row["bpm_tag_error"] == "", "tag tempo %r error %r without a tag" % (row["bpm_tag"], row["bpm_tag_error"]))
    else:
        ensure(abs(float(row["bpm_tag"]) - tag_bpm) < 1e-6 and abs(float(row["bpm_tag_error"]) - e["terr"]) < 1e-6, "tag tempo %r error %r" % (row["bpm_tag"], row["bpm_tag_error"]))
    got = (row["key_ref"], row["key_match"], row["key_tag_match"])
    ensure(got == (e["ref"], e["m"], e["tm"]), "key scoring %r, expected %r" % (got, (e["ref"], e["m"], e["tm"])))


def num(text, pat):
    m = re.search(pat, text)
    return None if not m else float(m.group(1))


def near(a, b, tol):
    return a is not None and b is not None and abs(a - b) <= tol


def p29(ctx):
    from validation.tools import build_hllmr_metadata as BM, prepare_test_batch as PB, run_validation as RV
    from validation.analysis import analyze_results as AR, analyze_ratio_buckets as RB, analyze_key_errors as AK
    ctx.rule("ground-truth rows over all keys, tempi and awkward strings; all file-name sequences; all placements of analyser failures in a batch; every forwarded option (and, thoroughly, every pair); all score tables over a value set; nontrivial = at least one track scored")
    ctx.assume("the analyser binary is a recorded stand-in; wall-clock time stamps only name files")

    # --- ground truth written and read back
    genres = ["", "House", "Drum & Bass", "a,b", 'q"uote', "line\nbreak", "\u00e9\u266d"]
    tempi = [0.5, 60.0, 87.123456, 128.0, 174.999999, 999.5]

    def gts():
        for t in range(-1, 24):
            for b in tempi:
                for g in genres:
                    yield (t, b, g)

    with scratch() as d:
        def gt(c):
            t, b, g = c
            km = None if t < 0 else (t % 12, t // 12)
            rows = [dict(track_id=7, genre="First", filepath="/x/a.mp3"), dict(track_id=123456, genre=g, filepath="/x/%s b.mp3" % g)]
            echo = [dict(track_id=7, tempo=None), dict(track_id=123456, tempo=b)]
            if km:
                echo[1].update(key_echonest=km[0], mode_echonest=km[1])
            BM.write_tracks_csv(d / "m" / "tracks.csv", rows)
            BM.write_echonest_csv(d / "m" / "echonest.csv", echo)
            tr, ec = PB.read_fma_tracks_csv(d / "m" / "tracks.csv"), PB.read_fma_echonest_csv(d / "m" / "echonest.csv")
            ensure(set(tr) == {7, 123456}, "tracks %r" % sorted(tr))
            ensure(tr[123456]["genre"] == g and tr[123456]["filepath"] == "/x/%s b.mp3" % g, "track row %r" % tr[123456])
            ensure(tr[7]["genre"] == "First" and tr[7]["filepath"] == "/x/a.mp3", "track row %r" % tr[7])
            ensure("tempo" not in ec.get(7, {}), "a track without tempo got %r" % ec.get(7))
            ensure(abs(ec[123456]["tempo"] - b) < 1e-6, "tempo %r, expected %r" % (ec[123456]["tempo"], b))
            want = name(km[0], km[1] == 0) if km else None
            ensure(ec[123456].get("key") == want, "key %r, expected %r" % (ec[123456].get("key"), want))
            return ((t, b), True, 4)

        ctx.sweep("ground_truth_roundtrip", gts(), gt)

    # --- track ids
    files = ["a-69424441.mp3", "b-69424441.mp3", "c_69424442.mp3", "plain.mp3", "x-1234.mp3", "y-12345.mp3", "12345.mp3", "z-012345.mp3", "caf\u00e9.mp3"]
    depth = 4 if ctx.thorough else 3

    def ids(c):
        used, got = set(), []
        for f in c:
            got.append(BM.derive_track_id(Path("/m/" + files[f]), used))
        ensure(len(set(got)) == len(got) and used == set(got), "ids %r are not unique" % got)
        ensure(all(isinstance(x, int) and x > 0 for x in got), "ids %r" % got)
        ensure([BM.derive_track_id(Path("/other/" + files[f]), u2) for u2 in [set()] for f in c] == got, "ids differ on a second run")
        m = re.search(r"[-_](\d{5,})\.mp3$", files[c[0]])
        if m:
            ensure(got[0] == int(m.group(1)), "id %d for %s" % (got[0], files[c[0]]))
        return (tuple(got), True, 2 * len(c))

    ctx.sweep("track_ids", (s for k in range(1, depth + 1) for s in itertools.permutations(range(len(files)), k)), ids)

    # --- ids do not depend on the order in which the directory lists the files
    names = ["a-69424441.mp3", "b-69424441.mp3", "c-69424442.mp3", "d_69424441.mp3", "plain.mp3"]

    def listing(c):
        first = None
        for order in (tuple(sorted(c)), c):
            with scratch() as d:
                (d / "aud").mkdir()
                for i in order:
                    (d / "aud" / names[i]).write_bytes(tag(4, [text_frame(4, "TBPM", 0, "%d" % (100 + i)), text_frame(4, "TKEY", 0, "Am")]))
                with dir_order([names[i] for i in order]):
                    rc, _ = call(BM.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "meta"])
                ensure(rc == 0, "building the metadata failed")
                tr, ec = PB.read_fma_tracks_csv(d / "meta" / "tracks.csv"), PB.read_fma_echonest_csv(d / "meta" / "echonest.csv")
                got = {Path(v["filepath"]).name: (k, ec[k]["tempo"]) for k, v in tr.items()}
                ensure(got.keys() == {names[i] for i in c}, "tracks %r" % got)
                for i in c:
                    ensure(got[names[i]][1] == 100.0 + i, "tempo of %s is %r" % (names[i], got[names[i]]))
                if first is None:
                    first = got
                ensure(got == first, "ids %r with one directory order and %r with another" % (first, got))
        return (c, True, 2)

    ctx.sweep("directory_orders", [p for k in range(1, len(names) + 1 if ctx.thorough else 5) for p in itertools.permutations(range(len(names)), k)], listing)

    # --- awkward file names reach the batch and the analyser unchanged
    odd = ["plain", "a b", "c,d", 'q"q', "x\\y", "tab\tt", "new\nline", "caf\u00e9", "\u266d", "-dash", "--json", "100%", "#1", "'s'", "{a}", "$HOME", "a;b", "trail ", ".hidden", "up.mp3"]

    def named(c):
        with scratch() as d:
            (d / "aud").mkdir()
            fs = {}
            for k, i in enumerate(c):
                f = d / "aud" / (odd[i] + ".mp3")
                f.write_bytes(tag(4, [text_frame(4, "TBPM", 0, "%d" % (100 + k)), text_frame(4, "TKEY", 0, "Am")]))
                Path(str(f) + ".out").write_text(jout(100.0 + k, "Am"))
                fs[str(f.resolve())] = 100.0 + k
            rc, _ = call(BM.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "meta"])
            ensure(rc == 0, "building the metadata failed")
            rc, _ = call(PB.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "meta", "--all"])
            ensure(rc == 0, "preparing the batch failed")
            with open(sorted((d / "results").glob("test_batch_*.csv"))[-1], encoding="utf-8", newline="") as f:
                rows = list(csv.DictReader(f))
            ensure({r["filename"]: float(r["bpm_gt"]) for r in rows} == fs and len(rows) == len(fs), "batch %r" % [r["filename"] for r in rows])
            rc, _ = call(RV.main, ["--data-path", d, "--binary", stub(d), "--jobs", "2"])
            res = results(d / "results") or []
            ensure(rc == 0 and len(res) == len(fs) and all(float(x["bpm_error"]) == 0.0 and x["key_match"] == "YES" for x in res), "rows %r" % res)
            return (c, True, len(c))

    ctx.sweep("file_names", [(i,) for i in range(len(odd))] + [(i, j) for i in range(len(odd)) for j in range(i + 1, len(odd)) if ctx.thorough or (i + j) % 4 == 0], named, lambda c: repr([odd[i] for i in c]))

    # --- metadata in the layout of the public archive: many columns in any order, files found by number
    TC = [("track", "genre_top"), ("track", "title"), ("album", "title"), ("artist", "genre_top2")]
    EC = ["tempo", "key", "mode", "danceability"]

    def layout(c):
        tc, ec = c
        with scratch() as d:
            m = d / "m"
            m.mkdir()
            with open(m / "tracks.csv", "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f)
                w.writerow([""] + [TC[i][0] for i in tc])
                w.writerow([""] + [TC[i][1] for i in tc])
                w.writerow(["track_id"] + [".".join(TC[i]) for i in tc])
                for t in (5, 1234):
                    w.writerow([t] + ["%s of %d" % (TC[i][1], t) if TC[i] != ("track", "genre_top") else "G%d" % t for i in tc])
            with open(m / "echonest.csv", "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f)
                w.writerow([""] + ["echonest"] * len(ec))
                w.writerow([""] + ["audio_features"] * len(ec))
                w.writerow([""] + [EC[i] for i in ec])
                w.writerow(["track_id"] + [""] * len(ec))
                val = {5: ["120.5", "0", "1", "0.25"], 1234: ["87.25", "9.0", "0.0", "9"]}
                for t in (5, 1234):
                    w.writerow([t] + [val[t][i] for i in ec])
            for t in (5, 1234):
                f = d / "fma" / ("%03d" % (t // 1000)) / ("%06d.mp3" % t)
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_bytes(b"")
            rc, out = call(PB.main, ["--data-path", d, "--audio-dir", "fma", "--metadata-dir", "m", "--all"])
            ensure(rc == 0, "preparing the batch failed: %s" % out[-200:])
            with open(sorted((d / "results").glob("test_batch_*.csv"))[-1], encoding="utf-8", newline="") as f:
                rows = {int(r["track_id"]): r for r in csv.DictReader(f)}
            ensure(set(rows) == {5, 1234}, "tracks %r" % sorted(rows))
            for t, b, k in ((5, 120.5, "C"), (1234, 87.25, "Am")):
                has = 1 in ec and 2 in ec
                ensure(float(rows[t]["bpm_gt"]) == b and rows[t]["key_gt"] == (k if has else "") and rows[t]["genre"] == ("G%d" % t if 0 in tc else ""), "row %r" % rows[t])
                ensure(Path(rows[t]["filename"]) == (d / "fma" / ("%03d" % (t // 1000)) / ("%06d.mp3" % t)).resolve(), "file %r" % rows[t])
            return (c, True, 2)

    def subs(n, need=None):
        return [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k) if need is None or need in p]

    ctx.sweep("column_orders", [(t, e) for t in (subs(4) if ctx.thorough else [p for p in itertools.permutations(range(4), 2)] + [(0,), (1,), (1, 2, 3, 0)]) for e in (subs(4, 0) if ctx.thorough else [p for p in itertools.permutations(range(4), 3) if 0 in p] + [(0,), (3, 1, 2, 0), (2, 0)])], layout)

    # --- FMA paths
    def fma(i):
        p = PB.find_track_file(Path("/d"), i)
        ensure(str(p) == "/d/%03d/%06d.mp3" % (i // 1000, i), "file of track %d: %s" % (i, p))
        return (str(p), True, 1)

    ctx.sweep("track_files", list(range(0, 3000, 7)) + [999, 1000, 1001, 99999, 100000, 155066, 155320, 999999], fma)

    # --- whole workflow on tagged files
    GT = ["", "Am", "C", "F#m", "Eb", "10A"]
    CAN = {"": "", "Am": "Am", "C": "C", "F#m": "F#m", "Eb": "D#", "10A": "Bm", "Ebm": "D#m", "D#": "D#", "Bm": "Bm", "Cm": "Cm", "8B": "C", "C major": "C"}
    TAG = ["", "Am", "8B", "Ebm"]
    PRED = ["Am", "C", "D#", "F#m", "Bm", "Cm", "Eb", "C major", "Ebm"]
    OFF = [0.0, 2.0, -2.0, 2.25, 5.0, -60.0]

    def flow(c):
        jobs, kind = c
        with scratch() as d:
            audio = d / "aud"
            audio.mkdir()
            combos = list(itertools.product(GT, TAG, PRED))
            info = {}
            for n, (g, t, p) in enumerate(combos):
                bpm = 90.0 + n % 50
                fid = 100000 + n
                f = audio / ("t-%d.mp3" % fid)
                fr = [text_frame(4, "TBPM", 0, "%g" % bpm), text_frame(4, "TCON", 3, "G%d" % (n % 3))]
                if g:
                    fr.append(text_frame(4, "TKEY", 0, g) if n % 2 else txxx(4, 1, "initialkey", g))
                f.write_bytes(tag(4, fr, 8) + b"\xff\xfb")
                info[fid] = (f, bpm, g, t, p, OFF[n % len(OFF)], None if n % 4 == 1 else bpm + OFF[(n // 6) % len(OFF)])
            (audio / "nobpm-777777.mp3").write_bytes(tag(3, [text_frame(3, "TKEY", 0, "Am")]))
            rc, _ = call(BM.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "meta"])
            ensure(rc == 0, "building the metadata failed")
            rc, _ = call(PB.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "meta"] + (["--all"] if kind == 0 else ["--num-tracks", "0"] if kind == 1 else ["--num-tracks", "20", "--seed", "5"]))
            ensure(rc == 0, "preparing the batch failed")
            tb = sorted((d / "results").glob("test_batch_*.csv"))
            with open(tb[-1], encoding="utf-8", newline="") as f:
                rows = list(csv.DictReader(f))
            want = len(info) if kind < 2 else 20
            ensure(len(rows) == want and len({r["track_id"] for r in rows}) == want, "%d tracks in the batch, expected %d" % (len(rows), want))
            for r in rows:
                fid = int(r["track_id"])
                ensure(fid in info, "track %d has no tempo but is in the batch" % fid)
                f, bpm, g, t, p, off, tb_ = info[fid]
                ensure(Path(r["filename"]) == f.resolve() and abs(float(r["bpm_gt"]) - bpm) < 1e-6 and r["key_gt"] == CAN[g] and r["genre"] == "G%d" % ((fid - 100000) % 3), "batch row %r" % r)
                # the files are re-tagged after the ground truth was captured
                fr = []
                if tb_ is not None:
                    fr.append(text_frame(3, "TBPM", 0, "%g" % tb_))
                if t:
                    fr.append(text_frame(3, "TKEY", 1, t))
                f.write_bytes(tag(3, fr, 4) + b"\xff\xfb")
                Path(str(f) + ".out").write_text("log line\n" + jout(bpm + off, p) + "\ntrailing\n")
            rc, out = call(RV.main, ["--data-path", d, "--binary", stub(d), "--jobs", jobs])
            ensure(rc == 0, "the validation run failed")
            res = results(d / "results")
            ensure(res is not None and len(res) == want and len({r["track_id"] for r in res}) == want, "result rows")
            exp = []
            for r in res:
                f, bpm, g, t, p, off, tb_ = info[int(r["track_id"])]
                tbv = tb_ if tb_ is not None and tb_ > 0 else None
                e = expect(bpm, CAN[g], bpm + off, CAN.get(p, p), tbv, CAN[t])
                check_row(r, e, bpm, bpm + off, tbv)
                ensure(r["key_gt"] == CAN[g] and r["key_pred"] == p and r["key_tag"] == t, "keys of row %r" % r)
                ensure((float(r["bpm_confidence"]), float(r["key_confidence"]), float(r["key_clarity"]), float(r["grid_stability"])) == (0.5, 0.25, 0.75, 1.0), "confidences of row %r" % r)
                exp.append(e)
            mae = sum(e["err"] for e in exp) / len(exp)
            ensure(near(num(out, r"Stratum BPM MAE: \D*([\d.]+)"), mae, 0.006), "mean error printed %r, expected %.2f" % (num(out, r"Stratum BPM MAE: \D*([\d.]+)"), mae))
            acc = 100.0 * sum(e["err"] <= 2.0 for e in exp) / len(exp)
            ensure(near(num(out, r"Stratum BPM accuracy[^:]*: ([\d.]+)%"), acc, 0.06), "tempo accuracy printed %r, expected %.1f" % (num(out, r"Stratum BPM accuracy[^:]*: ([\d.]+)%"), acc))
            for ref, pat in (("GT", r"Stratum Key accuracy vs GT: ([\d.]+)%"), ("TAG", r"Stratum Key agreement vs TAG: ([\d.]+)%")):
                s = [e for e in exp if e["ref"] == ref]
                if s:
                    a = 100.0 * sum(e["m"] == "YES" for e in s) / len(s)
                    ensure(near(num(out, pat), a, 0.06), "%s key rate printed %r, expected %.1f" % (ref, num(out, pat), a))
            te = [e["terr"] for e in exp if e["terr"] is not None]
            if te:
                ensure(near(num(out, r"TAG BPM MAE: \D*([\d.]+)"), sum(te) / len(te), 0.006), "tag mean error")
                ensure(near(num(out, r"TAG BPM accuracy[^:]*: ([\d.]+)%"), 100.0 * sum(x <= 2.0 for x in te) / len(te), 0.06), "tag tempo accuracy")
            kt = [e for e in exp if e["tm"] in ("YES", "NO")]
            if kt:
                ensure(near(num(out, r"TAG Key accuracy vs GT: ([\d.]+)%"), 100.0 * sum(e["tm"] == "YES" for e in kt) / len(kt), 0.06), "tag key accuracy")
            return (c, True, want)

    ctx.sweep("workflow", [(j, k) for j in (1, 4) for k in (0, 1, 2)], flow, limit=200)

    # --- choosing a sample: distinct known tracks, as many as asked for, the same for the same seed
    def choose(c):
        total, want, seed, gone = c
        with scratch() as d:
            (d / "aud").mkdir()
            (d / "m").mkdir()
            tr, ec = [], []
            for i in range(total):
                f = d / "aud" / ("f%d.mp3" % i)
                if not gone >> i & 1:
                    f.write_bytes(b"")
                tr.append({"track_id": 10 + i, "genre": "g", "filepath": str(f)})
                ec.append({"track_id": 10 + i, "tempo": 100.0 + i})
            BM.write_tracks_csv(d / "m" / "tracks.csv", tr)
            BM.write_echonest_csv(d / "m" / "echonest.csv", ec)
            have = [10 + i for i in range(total) if not gone >> i & 1]
            picks = []
            for run in range(2):
                import random
                random.seed(99 + run)
                rc, _ = call(PB.main, ["--data-path", d, "--audio-dir", "aud", "--metadata-dir", "m", "--num-tracks", want, "--seed", seed])
                ensure((rc == 0) == bool(have), "preparing ended with %r" % (rc,))
                if not have:
                    return (c, False, 1)
                fs = sorted((d / "results").glob("test_batch_*.csv"))
                with open(fs[-1], encoding="utf-8", newline="") as f:
                    rows = list(csv.DictReader(f))
                for q in fs:
                    q.unlink()
                picks.append([(int(r["track_id"]), float(r["bpm_gt"])) for r in rows])
            k = len(have) if want == 0 else min(want, len(have))
            ensure(picks[0] == picks[1], "seed %d chose %r and then %r" % (seed, picks[0], picks[1]))
            ids = [t for t, _ in picks[0]]
            ensure(len(ids) == k and len(set(ids)) == k and set(ids) <= set(have), "chose %r of %r, expected %d" % (ids, have, k))
            ensure(all(b == 90.0 + t for t, b in picks[0]), "tempi %r" % picks[0])
            return (tuple(ids), True, k)

    cn = 5 if ctx.thorough else 4
    ctx.sweep("sampling", [(cn, w, sd, g) for w in range(cn + 2) for sd in range(4) for g in (range(1 << cn) if ctx.thorough else (0, 1, 6, 15))], choose)

    # --- every placement of analyser failures in a batch
    OUT = ["ok", "exit", "empty", "garbage", "broken", "nobpm", "nokey", "nofile", "noise", "killed", "zero", "nested", "same", "bytes", "timeout"]
    n = 3 if ctx.thorough else 2

    def faults(c):
        jobs, seq = c
        with scratch() as d:
            rows, want = [], {}
            for i, o in enumerate(seq):
                f = d / ("f%d.mp3" % i)
                kind = OUT[o]
                if kind == "same":
                    # the batch lists the file of the track before once more
                    f = d / ("f%d.mp3" % max(i - 1, 0))
                    prev = rows[-1] if rows else None
                    if prev is None:
                        f.write_bytes(b"")
                        Path(str(f) + ".out").write_text(jout(100.0 + i, "Am"))
                        want[i + 1] = 100.0 + i
                        rows.append((i + 1, str(f), 100.0, "A minor", ""))
                        continue
                    rows.append((i + 1, prev[1], 100.0, "A minor", ""))
                    if i in want:
                        want[i + 1] = want[i]
                    continue
                if kind != "nofile":
                    f.write_bytes(b"\xff\xfb")
                body = {"ok": jout(100.0 + i, "Am"), "exit": jout(1.0, "C"), "empty": "", "garbage": "no result", "broken": '{"bpm": 1,', "nobpm": '{"key": "C"}', "nokey": '{"bpm": 120.0}', "nofile": jout(1.0, "C"), "noise": "INFO start\n" + jout(100.0 + i, "Am") + "\ndone\n",
                        "killed": jout(1.0, "C"), "zero": jout(0.0, "Am"), "bytes": b"\xff\xfe\x80{", "timeout": jout(1.0, "C"),
                        "nested": '{"bpm": %r, "key": "Am", "bpm_candidates": [{"bpm": 1.0, "score": 2.0}, {"bpm": 3.0, "score": 1.0}], "n": 1}' % (100.0 + i)}[kind]
                Path(str(f) + ".out").write_bytes(body if isinstance(body, bytes) else body.encode())
                if kind == "timeout":
                    Path(str(f) + ".timeout").write_text("")
                if kind == "exit":
                    Path(str(f) + ".rc").write_text("")
                if kind == "killed":
                    Path(str(f) + ".kill").write_text("")
                if kind in ("ok", "noise", "nested", "zero"):
                    want[i + 1] = 100.0 + i if kind != "zero" else 0.0
                rows.append((i + 1, str(f), 100.0, "A minor", ""))
            r = batch(d, rows)
            with timeouts() as fired:
                rc, out = call(RV.main, ["--data-path", d, "--binary", stub(d), "--jobs", jobs])
            if any(OUT[o] == "timeout" for o in seq) and not fired:
                return (seq, False, 1)  # the tool no longer waits through subprocess.run
            ensure(rc == 0, "the run ended with %r" % (rc,))
            res = results(r) or []
            ensure({int(x["track_id"]): float(x["bpm_pred"]) for x in res} == want and len(res) == len(want), "scored tracks %r, expected %r" % ([(x["track_id"], x["bpm_pred"]) for x in res], want))
            for x in res:
                ensure(x["key_match"] == "YES" and x["key_ref"] == "GT", "row %r" % x)
            return (seq, bool(want), len(seq))

    ctx.sweep("failures", [(j, s) for j in (1, 2) for s in itertools.product(range(len(OUT)), repeat=n)], faults, lambda c: "jobs %d: %s" % (c[0], [OUT[o] for o in c[1]]))

    # --- parallel jobs: every order in which the analysers finish, every placement of failures
    def finish(c):
        order, bad = c
        with scratch() as d:
            fs = [d / ("f%d.mp3" % i) for i in range(len(order))]
            g = d / "gate.sh"
            g.write_text("""#!/bin/sh
if [ -f "$1.wait" ]; then n=0; while [ ! -f "$(cat "$1.wait")" ] && [ $n -lt 400 ]; do sleep 0.005; n=$((n+1)); done; sleep 0.01; fi
[ -f "$1.out" ] && cat "$1.out"
touch "$1.done"
[ -f "$1.rc" ] && exit 3
exit 0
""")
            g.chmod(0o755)
            rows, want = [], {}
            for i, f in enumerate(fs):
                f.write_bytes(tag(4, [text_frame(4, "TBPM", 0, "%d" % (101 + i)), text_frame(4, "TKEY", 0, "C")], 0))
                Path(str(f) + ".out").write_text(jout(100.0 + 3 * i, NAMES[i]))
                if bad >> i & 1:
                    Path(str(f) + ".rc").write_text("")
                else:
                    want[i + 1] = (100.0 + 3 * i, 3.0 * i, NAMES[i], "YES" if i == 0 else "NO", str(101.0 + i))
                rows.append((i + 1, str(f), 100.0, "C", "g%d" % i))
            for a, b in zip(order, order[1:]):
                Path(str(fs[b]) + ".wait").write_text(str(fs[a]) + ".done")
            r = batch(d, rows)
            rc, _ = call(RV.main, ["--data-path", d, "--binary", g, "--jobs", len(order)])
            ensure(rc == 0, "the run ended with %r" % (rc,))
            res = results(r) or []
            got = {int(x["track_id"]): (float(x["bpm_pred"]), float(x["bpm_error"]), x["key_pred"], x["key_match"], x["bpm_tag"]) for x in res}
            ensure(got == want and len(res) == len(want), "rows %r, expected %r" % (got, want))
            return ((order, bad), bool(want), len(order))

    fn = 4 if ctx.thorough else 3
    ctx.sweep("finish_orders", [(o, b) for o in itertools.permutations(range(fn)) for b in range(1 << fn)], finish, limit=60)

    # --- options reach the analyser
    OWN = {"help", "data-path", "binary", "max-tracks", "jobs", "debug-track-ids"}
    rc, _help = 0, ""
    _rc, text = call(RV.main, ["--help"])
    opts = []
    for m in re.finditer(r"^  --([a-z0-9-]+)(?: ([A-Z0-9_]+))?", text, re.M):
        if m.group(1) not in OWN and m.group(1) not in [o for o, _ in opts]:
            opts.append((m.group(1), m.group(2) is not None))
    if len(opts) < 60:
        raise RuntimeError("could not list the options")

    # options that accept a fraction are given one
    fractional = {}
    with scratch() as d:
        f = d / "a.mp3"
        f.write_bytes(b"\xff\xfb")
        Path(str(f) + ".out").write_text(jout(120.0, "C"))
        batch(d, [(1, str(f), 120.0, "C", "")])
        for o, takes in opts:
            if takes:
                fractional[o] = call(RV.main, ["--data-path", d, "--binary", stub(d), "--jobs", "1", "--" + o, "2.375"])[0] == 0

    def value(o, k):
        if o in ("key-multi-scale-lengths",):
            return "120,360"
        if o in ("key-multi-scale-weights",):
            return "1.0,0.5"
        return ("%g" % (2.375 + k) if fractional[o] else str(2 + k)) if k >= 0 else "0"

    def same_value(a, b):
        try:
            return float(a) == float(b)
        except ValueError:
            return a == b

    def forward(c):
        zero = c[:1] == ("zero",)
        c = c[1:] if zero else c
        with scratch() as d:
            f = d / "a.mp3"
            f.write_bytes(b"\xff\xfb")
            Path(str(f) + ".out").write_text(jout(120.0, "C"))
            batch(d, [(1, str(f), 120.0, "C", "")])
            argv = ["--data-path", d, "--binary", stub(d), "--jobs", "1"]
            for k, o in enumerate(c):
                argv += ["--" + opts[o][0]] + ([value(opts[o][0], -1 if zero else k)] if opts[o][1] else [])
            rc, _ = call(RV.main, argv)
            ensure(rc == 0, "the run ended with %r" % (rc,))
            got = Path(str(f) + ".args").read_text().splitlines()
            ensure(got[:1] == [str(f)] and "--json" in got, "analyser called with %r" % got)
            rest = [x for x in got[1:] if x != "--json"]
            for k, o in enumerate(c):
                nm = "--" + opts[o][0]
                ensure(rest.count(nm) == 1, "%s reaches the analyser %d times: %r" % (nm, rest.count(nm), rest))
                if opts[o][1]:
                    i = rest.index(nm)
                    ensure(i + 1 < len(rest) and same_value(rest[i + 1], value(opts[o][0], -1 if zero else k)), "%s has value %r" % (nm, rest[i + 1:i + 2]))
            flags = [x for x in rest if x.startswith("--")]
            ensure(sorted(flags) == sorted("--" + opts[o][0] for o in c), "options at the analyser %r" % flags)
            return (tuple(rest), True, 1)

    N = len(opts)
    cases = [()] + [(i,) for i in range(N)]
    cases += [(i, j) for i in range(N) for j in range(i + 1, N) if ctx.thorough or j - i <= 2]
    cases += [tuple(range(N))]
    cases += [("zero", i) for i in range(N) if opts[i][1]] + [("zero",) + tuple(range(N))]
    ctx.sweep("options_forwarded", cases, forward, lambda c: " ".join(o if o == "zero" else "--" + opts[o][0] for o in c[:6]) or "no options")

    # --- debug options reach exactly the tracks they are asked for
    def debug(c):
        jobs, total, sub, base = c
        with scratch() as d:
            rows = []
            for i in range(total):
                f = d / ("f%d.mp3" % i)
                f.write_bytes(b"")
                Path(str(f) + ".out").write_text(jout(120.0, "C"))
                rows.append((i + base, str(f), 100.5 + i, "C", ""))
            r = batch(d, rows)
            ids = ",".join(str(i + base) for i in range(total) if sub >> i & 1)
            argv = ["--data-path", d, "--binary", stub(d), "--jobs", jobs, "--mel-n-mels", "7"] + (["--debug-track-ids", ids] if ids else [])
            rc, _ = call(RV.main, argv)
            ensure(rc == 0 and len(results(r) or []) == total, "the run ended with %r" % (rc,))
            for i in range(total):
                got = Path(rows[i][1] + ".args").read_text().splitlines()[1:]
                flags = [x for x in got if x.startswith("--") and x != "--json"]
                want = ["--mel-n-mels"] + (["--debug-gt-bpm", "--debug-track-id"] if sub >> i & 1 else [])
                ensure(sorted(flags) == sorted(want), "track %d is analysed with %r" % (i + base, flags))
                if sub >> i & 1:
                    ensure(got[got.index("--debug-track-id") + 1] == str(i + base) and float(got[got.index("--debug-gt-bpm") + 1]) == 100.5 + i, "debug values %r" % got)
            return ((total, sub, base), sub != 0, total)

    dn = 4 if ctx.thorough else 3
    ctx.sweep("debug_tracks", [(j, t, u, b) for j in (1, 2) for t in range(1, dn + 1) for u in range(1 << t) for b in (11, 0, 8, 123456789)], debug)

    def limit(c):
        total, k = c
        with scratch() as d:
            rows = []
            for i in range(total):
                f = d / ("f%d.mp3" % i)
                f.write_bytes(b"")
                Path(str(f) + ".out").write_text(jout(120.0, "C"))
                rows.append((i + 1, str(f), 120.0, "C", ""))
            r = batch(d, rows)
            call(RV.main, ["--data-path", d, "--binary", stub(d), "--jobs", "1", "--max-tracks", k])
            got = [int(x["track_id"]) for x in results(r)]
            ensure(got == list(range(1, min(total, k) + 1)), "tracks %r" % got)
            return (tuple(got), True, len(got))

    ctx.sweep("max_tracks", [(t, k) for t in range(1, 5) for k in range(1, 6)], limit)

    # --- score tables
    ERR = [0.0, 2.0, 2.5, 5.0, 10.0, 20.0, 50.0, 100.0, 130.0]
    depth = 3 if ctx.thorough else 2

    def table(c):
        errs, keys, tags = c
        with scratch() as d:
            p = d / "validation_results_1.csv"
            with open(p, "w", newline="", encoding="utf-8") as f:
                w = csv.writer(f)
                w.writerow(["track_id", "bpm_gt", "bpm_pred", "bpm_error", "bpm_tag", "bpm_tag_error", "key_ref", "key_match", "key_gt", "key_pred"])
                for i, (e, k, t) in enumerate(zip(errs, keys, tags)):
                    ref, m = [("GT", "YES"), ("GT", "NO"), ("TAG", "YES"), ("TAG", "NO"), ("N/A", "N/A")][k]
                    w.writerow([i, 120.0, 120.0 + ERR[e], ERR[e], "" if t < 0 else 100, "" if t < 0 else ERR[t], ref, m, "C", "C" if m == "YES" else "G"])
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                AR.analyze_file(p)
            out = out.getvalue()
            E = [ERR[e] for e in errs]
            T = [ERR[t] for t in tags if t >= 0]
            ensure(near(num(out, r"Stratum MAE: ([\d.]+)"), sum(E) / len(E), 0.0051), "mean error in %r" % out[:200])
            ensure(near(num(out, r"Total tracks: (\d+)"), len(E), 0), "track count")
            for lim in (2, 5, 10, 20):
                ensure(near(num(out, r"\n  Within \D*%d BPM: (\d+)/" % lim), sum(x <= lim for x in E), 0), "count within %d BPM" % lim)
                if T:
                    ensure(near(num(out, r"TAG within \D*%d BPM: (\d+)/" % lim), sum(x <= lim for x in T), 0), "tag count within %d BPM" % lim)
            if T:
                ensure(near(num(out, r"TAG MAE: ([\d.]+)"), sum(T) / len(T), 0.0051), "tag mean error")
            for pat, lo, hi in ((r"\n  < 5 BPM: (\d+)", -1, 5), (r"\n  5-20 BPM: (\d+)", 5, 20), (r"\n  20-50 BPM: (\d+)", 20, 50), (r"\n  50-100 BPM: (\d+)", 50, 100), (r"\n  > 100 BPM: (\d+)", 100, 1e9)):
                ensure(near(num(out, pat), sum(lo <= x < hi for x in E), 0), "distribution %s" % pat)
            for ref, pat in ((0, r"Stratum Key accuracy vs GT: ([\d.]+)% \(n=(\d+)"), (2, r"Stratum Key agreement vs TAG: ([\d.]+)% \(n=(\d+)")):
                s = [k for k in keys if k in (ref, ref + 1)]
                if s:
                    ensure(near(num(out, pat), 100.0 * s.count(ref) / len(s), 0.051), "key rate")
                else:
                    ensure(num(out, pat) is None, "key rate without keys")
            for title, by, at in (("Worst Stratum errors:", E, None), ("Worst TAG errors:", [ERR[t] if t >= 0 else None for t in tags], 1)):
                if title not in out:
                    ensure(at is not None and not T, "no list %r" % title)
                    continue
                ids = [int(x) for x in re.findall(r"^  Track (\d+): ", out.split(title)[1].split("\n\n")[0], re.M)]
                have = [x for x in by if x is not None]
                ensure(len(set(ids)) == len(ids) == min(10, len(have)) and [by[i] for i in ids] == sorted(have, reverse=True)[:10], "%s %r" % (title, ids))
            return ((tuple(E), keys), True, 1)

    def tables():
        for k in range(1, depth + 1):
            for errs in itertools.product(range(len(ERR)), repeat=k):
                for v in range(10 if k < 3 else 3):
                    keys = tuple((v * 3 + i * (v // 5 + 1)) % 5 for i in range(k))
                    tags = tuple(((v + i * 4 + errs[i]) % (len(ERR) + 1)) - 1 for i in range(k))
                    yield (errs, keys, tags)

        for v in range(12):
            e = tuple((v * 5 + 7 * i) % len(ERR) for i in range(12))
            yield (e, tuple((v + i) % 5 for i in range(12)), tuple((v + 3 * i) % (len(ERR) + 1) - 1 for i in range(12)))

    ctx.sweep("score_tables", tables(), table)

    # --- the newest results are analysed, or the files named
    def newest(c):
        times, named = c
        with scratch() as d:
            r = d / "results"
            r.mkdir()
            for i, t in enumerate(times):
                p = r / ("validation_results_%d.csv" % i)
                p.write_text("track_id,bpm_gt,bpm_pred,bpm_error\n" + "1,100,100,0\n" * (i + 1))
                os.utime(p, (1000 + t, 1000 + t))
            argv = ["--data-path", d]
            for k in named:
                argv += ["--file", r / ("validation_results_%d.csv" % k)]
            rc, out = call(AR.main, argv)
            ensure(rc == 0, "ended with %r" % (rc,))
            got = [int(x) - 1 for x in re.findall(r"Total tracks: (\d+)", out)]
            ensure(got == (list(named) or [times.index(max(times))]), "analysed files %r" % got)
            return (c, True, 1)

    ctx.sweep("newest_results", [(t, nm) for t in itertools.permutations((0, 50, 100)) for nm in ((), (0,), (2, 0), (1, 1))], newest)

    # --- tempo ratio buckets
    R = [0.5, 2 / 3, 0.75, 1.0, 4 / 3, 1.5, 2.0]
    RN = ["1/2x", "2/3x", "3/4x", "1x", "4/3x", "3/2x", "2x"]

    def bucket(q, tol):
        for nm in ("1x", "2x", "1/2x", "3/2x", "2/3x", "4/3x", "3/4x"):
            if abs(q - R[RN.index(nm)]) <= tol:
                return nm
        return "other"

    def ratios(c):
        qs, tol = c
        with scratch() as d:
            p = d / "r.csv"
            p.write_text("bpm_gt,bpm_pred\n" + "".join("%r,%r\n" % (120.0, 120.0 * q) for q in qs) + "0,100\n100,0\n")
            rc, out = call(RB.main, ["--file", p, "--tol", tol])
            want = {}
            for q in qs:
                want[bucket(q, tol)] = want.get(bucket(q, tol), 0) + 1
            got = {m.group(1): int(m.group(2)) for m in re.finditer(r"^  (\S+): (\d+)$", out, re.M)}
            ensure(got == want, "buckets %r, expected %r" % (got, want))
            ensure(num(out, r"n=(\d+)") == len(qs), "count")
            return (tuple(sorted(got.items())), True, 1)

    qs = sorted({round(r + o, 4) for r in R for o in (0, 0.01, -0.01, 0.07, -0.07, 0.0901, -0.0901)} | {0.1, 3.0, 1.2})
    ctx.sweep("ratio_buckets", [((a, b), t) for a in qs for b in (qs if ctx.thorough else qs[::4]) for t in (0.08, 0.02)], ratios)

    # --- key error analysis
    ks = [n + m for n in NAMES for m in ("", "m")]

    def kerr(c):
        pairs = c
        with scratch() as d:
            p = d / "k.csv"
            with open(p, "w", newline="") as f:
                w = csv.writer(f)
                w.writerow(["track_id", "key_ref", "key_match", "key_gt", "key_pred"])
                for i, (a, b) in enumerate(pairs):
                    w.writerow([i, "GT", "YES" if a == b else "NO", ks[a], ks[b]])
                w.writerow([99, "TAG", "NO", "C", "G"])
            rc, out = call(AK.main, ["--file", p])
            mode = sum(a // 2 == b // 2 and a != b for a, b in pairs)
            tonic = sum(a // 2 != b // 2 and a % 2 == b % 2 for a, b in pairs)
            both = sum(a // 2 != b // 2 and a % 2 != b % 2 for a, b in pairs)
            ok = sum(a == b for a, b in pairs)
            ensure(re.search(r"Correct: %d/%d " % (ok, len(pairs)), out), "correct count")
            ensure(num(out, r"Mode errors[^:]*: (\d+)") == mode, "mode errors")
            ensure(num(out, r"Tonic errors[^:]*: (\d+)") == tonic, "tonic errors")
            ensure(num(out, r"Both wrong: (\d+)") == both, "both wrong")
            dist = {}
            for a, b in pairs:
                if a // 2 != b // 2:
                    up = next(k for k in range(12) if (a // 2 + 7 * k) % 12 == b // 2)
                    dist[min(up, 12 - up)] = dist.get(min(up, 12 - up), 0) + 1
            got = {int(m.group(1)): int(m.group(2)) for m in re.finditer(r"Distance (\d+): (\d+) errors", out)}
            ensure(got == dist, "distances %r, expected %r" % (got, dist))
            return ((mode, tonic, both, ok), True, 1)

    pairs = list(itertools.product(range(24), repeat=2))
    ctx.sweep("key_errors", [(p,) for p in pairs] + [(pairs[i], pairs[(i * 37 + 11) % 576], pairs[(i * 101 + 5) % 576]) for i in range(576)], kerr)
