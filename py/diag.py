"""P30: the diagnosis tools count every track once and report it where it belongs."""
import contextlib, csv, io, itertools, json, os, re, subprocess
from pathlib import Path
from core import ensure
from runs import timeouts, scratch, call, batch, jout, num, near

STUB = """#!/bin/sh
printf '%s\\n' "$@" > "$1.args"
[ -f "$1.rc" ] && exit 3
[ -f "$1.out" ] && cat "$1.out"
exit 0
"""


def stub(d):
    p = d / "stub.sh"
    p.write_text(STUB)
    p.chmod(0o755)
    return p


def write(p, header, rows):
    with open(p, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f)
        w.writerow(header)
        w.writerows(rows)


def p30(ctx):
    from validation.analysis import analyze_candidate_diagnosis as AC, analyze_exemplars as AE, analyze_fallback_flags as AF, diagnose_candidates as DC
    from validation.tools import sweep_tempogram_tuning as SW
    ctx.rule("all candidate lists over a tempo alphabet, all placements of analyser failures, all error tables over the bin edges, all flag tables, all parameter grids over small value sets; nontrivial = at least one track is counted")
    ctx.assume("the analyser binary is a recorded stand-in")

    # --- rank of the ground truth in a candidate list
    GT = 120.0
    vals = [118.0, 117.99, 122.0, 122.01, 120.0, 60.0, 240.0]
    depth = 4 if ctx.thorough else 3

    def rank(c):
        tol, seq, sel = c
        got = DC.find_rank([{"bpm": v, "score": 0.1 * (k + 1), "selected": k == sel} for k, v in enumerate(seq)], GT, tol)
        want = next((i for i, v in enumerate(seq, 1) if abs(v - GT) <= tol), None)
        ensure(got == want, "rank %r, expected %r" % (got, want))
        return ((tol, want), want is not None, len(seq))

    ctx.sweep("rank", ((t, s, x) for t in (2.0, 0.5, 60.0) for k in range(depth + 1) for s in itertools.product(vals, repeat=k) for x in range(-1, k)), rank)

    # --- diagnosing a batch: failures, misses only, tracks of other batches
    KIND = ["first", "third", "absent", "none", "exit", "garbage", "foreign", "badline", "odd", "bytes", "timeout"]

    def diagnose(c):
        only, topn, seq = c
        with scratch() as d:
            rows, res, want, hits = [], [], {}, 0
            for i, o in enumerate(seq):
                kind = KIND[o]
                f = d / ("f%d.mp3" % i)
                f.write_bytes(b"")
                gt = 100.0 + i
                err = [0.0, 2.0, 2.5, 60.0][(i + o) % 4]
                cands = {"first": [gt + 2.0, 50.0], "third": [50.0, gt + 2.1, gt - 2.0, gt], "absent": [50.0, gt + 2.1, gt * 2]}.get(kind)
                body = "log\n" + json.dumps({"bpm": 1.0, "key": "C", **({} if cands is None else {"bpm_candidates": [{"bpm": b, "score": 0.5 + 0.1 * x, "selected": x == 0} for x, b in enumerate(cands)]})}) + "\nend"
                Path(str(f) + ".out").write_bytes({"garbage": b"nothing", "odd": b'{"bpm_candidates": 5}', "bytes": b"\xff\xfe\x80{}"}.get(kind) or body.encode())
                if kind == "timeout":
                    Path(str(f) + ".timeout").write_text("")
                if kind == "exit":
                    Path(str(f) + ".rc").write_text("")
                tid = 500 + i
                if kind != "foreign":
                    rows.append((tid, str(f), gt, "C", ""))
                res.append((tid, gt, gt + err, "oops" if kind == "badline" else err))
                if kind in ("foreign", "badline") or (only and err <= 2.0):
                    continue
                if kind in ("exit", "garbage", "odd", "bytes", "timeout"):
                    want[tid] = ("ERROR", "")
                else:
                    r = {"first": 1, "third": 3}.get(kind)
                    want[tid] = ("YES", str(r)) if r else ("NO", "")
            r = batch(d, rows or [(1, "x", 1.0, "C", "")])
            # an older batch must not be used
            write(r / "test_batch_20190101_000000.csv", ["track_id", "filename", "bpm_gt", "key_gt", "genre"], [(500 + i, "/none", 1.0, "", "") for i in range(len(seq))])
            p = r / "validation_results_1.csv"
            write(p, ["track_id", "bpm_gt", "bpm_pred", "bpm_error"], res)
            with timeouts() as fired:
                rc, out = call(DC.main, ["--data-path", d, "--results-csv", p, "--binary", stub(d), "--top-n", topn] + (["--only-misses"] if only else []))
            due = [t for t in want if KIND[seq[t - 500]] == "timeout"]
            if due and not fired:
                return (c, False, 1)  # the tool no longer waits through subprocess.run
            ensure(rc == 0, "ended with %r: %s" % (rc, out[-200:]))
            fs = sorted(r.glob("candidate_diagnosis_*.csv"))
            got = {}
            if fs:
                with open(fs[-1], encoding="utf-8", newline="") as f:
                    dr = list(csv.DictReader(f))
                got = {int(x["track_id"]): (x["gt_in_topn"], x["gt_rank"]) for x in dr}
                ensure(len(got) == len(dr), "a track is diagnosed twice")
                for x in dr:
                    ensure(Path(x["filename"]) == d / ("f%d.mp3" % (int(x["track_id"]) - 500)), "file of %r" % x)
            ensure(got == want, "diagnosis %r, expected %r" % (got, want))
            yes, tot = sum(v[0] == "YES" for v in want.values()), sum(v[0] != "ERROR" for v in want.values())
            m = re.search(r"GT in top-%d \(.*?\): (\d+)/(\d+)" % topn, out)
            ensure((m is None and tot == 0) or (m and (int(m.group(1)), int(m.group(2))) == (yes, tot)), "summary %r, expected %d/%d" % (m and m.group(0), yes, tot))
            for t in want:
                if t in due:
                    continue
                a = Path(str(d / ("f%d.mp3" % (t - 500))) + ".args").read_text().splitlines()
                ensure("--bpm-candidates" in a and a[a.index("--bpm-candidates-top") + 1] == str(topn), "analyser called with %r" % a)
            # the report over the diagnosis
            if fs:
                rc, rep = call(AC.main, ["--file", fs[-1]])
                if tot:
                    m = re.search(r"n=(\d+) GT-in-topN .*?: (\d+)/(\d+)", rep)
                    ensure(m and [int(g) for g in m.groups()] == [tot, yes, tot], "report %r" % rep[:200])
            return (tuple(sorted(want.items())), bool(want), len(seq))

    n = 3 if ctx.thorough else 2
    ctx.sweep("diagnosis", [(o, t, s) for o in (False, True) for t in (10, 3) for s in itertools.product(range(len(KIND)), repeat=n)], diagnose, lambda c: "only misses %s, top %d, %s" % (c[0], c[1], [KIND[o] for o in c[2]]))

    # --- error bins of the diagnosis report: every usable track in exactly one
    EE = [0.0, 0.01, 5.0, 5.01, 20.0, 20.01, 50.0, 50.01, 100.0, 100.01, 400.0, 1500.0]
    BIN = [("<=5", 5.0), ("5-20", 20.0), ("20-50", 50.0), ("50-100", 100.0), (">100", 1e9)]

    def bins(c):
        with scratch() as d:
            p = d / "candidate_diagnosis_1.csv"
            st = ["YES", "NO", "ERROR"]
            rows = [(i, EE[e], st[s]) for i, (e, s) in enumerate(c)]
            write(p, ["track_id", "prev_bpm_error", "gt_in_topn"], rows)
            rc, out = call(AC.main, ["--file", p])
            ensure(rc == 0, "ended with %r" % (rc,))
            use = [r for r in rows if r[2] != "ERROR"]
            want = {}
            for _, e, s in use:
                b = next(nm for nm, hi in BIN if e <= hi)
                k, y = want.get(b, (0, 0))
                want[b] = (k + 1, y + (s == "YES"))
            got = {m.group(1): (int(m.group(2)), float(m.group(3))) for m in re.finditer(r"^(\S+)\s+n=\s*(\d+) GT-in-topN=\s*([\d.]+)%$", out, re.M)}
            ensure(sum(k for k, _ in got.values()) == len(use), "%d of %d tracks are in a bin: %r" % (sum(k for k, _ in got.values()), len(use), got))
            ensure({b: k for b, (k, _) in got.items()} == {b: k for b, (k, _) in want.items()}, "bins %r, expected %r" % (got, want))
            for b, (k, y) in want.items():
                ensure(near(got[b][1], 100.0 * y / k, 0.051), "rate of bin %s: %r" % (b, got[b]))
            return (tuple(sorted(want.items())), bool(use), len(c))

    row = list(itertools.product(range(len(EE)), range(3)))
    ctx.sweep("error_bins", itertools.chain(((r,) for r in row), itertools.product(row, row), itertools.product(row[::2], row[::3], row[::4]) if ctx.thorough else ()), bins, lambda c: repr([(EE[e], ["YES", "NO", "ERROR"][s]) for e, s in c]))

    # --- use of the fallbacks
    FL = ["", "true", "false", "True", "False"]

    def flags(c):
        tol, rows = c
        with scratch() as d:
            p = d / "v.csv"
            E = [0.0, 2.0, 2.5, 30.0]
            tab = [(i, E[(i * 2 + r[0] + r[1]) % 4], FL[r[0]], FL[r[1]], FL[r[2]], FL[r[3]]) for i, r in enumerate(rows)]
            write(p, ["track_id", "bpm_error", "tempogram_multi_res_triggered", "tempogram_multi_res_used", "tempogram_percussive_triggered", "tempogram_percussive_used"], tab)
            rc, out = call(AF.main, ["--file", p, "--tol", tol])
            ensure(rc == 0, "ended with %r" % (rc,))
            on = lambda v: v.lower() == "true"
            N = len(tab)
            mr, pc = out.split("Percussive fallback:")[0], out.split("Percussive fallback:")[1]

            def block(text, trig, used):
                t = [x for x in tab if on(x[trig])]
                u = [x for x in tab if on(x[used])]
                ensure(num(text, r"triggered: (\d+)/%d" % N) == len(t) and num(text, r"used:\s+(\d+)/%d" % N) == len(u), "counts in %r" % text)
                for nm, sub in (("  when used", u), ("  when NOT used", [x for x in tab if not on(x[used])])):
                    m = re.search(re.escape(nm) + r"\s+n=\s*(\d+) acc=\s*(\S+)%\s+mae=\s*(\S+)", text)
                    if not sub and m is None:
                        continue
                    ensure(m and int(m.group(1)) == len(sub), "%s: %r" % (nm, m and m.group(0)))
                    if sub:
                        ensure(near(float(m.group(2)), 100.0 * sum(x[1] <= tol for x in sub) / len(sub), 0.051) and near(float(m.group(3)), sum(x[1] for x in sub) / len(sub), 0.0051), "%s: %r" % (nm, m.group(0)))

            block(mr, 2, 3)
            block(pc, 4, 5)
            both = sum(on(x[3]) and on(x[5]) for x in tab)
            m = re.search(r"Both MR\+Perc used\s+n=\s*(\d+)", out)
            ensure((m is None and both == 0) or (m and int(m.group(1)) == both), "both used: %r" % (m and m.group(0)))
            m = re.search(r"OVERALL\s+n=\s*(\d+) acc=\s*(\S+)%\s+mae=\s*(\S+)", out)
            ensure(m and int(m.group(1)) == N and near(float(m.group(3)), sum(x[1] for x in tab) / N, 0.0051), "overall line")
            return (c, True, N)

    fr = list(itertools.product(range(3), repeat=4)) + [(3, 4, 4, 3), (4, 3, 3, 4)]
    ctx.sweep("fallback_flags", [(t, (r,)) for t in (2.0, 5.0) for r in fr] + [(2.0, (a, b)) for a in fr for b in (fr if ctx.thorough else fr[::7])], flags)

    # --- exemplar report
    BANDS = [("lt60", 60.0), ("60_90", 90.0), ("90_120", 120.0), ("120_150", 150.0), ("150_180", 180.0), ("gt180", 1e9)]
    RB = [("1x", 1.0), ("2x", 2.0), ("1/2x", 0.5), ("3/2x", 1.5), ("2/3x", 2 / 3), ("4/3x", 4 / 3), ("3/4x", 0.75)]

    def bucket(p, g):
        if p <= 0 or g <= 0:
            return {"N/A"}
        b = {nm for nm, f in RB if abs(p / g - f) <= 0.08}
        return b or {"other"}

    gts = [59.99, 60.0, 89.99, 90.0, 119.99, 120.0, 149.99, 150.0, 179.99, 180.0, 181.0, 300.0, 20.0, 450.0]
    preds = [1.0, 2.0, 0.5, 1.5, 1.34, 0.62, 1.01, 1.2, 3.0, 0.0]
    tags = [None, 0.0, 2.0, 2.01, -3.0]

    def exemplars(c):
        top, rows = c
        with scratch() as d:
            p = d / "validation_results_1.csv"
            tab = []
            for i, (g, q, t) in enumerate(rows):
                gt, pr = gts[g], gts[g] * preds[q]
                tab.append((i + 1, gt, pr, abs(pr - gt), "" if tags[t] is None else gt + tags[t], "" if tags[t] is None else abs(tags[t]), "G"))
            write(p, ["track_id", "bpm_gt", "bpm_pred", "bpm_error", "bpm_tag", "bpm_tag_error", "genre"], tab)
            rc, out = call(AE.main, ["--file", p, "--top", top])
            ensure(rc == 0, "ended with %r" % (rc,))
            sec = re.split(r"={80}\n(.*)\n={80}\n", out)
            worst = [(int(m.group(1)), m.group(2)) for m in re.finditer(r"^track=(\d+)\s+band=(\S+)", sec[2], re.M)]
            e = {r[0]: r[3] for r in tab}
            ensure(len(worst) == min(top, len(tab)) and len(set(worst)) == len(worst), "worst list %r" % worst)
            ensure([e[t] for t, _ in worst] == sorted(e.values(), reverse=True)[:top], "worst list %r is not the largest errors in order" % worst)
            for t, b in worst:
                want = next(nm for nm, hi in BANDS if tab[t - 1][1] < hi)
                ensure(b == want, "track %d with tempo %r is in band %s" % (t, tab[t - 1][1], b))
            got = {m.group(1): (int(m.group(2)), dict((x.split("=")[0], int(x.split("=")[1])) for x in m.group(3).split(", "))) for m in re.finditer(r"^(\S+)\s+n=(\d+)\s+\| (.*)$", sec[6], re.M)}
            ensure(sum(k for k, _ in got.values()) == len(tab), "bands hold %r of %d tracks" % (got, len(tab)))
            for nm, (k, by) in got.items():
                sub = [r for r in tab if next(b for b, hi in BANDS if r[1] < hi) == nm]
                ensure(len(sub) == k and sum(by.values()) == k, "band %s: %r" % (nm, got[nm]))
                for b, cnt in by.items():
                    lo = sum(bucket(r[2], r[1]) == {b} for r in sub)
                    hi = sum(b in bucket(r[2], r[1]) for r in sub)
                    ensure(lo <= cnt <= hi, "band %s bucket %s: %d, expected %d..%d" % (nm, b, cnt, lo, hi))
            tb = [r[0] for r in tab if r[5] != "" and r[5] <= 2.0 and r[3] > 2.0]
            sb = [r[0] for r in tab if r[5] != "" and r[5] > 2.0 and r[3] <= 2.0]
            ensure(num(out, r"\n  TAG within \D*2, Stratum not: (\d+)") == len(tb) and num(out, r"\n  Stratum within \D*2, TAG not: (\d+)") == len(sb), "wins: expected %d and %d" % (len(tb), len(sb)))
            for k, lst in ((8, tb), (10, sb)):
                ids = [int(x) for x in re.findall(r"^track=(\d+)", sec[k], re.M)]
                ensure(len(ids) == min(top, len(lst)) and len(set(ids)) == len(ids) and set(ids) <= set(lst), "listed %r of %r" % (ids, lst))
                col = 3 if k == 8 else 5
                ensure([tab[t - 1][col] for t in ids] == sorted((tab[t - 1][col] for t in lst), reverse=True)[:top], "%s lists %r, not the largest errors in order" % (sec[k - 1], ids))
            # the lists per band
            for part in re.split(r"^\[", sec[4], flags=re.M)[1:]:
                nm = part.split("]")[0]
                sub = [r for r in tab if next(b for b, hi in BANDS if r[1] < hi) == nm]
                ids = [int(x) for x in re.findall(r"^  track=(\d+)", part, re.M)]
                ensure(num(part, r"n=(\d+)") == len(sub) and [tab[t - 1][3] for t in ids] == sorted((r[3] for r in sub), reverse=True)[:min(10, top)] and set(ids) <= {r[0] for r in sub} and len(set(ids)) == len(ids), "band %s lists %r" % (nm, ids))
            return (tuple(worst), True, len(tab))

    one = list(itertools.product(range(len(gts)), range(len(preds)), range(len(tags))))
    st = 1 if ctx.thorough else 3
    ctx.sweep("exemplars", itertools.chain(((25, (r,)) for r in one[::st]), ((1, (a, b)) for a in one[::7 * st] for b in one[::53]), ((t, tuple(one[(k * s) % len(one)] for k in range(12))) for t in (1, 3, 25) for s in range(1, 40))), exemplars)

    # --- parameter sweeps: every combination once, ordered by accuracy and then error
    def board(c):
        grid, accs, rerun, topk = c
        with scratch() as d:
            calls = []
            b = d / "bin"
            b.write_text("")

            def fake(cmd, *_a, **_k):
                cmd = [str(x) for x in cmd]
                k = len(calls)
                ensure("validation.tools.run_validation" in cmd and cmd[cmd.index("--binary") + 1] == str(b), "started %r" % cmd)
                calls.append((int(cmd[cmd.index("--max-tracks") + 1]) if "--max-tracks" in cmd else None, cmd))
                p = d / ("r%d.csv" % k)
                write(p, ["bpm_error"], [(e,) for e in accs[k % len(accs)]])
                return subprocess.CompletedProcess(cmd, 0, "Tracks tested: 2\n\nResults saved to: %s\n\nTarget accuracy:\n" % p, "")

            old = subprocess.run
            subprocess.run = fake
            try:
                argv = ["--binary", b, "--max-tracks", 7, "--top-k", topk] + (["--rerun-full"] if rerun else [])
                for o, v in zip(("support-thresholds", "consensus-bonuses", "mel", "mel-n-mels", "mel-max-filter-bins", "mel-fmax-hz"), grid):
                    argv += ["--" + o, ",".join(v)]
                rc, out = call(SW.main, argv)
            finally:
                subprocess.run = old
            ensure(rc == 0, "ended with %r" % (rc,))
            total = 1
            for v in grid:
                total *= len(v)
            sub = [x for x in calls if x[0] == 7]

            def read(x):
                g = lambda o: float(x[x.index("--" + o) + 1])
                return (g("band-support-threshold"), g("band-consensus-bonus"), "off" if "--no-tempogram-mel-novelty" in x else "on", g("mel-n-mels"), g("mel-max-filter-bins"), g("mel-fmax-hz"))

            want = sorted((float(a), float(q), m, float(nm), float(k), float(f)) for a, q, m, nm, k, f in itertools.product(*grid))
            ensure(sorted(read(x[1]) for x in sub) == want, "runs %r" % [read(x[1]) for x in sub])
            met = []
            for k in range(total):
                es = accs[k % len(accs)]
                met.append((-(sum(e <= 2.0 for e in es) / len(es)), sum(es) / len(es), k))
            order = sorted(met)
            lead = re.findall(r"^\s*(\d+)\. acc2=([\d.]+)% acc5=([\d.]+)% mae=([\d.]+) .*\(r(\d+)\.csv\)$", out, re.M)
            ensure(len(lead) == min(20, total), "%d lines on the leaderboard" % len(lead))
            for (pos, a2, a5, mae, k), w in zip(lead, order):
                es = accs[int(k) % len(accs)]
                ensure(met[int(k)][:2] == w[:2], "place %s is run %s" % (pos, k))
                ensure(near(float(a2), -100 * w[0], 0.051) and near(float(mae), w[1], 0.0051) and near(float(a5), 100.0 * sum(e <= 5.0 for e in es) / len(es), 0.051), "scores of place %s" % pos)
            full = [x for x in calls if x[0] is None]
            if rerun:
                ensure(len(full) == min(max(1, topk), total), "%d full runs" % len(full))
                ensure([read(x[1]) for x in full] == [read(sub[k][1]) for _, _, k in (order if not lead else [(0, 0, int(x[4])) for x in lead] + order[len(lead):])[:len(full)]], "the full runs are not the best configurations")
            else:
                ensure(not full, "full runs without being asked")
            return (tuple(k for *_, k in lead), True, total)

    sc = [[0.0, 2.0], [2.5, 2.5], [0.0, 30.0], [1.0, 1.0], [2.0, 5.0], [5.5, 0.5]]
    gr = [[["0.2"], ["0.08"], ["on"], ["24"], ["1"], ["6000"]],
          [["0.2", "0.3"], ["0.08"], ["on", "off"], ["24"], ["1"], ["6000"]],
          [["0.2"], ["0.08", "0.1"], ["off"], ["24", "40"], ["2"], ["6000", "8000"]],
          [["0.2", "0.3"], ["0.1"], ["on", "off"], ["24"], ["1", "2", "3"], ["6000", "9000"]]]
    perms = list(itertools.permutations(range(6), 3)) + ([] if not ctx.thorough else list(itertools.permutations(range(6), 4)))
    def gr0(w):
        return [v[:2] for v in w]

    big = [[0.0] * k + [9.0] * (31 - k) for k in (15, 16, 14, 17)] + [[0.0] * 16 + [8.0] * 15]
    wide = [["0.2", "0.201", "0.202"], ["0.08", "0.081"], ["on", "off"], ["24"], ["1", "2"], ["6000", "6000.5"]]
    ctx.sweep("leaderboard_wide", [(g, [big[i] for i in p], True, k) for g in (gr0(wide), wide) for p in itertools.permutations(range(5), 3) for k in (21, 30, 100)], board)
    ctx.sweep("leaderboard", [(g, [sc[i] for i in p], r, k) for g in gr for p in perms for r, k in ((False, 5), (True, 2), (True, 0))], board)

    def metrics(c):
        with scratch() as d:
            p = d / "m.csv"
            write(p, ["track_id", "bpm_error"], list(enumerate(c)))
            m = SW.compute_metrics(p)
            k = len(c)
            if not k:
                ensure(m.n == 0 and m.acc2 == 0.0, "metrics of no tracks %r" % (m,))
            else:
                f = lambda t: sum(e <= t for e in c) / k
                ensure(m.n == k and near(m.mae, sum(c) / k, 1e-9) and (m.acc2, m.acc5, m.acc10) == (f(2.0), f(5.0), f(10.0)), "metrics %r" % (m,))
            return (c, bool(k), k)

    ctx.sweep("metrics", (s for k in range(4) for s in itertools.product([0.0, 2.0, 2.01, 5.0, 5.01, 10.0, 10.01, 99.0], repeat=k)), metrics)
