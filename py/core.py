"""Explorer for the Python validation toolkit: exhaustive sweeps over finite spaces executed on the real code."""
import hashlib, json, os, signal, sys, time, traceback

sys.dont_write_bytecode = True


class Bad(Exception):
    pass


def ensure(c, msg):
    if not c:
        raise Bad(msg)


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, pid, tier, root):
        self.id, self.tier, self.root = pid, tier, root
        self.start = time.time()
        self.cases = self.steps = self.nontrivial = 0
        self.outcomes = set()
        self.samples, self.sweeps, self.viol, self.assumptions = [], {}, [], []
        self.rule_text = ""
        self.known, self.hit = [], set()
        only = os.environ.get("MC_CASE")
        self.only = (only.rsplit(":", 1)[0], int(only.rsplit(":", 1)[1])) if only else None
        try:
            for l in open(os.path.join(root, "known_findings.txt"), encoding="utf-8"):
                p = "finding: property=%s case=" % pid
                if l.startswith(p) and " :: " in l:
                    c, w = l[len(p):].strip().split(" :: ", 1)
                    self.known.append((c, w))
        except OSError:
            pass

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rule(self, t):
        self.rule_text = t

    def assume(self, t):
        self.assumptions.append(t)

    def sweep(self, name, cases, body, describe=repr, limit=15):
        """cases: sequence; body(case) -> (outcome, nontrivial, steps) or None; raises Bad on violation"""
        if self.only and self.only[0] != name:
            return
        t0 = time.time()
        n = 0

        def alarm(*_):
            raise Hang()

        signal.signal(signal.SIGALRM, alarm)
        for i, c in enumerate(cases):
            n += 1
            if self.only and self.only[1] != i:
                continue
            if len(self.viol) >= 5:
                break
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                r = body(c)
                o, nt, st = r if r is not None else (None, True, 1)
                self.outcomes.add(hashlib.blake2b(repr((name, o)).encode("utf-8", "replace"), digest_size=8).digest())
                self.nontrivial += bool(nt)
                self.steps += st
            except Hang:
                self.violation(name, i, describe(c), "no answer within %d s (hang)" % limit)
            except Bad as e:
                self.violation(name, i, describe(c), str(e))
            except SystemExit as e:
                self.violation(name, i, describe(c), "exited with %r" % (e.code,))
            except Exception:
                self.violation(name, i, describe(c), "raised " + traceback.format_exc(limit=-2).strip().replace("\n", " | "))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.cases += 1
            if i == 0 or (i & (i - 1)) == 0 and len(self.samples) < 20:
                self.samples.append("%s:%d %s" % (name, i, describe(c)[:200]))
        self.sweeps[name] = n
        if os.environ.get("MC_VERBOSE"):
            print("[%s] sweep %-24s n=%-8d %.2fs" % (self.id, name, n, time.time() - t0), file=sys.stderr)

    def violation(self, name, i, desc, msg):
        key = "%s/%s" % (name, desc)
        for k, (c, _) in enumerate(self.known):
            if c == key:
                self.hit.add(k)
                return
        self.viol.append(("%s:%d" % (name, i), desc, msg))

    def finish(self):
        wall = time.time() - self.start
        if not self.only:
            os.makedirs(os.path.join(self.root, "evidence"), exist_ok=True)
            with open(os.path.join(self.root, "evidence", self.id + ".json"), "w") as f:
                json.dump({
                    "property": self.id, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                    "level": "model_checking",
                    "coverage": {
                        "states": len(self.outcomes), "transitions": self.steps,
                        "traces_validated_against_impl": self.cases, "distinct_nontrivial": self.nontrivial,
                        "rule": self.rule_text, "exhaustive": not self.viol, "sweeps": self.sweeps,
                        "samples": self.samples},
                    "assumptions": self.assumptions, "wall_s": round(wall, 3), "violations": len(self.viol)}, f, indent=1)
        print("%s %s: cases=%d steps=%d distinct_outcomes=%d nontrivial=%d wall=%.1fs" % (
            self.id, self.tier, self.cases, self.steps, len(self.outcomes), self.nontrivial, wall))
        for k in sorted(self.hit):
            print("KNOWN-FINDING: property=%s %s" % (self.id, self.known[k][1]))
        if not self.viol:
            return 0
        os.makedirs(os.path.join(self.root, "replays"), exist_ok=True)
        path = os.path.join(self.root, "replays", self.id + ".txt")
        with open(path, "w", encoding="utf-8", errors="replace") as f:
            for c, d, m in self.viol:
                f.write("MC_CASE=%s bash %s/run.sh %s %s\n  %s\n  %s\n" % (c, self.root, self.id, self.tier, d, m))
        for c, d, m in self.viol:
            print("  case %s: %s\n  %s" % (c, d[:300], m[:600]))
        print("VIOLATION property=%s replay=%s" % (self.id, path))
        return 1
