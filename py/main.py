import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from core import Ctx
import diag, keys, tags, runs

CHECKS = [("P27", keys.p27), ("P28", tags.p28), ("P29", runs.p29), ("P30", diag.p30)]

if __name__ == "__main__":
    pid, tier, root = sys.argv[1:4]
    repo = os.environ.get("MC_REPO", "/repo")
    sys.path.insert(0, repo)
    for i, f in CHECKS:
        if i == pid:
            ctx = Ctx(pid, tier, root)
            f(ctx)
            sys.exit(ctx.finish())
    sys.exit(2)
