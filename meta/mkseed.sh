#!/bin/bash
# mkseed.sh <id> <property> <needs> <what>: takes the uncommitted diff of the scratch copy /tmp/seed/repo and
# the demo program /tmp/seed/demo.rs, validates them, and stores the planted bug in /verif/seeded/<id>.
set -e
ID=$1; W=/tmp/seed/repo; D=/verif/seeded/$ID
cd $W
git diff > /tmp/seed/patch.diff
[ -s /tmp/seed/patch.diff ] || { echo "no diff"; exit 1; }
mkdir -p $D; cp /tmp/seed/patch.diff $D/patch.diff; cp /tmp/seed/demo.rs $D/demo.rs
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# run with cwd = the repository; exit 0: behaviour as promised
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
printf '[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nstratum-dsp={path="%s"}\nlog="0.4"\nserde_json="1.0"\n[profile.dev]\nopt-level=1\n[workspace]\n' "$repo" > "$t/Cargo.toml"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline -q 2>"$t/err" || { cat "$t/err" >&2; exit 99; }
timeout 120 "$t/target/debug/demo"
EOS
python3 - "$2" "$3" "$4" > $D/meta.json <<'EOP'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOP
(bash $D/demo.sh) >/tmp/seed/with.log 2>&1 && { echo "demo PASSES with patch"; exit 1; } || rc=$?
[ "$rc" = 99 ] && { cat /tmp/seed/with.log; exit 1; }
echo "with patch: rc=$rc $(tail -1 /tmp/seed/with.log)"
git stash -q
(bash $D/demo.sh) >/tmp/seed/without.log 2>&1 || { echo "demo FAILS without patch"; cat /tmp/seed/without.log; git stash pop -q; exit 1; }
git stash pop -q
# the tests
(. /opt/vp/env.sh; cd $W; export CARGO_TARGET_DIR=/tmp/seed/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 1 2>&1 | grep -E '^test result|FAILED|failed' > /tmp/seed/tests.log) || true
if grep -qE 'FAILED|failed;' /tmp/seed/tests.log && grep -qE ' [1-9][0-9]* failed' /tmp/seed/tests.log; then echo "TESTS FAIL"; cat /tmp/seed/tests.log; exit 1; fi
echo "seed $ID ok: $(grep -c 'test result: ok' /tmp/seed/tests.log) suites ok"
git checkout -q -- .
