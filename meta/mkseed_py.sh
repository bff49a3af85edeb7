#!/bin/bash
# mkseed_py.sh <id> <property> <needs> <what>: as mkseed.sh, with a Python demonstration /tmp/seed/demo.py
set -e
ID=$1; W=/tmp/seed/repo; D=/verif/seeded/$ID
cd $W
git diff > /tmp/seed/patch.diff
[ -s /tmp/seed/patch.diff ] || { echo "no diff"; exit 1; }
mkdir -p $D; cp /tmp/seed/patch.diff $D/patch.diff; cp /tmp/seed/demo.py $D/demo.py
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# run with cwd = the repository; exit 0: behaviour as promised
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 python3 "$here/demo.py" "$PWD" "$t"
EOS
python3 - "$2" "$3" "$4" > $D/meta.json <<'EOP'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
EOP
bash $D/demo.sh >/tmp/seed/with.log 2>&1 && { echo "demo PASSES with patch"; exit 1; } || rc=$?
echo "with patch: rc=$rc $(tail -1 /tmp/seed/with.log)"
git stash -q
bash $D/demo.sh >/tmp/seed/without.log 2>&1 || { echo "demo FAILS without patch"; cat /tmp/seed/without.log; git stash pop -q; exit 1; }
git stash pop -q
git checkout -q -- .
echo "seed $ID ok"
