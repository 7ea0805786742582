#!/bin/bash
# tools/seedtest.sh DIR [PROPERTY...]: confirms a planted bug (a folder with
# patch.diff, demo.sh, meta.json) on a copy of /repo that is mounted over /repo
# in a mount namespace of its own, and runs the quick checks of the properties
# (default: the one in meta.json) against it.
set -u
here=$(realpath "$(dirname "$0")/..")
dir=$(realpath "$1"); shift
id=$(basename "$dir")
props=${*:-$(python3 -c "import json,sys; print(json.load(open('$dir/meta.json'))['property'])")}
work=$(mktemp -d /tmp/seedtest-XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -a /repo "$work/repo"
mkdir "$work/verif" "$work/demo"
cp -a "$here"/{mc,run.py,properties.jsonl,MANIFEST.json,KNOWN_FINDINGS.txt} "$work/verif/"
cp -a "$dir/." "$work/demo/"
rm -f "$work/demo/"*.diff "$work/demo/meta.json"
export work dir id props
unshare -m bash -c '
say() { echo "$id: $*"; }
mount --bind "$work/repo" /repo || exit 9
cd /repo
git checkout -q -- .
bash /opt/vp/build.sh > "$work/build.log" 2>&1 || { say "BUILD FAILS UNPATCHED"; exit 1; }
timeout 300 bash "$work/demo/demo.sh" > "$work/demo0.log" 2>&1 || { say "DEMO FAILS UNPATCHED"; tail -5 "$work/demo0.log"; exit 1; }
git apply --check "$dir/patch.diff" && git apply "$dir/patch.diff" || { say "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > "$work/build.log" 2>&1 || { say "DOES NOT BUILD"; tail -5 "$work/build.log"; exit 1; }
if [ -z "${NOTEST:-}" ]; then
bash /opt/vp/test.sh "$work/t.json" > "$work/test.log" 2>&1
python3 - <<P || exit 1
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("$work/t.json"))
f = lambda x: set(x.get("passed") or x.get("stable") or x.get("tests") or x) 
bad = f(b) - set(t["passed"])
if bad: print("$id: TESTS FAIL", sorted(bad)[:5]); sys.exit(1)
P
fi
timeout 300 bash "$work/demo/demo.sh" > "$work/demo1.log" 2>&1
r=$?
[ $r -ne 0 ] || { say "DEMO PASSES WITH THE PATCH"; exit 1; }
say "valid (demo exits $r: $(tail -1 "$work/demo1.log" | cut -c1-150))"
[ -n "${NOCHECK:-}" ] && exit 0
for p in $props; do
  s=$(date +%s)
  (cd "$work/verif" && python3 run.py $p > "$work/check.log" 2>&1); r=$?
  say "$p exit $r in $(($(date +%s) - s)) s: $(grep -v "^VIOLATION\|^KNOWN" "$work/check.log" | head -3 | cut -c1-300 | tr "\n" " ")"
done
'
