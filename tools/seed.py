#!/usr/bin/env python3
"""Confirm a planted bug and run checks against it, in a private mount namespace where a scratch copy of the repository
is shown as /repo and a scratch copy of this directory as /verif (the real ones stay untouched).

  seed.py <id> [check ...]     e.g. seed.py sieve-hand P04 P07;  --no-tests skips the repository's own tests
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif || exit 9
cd /repo
demo() { (cd /repo && timeout 300 bash "$1/demo/demo.sh" >"$1/demo.out" 2>&1); echo $?; }
bash /opt/vp/build.sh >"$1/b.out" 2>&1 || { echo "RESULT build-clean-failed"; exit; }
echo "RESULT demo-clean $(demo $1)"
tail -3 "$1/demo.out"
git -C /repo apply "$1/patch.diff" || { echo "RESULT patch-failed"; exit; }
bash /opt/vp/build.sh >"$1/b.out" 2>&1 || { echo "RESULT build-failed"; tail -5 "$1/b.out"; exit; }
echo "RESULT demo-patched $(demo $1)"
tail -3 "$1/demo.out"
if [ "$2" = 1 ]; then
bash /opt/vp/test.sh "$1/t.json" >"$1/t.out" 2>&1
python3 - "$1/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
p=set(t['passed']); s=[x if isinstance(x,str) else x.get('id') for x in b['stable']]
print('RESULT tests-missing',[x for x in s if x not in p])
P
fi
d=$1
shift 2
cd /verif
for c in "$@"; do
  t0=$(date +%s)
  timeout 900 python3 run.py $c --tier quick >"$d/c.out" 2>&1; rc=$?
  echo "RESULT check $c rc=$rc $(( $(date +%s) - t0 ))s"
  grep -A1 -E "VIOLATION|ERROR" "$d/c.out" | head -${SEED_LINES:-6}
done
'''
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sid, checks = args[0], args[1:]
    src = os.path.join(HERE, "seeded", sid)
    if not checks:
        checks = [json.load(open(os.path.join(src, "meta.json")))["property"]]
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        os.makedirs(d + "/demo")
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(src, f), d + "/demo/")
        shutil.copy(os.path.join(src, "patch.diff"), d + "/patch.diff")
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        os.makedirs(d + "/verif")
        subprocess.check_call("cp -a run.py vlib harness tools known-findings.txt properties.jsonl %s/verif/" % d, shell=True, cwd=HERE)
        if os.path.isdir(HERE + "/build") and "--fresh" not in sys.argv:
            subprocess.check_call(["cp", "-a", HERE + "/build", d + "/verif/build"])
        subprocess.call(["unshare", "-Urm", "bash", "-c", INNER, "x", d, "0" if "--no-tests" in sys.argv else "1"] + checks)
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
