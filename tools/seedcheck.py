#!/usr/bin/env python3
"""seedcheck.py [id ...]: confirms planted bugs in private copies of /repo and runs the check of their property.
Each runs in its own mount namespace: /repo and /verif are copies there."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$W/repo" /repo || exit 99
mount --bind "$W/verif" /verif || exit 99
cd /repo
if [ "$MODE" = full ]; then
bash /opt/vp/build.sh >$W/build0 2>&1 || { echo "BUILD0 FAIL"; exit 1; }
bash $W/seed/demo.sh >$W/demo0 2>&1; echo "demo clean: $?"
fi
git apply --whitespace=nowarn $W/seed/patch.diff || { echo "APPLY FAIL"; exit 1; }
if [ "$MODE" = full ]; then
bash /opt/vp/build.sh >$W/build1 2>&1 || { echo "BUILD1 FAIL"; tail -5 $W/build1; exit 1; }
bash $W/seed/demo.sh >$W/demo1 2>&1; echo "demo patched: $?"
bash /opt/vp/test.sh $W/o.json >$W/t 2>&1; tail -1 $W/t
fi
for p in $PROPS; do
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick > $W/c 2>&1; echo "check $p: $?"; head -c 700 $W/c; echo
done
'''


def one(sid, mode, props):
    src = os.path.join(V, "seeded", sid)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.makedirs(w + "/verif")
        subprocess.run("git -C %s ls-files -co --exclude-standard | grep -v ^seeded/ | tar -C %s -cf - -T - | tar -C %s -xf -" % (V, V, w + "/verif"), shell=True, check=True)
        os.makedirs(w + "/verif/evidence", exist_ok=True)
        shutil.copytree(src, w + "/seed")
        prop = json.load(open(os.path.join(src, "meta.json")))["property"]
        e = dict(os.environ, W=w, MODE=mode, PROPS=" ".join(props or [prop]))
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=e, capture_output=True, text=True)
        return "=== %s (%s)\n%s%s" % (sid, prop, p.stdout, p.stderr[-500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    mode = "full"
    props = None
    jobs = 2
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-c":
            mode = "check"
        elif o == "-p":
            props = a.pop(0).split(",")
        elif o == "-j":
            jobs = int(a.pop(0))
    ids = a or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda i: one(i, mode, props), ids):
            print(r, flush=True)
