"""Create and confirm planted bugs (development tool; no check uses it).
new(id, prop, edits=[(file, old, new)], demo=C++ source, needs=, breaks=)
confirm(id, tier): in a private mount namespace with a copy of /repo (and of /verif),
apply, build, run the stable tests, run the demo with and without, run the property's check."""
import json, os, subprocess, sys, shutil, tempfile, re
V = "/verif"
DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
$CXX -std=c++17 -O1 -stdlib=libc++ -w -include /opt/vp/support/scalar_prefix.h -I. "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
"""

def new(id, prop, edits, demo, needs, breaks):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk", dir="/tmp/scr")
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w + "/r"], check=True)
    for f, old, nw in edits:
        p = f"{w}/r/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, nw))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

SCRIPT = r"""
set -u
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
git apply $P || { echo APPLY-FAILED; exit; }
bash /opt/vp/test.sh $W/o.json > $W/t.log 2>&1
python3 - <<EOF
import json; b=json.load(open("$W/o.json")); s=json.load(open("/opt/vp/BASELINE.json"))
st=s.get("stable",s.get("passed",s)) if isinstance(s,dict) else s
print("TESTS", "ok" if len(b["passed"])>=23 and not b["failed"] else ("BROKEN", b["failed"]))
EOF
bash $D/demo.sh >$W/d1.log 2>&1; echo DEMO-PATCHED $?
if [ -n "$PID" ]; then cd /verif; VERIF_SEED=1 VERIF_TIER=$TIER timeout 900 python3 bin/check.py $PID $TIER > $W/c.log 2>&1; echo CHECK $?; grep -m3 VIOLATION $W/c.log; fi
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >$W/d0.log 2>&1; echo DEMO-CLEAN $?
head -c 300 $W/d1.log
"""

def confirm(id, tier="quick", check=True):
    d = f"{V}/seeded/{id}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp/scr")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    subprocess.run(["cp", "-a", "/verif", w + "/verif"], check=True)
    shutil.copytree(d, w + "/dd")
    env = dict(os.environ, W=w, P=w + "/dd/patch.diff", D=w + "/dd", PID=meta["property"] if check else "", TIER=tier)
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT], env=env, capture_output=True, text=True)
    shutil.rmtree(w)
    out = (r.stdout + r.stderr)[-1500:]
    return f"== {id} [{meta['property']}]\n{out}"

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    with ThreadPoolExecutor(int(os.environ.get("J","3"))) as ex:
        for r in ex.map(confirm, ids):
            print(r, flush=True)
