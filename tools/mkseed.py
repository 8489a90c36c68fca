"""Create and confirm planted bugs.  usage: mkseed.py SPEC.py [ids...]
SPEC.py defines SEEDS: id -> dict(property, needs, what, edits=[(file, old, new)], demo=python source).
Confirms in a scratch copy of /repo: patch builds, stable tests pass, demo 0 without / nonzero with."""
import json, os, shutil, subprocess, sys, runpy, tempfile, textwrap
SPEC = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:]
BASE = json.load(open("/opt/vp/BASELINE.json"))
stable = set(BASE.get("stable") or BASE["passed"])
SC = "/tmp/seedscratch"
PY = "/opt/venv/bin/python"
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for sid, s in SPEC.items():
    if want and sid not in want: continue
    d = f"/verif/seeded/{sid}"
    if not want and os.path.exists(d + "/meta.json"): continue
    shutil.rmtree(SC, ignore_errors=True)
    shutil.copytree("/repo", SC, symlinks=True)
    for f, old, new in s["edits"]:
        p = f"{SC}/src/valor_lite/{f}"
        t = open(p).read()
        assert t.count(old) == s.get("n", 1), (sid, f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "-C", SC, "diff", "--", "src"]).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(textwrap.dedent(s["demo"]).lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exits 0 when the property holds for this input, nonzero otherwise\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    a = run([d + "/demo.sh"], cwd="/repo", timeout=300)
    b = run([d + "/demo.sh"], cwd=SC, timeout=300)
    ok = a.returncode == 0 and b.returncode != 0
    print(sid, "demo clean", a.returncode, "mutant", b.returncode, "OK" if ok else "BAD")
    if not ok: print(a.stdout[-600:], "\n---\n", b.stdout[-600:]); continue
    print("    mutant says:", b.stdout.strip().splitlines()[-1][:160])
    if s.get("skip_tests"): continue
    # the stable tests on the scratch copy
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/env.sh", "/tmp/w/env_s.sh").replace("cd /repo", f"cd {SC}").replace("=/repo/src", f"={SC}/src")
    os.makedirs("/tmp/w", exist_ok=True)
    open("/tmp/w/env_s.sh", "w").write(open("/opt/vp/env.sh").read().replace("/repo/src", f"{SC}/src"))
    open("/tmp/w/test_s.sh", "w").write(t)
    run(["bash", "/tmp/w/test_s.sh", "/tmp/w/seed_out.json"], cwd=SC)
    got = set(json.load(open("/tmp/w/seed_out.json"))["passed"])
    miss = sorted(stable - got)
    print("    stable tests:", "all pass" if not miss else f"{len(miss)} FAIL e.g. {miss[:2]}")
    if miss: shutil.rmtree(d)
shutil.rmtree(SC, ignore_errors=True)
