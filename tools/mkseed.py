"""Development aid: build /verif/seeded/<id>/ from a spec and confirm it.
usage: mkseed.py SPEC.py [ids...]; SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=python source)].
Applies the edits to /repo, makes the patch, runs the stable tests and the demo, and undoes the edits."""
import json, os, runpy, subprocess, sys
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export PYTHONPATH=/opt/vp/plugin:$REPO PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONHASHSEED=0
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export MPLANG_DATA_ROOT=$T/mpl
cd "$T" && timeout 250 /opt/venv/bin/python "$D/demo.py" "$T"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
notest = "--notest" in sys.argv
ids = [a for a in sys.argv[2:] if not a.startswith("-")]
assert not sh("git -C /repo status --porcelain").stdout.strip()
base = {k for k in json.load(open("/opt/vp/BASELINE.json"))["stable_pass"]} if "stable_pass" in json.load(open("/opt/vp/BASELINE.json")) else None
for s in seeds:
    if ids and s["id"] not in ids: continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write("import vp_without_spu  # noqa\n" + s["demo"].lstrip())
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    try:
        for f, old, new in s["edits"]:
            p = f"{R}/{f}"; t = open(p).read()
            assert t.count(old) >= 1, (s["id"], f, old)
            open(p, "w").write(t.replace(old, new, 1))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        tests = ""
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/t/o.json"); tests = sh("python3 /tmp/t/base.py").stdout.split("failed")[0].strip()[:300]
        c = sh(f"python3 {V}/check.py {s['property']}", env={**os.environ, "VERIF_EVIDENCE": "/tmp/t/ev"})
        print(f"{s['id']}: demo base={r0.returncode} patched={r1.returncode} tests[{tests}] check={c.returncode} {[l for l in c.stdout.splitlines() if '['+s['property'] in l][:1]}")
        if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
        print("   patched says:", (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
    finally:
        sh("git -C /repo checkout -- .")
