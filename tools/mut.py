"""Development aid: apply textual mutants to a scratch copy and run checks on it.
usage: mut.py SPEC.py   where SPEC.py defines MUTS = [(name, prop(s), expect 'V'|'Q', file, old, new), ...] (old/new may be lists of pairs)
"""
import os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:] 
from concurrent.futures import ThreadPoolExecutor
def run(m):
    name, props, expect, edits = m[0], m[1], m[2], m[3:]
    if len(edits) == 3 and isinstance(edits[0], str): edits = [edits]
    else: edits = edits[0]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/mplang", d + "/mplang", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1: return f"BADSPEC {name}: text not found in {f}"
            s = s.replace(old, new, 1)
            str(p).endswith(".py") and compile(s, p, "exec")
            open(p, "w").write(s)
        out = []
        for pr in props.split(","):
            ed = d + "/ev"; os.makedirs(ed, exist_ok=True)
            r = subprocess.run([sys.executable, HERE + "/check.py", pr], env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": ed}, capture_output=True, text=True)
            got = {0: "Q", 1: "V"}.get(r.returncode, "B")
            tag = "ok  " if got == expect else "MISS" if expect == "V" else "FALSE"
            lines = [l for l in r.stdout.splitlines() if "[" + pr in l or "BROKEN" in l]
            out.append(f"{tag} {name} {pr} -> {got} " + (lines[0][:230] if lines else r.stderr[-200:] if got == "B" else ""))
        return "\n".join(out)
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(run, [m for m in spec if not only or m[0] in only]):
        print(r, flush=True)
