"""Assemble DESIGN.md: prose of design_notes.md, rules and counts of the last evidence, seeded changes.

Run after the checks: python3 tools/gen_design.py (DESIGN.md is committed; no check reads it)."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
notes = (V / "tools" / "design_notes.md").read_text()
head, *secs = re.split(r"^@@ (\w+)\n", notes, flags=re.M)
sec = dict(zip(secs[::2], secs[1::2]))
kf = (V / "KNOWN_FINDINGS.txt").read_text().splitlines()
seeds = {}
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    seeds.setdefault(d["property"], []).append((m.parent.name, d))
out = [head.rstrip(), ""]
for p in props:
    i = p["id"]
    if i not in sec:
        continue
    out += [f"## {i} {p['title']}", "", sec[i].rstrip(), ""]
    ev = V / "evidence" / f"{i}.json"
    if ev.exists():
        e = json.loads(ev.read_text())
        c = e["coverage"]
        out += [f"Rules ({c['obligations']} obligations over {c['functions_analysed']} functions on the pinned tree, about {e['wall_s']:.0f} s):" if e["wall_s"] >= 1 else
                f"Rules ({c['obligations']} obligations over {c['functions_analysed']} functions on the pinned tree, about 1 s):", ""]
        out += [f"* `{r}` ({v['obligations']}): {v['text']}" for r, v in c["rules"].items()]
        out.append("")
    f = [x for x in kf if f"property={i} " in x]
    if f:
        k = [x for x in f if x.startswith("known:")]
        out.append(f"Genuine defects found: {len(f) - len(k)} repaired, {len(k)} recorded (KNOWN_FINDINGS.txt).")
        out.append("")
    if i in seeds:
        out.append("Seeded changes (all caught by this check): " + "; ".join(f"`{n}` (needs {str(d['needs']).strip().rstrip('.')})" for n, d in seeds[i]) + ".")
        out.append("")
out.append(sec.get("END", "").rstrip())
(V / "DESIGN.md").write_text("\n".join(out).rstrip() + "\n")
