"""Writes MANIFEST.json: one check per contracts/cNN_*.py file; the other properties are not_applicable."""
import json, pathlib, re
ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
have = {p.stem[:3].upper(): p for p in (ROOT / "contracts").glob("c[0-9][0-9]_*.py")}
NA = json.loads((ROOT / "tools" / "not_applicable.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        src = have[i].read_text()
        lvl = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        note = re.search(r'^NOTE = \(?((?:\s*"[^"\n]*"\n?)+)\)?', src, re.M)
        txt = "".join(re.findall(r'"([^"\n]*)"', note.group(1))) if note else "see DESIGN.md"
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": "contract-based deductive verification (VCs generated from the real source, z3/cvc5); "
                                    "same contracts run on the real code",
                       "level": lvl.group(1) if lvl else "proof", "level_note": txt})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract built yet")})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: functions are extracted from its source on every run."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print([c["property"] for c in checks], [n["property"] for n in na])
