"""Writes DESIGN.md from tools/design.tmpl.md, known_findings.json, seeded/ and tools/catches.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
findings = json.load(open(ROOT / "known_findings.json"))["findings"]
catches = json.load(open(ROOT / "tools/catches.json"))
text = (ROOT / "tools/design.tmpl.md").read_text()
fixes = []
for f in findings:
    if f["status"] == "fixed" and f["what"] not in fixes:
        fixes.append(f["what"])
known = [f"{f['property']} ({f['id']}): {f['what']}" for f in findings if f["status"] == "known"]
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    if (d / "meta.json").exists():
        m = json.load(open(d / "meta.json"))
        rows.append(f"| {d.name} | {m['what_it_breaks']} | {m['needs']} | {catches.get(d.name, 'not caught')} |")
text = text.replace("@@FIXES@@", "\n".join("* `" + f + "`" for f in fixes))
text = text.replace("@@KNOWN@@", "\n".join("* " + k for k in known))
text = text.replace("@@SEEDED@@", "\n".join(rows))
(ROOT / "DESIGN.md").write_text(text)
