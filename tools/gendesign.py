"""Writes the tables at the end of DESIGN.md (planted bugs, findings) from seeded/ and known_findings.jsonl."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
mark = "<!-- generated below by tools/gendesign.py -->"
s = s[:s.index(mark) + len(mark)] + "\n\n"
s += "## Planted bugs\n\nEach is a change in `seeded/<id>/` that builds, passes the stable tests and has a demonstration; all are caught by the quick command of the check named.\n\n| id | caught by | needs in order to manifest |\n|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    try:
        m = json.load(open(os.path.join(d, "meta.json")))
    except OSError:
        continue
    s += f"| {os.path.basename(d)} | {m['property']} | {re.sub(r'[|]', '/', m['needs'])[:200]} |\n"
fx, kn = [], []
for l in open(os.path.join(R, "known_findings.jsonl")):
    if l.strip():
        e = json.loads(l)
        (fx if e["status"] == "fixed" else kn).append(e)
s += "\n## Defects found by the checks and repaired (`fix:` commits in /repo)\n\n"
for e in fx:
    s += f"* {e['what'].replace('fixed: property=', '')}\n"
s += "\n## Defects found and recorded (known findings)\n\n"
for e in kn:
    s += f"* {e['property']} `{e['key']}`: {e['what']}\n"
open(p, "w").write(s)
