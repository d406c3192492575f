"""Build DESIGN.md from tools/DESIGN.in.md, the property files, design notes and seeds."""
import glob, importlib.util, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(R + "/tools/props/*.py")):
    s = importlib.util.spec_from_file_location("p", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    props += getattr(m, "PS", []) or ([m.P] if hasattr(m, "P") else [])
notes = {}
s = importlib.util.spec_from_file_location("n", R + "/tools/design_notes.py"); n = importlib.util.module_from_spec(s); s.loader.exec_module(n)
out = []
for p in sorted(props, key=lambda p: p["id"]):
    out.append("### %s %s\n\n%s\n\n*Quantified over*: %s.\n\n*Why tests cannot settle it*: %s\n\n*Technique*: %s. %s\n\n%s" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"].rstrip("."), p["why_tests_cant"], p["technique"], p["level_note"], n.NOTES.get(p["id"], "").strip()))
kf = json.load(open(R + "/known_findings.json"))
fixed = "\n".join("* `%s` %s: %s" % (x.split(" ")[2], x.split(" ")[1].split("=")[1], " ".join(x.split(" ")[3:])) for x in kf["fixed"])
if kf["findings"]:
    fixed += "\n\nRecorded, not repaired:\n\n" + "\n".join("* %s" % json.dumps(x) for x in kf["findings"])
rows = ["| planted bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"].replace("|", "/").replace("\n", " "), n.CAUGHT.get(os.path.basename(d), m["property"])))
t = open(R + "/tools/DESIGN.in.md").read()
for k, v in (("@@PROPS@@", "\n\n".join(out)), ("@@FIXED@@", fixed), ("@@SEEDS@@", "\n".join(rows)), ("@@MISSED@@", n.MISSED.strip())):
    t = t.replace(k, v)
open(R + "/DESIGN.md", "w").write(t)
