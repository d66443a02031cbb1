"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seednotes.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(HERE, "seeded"))
notes = json.load(open(os.path.join(HERE, "tools", "seednotes.json")))
rows = ["| change | property | needs | by now |", "|---|---|---|---|"]
for f in sorted(glob.glob(SEEDED + "/*/meta.json")):
    m = json.load(open(f))
    k = os.path.basename(os.path.dirname(f))
    rows.append(f"| {k} | {m['property']} | {m['needs']} | {notes.get(k, 'caught')} |")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s)
open(p, "w").write(s)
