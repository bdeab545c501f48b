"""Development aid: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | check | needs |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m.get('caught_by', m['property'])} | {m['needs']} |")
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| id \| check \| needs \|\n(\|.*\n)+", "\n".join(rows) + "\n", s)
open(p, "w").write(s)
