"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), m["needs"], m["what_it_breaks"]))
t = open(root + "/DESIGN.md").read()
table = "| name | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
t = t.replace("TABLE\n", table) if "TABLE\n" in t else re.sub(r"\| name \| needs \| breaks \|\n(\|.*\n)+", lambda _: table, t)
t = re.sub(r"holds (\d+|SEEDS) changes", "holds %d changes" % len(rows), t)
open(root + "/DESIGN.md", "w").write(t)
