"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | what it takes | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    cell = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append(f"| {os.path.basename(d)} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {m.get('caught_by', m['property'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- end -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
open(p, "w").write(s)
