"""Regenerates the table of planted bugs in DESIGN.md (between the SEEDS markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    f = lambda s: re.sub(r"\s+", " ", str(s)).replace("|", "/")
    rows.append(f"| {d} | {m['property']}{' (caught)' if m.get('caught', True) else ' (missed)'} | {f(m['what_it_breaks'])} | {f(m['needs'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
t = "<!--SEEDS-->\n" + "\n".join(rows) + "\n<!--/SEEDS-->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!--SEEDS-->.*<!--/SEEDS-->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
