"""rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)"""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
rows = ["| id | caught by (quick) | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(VERIF + "/seeded")):
    f = f"{VERIF}/seeded/{d}/meta.json"
    if not os.path.exists(f): continue
    m = json.load(open(f)); c = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|")
    rows.append(f"| {d} | {m.get('caught_by', m['property'])} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
p = VERIF + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"(SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->)", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
