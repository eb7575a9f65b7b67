"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
PEG = ("TLA+ specification of the parser (Peg/PegDen), model-checked with TLC; every enumerated behaviour is replayed into the real parser, "
       "and recordings of the real parser are validated by TLC against the specification")
TECH = {f"C{i:02d}": PEG for i in range(1, 13)}
NOTE = {f"C{i:02d}": ("Exhaustive over all balanced token sequences up to the stated bound for a fixed family of grammars plus random grammars; "
                      "beyond the bound, random recorded runs. Trusts TLC, the harness that reports values and positions, and proc-macro2's lexer.")
        for i in range(1, 13)}
try:
    from techniques import T2, N2
    TECH.update(T2); NOTE.update(N2)
except ImportError: pass
have = [p["id"] for p in props if p["id"] in TECH]
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                      technique=TECH[i], level="model_checking", level_note=NOTE[i]) for i in have],
         not_applicable=[dict(property=p["id"], reason="its module of the specification is not built yet") for p in props if p["id"] not in TECH])
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
