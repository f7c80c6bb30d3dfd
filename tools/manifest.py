#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
G = "TLA+ derivation machine (Derive/Pddl), TLC-generated behaviours replayed into the parser"
T = {
 "P09": "TLA+ layout machine (Layout/Relayout) over TLC-generated texts, replayed into the parser",
 "P10": "TLA+ character-level lexer (Lex) and exact decimal arithmetic (Decimal), replayed and trace-validated",
 "P11": "TLA+ mutation machine (Mutate); recorded results explained by the TLA+ recogniser (Validate)",
 "P12": "TLA+ text machine (Fuzz) and mutants, replayed into every entry point",
 "P13": "TLA+ tape machine (Stream), replayed through consecutive calls of the parser",
 "P14": "TLA+ model of the interning table (Intern), schedules replayed on threads, recorded traces validated (InternTrace)",
 "P15": "TLA+ model of requirement sets (Require), all behaviours replayed",
 "P16": "TLA+ model of numbers (Number), all pairs replayed",
 "P17": "TLA+ model of the closed vocabularies (Words), all pairs of type and string replayed",
 "P18": "TLA+ attribute functions over trees (Views), TLC-generated trees replayed",
 "P19": "TLA+ model of the builders (Builder) and tree equality (Pairs), replayed",
}
NOTE = ("Bounded exhaustive exploration of the explicit specification by TLC plus seeded random walks beyond the "
        "bounds; every behaviour is replayed into the real library through its public API. Trusts TLC, the "
        "projection of the library's values to events (harness/src/ast.rs, itself checked by rebuilding every value) "
        "and that bugs show within the explored shapes.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Language: TLA+ with TLC. No hooks in /repo are needed: everything is observable through the public API."}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": T.get(i, G), "level": "model_checking", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check is not finished."})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
