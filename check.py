#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's working tree.
check.py --replay FILE: runs one reported violation again."""

import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib  # noqa: E402
from vlib import Run, ToolError  # noqa: E402

DERIVE_INV = ["TypeOK", "Balanced", "NothingLost", "TypesKept", "InOrder", "Emit"]


def derive(run, roots, budget, mode="exh", profiles=("exh",), layouts=(0,), words=False,
           simulate=None, limit=None):
    """What the derivation machine emits for these roots."""
    consts = {"Roots": set(roots), "Budget": budget, "Mode": mode, "Profiles": set(profiles),
              "AllWords": words, "Layouts": set(layouts)}
    return run.tlc("Derive", consts, DERIVE_INV, simulate=simulate, limit=limit)


def faithful(run, exh=(), words=(), allwords=(), deep=(), mix=(), long=(), huge=(), scale=1.0):
    """Every derivation, and random large ones, against the library.
    exh, words, allwords: (roots, budget) or (roots, budget, thorough budget)."""
    def each(groups, **kw):
        for g in groups:
            b = g[2] if run.thorough and len(g) > 2 else g[1]
            run.replay(derive(run, g[0], b, **kw), "replay")
    n = (8 if run.thorough else 1) * scale
    each(exh)
    each(exh, mode="same")
    each(words, mode="words", layouts=(0,))
    each(allwords, words=True)
    if mix:
        run.replay(derive(run, mix, 10, "sim", ("mix",), range(6), simulate=int(240 * n)))
    if deep:
        run.replay(derive(run, deep, 25, "sim", ("deep",), range(6), simulate=int(240 * n)))
    if long:
        run.replay(derive(run, long, 45, "sim", ("long",), range(6), simulate=int(32 * n)))
    if huge:
        run.replay(derive(run, huge, 300, "sim", ("huge",), range(3), simulate=int(24 * n)))


def p01(run):
    faithful(
        run,
        exh=[(["Domain"], 2, 3), (["Structure"], 2, 3), (["Action"], 3),
             (["Requirements", "Types", "Constants", "Predicates", "Functions", "Timeless"], 5, 6),
             (["DConstraints", "Derived"], 3)],
        words=[(["Action", "Derived", "Constants", "Predicates", "Functions", "Types"], 1)],
        allwords=[(["Requirements"], 2, 3)],
        mix=["Domain", "Structure"], deep=["Domain", "Action"], long=["Domain"],
        huge=["Domain", "Requirements", "Types", "Constants", "Predicates", "Functions",
              "Timeless"])


def p02(run):
    faithful(
        run,
        exh=[(["Problem"], 3, 4), (["Init", "Objects", "Length"], 5, 6),
             (["Goal", "Metric"], 2, 3), (["PConstraints"], 2, 3)],
        words=[(["Init", "InitEl", "Objects", "Goal", "BFT"], 2)],
        allwords=[(["Metric"], 2)],
        mix=["Problem", "Init", "Goal"], deep=["Problem", "Goal", "Metric"], long=["Problem"],
        huge=["Problem", "Init", "Objects", "Requirements", "Metric"])


def p03(run):
    faithful(
        run,
        exh=[(["GD", "PreGDs", "Goal", "PrefGD"], 3, 4), (["Term", "FTerm", "AFt", "AFn", "LitT", "LitN"], 4, 5),
             (["FComp"], 2, 3), (["Derived", "Action"], 2, 3)],
        words=[(["GD", "PreGDs", "PrefGD", "AFn", "LitN", "LitT", "FTerm"], 1, 2)],
        allwords=[(["FComp"], 1, 2)],
        mix=["GD", "PreGDs", "Goal", "PrefGD", "Action", "Derived"],
        deep=["GD", "PreGDs", "Goal", "PrefGD", "Derived", "Term"],
        long=["GD", "PreGDs", "Action"], huge=["GD", "PreGDs", "Goal", "AFt", "AFn", "Term"])


def p04(run):
    faithful(
        run,
        exh=[(["Effects", "CEffect", "PEffect", "CForall", "CWhen", "CondEffect"], 3, 4), (["Action"], 2, 3)],
        words=[(["Effects", "CWhen", "CForall", "CondEffect"], 1, 2)],
        allwords=[(["PEffect", "Effects", "AssignOp"], 2)],
        mix=["Effects", "CEffect", "CWhen", "CForall", "Action", "CondEffect"],
        deep=["Effects", "CEffect", "CWhen", "Action"],
        long=["Effects", "Action"], huge=["Effects", "CondEffect", "CForall"])


def p05(run):
    faithful(
        run,
        exh=[(["DurativeAction"], 2), (["DaGD", "PrefTimedGD", "TimedGD"], 3, 4),
             (["DaEffect"], 2, 3), (["TimedEffect", "FAssignDa"], 2, 3), (["FExpDa", "FExpT"], 2, 3),
             (["DurC", "SDurC"], 3, 4), (["DValue"], 3)],
        words=[(["DaGD", "DaEffect", "DurC", "FAssignDa"], 1, 2)],
        allwords=[(["DaGD", "DaEffect", "DurC", "TimedEffect"], 1, 2)],
        mix=["DurativeAction", "DaGD", "DaEffect", "TimedEffect"],
        deep=["DurativeAction", "DaGD", "DaEffect", "DurC", "FExpDa"],
        long=["DurativeAction", "DaEffect"], huge=["DaGD", "DaEffect", "DurC"])


def p06(run):
    faithful(
        run,
        exh=[(["ConGD", "Con2"], 3), (["PrefConGDs"], 2, 3), (["DConstraints"], 3),
             (["PConstraints"], 2, 3)],
        words=[(["ConGD", "Con2", "PrefConGDs"], 1)],
        mix=["ConGD", "Con2", "PrefConGDs", "DConstraints", "PConstraints"],
        deep=["ConGD", "Con2", "PrefConGDs", "DConstraints", "PConstraints"],
        long=["ConGD", "PConstraints"], huge=["ConGD", "PrefConGDs"])


def p07(run):
    faithful(
        run,
        exh=[(["FExp", "FHead"], 3, 4), (["FExpDa", "FExpT", "MExp", "FComp"], 2, 3),
             (["Metric", "DValue"], 2, 3), (["FAssignDa"], 2, 3), (["PEffect"], 3)],
        words=[(["FExp", "FExpDa", "FExpT", "MExp", "FComp", "FHead"], 1)],
        allwords=[(["FExp", "FExpDa", "MExp"], 2), (["FComp", "Metric"], 1, 2)],
        mix=["FExp", "FExpDa", "FExpT", "MExp", "FComp", "Metric", "DValue", "PEffect", "FAssignDa"],
        deep=["FExp", "FExpDa", "FExpT", "MExp", "FComp", "Metric", "PEffect"],
        long=["FExp", "FExpDa", "MExp"], huge=["FExp", "FExpDa", "MExp"])


def p08(run):
    faithful(
        run,
        exh=[(["NameList", "VarList", "Types", "Constants", "Objects"], 6, 7),
             (["FSkelList", "Functions"], 4, 5), (["Type", "FType", "Skel", "FSkel"], 6, 7),
             (["Predicates"], 5, 6), (["Derived"], 3), (["Action"], 2)],
        words=[(["NameList", "VarList", "Type", "Skel", "FSkel"], 2, 3)],
        mix=["NameList", "VarList", "FSkelList", "Types", "Constants", "Objects", "Functions",
             "Predicates", "Skel", "Action", "CForall"],
        deep=["NameList", "VarList", "FSkelList"],
        long=["NameList", "VarList", "FSkelList", "Predicates", "Functions", "Objects", "Constants",
              "Types"],
        huge=["NameList", "VarList", "FSkelList", "Predicates", "Functions", "Type", "Skel"])


CLOSED = [  # the constructs that end with a parenthesis of their own
    "FTerm", "AFt", "AFn", "LitT", "LitN", "FExpT", "FComp", "Metric", "GD", "PrefGD", "PreGDs",
    "Goal", "ConGD", "Con2", "PrefConGDs", "DConstraints", "PConstraints", "PEffect", "CondEffect",
    "CEffect", "Effects", "CForall", "CWhen", "TimedGD", "PrefTimedGD", "DaGD", "SDurC", "DurC",
    "FAssignDa", "TimedEffect", "DaEffect", "Skel", "FSkel", "Requirements", "Types", "Constants",
    "Objects", "Predicates", "Functions", "Timeless", "Action", "DurativeAction", "Derived",
    "Structure", "Domain", "Problem", "InitEl", "Init", "Length"]
OPEN = ["Term", "FExp", "FHead", "FExpDa", "MExp", "BFT", "DValue", "Type", "FType", "NameList",
        "VarList", "FSkelList"]


def explain(run, recorded):
    """Lets the recogniser explain recorded runs; reports those that it cannot."""
    for i in range(0, len(recorded), 20000):
        part = recorded[i:i + 20000]
        f = run.path("recorded.ndjson")
        keep = ("root", "toks", "res", "n", "ast")
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps({k: r[k] for k in keep}) + "\n")
        seen = run.tlc("Validate", {"File": f}, ["TypeOK", "Emit"])
        strict, longest, trees = {}, {}, {}
        for s in seen:
            d = json.loads(s)
            c = d["c"] - 1
            if d["way"] == "tree":
                trees[c] = trees.get(c, True) and d["lax"]
            else:
                strict.setdefault(c, set()).add(d["n"])
        for c, r in enumerate(part):
            why = None
            ways = strict.get(c, set())
            if r["res"] == "rejected":
                if ways:
                    why = "rejected, but the first %d words are in the language" % max(ways)
            elif c not in trees:
                why = ("accepted, but this is not in the language" if r["n"] not in ways else
                       "accepted, but with another tree: " + " ".join(r["ast"]))
            elif trees[c] and r["n"] in ways:
                why = "accepted, but with another tree: " + " ".join(r["ast"])
            elif ways and max(ways) > r["n"]:
                why = "stops after %d words instead of %d" % (r["n"], max(ways))
            if why:
                run.violation("record", {"case": r, "text": " ".join(r["toks"]), "why": why})


def record(run, cases):
    """Runs the library; what needs no explanation is reported at once."""
    out = []
    for r in run.drive("record", cases):
        text = " ".join(r.get("toks", []))
        if "res" not in r:
            run.violation("record", r)
        elif r["res"] == "panic":
            run.violation("record", {"case": r, "text": text, "why": "panicked: " + r["why"]})
        elif r["res"] == "cut" and r["n"] == 0 and r["toks"][0][0] in "?#":
            pass  # ?duration and #t, on their own, need no end; within a construct they do
        elif r["res"] == "cut":
            run.violation("record", {"case": r, "text": text, "why": "a word is split"})
        elif "odd" in r:
            run.violation("record", {"case": r, "text": text, "why": r["odd"]})
        else:
            out.append(r)
    return out


def mutants(run, roots, budget, damage=1, spread=2, simulate=None, mode="exh", profiles=("exh",),
            emit="EmitMutant", limit=None, kind="any"):
    consts = {"Roots": set(roots), "Budget": budget, "Mode": mode, "Profiles": set(profiles),
              "AllWords": False, "Layouts": {0}, "Damage": damage, "Spread": spread,
              "Kind": kind}
    return run.tlc("Mutate", consts, ["TypeOK", emit], init="MInit", nxt="MNext",
                   simulate=simulate, limit=limit)


def per_root(run, lines, most):
    """At most so many of the lines of each root, at random."""
    groups = {}
    for s in lines:
        groups.setdefault(json.loads(s)["root"], []).append(s)
    out = []
    for g in groups.values():
        out += g if len(g) <= most else run.rng.sample(g, most)
    return out


def p11(run):
    cap = 150000 if run.thorough else 24000
    files = ["Domain", "Problem", "Action", "DurativeAction"]
    explain(run, record(run, per_root(run, mutants(run, CLOSED + OPEN, 1), cap // 24)))
    explain(run, record(run, per_root(run, mutants(run, files, 0), cap // 12)))
    explain(run, record(run, per_root(run, mutants(run, ["Domain", "Problem"], 1), cap // 8)))
    explain(run, record(run, mutants(run, CLOSED + OPEN, 12, damage=3, mode="sim", simulate=64,
                                     profiles=("mix", "deep"), limit=cap // 3)))
    explain(run, record(run, mutants(run, files, 6, mode="sim", simulate=32, profiles=("mix",), limit=cap // 6)))


def p10(run):
    t = run.thorough
    for frame, most in (("bare", 5 if t else 4), ("atom", 6 if t else 5), ("value", 6 if t else 5),
                        ("within", 6 if t else 5), ("types", 7 if t else 6),
                        ("params", 8 if t else 6)):
        run.replay(run.tlc("Lex", {"Frame": frame, "Most": most}, ["AllWords", "Munch", "Emit"]),
                   "texts")
    r = run.rng
    some = {0, 1, 2, 23, 24, 100, 126, 127, 128, 149, 150, 151, 152, 173, 174, 253, 254}
    run.replay(run.tlc("Decimal", {
        "Exponents": some | {r.randrange(256 - 1) for _ in range(200 if t else 20)},
        "Fractions": {1, 2, 3, 4194303, 4194304, 8388606, 8388607}
        | {r.randrange(8388608) for _ in range(40 if t else 8)}},
        ["TypeOK", "Consistent", "Emit"]), "decimals")
    for roots, budget in ((["GD", "PreGDs", "Effects", "ConGD", "PrefConGDs", "DaGD", "DaEffect"], 1),
                          (["FExp", "FExpDa", "FExpT", "MExp", "DurC", "Term", "InitEl", "Metric"], 1),
                          (["VarList", "NameList", "FSkelList", "Type", "Skel"], 2 + t),
                          (["Action", "DurativeAction", "Domain", "Problem"], 0 + t)):
        run.replay(derive(run, roots, budget, mode="words"), "replay")
    explain(run, record(run, mutants(run, CLOSED + OPEN, 1, kind="words", mode="sim",
                                     simulate=400, profiles=("mix",),
                                     limit=60000 if t else 12000)))


def p12(run):
    t = run.thorough
    fuzz = lambda mode, most=0, depths=(), **kw: run.replay(run.tlc(
        "Fuzz", {"Mode": mode, "Most": most, "Depths": set(depths)}, ["TypeOK", "Emit"], **kw), "any")
    # A text that is nested too deeply for any stack.
    run.replay([json.dumps({"root": "GD", "open": "(not ", "n": 300000, "core": "(p)",
                            "close": ")", "m": 300000, "finding": "deep-nesting"})], "any")
    fuzz("pieces", 2)
    fuzz("pieces", 12, simulate=400 if t else 80, limit=60000 if t else 12000)
    fuzz("pieces", 60, simulate=240 if t else 48, limit=30000 if t else 5000)
    fuzz("nests", depths=[1, 2, 3, 20], limit=40000 if t else 10000)
    fuzz("nests", depths=[100], limit=4000 if t else 700)
    fuzz("floods", depths=[1, 2, 50], limit=None if t else 2000)
    fuzz("floods", depths=[3000], limit=400 if t else 100)
    consts = {"Roots": set(CLOSED + OPEN), "Budget": 8, "Mode": "sim", "Profiles": {"mix"},
              "AllWords": False, "Layouts": {0}}
    run.replay(run.tlc("Hack", consts, ["TypeOK", "EmitHacked"], init="HInit", nxt="HNext",
                       simulate=2400 if t else 240, limit=60000 if t else 16000), "any")


def p13(run):
    t = run.thorough
    def stream(roots, budget, count, n, profiles=("mix",)):
        consts = {"Roots": set(roots), "Budget": budget, "Mode": "sim", "Profiles": set(profiles),
                  "AllWords": False, "Layouts": set(range(6)), "Count": count}
        run.replay(run.tlc("Stream", consts, ["TypeOK", "Position", "Lines", "EmitStream"],
                           init="SInit", nxt="SNext", simulate=n * (8 if t else 1)), "stream")
    part = [r for r in CLOSED if r not in ("AFt", "AFn", "LitT", "LitN", "DurC")]
    stream(part, 5, 2, 600)
    stream(part, 8, 6, 160)
    stream(part + ["Name", "Var", "Num", "Term", "FExp", "Type", "ReqKey"], 3, 5, 240)
    stream(["Domain", "Problem"], 4, 3, 160)


def p09(run):
    def layouts(roots, budget, damage=0, mode="exh", profiles=("exh",), simulate=None, limit=None,
                walks=8, spread=1):
        consts = {"Roots": set(roots), "Budget": budget, "Mode": mode, "Profiles": set(profiles),
                  "AllWords": False, "Layouts": {0}, "Damage": damage, "Spread": spread,
                  "Walks": walks, "Kind": "any"}
        got = run.tlc("Relayout", consts, ["TypeOK", "EmitLayouts"], init="MInit", nxt="MNext",
                      simulate=simulate, limit=limit)
        run.replay(got, "layouts", head=run.heads["Relayout"])
    f = 5 if run.thorough else 1
    layouts(CLOSED + OPEN, 1, limit=2000 * f)
    if run.thorough:
        layouts(CLOSED, 2, limit=6000)
    layouts(CLOSED, 15, mode="sim", profiles=("mix", "deep"), simulate=128 * f)
    layouts(CLOSED, 0, damage=1, limit=800 * f)
    layouts(CLOSED, 12, damage=3, mode="sim", profiles=("mix", "deep"), simulate=8 * f,
            limit=400 * f)


def p14(run):
    t = run.thorough
    # The design: one lock around looking up and inserting is enough, and is needed.
    inv = ["TypeOK", "Exclusive", "Sorted", "Distinct", "Shared"]
    sizes = [(2, 2, 2), (3, 2, 1), (2, 3, 2), (3, 3, 1)] + ([(3, 2, 2), (2, 2, 3)] if t else [])
    for threads, texts, most in sizes:
        consts = {"Threads": set(range(1, threads + 1)), "Texts": set(range(1, texts + 1)),
                  "Most": most, "Locked": True}
        run.tlc("InternTable", consts, inv, properties=["Kept", "Refines"])
    run.tlc("InternTable", {"Threads": {1, 2}, "Texts": {1, 2}, "Most": 1, "Locked": True}, inv,
            properties=["Served"], spec="Fair")
    run.tlc("InternTable", {"Threads": {1, 2}, "Texts": {1, 2}, "Most": 1, "Locked": False},
            ["Shared"], refuted="Shared")
    # Histories, in lockstep.
    def plan(mode, most, seats, **kw):
        return run.tlc("InternPlan", {"Mode": mode, "Most": most, "Seats": seats},
                       ["Known", "Emit"], init="PInit", nxt="PNext", **kw)
    run.replay(plan("pairs", 2, 2), "intern")
    for most, seats, n in ((12, 2, 600), (40, 4, 160), (150, 8, 24)):
        run.replay(plan("walk", most, seats, simulate=n * (10 if t else 1), workers=1), "intern")
    # Races; what is seen has to be explained by the specification.
    seen = []
    for seats in (2, 4, 8):
        cases = [json.loads(c) for c in plan("race", 0, seats)]
        for c in cases:
            c["times"], c["rounds"] = 1, 40 if t else 4
            if len(c["log"][0]) <= 6:  # long enough to meet
                c["times"], c["rounds"] = 12, 80 if t else 8
        seen += run.drive("race", cases)
    f = run.path("races.ndjson")
    with open(f, "w") as h:
        for r in seen:
            h.write(json.dumps({"log": r.get("log", [])}) + "\n")
    ok = {json.loads(s)["c"] - 1 for s in
          run.tlc("InternTrace", {"File": f}, ["Shared", "Emit"], init="TInit", nxt="TNext")}
    for i, r in enumerate(seen):
        if i not in ok or "why" in r:
            r.setdefault("why", "threads were seen to make names that are equal, but not the same")
            r["text"] = str(r["case"])[:300]
            run.violation("race", r)
    # Many.
    run.replay([json.dumps({"n": n, "stride": s, "heads": h}) for n, s, h in (
        (1000, 1, ["a"]), (3000, 7, ["a", "b", "z"]), (20000, 19, ["q"]),
        (100000 if t else 66000, 10007, ["k", "A", "_"]))], "many")


def p15(run):
    t = run.thorough
    inv = ["TypeOK", "Flat", "Idempotent", "Agrees", "Composite"]
    def sets(most, last=False, **kw):
        got = run.tlc("Require", {"Most": most, "Ask": True}, inv + ["EmitLast" if last else "Emit"],
                      init="RInit", nxt="RNext", properties=[] if kw else ["Monotone"], **kw)
        run.replay(got, "requires", head=run.heads["Require"])
    sets(3)
    for most, n in ((5, 3000), (12, 400), (60, 60)):
        sets(most, last=True, simulate=n * (10 if t else 1))
    step = 1 << 14
    run.replay([json.dumps({"from": i, "to": i + step}) for i in range(0, 1 << 21, step)],
               "subsets", head=run.heads["Require"])
    # The keys, read and written.
    run.replay(derive(run, ["ReqKey", "Requirements"], 2, words=True), "replay")


def p16(run):
    t = run.thorough
    r = run.rng
    def number(mode, exps, fracs=(0,), noise=()):
        return run.tlc("Number", {"Mode": mode, "Exponents": set(exps), "Fractions": set(fracs),
                                  "Noise": set(noise)}, ["Total", "Exact", "Emit"])
    fracs = [0, 1, 2, 4194304, 8388606, 8388607]
    some = lambda n, top: [r.randrange(top) for _ in range(n)]
    run.replay(number("pairs", [0, 1, 2, 126, 127, 128, 150, 254, 255], fracs[:4] + fracs[5:]), "pairs")
    run.replay([json.dumps(json.loads(run.heads["Number"])["head"])], "order")
    run.replay(number("pairs", some(6, 255) + [0], some(6, 8388608) + [0]), "pairs")
    run.replay([json.dumps(json.loads(run.heads["Number"])["head"])], "order")
    if t:
        run.replay(number("pairs", some(9, 255), some(9, 8388608)), "pairs")
    noise = [1, 5, 8388607, 11184810] + some(60 if t else 8, 16777216)
    run.replay(number("ints", [0], noise=noise), "convert")
    exps = [0, 1, 872, 873, 874, 875, 895, 896, 897, 898, 1022, 1023, 1024, 1149, 1150, 1151, 1152, 2046]
    run.replay(number("doubles", exps + some(40 if t else 4, 2047), noise=noise[:10 if t else 5]),
               "convert")
    run.replay(run.tlc("Decimal", {
        "Exponents": {0, 1, 100, 126, 127, 149, 150, 151, 174, 253, 254} | set(some(60 if t else 6, 255)),
        "Fractions": {1, 2, 4194304, 8388606, 8388607} | set(some(20 if t else 4, 8388608))},
        ["TypeOK", "Consistent", "Emit"]), "decimals")


def p17(run):
    run.replay(run.tlc("Words", {"Pairs": True}, ["Unambiguous", "Related", "Emit"],
                       init="WInit", nxt="WNext"), "words")
    run.replay(derive(run, ["PEffect", "AssignOp", "ReqKey", "Requirements", "DurC", "TimedGD", "TimedEffect",
                            "FComp", "FExp", "FExpDa", "MExp", "Metric"], 2, words=True), "replay")


# Every kind of value, and how large its trees may be (quick, thorough).
VALUES = [
    (["GD", "PreGDs", "Goal", "PrefGD"], 2, 3), (["ConGD", "Con2"], 2, 3), (["PrefConGDs", "PConstraints"], 2, 2),
    (["DConstraints"], 2, 3), (["Effects", "CEffect", "CForall", "CWhen", "CondEffect", "PEffect"], 2, 3),
    (["DaGD", "TimedGD", "PrefTimedGD"], 2, 3), (["DaEffect", "TimedEffect", "FAssignDa"], 1, 2),
    (["DurC", "SDurC", "DValue"], 2, 3), (["FExp", "FHead", "FExpT"], 2, 3), (["FExpDa", "MExp", "FComp", "Metric"], 1, 2),
    (["Term", "FTerm", "AFt", "AFn", "LitT", "LitN", "BFT"], 3, 4),
    (["Type", "FType", "NameList", "VarList", "FSkelList", "Skel", "FSkel"], 4, 5),
    (["Types", "Constants", "Objects", "Predicates", "Functions", "Timeless", "Requirements", "Length"], 3, 4),
    (["Init", "InitEl"], 2, 3), (["Action", "Derived"], 1, 2), (["Structure", "Domain", "Problem"], 1, 1)]


def values(run, roots, budget, emit, written, mode="exh", simulate=None, profiles=("exh",), inv=()):
    consts = {"Roots": set(roots), "Budget": budget, "Mode": mode, "Profiles": set(profiles),
              "AllWords": False, "Layouts": {0}, "Written_": written}
    over = {} if written else {"Grammar": "ValueGrammar", "NumPool": "ValueNums"}
    return run.tlc("Views", consts, ["TypeOK"] + list(inv) + [emit], overrides=over, simulate=simulate)


def p18(run):
    t = run.thorough
    inv = ["Coherent", "Upward"]
    for roots, small, large in VALUES:
        b = large if t else small
        run.replay(values(run, roots, b, "EmitViews", True, inv=inv), "views")
        run.replay(values(run, roots, b, "EmitViews", False, inv=inv), "views")
    roots = [r for g in VALUES for r in g[0]]
    for written in (True, False):
        run.replay(values(run, roots, 8, "EmitViews", written, "sim", 4000 if t else 480, ("mix", "deep"), inv), "views")
        run.replay(values(run, roots, 70, "EmitViews", written, "sim", 160 if t else 16, ("huge",), inv), "views")


def p19(run):
    t = run.thorough
    for roots, small, large in VALUES:
        b = large if t else small
        run.replay(values(run, roots, b, "EmitValue", True), "ways")
        made = values(run, roots, b, "EmitValue", False)
        run.replay(made, "ways")
        # All values of one kind against each other.
        kinds = {}
        for s in made:
            c = json.loads(s)
            kinds.setdefault(c["root"], []).append(c["ast"])
        groups = []
        for k, v in kinds.items():
            run.rng.shuffle(v)
            for i in range(0, min(len(v), 6000 if t else 1200), 300):
                groups.append({"root": k, "near": v[i:i + 300]})
        run.replay([json.dumps(g) for g in groups], "alike")
        run.replay(values(run, roots, max(b - 1, 0), "EmitNear", False), "alike")
        run.replay(values(run, roots, max(b - 1, 0), "EmitNear", False, mode="same"), "alike")
    roots = [r for g in VALUES for r in g[0]]
    for written in (True, False):
        run.replay(values(run, roots, 8, "EmitValue", written, "sim", 8000 if t else 960, ("mix", "deep")), "ways")
        run.replay(values(run, roots, 300, "EmitValue", written, "sim", 160 if t else 24, ("huge",)), "ways")
    run.replay(values(run, roots, 5, "EmitNear", False, "sim", 1600 if t else 240, ("mix",)), "alike")
    for kind, small, large in (("Domain", 3, 4), ("Problem", 4, 5)):
        for n in range(1, (large if t else small) + 1):
            build(run, kind, n)
        build(run, kind, 14, 4000 if t else 800)


def build(run, kind, n, simulate=None):
    """Histories of n calls of a builder."""
    lines = run.tlc("Builder", {"Kind": kind, "Calls": n}, ["LastWins", "Agree", "Distinct", "Emit"],
                    spec=None if simulate else "Spec", simulate=simulate,
                    properties=() if simulate else ("OnlyIts",))
    run.replay(lines, "builder", head=run.heads["Builder"])


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07,
          "P08": p08, "P09": p09, "P10": p10, "P11": p11, "P12": p12, "P13": p13, "P14": p14, "P15": p15, "P16": p16, "P17": p17, "P18": p18, "P19": p19}


def replay(file):
    with open(file) as f:
        v = json.load(f)
    vlib.build()
    tmp = file + ".case"
    with open(tmp, "w") as f:
        if "head" in v:
            f.write(v["head"] + "\n")
        f.write(json.dumps(v["result"]["case"]) + "\n")
    r = subprocess.run([vlib.DRIVER, v["mode"], tmp])
    os.remove(tmp)
    return r.returncode


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        vlib.build()
        run = Run(prop, tier, seed)
        CHECKS[prop](run)
        sys.exit(run.finish())
    except ToolError as e:
        print("%s: error of the check: %s" % (prop, e))
        sys.exit(2)


if __name__ == "__main__":
    main()
