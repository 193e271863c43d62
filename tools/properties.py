#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

S = "source/"
I = "include/gCP/"
CL, CLH = S + "constitutive_laws.cc", I + "constitutive_laws.h"
CD, CDH = S + "crystal_data.cc", I + "crystal_data.h"
QH, QHH = S + "gradient_crystal_plasticity/quadrature_point_history.cc", I + "quadrature_point_history.h"

P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "property_list.py")).read())

reg = json.load(open(os.path.join(V, "contracts", "registry.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as h:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        h.write(json.dumps(p) + "\n")
NOTE = ("Every obligation generated from the current sources is discharged (ring normal forms, z3, sum and unit "
        "vector lemmas) for all inputs, loops by inferred and checked summaries. Doubles are read as reals with "
        "tracked NaN and infinity; deal.II and the standard library are trusted models; the contracts are "
        "cross-checked by seeded sampling of the compiled code. A contract whose code leaves the supported subset "
        "falls back to that sampling and is reported as bounded in the evidence. ")
ids = {p["id"] for p, _ in P}
assert set(reg) <= ids, set(reg) - ids
nas = {n["property"] for n in NA}
assert ids - nas == set(reg), (ids - nas) ^ set(reg)
m = dict(version=1, setup_cmd="python3-vt check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the checks read and compile the sources as they are", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                      thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                      technique="contract-based deductive verification of the extracted C++ (symbolic execution to proof obligations, ring/z3 back ends)",
                      level="proof", level_note=NOTE + (n or ""))
                 for p, n in P if p["id"] in reg],
         not_applicable=NA)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
