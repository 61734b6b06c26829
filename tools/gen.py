#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the one place where they are maintained)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "src/boundary_conditions/particle_boundaries.F90"
FB = "src/boundary_conditions/field_boundaries.F90"
MR = "src/parallelization/mpi/mpi_routines.F90"
TI = "src/parallelization/tiling/tiling.F90"
TECH = "TLA+ specification model-checked with TLC; traces of the real library validated against it by TLC"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", note="", technique=TECH, hook=False, na=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why=why,
            files=files,
            mech=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe=list(observe),
            level=level,
            note=note,
            technique=technique,
            hook=hook,
            na=na,
        )
    )


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[
        dict(
            property=p["id"],
            quick_cmd="python3 check.py %s --tier quick" % p["id"],
            thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            technique=p["technique"],
            level=p["level"],
            level_note=p["note"],
        )
        for p in P
        if not p["na"]
    ],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
    notes="Specifications in spec/ (TLA+, TLC); harness programs in harness/, linked against a library built from /repo/src; lib/ runs them, converts their logs to traces and runs TLC. No hooks in /repo: everything is observed through the library's own modules.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema

for s, d in (("PROPERTIES", [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]), ("MANIFEST", [m])):
    sch = "/root/.vp/%s.schema.json" % s
    if os.path.exists(sch):
        for x in d:
            jsonschema.validate(x, json.load(open(sch)))
for p in P:
    for w in p["files"]:
        if not os.path.exists("/repo/" + w):
            sys.exit("no file " + w)
print(len(P), "properties,", len(m["checks"]), "checks")
