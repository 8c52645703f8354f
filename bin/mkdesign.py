#!/usr/bin/env python3
"""Fills the tables of DESIGN.md: the stages, the planted bugs."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import stages
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}
rows = []
for p in sorted(stages.PROPS):
    P = stages.PROPS[p]
    st = "; ".join(("%s: TLC on the model" % s.name.replace("model ", "")) if s.kind == "model" else
                   "%s: %d × `%s%s`%s → `%s`" % (s.name, s.quick, s.cmd, " " + s.mode if s.mode else "",
                    " (%s build)" % s.variant[1:] if s.variant else "", s.module) for s in P.stages)
    gens = sorted({s.generator for s in P.stages if s.generator})
    if gens: st += "; histories from " + ", ".join("`%s`" % g for g in gens)
    rows.append("| %s %s | %s: %s | %s | %s |" % (p, props[p]["title"], P.technique, P.note, P.rule.replace("|", "/"), st))
seeded = os.path.join(V, "seeded")
notes = json.load(open(os.path.join(HERE, "planted.json")))
pl = ["| bug | needs | first | now |", "|---|---|---|---|"]
for d in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, d, "meta.json")))
    n = notes.get(d, {})
    pl.append("| %s | %s | %s | %s |" % (d, m["needs"], n.get("first", "?"), n.get("now", "?")))
t = open(os.path.join(HERE, "DESIGN.tmpl")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@TABLE@@", "\n".join(rows)).replace("@@PLANTED@@", "\n".join(pl)))
