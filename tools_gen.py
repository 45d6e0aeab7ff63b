#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os
import catalog

V = os.path.dirname(os.path.abspath(__file__))
TECH = ("deterministic simulation with fault injection: seeded search over schedules, workloads and fault sequences of "
        "the real code under a simulated scheduler, heap, clock and TBB, checked against an executable reference model")

OVER = dict(schedule="schedules", history="histories", input="inputs", fault="fault_sequences", crash="crash_points",
            config="configurations", program="programs")


def rec(p):
    an = dict(files=p["files"], mechanism=[dict(name=p["mechanism"], where=p["files"][0])])
    for k in ("state", "observe_at", "hook_needed"):
        if p.get(k):
            an[k] = p[k]
    return dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=[OVER.get(x, x) for x in p["over"]], text=p["qtext"]), why_tests_cant=p["why"], anchors=an)


allp = sorted(list(catalog.PROPS.values()) + catalog.PROPS_NA, key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in allp:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(rec(p)) + "\n")
m = dict(version=1, setup_cmd="python3 /verif/setup_check.py",
         hooks=dict(guard="HDK_SIM", enable="build.py compiles /repo's sources with -DHDK_SIM",
                    source_commits=catalog.HOOK_COMMITS if hasattr(catalog, "HOOK_COMMITS") else []),
         checks=[dict(property=i, quick_cmd=f"python3 /verif/check.py {i} --tier quick",
                      thorough_cmd=f"python3 /verif/check.py {i} --tier thorough", technique=TECH,
                      level=p.get("level", "exploration"),
                      level_note=p.get("level_note", "seeded sampling of schedules and inputs; not exhaustive"))
                 for i, p in sorted(catalog.PROPS.items())],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in catalog.PROPS_NA])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

try:
    import jsonschema
    sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for ln in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), sp)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
