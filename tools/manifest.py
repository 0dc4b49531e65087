#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties (developer tool)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "S01": "property-based testing: generated recording histories, round-trip oracle",
    "S02": "property-based testing: generated update histories vs. a list model (stable merge)",
    "S03": "property-based testing: generated update histories vs. duplicate-dropping validity predicates",
    "S04": "property-based testing: metamorphic relation over row group settings, layout invariants",
    "S05": "stateful property-based testing: store vs. dict-of-rows model and directory tree model",
    "S06": "property-based testing: key/path/text round-trips over generated schemas and values",
    "S07": "property-based testing: generated directory trees vs. an independent discovery oracle",
    "S08": "stateful property-based testing: metadata vs. dict model",
    "S09": "property-based testing: differential between access paths, statistics vs. direct computation",
    "S10": "property-based testing: generated invalid requests with before/after comparison; argument immutability",
    "S11": "property-based testing: generated multi-indexes, round-trip and reference expansion",
    "S12": "property-based testing: generated class layouts, acceptance/rejection oracle, key and listing invariants",
    "A01": "property-based testing: generated series and segmentations vs. brute force reference",
    "A02": "property-based testing: generated data and aggregations vs. brute force reference",
    "A03": "property-based testing: generated bins/snapshots vs. brute force observation reference",
    "A04": "property-based testing: metamorphic relation over cuts of the data",
    "A05": "property-based testing: streaming schedules vs. one-shot brute force reference",
    "A06": "property-based testing: multi-key configurations vs. per-key brute force reference",
    "A07": "stateful property-based testing: restart sessions on growing seeds vs. one-shot reference",
    "A08": "property-based testing with injected seed check failures vs. prefix reference",
    "A09": "property-based testing: post-processing/buffers vs. one-shot reference and recorded hand-overs",
    "A11": "property-based testing: seeds observing recorded results vs. brute force reference at each chunk",
    "A12": "property-based testing: contradictory requests injected in valid ones, rejection and no-effect oracle",
    "A13": "property-based testing: composition of aggregations over growing recorded results vs. one-shot reference",
    "A10": "property-based testing with injected interruptions vs. one-shot reference",
}
NOTE = (
    "Bounded random search (thousands of generated cases, seeded by VERIF_SEED, shrunk on failure), no "
    "proof of absence. Trusts pandas/numpy/fastparquet/vaex/numba and the reference model in "
    "pbt/; excluded inputs are listed under 'assumptions' in the evidence file. "
)
EXTRA = {
    "S04": "Layout bounds are those documented for write().",
    "S05": "Single process; file removals are contained in the scratch folder by guards.",
}

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "pbt", "checks", p.lower() + ".py")):
        checks.append(
            {
                "property": p,
                "quick_cmd": f"./run.py {p}",
                "thorough_cmd": f"./run.py {p} --tier thorough",
                "technique": TECH[p],
                "level": "exploration",
                "level_note": NOTE + EXTRA.get(p, ""),
            },
        )
    else:
        na.append({"property": p, "reason": "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "./run.py --setup",
            "checks": checks,
            "not_applicable": na,
            "notes": "All checks share run.py (8 worker processes); see DESIGN.md.",
        },
        f,
        indent=1,
    )
    f.write("\n")
