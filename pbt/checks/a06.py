"""A06: each key gets its own filtered aggregation."""
from hypothesis import strategies as st

from pbt import streamlib
from pbt.core import require
from pbt.streamlib import Seed


ID = "A06"
RULE = (
    "a case is a seed, 1 to 4 keys (bins, snapshots or bin/snapshot pairs, each with its own "
    "segmentation, aggregation and writing settings, some given as common defaults), each attached to "
    "a filter (OR of ANDs over integer, float, text, boolean, datetime and ordered columns, all "
    "operators) or to the unfiltered seed, the use of parallel jobs and a schedule (chunks, calls, new "
    "objects); recorded results of each key are compared to a brute force aggregation of the rows its "
    "filter keeps; non-trivial if at least 2 keys, and a filter keeping some rows and not others"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "an AggStream object is replaced by a new one only after a final write",
]
BUDGET = {"quick": 75, "thorough": 1500}
JIT_SHARDS = (7,)


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=30))
    n_keys = draw(st.integers(1, 4))
    with_filters = draw(st.integers(0, 4)) > 0
    filters = []
    if with_filters:
        filters = draw(st.lists(streamlib.filter_defs(seed), min_size=1, max_size=n_keys))
    slots = list(range(len(filters)))
    while len(slots) < n_keys:
        # 'None' is for unfiltered data.
        slots.append(draw(st.sampled_from([None, *range(len(filters))])))
    keys = [
        {
            "filter": slots[i],
            "conf": draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS)),
        }
        for i in range(n_keys)
    ]
    return {
        "seed": seed,
        "filters": filters,
        # Explicit listing of the 'no filter' id.
        "explicit": draw(st.booleans()),
        "keys": draw(st.permutations(keys)),
        "common": draw(st.sampled_from([None, "agg", "mem", "mrg", "all"])),
        "calls": draw(streamlib.schedules(len(seed["pos"]), 3)),
        "parallel": draw(st.booleans()),
    }


COMMON = {
    "agg": ["agg"],
    "mem": ["max_in_memory_size"],
    "mrg": ["max_row_group_size", "max_nirgs"],
    "all": ["agg", "max_in_memory_size", "max_row_group_size", "max_nirgs", "compression", "snap_by"],
}


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    Key = streamlib.make_schema()
    keys = []
    for i, k in enumerate(case["keys"]):
        filt = None if k["filter"] is None else case["filters"][k["filter"]]
        kept = [r for r in range(seed.n) if seed.keeps(filt, r)]
        seed.reference(k["conf"], kept)  # Discarded if not relevant.
        keys.append((streamlib.out_keys(Key, i, k["conf"]), k["conf"], filt, kept))

    def settings():
        """Arguments of AggStream (made anew for each object)."""
        confs, nested, common = {}, {}, {}
        for i, k in enumerate(case["keys"]):
            confs[i] = streamlib.key_settings(k["conf"])
        if case["common"]:
            # Settings of the 1st key are shared, others override them.
            for name in COMMON[case["common"]]:
                if name in confs[0]:
                    common[name] = confs[0].pop(name)
                    for c in confs.values():
                        if c is not confs[0] and name not in c:
                            c[name] = {
                                "max_in_memory_size": 140,
                                "compression": "SNAPPY",
                            }.get(name)
        for i, k in enumerate(case["keys"]):
            name = "_" if k["filter"] is None else f"f{k['filter']}"
            nested.setdefault(name, {})[keys[i][0]] = confs[i]
        filters = {f"f{i}": seed.filter_arg(f) for i, f in enumerate(case["filters"])}
        if case["filters"]:
            if "_" in nested and case["explicit"]:
                filters["_"] = None
            return {"keys": nested, "filters": filters, **common}
        if case["explicit"]:
            return {"keys": nested, "filters": {"_": None}, **common}
        return {"keys": nested["_"], **common}

    store = streamlib.open_store(ctx.folder, Key)
    obj, row = None, 0
    for k, call in enumerate(case["calls"]):
        if call["reopen"] and (k == 0 or case["calls"][k - 1]["final"]):
            store = streamlib.open_store(ctx.folder, Key)
            obj = None
        if obj is None or (call["new"] and case["calls"][k - 1]["final"]):
            with ctx.sut("AggStream()"):
                obj = AggStream(
                    ordered_on="ts",
                    store=store,
                    parallel=case["parallel"],
                    **settings(),
                )
        frames = []
        for size in call["sizes"]:
            frames.append(seed.frame(range(row, row + size), call["index"]))
            row += size
        with ctx.sut("agg()", call=k):
            obj.agg(
                streamlib.as_seed(frames, call["how"]),
                trim_start=False,
                discard_last=False,
                final_write=call["final"],
            )
        if call["final"]:
            for key, conf, filt, kept in keys:
                streamlib.check_results(
                    store,
                    key,
                    conf,
                    seed,
                    [r for r in kept if r < row],
                    ctx,
                    f"after call {k}",
                    for_key=str(key),
                    where=filt,
                )
    listed = {str(k) for k in store}
    known = {str(x) for key, *_ in keys for x in (key if isinstance(key, tuple) else (key,))}
    require(listed <= known, "keys not requested are recorded", got=sorted(listed - known))
    for key, conf, filt, kept in keys:
        if not kept:
            ctx.tag("key_without_row")
        elif filt is not None and len(kept) < seed.n:
            ctx.tag("partial_filter")
    ctx.tag(f"keys_{len(keys)}", "parallel" if case["parallel"] else "sequential")
    if case["common"]:
        ctx.tag("common_settings")
    for f in case["filters"]:
        for ands in f["dnf"]:
            for _, op, _ in ands:
                ctx.tag("op " + op)
    if len(keys) > 1 and any(f is not None and 0 < len(kept) < seed.n for _, _, f, kept in keys):
        ctx.nontrivial()
