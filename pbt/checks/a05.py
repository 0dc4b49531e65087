"""A05: streamed results do not depend on how the seed is streamed."""
from hypothesis import strategies as st

from pbt import streamlib
from pbt.streamlib import Seed


ID = "A05"
RULE = (
    "a case is a seed (datetime, integer or float axis, ties), an aggregation definition (time period, "
    "number of rows or user-defined bins, optional snapshots recorded alone or with bins), a writing "
    "configuration (row group size, coalescing, memory limit) and a schedule: sizes of chunks, split in "
    "agg() calls (DataFrame, list, tuple, generator, empty seeds and chunks, with or without final "
    "write), new AggStream objects and re-opened stores between calls; after each final write, "
    "recorded results are compared to a brute force aggregation of the seed streamed so far; "
    "non-trivial if at least 2 calls or 3 chunks for several bins"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "an AggStream object is replaced by a new one only after a final write",
]
BUDGET = {"quick": 130, "thorough": 2500}
JIT_SHARDS = (7,)


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds())
    return {
        "seed": seed,
        "conf": draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS)),
        "calls": draw(streamlib.schedules(len(seed["pos"]))),
        "parallel": draw(st.booleans()),
    }


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    conf = case["conf"]
    seed.reference(conf, range(seed.n))  # Discarded if not relevant.
    Key = streamlib.make_schema()
    key = streamlib.out_keys(Key, 0, conf)
    store = streamlib.open_store(ctx.folder, Key)
    obj, row, n_chunks = None, 0, 0
    for k, call in enumerate(case["calls"]):
        if call["reopen"] and (k == 0 or case["calls"][k - 1]["final"]):
            store = streamlib.open_store(ctx.folder, Key)
            obj = None
        if obj is None or (call["new"] and case["calls"][k - 1]["final"]):
            with ctx.sut("AggStream()"):
                obj = AggStream(
                    ordered_on="ts",
                    store=store,
                    keys=key,
                    parallel=case["parallel"],
                    **streamlib.key_settings(conf),
                )
            if k:
                ctx.tag("new_object")
        frames = []
        for size in call["sizes"]:
            frames.append(seed.frame(range(row, row + size), call["index"]))
            row += size
            n_chunks += bool(size)
            if not size:
                ctx.tag("empty_chunk")
        if not call["sizes"]:
            ctx.tag("empty_seed")
        with ctx.sut("agg()", call=k):
            obj.agg(
                streamlib.as_seed(frames, call["how"]),
                trim_start=False,
                discard_last=False,
                final_write=call["final"],
            )
        if call["final"]:
            streamlib.check_results(
                store, key, conf, seed, range(row), ctx, f"after call {k}"
            )
        else:
            ctx.tag("no_final_write")
    ctx.tag("bin_" + conf["bin"]["kind"], "scale_" + seed.axis.scale)
    if conf["snap"]:
        ctx.tag("snaps_and_bins" if conf["both"] else "snaps")
    if conf["mem"]:
        ctx.tag("small_memory")
    bins, _ = seed.reference(conf, range(seed.n))
    if len(bins) > 1 and (n_chunks > 2 or len(case["calls"]) > 1):
        ctx.nontrivial()
