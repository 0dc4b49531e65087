"""A07: restart on a growing seed counts each row exactly once."""
from hypothesis import strategies as st

from pbt import streamlib
from pbt.core import require
from pbt.streamlib import Seed


ID = "A07"
RULE = (
    "a case is a growing seed (datetime, integer or float axis, ties), 1 or 2 keys (possibly "
    "filtered) and a list of sessions; each session gives the seed available so far, from any already "
    "processed row on, cut in chunks, with trimming of its start and its last group of rows left out (or "
    "sometimes kept, in which case next session resumes with new rows only); rows of the left out "
    "group are incomplete and have temporary values, modified in next session; sessions use the same or new "
    "AggStream objects; after each final write, recorded results are compared to a brute force aggregation of "
    "the rows before the left out group, and the recorded restart index to the last value; non-trivial if at "
    "least 2 sessions process rows, one of them being given again rows already processed"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "a session following one in which the last group is not left out is only given new rows",
    "an AggStream object is replaced by a new one only after a final write",
]
BUDGET = {"quick": 110, "thorough": 2000}
JIT_SHARDS = (7,)


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=30))
    n = len(seed["pos"])
    n_calls = draw(st.integers(1, 6))
    seen, calls = 0, []
    for k in range(n_calls):
        if k == n_calls - 1 and draw(st.booleans()):
            seen = n
        else:
            seen += draw(st.sampled_from([0, 1, 1, 2, 3, 5, 9]))
        seen = min(n, seen)
        calls.append(
            {
                "seen": seen,
                # Rows already processed that are given again: none, all, some.
                "back": draw(st.sampled_from([0, 0, 1, 2, 3, 8, 1000])),
                "cut": draw(st.sampled_from(["one", "one", "singles", "small", "free"])),
                "cut_seed": draw(st.integers(0, 2**16)),
                "discard": draw(st.integers(0, 5)) > 0,
                "trim": draw(st.integers(0, 3)) > 0,
                "final": True if k == n_calls - 1 else draw(st.integers(0, 3)) > 0,
                "how": draw(st.sampled_from(["list", "gen", "frame", "tuple"])),
                "index": draw(st.sampled_from([None, None, "shift", "dup"])),
                "new": draw(st.booleans()),
                "reopen": draw(st.booleans()),
            },
        )
    n_keys = draw(st.integers(1, 2))
    keys = [draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS)) for _ in range(n_keys)]
    filters = None
    if draw(st.booleans()):
        filters = [
            draw(streamlib.filter_defs(seed)) if draw(st.booleans()) else None for _ in keys
        ]
    return {"seed": seed, "keys": keys, "filters": filters, "calls": calls}


def cut(n, mode, r):
    if not n:
        return []
    if mode == "one":
        return [n]
    top = {"singles": 1, "small": 3, "free": n}[mode]
    out = []
    while n:
        out.append(min(n, r.randint(0 if r.random() < 0.1 else 1, top)))
        n -= out[-1]
    return out


def run_case(case, ctx):
    import random

    from oups import AggStream

    seed = Seed(case["seed"])
    confs, filts = case["keys"], case["filters"]
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    kept = [
        [r for r in range(seed.n) if filts is None or seed.keeps(filts[i], r)]
        for i in range(len(keys))
    ]
    for i, conf in enumerate(confs):
        seed.reference(conf, kept[i])  # Discarded if not relevant.
    store = streamlib.open_store(ctx.folder, Key)
    obj = None
    # Rows processed are [0, p), 'ri' is the expected restart index.
    p, ri = 0, None
    must_resume_exactly = False
    flushed = False
    prev_final = True
    n_useful = again = 0
    nums = seed.nums
    for k, call in enumerate(case["calls"]):
        r = random.Random(call["cut_seed"])
        if call["reopen"] and prev_final:
            store = streamlib.open_store(ctx.folder, Key)
            obj = None
        if obj is None or (call["new"] and prev_final):
            settings = [streamlib.key_settings(c) for c in confs]
            if filts is None:
                args = {"keys": dict(zip(keys, settings))}
            else:
                args = {"keys": {}, "filters": {}}
                for i, f in enumerate(filts):
                    name = "_" if f is None else f"f{i}"
                    args["keys"].setdefault(name, {})[keys[i]] = settings[i]
                    args["filters"][name] = None if f is None else seed.filter_arg(f)
            with ctx.sut("AggStream()"):
                obj = AggStream(ordered_on="ts", store=store, **args)
        # Where seed is streamed from.
        stop = max(call["seen"], p)
        if flushed:
            start, trim = p, False
        elif must_resume_exactly:
            start, trim = p, call["trim"]
        elif call["trim"]:
            start, trim = max(0, p - call["back"]), True
        else:
            start, trim = p, False
        rows = list(range(start, stop))
        if trim and start < p:
            ctx.tag("trimmed")
        frame_rows = []
        at = 0
        for size in cut(len(rows), call["cut"], r):
            frame_rows.append(rows[at : at + size])
            at += size
        discard = call["discard"]
        last = nums[stop - 1] if rows else None
        frames = []
        for fr in frame_rows:
            df = seed.frame(fr, call["index"])
            if discard:
                # Temporary values in last group.
                for j, row in enumerate(fr):
                    if nums[row] == last:
                        for c in ("i1", "i2", "f1", "f2"):
                            df.iat[j, df.columns.get_loc(c)] = 1000003
                        df.iat[j, df.columns.get_loc("grp")] = 99
                        df.iat[j, df.columns.get_loc("s")] = "tmp"
            frames.append(df)
        with ctx.sut("agg()", call=k):
            obj.agg(
                streamlib.as_seed(frames, call["how"]),
                trim_start=trim,
                discard_last=discard,
                final_write=call["final"],
            )
        prev_final = call["final"]
        # Model.
        if rows:
            new_p = stop
            if discard:
                while new_p > p and nums[new_p - 1] == last:
                    new_p -= 1
            if new_p > p:
                again += bool(trim and start < p)
                n_useful += 1
                p, ri = new_p, last
                flushed = not discard
                must_resume_exactly = False
            elif stop > p:
                # Only left out rows.
                ctx.tag("nothing_processed")
                if flushed:
                    flushed = False
                    # Group of the restart index is already (partly) processed.
                    must_resume_exactly = True
        if call["final"]:
            for i, (key, conf) in enumerate(zip(keys, confs)):
                streamlib.check_results(
                    store,
                    key,
                    conf,
                    seed,
                    [x for x in kept[i] if x < p],
                    ctx,
                    f"after session {k}",
                    processed=p,
                )
                if p and filts is None:
                    got = streamlib.restart_index(store, key)
                    require(
                        seed.axis.back(got) == ri,
                        f"after session {k}: wrong restart index",
                        got=got,
                        expected=seed.axis.val(ri),
                    )
        else:
            ctx.tag("no_final_write")
    ctx.tag("scale_" + seed.axis.scale, *("bin_" + c["bin"]["kind"] for c in confs))
    if filts is not None:
        ctx.tag("filter" if None in filts else "all_filtered")
    if n_useful > 1 and again:
        ctx.nontrivial()
