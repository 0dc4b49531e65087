"""A13: recorded results can themselves be aggregated, as they grow."""
import random

from hypothesis import strategies as st

from pbt import agglib
from pbt import streamlib
from pbt.core import require
from pbt.streamlib import Seed


ID = "A13"
RULE = (
    "a case is a growing seed, a fine aggregation (periods or number of rows, either side closed), and 1 or 2 "
    "coarser ones whose bins are unions of fine ones, with 1-5 sessions: new rows are first aggregated into "
    "fine bins (last one being in progress at end of a session), then recorded fine results, read "
    "by row groups, at once, or in pieces, are the seed of coarser aggregations, restarting from where they "
    "stopped (last fine bin is discarded but in last session); after each session, fine results are compared "
    "to a brute force aggregation of the rows, and coarse ones to a brute force aggregation of the very same "
    "rows but those of the last fine bin; non-trivial if a coarse bin holds several fine ones, over several sessions"
)
ASSUMPTIONS = [
    "aggregated columns are floats and datetimes (results of integer columns are of a nullable type, which "
    "cannot be aggregated)",
    "fine bins without rows, whose results are null, are filtered out with a filter",
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
]
BUDGET = {"quick": 110, "thorough": 2500}
JIT_SHARDS = (7,)
FINE = {
    "s": [("10s", ["1min", "2min", "30min"])],
    "min": [("1min", ["2min", "5min", "7min", "1h"]), ("5min", ["30min", "1h"]), ("2min", ["30min"])],
    "7min": [("5min", ["30min", "5h"]), ("7min", ["7h"]), ("30min", ["1h", "5h"])],
    "h": [("1h", ["5h", "7h", "1D", "2D"]), ("30min", ["1h", "5h"])],
    "12h": [("1h", ["1D"]), ("1D", ["2D"]), ("5h", ["5h"])],
}
FIXED = [
    ["cnt", "f1", "sum"],
    ["o1", "f2", "first"],
    ["o2", "f2", "last"],
    ["o3", "d1", "min"],
    ["o4", "f1", "max"],
    ["o5", "d1", "last"],
]


@st.composite
def strategy(draw, tier=None, shard=None):
    scale = draw(st.sampled_from(["dt", "dt", "dt", "int", "float"]))
    kind = draw(st.sampled_from(["grouper", "grouper", "rows"])) if scale == "dt" else "rows"
    seed = draw(streamlib.seeds(scale=scale, unique=kind == "rows"))
    # Ordered column shall not be 0 if aggregated.
    closed = draw(st.sampled_from(["left", "right"]))
    if kind == "grouper":
        fine, coarse = draw(st.sampled_from(FINE[seed["unit"]]))
        bins = [{"freq": fine, "label": closed}]
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            bins.append(
                {
                    "freq": draw(st.sampled_from(coarse)),
                    "label": draw(st.sampled_from(["left", "right"])),
                },
            )
        bins = [{"kind": kind, "closed": closed, "origin": "epoch", **b} for b in bins]
    else:
        n = draw(st.sampled_from([1, 2, 3]))
        bins = [{"kind": kind, "closed": closed, "n": n}]
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            bins.append({"kind": kind, "closed": closed, "n": draw(st.sampled_from([1, 2, 3, 4]))})
    if shard in JIT_SHARDS:
        spec = FIXED
    else:
        spec = [["cnt", "f1", "sum"]]
        for k in range(draw(st.integers(1, 4))):
            col = draw(st.sampled_from(["f1", "f2", "d1"]))
            func = draw(st.sampled_from(agglib.FUNCS if col != "d1" else agglib.FUNCS[:4]))
            spec.append([f"o{k}", col, func])
    keys = []
    for b in bins:
        keys.append(
            {
                "bin": b,
                "snap": None,
                "both": False,
                "named": "ts",
                "spec": spec,
                "mrg": draw(st.sampled_from(streamlib.MRG)),
                "nirgs": draw(st.sampled_from([None, None, 1, 2])),
                "mem": draw(st.sampled_from(streamlib.MEMORY)),
                "codec": None,
            },
        )
    n = len(seed["pos"])
    sessions, left = [], n
    n_s = draw(st.integers(1, 5))
    for k in range(n_s):
        size = left if k == n_s - 1 else draw(st.integers(0, left))
        left -= size
        sessions.append(
            {
                "sizes": draw(streamlib.chunk_sizes(size)),
                "how": draw(st.sampled_from(["list", "gen"])),
                "read": draw(st.sampled_from(["rgs", "rgs", "pdf", "pieces"])),
                "cut": draw(st.integers(1, 5)),
                "new": draw(st.booleans()),
                "reopen": draw(st.booleans()),
                "coarse": draw(st.integers(0, 4)) > 0 or k == n_s - 1,
            },
        )
    return {
        "seed": seed,
        "keys": keys,
        "sessions": sessions,
        "parallel": draw(st.booleans()),
    }


def results(store, key, session):
    """Recorded results, as a seed."""
    handle = store[key]
    if session["read"] == "pdf":
        return handle.pdf
    if session["read"] == "rgs":
        return handle.pf.iter_row_groups()
    df = handle.pdf
    cut = session["cut"]
    return [df.iloc[i : i + cut] for i in range(0, len(df), cut)]


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    confs = case["keys"]
    fine, coarse = confs[0], confs[1:]
    # Same rows, coarser bins.
    refs = [dict(c) for c in coarse]
    for r in refs:
        if r["bin"]["kind"] == "rows":
            r["bin"] = {**r["bin"], "n": fine["bin"]["n"] * r["bin"]["n"]}
    for c in [fine, *refs]:
        seed.reference(c, range(seed.n))  # Discarded if not relevant.
    Key = streamlib.make_schema()
    keys = [Key(f"k{i}", "res") for i in range(len(confs))]
    store = streamlib.open_store(ctx.folder, Key)

    def settings(conf):
        out = streamlib.key_settings(conf)
        out["agg"] = {o: (o, func) for o, _, func in conf["spec"]}
        return out

    row, first, second, started, done = 0, None, None, False, 0
    n_sessions = 0
    for k, session in enumerate(case["sessions"]):
        if session["reopen"]:
            store = streamlib.open_store(ctx.folder, Key)
            first = second = None
        if session["new"]:
            first = second = None
        if first is None:
            with ctx.sut("AggStream() for fine bins"):
                first = AggStream(
                    ordered_on="ts", store=store, keys=keys[0], **streamlib.key_settings(fine)
                )
        frames = []
        for size in session["sizes"]:
            frames.append(seed.frame(range(row, row + size)))
            row += size
        with ctx.sut("agg() into fine bins", session=k):
            first.agg(
                streamlib.as_seed(frames, session["how"]), trim_start=False, discard_last=False
            )
        what = f"after session {k}"
        streamlib.check_results(store, keys[0], fine, seed, range(row), ctx, f"{what}, fine")
        last = k == len(case["sessions"]) - 1
        if not row or not session["coarse"]:
            continue
        if second is None:
            with ctx.sut("AggStream() for coarse bins"):
                second = AggStream(
                    ordered_on="ts",
                    store=store,
                    keys={"rows": {key: settings(conf) for key, conf in zip(keys[1:], coarse)}},
                    filters={"rows": [("cnt", ">", 0)]},
                    parallel=case["parallel"],
                )
        n_sessions += 1
        with ctx.sut("agg() of fine results", session=k):
            second.agg(
                results(store, keys[0], session), trim_start=True, discard_last=not last
            )
        bins = [b for b in agglib.ref_bins(fine["bin"], seed.nums[:row])]
        upto = row if last else bins[-1]["rows"][0]
        for key, ref in zip(keys[1:], refs):
            streamlib.check_results(
                store, key, ref, seed, range(upto), ctx, f"{what}, coarse", upto=upto, n_rows=row
            )
    ctx.tag("bin_" + fine["bin"]["kind"], "closed_" + fine["bin"]["closed"])
    bins = seed.reference(fine, range(seed.n))[0]
    for ref in refs:
        n = len(seed.reference(ref, range(seed.n))[0])
        if n_sessions > 1 and 1 < n < len(bins):
            ctx.nontrivial()
