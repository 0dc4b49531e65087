"""A11: results held in memory are bounded by the memory limit."""
from hypothesis import strategies as st

from pbt import streamlib
from pbt.core import Discard
from pbt.core import require
from pbt.streamlib import Seed


ID = "A11"
RULE = (
    "a case is a seed, 1 or 2 keys (bins, snapshots, or both), each with a memory limit (from 1 byte to some KB, "
    "or default one), and a schedule (chunks, calls, with or without final write); seed is a generator which, "
    "each time a chunk is asked for, compares the results already recorded to those of the rows already "
    "given (brute force): size of the results which are not recorded has not to exceed the limit by more "
    "than results of the last 3 chunks; with the default limit, nothing has to be recorded before a "
    "final write; recorded results have to be right at the end; non-trivial if results exceed the "
    "limit and this margin"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "size of results is number of rows * (number of columns + 1) * 8 bytes (data types are 8 bytes long)",
]
BUDGET = {"quick": 110, "thorough": 2500}
MB = 1048576


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=draw(st.sampled_from([20, 60, 60]))))
    keys = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        conf = draw(streamlib.key_configs(seed, fixed=True))
        if conf["bin"]["kind"] == "rows":
            conf["bin"]["n"] = draw(st.sampled_from([1, 1, 2, 3]))
        conf["mem"] = draw(st.sampled_from([1e-06, 1e-06, 0.0001, 0.0002, 0.0005, 0.001, 0.002, None]))
        if draw(st.booleans()):
            conf["mrg"] = None
        keys.append(conf)
    calls = draw(streamlib.schedules(len(seed["pos"]), max_calls=3))
    singles = draw(st.integers(0, 4)) > 0
    for call in calls:
        if singles:
            # Many chunks.
            n = sum(call["sizes"])
            k = draw(st.sampled_from([1, 1, 1, 2, 3]))
            call["sizes"] = [min(k, n - i) for i in range(0, n, k)]
    return {"seed": seed, "keys": keys, "calls": calls, "post": draw(st.booleans())}


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    confs = case["keys"]
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    for conf in confs:
        # Discarded if not relevant, or for too large a number of empty bins.
        bins, snaps = seed.reference(conf, list(range(seed.n)))
        if len(bins) + len(snaps or []) > 600:
            raise Discard
    store = streamlib.open_store(ctx.folder, Key)

    def post(buffer, bin_res, snap_res=None):
        return bin_res

    settings = {}
    for key, conf in zip(keys, confs):
        settings[key] = streamlib.key_settings(conf)
        if case["post"] and not conf["snap"]:
            settings[key]["post"] = post
    with ctx.sut("AggStream()"):
        obj = AggStream(ordered_on="ts", store=store, keys=settings)

    def n_recorded(key):
        return len(store[key].pdf) if key in store else 0

    memo = {}

    def sizes(conf, row):
        """Number of bins and snapshots, when 'row' rows are given."""
        if (id(conf), row) not in memo:
            bins, snaps = seed.reference(conf, list(range(row)))
            memo[id(conf), row] = len(bins), len(snaps or [])
        return memo[id(conf), row]

    ends = [0]  # Cumulated rows of the chunks of non-null size.
    done = [0]  # Rows being part of the results of a previous final write.
    crossed = [0]

    def check():
        for i, (key, conf) in enumerate(zip(keys, confs)):
            width = 8 * (len(conf["spec"]) + 1)
            main = key[0] if conf["both"] else key
            recorded = n_recorded(main)
            now = sizes(conf, ends[-1])
            at = 1 if conf["snap"] and not conf["both"] else 0
            if conf["mem"] is None:
                require(
                    recorded <= sizes(conf, done[0])[at],
                    "results are recorded before the final write, while size is well below memory limit",
                    recorded=recorded,
                    rows=ends[-1],
                )
                continue
            # Results of the last chunks (last row of previous chunk is given again).
            margin = 0
            for a, b in list(zip(ends, ends[1:]))[-3:]:
                before, after = sizes(conf, a), sizes(conf, b)
                margin += sum(y - x + 1 for x, y in zip(before, after)) * width
            held = (now[at] - recorded) * width
            limit = conf["mem"] * MB
            require(
                held <= limit + margin + 2 * width,
                "results held in memory exceed the limit",
                held=held,
                limit=limit,
                last_chunks=margin,
                recorded=recorded,
                results=now[at],
                rows=ends[-1],
                key=i,
            )
            crossed[0] = max(crossed[0], now[at] * width / (limit + margin))

    def stream(sizes_, start, index):
        for n in sizes_:
            check()
            yield seed.frame(range(start, start + n), index)
            start += n
            if n:
                ends.append(start)
        check()

    row = 0
    for k, call in enumerate(case["calls"]):
        with ctx.sut("agg()", call=k):
            obj.agg(
                stream(call["sizes"], row, call["index"]),
                trim_start=False,
                discard_last=False,
                final_write=call["final"],
            )
        row += sum(call["sizes"])
        if call["final"]:
            done[0] = row
        check()
        if call["final"]:
            for key, conf in zip(keys, confs):
                streamlib.check_results(
                    store, key, conf, seed, list(range(row)), ctx, f"after call {k}"
                )
    for conf in confs:
        ctx.tag("default limit" if conf["mem"] is None else "limit")
        ctx.tag("snaps_and_bins" if conf["both"] else "snaps" if conf["snap"] else "bins")
    if crossed[0] > 1:
        ctx.nontrivial()
