"""A08: a failing seed check keeps the results of the valid start."""
import random

from hypothesis import strategies as st

from pbt import streamlib
from pbt.checks.a07 import cut
from pbt.core import require
from pbt.streamlib import Seed


ID = "A08"
RULE = (
    "a case is a seed, 1 or 2 keys and a list of calls to agg(), each streaming rows cut in chunks, with "
    "the last group of rows left out or not; in a call, a chunk may be made faulty: rows out of order, "
    "or a value the user's check raises on; the call has then to raise, and recorded results be those "
    "of the rows of preceding chunks only (less their last group if left out); next call streams the "
    "corrected seed from any processed row (start trimmed) or from the first row not processed; at the end "
    "results are those of the whole seed; non-trivial if at least a call fails once some rows are processed"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "a call following one in which the last group is not left out is only given new rows",
    "an AggStream object is replaced by a new one only after a final write",
]
BUDGET = {"quick": 60, "thorough": 1500}
JIT_SHARDS = (7,)
MARK = 987654321


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=30))
    n = len(seed["pos"])
    calls = []
    seen = 0
    for _ in range(draw(st.integers(1, 4))):
        seen = min(n, seen + draw(st.integers(1, max(1, n))))
        calls.append(
            {
                "seen": seen,
                "back": draw(st.sampled_from([0, 0, 1, 3, 1000])),
                "cut": draw(st.sampled_from(["one", "singles", "small", "small", "free"])),
                "cut_seed": draw(st.integers(0, 2**16)),
                # Position of the faulty chunk, modulo number of chunks.
                "fault": draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5, 6, 7, -1])),
                "kind": draw(st.sampled_from(["check", "check", "order"])),
                "exc": draw(st.sampled_from(["value", "type", "stop", "key", "empty", "io"])),
                "discard": draw(st.booleans()),
                "final": draw(st.integers(0, 4)) > 0,
                "how": draw(st.sampled_from(["list", "gen", "tuple", "frame"])),
                "index": draw(st.sampled_from([None, None, "shift", "dup"])),
                "new": draw(st.booleans()),
                "reopen": draw(st.booleans()),
            },
        )
    # Corrected seed, up to its end.
    calls.append(
        {
            **draw(st.sampled_from(calls)),
            "seen": n,
            "fault": None,
            "discard": False,
            "final": True,
            "reopen": draw(st.booleans()),
        },
    )
    keys = [
        draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS))
        for _ in range(draw(st.integers(1, 2)))
    ]
    return {
        "seed": seed,
        "keys": keys,
        "calls": calls,
        # In place change of seed, at each call, by the user's check.
        "change": draw(st.booleans()),
    }


EXC = {
    "value": lambda: ValueError("user check"),
    "type": lambda: TypeError("user check"),
    "stop": lambda: StopIteration("user check"),
    "key": lambda: KeyError("user check"),
    "empty": lambda: ValueError(),
    "io": lambda: OSError(5, "user check"),
}


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    confs = case["keys"]
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    if case["change"]:
        # Reference is with modified values.
        seed_in = Seed(case["seed"])
        seed.cols = {**seed.cols, "i2": [3 * v for v in seed.cols["i2"]]}
    else:
        seed_in = seed
    for conf in confs:
        seed.reference(conf, list(range(seed.n)))  # Discarded if not relevant.
    exc = {"kind": None}

    def pre(on, buffer):
        if (on["d1"].astype("int64") == MARK).any():
            raise EXC[exc["kind"]]()
        if case["change"]:
            on["i2"] = on["i2"] * 3

    store = streamlib.open_store(ctx.folder, Key)
    obj = None
    p, ri = 0, None
    must_resume_exactly = flushed = False
    prev_final = True
    failed_late = False
    nums = seed.nums
    for k, call in enumerate(case["calls"]):
        r = random.Random(call["cut_seed"])
        if call["reopen"] and prev_final:
            store = streamlib.open_store(ctx.folder, Key)
            obj = None
        if obj is None or (call["new"] and prev_final):
            with ctx.sut("AggStream()"):
                obj = AggStream(
                    ordered_on="ts",
                    store=store,
                    pre=pre,
                    keys={k_: streamlib.key_settings(c) for k_, c in zip(keys, confs)},
                )
        stop = max(call["seen"], p)
        if flushed or must_resume_exactly:
            start, trim = p, False
        else:
            start, trim = max(0, p - call["back"]), call["back"] > 0
        n_rows = stop - start
        sizes = cut(n_rows, call["cut"], r)
        fault = None
        if sizes and call["fault"] is not None:
            fault = call["fault"] % len(sizes)
            # Fault on a chunk with rows.
            kind = call["kind"]
            ok = [
                i
                for i in range(len(sizes))
                if sizes[i] and (kind == "check" or _can_unorder(nums, start, sizes, i))
            ]
            if not ok and kind == "order":
                kind = "check"
                ok = [i for i in range(len(sizes)) if sizes[i]]
            fault = min(ok, key=lambda i: (abs(i - fault), i))
        frames, row = [], start
        valid_stop = None
        for i, size in enumerate(sizes):
            df = seed_in.frame(range(row, row + size), call["index"])
            if i == fault:
                valid_stop = row
                if kind == "check":
                    df["d1"] = df["d1"].to_numpy().copy()
                    df.iloc[r.randrange(size), df.columns.get_loc("d1")] = _mark()
                else:
                    df = _unorder(df, r)
            frames.append(df)
            row += size
        exc["kind"] = call["exc"]
        failed = False
        if fault is None:
            valid_stop = stop
            with ctx.sut("agg()", call=k):
                obj.agg(
                    streamlib.as_seed(frames, call["how"]),
                    trim_start=trim,
                    discard_last=call["discard"],
                    final_write=call["final"],
                )
        else:
            try:
                obj.agg(
                    streamlib.as_seed(frames, call["how"]),
                    trim_start=trim,
                    discard_last=call["discard"],
                    final_write=call["final"],
                )
            except Exception:
                failed = True
            require(failed, "agg() does not raise on a faulty chunk", call=k, fault=kind)
            ctx.tag("fault_" + kind)
        prev_final = call["final"]
        if valid_stop > start:
            last = nums[valid_stop - 1]
            new_p = valid_stop
            if call["discard"]:
                while new_p > p and nums[new_p - 1] == last:
                    new_p -= 1
            if new_p > p:
                p, ri = new_p, last
                flushed = not call["discard"]
                must_resume_exactly = False
                if failed:
                    failed_late = True
            elif valid_stop > p and flushed:
                flushed = False
                must_resume_exactly = True
        if call["final"]:
            for key, conf in zip(keys, confs):
                streamlib.check_results(
                    store,
                    key,
                    conf,
                    seed,
                    list(range(p)),
                    ctx,
                    f"after call {k}" + (" (failing)" if failed else ""),
                    processed=p,
                )
                if p:
                    got = streamlib.restart_index(store, key)
                    require(
                        seed.axis.back(got) == ri,
                        f"after call {k}: wrong restart index",
                        got=got,
                        expected=seed.axis.val(ri),
                    )
    require(p == seed.n, "harness: seed not entirely processed")
    if failed_late:
        ctx.nontrivial()


def _mark():
    import pandas as pd

    return pd.Timestamp(MARK)


def _can_unorder(nums, start, sizes, i):
    first = start + sum(sizes[:i])
    last = first + sizes[i] - 1
    return sizes[i] > 1 and nums[first] < nums[last]


def _unorder(df, r):
    """Permutation of rows which is not in order."""
    order = list(range(len(df)))
    ts = df["ts"].tolist()
    while all(ts[a] <= ts[b] for a, b in zip(order, order[1:])):
        r.shuffle(order)
    return df.iloc[order]
