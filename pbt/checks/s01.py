"""S01: written data reads back identical, further data is appended."""
import os
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.storelib import DT_APPEND
from pbt.storelib import DT_COALESCE
from pbt.storelib import column
from pbt.storelib import same_frame
from pbt.storelib import VAEX_FORMS
from pbt.storelib import to_vaex


ID = "S01"
RULE = (
    "a case is a list of 1-5 dataframes (column names/types, content drawn from edge values, kind "
    "of index, pandas/vaex/filtered vaex input, row group size) recorded one after the other under "
    "a key without ordering column; non-trivial if at least 2 recordings or 2 row groups, and at "
    "least one row is recorded"
)
ASSUMPTIONS = [
    "types: all numpy integer/float/bool/datetime64[ns]/timedelta64[ns], text, bytes, nullable "
    "Int64/boolean; category, tz-aware and non-nanosecond datetimes are not supported by vaex/"
    "fastparquet in all paths and are not generated",
    "first value of each column of the very first row is not null (fastparquet infers the type "
    "of object columns from it)",
]
BUDGET = {"quick": 300, "thorough": 3000}

NAMES = ["a", "b", "value", "a b", "é日", "1x", "class", "x.y", "c-d", "A", "_u", "o/1", "index"]
VAEX_KINDS = [
    "int64",
    "int32",
    "int16",
    "int8",
    "uint8",
    "uint16",
    "uint32",
    "uint64",
    "float64",
    "float32",
    "bool",
    "str",
    "dt",
    "Int64",
]
COMPRESSIONS = ["SNAPPY", "GZIP", "ZSTD", "BROTLI", "LZ4", "UNCOMPRESSED", None]


@st.composite
def cases(draw, tier):
    mode = draw(st.sampled_from(["pandas", "pandas", "vaex", "mixed", "coalesce"]))
    kinds = {
        "pandas": DT_APPEND,
        "vaex": VAEX_KINDS,
        "mixed": VAEX_KINDS,
        "coalesce": DT_COALESCE,
    }[mode]
    ncols = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=ncols, max_size=ncols, unique=True))
    cols = [[n, draw(st.sampled_from(kinds))] for n in names]
    frames = []
    for i in range(draw(st.integers(1, 5))):
        frames.append(
            {
                "n": draw(st.one_of(st.integers(1 if not i else 0, 12), st.integers(13, 90))),
                "seed": draw(st.integers(0, 10**6)),
                "index": draw(st.sampled_from(["range", "shuffled", "dup", "str", "dt", "slice"])),
                "vaex": draw(st.integers(1, 5))
                * (mode == "vaex" or (mode == "mixed" and draw(st.booleans()))),
                "filtered": draw(st.booleans()),
                "mrg": draw(st.one_of(st.none(), st.integers(1, 8), st.integers(9, 120))),
                "api": draw(st.sampled_from(["set", "item"])),
            },
        )
    return {
        "cols": cols,
        "frames": frames,
        "compression": draw(st.sampled_from(COMPRESSIONS)),
        "nirgs": draw(st.integers(0, 3)) if mode == "coalesce" else None,
    }


def strategy(tier, shard):
    return cases(tier)


def build(cols, f, first):
    rng = random.Random(f["seed"])
    n = f["n"]
    df = pd.DataFrame({c: column(k, n, rng, first) for c, k in cols}, columns=[c for c, _ in cols])
    kind = f["index"]
    if kind == "shuffled":
        df.index = np.array(rng.sample(range(n), n), dtype="int64")
    elif kind == "dup":
        df.index = np.zeros(n, dtype="int64")
    elif kind == "str":
        df.index = [f"i{rng.randrange(5)}" for _ in range(n)]
    elif kind == "dt":
        df.index = pd.to_datetime(np.arange(n)[::-1] * 10**9)
    elif kind == "slice" and n:
        df = pd.concat([df, df]).iloc[n // 2 : n // 2 + n]
        if first and df.iloc[0].isna().any():
            df = build(cols, {**f, "index": "range"}, first)
    return df


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        name: str

    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    key = Key("k")
    expected = []
    for i, f in enumerate(case["frames"]):
        df = build(case["cols"], f, not i)
        data = df
        if f["vaex"]:
            data = to_vaex(df.reset_index(drop=True), f["vaex"], ctx.folder)
            if f["filtered"] and len(df) and f["vaex"] != 2:
                mask = np.arange(len(df)) % 3 != 1
                data["flt_"] = mask
                data = data[data["flt_"]]
                data = data[[c for c, _ in case["cols"]]]
                df = df[mask]
                ctx.tag("vaex-filtered")
            ctx.tag("vaex-" + VAEX_FORMS[f["vaex"] - 1])
        kwargs = {"compression": case["compression"]}
        if case["nirgs"] is not None:
            # Thresholds of coalescing are defined with respect to it.
            kwargs["max_row_group_size"] = f["mrg"] or 50
            kwargs["max_nirgs"] = case["nirgs"]
            ctx.tag("coalesce")
        elif f["mrg"]:
            kwargs["max_row_group_size"] = f["mrg"]
        with ctx.sut("recording", op=i):
            if f["api"] == "set":
                store.set(key, data, **kwargs)
            else:
                store[key] = kwargs, data
        expected.append(df.reset_index(drop=True))
        if not len(df):
            ctx.tag("empty-update")
        exp = pd.concat(expected, ignore_index=True) if i else expected[0]
        with ctx.sut("reading", op=i):
            got = store[key].pdf
        same_frame(got, exp, f"dataset after recording {i}")
    with ctx.sut("re-opening"):
        got = ParquetSet(base, Key)[key].pdf
        n_rg = len(store[key].pf.row_groups)
    same_frame(got, exp, "dataset from a re-opened collection")
    for _, k in case["cols"]:
        ctx.tag("t-" + k)
    if len(exp) and (len(case["frames"]) > 1 or n_rg > 1):
        ctx.nontrivial()
