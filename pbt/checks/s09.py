"""S09: all access paths and statistics agree with the data."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import require
from pbt.hist import dense_ints
from pbt.hist import ordered_ints
from pbt.storelib import canon
from pbt.storelib import ord_frame
from pbt.storelib import row_group_sizes
from pbt.storelib import same_frame
from pbt.storelib import to_vaex


ID = "S09"
RULE = (
    "a case is a history of 1-6 recordings (appends, ordered updates, duplicate drops, coalescing, "
    "possibly a first one without rows) with numeric/datetime columns holding nulls; after each, rows and order seen through pdf, pf "
    "(whole, per row group), vdf, and min_max of each column are compared; non-trivial if there are "
    "at least 2 row groups"
)
ASSUMPTIONS = ["min/max of nullable columns: nulls (None, NaN, NaT, NA) are not valid values"]
BUDGET = {"quick": 100, "thorough": 3000}
COLS = ["float64", "float32", "dt", "int64", "int8", "uint8", "uint32", "uint64", "int32", "Int64"]


@st.composite
def cases(draw, tier):
    ints = draw(st.sampled_from([dense_ints(0, 12), ordered_ints(0, 40)]))
    n = draw(st.integers(1, 6))
    long = draw(st.integers(0, 3)) == 0
    ops = []
    for i in range(n):
        ops.append(
            {
                "v": draw(ints),
                "mode": draw(st.sampled_from(["plain", "ordered", "ordered", "dups"])),
                "mrg": draw(st.integers(1, 2) if long else st.integers(1, 8)),
                "nirgs": draw(st.sampled_from([None, None, 1, 3])),
                "vaex": draw(st.sampled_from([0] * 8 + [1, 2, 3, 4, 5])),
                "null": draw(st.lists(st.integers(0, 2), min_size=1, max_size=4)),
            },
        )
    return {
        "kind": draw(st.sampled_from(["int64", "dt", "float", "int32"])),
        "cols": draw(st.lists(st.sampled_from(COLS), min_size=1, max_size=4, unique=True)),
        "ops": ops,
        "empty_first": draw(st.integers(0, 3)) == 0,
    }


def strategy(tier, shard):
    return cases(tier)


def nullify(df, pattern):
    """Set to null, row per row, columns that accept it, as per pattern."""
    n = len(df)
    for c in df.columns:
        if df[c].dtype.kind == "f" or df[c].dtype.kind == "M" or str(df[c].dtype) == "Int64":
            if c == "o":
                continue
            mask = np.array([pattern[i * len(pattern) // n] == 1 for i in range(n)])
            if mask.any():
                df[c] = df[c].mask(mask)
    return df


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        name: str

    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    key = Key("k")
    rid, last = 0, None
    handle = old = None
    ops = case["ops"]
    if case.get("empty_first"):
        ops = [{**ops[0], "v": []}] + ops
        ctx.tag("empty-first")
    for i, op in enumerate(ops):
        ints = op["v"]
        if op["mode"] == "plain" and last is not None:
            # Keeps the dataset ordered.
            ints = [x - ints[0] + last + 1 for x in ints]
        df = nullify(ord_frame(case["kind"], ints, rid, case["cols"]), op["null"])
        rid += len(ints)
        if ints:
            last = max(ints[-1], last) if last is not None else ints[-1]
        kwargs = {"max_row_group_size": op["mrg"], "max_nirgs": op["nirgs"]}
        if op["mode"] != "plain":
            kwargs["ordered_on"] = "o"
        if op["mode"] == "dups":
            kwargs["duplicates_on"] = "o"
        vaex = op["vaex"] and ints and "Int64" not in case["cols"]
        with ctx.sut("recording", op=i, settings=kwargs):
            store[key] = kwargs, (to_vaex(df, op["vaex"], ctx.folder) if vaex else df)
        with ctx.sut("reading", op=i):
            handle = store[key]
            pdf = handle.pdf
            pf = handle.pf
            whole = pf.to_pandas()
            sizes = row_group_sizes(pf)
            parts = [pf[j].to_pandas() for j in range(len(sizes))]
            vdf = handle.vdf
            vcols = vdf.get_column_names()
            vdata = {c: vdf.evaluate(c) for c in vcols}
            n_v = len(vdf)
        what = f"after recording {i}"
        same_frame(whole, pdf, f"{what}: pf vs pdf")
        require([len(p) for p in parts] == sizes, f"{what}: sizes of row groups")
        same_frame(
            pd.concat(parts, ignore_index=True) if parts else pdf,
            pdf,
            f"{what}: pf per row group vs pdf",
            dtypes=False,
        )
        require(vcols == list(pdf.columns), f"{what}: columns of vdf", got=vcols)
        require(n_v == len(pdf), f"{what}: number of rows of vdf", got=n_v, expected=len(pdf))
        for c in vcols:
            got, exp = vlist(vdata[c]), canon(pdf[c])
            require(
                got == exp, f"{what}: vdf vs pdf, column {c!r}", got=got[:20], expected=exp[:20]
            )
        if old is None:
            # Kept all along history, once used.
            old = handle
        else:
            with ctx.sut("reading with a handle obtained before", op=i):
                old_pdf, old_vdf = old.pdf, old.vdf
                old_n = len(old_vdf)
                old_o = vlist(old_vdf.evaluate("o"))
                old_mm = {c: old.min_max(c) for c in pdf.columns}
                new_mm = {c: handle.min_max(c) for c in pdf.columns}
            same_frame(old_pdf, pdf, f"{what}: pdf of a handle obtained before")
            require(
                old_n == len(pdf) and old_o == canon(pdf["o"]),
                f"{what}: vdf of a handle obtained before",
            )
            for c, mm in old_mm.items():
                require(
                    all(same(x, y) or (null(x) and null(y)) for x, y in zip(mm, new_mm[c])),
                    f"{what}: min_max of column {c!r} of a handle obtained before",
                    got=mm,
                    expected=new_mm[c],
                )
        if len(sizes) > 10:
            ctx.tag("more-than-10-rgs")
        if len(sizes) >= 2:
            ctx.nontrivial()
        for c in pdf.columns:
            with ctx.sut("min_max", column=c, op=i):
                mn, mx = handle.min_max(c)
            valid = pdf[c].dropna()
            if not len(valid):
                require(
                    null(mn) and null(mx), f"{what}: min_max of null column {c!r}", got=(mn, mx)
                )
                ctx.tag("min_max-null-column")
                continue
            require(
                not null(mn) and not null(mx) and same(mn, valid.min()) and same(mx, valid.max()),
                f"{what}: min_max of column {c!r} ({pdf[c].dtype})",
                got=(mn, mx),
                expected=(valid.min(), valid.max()),
                row_groups=[canon(p[c]) for p in parts],
            )
            if any(not p[c].notna().any() for p in parts):
                ctx.tag("min_max-null-row-group")


def null(x):
    return x is None or x is pd.NaT or x is pd.NA or x != x


def same(a, b):
    if isinstance(b, pd.Timestamp):
        return pd.Timestamp(a) == b
    return a == b


def vlist(arr):
    """Canonical values of a vaex evaluation (numpy, masked or arrow)."""
    if isinstance(arr, np.ma.MaskedArray):
        return [None if x is np.ma.masked else x for x in arr.astype(object).tolist()]
    if isinstance(arr, np.ndarray):
        return canon(pd.Series(arr))
    vals = arr.to_pylist() if hasattr(arr, "to_pylist") else list(arr)
    if "timestamp" in str(getattr(arr, "type", "")):
        import pyarrow as pa

        ints = arr.cast(pa.timestamp("ns")).cast(pa.int64()).to_pylist()
        return ints
    if any(isinstance(x, float) for x in vals):
        return [None if x is None or x != x else float(x).hex() for x in vals]
    return vals
