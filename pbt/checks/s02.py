"""S02: ordered update is an order-preserving merge."""
import os

import pandas as pd
from hypothesis import strategies as st

from pbt.hist import dense_ints
from pbt.hist import ordered_ints
from pbt.hist import position
from pbt.storelib import ord_canon
from pbt.storelib import ord_frame
from pbt.storelib import same_frame
from pbt.storelib import to_vaex
from pbt.storelib import VAEX_FORMS


ID = "S02"
RULE = (
    "a case is a history of 2-7 recordings of sorted data (with ties, gaps, overlaps, empty) with "
    "an ordering column, varying row group size, coalescing setting, ordering type and input type; "
    "after each one the dataset is compared to a stable sorted merge; non-trivial if at least one "
    "update falls before, in a gap of, or overlaps the recorded values"
)
ASSUMPTIONS = [
    "new data is itself sorted (documented requirement)",
    "other columns are of types supported by vaex when merging (no tz-aware, categorical, "
    "timedelta or nullable boolean column)",
]
BUDGET = {"quick": 200, "thorough": 6000}
EXTRA = ["float64", "str", "dt", "bool", "Int64", "uint8", "bytes", "float32"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(["int64", "dt", "float", "int32", "str"]))
    style = draw(st.sampled_from(["wide", "dense"]))
    ints = ordered_ints() if style == "wide" else dense_ints()
    mrgs = st.one_of(st.integers(1, 6), st.integers(1, 20), st.none())
    fixed = draw(st.booleans())
    mrg0 = draw(mrgs)
    ops = []
    for i in range(draw(st.integers(2, 7))):
        ops.append(
            {
                "v": [] if i and draw(st.integers(0, 19)) == 7 else draw(ints),
                "mrg": mrg0 if fixed else draw(mrgs),
                "nirgs": draw(st.sampled_from([None, None, 0, 1, 2, 3, 5])),
                "vaex": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5])),
                "plain": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5])),
            },
        )
    return {
        "kind": kind,
        "cols": draw(st.lists(st.sampled_from(EXTRA), max_size=2, unique=True)),
        "ops": ops,
    }


def strategy(tier, shard):
    return cases(tier)


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        name: str

    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    key = Key("k")
    kind = case["kind"]
    exp, rid, cols = None, 0, case["cols"]
    for i, op in enumerate(case["ops"]):
        ints = op["v"]
        vaex = op["vaex"] and "Int64" not in cols and "bytes" not in cols and ints
        df = ord_frame(kind, ints, rid, cols)
        rid += len(ints)
        kwargs = {"ordered_on": "o", "max_row_group_size": op["mrg"], "max_nirgs": op["nirgs"]}
        recorded = ord_list(kind, exp)
        pos = position(ints, recorded) if ints else "empty"
        if op["plain"] and (pos == "after" or pos == "first"):
            # New data following recorded one: no need for ordering column.
            del kwargs["ordered_on"]
            ctx.tag("plain")
        with ctx.sut("recording", op=i, new=ints, recorded=recorded):
            store[key] = kwargs, (to_vaex(df, op["vaex"], ctx.folder) if vaex else df)
        exp = df if exp is None else pd.concat([exp, df], ignore_index=True)
        exp = exp.sort_values("o", kind="stable", ignore_index=True)
        with ctx.sut("reading", op=i):
            h = store[key] if i % 2 else ParquetSet(base, Key)[key]
            got = h.pdf
        if [r for r in got["r"]] != [r for r in exp["r"]]:
            same_frame(
                got[["o", "r"]],
                exp[["o", "r"]],
                f"update {i} ({pos}, new values {ints}, recorded {recorded})",
            )
        same_frame(got, exp, f"update {i} ({pos}, new values {ints}, recorded {recorded})")
        ctx.tag(pos, "k-" + kind)
        if op["nirgs"] is not None:
            ctx.tag("coalesce-" + pos)
        if vaex:
            ctx.tag("vaex-" + VAEX_FORMS[op["vaex"] - 1])
        if pos in ("before", "gap", "overlap"):
            ctx.nontrivial()


def ord_list(kind, exp):
    if exp is None:
        return []
    if kind == "str":
        return [int(x[1:]) - 1000 for x in exp["o"]]
    return ord_canon(kind, exp["o"].to_numpy())
