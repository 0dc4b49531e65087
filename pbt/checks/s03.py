"""S03: duplicate dropping keeps the last, and only drops duplicates."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import require
from pbt.hist import dense_ints
from pbt.hist import ordered_ints
from pbt.hist import position
from pbt.storelib import ord_canon
from pbt.storelib import ord_values
from pbt.storelib import same_frame
from pbt.storelib import to_vaex
from pbt.storelib import VAEX_FORMS


ID = "S03"
RULE = (
    "a case is a history of 2-7 recordings of sorted data with duplicate-identifying columns "
    "(name, list, all columns); 'exact' histories keep groups unique within each recording and "
    "are compared to a last-wins model, 'mixed' ones (duplicates in new data, varying columns) to "
    "the validity rules of the property; non-trivial if at least one row is replaced"
)
ASSUMPTIONS = [
    "new data is itself sorted (documented requirement)",
    "duplicates within new data which does not overlap recorded values are allowed to stay "
    "(they are only looked for in rewritten row groups, as documented)",
]
BUDGET = {"quick": 160, "thorough": 6000}
K2 = ["x", "y", "", None]
K3 = [0.5, -1.0, float("nan")]
DUPS = ["o", ["o"], "k", ["k"], ["k", "k2"], ["k2", "o"], ["k3"], ["k", "k2", "k3", "o"], [], "k2"]


@st.composite
def cases(draw, tier):
    exact = draw(st.booleans())
    ints = draw(st.sampled_from([dense_ints(0, 12), dense_ints(0, 30, 14), ordered_ints(0, 25)]))
    mrgs = st.one_of(st.integers(1, 5), st.integers(3, 15), st.none())
    dup0 = draw(st.sampled_from(DUPS))
    mrg0 = draw(mrgs)
    ops = []
    for i in range(draw(st.integers(2, 7))):
        v = draw(ints)
        ops.append(
            {
                "v": v,
                "k": draw(
                    st.lists(
                        st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 2)).map(list),
                        min_size=len(v),
                        max_size=len(v),
                    ),
                ),
                "dup": dup0 if exact else draw(st.sampled_from([*DUPS, dup0, None])),
                "mrg": draw(st.sampled_from([mrg0, mrg0, draw(mrgs)])),
                "nirgs": draw(st.sampled_from([None, None, 0, 1, 3])),
                "vaex": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5])),
            },
        )
    return {
        "kind": draw(st.sampled_from(["int64", "dt", "float"])),
        "exact": exact,
        "rid": draw(st.booleans()),
        "ops": ops,
    }


def strategy(tier, shard):
    return cases(tier)


def frame(kind, ints, keys, rid, with_rid):
    d = {
        "o": ord_values(kind, ints),
        "k": np.array([k[0] for k in keys], dtype="int64"),
        "k2": np.array([K2[k[1]] for k in keys], dtype=object),
        "k3": np.array([K3[k[2]] for k in keys], dtype="float64"),
    }
    if not rid and len(ints) and d["k2"][0] is None:
        # Type of text columns is inferred from the very first value.
        d["k2"][0] = "x"
    if with_rid:
        d["r"] = np.arange(rid, rid + len(ints), dtype="int64")
    return pd.DataFrame(d)


def group_cols(dup, columns):
    if dup is None:
        return None
    if dup == []:
        return list(columns)
    dup = [dup] if isinstance(dup, str) else list(dup)
    return dup if "o" in dup else [*dup, "o"]


def group_keys(df, cols):
    """Hashable keys of rows, nulls alike."""
    out = []
    for row in df[cols].itertuples(index=False):
        out.append(tuple("\0null" if (x is None or x != x) else x for x in row))
    return out


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        name: str

    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    key = Key("k")
    kind, exact = case["kind"], case["exact"]
    # Without row id, only in 'exact' mode (all columns then possibly identify
    # duplicates).
    with_rid = case["rid"] or not exact
    cur, rid = None, 0
    for i, op in enumerate(case["ops"]):
        dup = op["dup"]
        ints, keys = op["v"], op["k"]
        df = frame(kind, ints, keys, rid, with_rid)
        cols = group_cols(dup, df.columns)
        if exact:
            # One row per group in new data.
            seen, keep = set(), []
            for j, g in enumerate(group_keys(df, cols)):
                if g not in seen:
                    keep.append(j)
                seen.add(g)
            df = df.iloc[keep].reset_index(drop=True)
            ints = [ints[j] for j in keep]
        rid += len(op["v"])
        kwargs = {
            "ordered_on": "o",
            "max_row_group_size": op["mrg"],
            "max_nirgs": op["nirgs"],
            "duplicates_on": list(dup) if isinstance(dup, list) else dup,
        }
        recorded = [] if cur is None else ord_canon(kind, cur["o"].to_numpy())
        pos = position(ints, recorded)
        vaex = op["vaex"]
        with ctx.sut("recording", op=i, new=ints, recorded=recorded, dup=dup):
            store[key] = kwargs, (to_vaex(df, op["vaex"], ctx.folder) if vaex else df)
        with ctx.sut("reading", op=i):
            got = store[key].pdf
        merged = df if cur is None else pd.concat([cur, df], ignore_index=True)
        merged = merged.sort_values("o", kind="stable", ignore_index=True)
        what = f"update {i} ({pos}, duplicates_on={dup}, new {ints}, recorded {recorded})"
        if exact:
            exp = merged[~last_flags(merged, cols)].reset_index(drop=True)
            same_frame(got, exp, what)
            if len(exp) < len(merged):
                ctx.nontrivial("replaced-exact")
        elif dup is None:
            same_frame(got, merged, what)
        else:
            validity(got, merged, df, cols, pos, what, ctx)
        ctx.tag(pos)
        if op["nirgs"] is not None:
            ctx.tag("coalesce-" + pos)
        if vaex:
            ctx.tag("vaex-" + VAEX_FORMS[op["vaex"] - 1])
        cur = got


def last_flags(df, cols):
    """Flag rows followed by another row of same group."""
    keys = group_keys(df, cols)
    seen, out = set(), []
    for g in reversed(keys):
        out.append(g in seen)
        seen.add(g)
    return np.array(out[::-1], dtype=bool)


def validity(got, merged, new, cols, pos, what, ctx):
    order = {r: j for j, r in enumerate(merged["r"].tolist())}
    rids = got["r"].tolist()
    require(all(r in order for r in rids), f"{what}: unknown row", got=rids)
    idx = [order[r] for r in rids]
    require(
        all(a < b for a, b in zip(idx, idx[1:])),
        f"{what}: rows are duplicated or not in order",
        got=got[["o", "r"]].values.tolist(),
    )
    # Rows that remain are unchanged.
    same_frame(got, merged.iloc[idx].reset_index(drop=True), what)
    flags = last_flags(merged, cols)
    left = set(idx)
    for j in range(len(merged)):
        if j not in left:
            require(
                flags[j],
                f"{what}: a row has been removed, but no later row has same values in {cols}",
                row=merged.iloc[j].tolist(),
            )
            ctx.nontrivial("replaced-mixed")
    if pos == "overlap":
        count = {}
        for g in group_keys(got, cols):
            count[g] = count.get(g, 0) + 1
        for g in set(group_keys(new, cols)):
            require(
                count.get(g) == 1, f"{what}: group {g} has {count.get(g)} rows", columns=cols
            )
