"""S04: row group settings bound the layout, never the content."""
import os

import pandas as pd
from hypothesis import strategies as st

from pbt.core import require
from pbt.hist import dense_ints
from pbt.hist import ordered_ints
from pbt.hist import position
from pbt.storelib import ord_canon
from pbt.storelib import ord_frame
from pbt.storelib import row_group_sizes
from pbt.storelib import same_frame
from pbt.storelib import to_vaex


ID = "S04"
RULE = (
    "a case is a history of 1-7 recordings run under 2 different row group settings (size, "
    "coalescing) : content has to be the same, and the row groups of each are checked against the "
    "documented bounds; non-trivial if at least 3 row groups are met, and one is rewritten or "
    "coalesced"
)
ASSUMPTIONS = [
    "new data is itself sorted when an ordering column is given",
    "a row group holding exactly 90% of the maximum size is neither required to be seen "
    "as complete nor as incomplete",
]
BUDGET = {"quick": 130, "thorough": 4000}


@st.composite
def cases(draw, tier):
    mode = draw(st.sampled_from(["append", "append", "ordered", "dups"]))
    if mode == "append":
        ints = st.integers(0, 40).map(lambda n: list(range(n)))
        big = st.integers(1, 30)
    else:
        ints = draw(st.sampled_from([dense_ints(0, 15, 14), ordered_ints(0, 40)]))
        big = st.integers(1, 15)
    n = draw(st.integers(1, 7))
    ops = [draw(ints) if i else (draw(ints) or [0]) for i in range(n)]
    confs = []
    for c in range(2):
        # 'None' is for default maximum size, out of reach here.
        mrg = draw(big) if draw(st.integers(0, 7)) else None
        confs.append(
            [
                {
                    "mrg": mrg if draw(st.integers(0, 5)) else draw(big),
                    "nirgs": draw(st.sampled_from([None, 0, 1, 2, 3, 4, 6])),
                }
                for _ in range(n)
            ],
        )
    return {
        "mode": mode,
        "kind": draw(st.sampled_from(["int64", "dt", "float"])),
        "vaex": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4, 5])),
        "ops": ops,
        "confs": confs,
    }


def strategy(tier, shard):
    return cases(tier)


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        name: str

    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    mode, kind = case["mode"], case["kind"]
    keys = [Key("a"), Key("b")]
    maxes, sizes = [0, 0], [[], []]
    rid, recorded = 0, []
    shift, most, changed = 0, 0, False
    for i, ints in enumerate(case["ops"]):
        if mode == "append":
            ints = [x + shift for x in ints]
            shift += len(ints)
        df = ord_frame(kind, ints, rid)
        if mode == "dups":
            df["r"] = 0
            df["rid"] = range(rid, rid + len(ints))
            df = df.drop_duplicates("o", ignore_index=True)
            ints = ord_canon(kind, df["o"].to_numpy())
        rid += len(ints)
        pos = position(ints, recorded) if ints else "empty"
        contents = []
        for c, key in enumerate(keys):
            conf = case["confs"][c][i]
            mrg, nirgs = conf["mrg"], conf["nirgs"]
            kwargs = {"max_row_group_size": mrg, "max_nirgs": nirgs}
            if mrg is None:
                del kwargs["max_row_group_size"]
                mrg = 6_345_000
                ctx.tag("default-size")
            if mode != "append":
                kwargs["ordered_on"] = "o"
            if mode == "dups":
                kwargs["duplicates_on"] = "o"
            data = to_vaex(df, case["vaex"], ctx.folder) if case["vaex"] and len(df) else df
            with ctx.sut("recording", op=i, new=ints, recorded=recorded, settings=kwargs):
                store[key] = kwargs, data
            with ctx.sut("reading", op=i):
                pf = store[key].pf
                got = pf.to_pandas()
                now = row_group_sizes(pf)
                rgs = [pf[j].to_pandas()["o"] for j in range(len(now))]
            contents.append(got)
            before, sizes[c] = sizes[c], now
            maxes[c] = max(maxes[c], mrg)
            what = f"recording {i} ({pos}, {kwargs}, new {ints}, recorded {recorded})"
            vals = ord_canon(kind, got["o"].to_numpy())
            require(
                sum(now) == len(got), f"{what}: row groups do not hold all rows", sizes=now
            )
            # 1/ Max size.
            tie = longest_run(vals) if mode == "ordered" else 1
            require(
                max(now, default=0) <= maxes[c] + tie - 1,
                f"{what}: a row group holds {max(now, default=0)} rows, more than the maximum",
                sizes=now,
            )
            # 2/ Updated values lie in a single row group.
            if pos == "overlap" and mode != "append":
                for v in set(ints):
                    n_in = sum(v in ord_canon(kind, r.to_numpy()) for r in rgs)
                    require(n_in == 1, f"{what}: rows with value {v} are in {n_in} row groups")
                changed = True
            # 3/ Coalescing thresholds.
            if mode == "append" and i and ints:
                if nirgs is None:
                    require(
                        now[: len(before)] == before,
                        f"{what}: recorded row groups modified though no coalescing is requested",
                        before=before,
                        now=now,
                    )
                else:
                    changed |= coalescing(before, now, len(ints), mrg, nirgs, what, ctx)
            most = max(most, len(now))
        same_frame(contents[1], contents[0], f"{what}: content under 2 different settings")
        recorded = vals
        if i == 0:
            ctx.tag("m-" + mode)
        ctx.tag(pos)
    if most >= 3 and changed:
        ctx.nontrivial()


def longest_run(vals):
    best = run = 1
    for a, b in zip(vals, vals[1:]):
        run = run + 1 if a == b else 1
        best = max(best, run)
    return best


def coalescing(before, now, n_new, mrg, nirgs, what, ctx):
    """Check documented thresholds. Return True if coalescing is required."""
    # Trailing incomplete row groups.
    n_i, rows = 0, n_new
    for size in reversed(before):
        if 10 * size == 9 * mrg:
            return False  # ambiguous
        if 10 * size > 9 * mrg:
            break
        n_i += 1
        rows += size
    if not n_i or not (n_i >= max(nirgs, 1) or rows >= mrg):
        require(
            now[: len(before)] == before,
            f"{what}: recorded row groups modified though thresholds are not reached",
            before=before,
            now=now,
        )
        return False
    ctx.tag("coalesced-count" if n_i >= nirgs else "coalesced-rows")
    limit = len(before) - n_i + -(-rows // mrg)
    require(
        len(now) <= limit and now[: len(before) - n_i] == before[: len(before) - n_i],
        f"{what}: {n_i} incomplete row groups ({rows} rows with new ones) are not coalesced",
        before=before,
        now=now,
    )
    return True
