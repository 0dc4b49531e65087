"""A04: chained aggregation equals single-shot aggregation."""
from pbt import agglib
from pbt.agglib import AggCase
from pbt.agglib import compare
from pbt.agglib import keep_last
from pbt.agglib import table
from pbt.core import require


ID = "A04"
RULE = (
    "a case is an ordered dataframe, bin and optional snapshot definitions (as in A02/A03), and a cut "
    "of the data in pieces (single rows, empty pieces, cuts inside ties, at bin ends, with empty bins "
    "in between); the buffer is kept, or serialised and reloaded, between pieces; results over pieces, "
    "latest per label, compared to the single-shot results and to brute force; non-trivial if "
    "a bin spans several pieces and there are several bins"
)
ASSUMPTIONS = [
    "as for A02 and A03; bins cover all data (required by the library when restarting)",
    "explicit points of observation are either given again in full, or from the last one used",
]
BUDGET = {"quick": 420, "thorough": 5000}
JIT_SHARDS = (6, 7)


def strategy(tier, shard):
    return agglib.agg_cases(pieces=True, fixed=shard in JIT_SHARDS)


def run_case(case, ctx):
    from cloudpickle import dumps
    from cloudpickle import loads

    a = AggCase(case)
    ref_bins, ref_snaps = a.ref()
    buffer = {}
    bins, snaps, row, last_snap = [], [], 0, None
    splits = set()
    for size in case["cuts"]:
        piece = a.df.iloc[row : row + size]
        if case["index"] is None:
            piece = piece.reset_index(drop=True)
        row += size
        splits.add(row)
        if case["repickle"]:
            buffer = loads(dumps(buffer))
        with ctx.sut("cumsegagg()", piece=f"rows {row - size} to {row}"):
            res = a.call(
                piece, buffer=buffer, snap_from=last_snap if case["snap_mode"] == "tail" else None
            )
        if not size:
            require(res[0] is None, "result for a piece without row", got=res)
            continue
        bins.append(table(res[0], a.axis, a.spec, "bins"))
        if a.s:
            require(res[1] is not None, "no snapshot returned")
            t = table(res[1], a.axis, a.spec, "snapshots")
            snaps.append(t)
            if t:
                last_snap = t[-1][0]
    compare(keep_last(bins), ref_bins, a.axis, "bins over pieces", cuts=case["cuts"])
    if a.s:
        compare(keep_last(snaps), ref_snaps, a.axis, "snapshots over pieces", cuts=case["cuts"])
    with ctx.sut("cumsegagg() in a single shot"):
        one = a.call(a.df)
    compare(table(one[0], a.axis, a.spec, "bins"), ref_bins, a.axis, "bins")
    ctx.tag(*a.tags())
    if any(s < k < e for k in splits for s, e in (b["rows"] for b in a.bins)):
        ctx.tag("bin_over_pieces")
        if len(a.bins) > 1:
            ctx.nontrivial()
    if len(bins) > 2:
        ctx.tag("3+pieces")
