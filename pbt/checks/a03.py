"""A03: a snapshot is the observation of the on-going bin."""
from pbt import agglib
from pbt.agglib import AggCase
from pbt.agglib import compare
from pbt.agglib import table
from pbt.core import require


ID = "A03"
RULE = (
    "a case is an ordered dataframe, a bin definition (as in A02) and points of observation (time period "
    "with any label/origin/offset, or explicit points on, around, before and after data, as Series or "
    "DatetimeIndex); snapshots compared to a brute force observation, bins to those obtained without "
    "snapshots and to a brute force aggregation; non-trivial if some snapshots are not null and there "
    "are several bins"
)
ASSUMPTIONS = [
    "as for A02; points of observation are distinct; bins cover all data",
    "rows sharing the same ordered value are in the same bin (a bin end positions the bin)",
    "bins and snapshots defined by periods have the same 'closed' (required by the library)",
]
BUDGET = {"quick": 450, "thorough": 8000}
JIT_SHARDS = (6, 7)


def strategy(tier, shard):
    return agglib.agg_cases(with_snap=True, fixed=shard in JIT_SHARDS)


def run_case(case, ctx):
    a = AggCase(case)
    before = a.df.copy(deep=True)
    ref_bins, ref_snaps = a.ref()
    with ctx.sut("cumsegagg()"):
        bins, snaps = a.call(a.df)
        alone, _ = a.call(a.df, snap=False)
    require(snaps is not None, "no snapshot returned")
    compare(table(snaps, a.axis, a.spec, "snapshots"), ref_snaps, a.axis, "snapshots")
    got = table(bins, a.axis, a.spec, "bins")
    compare(got, ref_bins, a.axis, "bins")
    compare(got, table(alone, a.axis, a.spec, "bins"), a.axis, "bins with vs without snapshots")
    require(snaps.index.name == "ts", "index of snapshots is not named", got=snaps.index.name)
    require(a.df.equals(before), "data has been modified")
    t = a.tags()
    ctx.tag(*t)
    if "some_snaps" in t and "several_bins" in t:
        ctx.nontrivial()
