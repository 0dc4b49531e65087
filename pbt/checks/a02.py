"""A02: bin aggregation equals its definition."""
from pbt import agglib
from pbt.agglib import AggCase
from pbt.agglib import compare
from pbt.agglib import table
from pbt.core import require


ID = "A02"
RULE = (
    "a case is an ordered dataframe (integer, float or datetime axis; ties, gaps; int, float and "
    "datetime columns, negative and large values; any index), a bin definition (time period with any "
    "closed/label/origin/offset, explicit ends with or without labels, number of rows, user-defined "
    "function on another column) and 1-8 (output, column, function); results of cumsegagg() compared to a "
    "brute force aggregation; non-trivial if there are several bins and several rows in one of them"
)
ASSUMPTIONS = [
    "no null value in data, labels of bins are distinct, periods are fixed durations, or left-closed calendar periods",
    "'sum' is not asked on datetime columns",
    "'error_on_0' is False (0 is a legit value here)",
]
BUDGET = {"quick": 450, "thorough": 8000}
JIT_SHARDS = (6, 7)


def strategy(tier, shard):
    return agglib.agg_cases(with_snap=False, fixed=shard in JIT_SHARDS)


def run_case(case, ctx):
    a = AggCase(case)
    before = a.df.copy(deep=True)
    ref, _ = a.ref()
    with ctx.sut("cumsegagg()"):
        got, snaps = a.call(a.df)
    require(snaps is None, "snapshots returned while not requested")
    compare(table(got, a.axis, a.spec, "bins"), ref, a.axis, "bins")
    require(got.index.name == "ts", "name of index is not that of ordered column", got=got.index.name)
    require(a.df.equals(before), "data has been modified")
    ctx.tag(*a.tags())
    if len(a.bins) > 1 and any(e - s > 1 for s, e in (b["rows"] for b in a.bins)):
        ctx.nontrivial()
