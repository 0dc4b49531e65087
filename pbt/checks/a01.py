"""A01: segmentation puts each row in exactly one right segment."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import agglib
from pbt.agglib import AggCase
from pbt.core import HarnessError
from pbt.core import require


ID = "A01"
RULE = (
    "a case is an ordered series (integer, float or datetime; ties, gaps, single row), a segmentation "
    "(time period with any closed/label/origin/offset, Series of ends, (labels, ends), number of rows) and "
    "optional points of observation, run at once, with an empty buffer, and over pieces; "
    "by_scale()/by_x_rows()/segmentby() results compared to a brute force assignment of rows, and time "
    "periods to a pandas groupby; non-trivial if there are at least 2 segments with rows"
)
ASSUMPTIONS = [
    "no null value, ends are distinct and sorted, periods are fixed durations, or left-closed calendar periods",
    "points of observation are merged with bins covering all data",
]
BUDGET = {"quick": 1500, "thorough": 20000}
JIT_SHARDS = tuple(range(8))


@st.composite
def strategy(draw, tier=None, shard=None):
    case = draw(agglib.agg_cases(pieces=True, max_n=40))
    case["cols"], case["spec"] = None, []
    b = case["bin"]
    if b["kind"] == "series" and case["snap"] is None and draw(st.booleans()):
        # Ends not necessarily covering data.
        b["ends"] = draw(agglib.points(case["pos"]))
        if b.get("labels"):
            b["labels"] = [e - 1 for e in b["ends"]]
        case["partial"] = True
    case["as_index"] = draw(st.booleans())
    return case


def nullrows(n):
    return {c: [1] * n for c in ("i1", "i2", "f1", "f2", "d1")}


def check_bins(a, bins, res, row0, what):
    """Result of a 'by' function vs reference bins (rows shifted by 'row0')."""
    require(len(res) == 6, f"{what}: 6 items expected", got=len(res))
    ncs, labels, n_null, closed, ends, _ = res
    require(
        len(ncs) == len(labels) == len(ends),
        f"{what}: sizes of starts, labels and ends differ",
        sizes=(len(ncs), len(labels), len(ends)),
    )
    require(isinstance(labels, pd.Series), f"{what}: labels are not a Series")
    require(closed == a.closed, f"{what}: wrong 'closed'", got=closed)
    stops = [int(x) for x in ncs]
    require(stops == [b["rows"][1] - row0 for b in bins], f"{what}: wrong rows in segments",
            got=stops, expected=[b["rows"][1] - row0 for b in bins])
    got = [a.axis.back(x) for x in labels]
    require(got == [b["label"] for b in bins], f"{what}: wrong labels",
            got=list(labels), expected=[str(a.axis.val(b["label"])) for b in bins])
    sizes = np.diff([0, *stops])
    require(n_null == int((sizes == 0).sum()), f"{what}: wrong number of empty segments",
            got=n_null, starts=stops)
    return labels, ends


def run_case(case, ctx):
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows
    from oups.aggstream.segmentby import segmentby

    n = len(case["pos"])
    case = {**case, "cols": nullrows(n)}
    a = AggCase(case)
    on = a.df["ts"]
    b = a.b
    by, bin_on = agglib.bin_by_arg(b, a.axis)
    bins = a.bins

    def segment(on, buffer, frame=None):
        if b["kind"] == "grouper":
            return by_scale(on, by, buffer=buffer)
        if b["kind"] == "series":
            arg = by.keywords["by"]
            if case["as_index"] and a.axis.scale == "dt":
                conv = pd.DatetimeIndex
                arg = tuple(map(conv, arg)) if isinstance(arg, tuple) else conv(arg)
            return by_scale(on, arg, closed=b["closed"], buffer=buffer)
        if b["kind"] == "rows":
            return by_x_rows(frame if frame is not None else on, b["n"], b["closed"], buffer)
        return by(frame, buffer=buffer)

    # 1/ At once, with and without buffer.
    if b["kind"] != "change":
        frame = a.df[["i1", "ts"]] if case["repickle"] else None
        for buffer in (None, {}):
            with ctx.sut("segmentation"):
                res = segment(on, buffer, frame)
            _, ends = check_bins(a, bins, res, 0, "at once")
            if b["kind"] in ("grouper", "series"):
                got = [a.axis.back(x) for x in ends]
                require(got == [x["end"] for x in bins], "wrong ends", got=list(ends))
                require(res[5] is False, "end of last segment should be known")
            else:
                require(bool(res[5]) == (bins[-1]["end"] is None), "is last end known or not?")
                got = [a.axis.back(x) for x in ends][: -1 if res[5] else None]
                require(got == [x["end"] for x in bins if x["end"] is not None], "wrong ends",
                        got=list(ends))
    # 2/ Agreement with pandas.
    if b["kind"] == "grouper" and not (b["freq"] == "2D" and a.closed == "right"):
        # (pandas shifts ends of right-closed multiple days to end of day)
        ref = pd.Series(1, index=pd.DatetimeIndex(on)).groupby(agglib.grouper(b)).count()
        if [x.value for x in ref.index] != [x["label"] for x in bins] or list(ref) != [
            e - s for s, e in (x["rows"] for x in bins)
        ]:
            raise HarnessError(f"reference differs from pandas: {ref} {bins}")
    # 3/ Over pieces.
    if not (b["kind"] == "change"):
        chained(a, case, segment, bins, ctx)
    # 4/ Merge with points of observation.
    if not case.get("partial"):
        merged(a, case, by, bin_on, segmentby, ctx)
    ctx.tag(*a.tags())
    if case.get("partial"):
        ctx.tag("partial_cover")
    if sum(e > s for s, e in (x["rows"] for x in bins)) > 1:
        ctx.nontrivial()


def chained(a, case, segment, bins, ctx):
    """Each row gets the same label, and labels are the same and in order."""
    buffer, row, seen, assigned = {}, 0, [], {}
    for size in case["cuts"]:
        if not size:
            continue
        on = a.df["ts"].iloc[row : row + size]
        frame = a.df[["i1", "ts"]].iloc[row : row + size] if case["repickle"] else None
        with ctx.sut("segmentation of a piece", rows=(row, row + size)):
            ncs, labels, n_null, _, ends, _ = segment(on, buffer, frame)
        require(len(ncs) == len(labels) == len(ends), "sizes of starts, labels and ends differ")
        require(np.asarray(ncs).dtype.kind in "iu", "starts are not integers", starts=ncs)
        start = 0
        sizes = []
        for stop, label in zip(ncs, labels):
            stop = int(stop)
            require(start <= stop <= size, "starts are not ordered or out of data", starts=list(ncs))
            lab = a.axis.back(label)
            if not seen or seen[-1] != lab:
                seen.append(lab)
            for i in range(start, stop):
                assigned[row + i] = lab
            sizes.append(stop - start)
            start = stop
        require(n_null == sizes.count(0), "wrong number of empty segments", got=n_null, sizes=sizes)
        row += size
    require(seen == [x["label"] for x in bins], "labels over pieces are not those of segments",
            got=[str(a.axis.val(x)) for x in seen],
            expected=[str(a.axis.val(x["label"])) for x in bins], cuts=case["cuts"])
    ref = {i: x["label"] for x in bins for i in range(*x["rows"])}
    require(assigned == ref, "rows over pieces are not in the right segments",
            got=assigned, expected=ref, cuts=case["cuts"])


def merged(a, case, by, bin_on, segmentby, ctx):
    snap_by = agglib.snap_by_arg(a.s, a.axis)
    with ctx.sut("segmentby()"):
        starts, bin_idx, bin_labels, n_null, snap_labels, n_max = segmentby(
            a.df, by, bin_on=bin_on, ordered_on="ts", snap_by=snap_by,
        )
    starts, bin_idx = [int(x) for x in starts], [int(x) for x in bin_idx]
    require([a.axis.back(x) for x in bin_labels] == [x["label"] for x in a.bins],
            "segmentby(): wrong labels of bins", got=list(bin_labels))
    sizes = [e - s for s, e in (x["rows"] for x in a.bins)]
    require(n_null == sizes.count(0), "segmentby(): wrong number of empty bins", got=n_null)
    if not a.s:
        require(starts == [x["rows"][1] for x in a.bins], "segmentby(): wrong starts", got=starts)
        return
    points = agglib.ref_points(a.s, a.nums, a.closed)
    require([a.axis.back(x) for x in snap_labels] == [p[0] for p in points],
            "segmentby(): wrong labels of snapshots", got=list(snap_labels))
    require(len(starts) == len(a.bins) + len(points), "segmentby(): wrong number of chunks")
    require(starts == sorted(starts), "segmentby(): starts are not in order", starts=starts)
    # Expected interleaving, observation point before the end of a bin.
    items = []
    for k, x in enumerate(a.bins):
        items.append((x["end"] is None, x["end"] or 0, 1, k, "bin", x["rows"][1]))
    for k, (_, p) in enumerate(points):
        stop = sum(agglib.inside(v, p, a.closed) for v in a.nums)
        items.append((False, p, 0, k, "snap", stop))
    items.sort(key=lambda t: t[:4])
    require(starts == [t[5] for t in items], "segmentby(): wrong starts of chunks",
            got=starts, expected=[t[5] for t in items])
    require(bin_idx == [i for i, t in enumerate(items) if t[4] == "bin"],
            "segmentby(): bins and snapshots are not in the right order",
            got=bin_idx, expected=[i for i, t in enumerate(items) if t[4] == "bin"])
    # Upper bound of null snapshots.
    null = sum(s == e for s, e in (x["rows"] for x in a.snaps))
    require(n_max >= null, "segmentby(): max number of null snapshots is too low", got=n_max, null=null)
