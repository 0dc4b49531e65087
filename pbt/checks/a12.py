"""A12: aggregation requests which cannot be honoured are rejected."""
import copy
from functools import partial

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import agglib
from pbt import streamlib
from pbt.agglib import AggCase
from pbt.agglib import agg_arg
from pbt.agglib import bin_by_arg
from pbt.agglib import compare
from pbt.agglib import grouper
from pbt.agglib import keep_last
from pbt.agglib import snap_by_arg
from pbt.agglib import table
from pbt.core import Discard
from pbt.core import require


ID = "A12"
RULE = (
    "a case is a chained aggregation (as in A04) in which a fault is injected at a given piece, or a streamed "
    "aggregation (as in A05) whose settings or filters are made wrong: two rows swapped (any column type), "
    "settings contradicting each other, unknown columns or functions, user-defined bins being inconsistent, not "
    "covering data, or ending with an empty bin, explicit ends or points of observation without the one "
    "required to carry on, keys not aggregated up to the same point; request has to be rejected, nothing "
    "has to be recorded, and the right request which follows has to give right results; non-trivial if "
    "the fault comes after a valid piece or session, or in data having at least 4 rows"
)
ASSUMPTIONS = [
    "as for A04 and A05",
    "a request is rejected by an exception, whatever its type",
    "carrying on with the same buffer is only checked after a rejection due to data or settings (not due to "
    "the results of a user-defined function, which modifies its buffer)",
]
BUDGET = {"quick": 400, "thorough": 5000}
JIT_SHARDS = (7,)

CONF = [
    "key_vs_bin_on",
    "no_bin_on",
    "ordered_vs_bin_on",
    "no_on",
    "not_callable",
    "not_callable",
    "snap_closed",
    "snap_key",
    "snap_no_ordered",
    "agg_col",
    "agg_func",
    "tuple_len",
    "closed_none",
    "closed_bad",
]
GROUPER = ("key_vs_bin_on", "no_bin_on", "ordered_vs_bin_on", "snap_closed")
# Wrong settings of a stream, or wrong seed.
SETUP = [
    "seed_col",
    "seed_col",
    "agg_col",
    "agg_func",
    "kwarg",
    "conf_param",
    "no_bin_by",
    "not_callable",
    "bin_on",
    "out_name",
    "dupe_key",
    "filter_ids",
    "no_filters",
    "filter_default",
    "not_agg",
]
USER = [
    "closed",
    "labels_type",
    "labels_short",
    "labels_long",
    "ends_short",
    "ends_long",
    "not_covering",
    "empty_last",
    "other_label",
]


@st.composite
def strategy(draw, tier=None, shard=None):
    kind = draw(
        st.sampled_from(["order", "order", "conf", "user", "restart", "restart", "stream", "setup", "setup"]),
    )
    fixed = shard in JIT_SHARDS
    if kind in ("stream", "setup"):
        stream = ["index", "index", "op", "filter_col", "filter_level"]
        seed = draw(streamlib.seeds(max_n=20))
        return {
            "kind": kind,
            "seed": seed,
            "keys": [draw(streamlib.key_configs(seed, fixed=True)) for _ in range(2)],
            "fault": draw(st.sampled_from(SETUP if kind == "setup" else stream)),
            "at": draw(st.integers(0, 20)),
            "at2": draw(st.integers(0, 20)),
        }
    out = {"kind": kind}
    with_snap = scale = None
    if kind == "conf":
        out["fault"] = draw(st.sampled_from(CONF))
        if out["fault"] in GROUPER:
            with_snap, scale = False, "dt"
    elif kind == "order":
        out["dtype"] = draw(
            st.sampled_from([None] * 5 + ["int32", "int16", "uint64", "uint32", "uint16", "uint8"])
        )
        if out["dtype"]:
            with_snap, scale = False, "int"
    base = draw(agglib.agg_cases(with_snap, pieces=True, fixed=fixed, scale=scale))
    if kind == "conf" and out["fault"] in GROUPER:
        base["bin"] = draw(agglib.groupers(base["unit"]))
    out["base"] = base
    out["at"] = draw(st.integers(0, 30))
    out["i"], out["j"] = draw(st.integers(0, 40)), draw(st.integers(0, 40))
    out["buffer"] = draw(st.booleans())
    if kind == "user":
        out["fault"] = draw(st.sampled_from(USER))
    return out


def run_case(case, ctx):
    if case["kind"] in ("stream", "setup"):
        return run_stream(case, ctx)
    if case["kind"] == "conf":
        return run_conf(case, ctx)
    base = case["base"]
    a = AggCase(base)
    sizes = [s for s in base["cuts"] if s]
    at = case["at"] % len(sizes)
    kind = case["kind"]
    if kind == "restart":
        if a.b["kind"] != "series" and not (a.s and a.s["kind"] == "series"):
            raise Discard
        if len(sizes) < 2:
            raise Discard
        at = 1 + case["at"] % (len(sizes) - 1)
    df = a.df
    if kind == "order" and case["dtype"] and a.b["kind"] in ("rows", "change") and not a.s:
        if base["scale"] == "int" and 0 <= a.nums[0] and a.nums[-1] < np.iinfo(case["dtype"]).max:
            df = df.astype({"ts": case["dtype"]})
            ctx.tag("dtype_" + case["dtype"])
    ref_bins, ref_snaps = a.ref()
    buffer, bins, snaps, row = {}, [], [], 0
    for k, size in enumerate(sizes):
        piece = df.iloc[row : row + size]
        if base["index"] is None:
            piece = piece.reset_index(drop=True)
        if k == at:
            if kind == "order":
                order(case, ctx, a, piece, row, buffer)
            elif kind == "user":
                return user(case, ctx, a, piece, buffer, k, sizes)
            else:
                restart(case, ctx, a, piece, row, buffer)
            if k:
                ctx.nontrivial("later_piece")
        row += size
        with ctx.sut("cumsegagg()", piece=f"rows {row - size} to {row}", after_fault=k >= at):
            res = a.call(piece, buffer=buffer)
        bins.append(table(res[0], a.axis, a.spec, "bins"))
        if a.s:
            snaps.append(table(res[1], a.axis, a.spec, "snapshots"))
    compare(keep_last(bins), ref_bins, a.axis, f"bins, with a request rejected at piece {at}")
    if a.s:
        compare(
            keep_last(snaps), ref_snaps, a.axis, f"snapshots, with a request rejected at piece {at}"
        )


def order(case, ctx, a, piece, row, buffer):
    """Two rows are swapped in the piece."""
    n = len(piece)
    nums = a.nums[row : row + n]
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if nums[i] < nums[j]]
    if not pairs:
        raise Discard
    # Preferably neighbours.
    close = [p for p in pairs if p[1] == p[0] + 1]
    pairs = close if case["j"] % 2 else pairs
    i, j = pairs[case["i"] % len(pairs)]
    idx = list(range(n))
    idx[i], idx[j] = idx[j], idx[i]
    bad = piece.iloc[idx]
    if case["base"]["index"] is None:
        bad = bad.reset_index(drop=True)
    ctx.rejects(
        f"cumsegagg() on data which is not ordered (rows {i} and {j} swapped, out of {n})",
        a.call,
        bad,
        buffer=buffer if case["buffer"] or row else None,
    )
    ctx.tag("order")
    if n >= 4:
        ctx.nontrivial()


def restart(case, ctx, a, piece, row, buffer):
    """The end (point of observation) required to restart is not given."""
    b, s = a.b, a.s
    last = a.nums[row - 1]
    inside = [lambda e: last < e, lambda e: last <= e][a.closed == "right"]
    faulty = copy.copy(a)
    which = []
    if b["kind"] == "series":
        which.append("ends")
    if s and s["kind"] == "series":
        which.append("points")
    w = which[case["i"] % len(which)]
    if w == "ends":
        key = [e for e in b["ends"] if inside(e)][0]
        faulty.b = {**b, "ends": [e for e in b["ends"] if e != key]}
        if b.get("labels"):
            faulty.b["labels"] = [x for x, e in zip(b["labels"], b["ends"]) if e != key]
        if not faulty.b["ends"]:
            raise Discard
    else:
        after = [p for p in s["points"] if inside(p)]
        key = after[0] if after else s["points"][-1]
        faulty.s = {**s, "points": [p for p in s["points"] if p != key]}
        if not faulty.s["points"]:
            raise Discard
    ctx.rejects(
        f"cumsegagg() carrying on without the last of the {w} used ({key})",
        faulty.call,
        piece,
        buffer=copy.deepcopy(buffer),
    )
    ctx.tag("restart_" + w)


def user(case, ctx, a, piece, buffer, k, sizes):
    """Inconsistent results of a user-defined function."""
    from oups.aggstream.cumsegagg import cumsegagg

    fault = case["fault"]
    bin_by, bin_on = bin_by_arg(a.b, a.axis)
    if a.b["kind"] == "grouper":
        raise Discard
    with_buffer = case["buffer"] or k > 0 or fault in ("not_covering", "empty_last", "other_label")
    if fault == "other_label" and not (k and a.s):
        raise Discard
    if fault == "not_covering" and len(piece) < 2:
        raise Discard

    def wrong(on, buffer=None):
        starts, labels, n_null, closed, ends, unknown = bin_by(on=on, buffer=buffer)
        labels, ends = pd.Series(labels), pd.Series(ends)
        starts = np.array(starts)
        if fault == "closed":
            closed = [None, "both", "neither", "Left", 0][case["i"] % 5]
        elif fault == "labels_type":
            labels = [labels.tolist(), labels.to_numpy(), pd.Index(labels)][case["i"] % 3]
        elif fault == "labels_short":
            labels = labels.iloc[:-1]
        elif fault == "labels_long":
            labels = pd.concat([labels, labels.iloc[-1:]], ignore_index=True)
        elif fault == "ends_short":
            ends = ends.iloc[:-1]
        elif fault == "ends_long":
            ends = pd.concat([ends, ends.iloc[-1:]], ignore_index=True)
        elif fault == "not_covering":
            starts[-1] -= 1
        elif fault == "empty_last":
            starts = np.append(starts, starts[-1])
            labels = pd.concat([labels, labels.iloc[-1:]], ignore_index=True)
            ends = pd.concat([ends, ends.iloc[-1:]], ignore_index=True)
            n_null += 1
        elif fault == "other_label":
            x = labels.iloc[0]
            labels.iloc[0] = x + (pd.Timedelta(1, "ns") if a.axis.scale == "dt" else 1)
        return starts, labels, n_null, closed, ends, unknown

    ctx.rejects(
        f"cumsegagg() with a user-defined function of which results are wrong ({fault})",
        cumsegagg,
        piece,
        agg_arg(a.spec),
        wrong,
        ordered_on="ts",
        bin_on=bin_on,
        snap_by=snap_by_arg(a.s, a.axis),
        buffer=buffer if with_buffer else None,
        error_on_0=False,
    )
    ctx.tag("user_" + fault)
    if k or len(piece) >= 4:
        ctx.nontrivial()


def run_conf(case, ctx):
    from oups.aggstream.cumsegagg import cumsegagg
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows
    from oups.aggstream.segmentby import setup_segmentby

    a = AggCase(case["base"])
    b, s, fault = a.b, a.s, case["fault"]
    is_grouper = b["kind"] == "grouper"
    bin_by, bin_on = bin_by_arg(b, a.axis)
    agg = agg_arg(a.spec)
    kw = {"bin_by": bin_by, "bin_on": bin_on, "ordered_on": "ts", "snap_by": snap_by_arg(s, a.axis)}
    segment = True  # Wrong for segmentation only.
    if fault in ("key_vs_bin_on", "no_bin_on", "ordered_vs_bin_on", "snap_closed"):
        if not is_grouper:
            raise Discard
        if fault == "key_vs_bin_on":
            kw["bin_on"] = "d1"
        elif fault == "no_bin_on":
            kw["bin_by"], kw["bin_on"] = grouper(b), None
            kw["ordered_on"] = [None, "ts"][case["i"] % 2]
        elif fault == "ordered_vs_bin_on":
            kw["ordered_on"] = "d1"
        else:
            g = {"freq": "1h", "label": "left", "closed": {"left": "right", "right": "left"}[a.closed]}
            kw["snap_by"] = grouper({**b, **g}, "ts")
    elif fault == "no_on":
        kw.update(bin_by=partial(by_x_rows, by=2), bin_on=None, ordered_on=None, snap_by=None)
    elif fault == "not_callable":
        kw["bin_by"] = ["1min", 3, None, pd.Series([1, 2]), [1, 2], ("a", "b")][case["i"] % 6]
    elif fault == "snap_key":
        if a.axis.scale != "dt":
            raise Discard
        g = {"freq": "1h", "label": "left", "closed": a.closed}
        kw["snap_by"] = grouper({**b, **g}, "d1")
    elif fault == "snap_no_ordered":
        kw.update(
            bin_by=partial(by_x_rows, by=2, closed=a.closed),
            bin_on="ts",
            ordered_on=None,
            snap_by=pd.Series(a.axis.col([a.nums[0], a.nums[-1] + 1])),
        )
    elif fault in ("tuple_len", "closed_none", "closed_bad"):
        ends = pd.Series(a.axis.col([a.nums[0], a.nums[-1] + 2]))
        kw["snap_by"] = None
        kw["bin_on"] = None
        by, closed = ends, "left"
        if fault == "tuple_len":
            by = (ends.iloc[:1], ends) if case["i"] % 2 else (ends, ends.iloc[1:])
        elif fault == "closed_none":
            closed = None
        else:
            closed = ["both", "neither", 0][case["i"] % 3]
        kw["bin_by"] = partial(by_scale, by=by, closed=closed)
        segment = False
    else:
        segment = False
        out, col, func = a.spec[case["i"] % len(a.spec)]
        if fault == "agg_col":
            agg[out] = ("zz", func)
        else:
            agg[out] = (col, ["mean", "", "First", "std", "count"][case["j"] % 5])
    ctx.rejects(
        f"cumsegagg() with wrong settings ({fault})",
        cumsegagg,
        a.df,
        agg,
        buffer={} if case["buffer"] else None,
        error_on_0=False,
        **kw,
    )
    if segment:
        ctx.rejects(f"setup_segmentby() with wrong settings ({fault})", setup_segmentby, **kw)
    ctx.tag("conf_" + fault)
    if len(a.df) >= 4:
        ctx.nontrivial()


def run_stream(case, ctx):
    """Streamed aggregations."""
    from oups import AggStream

    seed = streamlib.Seed(case["seed"])
    confs, fault = case["keys"], case["fault"]
    for conf in confs:
        seed.reference(conf, list(range(seed.n)))  # Discarded if not relevant.
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    settings = [streamlib.key_settings(c) for c in confs]
    store = streamlib.open_store(ctx.folder, Key)

    def listing():
        st_ = streamlib.open_store(ctx.folder, Key)
        return {
            str(k): (repr(st_[k].pdf.to_dict("list")), repr(st_[k]._oups_metadata)) for k in st_
        }

    def stream(which, start, stop, **kw):
        obj = AggStream(
            ordered_on="ts", store=store, keys={keys[i]: settings[i] for i in which}, **kw
        )
        obj.agg(seed.frame(range(start, stop)), trim_start=False, discard_last=False)

    if fault == "index":
        # Keys are not aggregated up to the same point.
        cuts = [p for p in range(1, seed.n) if seed.nums[p] != seed.nums[p - 1]]
        if not cuts:
            raise Discard
        p = cuts[case["at"] % len(cuts)]
        q = [seed.n, *cuts][case["at2"] % (len(cuts) + 1)]
        if p == q:
            q = seed.n
        with ctx.sut("agg()"):
            stream([0], 0, p)
            stream([1], 0, q)
        before = listing()
        ctx.rejects(
            "AggStream() with keys not aggregated up to the same point", stream, [0, 1], p, seed.n
        )
        require(listing() == before, "rejected request has modified recorded results")
        with ctx.sut("agg()"):
            stream([0], p, seed.n)
            if q < seed.n:
                stream([1], q, seed.n)
        streamlib.check_results(store, keys[0], confs[0], seed, list(range(seed.n)), ctx, "1st key")
        streamlib.check_results(store, keys[1], confs[1], seed, list(range(seed.n)), ctx, "2nd key")
        ctx.nontrivial("stream_index")
        return
    if fault in SETUP:
        return run_setup(case, ctx, seed, keys, settings, store, listing, stream)
    op = ["<>", "===", "", "IN", "is", "!"][case["at"] % 6] if fault == "op" else "=="
    col = "zz" if fault == "filter_col" else "i1"
    cond = (col, op, 1)
    filters = {"f": [cond] if fault == "filter_level" else [[cond]], "g": [[("i1", ">", 0)]]}
    if fault == "filter_level":
        filters = {"f": cond, "g": [[("i1", ">", 0)]]}

    def filtered():
        obj = AggStream(
            ordered_on="ts",
            store=store,
            keys={"f": {keys[0]: settings[0]}, "g": {keys[1]: settings[1]}},
            filters=filters,
        )
        obj.agg(seed.frame(), trim_start=False, discard_last=False)

    ctx.rejects(f"AggStream() with a wrong filter ({fault})", filtered)
    require(not listing(), "rejected request has recorded results")
    with ctx.sut("agg()"):
        stream([0, 1], 0, seed.n)
    for i in (0, 1):
        streamlib.check_results(
            store, keys[i], confs[i], seed, list(range(seed.n)), ctx, f"key {i} after a rejection"
        )
    ctx.nontrivial("stream_" + fault)


def run_setup(case, ctx, seed, keys, settings, store, listing, stream):
    """Wrong settings for a key or for the stream, or a column missing in the seed."""
    from oups import AggStream

    fault, n = case["fault"], seed.n
    cuts = [0, 0, *(p for p in range(1, n) if seed.nums[p] != seed.nums[p - 1])]
    p = cuts[case["at2"] % len(cuts)]
    if p:
        with ctx.sut("agg()"):
            stream([0, 1], 0, p)
        ctx.tag("2nd_session")
    confs = case["keys"]
    w = case["at"] % 2
    bad = [dict(s) for s in settings]
    bad[w]["agg"] = dict(bad[w]["agg"])
    out, col, func = confs[w]["spec"][case["at"] % len(confs[w]["spec"])]
    rest = [seed.frame(range(p, n))]
    if n - p > 2 and case["at"] % 3:
        rest = [seed.frame(range(p, p + 2)), seed.frame(range(p + 2, n))]
    faulty = rest
    kw = {"ordered_on": "ts", "store": store}
    filters = None
    if fault == "seed_col":
        faulty = [df.drop(columns=col) for df in rest]
    elif fault == "agg_col":
        bad[w]["agg"][out] = ("zz", func)
    elif fault == "agg_func":
        bad[w]["agg"][out] = (col, ["mean", "", "First", "std", "count"][case["at"] % 5])
    elif fault == "kwarg":
        kw[["row_group_size", "max_rows", "bin", "aggs"][case["at"] % 4]] = 5
    elif fault == "conf_param":
        bad[w][["row_group_size", "parallel", "filters", "pre"][case["at"] % 4]] = None
    elif fault == "no_bin_by":
        del bad[w]["bin_by"]
    elif fault == "not_callable":
        bad[w]["bin_by"] = ["1min", 3, None, pd.Series([1, 2]), ("a", "b")][case["at"] % 5]
    elif fault == "bin_on":
        if confs[w]["bin"]["kind"] != "grouper":
            raise Discard
        bad[w]["bin_on"] = ["d1", ("grp", "ts")][case["at"] % 2]
    elif fault == "out_name":
        name = ["ts", out][case["at"] % 2]
        bad[w]["bin_on"] = ("grp" if confs[w]["bin"]["kind"] == "change" else "ts", name)
        bad[w]["agg"][name] = (col, func)
    elif fault == "not_agg":
        if p:
            raise Discard
        main = keys[w][0] if isinstance(keys[w], tuple) else keys[w]
        with ctx.sut("recording of another dataset"):
            store[main] = seed.frame()
    layout = {keys[0]: bad[0], keys[1]: bad[1]}
    if fault in ("dupe_key", "filter_ids", "filter_default"):
        layout = {"f": {keys[0]: bad[0]}, "g": {keys[1]: bad[1]}}
        filters = {"f": [[("i1", ">", 0)]], "g": [[("i1", ">", 0)]]}
        if fault == "dupe_key":
            layout["g" if w else "f"] = {**layout["f"], **layout["g"]}
        elif fault == "filter_ids":
            if case["at"] % 3:
                filters["h"] = filters["f"]
            else:
                del filters["f"]
        else:
            layout["_"], filters["_"] = layout.pop("f"), filters.pop("f")
    elif fault == "no_filters":
        layout = {"f": {keys[0]: bad[0]}, "g": {keys[1]: bad[1]}}
    before = listing()
    objs = []

    def request():
        objs.append(AggStream(keys=layout, filters=filters, **kw))
        objs[0].agg(faulty, trim_start=False, discard_last=False)

    ctx.rejects(f"AggStream(), or its agg(), with a wrong setting ({fault})", request)
    require(listing() == before, f"rejected request ({fault}) has modified recorded results")
    if fault == "not_agg":
        with ctx.sut("removal of the other dataset"):
            del store[main]
    what = f"key {{}}, after a rejection ({fault})"
    with ctx.sut("agg()"):
        if fault == "seed_col":
            # With the same object.
            objs[0].agg(rest, trim_start=False, discard_last=False)
        else:
            stream([0, 1], p, n)
    for i in (0, 1):
        streamlib.check_results(
            store, keys[i], confs[i], seed, list(range(n)), ctx, what.format(i)
        )
    ctx.nontrivial("stream_" + fault)
