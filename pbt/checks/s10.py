"""S10: rejected requests have no effect, accepted ones do not alter inputs."""
import copy
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import Violation
from pbt.core import require
from pbt.storelib import canon
from pbt.storelib import ord_frame
from pbt.storelib import same_frame
from pbt.storelib import to_vaex


ID = "S10"
RULE = (
    "a case is a history of 3-9 requests on 1-3 datasets mixing accepted recordings (checked not to "
    "alter any object handed over), requests that have to be rejected (25 kinds: key, data, "
    "columns, ordering, compression, metadata, row group size, schema...) and streamed aggregations "
    "(accepted or with a faulty configuration); after each rejection, listing (same and new "
    "collection object), data (pandas and vaex) and metadata of all datasets are compared to those "
    "before; non-trivial if a request has been rejected with a dataset already recorded"
)
ASSUMPTIONS = [
    "only kinds of requests the library does reject are in scope (it is lenient with others, e.g. "
    "additional columns or an unknown column to identify duplicates when there is no overlap)",
    "inputs of an accepted request may be modified by functions of the user (`pre`), not by oups",
]
BUDGET = {"quick": 70, "thorough": 1800}

# Rejected whatever the dataset already exists or not.
BAD_ANY = [
    "key_type",
    "key_other",
    "data_list",
    "data_none",
    "data_series",
    "data_dict",
    "tuple_first",
    "tuple_three",
    "ord_missing",
    "ord_tuple",
    "kwarg",
    "compression",
    "mrg_zero",
    "mrg_negative",
    "mrg_text",
    "md_int",
    "md_key",
    "md_list",
    "md_nested",
    "col_type",
]
# Only with a dataset already recorded.
BAD_EXIST = ["dup_no_ord", "dup_no_ord_list", "dup_unknown", "schema_missing", "schema_text"]
# Only with a new dataset.
BAD_NEW = ["cmidx_name", "cmidx_label", "unwritable"]
BAD_AGG = [
    "no_bin_by",
    "bad_bin_by",
    "param",
    "key_param",
    "filters_none",
    "filters_missing",
    "filters_extra",
    "dup_key",
    "not_agg",
    "agg_col",
    "agg_func",
    "out_col",
    "bin_on",
    "unordered",
]


@st.composite
def cases(draw, tier):
    n_keys = draw(st.integers(1, 3))
    ints = st.lists(st.integers(0, 12), min_size=1, max_size=6).map(sorted)
    ops = []
    for _ in range(draw(st.sampled_from([3, 4, 5, 6, 7, 9]))):
        kind = draw(st.sampled_from(["ok", "ok", "ok", "bad", "bad", "bad", "bad", "agg", "badagg"]))
        o = {"op": kind, "k": draw(st.integers(0, n_keys - 1))}
        if kind in ("ok", "bad"):
            o["v"] = draw(ints)
            o["mrg"] = draw(st.sampled_from([1, 2, 3, None]))
            o["nirgs"] = draw(st.sampled_from([None, None, 0, 2]))
            o["dup"] = draw(st.sampled_from([None, [], ["r"], ["o", "r"], "r"]))
            o["md"] = draw(st.booleans())
            o["vaex"] = draw(st.sampled_from([0] * 8 + [1, 2, 3, 4, 5]))
            o["lib"] = draw(st.booleans())
        if kind == "bad":
            # Kind for an existing dataset, and for a new one.
            o["bad"] = draw(st.sampled_from(BAD_ANY + BAD_EXIST * 2 + ["schema_missing"] * 3))
            o["badnew"] = draw(st.sampled_from(BAD_ANY + BAD_NEW * 3))
            o["ord"] = draw(st.booleans())
        if kind == "badagg":
            o["bad"] = draw(st.sampled_from(BAD_AGG))
        if kind in ("agg", "badagg"):
            o["v"] = draw(st.lists(st.integers(0, 30), min_size=2, max_size=10).map(sorted))
            o["cut"] = draw(st.integers(1, len(o["v"])))
            o["trim"] = draw(st.booleans())
            o["discard"] = draw(st.booleans())
        ops.append(o)
    return {"keys": n_keys, "ops": ops}


def strategy(tier, shard):
    return cases(tier)


def reset():
    from oups.store.writer import OUPS_METADATA

    OUPS_METADATA.clear()


def state(store, ParquetSet, base, Key, what, ctx):
    """Observable state of the collection, and of a new handle on it."""
    out = {}
    with ctx.sut(f"reading collection, {what}"):
        for name, s in (("same", store), ("new", ParquetSet(base, Key))):
            keys = list(s)
            out[name] = [repr(k) for k in keys], len(s), repr(s)
            for k in keys:
                h = s[k]
                pdf = h.pdf
                out[name, repr(k)] = (
                    [(str(c), str(pdf[c].dtype), canon(pdf[c])) for c in pdf.columns],
                    sorted((x, y) for x, y in h.metadata.items() if x != "oups"),
                    # Library metadata, by text.
                    repr(h._oups_metadata or {}),
                )
                if len(pdf):
                    vdf = h.vdf
                    out[name, repr(k), "vdf"] = (len(vdf), vdf["o"].tolist())
    return out


def deep(df):
    return df.copy(deep=True)


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel
    from oups.store.writer import OUPS_METADATA

    @toplevel(fields_sep=".")
    class Other:
        a: str
        i: int

    @toplevel
    class Key:
        a: str
        i: int

    OUPS_METADATA.clear()
    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    keys = [Key("a", i) for i in range(case["keys"])]
    rows = {}  # Number of rows per key.
    rid = 0
    shared = {"md": {"a": "b", "z": None, "n": "m"}, "levels": ["x", "y"]}
    for j, op in enumerate(case["ops"]):
        key, kind = keys[op["k"]], op["op"]
        what = f"op {j} {kind} {op.get('bad', '')} on {op['k']}"
        before = state(store, ParquetSet, base, Key, what, ctx)
        if kind in ("ok", "bad"):
            df = ord_frame("int64", op["v"], rid, ["float64"])
            df["t"] = ["t%d" % x for x in df["r"]]
            rid += len(op["v"])
            if op["lib"]:
                OUPS_METADATA[key] = {"lib": rid}
        if kind == "ok":
            kwargs = {
                "ordered_on": "o",
                "max_row_group_size": op["mrg"],
                "max_nirgs": op["nirgs"],
                "duplicates_on": op["dup"],
                "metadata": shared["md"] if op["md"] else None,
            }
            ref_kwargs = copy.deepcopy(kwargs)
            ref_df = deep(df)
            data = to_vaex(df, op["vaex"], ctx.folder) if op["vaex"] else df
            arrays = {c: df[c].to_numpy() for c in df.columns}
            with ctx.sut(what):
                store[key] = kwargs, data
            require(kwargs == ref_kwargs, f"{what}: parameters of the caller are modified",
                    got=kwargs, expected=ref_kwargs)
            require(list(kwargs) == list(ref_kwargs), f"{what}: parameters are reordered")
            same_frame(df, ref_df, f"{what}: dataframe of the caller is modified")
            require(df.index.equals(ref_df.index), f"{what}: index of the dataframe is modified")
            for c, a in arrays.items():
                require(
                    np.array_equal(a.astype(str), ref_df[c].to_numpy().astype(str)),
                    f"{what}: values of {c} are modified",
                )
            if op["vaex"]:
                same_frame(
                    data.to_pandas_df(), ref_df, f"{what}: vaex dataframe of the caller is modified"
                )
            rows[op["k"]] = 1
            ctx.tag("accepted")
        elif kind == "bad":
            exists = op["k"] in rows
            bad = op["bad"] if exists else op["badnew"]
            key_, value = bad_request(bad, key, df, op, Other)
            if value is None:
                continue
            what = f"op {j} {bad} on {'existing' if exists else 'new'} dataset"

            def do():
                store[key_] = value

            e = ctx.rejects(what, do)
            after = state(store, ParquetSet, base, Key, f"{what} ({e!r})", ctx)
            compare(before, after, what, e)
            require(
                key in store or not exists, f"{what}: dataset not any longer in the collection"
            )
            ctx.tag("bad-" + bad + ("-existing" if exists else "-new"))
            if rows:
                ctx.nontrivial()
        else:
            aggregate(op, j, store, Key, ctx, before, ParquetSet, base, bool(rows), keys)


def compare(before, after, what, e):
    for k in before:
        require(
            k in after and before[k] == after[k],
            f"{what}: the rejected request has changed {k}",
            exception=repr(e),
            before=before[k],
            after=after.get(k),
        )
    require(
        set(before) == set(after),
        f"{what}: the rejected request has added a dataset",
        exception=repr(e),
        got=sorted(map(str, set(after) - set(before))),
    )


def bad_request(bad, key, df, op, Other):
    """Key and value for a request to be rejected."""
    kw = {"max_row_group_size": op["mrg"]}
    if op["ord"]:
        kw["ordered_on"] = "o"
    data = to_vaex(df) if op["vaex"] else df
    if bad == "key_type":
        return "a-0", (kw, data)
    if bad == "key_other":
        return Other("a", 0), (kw, data)
    if bad.startswith("data_"):
        v = {
            "list": [[1, 2]],
            "none": None,
            "series": df["o"],
            "dict": {"o": [1], "r": [2]},
        }[bad[5:]]
        return key, (kw, v)
    if bad == "tuple_first":
        return key, (["max_row_group_size", 2], data)
    if bad == "tuple_three":
        return key, (kw, data, data)
    if bad == "ord_missing":
        return key, (kw | {"ordered_on": "zz"}, data)
    if bad == "ord_tuple":
        return key, (kw | {"ordered_on": ("o", "r")}, data)
    if bad == "kwarg":
        return key, (kw | {"foo": 1}, data)
    if bad == "compression":
        return key, (kw | {"compression": "FOO"}, data)
    if bad == "mrg_zero":
        return key, (kw | {"max_row_group_size": 0}, data)
    if bad == "mrg_negative":
        return key, (kw | {"max_row_group_size": -op["v"][0] - 1}, data)
    if bad == "mrg_text":
        return key, (kw | {"max_row_group_size": "a"}, data)
    if bad.startswith("md_"):
        md = {"int": {"a": 1}, "key": {1: "a"}, "list": ["a"], "nested": {"x": "y", "a": {"b": "c"}}}
        return key, (kw | {"metadata": md[bad[3:]]}, data)
    if bad == "col_type":
        # A column mixing types, in last row.
        d = df.copy()
        d["t"] = [*d["t"].iloc[:-1], {1, 2}]
        return key, (kw, d)
    if bad == "unwritable":
        d = df.copy()
        d["t"] = [*d["t"].iloc[:-1], ("a", 1)]
        return key, (kw, d)
    if bad == "dup_no_ord":
        return key, ({"duplicates_on": "r"}, data)
    if bad == "dup_no_ord_list":
        return key, ({"duplicates_on": []}, data)
    if bad == "dup_unknown":
        # Overlap with all recorded data.
        d = pd.concat([df.assign(o=-1), df.assign(o=50)], ignore_index=True)
        return key, ({"ordered_on": "o", "duplicates_on": ["zz"]}, d)
    if bad == "schema_missing":
        # Appended, so that columns have to be there.
        d = df.assign(o=df["o"] + 1000).drop(columns="t")
        return key, (kw, to_vaex(d) if op["vaex"] else d)
    if bad == "schema_text":
        d = df.assign(o=df["o"] + 1000, c_float64=["a"] * len(df))
        return key, (kw, d)
    if bad == "cmidx_name":
        d = df[["o", "r"]].copy()
        d.columns = pd.MultiIndex.from_tuples([("a", "b"), ("a", "c")], names=["x", None])
        return key, ({}, d)
    if bad == "cmidx_label":
        d = df[["o", "r"]].copy()
        d.columns = pd.MultiIndex.from_tuples([("a", 1), ("a", "c")], names=["x", "y"])
        return key, ({}, d)
    raise ValueError(bad)


def aggregate(op, j, store, Key, ctx, before, ParquetSet, base, recorded, keys):
    """Streamed aggregation: accepted, or with a faulty configuration."""
    from oups import AggStream
    from pandas import Grouper

    key, key2 = Key("agg", 0), Key("agg", 1)
    df = pd.DataFrame(
        {
            "o": pd.to_datetime(1_600_000_000 + np.array(op["v"]) * 60, unit="s"),
            "v": np.arange(1, len(op["v"]) + 1),
            "f": np.arange(1, len(op["v"]) + 1) * 0.5,
        },
    )
    # Only once per key: what is done here is not about results.
    key = Key(f"agg{j}", 0)
    key2 = Key(f"agg{j}", 1)
    agg = {"s": ("v", "sum"), "m": ("f", "max")}
    by = Grouper(key="o", freq="5min")
    bad = op.get("bad")
    filters = {"lo": [("v", "<=", 3)], "hi": [[("v", ">", 3)], [("f", ">", 1.0)]], "_": None}
    conf = {"bin_by": by, "agg": agg, "duplicates_on": ["o"], "max_in_memory_size": 0.00001}
    conf2 = {"bin_by": by, "metadata": None, "max_row_group_size": 3}
    kd = {"lo": {key: conf}, "hi": {key2: conf2}}
    params = {"ordered_on": "o", "keys": kd, "filters": filters, "agg": agg, "max_row_group_size": 2}
    seed = [df.iloc[: op["cut"]], df.iloc[op["cut"] :]]
    seed = [s for s in seed if len(s)]
    if bad == "no_bin_by":
        del conf2["bin_by"]
    elif bad == "bad_bin_by":
        conf["bin_by"] = "5min"
    elif bad == "param":
        params["foo"] = 1
    elif bad == "key_param":
        conf["foo"] = 1
    elif bad == "filters_none":
        params["filters"] = None
    elif bad == "filters_missing":
        del filters["lo"]
    elif bad == "filters_extra":
        filters["zz"] = [("v", "<", 1)]
    elif bad == "dup_key":
        kd["hi"][key] = conf2
    elif bad == "not_agg":
        others = [k for k in keys if k in store]
        if not others:
            return
        kd["hi"][others[0]] = conf2
    elif bad == "agg_col":
        conf["agg"] = {"s": ("zz", "sum")}
    elif bad == "agg_func":
        conf["agg"] = {"s": ("v", "median")}
    elif bad == "out_col":
        conf["agg"] = {"o": ("v", "sum")}
    elif bad == "bin_on":
        conf["bin_on"] = "v"
    elif bad == "unordered":
        seed[0] = seed[0].iloc[::-1]
        if seed[0]["o"].is_monotonic_increasing:
            return
    ref = {
        "params": {k: v for k, v in params.items() if k not in ("keys", "filters", "agg")},
        "filters": copy.deepcopy(params["filters"]),
        "agg": copy.deepcopy(agg),
        "conf": {k: copy.copy(v) for k, v in conf.items()},
        "conf2": {k: copy.copy(v) for k, v in conf2.items()},
        "kd": {k: list(v) for k, v in kd.items()},
        "seed": [deep(s) for s in seed],
        "by": repr(by),
    }
    what = f"op {j} aggregation {bad or ''}"

    def do():
        AggStream(store=store, **params).agg(
            seed=seed, trim_start=op["trim"], discard_last=op["discard"]
        )

    if bad is None:
        with ctx.sut(what):
            do()
        ctx.tag("aggregation")
    else:
        e = ctx.rejects(what, do)
        ctx.tag("badagg-" + bad)
        after = state(store, ParquetSet, base, Key, f"{what} ({e!r})", ctx)
        if bad == "unordered":
            # Nothing in results, but streaming status gets recorded.
            for k in list(after):
                if "agg" in str(k):
                    del after[k]
            after = {k: v for k, v in after.items() if k not in ("same", "new")}
            before = {k: v for k, v in before.items() if k not in ("same", "new")}
            before = {k: v for k, v in before.items() if "agg" not in str(k)}
        compare(before, after, what, e)
        if recorded:
            ctx.nontrivial()
    got = {
        "params": {k: v for k, v in params.items() if k not in ("keys", "filters", "agg")},
        "filters": params["filters"],
        "agg": agg,
        "conf": conf,
        "conf2": conf2,
        "kd": {k: list(v) for k, v in kd.items()},
        "by": repr(by),
    }
    for k, v in got.items():
        if k.startswith("conf"):
            require(
                list(v) == list(ref[k]) and all(same_conf(v[x], ref[k][x]) for x in v),
                f"{what}: configuration of the caller is modified",
                got=v,
                expected=ref[k],
            )
        else:
            require(
                v == ref[k], f"{what}: {k} of the caller is modified", got=v, expected=ref[k]
            )
    for s, r in zip(seed, ref["seed"]):
        same_frame(s, r, f"{what}: seed of the caller is modified")
        require(s.index.equals(r.index), f"{what}: index of the seed is modified")


def same_conf(a, b):
    return repr(a) == repr(b)
