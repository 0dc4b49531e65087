"""Helpers for the checks related to streamed aggregation (AggStream)."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from pbt import agglib
from pbt.agglib import Axis
from pbt.agglib import agg_arg
from pbt.agglib import compare
from pbt.agglib import ref_bins
from pbt.agglib import ref_points
from pbt.agglib import ref_snaps
from pbt.agglib import ref_table
from pbt.agglib import table
from pbt.core import Discard
from pbt.core import require


STR = ["a", "b", "c", "é"]
MEMORY = [None, None, 1e-06, 0.0002, 0.0006]
MRG = [None, None, 1, 2, 3, 5, 20]


# --------------------------------------------------------------------------- #
# Generators.                                                                  #
# --------------------------------------------------------------------------- #
@st.composite
def seeds(draw, max_n=40, scale=None, unique=False):
    """Seed data, without negative nor null results (checked by the library)."""
    scale = scale or draw(st.sampled_from(["dt", "dt", "dt", "int", "float"]))
    unit = draw(st.sampled_from(["s", "min", "min", "7min", "h", "12h"])) if scale == "dt" else "min"
    pos = draw(agglib.positions(max_n=max_n, unique=unique))
    base = draw(agglib.bases(scale, unit, pos))
    n = len(pos)
    r = random.Random(draw(st.integers(0, 2**32)))
    few = draw(st.booleans())
    cols = {
        "i1": [r.randrange(1, 5 if few else 1000) for _ in range(n)],
        "i2": [r.choice([1, 2, 2**40, 77]) for _ in range(n)],
        "f1": [r.randrange(1, 5 if few else 1000) for _ in range(n)],
        "f2": [r.randrange(1, 50) for _ in range(n)],
        "d1": [r.randrange(0, 10**6) for _ in range(n)],
        "s": [r.choice(STR) for _ in range(n)],
        "ok": [r.random() < 0.6 for _ in range(n)],
    }
    runs = draw(st.integers(1, 4))
    cols["grp"] = [0] * n
    for i in range(1, n):
        change = pos[i] != pos[i - 1] and r.randrange(runs) == 0
        cols["grp"][i] = cols["grp"][i - 1] + (1 if change else 0)
    return {"scale": scale, "unit": unit, "base": base, "pos": pos, "cols": cols}


@st.composite
def key_configs(draw, seed, fixed=False, snaps=None):
    """Aggregation config for a key."""
    scale, unit, pos = seed["scale"], seed["unit"], seed["pos"]
    kind = draw(st.sampled_from(["rows", "change"] + (["grouper"] * 3 if scale == "dt" else [])))
    closed = draw(st.sampled_from(["left", "right"]))
    if kind == "grouper":
        b = draw(agglib.groupers(unit, calendar=True))
    elif kind == "rows":
        b = {"kind": kind, "closed": closed, "n": draw(st.sampled_from([1, 2, 3, 4, 7]))}
    else:
        b = {"kind": kind, "closed": closed}
    distinct = len(set(pos)) == len(pos)
    can_snap = scale == "dt" and (kind != "rows" or distinct)
    snap = None
    if can_snap and (draw(st.booleans()) if snaps is None else snaps):
        snap = draw(
            agglib.groupers(
                unit,
                closed=b["closed"] if kind == "grouper" else None,
                calendar=b["closed"] == "left",
            ),
        )
    conf = {
        "bin": b,
        "snap": snap,
        "both": draw(st.booleans()) if snap else False,
        # How results are named.
        # ('open' makes the ordered column an aggregation, which cannot be 0).
        "named": draw(
            st.sampled_from(["none", "ts"] if scale != "dt" and -seed["base"] in pos else ["none", "ts", "open"]),
        ),
        "spec": draw(st.sampled_from(agglib.FIXED_SPECS)) if fixed else draw(agglib.agg_specs(5)),
        "mrg": draw(st.sampled_from(MRG)),
        "nirgs": draw(st.sampled_from([None, None, 1, 2])),
        "mem": draw(st.sampled_from(MEMORY)),
        "codec": draw(st.sampled_from([None, "SNAPPY", "GZIP"])),
    }
    return conf


OPS = ["==", "=", "!=", ">", ">=", "<", "<=", "in", "not in"]


@st.composite
def conditions(draw, seed):
    cols = seed["cols"]
    col = draw(st.sampled_from(["i1", "i1", "f1", "s", "ok", "ts", "d1"]))
    if col == "ok":
        return [col, draw(st.sampled_from(["~", "==", "!="])), draw(st.booleans())]
    if col == "s":
        op = draw(st.sampled_from(["==", "=", "!=", "in", "not in"]))
        if op in ("in", "not in"):
            return [col, op, draw(st.lists(st.sampled_from([*STR, "zz"]), max_size=3))]
        return [col, op, draw(st.sampled_from([*STR, "zz"]))]
    vals = seed["pos"] if col == "ts" else cols[col]
    near = st.sampled_from(sorted({v + d for v in vals for d in (-1, 0, 1)}))
    op = draw(st.sampled_from(OPS if col not in ("ts", "d1") else OPS[:7]))
    if op in ("in", "not in"):
        return [col, op, draw(st.lists(near, max_size=4))]
    return [col, op, draw(near)]


@st.composite
def filter_defs(draw, seed):
    """DNF, or a single AND part."""
    ands = st.lists(conditions(seed), min_size=1, max_size=3)
    if draw(st.integers(0, 3)) == 0:
        return {"flat": True, "dnf": [draw(ands)]}
    return {"flat": False, "dnf": draw(st.lists(ands, min_size=1, max_size=3))}


@st.composite
def chunk_sizes(draw, n, max_chunk=12):
    """Sizes of chunks adding up to n."""
    mode = draw(st.sampled_from(["one", "singles", "free", "free", "small", "even"]))
    if not n:
        return []
    if mode == "one":
        return [n]
    if mode == "singles" and n <= 15:
        return [1] * n
    if mode == "even":
        k = draw(st.integers(1, n))
        return [min(k, n - i) for i in range(0, n, k)]
    out = []
    while n:
        k = min(n, draw(st.integers(1, 4 if mode == "small" else max_chunk)))
        out.append(k)
        n -= k
    return out


@st.composite
def schedules(draw, n, max_calls=4):
    """Calls to agg() streaming 'n' rows."""
    calls, left = [], n
    n_calls = draw(st.integers(1, max_calls))
    for k in range(n_calls):
        size = left if k == n_calls - 1 else draw(st.integers(0, left))
        left -= size
        sizes = draw(chunk_sizes(size))
        if draw(st.integers(0, 5)) == 0:
            sizes.insert(draw(st.integers(0, len(sizes))), 0)
        calls.append(
            {
                "sizes": sizes,
                "final": True if k == n_calls - 1 else draw(st.booleans()),
                "how": draw(st.sampled_from(["list", "list", "gen", "frame", "tuple"])),
                "index": draw(st.sampled_from([None, None, "shift", "dup"])),
                "new": draw(st.booleans()),
                "reopen": draw(st.booleans()),
            },
        )
    return calls


# --------------------------------------------------------------------------- #
# Reference.                                                                   #
# --------------------------------------------------------------------------- #
class Seed:
    def __init__(self, spec):
        self.axis = Axis(spec["scale"], spec["unit"], spec["base"])
        self.nums = [self.axis.num(p) for p in spec["pos"]]
        self.cols = spec["cols"]
        self.n = len(self.nums)

    def frame(self, rows=None, index=None):
        rows = list(range(self.n)) if rows is None else rows
        cols = {c: [v[i] for i in rows] for c, v in self.cols.items()}
        extra = {
            "s": np.array(cols["s"], dtype=object),
            "ok": np.array(cols["ok"], dtype=bool),
            "grp": np.array(cols["grp"], dtype="int64"),
        }
        return agglib.make_frame(self.axis, [self.nums[i] for i in rows], cols, index, extra)

    # Filters.
    def cond_value(self, col, v):
        if isinstance(v, list):
            return [self.cond_value(col, x) for x in v]
        if col == "ts":
            return self.axis.val(self.axis.num(v))
        if col == "f1":
            return v * 0.5
        if col == "d1":
            import pandas as pd

            return pd.Timestamp(v * 10**9 + agglib.T0)
        return v

    def filter_arg(self, filt):
        dnf = [
            [(c, op, None if op == "~" else self.cond_value(c, v)) for c, op, v in ands]
            for ands in filt["dnf"]
        ]
        return dnf[0] if filt["flat"] else dnf

    def keeps(self, filt, i):
        """Reference filtering of row 'i'."""
        if filt is None:
            return True

        def one(c, op, v):
            x = self.nums[i] if c == "ts" else self.cols[c][i]
            if c == "ts":
                v = self.axis.num(v)
            if op == "~":
                return not x
            if op == "in":
                return any(x == y for y in v)
            if op == "not in":
                return all(x != y for y in v)
            return {
                "==": x == v,
                "=": x == v,
                "!=": x != v,
                ">": x > v,
                ">=": x >= v,
                "<": x < v,
                "<=": x <= v,
            }[op]

        return any(all(one(*c) for c in ands) for ands in filt["dnf"])

    def reference(self, conf, rows):
        """(bins, snaps) tables of one-shot aggregation of these rows."""
        if not rows:
            return [], [] if conf["snap"] else None
        nums = [self.nums[i] for i in rows]
        cols = {c: [self.cols[c][i] for i in rows] for c in self.cols}
        b = conf["bin"]
        labels_ok = True
        bins = ref_bins(b, nums, cols["grp"])
        labels = [x["label"] for x in bins]
        if len(set(labels)) != len(labels):
            labels_ok = False
        if not labels_ok:
            raise Discard
        snaps = None
        if conf["snap"]:
            pts = ref_points(conf["snap"], nums, b["closed"])
            limit(len(pts), conf)
            snaps = ref_table(ref_snaps(pts, bins, nums, b["closed"]), cols, conf["spec"])
        limit(len(bins), conf)
        return ref_table(bins, cols, conf["spec"]), snaps


def limit(n, conf):
    """Thousands of empty bins or snapshots, or of row groups, only make a case slow."""
    if n > 400 * (conf.get("mrg") or 10):
        raise Discard


def label_name(conf):
    """Name in results of the column with labels."""
    if conf["named"] == "open" and conf["snap"] is None and conf["bin"]["kind"] != "grouper":
        return "open"
    return "ts"


def key_settings(conf):
    """Configuration of a key, as expected by AggStream."""
    bin_by, _ = agglib.bin_by_arg(conf["bin"], None)
    agg = agg_arg(conf["spec"])
    out = {"bin_by": bin_by, "agg": agg}
    kind = conf["bin"]["kind"]
    name = label_name(conf)
    if kind == "change":
        out["bin_on"] = ("grp", name)
    elif name == "open":
        out["bin_on"] = ("ts", name)
    elif conf["named"] == "ts":
        out["bin_on"] = "ts"
    if name == "open":
        # Ordered column is then an aggregation.
        agg["ts"] = ("ts", "first")
    if conf["snap"]:
        out["snap_by"] = agglib.grouper(conf["snap"], "ts")
    if conf["mrg"]:
        out["max_row_group_size"] = conf["mrg"]
    if conf["nirgs"]:
        out["max_nirgs"] = conf["nirgs"]
    if conf["mem"]:
        out["max_in_memory_size"] = conf["mem"]
    if conf["codec"]:
        out["compression"] = conf["codec"]
    return out


def make_schema():
    from oups import toplevel

    @toplevel
    class Key:
        name: str
        kind: str

    return Key


def out_keys(Key, i, conf):
    """Key(s) for the i-th configuration."""
    if conf["both"]:
        return (Key(f"k{i}", "bins"), Key(f"k{i}", "snaps"))
    return Key(f"k{i}", "res")


def read(store, key, ctx):
    if key not in store:
        return None
    with ctx.sut("reading of results"):
        return store[key].pdf


def check_results(store, key, conf, seed, rows, ctx, what, **detail):
    """Recorded results are those of a one-shot aggregation of 'rows'."""
    bins, snaps = seed.reference(conf, rows)
    spec = conf["spec"]
    parts = []
    if conf["both"]:
        parts = [(key[0], bins, "bins"), (key[1], snaps, "snapshots")]
    elif conf["snap"]:
        parts = [(key, snaps, "snapshots")]
    else:
        parts = [(key, bins, "bins")]
    for k, ref, name in parts:
        df = read(store, k, ctx)
        if not ref:
            require(
                df is None or len(df) == 0,
                f"{what}: {name} recorded while there is none",
                got=df,
                **detail,
            )
            continue
        require(df is not None, f"{what}: no {name} recorded", **detail)
        if not len(df.columns):
            require(False, f"{what}: no {name} recorded (empty dataset)", **detail)
        col = label_name(conf)
        require(col in df.columns, f"{what}: column '{col}' missing in {name}", got=list(df.columns))
        require(
            df[col].notna().all(), f"{what}: null labels in {name}", got=df[col].tolist(), **detail
        )
        if col == "open":
            require("ts" in df.columns, f"{what}: column 'ts' missing", got=list(df.columns))
            require(
                df["ts"].tolist() == df["open"].tolist(),
                f"{what}: first value of ordered column differs from label",
                got=df["ts"].tolist(),
                labels=df["open"].tolist(),
            )
            df = df.drop(columns="ts")
        got = table(df, seed.axis, spec, f"{what}, {name}", label_col=col, dtypes=False)
        compare(got, ref, seed.axis, f"{what}, {name}", **detail)


def restart_index(store, key):
    main = key[0] if isinstance(key, tuple) else key
    md = store[main]._oups_metadata
    if not isinstance(md, dict) or "aggstream" not in md:
        require(False, "no restart data recorded with results")
    return md["aggstream"]["restart_index"]


def open_store(folder, Key):
    from oups import ParquetSet

    return ParquetSet(os.path.join(folder, "store"), Key)


def as_seed(frames, how):
    if how == "frame" and len(frames) == 1:
        return frames[0]
    if how == "gen":
        return (f for f in frames)
    if how == "tuple":
        return tuple(frames)
    return frames
