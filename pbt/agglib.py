"""
Helpers for the checks related to aggregation.

Positions on the ordered axis are integers in the cases. They are turned into
values of the scale by ``Axis`` ('int', 'float' or 'dt'). The reference
(segmentation, aggregation, observation) is written with plain python loops
over these integers, independently of numpy/pandas/numba.
"""
from functools import partial

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import require


UNITS = {"s": 10**9, "min": 60 * 10**9, "h": 3600 * 10**9, "12h": 12 * 3600 * 10**9, "7min": 420 * 10**9, "ns": 1}
DAY = 86400 * 10**9
T0 = pd.Timestamp("2020-01-01").value
FREQS = {
    "1min": 60 * 10**9,
    "2min": 120 * 10**9,
    "5min": 300 * 10**9,
    "7min": 420 * 10**9,
    "30min": 1800 * 10**9,
    "1h": 3600 * 10**9,
    "5h": 5 * 3600 * 10**9,
    "7h": 7 * 3600 * 10**9,
    "1D": DAY,
    "2D": 2 * DAY,
    "10s": 10 * 10**9,
}
CALENDAR = ["MS", "W", "QS"]


class Axis:
    """Conversion of integer positions into values of the ordered column."""

    def __init__(self, scale, unit="min", base=0):
        self.scale = scale
        self.mul = UNITS[unit]
        self.base = base  # in units

    def num(self, p):
        """Number used by the reference (ns for 'dt')."""
        if self.scale == "dt":
            return T0 + (p + self.base) * self.mul
        return p + self.base

    def val(self, num):
        """Value in the scale, from the number of the reference."""
        if self.scale == "dt":
            return pd.Timestamp(num)
        if self.scale == "float":
            return num * 0.5
        return int(num)

    def col(self, nums):
        if self.scale == "dt":
            return np.array(nums, dtype="int64").view("datetime64[ns]")
        if self.scale == "float":
            return np.array([n * 0.5 for n in nums], dtype="float64")
        return np.array(nums, dtype="int64")

    def back(self, value):
        """Number of the reference, from a value met in results."""
        if self.scale == "dt":
            return pd.Timestamp(value).value
        if self.scale == "float":
            x = float(value) * 2
            require(x == int(x), "a label is not one of the requested ones", label=value)
            return int(x)
        return int(value)


# --------------------------------------------------------------------------- #
# Generators.                                                                  #
# --------------------------------------------------------------------------- #
@st.composite
def positions(draw, max_n=24, unique=False):
    """Sorted positions: runs, ties, gaps, clusters."""
    out = [draw(st.integers(0, 12))]
    steps = draw(
        st.sampled_from(
            [[1], [0, 1], [0, 0, 1, 2], [1, 2, 5], [0, 1, 30], [0, 1, 1, 2, 10, 70], [5], [3, 200]],
        ),
    )
    if unique:
        steps = [s for s in steps if s] or [1]
    n = draw(st.integers(0, max_n - 1))
    for s in draw(st.lists(st.sampled_from(steps), min_size=n, max_size=n)):
        out.append(out[-1] + s)
    return out


@st.composite
def points(draw, pos, min_size=1, max_size=10, dup=False):
    """Sorted points on, around, before and after positions."""
    lo, hi = pos[0] - 3, pos[-1] + 4
    around = sorted({p + d for p in pos for d in (-1, 0, 1)})
    pts = draw(
        st.lists(
            st.one_of(st.sampled_from(around), st.integers(lo, hi)),
            min_size=min_size,
            max_size=max_size,
            unique=not dup,
        ),
    )
    return sorted(pts)


ORIGINS = ["start_day", "start_day", "epoch", "start"]


@st.composite
def groupers(draw, unit, closed=None, freqs=None, calendar=False):
    if calendar and unit in ("h", "12h") and draw(st.integers(0, 2)) == 0:
        # Calendar periods, left-closed only.
        return {
            "kind": "grouper",
            "freq": draw(st.sampled_from(CALENDAR)),
            "closed": "left",
            "label": draw(st.sampled_from(["left", "right"])),
        }
    freqs = freqs or {
        "s": ["10s", "1min", "2min"],
        "min": ["1min", "2min", "5min", "7min", "30min", "1h"],
        "7min": ["5min", "7min", "30min", "1h", "5h"],
        "h": ["1h", "5h", "7h", "1D", "2D"],
        "12h": ["5h", "7h", "1D", "2D"],
    }[unit]
    return {
        "kind": "grouper",
        "freq": draw(st.sampled_from(freqs)),
        "closed": closed or draw(st.sampled_from(["left", "right"])),
        "label": draw(st.sampled_from(["left", "right"])),
        "origin": draw(st.sampled_from(ORIGINS)),
        "offset": draw(st.sampled_from([None, None, None, 1, 3])),
    }


@st.composite
def value_columns(draw, n):
    """Values of columns 'i1','i2' (int), 'f1','f2' (float), 'd1' (datetime)."""
    signed = draw(st.booleans())
    lo = -9 if signed else 1
    ints = st.one_of(st.integers(lo, 9), st.sampled_from([2**40, 2**53 + 1, 1]))
    flts = st.integers(lo, 50)
    rng = draw(st.integers(0, 2**32))
    import random

    r = random.Random(rng)
    pool_i = draw(st.lists(ints, min_size=1, max_size=6))
    pool_f = draw(st.lists(flts, min_size=1, max_size=6))
    return {
        "i1": [r.choice(pool_i) for _ in range(n)],
        "i2": [r.randrange(lo, 100) for _ in range(n)],
        "f1": [r.choice(pool_f) for _ in range(n)],
        "f2": [r.randrange(lo, 1000) for _ in range(n)],
        "d1": [r.randrange(0, 10**6) for _ in range(n)],
    }


FUNCS = ["first", "last", "min", "max", "sum"]


@st.composite
def agg_specs(draw, max_n=8):
    """List of [out, in, func]."""
    n = draw(st.integers(1, max_n))
    out = []
    for k in range(n):
        col = draw(st.sampled_from(["i1", "i2", "f1", "f2", "d1"]))
        func = draw(st.sampled_from(FUNCS if col != "d1" else FUNCS[:4]))
        out.append([f"o{k}", col, func])
    return out


# Few fixed definitions, to limit compilation time when numba is on.
FIXED_SPECS = [
    [["o0", "i1", "first"], ["o1", "f1", "sum"], ["o2", "i2", "max"], ["o3", "f1", "min"]],
    [
        ["o0", "f1", "last"],
        ["o1", "f2", "last"],
        ["o2", "i1", "sum"],
        ["o3", "d1", "min"],
        ["o4", "i1", "min"],
        ["o5", "d1", "last"],
        ["o6", "f2", "first"],
        ["o7", "f2", "max"],
    ],
    [["o0", "i1", "sum"]],
]


def make_frame(axis, nums, cols, index=None, extra=None):
    """Seed dataframe."""
    df = pd.DataFrame(
        {
            "ts": axis.col(nums),
            "i1": np.array(cols["i1"], dtype="int64"),
            "f1": np.array(cols["f1"], dtype="float64") * 0.5,
            "i2": np.array(cols["i2"], dtype="int64"),
            "d1": (np.array(cols["d1"], dtype="int64") * 10**9 + T0).view("datetime64[ns]"),
            "f2": np.array(cols["f2"], dtype="float64") * 0.5,
            **(extra or {}),
        },
    )
    if index == "shift":
        df.index = range(5, 5 + len(df))
    elif index == "dup":
        df.index = [i // 2 for i in range(len(df))]
    return df


def pyvalue(col, v):
    """Comparable form of an input value."""
    if col[0] == "f":
        return v * 0.5
    if col[0] == "d":
        return v * 10**9 + T0
    return v


# --------------------------------------------------------------------------- #
# Reference segmentation.                                                      #
# --------------------------------------------------------------------------- #
def grouper(g, key=None):
    kw = {}
    if g.get("origin", "start_day") != "start_day":
        kw["origin"] = g["origin"]
    if g.get("offset"):
        kw["offset"] = pd.Timedelta(g["offset"], "min")
    return pd.Grouper(key=key, freq=g["freq"], closed=g["closed"], label=g["label"], **kw)


def ref_grouper(g, first, last, closed=None):
    """(labels, ends) of periods covering [first, last], per definition."""
    closed = closed or g["closed"]
    if g["freq"] in CALENDAR:
        step = pd.tseries.frequencies.to_offset(g["freq"])
        start = step.rollback(pd.Timestamp(first).normalize())
        ends, labels = [], []
        while True:
            end = start + step
            ends.append(end.value)
            labels.append(end.value if g["label"] == "right" else start.value)
            if last < end.value:
                return labels, ends
            start = end
    f = FREQS[g["freq"]]
    origin = {"start_day": first - (first % DAY), "epoch": 0, "start": first}[
        g.get("origin", "start_day")
    ]
    origin += (g.get("offset") or 0) * UNITS["min"]
    k = (first - origin) // f  # floor
    start = origin + k * f
    if closed == "right" and start == first:
        start -= f
    ends, labels = [], []
    while True:
        end = start + f
        ends.append(end)
        labels.append(end if g["label"] == "right" else start)
        if (closed == "left" and last < end) or (closed == "right" and last <= end):
            return labels, ends
        start = end


def inside(num, end, closed):
    """Is 'num' before the end 'end'?"""
    return num < end if closed == "left" else num <= end


def ref_ends(nums, labels, ends, closed):
    """Row ranges for consecutive segments, trailing empty ones trimmed."""
    out, row = [], 0
    for lab, end in zip(labels, ends):
        start = row
        while row < len(nums) and inside(nums[row], end, closed):
            row += 1
        out.append({"label": lab, "end": end, "rows": (start, row)})
        if row == len(nums):
            break
    return out


def ref_bins(b, nums, groups=None):
    """Bins, as a list of dict(label, end (None if unknown), rows)."""
    n = len(nums)
    if b["kind"] == "grouper":
        return ref_ends(nums, *ref_grouper(b, nums[0], nums[-1]), b["closed"])
    if b["kind"] == "series":
        labels = b["labels"] if b.get("labels") else b["ends"]
        return ref_ends(nums, labels, b["ends"], b["closed"])
    # Row based bins.
    if b["kind"] == "rows":
        cuts = [*range(0, n, b["n"]), n]
    else:  # 'change': a bin each time the group changes.
        cuts = [0, *(i for i in range(1, n) if groups[i] != groups[i - 1]), n]
    out = []
    for s, e in zip(cuts, cuts[1:]):
        if b["closed"] == "left":
            # Ends right before start of next bin, unknown for last bin.
            end = nums[e] if e < n else None
        else:
            end = nums[e - 1]
            if e == n and (b["kind"] != "rows" or e - s != b["n"]):
                end = None
        out.append({"label": nums[s], "end": end, "rows": (s, e)})
    return out


def ref_points(s, nums, closed):
    """List of (label, position) of the points of observation."""
    if s["kind"] == "grouper":
        labels, ends = ref_grouper(s, nums[0], nums[-1], closed)
        return list(zip(labels, ends))
    out = []
    for p in s["points"]:
        out.append((p, p))
        if inside(nums[-1], p, closed):
            # Points once data is over are not for now.
            break
    return out


def ref_snaps(points_, bins, nums, closed):
    """Row range observed at each point."""
    out, k = [], 0
    for label, p in points_:
        # Bin which is on-going, or just ending.
        while k < len(bins) and bins[k]["end"] is not None and p > bins[k]["end"]:
            k += 1
        obs = (0, 0)
        if k < len(bins):
            s, e = bins[k]["rows"]
            stop = s
            while stop < e and inside(nums[stop], p, closed):
                stop += 1
            obs = (s, stop)
        out.append({"label": label, "rows": obs})
    return out


def ref_agg(cols, spec, rows):
    s, e = rows
    res = {}
    for out, col, func in spec:
        vals = [pyvalue(col, v) for v in cols[col][s:e]]
        if not vals:
            res[out] = None
        elif func == "first":
            res[out] = vals[0]
        elif func == "last":
            res[out] = vals[-1]
        else:
            res[out] = {"min": min, "max": max, "sum": sum}[func](vals)
    return res


def ref_table(segments, cols, spec):
    return [(s["label"], ref_agg(cols, spec, s["rows"])) for s in segments]


# --------------------------------------------------------------------------- #
# Code under test.                                                             #
# --------------------------------------------------------------------------- #
def by_change(on, buffer=None, closed="left"):
    """
    User-defined 'bin_by': a bin each time value of 'bin_on' column changes.

    Written after the documentation of 'segmentby()'. Label of a bin is the
    1st value met in 'ordered_on'.
    """
    ids = on.iloc[:, 0].to_numpy()
    ord_ = on.iloc[:, -1].reset_index(drop=True)
    n = len(ids)
    starts = [0, *(i for i in range(1, n) if ids[i] != ids[i - 1])]
    stops = [*starts[1:], n]
    labels = [ord_.iloc[s] for s in starts]
    if closed == "left":
        ends = [ord_.iloc[e] if e < n else ord_.iloc[-1] for e in stops]
    else:
        ends = [ord_.iloc[e - 1] for e in stops]
    n_null = 0
    if buffer is not None:
        if buffer:
            if buffer["last_id"] == ids[0]:
                labels[0] = buffer["last_label"]
            else:
                stops.insert(0, 0)
                labels.insert(0, buffer["last_label"])
                ends.insert(0, ord_.iloc[0] if closed == "left" else buffer["last_end"])
                n_null = 1
        buffer["last_id"] = int(ids[-1])
        buffer["last_label"] = labels[-1]
        buffer["last_end"] = ends[-1]
    return (
        np.array(stops, dtype="int64"),
        pd.Series(labels),
        n_null,
        closed,
        pd.Series(ends),
        True,
    )


def bin_by_arg(b, axis):
    """(bin_by, bin_on) arguments."""
    from oups.aggstream.segmentby import by_scale
    from oups.aggstream.segmentby import by_x_rows

    if b["kind"] == "grouper":
        return grouper(b, "ts"), None
    if b["kind"] == "series":
        ends = pd.Series(axis.col(b["ends"]))
        by = (pd.Series(axis.col(b["labels"])), ends) if b.get("labels") else ends
        return partial(by_scale, by=by, closed=b["closed"]), None
    if b["kind"] == "rows":
        return partial(by_x_rows, by=b["n"], closed=b["closed"]), b.get("on")
    return partial(by_change, closed=b["closed"]), "grp"


def snap_by_arg(s, axis):
    if s is None:
        return None
    if s["kind"] == "grouper":
        return grouper(s, "ts")
    if s.get("as") == "index" and axis.scale == "dt":
        return pd.DatetimeIndex(axis.col(s["points"]))
    return pd.Series(axis.col(s["points"]))


def agg_arg(spec):
    return {out: (col, func) for out, col, func in spec}


def is_null(v):
    return v is None or v is pd.NaT or v is pd.NA or (isinstance(v, float) and v != v)


def pyres(col, v):
    if is_null(v):
        return None
    if col[0] == "d":
        return pd.Timestamp(v).value
    if col[0] == "f":
        return float(v)
    return int(v)


DTYPES = {"i": "Int64", "f": "float64", "d": "datetime64[ns]"}


def table(df, axis, spec, what, label_col=None, dtypes=True):
    """Turn a result of the code under test into a list of (label, {out: value})."""
    require(isinstance(df, pd.DataFrame), f"{what}: no dataframe as result", got=type(df))
    labels = df.index if label_col is None else df[label_col]
    outs = [c for c in df.columns if c != label_col]
    require(
        sorted(outs) == sorted(o for o, _, _ in spec),
        f"{what}: columns are not the requested ones",
        got=list(df.columns),
        spec=spec,
    )
    if dtypes:
        for out, col, _ in spec:
            require(
                str(df[out].dtype) == DTYPES[col[0]],
                f"{what}: wrong type of column",
                column=out,
                got=df[out].dtype,
                expected=DTYPES[col[0]],
            )
    data = {out: [pyres(col, v) for v in df[out]] for out, col, _ in spec}
    labels = [axis.back(x) for x in labels]
    return [(lab, {out: data[out][i] for out in data}) for i, lab in enumerate(labels)]


def compare(got, ref, axis, what, **detail):
    """Compare tables, with a short report of the 1st difference."""
    if got == ref:
        return

    def show(t):
        return [(str(axis.val(lab)), vals) for lab, vals in t]

    i = 0
    while i < min(len(got), len(ref)) and got[i] == ref[i]:
        i += 1
    require(
        False,
        f"{what}: results differ from their definition (at row {i})",
        got=show(got[i : i + 3]) + [f"{len(got)} rows"],
        expected=show(ref[i : i + 3]) + [f"{len(ref)} rows"],
        labels_got=[str(axis.val(g[0])) for g in got[:30]],
        labels_expected=[str(axis.val(g[0])) for g in ref[:30]],
        **detail,
    )


def keep_last(tables):
    """Assemble successive results: latest one per label."""
    out = {}
    order = []
    for t in tables:
        for lab, vals in t:
            if lab not in out:
                order.append(lab)
            out[lab] = vals
    return [(lab, out[lab]) for lab in order]


# --------------------------------------------------------------------------- #
# Cases of single / chained aggregation.                                       #
# --------------------------------------------------------------------------- #
@st.composite
def bin_specs(draw, pos, scale, unit, cover):
    kinds = ["series", "rows", "rows", "change"] + (["grouper"] * 5 if scale == "dt" else ["series"])
    kind = draw(st.sampled_from(kinds))
    closed = draw(st.sampled_from(["left", "right"]))
    if kind == "grouper":
        return draw(groupers(unit, calendar=True))
    if kind == "series":
        ends = draw(points(pos))
        if cover and not inside(pos[-1], ends[-1], closed):
            ends = [e for e in ends if e <= pos[-1]]
            ends.append(pos[-1] + draw(st.integers(1, 3)))
        b = {"kind": kind, "closed": closed, "ends": ends}
        if draw(st.integers(0, 3)) == 0:
            # Labels are distinct of ends.
            b["labels"] = [e - draw(st.just(1)) for e in ends]
        return b
    if kind == "rows":
        return {
            "kind": kind,
            "closed": closed,
            "n": draw(st.sampled_from([1, 2, 3, 4, 5, 7])),
            "on": draw(st.sampled_from([None, "i1", "ts"])),
        }
    return {"kind": kind, "closed": closed}


@st.composite
def snap_specs(draw, pos, scale, unit, b):
    if scale == "dt" and draw(st.integers(0, 2)):
        # 'closed' has to be that of bins if both are groupers.
        return draw(
            groupers(
                unit,
                closed=b["closed"] if b["kind"] == "grouper" else None,
                calendar=b["closed"] == "left",
            ),
        )
    return {
        "kind": "series",
        "points": draw(points(pos, max_size=12)),
        "as": draw(st.sampled_from(["series", "index"])),
    }


def distinct(values):
    return len(set(values)) == len(values)


@st.composite
def agg_cases(draw, with_snap=None, pieces=False, fixed=False, max_n=26, scale=None):
    """
    Data, bins, optional snapshots, aggregation, optional cut in pieces.
    """
    scale = scale or draw(st.sampled_from(["dt", "dt", "int", "float"]))
    unit = draw(st.sampled_from(["s", "min", "min", "7min", "h", "12h"])) if scale == "dt" else "min"
    pos = draw(positions(max_n=max_n))
    base = draw(bases(scale, unit, pos))
    snap = with_snap if with_snap is not None else draw(st.booleans())
    b = draw(bin_specs(pos, scale, unit, cover=snap or pieces))
    case = {"scale": scale, "unit": unit, "base": base, "bin": b}
    if b["kind"] == "change":
        # Same group for rows sharing the same position.
        ids = draw(st.lists(st.integers(0, 2), min_size=len(pos), max_size=len(pos)))
        case["grp"] = [ids[pos.index(p)] for p in pos]
    if b["kind"] == "rows" and (snap or not distinct(pos[:: b["n"]])):
        pos = [p + i for i, p in enumerate(pos)]
    case["pos"] = pos
    case["snap"] = draw(snap_specs(pos, scale, unit, b)) if snap else None
    case["cols"] = draw(value_columns(len(pos)))
    case["spec"] = draw(st.sampled_from(FIXED_SPECS)) if fixed else draw(agg_specs())
    case["index"] = draw(st.sampled_from([None, None, "shift", "dup"]))
    case["setup"] = draw(st.booleans())
    if pieces:
        case["cuts"] = draw(cuts(len(pos)))
        case["repickle"] = draw(st.booleans())
        case["snap_mode"] = draw(st.sampled_from(["full", "full", "tail"]))
    return case


@st.composite
def bases(draw, scale, unit, pos):
    """Shift of positions: any value can be 0 (int, float), or around 1970 (dt)."""
    kind = draw(st.integers(0, 3))
    if kind == 0:
        return -draw(st.sampled_from(pos)) - (T0 // UNITS[unit] if scale == "dt" else 0)
    if scale == "dt":
        return draw(st.sampled_from([0, 0, 3, 61, 1430]))
    return draw(st.sampled_from([-1000, -7])) if kind == 1 else 0


@st.composite
def cuts(draw, n):
    """Sizes of pieces (null size included)."""
    mode = draw(st.sampled_from(["singles", "free", "free", "two"]))
    if mode == "singles":
        sizes = [1] * n
    elif mode == "two":
        k = draw(st.integers(0, n))
        sizes = [k, n - k]
    else:
        sizes, left = [], n
        while left:
            k = min(left, draw(st.integers(0 if sizes and sizes[-1] else 1, 9)))
            sizes.append(k)
            left -= k
    return sizes


class AggCase:
    """A case turned into arguments and reference."""

    def __init__(self, case):
        self.case = case
        self.axis = Axis(case["scale"], case["unit"], case["base"])
        num = self.axis.num
        self.nums = [num(p) for p in case["pos"]]
        b = dict(case["bin"])
        for k in ("ends", "labels"):
            if b.get(k):
                b[k] = [num(p) for p in b[k]]
        self.b = b
        s = case.get("snap")
        if s and s["kind"] == "series":
            s = {**s, "points": [num(p) for p in s["points"]]}
        self.s = s
        self.cols = case["cols"]
        self.spec = case["spec"]
        self.closed = b["closed"]
        self.groups = case.get("grp")
        extra = {"grp": np.array(self.groups, dtype="int64")} if self.groups else None
        self.df = make_frame(self.axis, self.nums, self.cols, case.get("index"), extra)
        self.bins = ref_bins(b, self.nums, self.groups)
        self.snaps = None
        if s:
            self.snaps = ref_snaps(
                ref_points(s, self.nums, self.closed), self.bins, self.nums, self.closed
            )

    def ref(self):
        bins = ref_table(self.bins, self.cols, self.spec)
        snaps = ref_table(self.snaps, self.cols, self.spec) if self.snaps is not None else None
        return bins, snaps

    def tags(self):
        out = {f"bin_{self.b['kind']}", f"closed_{self.closed}", f"scale_{self.case['scale']}"}
        empty = [s for s in self.bins if s["rows"][0] == s["rows"][1]]
        if empty:
            out.add("empty_bins")
        if len(self.bins) > 1:
            out.add("several_bins")
        if not distinct(self.nums):
            out.add("ties")
        if self.snaps is not None:
            out.add(f"snap_{self.s['kind']}")
            null = [s for s in self.snaps if s["rows"][0] == s["rows"][1]]
            if null:
                out.add("null_snaps")
            ends = {b["end"] for b in self.bins}
            if any(p in ends for _, p in ref_points(self.s, self.nums, self.closed)):
                out.add("snap_on_bin_end")
            if len(null) < len(self.snaps):
                out.add("some_snaps")
        return out

    def call(self, df, buffer=None, snap=True, snap_from=None, setup=None):
        """Run 'cumsegagg()'. Returns (bins, snaps) dataframes."""
        from oups.aggstream.cumsegagg import cumsegagg
        from oups.aggstream.cumsegagg import setup_cumsegagg
        from oups.aggstream.segmentby import setup_segmentby

        bin_by, bin_on = bin_by_arg(self.b, self.axis)
        snap_by = None
        if snap and self.s:
            s = self.s
            if snap_from is not None and s["kind"] == "series":
                s = {**s, "points": [p for p in s["points"] if p >= snap_from]}
            snap_by = snap_by_arg(s, self.axis)
        agg = agg_arg(self.spec)
        kw = dict(ordered_on="ts", bin_on=bin_on, snap_by=snap_by)
        if self.case["setup"] if setup is None else setup:
            agg = setup_cumsegagg(agg, df.dtypes.to_dict())
            bin_by = setup_segmentby(bin_by, bin_on, "ts", snap_by)
            kw = {} if snap_by is None or self.s["kind"] == "grouper" else {"snap_by": snap_by}
        res = cumsegagg(df, agg, bin_by, buffer=buffer, error_on_0=False, **kw)
        return res if isinstance(res, tuple) else (res, None)
