"""Helpers for the checks related to the store."""
import os
import random
import tempfile

import numpy as np
import pandas as pd

from pbt.core import Violation
from pbt.core import require


# --------------------------------------------------------------------------- #
# Frames                                                                       #
# --------------------------------------------------------------------------- #
POOLS = {
    "int64": [0, 1, -1, 7, 2**63 - 1, -(2**63), 2**53 + 1, 1000003],
    "int32": [0, 1, -1, 2**31 - 1, -(2**31), 12345],
    "int16": [0, 1, -1, 2**15 - 1, -(2**15)],
    "int8": [0, 1, -1, 127, -128],
    "uint8": [0, 1, 255, 128],
    "uint16": [0, 1, 65535, 32768],
    "uint32": [0, 1, 2**32 - 1, 2**31],
    "uint64": [0, 1, 2**64 - 1, 2**63, 2**53 + 1],
    "float64": [
        0.0,
        -0.0,
        1.5,
        float("nan"),
        float("inf"),
        float("-inf"),
        5e-324,
        1.7976931348623157e308,
        0.1,
        -2.25,
    ],
    "float32": [0.0, 1.5, float("nan"), float("inf"), -2.25, 0.10000000149011612],
    "bool": [True, False],
    "str": ["", "a", "é", "日本", "x" * 70, None, "nan", "None", "a/b", "a b", "0", "\n\t'\""],
    "bytes": [b"", b"a", b"\x00\xff", None, b"x" * 50],
    "dt": [None, 0, 1, 1_600_000_000_123_456_789, -9_000_000_000_000_000_001, 86_400_000_000_000],
    "td": [None, 0, 1000, 86_399_999_999_000, 2_000_000],
    "Int64": [None, 0, 1, -1, 2**53 + 1, 2**63 - 1],
    "boolean": [None, True, False],
}
DT_COALESCE = [
    "int64",
    "int32",
    "int16",
    "int8",
    "uint8",
    "uint16",
    "uint32",
    "uint64",
    "float64",
    "float32",
    "bool",
    "str",
    "bytes",
    "dt",
    "Int64",
]
DT_APPEND = [*DT_COALESCE, "td", "boolean"]


def column(kind, n, rng, first_valid=True):
    """Column of 'n' values, picked in a pool of edge values + random ones."""
    pool = POOLS[kind]
    vals = []
    for i in range(n):
        v = pool[rng.randrange(len(pool))]
        if rng.random() < 0.3:
            if kind == "int64":
                v = rng.randrange(-(2**40), 2**40)
            elif kind == "float64":
                v = rng.uniform(-1e6, 1e6)
            elif kind == "dt":
                v = rng.randrange(10**18, 2 * 10**18)
            elif kind == "str":
                v = "s%d" % rng.randrange(10**6)
        if i == 0 and first_valid and v is None:
            v = next(x for x in pool if x is not None)
        vals.append(v)
    return series(kind, vals)


def series(kind, vals):
    if kind in ("str", "bytes"):
        return pd.Series(vals, dtype=object)
    if kind == "dt":
        return pd.Series(
            np.array(
                [np.iinfo("int64").min if v is None else v for v in vals], dtype="int64"
            ).view("datetime64[ns]")
        )
    if kind == "td":
        return pd.Series(
            np.array(
                [np.iinfo("int64").min if v is None else v for v in vals], dtype="int64"
            ).view("timedelta64[ns]")
        )
    if kind in ("Int64", "boolean"):
        return pd.Series(vals, dtype=kind)
    return pd.Series(np.array(vals, dtype=kind))


def canon(ser):
    """List of canonical values of a series (nulls alike, floats bitwise)."""
    if ser.dtype.kind == "f":
        a = ser.to_numpy()
        return [None if x != x else float(x).hex() for x in a.tolist()]
    if ser.dtype.kind in "mM":
        a = ser.to_numpy().astype("datetime64[ns]" if ser.dtype.kind == "M" else "m8[ns]")
        i = a.view("int64")
        nat = np.iinfo("int64").min
        return [None if x == nat else x for x in i.tolist()]
    out = []
    for x in ser.tolist():
        if x is None or x is pd.NA or x is pd.NaT:
            out.append(None)
        elif isinstance(x, float) and x != x:
            out.append(None)
        else:
            out.append(x)
    return out


def same_frame(got, exp, what, dtypes=True):
    """Require two pandas dataframes to be the same (order included)."""
    require(
        list(got.columns) == list(exp.columns),
        f"{what}: columns differ",
        got=list(got.columns),
        expected=list(exp.columns),
    )
    require(
        len(got) == len(exp), f"{what}: number of rows differ", got=len(got), expected=len(exp)
    )
    for i, c in enumerate(exp.columns):
        g, e = got.iloc[:, i], exp.iloc[:, i]
        if dtypes:
            require(
                g.dtype == e.dtype, f"{what}: type of column {c!r}", got=g.dtype, expected=e.dtype
            )
        cg, ce = canon(g), canon(e)
        if cg != ce:
            bad = [k for k in range(len(ce)) if cg[k] != ce[k]]
            raise Violation(
                f"{what}: values of column {c!r} differ",
                first_bad_row=bad[0],
                got=cg[max(0, bad[0] - 2) : bad[0] + 8],
                expected=ce[max(0, bad[0] - 2) : bad[0] + 8],
            )


# Ordering column: list of small ints mapped to the requested type.
T0 = 1_577_836_800_000_000_000  # 2020-01-01


def ord_values(kind, ints):
    a = np.array(ints, dtype="int64")
    if kind == "dt":
        return (T0 + a * 60_000_000_000).view("datetime64[ns]")
    if kind == "float":
        return a * 0.25 + 100.0
    if kind == "int32":
        return a.astype("int32")
    if kind == "str":
        return np.array(["v%06d" % (x + 1000) for x in ints], dtype=object)
    return a


def ord_canon(kind, values):
    """Back to the list of small ints."""
    v = np.asarray(values)
    if kind == "dt":
        return ((v.astype("datetime64[ns]").view("int64") - T0) // 60_000_000_000).tolist()
    if kind == "float":
        return [int(round((x - 100.0) * 4)) if x == x else None for x in v.tolist()]
    return v.tolist()


def ord_frame(kind, ints, rid0, kinds=(), extra=None):
    """
    Frame with an ordering column 'o', a unique row id 'r' and other columns.

    Content of other columns is derived from the row id.
    """
    n = len(ints)
    d = {"o": ord_values(kind, ints), "r": np.arange(rid0, rid0 + n, dtype="int64")}
    if extra:
        d.update(extra)
    for k in kinds:
        rng = random.Random(f"{k}{rid0}")
        d["c_" + k] = column(k, n, rng, not rid0)
    return pd.DataFrame(d)


VAEX_FORMS = ("plain", "filter", "slice", "virtual", "disk")


def to_vaex(df, form=1, folder=None):
    """
    Vaex dataframe with same rows, one of VAEX_FORMS.

    Filtered, with other rows around, with a lazily computed column, or backed by a file.
    """
    import pyarrow as pa
    import vaex

    form = VAEX_FORMS[form - 1]
    n = len(df)
    if n and form == "filter":
        idx = [i for i in range(n) for _ in range(1 + (i * 7 + n) % 3)]
        keep = [i == 0 or idx[i - 1] != idx[i] for i in range(len(idx))]
        out = to_vaex(df.iloc[idx].reset_index(drop=True))
        out["flt_"] = np.array(keep)
        return out[out["flt_"]][list(df.columns)]
    if n and form == "slice":
        out = to_vaex(df.iloc[[n - 1, *range(n), 0]].reset_index(drop=True))
        return out[1 : n + 1]
    if form == "virtual":
        out = to_vaex(df)
        for c in df.columns:
            if df[c].dtype == "int64":
                out[c] = out[c] + 0
        return out
    if n and form == "disk":
        import pyarrow.parquet as pq

        fd, path = tempfile.mkstemp(dir=folder, suffix=".parquet")
        os.close(fd)
        pq.write_table(pa.Table.from_pandas(df, preserve_index=False), path, row_group_size=3)
        return vaex.open(path)

    # 'from_pandas' turns a text column with only nulls into floats.
    nulls = [c for c in df.columns if df[c].dtype == object and df[c].isna().all()]
    out = vaex.from_pandas(df.drop(columns=nulls))
    for c in nulls:
        out.add_column(c, pa.nulls(len(df), pa.string()))
    return out[list(df.columns)] if nulls else out


def row_group_sizes(pf):
    return [int(rg.num_rows) for rg in pf.row_groups]


# --------------------------------------------------------------------------- #
# Containment                                                                  #
# --------------------------------------------------------------------------- #
def checked_path(basepath, key):
    """Path of a key, required to be strictly inside of 'basepath'."""
    base = os.path.realpath(basepath)
    p = os.path.normpath(os.path.join(base, key.to_path))
    require(
        p.startswith(base + os.sep),
        "path of a key is not inside of the collection",
        key=repr(key),
        path=key.to_path,
    )
    return p


def dir_listing(root, skip=None):
    """Map of relative path -> 'd' or bytes of file, for all of 'root'."""
    out = {}
    for cur, dirs, files in os.walk(root):
        if skip is not None:
            dirs[:] = [d for d in dirs if os.path.join(cur, d) != skip]
        for d in dirs:
            out[os.path.relpath(os.path.join(cur, d), root)] = "d"
        for f in files:
            p = os.path.join(cur, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out
