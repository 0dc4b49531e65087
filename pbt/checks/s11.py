"""S11: column multi-index survives recording and conforming."""
import os
import random

import pandas as pd
from hypothesis import strategies as st

from pbt.core import Discard
from pbt.core import require
from pbt.storelib import canon
from pbt.storelib import column
from pbt.storelib import to_vaex


ID = "S11"
RULE = (
    "a case is either a dataframe with a column multi-index (2-4 levels, unnamed levels, labels of "
    "any type, unused labels, random order) conformed then recorded in 1-3 times and read back, or "
    "a list of flat column names (text forms of tuples of different lengths, plain names) expanded "
    "directly and through recording (pandas or vaex), with 0 to n level names; non-trivial if "
    "conforming has something to change, or if columns have different numbers of levels"
)
ASSUMPTIONS = [
    "labels remain distinct once turned into text, and are not null",
    "a plain name is not itself the text form of a tuple",
    "a multi-index has at least 2 levels",
    "no more level names given than there are levels",
]
BUDGET = {"quick": 330, "thorough": 8000}
LABELS = {
    "a": "a",
    "b": "b",
    "empty": "",
    "uni": "é\u65e5",
    "sp": "a b",
    "quote": "it's",
    "dq": 'say "x"',
    "both": "a'b\"c",
    "bs": "c\\d",
    "tup": "('a', 'b')",
    "nl": "x\ny",
    "one": 1,
    "two": 2,
    "neg": -3,
    "float": 2.5,
    "true": True,
    "ts": pd.Timestamp("2020-01-01 10:00"),
    "stup": ("p", 1),
    "long": "z" * 90,
    "num": "7",
}
STR = [k for k, v in LABELS.items() if isinstance(v, str)]
NAMES = [None, "", "x", "lev 1", "é", "l0", "l1"]
PLAIN = ["a", "1", "col b", "", "(x", "a.b", "é", "'q'", "None", "l0", "[1]", "{1: 2}", "a)", " b"]
KINDS = ["int64", "float64", "str", "dt", "bool", "Int64"]


@st.composite
def conform_cases(draw):
    n = draw(st.integers(2, 4))
    pool = draw(st.sampled_from([list(LABELS), STR, [*STR[:4], "one", "two"]]))
    cols = draw(
        st.lists(
            st.lists(st.sampled_from(pool), min_size=n, max_size=n), min_size=1, max_size=7,
            unique_by=tuple,
        ),
    )
    return {
        "what": "conform",
        "names": draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n)),
        "cols": cols,
        # Number of leading columns dropped, leaving unused labels in levels.
        "drop": draw(st.sampled_from([0, 0, 1, 2])),
        "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=len(cols), max_size=len(cols))),
        "parts": draw(st.lists(st.integers(1, 5), min_size=1, max_size=3)),
        "mrg": draw(st.sampled_from([1, 2, None])),
        "nirgs": draw(st.sampled_from([None, None, 1])),
        "idx": draw(st.booleans()),
    }


@st.composite
def expand_cases(draw):
    cols, n = [], 1
    for _ in range(draw(st.integers(1, 7))):
        if draw(st.integers(0, 2)):
            cols.append(draw(st.lists(st.sampled_from(STR), min_size=1, max_size=4)))
        else:
            cols.append(draw(st.sampled_from(PLAIN)))
    n = max(len(c) if isinstance(c, list) else 1 for c in cols)
    return {
        "what": "expand",
        "cols": cols,
        "levels": draw(
            st.one_of(
                st.none(), st.lists(st.sampled_from([x for x in NAMES if x]), max_size=n, unique=True)
            )
        ),
        "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=len(cols), max_size=len(cols))),
        "parts": draw(st.lists(st.integers(1, 5), min_size=1, max_size=2)),
        "mrg": draw(st.sampled_from([1, 2, None])),
        "vaex": draw(st.booleans()),
    }


def strategy(tier, shard):
    return st.one_of(conform_cases(), expand_cases())


def frame(kinds, n, salt):
    cols = {}
    for i, k in enumerate(kinds):
        rng = random.Random(f"{salt}-{i}")
        cols[i] = column(k, n, rng)
    return pd.DataFrame(cols)


def same_data(got, exp, what):
    require(got.shape == exp.shape, f"{what}: shape", got=got.shape, expected=exp.shape)
    for i in range(exp.shape[1]):
        g, e = got.iloc[:, i], exp.iloc[:, i]
        require(g.dtype == e.dtype, f"{what}: type of column {i}", got=g.dtype, expected=e.dtype)
        require(canon(g) == canon(e), f"{what}: values of column {i}", got=canon(g), expected=canon(e))


def same_columns(cols, tuples, names, what):
    require(isinstance(cols, pd.MultiIndex), f"{what}: not a multi-index", got=type(cols))
    require(list(cols) == tuples, f"{what}: column labels", got=list(cols), expected=tuples)
    require(list(cols.names) == names, f"{what}: level names", got=list(cols.names), expected=names)
    for t in cols:
        require(all(isinstance(x, str) for x in t), f"{what}: label {t} is not text")


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel

    @toplevel
    class Key:
        a: str

    store = ParquetSet(os.path.join(ctx.folder, "store"), Key)
    if case["what"] == "conform":
        run_conform(case, ctx, store, Key("k"), ParquetSet, Key)
    else:
        run_expand(case, ctx, store, Key("k"))


def run_conform(case, ctx, store, key, ParquetSet, Key):
    from oups import conform_cmidx
    from oups.store.writer import to_midx

    tuples = [tuple(LABELS[x] for x in c) for c in case["cols"]]
    names = case["names"]
    if len({tuple(map(str, t)) for t in tuples}) < len(tuples):
        raise Discard
    for lev in zip(*tuples):
        if len({str(x) for x in lev}) < len(set(lev)):
            raise Discard
    parts = []
    drop = case["drop"] if case["drop"] < len(tuples) else 0
    # Labels of a level as held by pandas (integers turned into floats...).
    held = list(pd.MultiIndex.from_tuples(tuples))
    exp_tuples = [tuple(x if isinstance(x, str) else str(x) for x in t) for t in held][drop:]
    exp_names = ["" if x is None else x for x in names]
    # One name per level is needed to tell levels apart when recording.
    for p, n in enumerate(case["parts"]):
        df = frame(case["kinds"], n, p)
        df.columns = pd.MultiIndex.from_tuples(tuples, names=names)
        if case["idx"]:
            df.index = range(5, 5 + n)
        if drop:
            df = df.iloc[:, drop:].copy()
        ref = df.copy(deep=True)
        with ctx.sut("conforming", columns=list(df.columns), names=names):
            res = conform_cmidx(df)
        require(res is None, "conforming returns something")
        what = f"conforming {tuples[drop:]} {names}"
        same_columns(df.columns, exp_tuples, exp_names, what)
        same_data(df, ref, what)
        require(df.index.equals(ref.index), f"{what}: index")
        again = df.copy(deep=True)
        with ctx.sut("conforming twice"):
            conform_cmidx(again)
        same_columns(again.columns, exp_tuples, exp_names, f"{what} twice")
        for t in exp_tuples:
            with ctx.sut("selecting a column by its label", label=t):
                got = df[t]
            require(
                canon(got) == canon(ref.iloc[:, exp_tuples.index(t)]), f"{what}: column {t}"
            )
        parts.append(df)
    if None in names or any(not isinstance(x, str) for t in tuples for x in t):
        ctx.nontrivial("conformed")
    kwargs = {"max_row_group_size": case["mrg"]}
    if case["nirgs"] is not None:
        kwargs["max_nirgs"] = case["nirgs"]
    for p, df in enumerate(parts):
        with ctx.sut(f"recording part {p}", columns=exp_tuples, names=exp_names):
            store[key] = kwargs, df
            got = ParquetSet(store.basepath, Key)[key].pdf
        exp = pd.concat([x.reset_index(drop=True) for x in parts[: p + 1]], ignore_index=True)
        what = f"reading part {p} of {exp_tuples} {exp_names}"
        same_columns(got.columns, exp_tuples, exp_names, what)
        same_data(got, exp, what)
        if p:
            ctx.tag("appended")
    with ctx.sut("expanding names of the vaex dataframe"):
        flat = store[key].vdf.get_column_names()
        midx = to_midx(pd.Index(flat), exp_names)
    same_columns(midx, exp_tuples, exp_names, "expanding names of the vaex dataframe")
    if len(tuples[0]) > 1 and len(tuples) > 1:
        ctx.nontrivial("several")


def run_expand(case, ctx, store, key):
    from oups.store.writer import to_midx

    flat, exp = [], []
    for c in case["cols"]:
        if isinstance(c, list):
            t = tuple(LABELS[x] for x in c)
            flat.append(str(t))
            exp.append(t)
        else:
            flat.append(c)
            exp.append((c,))
    n = max(map(len, exp))
    lengths = {len(t) for t in exp}
    exp = [t + ("",) * (n - len(t)) for t in exp]
    if len(set(exp)) < len(exp) or len(set(flat)) < len(flat):
        raise Discard
    levels = case["levels"]
    names = list(levels or [])
    names += [f"l{i}" for i in range(len(names), n)]
    if len(set(names)) < n:
        raise Discard
    given = None if levels is None else list(levels)
    what = f"expanding {flat} {levels}"
    with ctx.sut("expanding", flat=flat, levels=levels):
        got = to_midx(pd.Index(flat), given)
    same_columns(got, exp, names, what)
    require(given == levels, f"{what}: levels of the caller are modified", got=given)
    if len(lengths) > 1:
        ctx.nontrivial("uneven")
    if n == 1:
        # Recorded as flat columns.
        return
    df = frame(case["kinds"], case["parts"][0], 0)
    df.columns = flat
    vaex = case["vaex"] and "" not in flat
    data = to_vaex(df) if vaex else df
    if vaex:
        ctx.tag("vaex")
    kwargs = {
        "max_row_group_size": case["mrg"],
        "cmidx_expand": True,
        "cmidx_levels": given,
    }
    ref = df.copy(deep=True)
    with ctx.sut("recording with expansion", flat=flat, levels=levels):
        store[key] = kwargs, data
        got = store[key].pdf
    same_columns(got.columns, exp, names, f"recording and {what}")
    same_data(got, ref, f"recording and {what}")
    require(list(df.columns) == flat, f"{what}: columns of the caller are modified")
    require(given == levels, f"{what}: levels of the caller are modified", got=given)
    if len(case["parts"]) > 1:
        # Going on with a multi-index.
        df2 = frame(case["kinds"], case["parts"][1], 1)
        df2.columns = pd.MultiIndex.from_tuples(exp, names=names)
        with ctx.sut("appending", columns=exp):
            store[key] = {"max_row_group_size": case["mrg"]}, df2
            got = store[key].pdf
        same_columns(got.columns, exp, names, f"appending, {what}")
        df2.columns = ref.columns = range(len(flat))
        same_data(got, pd.concat([ref, df2], ignore_index=True), f"appending, {what}")
        ctx.tag("appended-expanded")
