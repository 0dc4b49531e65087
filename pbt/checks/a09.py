"""A09: post-processing and its buffers are applied exactly once per result."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt import streamlib
from pbt.agglib import compare
from pbt.agglib import keep_last
from pbt.agglib import table
from pbt.core import require
from pbt.streamlib import Seed


ID = "A09"
RULE = (
    "a case is a seed, 1 or 2 keys (bins, snapshots, or both), each with a post-processing function "
    "(adding a column or modifying its input in place, possibly with a warm-up of some calls during which "
    "results are dropped, or kept in its buffer and released afterwards), a pre-processing function, both keeping "
    "values of various types in their buffer, and a schedule (chunks, calls, memory limit, new objects, re-opened "
    "stores); everything functions receive, return and leave in their buffer is logged; results they are given "
    "have to be those of a brute force aggregation, each once (last one after a final write excepted), "
    "recorded results to be the returned ones, and buffers to be received as left by previous call; "
    "non-trivial if the post-processing function is called at least 3 times or in 2 sessions"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "an AggStream object is replaced by a new one only after a final write; buffers are lost if "
    "nothing has been aggregated at that point",
]
BUDGET = {"quick": 55, "thorough": 1500}
JIT_SHARDS = (7,)


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=30))
    keys = []
    for _ in range(draw(st.integers(1, 2))):
        conf = draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS))
        conf["mem"] = draw(st.sampled_from([None, 1e-06, 1e-06, 0.0003, 0.0006]))
        keys.append(
            {
                "conf": conf,
                "style": draw(st.sampled_from(["column", "inplace", "values", "same"])),
                "warm": draw(st.sampled_from([0, 0, 1, 2, 3])),
                "hold": draw(st.booleans()),
            },
        )
    calls = draw(streamlib.schedules(len(seed["pos"]), 4))
    some = draw(st.booleans())
    for call in calls:
        # Last group of rows left out, and streamed again at next call.
        call["discard"] = some and draw(st.booleans())
        call["apart"] = draw(st.booleans())
    return {
        "seed": seed,
        "keys": keys,
        "calls": calls,
        "parallel": draw(st.booleans()),
    }


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.equals(b)
    return a == b


def fill(buffer, n):
    """Values of various types left in buffers."""
    buffer["n"] = n
    buffer["ts"] = pd.Timestamp("2021-03-04 05:06:07.000000089") + pd.Timedelta(n, "s")
    buffer["arr"] = np.arange(n, dtype="float64")
    buffer["nest"] = {"l": [n, None, "é"], (1, n): {"x": 0.1 * n}}
    if n % 3 == 0:
        buffer.pop("df", None)
        buffer["falsy"] = 0
    else:
        buffer["df"] = pd.DataFrame({"a": [n, n + 1], "b": ["x", "y"]})


class Watch:
    """Expected content of a buffer."""

    def __init__(self, name):
        self.name = name
        self.left = {}
        self.n = 0

    def enter(self, buffer):
        require(
            same(buffer, self.left),
            f"buffer received by {self.name} is not as left by previous call",
            got=buffer,
            expected=self.left,
        )

    def leave(self, buffer):
        self.n += 1
        fill(buffer, self.n)
        self.left = copy.deepcopy(buffer)


class Post:
    """Post-processing function of a key, logging what it is given and returns."""

    def __init__(self, k, name):
        self.k = k
        self.conf = k["conf"]
        self.both = self.conf["both"]
        self.watch = Watch(name)
        self.passed = {"bins": [], "snaps": []}
        self.returned = {"bins": [], "snaps": []}
        self.sessions = set()
        self.session = 0

    def __call__(self, buffer, bin_res, snap_res=None):
        self.watch.enter(buffer)
        self.sessions.add(self.session)
        given = {"bins": bin_res}
        if self.conf["snap"]:
            given["snaps"] = snap_res
        for name, df in given.items():
            require(isinstance(df, pd.DataFrame), f"{name} given to post() are not a dataframe")
            self.passed[name].append((self.session, df.copy(deep=True)))
        wanted = list(given) if self.both else [list(given)[-1]]
        out = {name: self.change(given[name]) for name in wanted}
        n_calls = self.watch.n + 1
        if n_calls <= self.k["warm"]:
            if self.k["hold"]:
                held = buffer.setdefault("held", {})
                for name in wanted:
                    held.setdefault(name, []).append(out[name].copy(deep=True))
            self.watch.leave(buffer)
            return (None, None) if self.both else None
        held = buffer.pop("held", {})
        col = streamlib.label_name(self.conf)
        for name in wanted:
            if name in held:
                df = pd.concat([*held[name], out[name]])
                out[name] = df.drop_duplicates(subset=[col], keep="last").reset_index(drop=True)
            self.returned[name].append(out[name].copy(deep=True))
        self.watch.leave(buffer)
        if self.both:
            return out["bins"], out["snaps"]
        return out[wanted[0]]

    def change(self, df):
        """Row-wise modification."""
        spec = self.conf["spec"]
        style = self.k["style"]
        nums = [out for out, col, _ in spec if col[0] in "if"]
        if style == "column":
            df = df.copy()
            if nums:
                df["px"] = df[nums[0]] * 2
            else:
                df["px"] = df[spec[0][0]].isna()
        elif style == "inplace":
            for c in nums:
                df.loc[:, c] += 1000
        elif style == "values":
            for c in nums:
                if df[c].dtype == "float64":
                    df[c].values[:] = df[c].values * 3
                else:
                    df[c] = df[c] * 3
        return df

    # Checks.
    def check(self, store, key, seed, rows, ctx, what):
        bins, snaps = seed.reference(self.conf, rows)
        col = streamlib.label_name(self.conf)
        for name, ref in (("bins", bins), ("snaps", snaps)):
            if ref is None:
                continue
            tables, last, last_session = [], None, None
            for session, df in self.passed[name]:
                if col == "open":
                    df = df.drop(columns="ts")
                t = table(df, seed.axis, self.conf["spec"], f"{name} given to post()", col, False)
                labels = [x[0] for x in t]
                require(
                    all(x < y for x, y in zip(labels, labels[1:])),
                    f"{name} given to post() are not in order, or several times",
                    got=df[col].tolist(),
                )
                if labels and last is not None:
                    ok = labels[0] >= last if session != last_session else labels[0] > last
                    require(
                        ok,
                        f"{name} already given to post() are given again",
                        got=df[col].tolist(),
                        previous=seed.axis.val(last),
                    )
                if labels:
                    last, last_session = labels[-1], session
                tables.append(t)
            compare(keep_last(tables), ref, seed.axis, f"{what}: {name} given to post()")
        if self.both:
            parts = [(key[0], "bins"), (key[1], "snaps")]
        else:
            parts = [(key, "snaps" if self.conf["snap"] else "bins")]
        for k, name in parts:
            self.check_recorded(store, k, name, col, ctx, what)

    def check_recorded(self, store, key, name, col, ctx, what):
        expected = {}
        for df in self.returned[name]:
            for row in plain(df):
                expected[str(row[col])] = row
        df = streamlib.read(store, key, ctx)
        got = [] if df is None else plain(df)
        expected = list(expected.values())
        if got == expected:
            return
        i = 0
        while i < min(len(got), len(expected)) and got[i] == expected[i]:
            i += 1
        require(
            False,
            f"{what}: recorded {name} are not those returned by post()",
            at_row=i,
            got=got[i : i + 2],
            expected=expected[i : i + 2],
            n_got=len(got),
            n_expected=len(expected),
        )


def plain(df):
    """List of rows, as dict of comparable values."""
    out = []
    cols = sorted(str(c) for c in df.columns)
    for row in zip(*(df[c].tolist() for c in cols)):
        out.append(
            {
                c: None if v is None or v is pd.NA or v is pd.NaT or v != v else v
                for c, v in zip(cols, row)
            },
        )
    return out


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    confs = [k["conf"] for k in case["keys"]]
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    for conf in confs:
        seed.reference(conf, list(range(seed.n)))  # Discarded if not relevant.
    posts = [Post(k, f"post() of key {i}") for i, k in enumerate(case["keys"])]
    pre_watch = Watch("pre()")
    pre_given = []

    def pre(on, buffer):
        pre_watch.enter(buffer)
        pre_given.append(on["i1"].tolist())
        pre_watch.leave(buffer)

    store = streamlib.open_store(ctx.folder, Key)
    obj, row, session = None, 0, 0
    # Rows processed are [0, p).
    p = 0
    pre_expected = []
    for k, call in enumerate(case["calls"]):
        prev_final = k == 0 or case["calls"][k - 1]["final"]
        if call["reopen"] and prev_final:
            store = streamlib.open_store(ctx.folder, Key)
            obj = None
        if obj is None or (call["new"] and prev_final):
            if p == 0:
                # Nothing recorded yet.
                pre_watch.left = {}
            args = [{**streamlib.key_settings(c), "post": p} for c, p in zip(confs, posts)]
            with ctx.sut("AggStream()"):
                obj = AggStream(
                    ordered_on="ts",
                    store=store,
                    pre=pre,
                    parallel=case["parallel"],
                    keys=dict(zip(keys, args)),
                )
            if k:
                ctx.tag("new_object")
        frames = []
        sizes = list(call["sizes"])
        if again := row - p:
            if call["apart"] or not sizes:
                sizes.insert(0, again)
            else:
                sizes[0] += again
            ctx.tag("again")
        row = p
        for size in sizes:
            frames.append(seed.frame(range(row, row + size), call["index"]))
            if size:
                pre_expected.append(frames[-1]["i1"].tolist())
            row += size
        with ctx.sut("agg()", call=k):
            obj.agg(
                streamlib.as_seed(frames, call["how"]),
                trim_start=False,
                discard_last=call.get("discard", False),
                final_write=call["final"],
            )
        start, p = p, row
        if call.get("discard"):
            while p > start and seed.nums[p - 1] == seed.nums[row - 1]:
                p -= 1
        require(
            [x for x in pre_given if x] == pre_expected,
            "pre() is not called once per chunk, in order",
            got=pre_given,
            expected=pre_expected,
        )
        if call["final"]:
            for key, post in zip(keys, posts):
                post.check(store, key, seed, range(p), ctx, f"after call {k}")
            session += 1
            for post in posts:
                post.session = session
    for k, p in zip(case["keys"], posts):
        ctx.tag("style_" + k["style"])
        if k["warm"]:
            ctx.tag("warm_up_hold" if k["hold"] else "warm_up")
        ctx.tag("snaps_and_bins" if p.both else "snaps" if p.conf["snap"] else "bins")
    if any(p.watch.n > 2 or len(p.sessions) > 1 for p in posts):
        ctx.nontrivial()
