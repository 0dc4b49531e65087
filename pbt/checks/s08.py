"""S08: metadata is merged key by key and survives data updates."""
import os

from hypothesis import strategies as st

from pbt.core import require
from pbt.storelib import ord_canon
from pbt.storelib import ord_frame
from pbt.storelib import to_vaex


ID = "S08"
RULE = (
    "a case is a history of 4-16 operations over 2-3 datasets (record / update / append / coalesce "
    "with or without user metadata, pending library metadata, write_metadata() alone, same "
    "dictionary object reused, re-opening, deletion then re-creation), all metadata and data of all "
    "datasets being compared to a model after each; non-trivial if some metadata survived a later "
    "data update not mentioning it, or an entry has been removed"
)
ASSUMPTIONS = [
    "user metadata is text (fastparquet requirement), None removing an entry (fastparquet logic); "
    "entries named 'pandas' and 'oups' are reserved",
    "library metadata waiting for a dataset is the one last set before its next recording",
]
BUDGET = {"quick": 240, "thorough": 5000}
NAMES = ["a", "a", "b", "b", "é", "", "Oups"]
VALUES = ["", "v", "w", "日本", "x" * 300, "None", "\x00\n"]
# Library metadata values, by code.
LIB = {
    "none": None,
    "zero": 0,
    "false": False,
    "empty": "",
    "elist": [],
    "int": 12,
    "text": "t",
    "dict": {"x": {"y": [1, None]}, 1: (2, 3)},
    "tup": (None, "a"),
    "ts": ("ts", 1_600_000_000_123_456_789),
    "frame": ("frame", 3),
}
LIB_NAMES = ["k1", "k2", "k3", "", None, 0]


def lib_value(code):
    import pandas as pd

    v = LIB[code]
    if code == "ts":
        return pd.Timestamp(v[1])
    if code == "frame":
        return pd.DataFrame({"a": range(v[1]), "b": [None, "x", 1.5]})
    return v


def lib_same(a, b):
    import pandas as pd

    if type(a) is not type(b):
        return False
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and (a.dtypes == b.dtypes).all()
    return a == b


@st.composite
def cases(draw, tier):
    user = st.lists(
        st.tuples(
            st.sampled_from(NAMES), st.one_of(st.sampled_from(VALUES), st.sampled_from([None, None, "v"]))
        ).map(list),
        min_size=1,
        max_size=3,
    )
    lib = st.lists(
        st.tuples(
            st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5]), st.sampled_from(["none", *LIB, "none"])
        ).map(list),
        min_size=1,
        max_size=3,
    )
    n_keys = draw(st.sampled_from([2, 2, 3]))
    n_dicts = draw(st.sampled_from([2, 2, 3]))
    ops = []
    for _ in range(draw(st.sampled_from([4, 6, 8, 10, 12, 14]))):
        kind = draw(
            st.sampled_from(
                ["write", "write", "write", "write", "write", "wmeta", "wmeta", "pending", "open", "del", "empty"],
            ),
        )
        o = {"op": kind, "k": draw(st.integers(0, n_keys - 1))}
        if kind in ("write", "empty"):
            o["v"] = sorted(draw(st.lists(st.integers(0, 15), min_size=1, max_size=5)))
            o["how"] = draw(st.sampled_from(["app", "ord", "ord", "dup", "coal"]))
            o["mrg"] = draw(st.sampled_from([1, 2, 4, None]))
            o["vaex"] = draw(st.sampled_from([0] * 12 + [1, 2, 3, 4, 5]))
        if kind in ("write", "wmeta", "empty"):
            # Index of a dict object, or None.
            o["md"] = draw(st.sampled_from([None, *range(n_dicts)]))
        if kind in ("write", "wmeta", "pending", "empty"):
            o["lib"] = draw(st.one_of(st.none(), lib)) if kind != "pending" else draw(lib)
        ops.append(o)
    return {
        # Entries of odd dictionaries are mostly removals.
        "dicts": [
            [[n, None if d % 2 and v != "v" else v] for n, v in draw(user)]
            for d in range(n_dicts)
        ],
        "keys": n_keys,
        "ops": ops,
    }


def strategy(tier, shard):
    return cases(tier)


def reset():
    from oups.store.writer import OUPS_METADATA

    OUPS_METADATA.clear()


def run_case(case, ctx):
    from oups import ParquetSet
    from oups import toplevel
    from oups.store.writer import OUPS_METADATA
    from oups.store.writer import write_metadata

    @toplevel
    class Key:
        name: str
        i: int

    OUPS_METADATA.clear()
    base = os.path.join(ctx.folder, "g", "store")
    os.makedirs(os.path.dirname(base))
    store = ParquetSet(base, Key)
    keys = [Key("k", i) for i in range(case["keys"])]
    dicts = [dict(map(tuple, d)) for d in case["dicts"]]
    ref_dicts = [dict(d) for d in dicts]
    # Model: key -> (user, lib, rows); and pending library metadata.
    model, pending = {}, {}
    handles = {}
    rid = 0

    def lib_dict(items):
        return {LIB_NAMES[n]: lib_value(c) for n, c in items}

    def merge(i, md, what):
        """Record in model what is expected from a recording."""
        user, lib, rows = model[i]
        for n, v in (md or {}).items():
            if v is None:
                if n in user:
                    del user[n]
                    ctx.nontrivial("removed-user")
            else:
                if n in user:
                    ctx.tag("replaced-user")
                user[n] = v
        if i in pending:
            for n, v in pending.pop(i).items():
                if v is None:
                    if n in lib:
                        del lib[n]
                        ctx.nontrivial("removed-lib")
                else:
                    if n in lib:
                        ctx.tag("replaced-lib")
                    lib[n] = v

    for j, op in enumerate(case["ops"]):
        i, kind = op["k"], op["op"]
        key = keys[i]
        what = f"op {j} {kind} on dataset {i}"
        md = None if op.get("md") is None else dicts[op["md"]]
        if op.get("lib") is not None and not (kind == "wmeta" and i not in model):
            # Entries set to 'None' included.
            OUPS_METADATA[key] = lib_dict(op["lib"])
            pending[i] = lib_dict(op["lib"])
        if kind == "pending":
            ctx.tag("pending")
        elif kind in ("write", "empty"):
            ints = op["v"]
            df = ord_frame("int64", ints, rid, ["float64"])
            rid += len(ints)
            kwargs = {"max_row_group_size": op["mrg"], "metadata": md}
            how = op["how"]
            if kind == "empty":
                df = df.iloc[:0]
                ints = []
            elif how != "app":
                kwargs["ordered_on"] = "o"
                if how == "dup":
                    kwargs["duplicates_on"] = ["o", "r"]
                elif how == "coal":
                    kwargs["max_nirgs"] = 1
            if kind == "empty" and i not in model:
                ctx.tag("empty-init")
            if i in model and how != "app" and kind == "write" and not model[i][2][2]:
                # Not ordered so far.
                kwargs.pop("ordered_on", None)
                kwargs.pop("duplicates_on", None)
                how = "app"
            known_before = i in model and (model[i][0] or model[i][1])
            with ctx.sut(what):
                store[key] = kwargs, (to_vaex(df, op["vaex"], ctx.folder) if op["vaex"] and len(df) else df)
            if i not in model:
                model[i] = ({}, {}, [[], 0, True])
            rows = model[i][2]
            if how == "app" and rows[0] and ints and rows[0][-1] > ints[0]:
                rows[2] = False
            if ints:
                rows[0] = rows[0] + ints if how == "app" else sorted(rows[0] + ints)
            rows[1] += len(ints)
            merge(i, md, what)
            if known_before and model[i][0] | model[i][1] and kind == "write":
                ctx.nontrivial("survived-update")
        elif kind == "wmeta":
            if i not in model:
                continue
            with ctx.sut(what):
                write_metadata(pf=store[key].pf, metadata=md, md_key=key)
            merge(i, md, what)
        elif kind == "open":
            with ctx.sut(what):
                store = ParquetSet(base, Key)
        elif kind == "del" and i in model:
            with ctx.sut(what):
                del store[key]
            del model[i]
            ctx.tag("deleted")
        require(
            dicts == ref_dicts, f"{what}: metadata of the caller is modified", got=dicts,
            expected=ref_dicts,
        )
        for m, (user, lib, rows) in model.items():
            with ctx.sut(f"{what}: reading metadata of {m}"):
                handle = store[keys[m]]
                got = dict(handle.metadata)
                lib_got = handle._oups_metadata or {}
                oo = ord_canon("int64", handle.pdf["o"].to_numpy())
            got.pop("pandas", None)
            got.pop("oups", None)
            require(
                got == user, f"{what}: user metadata of dataset {m}", got=got, expected=user
            )
            require(
                list(lib_got) == list(lib) or set(lib_got) == set(lib),
                f"{what}: library metadata entries of dataset {m}",
                got=lib_got,
                expected=lib,
            )
            for n in lib:
                require(
                    lib_same(lib_got[n], lib[n]),
                    f"{what}: library metadata {n!r} of dataset {m}",
                    got=lib_got[n],
                    expected=lib[n],
                )
            require(oo == rows[0], f"{what}: data of {m}", got=oo, expected=rows[0])
        require(
            set(OUPS_METADATA) == {keys[p] for p in pending},
            f"{what}: library metadata waiting to be recorded",
            got=list(OUPS_METADATA),
            expected=[keys[p] for p in pending],
        )
