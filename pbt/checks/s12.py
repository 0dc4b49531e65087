"""S12: only sound indexing schemas are accepted, and collections only accept their own keys."""
import copy
import dataclasses
import sys
import types

from hypothesis import strategies as st

from pbt.core import Violation
from pbt.core import require


ID = "S12"
RULE = (
    "a case is a class layout (depth 1-4, 1-4 fields per level, of type text, integer, another type, or next "
    "level at any position; some with default values; separator of fields given or not) and ways of "
    "giving values (by position, by name, or left to defaults); a sound layout has to give schema attributes, "
    "equal, immutable and ordered keys whatever the way of giving values, be accepted by a collection and "
    "its keys be used; keys of another layout (a level alone, or not last, or of unsupported type) have "
    "to be rejected; a collection has to reject schemas which are not 'toplevel', and keys of any other "
    "schema, even with the same fields; non-trivial if layout is sound with several levels or default "
    "values, or is not sound"
)
ASSUMPTIONS = [
    "field values are of the declared type, without separator, '/' nor '.'",
    "next level is defined with 'sublevel'",
]
BUDGET = {"quick": 400, "thorough": 10000}
MODULE = "pbt_s12_schemas"
WORDS = ["a", "b", "zz", "é", "A b", "x1", "~"]
OTHER = ["float", "bool", "none", "list", "date", "bytes", "np_int", "str_sub"]


@st.composite
def cases(draw, tier):
    depth = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    sound = draw(st.integers(0, 2)) > 0
    levels = []
    for i in range(depth):
        fields = []
        for _ in range(draw(st.integers(1, 3))):
            t = draw(st.sampled_from(["str", "str", "int"]))
            fields.append({"t": t, "default": None})
        if i < depth - 1:
            fields.append({"t": "sub", "default": None})
        levels.append(fields)
    broken = None
    if not sound:
        broken = draw(st.sampled_from(["type", "alone", "place", "two"] if depth > 1 else ["type"]))
        i = draw(st.integers(0, depth - 1 if broken == "type" else depth - 2))
        lv = levels[i]
        if broken == "type":
            j = draw(st.integers(0, max(0, len(lv) - 2)))
            lv[j]["t"] = draw(st.sampled_from(OTHER))
        elif broken == "alone":
            levels[i] = [{"t": "sub", "default": None}]
        elif broken == "place":
            sub = lv.pop()
            lv.insert(draw(st.integers(0, len(lv) - 1)), sub)
        else:
            lv.insert(draw(st.integers(0, len(lv) - 1)), {"t": "sub", "default": None})
    n_def = 0
    for lv in levels:
        # Default values, from a field on.
        if draw(st.integers(0, 2)) == 0:
            start = draw(st.integers(0, len(lv)))
            if all(f["t"] in ("str", "int") for f in lv[start:]):
                for f in lv[start:]:
                    f["default"] = draw(value(f["t"]))
                    n_def += 1
    keys = []
    for _ in range(draw(st.integers(2, 4))):
        keys.append(
            [
                [
                    {
                        "v": draw(value(f["t"])),
                        "how": draw(st.sampled_from(["name", "default"])),
                    }
                    for f in lv
                ]
                for lv in levels
            ],
        )
    return {
        "levels": levels,
        "broken": broken,
        "sep": draw(st.sampled_from([None, "-", "_", "+", "@"])),
        "keys": keys,
        "n_pos": [draw(st.integers(0, 4)) for _ in levels],
    }


def value(t):
    if t == "int":
        return st.integers(0, 20)
    return st.sampled_from(WORDS)


def strategy(tier, shard):
    return cases(tier)


class Text(str):
    pass


def other(name):
    import datetime

    import numpy as np

    return {
        "float": 1.5,
        "bool": True,
        "none": None,
        "list": ["a"],
        "date": datetime.date(2020, 1, 2),
        "bytes": b"a",
        "np_int": np.int64(3),
        "str_sub": Text("a"),
    }[name]


def build(levels, sep, name="T"):
    from oups import sublevel
    from oups import toplevel

    mod = sys.modules.get(MODULE)
    if mod is None:
        mod = sys.modules[MODULE] = types.ModuleType(MODULE)
    T = {"int": int, "str": str}
    below, subs = None, []
    for i in range(len(levels) - 1, -1, -1):
        ns, ann = {}, {}
        for j, f in enumerate(levels[i]):
            t = f["t"]
            ann[f"f{i}_{j}"] = below if t == "sub" else T.get(t) or type(other(t))
            if f["default"] is not None:
                ns[f"f{i}_{j}"] = f["default"]
        n = f"{name}{i}"
        cls = type(
            n, (), {**ns, "__annotations__": ann, "__module__": MODULE, "__qualname__": n}
        )
        if i:
            below = sublevel(cls)
            subs.append(below)
        elif sep is None:
            below = toplevel(cls)
        else:
            below = toplevel(cls, fields_sep=sep)
        setattr(mod, n, below)
    return below, subs


def key_of(cls, subs, levels, kv, n_pos, mixed):
    """Key, with its values given by position, or as defined by the case."""
    classes = [cls, *subs[::-1]]
    obj, flat = None, None
    for i in range(len(levels) - 1, -1, -1):
        args, kwargs, vals = [], {}, []
        for j, (f, v) in enumerate(zip(levels[i], kv[i])):
            if f["t"] == "sub":
                x = obj
            elif f["t"] in ("str", "int"):
                x = v["v"]
            else:
                x = other(f["t"])
            how = "pos"
            if v["how"] == "default" and f["default"] is not None:
                x = f["default"]
                how = "default"
            elif kwargs or j >= n_pos[i]:
                how = "name"
            vals.append(x)
            if not mixed or (how == "pos" and len(args) == j):
                args.append(x)
            elif how != "default":
                kwargs[f"f{i}_{j}"] = x
        obj = classes[i](*args, **kwargs)
        flat = (vals[:-1] + flat) if flat is not None and levels[i][-1]["t"] == "sub" else vals
    return obj, flat


def lookalikes(level):
    """Classes with only some of the features of a schema."""
    names = [f"f{i}" for i in range(len(level))]
    plain = dataclasses.make_dataclass("Plain", [(n, str) for n in names], order=True, frozen=True)
    sep = type("Sep", (), {"fields_sep": "-", "depth": 1})
    path = type("Path", (), {"from_path": classmethod(lambda cls, path: None), "depth": 1})
    both = type("Both", (), {"fields_sep": "-", "from_path": "a/b", "depth": 1})
    return [
        plain,
        sep,
        path,
        both,
        dataclasses.make_dataclass("PlainSep", names, namespace={"fields_sep": "-", "depth": 1}),
    ]


def run_case(case, ctx):
    import os

    from oups import ParquetSet
    from oups import is_toplevel

    levels, sep = case["levels"], case["sep"]
    if case["broken"]:
        for mixed in (False, True):
            try:
                cls, subs = build(levels, sep)
                key, _ = key_of(cls, subs, levels, case["keys"][0], case["n_pos"], mixed)
            except (TypeError, ValueError):
                continue
            raise Violation(
                f"a key of a layout which is not sound ({case['broken']}) is accepted", key=repr(key)
            )
        ctx.nontrivial("broken-" + case["broken"])
        return
    with ctx.sut("creating the schema"):
        cls, subs = build(levels, sep)
        depth, fields_sep = cls.depth, cls.fields_sep
    require(depth == len(levels), "depth of the schema", got=depth, expected=len(levels))
    require(fields_sep == (sep or "-"), "separator of the schema", got=fields_sep)
    made = []
    for kv in case["keys"]:
        with ctx.sut("creating a key"):
            key, flat = key_of(cls, subs, levels, kv, case["n_pos"], False)
            key2, _ = key_of(cls, subs, levels, kv, case["n_pos"], True)
            text, path = str(key), key.to_path
        require(key == key2 and hash(key) == hash(key2), "keys with same values differ",
                got=repr(key2), expected=repr(key))
        require(str(key2) == text and key2.to_path == path, "texts of keys with same values differ")
        require(
            text == fields_sep.join(map(str, flat)), "text of a key", got=text, expected=flat
        )
        require(
            path.replace("/", fields_sep) == text and path.count("/") == depth - 1,
            "path of a key",
            got=path,
            expected=flat,
        )
        require(key.depth == depth and key.fields_sep == fields_sep, "depth or separator of a key")
        # Immutable.
        o = key
        while dataclasses.is_dataclass(o):
            for f in dataclasses.fields(o):
                try:
                    setattr(o, f.name, "other")
                except (AttributeError, TypeError):
                    continue
                raise Violation("field of a key can be modified", field=f.name, key=repr(key))
            o = getattr(o, dataclasses.fields(o)[-1].name)
        require(str(key) == text, "key is modified by forbidden assignments", got=str(key))
        made.append((key, flat))
    for key, flat in made:
        for key2, flat2 in made:
            require((key == key2) == (flat == flat2), "equality of keys")
            require((key <= key2) == (flat <= flat2), "order of keys", got=(repr(key), repr(key2)))
    require(
        is_toplevel(cls) and is_toplevel(made[0][0]), "schema is not recognised by is_toplevel()"
    )
    # Collections.
    base = os.path.join(ctx.folder, "store")
    for bad in [*subs, object, dict, *lookalikes(levels[-1])]:
        require(not is_toplevel(bad), "is_toplevel() accepts another class", got=repr(bad))
        ctx.rejects(f"collection with {bad} as schema", ParquetSet, base, bad)
        require(not os.path.exists(base) or not os.listdir(base), "rejected collection wrote files")
    import pandas as pd

    with ctx.sut("recording"):
        store = ParquetSet(base, cls)
        for i, (key, _) in enumerate(made):
            store[key] = pd.DataFrame({"a": [i]})
    order = [list(x) for x in sorted({tuple(flat) for _, flat in made})]
    # Same fields, different class or separator: not keys of this collection.
    twins = [build(levels, sep, "U"), build(levels, "#", "T")]
    df = pd.DataFrame({"a": [-1]})
    for c, s in twins:
        kv = copy.deepcopy(case["keys"][0])
        with ctx.sut("creating keys of other schemas"):
            twin, _ = key_of(c, s, levels, kv, case["n_pos"], False)
        require(twin != made[0][0], "keys of distinct schemas are equal", got=repr(twin))
        require(twin not in store, "key of another schema found in the collection")
        ctx.rejects("recording with a key of another schema", store.__setitem__, twin, df)
        try:
            del store[twin]
        except (TypeError, ValueError, KeyError):
            pass
    for bad in ["a", str(made[0][0]), made[0][0].to_path, 1, None, made[0][1]]:
        ctx.rejects(f"recording with {bad!r} as key", store.__setitem__, bad, df)
    with ctx.sut("listing"):
        again = ParquetSet(base, cls)
        listings = [[flat_of(k) for k in store], [flat_of(k) for k in again], [flat_of(k) for k in store.keys]]
        values = [[s[k].pdf["a"].tolist() for k, _ in made] for s in (store, again)]
    for got in listings:
        require(got == order, "listing of the collection", got=got, expected=order)
    for got in values:
        for (key, flat), v in zip(made, got):
            exp = [i for i, (_, f) in enumerate(made) if f == flat]
            require(v == exp, "data read from the collection", got=v, expected=exp)
    ctx.tag(f"depth-{depth}")
    if depth > 1 or any(f["default"] is not None for lv in levels for f in lv):
        ctx.nontrivial("sound")


def flat_of(key):
    out, o = [], key
    while o is not None:
        nxt = None
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            if dataclasses.is_dataclass(v):
                nxt = v
            else:
                out.append(v)
        o = nxt
    return out
