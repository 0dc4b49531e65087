"""S05: the catalogue always mirrors the recorded datasets."""
import os
import pathlib

import pandas as pd
from hypothesis import strategies as st

from pbt import schemas
from pbt.core import require
from pbt.storelib import checked_path
from pbt.storelib import dir_listing
from pbt.storelib import ord_canon
from pbt.storelib import ord_frame


ID = "S05"
RULE = (
    "a case is a history of 3-16 operations (record, ordered update, append, delete, delete of an "
    "absent key, re-open with another spelling of the directory, foreign file put in the tree) over "
    "3-6 keys of a schema of depth 1-3; after each one the catalogue is compared to a model and the "
    "other datasets and the surroundings of the collection byte for byte; non-trivial if at least "
    "one deletion and 2 keys recorded at the same time"
)
ASSUMPTIONS = ["a single process works on the collection at a time"]
BUDGET = {"quick": 250, "thorough": 2500}
SPELLINGS = ["abs", "abs/", "rel", "./rel", "rel/", "Path", "Pathrel", "dot", "up"]
WORDS = ["a", "ab", "A", "b", "é", "x y", "part", "0", "_metadata", "zz", "1"]


@st.composite
def cases(draw, tier):
    depth = draw(st.integers(1, 3))
    levels = [
        draw(st.lists(st.sampled_from(["str", "str", "int"]), min_size=1, max_size=2))
        for _ in range(depth)
    ]
    keys = []
    for _ in range(draw(st.integers(3, 6))):
        k = [
            [
                draw(st.sampled_from(WORDS[:4] if draw(st.booleans()) else WORDS))
                if t == "str"
                else draw(st.sampled_from([0, 1, 2, 10, 100]))
                for t in lv
            ]
            for lv in levels
        ]
        if keys and depth > 1 and draw(st.booleans()):
            # Share head with a previous key.
            cut = draw(st.integers(1, depth - 1))
            k[:cut] = draw(st.sampled_from(keys))[:cut]
        keys.append(k)
    ops = []
    for _ in range(draw(st.integers(3, 16))):
        op = draw(
            st.sampled_from(
                ["set", "set", "set", "upd", "app", "del", "del", "open", "foreign", "delabsent"]
            ),
        )
        o = {"op": op, "k": draw(st.integers(0, len(keys) - 1))}
        if op in ("set", "upd", "app"):
            # From time to time, no row (and possibly no column).
            none = draw(st.integers(0, 9)) == 0
            o["v"] = [] if none else sorted(draw(st.lists(st.integers(0, 20), min_size=1, max_size=5)))
            o["bare"] = none and draw(st.booleans())
            o["mrg"] = draw(st.integers(1, 4))
        elif op == "open":
            o["sp"] = draw(st.sampled_from(SPELLINGS))
        elif op == "foreign":
            o["lv"] = draw(st.integers(0, depth - 1))
        ops.append(o)
    return {
        "levels": levels,
        "sep": draw(st.sampled_from(["-", "-", "_", "+", "#"])),
        "sp": draw(st.sampled_from(SPELLINGS)),
        "keys": keys,
        "ops": ops,
    }


def strategy(tier, shard):
    return cases(tier)


def open_store(ParquetSet, cls, base, spelling):
    """Open same directory, spelled in different ways."""
    parent, name = os.path.split(base)
    os.chdir(parent)
    if spelling == "dot":
        os.makedirs(base, exist_ok=True)
        os.chdir(base)
    p = {
        "abs": base,
        "abs/": base + "/",
        "rel": name,
        "./rel": "./" + name,
        "rel/": name + "/",
        "Path": pathlib.Path(base),
        "Pathrel": pathlib.Path(name),
        "dot": ".",
        "up": os.path.join(parent, "..", os.path.basename(parent), name),
    }[spelling]
    return ParquetSet(p, cls)


def flat(key_vals):
    return tuple(x for lv in key_vals for x in lv)


def run_case(case, ctx):
    from oups import ParquetSet

    levels, sep = case["levels"], case["sep"]
    cls = schemas.build(levels, sep)
    keys, vals = [], []
    for kv in case["keys"]:
        if any(sep in str(x) for x in flat(kv)):
            kv = [[x if not isinstance(x, str) else "m" for x in lv] for lv in kv]
        with ctx.sut("creating key", values=kv):
            key = schemas.make(cls, levels, kv)
        keys.append(key)
        vals.append(flat(kv))
    # Surroundings of the collection.
    base = os.path.join(ctx.folder, "g1", "g2", "store")
    os.makedirs(os.path.dirname(base))
    for d in ("", "g1", "g1/g2"):
        with open(os.path.join(ctx.folder, d, "guard.txt"), "w") as f:
            f.write("guard")
    os.makedirs(os.path.join(ctx.folder, "g1", "g2", "storeX"))
    outside = dir_listing(ctx.folder, skip=base)
    with ctx.sut("opening", spelling=case["sp"]):
        store = open_store(ParquetSet, cls, base, case["sp"])
    model = {}  # values -> list of (o, rid)
    foreign = {}
    rid = 0
    deleted = 0
    both = False
    exists = os.path.isdir(base)
    for i, op in enumerate(case["ops"]):
        key, kv = keys[op["k"]], vals[op["k"]]
        kind = op["op"]
        path = checked_path(base, key)
        before = dir_listing(base) if os.path.isdir(base) else {}
        what = f"op {i} {kind} {kv}"
        target = None
        if kind in ("set", "upd", "app"):
            ints = op["v"]
            df = pd.DataFrame() if op.get("bare") else ord_frame("int64", ints, rid)
            if not ints:
                ctx.tag("no-row")
            new = list(zip(ints, range(rid, rid + len(ints))))
            rid += len(ints)
            kwargs = {"max_row_group_size": op["mrg"]}
            if kind == "upd" and not op.get("bare") and kv in model and model[kv] == sorted(model[kv], key=lambda x: x[0]):
                kwargs["ordered_on"] = "o"
                rows = sorted(model[kv] + new, key=lambda x: x[0])
            else:
                rows = model.get(kv, []) + new
            with ctx.sut(what, path=key.to_path):
                store[key] = kwargs, df
            model[kv] = rows
            target = path
            exists = True
        elif kind in ("del", "delabsent"):
            present = [k for k in range(len(keys)) if vals[k] in model]
            if kind == "del" and present:
                k = present[op["k"] % len(present)]
                key, kv = keys[k], vals[k]
                path = checked_path(base, key)
                what = f"op {i} {kind} {kv}"
                target = path
            if kv not in model and not os.path.isdir(base):
                continue
            was = kv in model
            if was:
                target = path
            try:
                with ctx.sut(what, path=key.to_path):
                    del store[key]
            except Exception:
                if was:
                    raise
                # Deleting an absent key may be refused, not have an effect.
            if was:
                del model[kv]
                deleted += 1
                require(not os.path.exists(path), f"{what}: directory is still there", path=path)
                check_parents(path, base, what)
        elif kind == "open":
            with ctx.sut(what, spelling=op["sp"]):
                store = open_store(ParquetSet, cls, base, op["sp"])
        elif kind == "foreign":
            d = path
            for _ in range(len(levels) - op["lv"]):
                d = os.path.dirname(d)
            if os.path.isdir(d):
                p = os.path.join(d, f"note{i}.txt")
                with open(p, "w") as f:
                    f.write("x")
                foreign[os.path.relpath(p, base)] = b"x"
                before = dir_listing(base)
        both |= len(model) > 1
        # Directory of the collection is kept.
        require(not exists or os.path.isdir(base), f"{what}: directory of the collection is lost")
        # Others are left untouched.
        require(
            dir_listing(ctx.folder, skip=base) == outside,
            f"{what}: something changed outside of the collection",
            now=sorted(set(dir_listing(ctx.folder, skip=base)) ^ set(outside)),
        )
        after = dir_listing(base) if os.path.isdir(base) else {}
        rel = os.path.relpath(target, base) if target else None
        changed = [
            f
            for f in set(before) | set(after)
            if before.get(f) != after.get(f)
            and not (rel and (f == rel or f.startswith(rel + os.sep)))
            and not (rel and rel.startswith(f + os.sep))
        ]
        require(not changed, f"{what}: other files changed", files=sorted(changed)[:10])
        for f in foreign:
            require(f in after, f"{what}: foreign file lost", file=f)
        check(ctx, ParquetSet, cls, store, base, model, keys, vals, what)
    ctx.tag(f"depth-{len(levels)}", "sp-" + case["sp"])
    if foreign:
        ctx.tag("foreign-files")
    if deleted and both:
        ctx.nontrivial()


def check_parents(path, base, what):
    d = os.path.dirname(path)
    while d != base and d.startswith(base):
        if os.path.isdir(d):
            require(os.listdir(d), f"{what}: empty directory left behind", path=d)
        d = os.path.dirname(d)


def check(ctx, ParquetSet, cls, store, base, model, keys, vals, what):
    by_val = dict(zip(vals, keys))
    expected = [by_val[v] for v in sorted(model)]
    for name, s in (("collection", store), ("re-opened collection", None)):
        with ctx.sut(f"listing {name} after {what}"):
            if s is None:
                s = ParquetSet(base, cls)
            listed = list(s)
            n = len(s)
            text = repr(s)
            member = [k in s for k in keys]
            listed2 = list(s.keys)
        require(
            listed == expected and listed2 == expected,
            f"{what}: keys listed by {name}",
            got=listed,
            expected=expected,
        )
        require(n == len(expected), f"{what}: length of {name}", got=n, expected=len(expected))
        require(
            text == "\n".join(map(str, expected)), f"{what}: text representation of {name}", got=text
        )
        require(member == [v in model for v in vals], f"{what}: membership in {name}", got=member)
        for v in model:
            with ctx.sut(f"reading {v} after {what}"):
                pdf = s[by_val[v]].pdf
            if not model[v]:
                require(not len(pdf), f"{what}: data of {v} in {name}", got=pdf, expected="no row")
                continue
            got = list(zip(ord_canon("int64", pdf["o"]), pdf["r"].tolist()))
            require(got == model[v], f"{what}: data of {v} in {name}", got=got, expected=model[v])
