"""S07: opening a directory lists exactly its readable datasets."""
import os
import shutil

from hypothesis import strategies as st

from pbt import schemas
from pbt.core import Violation
from pbt.core import require


ID = "S07"
RULE = (
    "a case is a schema (depth 1-3) and a directory tree: directories at all depths, with names "
    "built from valid and nearly valid field values, holding real datasets, parquet-like or other "
    "files; keys listed by a collection opened on it are compared to a model of the naming; "
    "non-trivial if the tree holds both a dataset and a directory to be ignored"
)
ASSUMPTIONS = [
    "directory names hold no '.' (a name with a '.' is read as a key which cannot be created)",
    "symbolic links are not generated",
]
BUDGET = {"quick": 320, "thorough": 10000}
WORDS = ["a", "b", "x y", "0", "1", "12", "é", "none", "A"]
ODD = ["0001", "1_000", "+1", " 1", "٣", "", "1e3", "-1"]
CONTENT = [
    "dataset",
    "dataset",
    "dataset",
    "one.parquet",
    "x.parq",
    "_metadata",
    "_common_metadata",
    "data.csv",
    "x.parquet.bak",
    "parquet",
    "metadata",
    "x.PARQUET",
    "dir.parquet/",
    "empty",
    "my_metadata",
]


@st.composite
def cases(draw, tier):
    levels = draw(
        st.lists(
            st.lists(st.sampled_from(["str", "int"]), min_size=1, max_size=3),
            min_size=1,
            max_size=3,
        ),
    )
    sep = draw(st.sampled_from(["-", "-", "_", "+", "d", "#", "|", "^"]))
    seps = [sep, sep, sep, sep, sep, "-", "_"]
    dirs = []
    for _ in range(draw(st.integers(1, 8))):
        depth = len(levels) + draw(st.sampled_from([0, 0, 0, 0, 0, -1, 1]))
        path = []
        for d in range(depth):
            lv = levels[min(d, len(levels) - 1)]
            if dirs and d < depth - 1 and draw(st.booleans()):
                prev = draw(st.sampled_from(dirs))[0]
                if len(prev) > d:
                    path.append(prev[d])
                    continue
            n = len(lv) + draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 1, -1]))
            words = []
            for j in range(max(n, 1)):
                t = lv[min(j, len(lv) - 1)]
                odd = draw(st.integers(0, 6)) == 0
                if odd:
                    words.append(draw(st.sampled_from(ODD)))
                elif t == "int":
                    words.append(str(draw(st.sampled_from([0, 1, 7, 12, 345]))))
                else:
                    words.append(draw(st.sampled_from(WORDS)))
            s = draw(st.sampled_from(seps))
            path.append(s.join(words) or "e")
        if path:
            dirs.append(
                [path, draw(st.lists(st.sampled_from(CONTENT), min_size=1, max_size=2, unique=True))],
            )
    return {"levels": levels, "sep": sep, "dirs": dirs, "top": draw(st.booleans())}


def strategy(tier, shard):
    return cases(tier)


_TEMPLATE = {}


def template(folder):
    """A small genuine dataset (directory), as {file: bytes}."""
    if not _TEMPLATE:
        import pandas as pd

        from oups.store.writer import write

        p = os.path.join(folder, "template")
        write(p, pd.DataFrame({"a": [1, 2, 3]}), max_row_group_size=2)
        for f in os.listdir(p):
            with open(os.path.join(p, f), "rb") as fh:
                _TEMPLATE[f] = fh.read()
        shutil.rmtree(p)
    return _TEMPLATE


def is_key_path(parts, levels, sep):
    """Values of the key having this path, None if there is no such key."""
    if len(parts) != len(levels):
        return None
    out = []
    for part, lv in zip(parts, levels):
        words = part.split(sep)
        if len(words) != len(lv) or part == "":
            return None
        vals = []
        for w, t in zip(words, lv):
            if "." in w:
                return None
            if t == "int":
                try:
                    x = int(w)
                except ValueError:
                    return None
                if str(x) != w:
                    return None
                vals.append(x)
            else:
                vals.append(w)
        out.append(vals)
    return out


def run_case(case, ctx):
    from oups import ParquetSet

    levels, sep = case["levels"], case["sep"]
    cls = schemas.build(levels, sep)
    base = os.path.join(ctx.folder, "g", "st-1")
    os.makedirs(base)
    with ctx.sut("template"):
        tpl = template(ctx.folder)
    if case["top"]:
        for f in ("note.txt", "x.parquet"):
            with open(os.path.join(base, f), "w") as fh:
                fh.write("")
    for path, content in case["dirs"]:
        if any("." in p or "/" in p for p in path):
            continue
        d = os.path.join(base, *path)
        os.makedirs(d, exist_ok=True)
        for c in content:
            if c == "dataset":
                for f, b in tpl.items():
                    with open(os.path.join(d, f), "wb") as fh:
                        fh.write(b)
            elif c.endswith("/"):
                os.makedirs(os.path.join(d, c), exist_ok=True)
            elif c != "empty" and not os.path.exists(os.path.join(d, c)):
                with open(os.path.join(d, c), "wb") as fh:
                    fh.write(b"")
    # Model: what is on disk.
    expected, readable, ignored = {}, set(), 0
    for cur, dirs, files in os.walk(base):
        if cur == base or any("." in p for p in os.path.relpath(cur, base).split("/")):
            continue
        rel = os.path.relpath(cur, base).split("/")
        parquet = any(
            f.endswith((".parquet", ".parq")) or f in ("_metadata", "_common_metadata")
            for f in files
        )
        vals = is_key_path(rel, levels, sep)
        if parquet and vals is not None:
            key = None
            try:
                key = schemas.make(cls, levels, vals)
            except (TypeError, ValueError):
                # Such a key cannot be created.
                pass
            if key is not None:
                expected["/".join(rel)] = key
                if set(tpl) <= set(files) and not (
                    {"one.parquet", "x.parq"} & set(files)
                ):
                    readable.add("/".join(rel))
                continue
        if files or vals is None:
            ignored += 1
    with ctx.sut("opening the directory"):
        store = ParquetSet(base, cls)
        listed = list(store)
    paths = [k.to_path for k in listed]
    require(
        sorted(paths) == sorted(expected) and len(store) == len(expected),
        f"keys listed for schema {levels} with separator {sep!r}",
        got=sorted(paths),
        expected=sorted(expected),
    )
    for p, k in expected.items():
        require(k in store, f"{k!r} is not in the collection")
    require(listed == sorted(expected.values()), "listing is not sorted", got=listed)
    for p in readable:
        with ctx.sut(f"reading {p}"):
            got = store[expected[p]].pdf["a"].tolist()
        require(got == [1, 2, 3], f"data of {p}", got=got)
    # A directory that does not exist is an empty collection.
    with ctx.sut("opening a directory that does not exist"):
        n = len(ParquetSet(os.path.join(ctx.folder, "g", "nope", "nope"), cls))
    require(n == 0, "not existing directory is not empty", got=n)
    ctx.tag(f"depth-{len(levels)}")
    if expected:
        ctx.tag("some-listed")
    if ignored:
        ctx.tag("some-ignored")
    if expected and ignored:
        ctx.nontrivial()
