"""S06: keys and paths are in one-to-one correspondence."""
import copy
import os
import pickle

from hypothesis import strategies as st

from pbt import schemas
from pbt.core import Violation
from pbt.core import require


ID = "S06"
RULE = (
    "a case is a schema (depth 1-4, 1-3 text/integer fields per level, any single character "
    "separator) and 2-6 lists of field values (any text, edge values); accepted ones are converted "
    "to path and text and back, pickled, copied, compared; values of wrong kinds have to be rejected; "
    "non-trivial if 2 distinct keys are accepted or a value is rejected"
)
ASSUMPTIONS = [
    "field values are of the declared type (text or integer), without NUL character",
    "the separator of fields is a single character other than '/'",
]
BUDGET = {"quick": 900, "thorough": 30000}
SEPS = list("-_+.dswbxDSWBn0,#;|^$()[]{}*?\\ ~é1a=@'\"") + ["\t", "日"]
ALPHA = "ab01-_+.#/\\ é,sdwx~AZ\n$*"
SPECIAL = ["", ".", "..", "/", "a/b", "../x", "-", "_", "--", " ", "0", "01", "-1", "None", "a.b", "~"]
BAD = ["float", "none", "bytes", "list", "bool", "tuple", "dict"]


def text():
    return st.one_of(
        st.sampled_from(SPECIAL),
        st.text(st.sampled_from(ALPHA), max_size=4),
        st.text(
            st.characters(exclude_characters="\0", exclude_categories=("Cs",)), max_size=6
        ),
    )


def integer():
    return st.one_of(
        st.integers(0, 30), st.integers(-5, 5), st.sampled_from([10**18, -(10**20), 2**63])
    )


@st.composite
def cases(draw, tier):
    levels = draw(
        st.lists(
            st.lists(st.sampled_from(["str", "str", "int"]), min_size=1, max_size=3),
            min_size=1,
            max_size=4,
        ),
    )
    keys = []
    for _ in range(draw(st.integers(2, 6))):
        if keys and draw(st.booleans()):
            # Close to a previous key.
            kv = copy.deepcopy(draw(st.sampled_from(keys)))
            i = draw(st.integers(0, len(levels) - 1))
            j = draw(st.integers(0, len(levels[i]) - 1))
            kv[i][j] = draw(text() if levels[i][j] == "str" else integer())
        else:
            kv = [[draw(text() if t == "str" else integer()) for t in lv] for lv in levels]
        keys.append(kv)
    return {
        "levels": levels,
        "sep": draw(st.sampled_from(SEPS)),
        "keys": keys,
        "bad": [draw(st.sampled_from(BAD)), draw(st.integers(0, 20))],
    }


def strategy(tier, shard):
    return cases(tier)


def benign(kv, sep):
    """Values which have to be accepted."""
    for lv in kv:
        for x in lv:
            s = str(x)
            if not s or any(c in s for c in (sep, "/", ".")):
                return False
    return True


BAD_VALUES = {
    "float": 1.5,
    "none": None,
    "bytes": b"a",
    "list": ["a"],
    "bool": True,
    "tuple": ("a", "b"),
    "dict": {"a": 1},
}


def run_case(case, ctx):
    levels, sep = case["levels"], case["sep"]
    depth = len(levels)
    with ctx.sut("creating the schema", levels=levels, sep=sep):
        cls = schemas.build(levels, sep)
        got_depth = cls.depth
        got_sep = cls.fields_sep
    require(got_depth == depth and got_sep == sep, "depth or separator of the schema", got=got_depth)
    accepted = []
    rejected = 0
    base = os.path.join(ctx.folder, "base", "store")
    for kv in case["keys"]:
        try:
            key = schemas.make(cls, levels, kv)
        except (ValueError, TypeError) as e:
            if benign(kv, sep):
                raise Violation(f"key with values {kv} is rejected (separator {sep!r}): {e}")
            rejected += 1
            continue
        what = f"key with values {kv} (separator {sep!r})"
        with ctx.sut(f"path and text of {what}"):
            path = key.to_path
            string = str(key)
        # Path.
        parts = path.split("/")
        require(
            len(parts) == depth and not any(p in ("", ".", "..") for p in parts),
            f"path {path!r} of {what} is not {depth} directories deep",
        )
        p = os.path.normpath(os.path.join(base, path))
        require(
            p.startswith(base + os.sep) and p.count("/") == base.count("/") + depth,
            f"path {path!r} of {what} is not inside the collection",
        )
        # Back.
        with ctx.sut(f"path and text of {what} turned back into a key", path=path, text=string):
            k1 = cls.from_path(path)
            k2 = cls.from_str(string)
        require(k1 == key, f"{what}: key read back from path {path!r}", got=repr(k1))
        require(k2 == key, f"{what}: key read back from text {string!r}", got=repr(k2))
        require(
            k1 is not None and k1.to_path == path and str(k1) == string,
            f"{what}: path of the key read back from {path!r}",
        )
        # Copies.
        with ctx.sut(f"serialisation of {what}"):
            copies = [pickle.loads(pickle.dumps(key, n)) for n in (0, 2, pickle.HIGHEST_PROTOCOL)]
            copies.append(copy.copy(key))
            copies.append(copy.deepcopy(key))
            copies.append(copy.deepcopy({"k": [key]})["k"][0])
        for c in copies:
            require(
                c == key and type(c) is type(key) and hash(c) == hash(key) and c.to_path == path,
                f"{what}: serialised or copied key differs",
                got=repr(c),
            )
        accepted.append((kv, key, path, string))
    for i, (kv, key, path, string) in enumerate(accepted):
        for kv2, key2, path2, string2 in accepted[:i]:
            same = kv == kv2
            require(
                (key == key2) == same, f"equality of keys with values {kv} and {kv2}", got=key == key2
            )
            require(
                (path == path2) == same and (string == string2) == same,
                f"distinct keys with values {kv} and {kv2} have same path or text",
                path=path,
                text=string,
            )
            fl, fl2 = [x for lv in kv for x in lv], [x for lv in kv2 for x in lv]
            require(
                (key < key2) == (fl < fl2), f"order of keys with values {kv} and {kv2}"
            )
    # Unsupported types.
    name, at = case["bad"]
    kv = [[("a" if t == "str" else 1) for t in lv] for lv in levels]
    if sep not in ("a", "1"):
        flat = [(i, j) for i, lv in enumerate(levels) for j in range(len(lv))]
        i, j = flat[at % len(flat)]
        kv[i][j] = BAD_VALUES[name]
        ctx.rejects(f"key with a value of type {name}", schemas.make, cls, levels, kv)
    ctx.tag(f"depth-{depth}")
    if rejected:
        ctx.nontrivial("some-rejected")
    if len({p for _, _, p, _ in accepted}) > 1:
        ctx.nontrivial("two-accepted")
