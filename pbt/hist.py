"""Generation of histories of ordered updates, shared by several checks."""
from hypothesis import strategies as st


@st.composite
def ordered_ints(draw, lo=-10, hi=60, max_n=14):
    """Sorted list of ints: contiguous, spaced, with ties or in clusters."""
    shape = draw(st.sampled_from(["run", "ties", "spaced", "free", "point"]))
    start = draw(st.integers(lo, hi))
    if shape == "point":
        return [start] * draw(st.integers(1, 4))
    if shape == "free":
        return sorted(draw(st.lists(st.integers(lo, hi), min_size=1, max_size=max_n)))
    steps = {"run": [1], "ties": [0, 0, 1], "spaced": [1, 2, 7]}[shape]
    out = [start]
    for s in draw(st.lists(st.sampled_from(steps), max_size=max_n - 1)):
        out.append(out[-1] + s)
    return out


def dense_ints(lo=0, hi=12, max_n=10):
    return st.lists(st.integers(lo, hi), min_size=1, max_size=max_n).map(sorted)


def position(new, old):
    """Class of the new values with respect to the recorded ones."""
    if not old:
        return "first"
    lo, hi = new[0], new[-1]
    if any(lo <= x <= hi for x in old):
        return "overlap"
    if hi < old[0]:
        return "before"
    if lo > old[-1]:
        return "after"
    return "gap"
