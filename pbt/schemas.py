"""Dynamic indexing schemas."""
import sys
import types


MODULE = "pbt_dynamic_schemas"


def build(levels, sep):
    """
    Create a '@toplevel' class.

    levels : list of levels, each a list of 'int' / 'str'.
    """
    from oups import sublevel
    from oups import toplevel

    mod = sys.modules.get(MODULE)
    if mod is None:
        mod = sys.modules[MODULE] = types.ModuleType(MODULE)
    T = {"int": int, "str": str}
    below = None
    for depth in range(len(levels) - 1, -1, -1):
        ann = {f"f{depth}_{j}": T[t] for j, t in enumerate(levels[depth])}
        if below is not None:
            ann[f"sub{depth}"] = below
        name = f"L{depth}"
        cls = type(
            name, (), {"__annotations__": ann, "__module__": MODULE, "__qualname__": name}
        )
        if depth:
            below = sublevel(cls)
        else:
            below = toplevel(cls, fields_sep=sep)
        setattr(mod, name, below)
    return below


def make(cls, levels, values):
    """Key from nested values (list of levels, each a list)."""
    import dataclasses

    classes = [cls]
    while dataclasses.is_dataclass(t := dataclasses.fields(classes[-1])[-1].type):
        classes.append(t)
    obj = None
    for c, vals in zip(classes[::-1], values[::-1]):
        obj = c(*vals) if obj is None else c(*vals, obj)
    return obj
