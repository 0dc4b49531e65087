"""A10: an interrupted streaming can be run again."""
import copy
import random

from hypothesis import strategies as st

from pbt import streamlib
from pbt.checks.a07 import cut
from pbt.core import require
from pbt.streamlib import Seed


ID = "A10"
RULE = (
    "a case is a seed, 1 or 2 keys with a small memory limit (intermediate writes) and a list of sessions "
    "with or without final write; a session may be interrupted, either by an exception of the seed iterator "
    "after any chunk, or by an exception of the post-processing at any call; the streaming is then resumed with "
    "the same object (from the chunk following those aggregated), or with a new object and a re-opened store (from "
    "any row up to the last final write); after each final write, recorded results are compared to a brute "
    "force aggregation of the rows processed; non-trivial if rows are processed in an interrupted "
    "session, results being checked afterwards"
)
ASSUMPTIONS = [
    "results have no 0 (checked by the library), data has no null, labels of bins are distinct",
    "a session following one in which the last group is not left out is only given new rows",
    "if no final write has succeeded yet, resuming with a new object may be rejected by an exception (results "
    "without restart data); keys are then deleted and streaming restarts from scratch",
]
BUDGET = {"quick": 70, "thorough": 1500}
JIT_SHARDS = (7,)


class Stop(Exception):
    pass


@st.composite
def strategy(draw, tier=None, shard=None):
    seed = draw(streamlib.seeds(max_n=30))
    n = len(seed["pos"])
    calls, seen = [], 0
    for _ in range(draw(st.integers(1, 4))):
        seen = min(n, seen + draw(st.integers(1, max(1, n))))
        calls.append(
            {
                "seen": seen,
                "back": draw(st.sampled_from([0, 0, 1, 3, 1000])),
                "cut": draw(st.sampled_from(["singles", "singles", "small", "small", "free"])),
                "cut_seed": draw(st.integers(0, 2**16)),
                # Number of chunks before the interruption (modulo number of chunks).
                "fault": draw(st.sampled_from([None, -1, -1, -2, 0, 1, 2, 3, 5, 8])),
                "kind": draw(st.sampled_from(["seed", "post"])),
                "recover": draw(st.sampled_from(["same", "new"])),
                # Final write of what has been aggregated before the interruption.
                "flush": draw(st.booleans()),
                "discard": draw(st.booleans()),
                "final": draw(st.integers(0, 3)) > 0,
                "index": draw(st.sampled_from([None, None, "shift", "dup"])),
                "new": draw(st.booleans()),
            },
        )
    calls.append(
        {**draw(st.sampled_from(calls)), "seen": n, "fault": None, "discard": False, "final": True},
    )
    keys = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        conf = draw(streamlib.key_configs(seed, fixed=shard in JIT_SHARDS))
        conf["mem"] = draw(st.sampled_from([1e-06, 1e-06, 1e-06, 0.0002, None]))
        keys.append(conf)
    return {"seed": seed, "keys": keys, "calls": calls, "post": draw(st.integers(0, 3)) > 0}


def run_case(case, ctx):
    from oups import AggStream

    seed = Seed(case["seed"])
    confs = case["keys"]
    Key = streamlib.make_schema()
    keys = [streamlib.out_keys(Key, i, c) for i, c in enumerate(confs)]
    for conf in confs:
        seed.reference(conf, list(range(seed.n)))  # Discarded if not relevant.
    with_post = case["post"] and len(keys) == 1
    left = [None]

    def post(buffer, bin_res, snap_res=None):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise Stop("post")
        if snap_res is None:
            return bin_res
        return (bin_res, snap_res) if confs[0]["both"] else snap_res

    # Number of chunks given, and if this was all of them.
    given = {}

    def stream(frames, n_ok):
        given.update(n=0, all=False)
        for i, df in enumerate(frames):
            if i == n_ok:
                raise Stop("seed")
            given["n"] += 1
            yield df
        if n_ok is not None:
            raise Stop("seed")
        given["all"] = True

    def new_object():
        return AggStream(
            ordered_on="ts",
            store=store,
            post=post if with_post else None,
            keys={k_: streamlib.key_settings(c) for k_, c in zip(keys, confs)},
        )

    def datasets():
        return [x for k_ in keys for x in (k_ if isinstance(k_, tuple) else (k_,)) if x in store]

    # State: p rows processed, last group is flushed, resume exactly at p.
    zero = {"p": 0, "flushed": False, "exact": False}
    mem, disk = copy.copy(zero), copy.copy(zero)
    store = streamlib.open_store(ctx.folder, Key)
    obj, saved = None, True
    nums = seed.nums
    interrupted = False
    for k, call in enumerate(case["calls"]):
        r = random.Random(call["cut_seed"])
        if obj is None:
            store = streamlib.open_store(ctx.folder, Key)
        if obj is None or (call["new"] and saved):
            try:
                obj = new_object()
            except ValueError as e:
                # No restart data.
                require(
                    not disk["p"] and datasets(),
                    "AggStream() rejects resuming after an interruption",
                    call=k,
                    error=repr(e),
                    datasets=datasets(),
                )
                ctx.tag("rejected")
                for x in datasets():
                    with ctx.sut("deletion"):
                        del store[x]
                with ctx.sut("AggStream()"):
                    obj = new_object()
            mem = copy.copy(disk)
        p = mem["p"]
        stop = max(call["seen"], p)
        if mem["flushed"] or mem["exact"]:
            start, trim = p, False
        else:
            start, trim = max(0, p - call["back"]), call["back"] > 0
        sizes = cut(stop - start, call["cut"], r)
        frames, row = [], start
        for size in sizes:
            frames.append(seed.frame(range(row, row + size), call["index"]))
            row += size
        n_ok = None
        left[0] = None
        if call["fault"] is not None:
            if call["kind"] == "post" and with_post:
                left[0] = r.choice([0, 0, 1, 1, 2, 4])
            else:
                n_ok = call["fault"] % (len(sizes) + 1)
        failed = None
        try:
            with ctx.sut("agg()", allowed=(Stop,), call=k):
                obj.agg(
                    stream(frames, n_ok),
                    trim_start=trim,
                    discard_last=call["discard"],
                    final_write=call["final"],
                )
        except Stop as e:
            failed = str(e)
        left[0] = None
        if n_ok is not None and failed != "post":
            require(failed == "seed", "exception of the seed iterator is not reported", call=k)
        if failed == "post":
            ctx.tag("post_interrupted")
            if call["recover"] == "new":
                interrupted |= bool(start < stop)
                obj, saved = None, True
                continue
            if not given["all"]:
                # At an intermediate write: last chunk given is not aggregated.
                n_ok = given["n"] - 1
                ctx.tag("post_intermediate_same")
        valid_stop = stop if n_ok is None else start + sum(sizes[:n_ok])
        if valid_stop > start:
            last = nums[valid_stop - 1]
            new_p = valid_stop
            if call["discard"]:
                while new_p > p and nums[new_p - 1] == last:
                    new_p -= 1
            if new_p > p:
                mem = {"p": new_p, "flushed": not call["discard"], "exact": False}
                saved = False
                interrupted |= failed is not None
            elif valid_stop > p and mem["flushed"]:
                mem.update(flushed=False, exact=True)
                saved = False
        if failed:
            ctx.tag(f"{failed}_interrupted_" + call["recover"])
            if datasets() and not disk["p"]:
                ctx.tag("first_session")
            if call["recover"] == "new":
                obj, saved = None, True
                continue
            if not (call.get("flush") and mem["p"]):
                continue
            ctx.tag("flush")
            with ctx.sut("agg() without seed", call=k):
                obj.agg()
        if call["final"] or failed:
            disk, saved = copy.copy(mem), True
            for key, conf in zip(keys, confs):
                streamlib.check_results(
                    store,
                    key,
                    conf,
                    seed,
                    list(range(mem["p"])),
                    ctx,
                    f"after call {k}",
                    processed=mem["p"],
                )
    require(mem["p"] == seed.n, "harness: seed not entirely processed")
    if interrupted:
        ctx.nontrivial()
