#!/opt/venv/bin/python
"""
Run the check of a property (or replay a failing case).

  run.py PROPERTY [--tier quick|thorough] [--n CASES] [--shards N] [--time S]
  run.py --replay FILE
  run.py --setup

Exit 0: property held on everything explored. Exit 1: 'VIOLATION' line printed.
Exit 2: the check could not give an answer.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OUPS_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.path.insert(0, HERE)

from pbt import boot  # noqa: E402

NSHARDS = 8
# Seconds of generation, shrinking.
TIME = {"quick": 150, "thorough": 2400}
SHRINK = {"quick": 45, "thorough": 200}


def child_env(scratch, extra_path, jit, cache):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "LANG", "LC_ALL", "LD_LIBRARY_PATH", "VERIF_SEED", "VERIF_TIER")
    }
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    env.update(
        PYTHONPATH=os.pathsep.join([REPO, HERE, *extra_path]),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore",
        TZ="UTC",
        HOME=home,
        TMPDIR=scratch,
        NUMBA_CACHE_DIR=cache,
        NUMBA_NUM_THREADS="2",
        VAEX_NUM_THREADS="2",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        ARROW_NUM_THREADS="1",
    )
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    return env


def known(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def make_scratch():
    return tempfile.mkdtemp(prefix="oups-verif-")


def spawn(args, scratch, extra, jit, cache, log):
    return subprocess.Popen(
        [PYTHON, "-c", "import sys; from pbt.core import worker; worker(sys.argv[1:])", json.dumps(args)],
        env=child_env(scratch, extra, jit, cache),
        cwd=scratch,
        stdout=log,
        stderr=log,
        stdin=subprocess.DEVNULL,
        start_new_session=True,
    )


def hypothesis_path(scratch):
    probe = subprocess.run(
        [PYTHON, "-c", "import hypothesis"], cwd=scratch, capture_output=True
    )
    return [] if probe.returncode == 0 else boot.provide(os.path.join(scratch, "deps"))


def run_check(prop, tier, seed, n, nshards, limit):
    t0 = time.time()
    scratch = make_scratch()
    try:
        extra = hypothesis_path(scratch)
        meta = subprocess.run(
            [
                PYTHON,
                "-c",
                "import json,sys\nfrom pbt.core import load_check\n"
                f"m=load_check('{prop}')\n"
                "print('@@'+json.dumps({'jit':list(getattr(m,'JIT_SHARDS',())),'budget':m.BUDGET,"
                "'rule':m.RULE,'assumptions':m.ASSUMPTIONS,'warm':hasattr(m,'warm')}))",
            ],
            env=child_env(scratch, extra, False, os.path.join(scratch, "nc0")),
            cwd=scratch,
            capture_output=True,
            text=True,
        )
        lines = [x for x in meta.stdout.splitlines() if x.startswith("@@")]
        if not lines:
            print(meta.stdout[-2000:], meta.stderr[-4000:])
            print(f"ERROR: check module of {prop} cannot be loaded")
            # If the library itself cannot be imported, there is no answer.
            return 2
        info = json.loads(lines[0][2:])
        corpus = []
        cpath = os.path.join(HERE, "corpus", f"{prop}.json")
        if os.path.exists(cpath):
            with open(cpath) as f:
                corpus = [c["case"] for c in json.load(f)]
        n = n or info["budget"][tier]
        limit = limit or TIME[tier]
        procs = []
        log = open(os.path.join(scratch, "log"), "w")
        for shard in range(nshards):
            args = dict(
                property=prop,
                tier=tier,
                shard=shard,
                nshards=nshards,
                seed=seed,
                n=n,
                path=[REPO, HERE, *extra],
                scratch=scratch,
                corpus=corpus,
                deadline=t0 + limit,
                shrink_s=SHRINK[tier],
                out=os.path.join(scratch, f"out{shard}.json"),
            )
            jit = shard in info["jit"]
            cache = os.path.join(scratch, f"nc{shard}")
            procs.append((args, spawn(args, scratch, extra, jit, cache, log)))
        hard = t0 + limit + 2 * SHRINK[tier] + 120
        results, hung = [], []
        for args, p in procs:
            try:
                p.wait(max(1, hard - time.time()))
            except subprocess.TimeoutExpired:
                hung.append(args["shard"])
                if len(hung) == 1 and is_stuck(prop, args, args["shard"] in info["jit"]):
                    with open(args["out"] + ".cur") as f:
                        case = json.load(f)
                    with open(args["out"], "w") as f:
                        json.dump(
                            {
                                "shard": args["shard"],
                                "ok": False,
                                "case": case,
                                "confirmed": 1,
                                "stuck": True,
                                "what": "operations do not terminate",
                            },
                            f,
                        )
            with_kill(p)
            if os.path.exists(args["out"]):
                with open(args["out"]) as f:
                    results.append(json.load(f))
            else:
                results.append(
                    {"shard": args["shard"], "ok": False, "crash": f"no output, rc={p.returncode}"}
                )
        log.close()
        with open(os.path.join(scratch, "log")) as f:
            logtext = f.read()
        return conclude(prop, tier, seed, info, results, hung, logtext, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def is_stuck(prop, args, jit):
    """Does last case of a shard which had to be stopped never end?"""
    try:
        with open(args["out"] + ".cur") as f:
            case = json.load(f)
    except (OSError, ValueError):
        return False
    return fails_compiled(prop, case, jit=jit, timeout=90)


def with_kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def conclude(prop, tier, seed, info, results, hung, logtext, t0):
    hashes, nt, tags, samples = set(), set(), {}, []
    for r in results:
        hashes.update(r.get("hashes", ()))
        nt.update(r.get("nt_hashes", ()))
        for k, v in r.get("tags", {}).items():
            tags[k] = tags.get(k, 0) + v
        samples.extend(r.get("samples", ())[:1])
    n = sum(r.get("n", 0) for r in results)
    skipped = sum(r.get("skipped", 0) for r in results)
    violations = [r for r in results if r.get("case") is not None and r.get("confirmed")]
    flaky = [r for r in results if r.get("case") is not None and not r.get("confirmed")]
    errors = [r for r in results if not r.get("ok")]
    findings = [k for k in known(prop) if k.get("status") == "known"]
    code = 0
    replay = None
    best, interpreted_only = None, []
    for r in sorted(violations, key=lambda r: len(json.dumps(r["case"]))):
        # What is observed with interpreted numba code has to be observed as
        # well with the compiled one, the one really used.
        sure = r.get("stuck") or not info["jit"] or r["shard"] in info["jit"]
        if sure or fails_compiled(prop, r["case"]):
            best = r
            break
        interpreted_only.append(r)
    if best is None:
        violations = []
    for r in interpreted_only:
        print("note: a failure is only met with interpreted numba code:", r["what"][:1500])
        print("case:", json.dumps(r["case"])[:1500])
    if violations:
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        replay = os.path.join(HERE, "evidence", "replays", f"{prop}.json")
        with open(replay, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "case": best["case"],
                    "what": best["what"],
                    "jit": bool(info["jit"]),
                },
                f,
                indent=1,
            )
        print(best["what"])
        print("case:", json.dumps(best["case"])[:3000])
        print(f"VIOLATION property={prop} replay={replay}")
        code = 1
    elif errors or hung or n == 0:
        for r in errors[:2]:
            print("shard", r["shard"], r.get("crash", "")[-3000:])
            for e in r.get("errors", ())[:1]:
                print(e[0][:1500])
                print(e[1])
        print(logtext[-1500:])
        print(f"ERROR: no answer for {prop} (errors={len(errors)}, hung={hung}, cases={n})")
        code = 2
    for r in flaky:
        print("note: a failure has been observed but did not reproduce:", r["what"][:1500])
        print("case:", json.dumps(r["case"])[:1500])
    for k in findings:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_cases": len(hashes),
            "distinct_nontrivial": len(nt),
            "rule": info["rule"],
            "samples": samples[:6],
            "classes": dict(sorted(tags.items())),
            "skipped_out_of_time": skipped,
            "discarded": sum(r.get("discarded", 0) for r in results),
            "shards": [
                {"shard": r["shard"], "cases": r.get("n", 0), "wall_s": round(r.get("wall_s", 0), 1), "longest_case_s": r.get("longest_s")}
                for r in results
            ],
            "unreproduced": len(flaky),
            "interpreted_only": len(interpreted_only),
        },
        "assumptions": info["assumptions"],
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 2),
    }
    if replay:
        ev["coverage"]["replay"] = replay
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop}: cases={n} distinct={len(hashes)} nontrivial={len(nt)} skipped={skipped} "
        f"classes={json.dumps(ev['coverage']['classes'])} wall={ev['wall_s']}s exit={code}"
    )
    return code


def fails_compiled(prop, case, jit=True, timeout=250):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "case.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": case, "jit": jit}, f)
        try:
            return replay(path, quiet=True, timeout=timeout) in (1, -6, -7, -11)
        except subprocess.TimeoutExpired:
            return True


def replay(path, quiet=False, timeout=None):
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    scratch = make_scratch()
    try:
        extra = hypothesis_path(scratch)
        code = (
            "import json,sys\n"
            "from pbt import core\n"
            "core.install_guards()\n"
            f"rec=json.load(open({path!r}))\n"
            f"chk=core.load_check('{prop}')\n"
            f"r=core.Runner(chk,{scratch!r},1e18)\n"
            "for _ in range(getattr(chk,'CONFIRM',1)):\n"
            "  try:\n"
            "    r.once(rec['case'])\n"
            "  except core.Violation as v:\n"
            "    print(v.text()); sys.stdout.flush(); core.os._exit(1)\n"
            "  except core.Discard:\n"
            "    print('out of domain')\n"
            "  except BaseException:\n"
            "    core.traceback.print_exc(); sys.stderr.flush(); core.os._exit(2)\n"
            "print('no violation'); sys.stdout.flush(); core.os._exit(0)\n"
        )
        path = os.path.abspath(path)
        p = subprocess.run(
            [PYTHON, "-c", code],
            env=child_env(scratch, extra, rec.get("jit", False), os.path.join(scratch, "nc")),
            cwd=scratch,
            stdout=subprocess.DEVNULL if quiet else None,
            stderr=subprocess.DEVNULL if quiet else None,
            timeout=timeout,
        )
        if p.returncode == 1 and not quiet:
            print(f"VIOLATION property={prop} replay={path}")
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--n", type=int)
    ap.add_argument("--shards", type=int, default=NSHARDS)
    ap.add_argument("--time", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        with tempfile.TemporaryDirectory() as d:
            paths = hypothesis_path(d)
            ok = subprocess.run(
                [PYTHON, "-c", "import hypothesis, pandas, fastparquet, vaex; print(hypothesis.__version__)"],
                env={**os.environ, "PYTHONPATH": os.pathsep.join(paths)},
                cwd=d,
            ).returncode
        sys.exit(ok)
    if a.replay:
        sys.exit(replay(os.path.abspath(a.replay)))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    sys.exit(run_check(a.property.upper(), tier, a.seed, a.n, a.shards, a.time))


if __name__ == "__main__":
    main()
