"""
Core of the machinery: outcome types, case context, hypothesis driver, worker.

A *check module* (pbt/checks/<id>.py) defines

- ``ID``, ``RULE``, ``ASSUMPTIONS`` : text for evidence,
- ``BUDGET = {"quick": n, "thorough": n}`` : generated cases per shard,
- ``strategy(tier, shard)`` : hypothesis strategy of JSON-able cases,
- ``run_case(case, ctx)`` : runs the code under test and its oracle. Raises
  ``Violation`` if the property does not hold on this case. Any other exception
  is an error of the harness (never reported as a violation).
- optionally ``JIT_SHARDS`` : shards to be run with numba compilation.

A case is a pure JSON value: a failing (shrunk) case *is* the replay file.
"""
import contextlib
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Violation(Exception):
    """The property is broken by the code under test."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail

    def text(self):
        out = self.what
        for k, v in self.detail.items():
            s = str(v)
            out += f"\n   {k}: {s if len(s) < 1500 else s[:1500] + '...'}"
        return out


class Discard(Exception):
    """Case is outside of the property's domain (counted, not run)."""


class HarnessError(Exception):
    """The harness itself misbehaves."""


class Stuck(BaseException):
    """A case is not over after 'HANG' seconds."""


HANG = 90  # Seconds of processor for a single case, usually over in less than 1.


def _stuck(signum, frame):
    raise Stuck(f"a single case is not over after {HANG} s")


def require(cond, what, **detail):
    if not cond:
        raise Violation(what, **detail)


# --------------------------------------------------------------------------- #
# Containment of file removal in the scratch folder.                           #
# Installed before 'oups' gets imported, so that names it binds are guarded.   #
# --------------------------------------------------------------------------- #
_SCRATCH = {"root": None}
_real = {}


def _inside(path):
    root = _SCRATCH["root"]
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return True
    return root is not None and (p.startswith(root + os.sep))


def install_guards():
    if _real:
        return
    _real.update(rmtree=shutil.rmtree, rmdir=os.rmdir)

    def rmtree(path, *args, **kwargs):
        if not kwargs.get("dir_fd") and not _inside(path):
            raise Violation("removal of a directory tree outside of the collection", path=path)
        return _real["rmtree"](path, *args, **kwargs)

    def rmdir(path, *, dir_fd=None):
        if dir_fd is None and not _inside(path):
            raise Violation("removal of a directory outside of the collection", path=path)
        return _real["rmdir"](path, dir_fd=dir_fd)

    for name in ("avoids_symlink_attacks",):
        if hasattr(_real["rmtree"], name):
            setattr(rmtree, name, getattr(_real["rmtree"], name))
    shutil.rmtree = rmtree
    os.rmdir = rmdir


class Ctx:
    """Per-case context handed to 'run_case'."""

    def __init__(self, folder):
        self.folder = folder
        self.tags = set()
        self.n_ops = 0

    def tag(self, *names):
        """Mark classes met by this case. 'nt' marks it non-trivial."""
        self.tags.update(names)

    def nontrivial(self, *names):
        self.tags.add("nt")
        self.tags.update(names)

    @contextlib.contextmanager
    def sut(self, what, allowed=(), **detail):
        """Calls to the code under test: an exception there is a violation."""
        try:
            yield
        except allowed:
            raise
        except (Violation, Discard, HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM
                raise HarnessError(f"resource exhausted: {e}")
            raise Violation(f"unexpected exception in {what}", **detail, exception=tb(e)) from e
        except Exception as e:
            raise Violation(f"unexpected exception in {what}", **detail, exception=tb(e)) from e

    def rejects(self, what, func, *args, **kwargs):
        """Call expected to be rejected. Returns the exception."""
        try:
            func(*args, **kwargs)
        except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            return e
        raise Violation(f"{what}: expected to be rejected, but accepted")


def tb(e):
    lines = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(lines[-4:])[-900:]


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def load_check(prop):
    return importlib.import_module(f"pbt.checks.{prop.lower()}")


class Runner:
    """Run cases of one check, keeping counters."""

    def __init__(self, check, scratch, deadline):
        self.check = check
        self.scratch = os.path.realpath(scratch)
        self.deadline = deadline
        self.n = 0
        self.skipped = 0
        self.longest = 0.0
        self.discarded = 0
        self.hashes = set()
        self.nt_hashes = set()
        self.tags = {}
        self.samples = []
        self.best = None  # (size, canonical, what)
        self.n_viol = 0
        self.errors = []
        self.cur = None  # File with case being run.

    def once(self, case):
        """Run one case in its own scratch folder."""
        folder = tempfile.mkdtemp(prefix="case-", dir=self.scratch)
        # Deep enough, with guard files, so that a defect climbing directories
        # is stopped (and seen) before leaving the folder.
        ctx = Ctx(folder)
        _SCRATCH["root"] = folder
        cwd = os.getcwd()
        signal.signal(signal.SIGPROF, _stuck)
        # Compilation may occur with 1st cases.
        signal.setitimer(signal.ITIMER_PROF, HANG if self.n > 4 else 2 * HANG)
        try:
            os.chdir(folder)
            self.check.run_case(case, ctx)
            signal.setitimer(signal.ITIMER_PROF, 0)
        except Stuck as e:
            if not any("/oups/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
                # Not due to the code under test.
                raise Discard from None
            raise Violation("operations do not terminate", exception=tb(e)) from None
        except (Violation, Discard, HarnessError, MemoryError):
            raise
        except Exception as e:
            # The oracle is written for any result it should get from the code
            # under test: results it stumbles on are wrong ones.
            if isinstance(e, OSError) and e.errno in (28, 24, 12):
                raise HarnessError(f"resource exhausted: {e}")
            raise Violation("results cannot be interpreted", exception=tb(e)) from e
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.chdir(cwd)
            _SCRATCH["root"] = self.scratch
            reset = getattr(self.check, "reset", None)
            if reset:
                reset()
            (_real.get("rmtree") or shutil.rmtree)(folder, ignore_errors=True)
        return ctx

    def __call__(self, case):
        if time.time() > self.deadline and self.best is None:
            self.skipped += 1
            return
        text = canonical(case)
        case = json.loads(text)
        if self.cur is not None:
            with open(self.cur, "w") as f:
                f.write(text)
        t = time.time()
        try:
            ctx = self.once(case)
        except Discard:
            self.discarded += 1
            return
        except Violation as v:
            self.n_viol += 1
            cand = (len(text), text, v.text())
            if self.best is None or cand < self.best:
                self.best = cand
            raise
        except Exception:
            err = traceback.format_exc()
            self.errors.append((text[:2000], err[-3000:]))
            raise HarnessError(err)
        self.n += 1
        self.longest = max(self.longest, time.time() - t)
        h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
        new = h not in self.hashes
        self.hashes.add(h)
        for t in ctx.tags:
            if new:
                self.tags[t] = self.tags.get(t, 0) + 1
        if "nt" in ctx.tags:
            self.nt_hashes.add(h)
            if new and len(self.samples) < 3 and len(text) < 1500:
                self.samples.append(case)

    def stats(self):
        return {
            "n": self.n,
            "skipped": self.skipped,
            "longest_s": round(self.longest, 2),
            "discarded": self.discarded,
            "hashes": sorted(self.hashes),
            "nt_hashes": sorted(self.nt_hashes),
            "tags": self.tags,
            "samples": self.samples,
            "n_viol": self.n_viol,
            "best": self.best,
            "errors": self.errors[:3],
        }


def worker(argv):
    """Entry point of a shard (subprocess)."""
    args = json.loads(argv[0])
    for p in reversed(args["path"]):
        sys.path.insert(0, p)
    install_guards()
    scratch = os.path.join(args["scratch"], f"w{args['shard']}")
    os.makedirs(scratch)
    _SCRATCH["root"] = os.path.realpath(scratch)
    os.chdir(scratch)
    out = {"shard": args["shard"], "ok": False}
    t0 = time.time()
    try:
        check = load_check(args["property"])
        runner = Runner(check, scratch, deadline=args["deadline"])
        runner.cur = args["out"] + ".cur"
        # Shrinking is bounded.
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = args["shrink_s"]
        failed = False
        # 1/ Committed corpus (regressions and hand picked histories).
        for i, case in enumerate(args["corpus"]):
            if i % args["nshards"] != args["shard"]:
                continue
            try:
                runner(case)
            except Violation:
                failed = True
                break
        # 2/ Generated cases.
        if not failed:
            from hypothesis import HealthCheck
            from hypothesis import Phase
            from hypothesis import given
            from hypothesis import seed
            from hypothesis import settings

            @seed(args["seed"] * 1000 + args["shard"])
            @settings(
                max_examples=args["n"],
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
            )
            @given(check.strategy(args["tier"], args["shard"]))
            def test(case):
                runner(case)

            try:
                test()
            except HarnessError:
                raise
            except Exception as e:
                if runner.best is None:
                    raise
                out["raised"] = type(e).__name__
        # 3/ Confirm, out of hypothesis.
        if runner.best is not None:
            case = json.loads(runner.best[1])
            confirmed = 0
            for _ in range(getattr(check, "CONFIRM", 3)):
                try:
                    runner.once(json.loads(runner.best[1]))
                except Violation as v:
                    confirmed += 1
                    out["what"] = v.text()
                    break
            out["confirmed"] = confirmed
            out["case"] = case
            out.setdefault("what", runner.best[2])
        out.update(runner.stats())
        out["ok"] = not runner.errors or runner.best is not None
    except BaseException:
        out["crash"] = traceback.format_exc()[-4000:]
        with contextlib.suppress(Exception):
            out.update(runner.stats())
        out["ok"] = False
    out["wall_s"] = time.time() - t0
    with open(args["out"] + ".tmp", "w") as f:
        json.dump(out, f)
    os.replace(args["out"] + ".tmp", args["out"])
    sys.stdout.flush()
    # vaex and numba threads should not delay the exit.
    os._exit(0)
