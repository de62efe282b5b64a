"""Exploration engine.

Every property module exposes
    PROPS  = {id: Prop}
where a Prop knows how to list its *tasks* (a task is a JSON-able dict naming one
block of the bounded state space) and how to run one of them.  A task enumerates its
block completely; the engine runs all tasks (in parallel), sums what was covered and
writes the evidence file.  Nothing is sampled: the task list and the contents of every
task are deterministic functions of (property, tier).
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))


class Violation(Exception):
    """The real code broke the property."""

    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class HarnessError(Exception):
    """The check itself is broken (never a verdict about the code)."""


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, (bytes, bytearray)):
            m.update(p)
        else:
            m.update(repr(p).encode())
        m.update(b"|")
    return m.digest()


class Ctx:
    """Counts what one task covered."""

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.bulk_states = 0          # states distinct by construction (deduplicated alphabets)
        self.seen = set()             # explicit states (hashed)
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.worst = {}
        self.known = []
        self.where = None

    # -- accounting -------------------------------------------------------
    def state(self, *key):
        k = h64(*key)
        new = k not in self.seen
        self.seen.add(k)
        return new

    def states(self, n):
        self.bulk_states += int(n)

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, *key):
        if len(self.outcomes) < 20000:
            self.outcomes.add(h64(*key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def at(self, **where):
        """Names the execution being explored (goes into the replay file)."""
        self.where = where

    # -- oracles ----------------------------------------------------------
    def fail(self, message, **detail):
        raise Violation(message, where=self.where, **detail)

    def require(self, cond, message, **detail):
        if not cond:
            self.fail(message, **detail)

    def impl(self, what, fn, *a, **k):
        """Run the implementation; an exception where none is allowed is a violation."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except RecursionError as e:
            self.fail(f"{what} raised RecursionError: {e}")
        except Exception as e:  # noqa
            self.fail(f"{what} raised {type(e).__name__}: {e}", tb=traceback.format_exc()[-1500:])

    def rejects(self, what, fn, kinds=(ValueError,)):
        """fn must raise one of kinds."""
        try:
            fn()
        except kinds:
            return
        except Exception as e:  # noqa
            self.fail(f"{what} raised {type(e).__name__} ({e}) instead of {[k.__name__ for k in kinds]}")
        self.fail(f"{what} was accepted, expected {[k.__name__ for k in kinds]}")

    def close(self, what, got, want, tol, alt=None, **detail):
        """|got-want| <= tol elementwise (alt: accepted alternative values)."""
        import numpy as np

        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            self.fail(f"{what}: shape {got.shape} instead of {want.shape}", **detail)
        if got.size == 0:
            return
        tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), want.shape)
        d = np.abs(got - want)
        bad = ~(d <= tol)
        if alt is not None:
            for a in alt:
                bad &= ~(np.abs(got - a) <= tol)
        with np.errstate(divide="ignore", invalid="ignore"):
            r = np.where(bad, 0, d / np.maximum(tol, 1e-300))
        if alt is not None:
            for a in alt:
                r = np.minimum(r, np.abs(got - a) / np.maximum(tol, 1e-300))
        m = float(np.nanmax(r)) if r.size else 0.0
        if m > self.worst.get(what, 0.0):
            self.worst[what] = m
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(
                f"{what}: got {got[i]!r}, expected {want[i]!r} (tolerance {tol[i]:.3g}) at index {i}",
                bad=int(bad.sum()), total=int(bad.size), **detail,
            )

    def same(self, what, a, b, **detail):
        import torch

        if a.shape != b.shape:
            self.fail(f"{what}: shape {tuple(a.shape)} instead of {tuple(b.shape)}", **detail)
        if not torch.equal(a, b):
            self.fail(f"{what}: values differ (max {float((a - b).abs().max()):.3g})", **detail)


class Prop:
    """tasks(tier) -> list of dicts; run(task, ctx)."""

    def __init__(self, pid, tasks, run, rule, assumptions=(), exhaustive=True):
        self.pid, self.tasks, self.run = pid, tasks, run
        self.rule = rule
        self.assumptions = list(assumptions)
        self.exhaustive = exhaustive


# ----------------------------------------------------------------------------
def _load_repo():
    """Import the package from REPO's working tree, and nothing else."""
    sys.path.insert(0, REPO)
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # third party modules may use their bytecode caches, the code under test never
    for m in ("numpy", "pytorch_lightning", "torchmetrics", "omegaconf", "lion_pytorch"):
        importlib.import_module(m)
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "no-such-cache")
    import high_order_layers_torch

    f = os.path.abspath(high_order_layers_torch.__file__)
    if not f.startswith(REPO + os.sep):
        raise HarnessError(f"package imported from {f}, not from {REPO}")


def _quiet():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


_PROP = None
_TIER = None


def _alarm(signum, frame):
    raise Violation("the code under test did not finish within the task time limit")


def _run_one(item):
    idx, task = item
    ctx = Ctx(_TIER)
    t0 = time.time()
    viol = None
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(task.get("limit", 700 if _TIER == "thorough" else 500)))
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            import torch

            torch.manual_seed(12345)
            _PROP.run(task, ctx)
    except Violation as v:
        viol = dict(message=v.message, detail=_jsonable(v.detail))
    except HarnessError as e:
        err = traceback.format_exc()
    except MemoryError:
        err = "MemoryError"
    except Exception as e:  # the driver only uses documented behaviour of the code
        viol = dict(message=f"unexpected {type(e).__name__}: {e}", detail=dict(where=_jsonable(ctx.where), tb=traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)
    return dict(
        idx=idx, task=task, viol=viol, err=err, wall=time.time() - t0,
        seen=ctx.seen, bulk=ctx.bulk_states, transitions=ctx.transitions, traces=ctx.traces,
        outcomes=ctx.outcomes, samples=ctx.samples, worst=ctx.worst, known=ctx.known,
    )


def _jsonable(o):
    try:
        json.dumps(o)
        return o
    except TypeError:
        if isinstance(o, dict):
            return {str(k): _jsonable(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [_jsonable(v) for v in o]
        return repr(o)[:2000]


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("open", [])


def main(props, pid, tier, replay=None, only=None):
    global _PROP, _TIER
    t0 = time.time()
    _load_repo()
    _quiet()
    prop = props[pid]
    _PROP, _TIER = prop, tier
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)

    if replay:
        rec = json.load(open(replay))
        r1 = _run_one((0, rec["task"]))
        if r1["err"]:
            print(r1["err"])
            return 2
        if r1["viol"]:
            print(f"replayed: {r1['viol']['message']}")
            print(json.dumps(r1["viol"]["detail"], indent=1))
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replay: no violation on this tree")
        return 0

    tasks = list(enumerate(prop.tasks(tier)))
    if only is not None:
        tasks = [t for t in tasks if all(str(t[1].get(k)) == v for k, v in only.items())]
    import multiprocessing as mp

    procs = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    results = []
    if procs <= 1 or len(tasks) == 1:
        results = [_run_one(t) for t in tasks]
    else:
        order = sorted(tasks, key=lambda t: -float(t[1].get("cost", 1)))
        with mp.get_context("fork").Pool(procs) as pool:
            for r in pool.imap_unordered(_run_one, order, chunksize=1):
                results.append(r)
                if r["viol"] and not os.environ.get("VERIF_VERBOSE"):
                    pool.terminate()  # one violation decides
                    break
    results.sort(key=lambda r: r["idx"])

    seen, outcomes, worst, samples = set(), set(), {}, []
    bulk = transitions = traces = 0
    slow = sorted(((round(r["wall"], 2), r["task"]) for r in results), key=lambda t: -t[0])[:3]
    known_hits = []
    for r in results:
        # states of different tasks are in different blocks
        tag = r["idx"].to_bytes(4, "big")
        seen.update(tag + s for s in r["seen"])
        outcomes |= r["outcomes"]
        bulk += r["bulk"]
        transitions += r["transitions"]
        traces += r["traces"]
        known_hits += r["known"]
        if r["samples"] and len(samples) < 6:
            samples.append(dict(task=r["task"], sample=r["samples"][0]))
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
    errs = [r for r in results if r["err"]]
    viols = [r for r in results if r["viol"]]

    known = [k for k in load_known() if k["property"] == pid]
    fresh = []
    for r in viols:
        fresh.append(r)
    for k in known:
        hit = any(h == k["key"] for h in known_hits)
        if hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")

    os.makedirs(EVIDENCE, exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=bulk + len(seen), transitions=transitions,
            traces_validated_against_impl=traces, samples=samples,
            exhaustive=bool(prop.exhaustive and not errs and only is None and len(results) == len(tasks)),
            tasks=len(tasks), tasks_run=len(results), distinct_outcomes=len(outcomes),
            explicit_states_hashed=len(seen), rule=prop.rule,
            worst_error_over_tolerance={k: round(v, 4) for k, v in sorted(worst.items())},
            slowest=[dict(wall_s=w, task=t) for w, t in slow],
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(_jsonable(ev), f, indent=1)
        f.write("\n")

    print(f"{pid} [{tier}] tasks={len(tasks)} states={bulk + len(seen)} transitions={transitions} "
          f"traces={traces} outcomes={len(outcomes)} wall={ev['wall_s']}s "
          f"worst={max(worst.values()) if worst else 0:.3f}")
    if fresh:
        r = min(fresh, key=lambda r: r["idx"])
        path = os.path.join(EVIDENCE, f"{pid}.replay.json")
        with open(path, "w") as f:
            json.dump(_jsonable(dict(property=pid, tier=tier, task=r["task"], message=r["viol"]["message"],
                           detail=r["viol"]["detail"], failing_tasks=len(fresh),
                           replay_cmd=f"./check.sh {pid} --replay {path}")), f, indent=1)
            f.write("\n")
        print(f"  {len(fresh)} failing task(s); first: {json.dumps(r['task'])}")
        for q in sorted(fresh, key=lambda r: r["idx"])[: 12 if os.environ.get("VERIF_VERBOSE") else 1]:
            print(f"  {q['viol']['message']}   {json.dumps(q['task']) if q is not r else ''}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        print(errs[0]["err"])
        print(f"harness error in {len(errs)} task(s)")
        return 2
    if transitions == 0 or traces == 0:
        print("vacuous exploration")
        return 2
    return 0


def _finding(self, key, message, **detail):
    """A violation that is listed in known_findings.json is reported as such."""
    if any(k["key"] == key for k in load_known()):
        self.known.append(key)
        return
    self.fail(message, **detail)


Ctx.finding = _finding
