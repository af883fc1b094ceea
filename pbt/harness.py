"""Test registry, shard runner, shrinking, replay and evidence."""
import hashlib
import json
import math
import os
import sys
import time
import traceback

import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis.errors import Flaky, FlakyStrategyDefinition
from hypothesis.internal.conjecture.engine import ConjectureRunner

from client import HarnessError, Worker, WorkerDied
from codec import RemoteError

# Hypothesis makes most of its examples by copying parts of earlier ones, which leaves a run with few
# distinct records; here every example is drawn afresh.
if hasattr(ConjectureRunner, "generate_mutations_from"):
    ConjectureRunner.generate_mutations_from = lambda self, data: None

np.seterr(all="ignore")
TESTS = {}  # property -> list of Test


class Violation(Exception):
    pass


class Stop(BaseException):
    """Ends a shard's search: enough shrinking done, or out of time."""


class Test:
    def __init__(self, prop, name, strategy, fn, quick, thorough, cli, shrink_s):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.cli = quick, thorough, cli
        self.shrink_s = float(os.environ.get("VERIF_SHRINK_S", shrink_s))


def test(prop, name, strategy, quick, thorough=None, cli=False, shrink_s=40):
    """Register a generated check. `strategy` draws a JSON-able case description; the
    function gets (case, worker), raises Violation, or returns the labels of the case.
    The label "nontrivial" marks cases that exercise the property."""

    def deco(fn):
        TESTS.setdefault(prop, []).append(
            Test(prop, name, strategy, fn, quick, thorough or quick * 24, cli, shrink_s)
        )
        return fn

    return deco


def fail(message, **details):
    parts = [message]
    for k, v in details.items():
        text = np.array2string(v, threshold=40) if isinstance(v, np.ndarray) else repr(v)
        parts.append("%s=%s" % (k, text[:400]))
    raise Violation("; ".join(parts))


def check(condition, message, **details):
    if not condition:
        fail(message, **details)


def is_error(x, *names):
    return isinstance(x, RemoteError) and (not names or x.isa(*names))


def need_value(x, what):
    """The value of a call that the property says must succeed."""
    if isinstance(x, RemoteError):
        fail("%s raised %r for a valid input" % (what, x))
    return x


def need_array(x, what, shape=None):
    need_value(x, what)
    check(isinstance(x, np.ndarray), "%s did not return an array" % what, got=type(x).__name__)
    check(x.dtype.kind in "fiub", "%s returned a non-numeric array" % what, dtype=str(x.dtype))
    if shape is not None:
        check(tuple(x.shape) == tuple(shape), "%s: wrong shape" % what, got=x.shape, expected=shape)
    return x


def plain(x):
    """Masked entries as NaN, float64."""
    if isinstance(x, np.ma.MaskedArray):
        return np.ma.filled(x.astype(float), np.nan)
    return np.asarray(x, dtype=float)


def same(got, expected, what, rtol=1e-9, atol=1e-9, ignore=None):
    """Same missing pattern and equal within tolerance, outside the ignored entries."""
    got, expected = plain(got), plain(expected)
    check(got.shape == expected.shape, what + ": wrong shape", got=got.shape, expected=expected.shape)
    use = np.ones(got.shape, bool) if ignore is None else ~ignore
    ng, ne = np.isnan(got), np.isnan(expected)
    bad = use & (ng != ne)
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        fail(
            what + ": missing-value pattern differs",
            index=i,
            got=float(got[i]),
            expected=float(expected[i]),
            differing=int(bad.sum()),
        )
    with np.errstate(all="ignore"):
        infs = np.isinf(got) | np.isinf(expected)
        diff = np.abs(got - expected)
        bad = use & ~ng & ~(diff <= atol + rtol * np.abs(expected)) & ~(infs & (got == expected))
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        fail(
            what + ": values differ",
            index=i,
            got=float(got[i]),
            expected=float(expected[i]),
            differing=int(bad.sum()),
        )


# --------------------------------------------------------------------------- running


def canonical(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def run_case(t, case, worker):
    """Labels, or raises Violation (a dead interpreter is one: valid calls do not kill it)."""
    try:
        return set(t.fn(case, worker) or ())
    except WorkerDied as e:
        raise Violation("%s" % e)


class ShardResult(dict):
    pass


def run_shard(t, shard_seed, count, deadline):
    """Search with one test in one process; returns a plain dict."""
    stats = {
        "test": t.name,
        "evaluations": 0,
        "distinct": [],
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "stopped_early": False,
    }
    seen = {}
    worker = Worker(cli=t.cli)
    stop_file = os.environ.get("VERIF_STOP")
    best = {"case": None, "size": math.inf, "message": None, "since": None, "first": None}
    history = []

    def body(case):
        now = time.monotonic()
        if stop_file and os.path.exists(stop_file):
            raise Stop
        if best["since"] is not None and now - best["since"] > t.shrink_s:
            raise Stop
        if best["since"] is None and now > deadline:
            stats["stopped_early"] = True
            raise Stop
        text = canonical(case)
        try:
            labels = run_case(t, case, worker)
        except Violation as e:
            if best["since"] is None:
                best["since"] = time.monotonic()
                best["first"] = text
            if len(text) <= best["size"]:
                best.update(case=json.loads(text), size=len(text), message=str(e))
            raise
        if best["since"] is None:
            history.append(text)
            stats["evaluations"] += 1
            key = hashlib.sha1(text.encode()).hexdigest()[:16]
            if key not in seen:
                seen[key] = "nontrivial" in labels
                for lab in labels:
                    stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
                if len(stats["samples"]) < 2 and "nontrivial" in labels and len(text) < 6000:
                    stats["samples"].append({"test": t.name, "case": json.loads(text), "labels": sorted(labels)})

    runner = given(t.strategy)(body)
    runner = hyp_seed(shard_seed)(runner)
    runner = settings(
        max_examples=count,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )(runner)
    try:
        runner()
    except Stop:
        pass
    except (Violation, Flaky, FlakyStrategyDefinition):
        pass
    except HarnessError:
        raise
    finally:
        worker.stop()
    stats["distinct"] = sorted(seen)
    stats["nontrivial"] = sorted(k for k in seen if seen[k])
    if best["case"] is not None:
        # a verdict needs a reproduction outside Hypothesis, in a fresh interpreter
        worker = Worker(cli=t.cli)
        try:
            run_case(t, best["case"], worker)
        except Violation as e:
            stats["failure"] = {"case": best["case"], "message": str(e)}
        finally:
            worker.stop()
        if stats["failure"] is None:
            # it may need the calls made before it in the same interpreter
            stats["failure"] = with_history(t, history, best["first"])
        if stats["failure"] is None:
            stats["unreproduced"] = {"case": best["case"], "message": best["message"]}
    return stats


def with_history(t, history, text):
    """Reproduce a failure that depends on earlier cases, with as few of them as found quickly."""

    def attempt(earlier):
        worker = Worker(cli=t.cli)
        try:
            for h in earlier:
                try:
                    run_case(t, json.loads(h), worker)
                except Violation:
                    pass
            run_case(t, json.loads(text), worker)
            return None
        except Violation as e:
            return str(e)
        finally:
            worker.stop()

    end = time.monotonic() + 150
    found = None
    size = 1
    while True:
        earlier = history[-size:]
        message = attempt(earlier)
        if message is not None:
            found = earlier, message
            break
        if size >= len(history) or time.monotonic() > end:
            return None
        size *= 4
    # drop blocks of earlier cases that are not needed
    earlier, message = found
    block = max(1, len(earlier) // 2)
    while block and time.monotonic() < end - 60:
        i = 0
        while i < len(earlier) and time.monotonic() < end - 60:
            shorter = earlier[:i] + earlier[i + block:]
            m = attempt(shorter)
            if m is not None:
                earlier, message = shorter, m
            else:
                i += block
        block //= 2
    return {"case": json.loads(text), "history": [json.loads(h) for h in earlier], "message": message + " (after %d earlier calls)" % len(earlier)}


def shard_main(argv):
    prop, name, shard_seed, count, deadline, out = argv
    t = next(t for t in TESTS[prop] if t.name == name)
    try:
        res = run_shard(t, int(shard_seed), int(count), time.monotonic() + float(deadline))
    except BaseException:
        res = {"harness_error": traceback.format_exc()[-4000:]}
    with open(out, "w") as f:
        json.dump(res, f)


def shard_seed(seed, prop, name, shard):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], "big")
