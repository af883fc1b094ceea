#!/opt/veriftools/pyvenv/bin/python
"""python3-vt run.py <property>            decide a property (tier from VERIF_TIER)
   python3-vt run.py <property> --replay F  run one saved case again"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "pbt"))
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

SHARDS = int(os.environ.get("VERIF_JOBS", "8"))


def load(prop):
    import importlib

    import harness

    importlib.import_module("props." + prop.lower())
    return harness


def replay(prop, path):
    harness = load(prop)
    from client import Worker

    with open(path) as f:
        saved = json.load(f)
    t = next(t for t in harness.TESTS[prop] if t.name == saved["test"])
    worker = Worker(cli=t.cli)
    try:
        for earlier in saved.get("history", []):
            try:
                harness.run_case(t, earlier, worker)
            except harness.Violation:
                pass
        labels = harness.run_case(t, saved["case"], worker)
        print("no violation; labels: %s" % sorted(labels))
        return 0
    except harness.Violation as e:
        print(e)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        worker.stop()


def main():
    prop = sys.argv[1]
    if "--shard" in sys.argv:
        harness = load(prop)
        harness.shard_main([prop] + sys.argv[3:])
        return 0
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])

    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    harness = load(prop)
    tests = [t for t in harness.TESTS[prop] if not only or t.name in only]
    jobs = []
    with tempfile.TemporaryDirectory(prefix="climverif.run.") as tmp:
        for t in tests:
            total = t.quick if tier == "quick" else t.thorough
            n = max(1, min(SHARDS, total // 4 or 1))
            for k in range(n):
                count = total // n + (1 if k < total % n else 0)
                jobs.append((t, k, count, os.path.join(tmp, "%s.%d.json" % (t.name, k))))
        # longest tests first would need timings; interleave shards instead
        jobs.sort(key=lambda j: j[1])
        pending, running, results = list(jobs), [], []
        failed = False
        stop_file = os.path.join(tmp, "stop")
        env = dict(os.environ, VERIF_STOP=stop_file, TMPDIR=tmp)
        while pending or running:
            while pending and len(running) < SHARDS and not failed:
                t, k, count, out = pending.pop(0)
                left = max(5.0, budget - (time.monotonic() - start))
                argv = [
                    sys.executable, os.path.abspath(__file__), prop, "--shard", t.name,
                    str(harness.shard_seed(seed, prop, t.name, k)), str(count), str(left), out,
                ]
                running.append((subprocess.Popen(argv, env=env), t, out))
            if failed:
                pending = []
            time.sleep(0.05)
            still = []
            for p, t, out in running:
                if p.poll() is None:
                    still.append((p, t, out))
                    continue
                try:
                    with open(out) as f:
                        res = json.load(f)
                except (OSError, ValueError):
                    res = {"harness_error": "shard of %s ended with status %s" % (t.name, p.returncode)}
                results.append((t, res))
                if res.get("failure"):
                    failed = True
                    open(stop_file, "w").close()
            running = still

    errors = [r for _, r in results if "harness_error" in r]
    failures = [(t, r["failure"]) for t, r in results if r.get("failure")]
    flaky = [(t, r["unreproduced"]) for t, r in results if r.get("unreproduced")]
    if failures:
        t, f = min(failures, key=lambda x: (len(x[1].get("history", [])), len(json.dumps(x[1]["case"]))))
        folder = os.path.join(HERE, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s.json" % prop)
        with open(path, "w") as fh:
            saved = {"property": prop, "test": t.name, "message": f["message"], "case": f["case"]}
            if f.get("history"):
                saved["history"] = f["history"]
            json.dump(saved, fh, indent=1)

    evaluations, labels, per_test, samples, nontrivial, distinct = 0, {}, {}, [], 0, 0
    for t in tests:
        seen, nt, ev = set(), set(), 0
        lab = {}
        for tt, r in results:
            if tt is t and "harness_error" not in r:
                ev += r["evaluations"]
                seen.update(r["distinct"])
                nt.update(r["nontrivial"])
                for k, v in r["labels"].items():
                    lab[k] = lab.get(k, 0) + v
                if r.get("samples") and len([s for s in samples if s["test"] == t.name]) < 2:
                    samples.append(r["samples"][-1])
        per_test[t.name] = {
            "evaluations": ev, "distinct": len(seen), "distinct_nontrivial": len(nt),
            "labels": dict(sorted(lab.items())), "what": " ".join((t.fn.__doc__ or "").split()),
        }
        evaluations += ev
        distinct += len(seen)
        nontrivial += len(nt)
    import importlib

    module = importlib.import_module("props." + prop.lower())
    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct": distinct,
            "distinct_nontrivial": nontrivial,
            "rule": module.RULE,
            "samples": samples,
            "tests": per_test,
            "stopped_early_shards": sum(1 for _, r in results if r.get("stopped_early")),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    for t, name in [(t, t.name) for t in tests]:
        c = per_test[name]
        print("%s %-28s %6d cases, %6d distinct, %6d non-trivial" % (prop, name, c["evaluations"], c["distinct"], c["distinct_nontrivial"]))
    if failures:
        print(f["message"][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for t, u in flaky:
        print("not reproduced in a fresh interpreter (%s): %s" % (t.name, u["message"][:500]))
    if errors or flaky:
        for r in errors[:1]:
            print("HARNESS ERROR (%d of %d shards)\n%s" % (len(errors), len(results), r["harness_error"]), file=sys.stderr)
        return 3
    if not evaluations:
        print("no case was evaluated", file=sys.stderr)
        return 3
    print("%s: held on everything explored (%.1f s)" % (prop, time.monotonic() - start))
    return 0


sys.exit(main())
