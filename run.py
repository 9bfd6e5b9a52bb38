#!/opt/venv/bin/python
"""run.py <property> | run.py --replay <file>.   See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", **WANT_ENV)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)

import hashlib          # noqa: E402
import json             # noqa: E402
import multiprocessing  # noqa: E402
import shutil           # noqa: E402
import tempfile         # noqa: E402
import time             # noqa: E402
import traceback        # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")      # only for trying machinery against scratch copies
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main(argv):
    import warnings
    warnings.simplefilter("ignore")
    start = time.monotonic()
    import mediagrains
    if not os.path.realpath(mediagrains.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("mediagrains imported from", mediagrains.__file__, file=sys.stderr)
        return 2
    from harness import core
    work = tempfile.mkdtemp(prefix="verif-")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(work, "hypothesis")
    os.environ["VERIF_SCRATCH"] = work
    try:
        if argv and argv[0] == "--replay":
            return core.replay(argv[1])
        return check(argv[0], core, work, start)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, core, work, start):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    budget = 420 if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", "7200"))
    only = os.environ.get("VERIF_TARGET")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    mod = core.load_check(prop)
    ctx = multiprocessing.get_context("fork")
    jobs = []
    for t in mod.TARGETS:
        if only and t.name != only:
            continue
        t.quick = int(t.quick * scale)
        t.thorough = int(t.thorough * scale)
        for s in range(t.shards):
            jobs.append((t, s))
    jobs.sort(key=lambda j: j[1])
    ncpu = min(8, os.cpu_count() or 8)
    running = []
    results = {}
    failed_at = None
    i = 0
    while i < len(jobs) or running:
        while i < len(jobs) and len(running) < ncpu and failed_at is None:
            t, s = jobs[i]
            out = os.path.join(work, "r{}.json".format(i))
            sys.stdout.flush()
            p = ctx.Process(target=core.worker, args=(prop, t, s, t.shards, tier, seed, out, budget))
            p.start()
            running.append((i, t, s, out, p, time.monotonic()))
            i += 1
        time.sleep(0.02)
        still = []
        for (k, t, s, out, p, t0) in running:
            if p.is_alive():
                st = None
                if os.path.exists(out):
                    with open(out) as f:
                        st = json.load(f)
                if st is not None and st["status"] == "failing":
                    if failed_at is None:
                        failed_at = time.monotonic()
                    if time.monotonic() - failed_at > 100:
                        p.kill()
                elif failed_at is not None and time.monotonic() - failed_at > 3:
                    p.kill()
                elif time.monotonic() - t0 > budget + 200:
                    p.kill()      # stuck outside CPU: inconclusive
                still.append((k, t, s, out, p, t0))
                continue
            p.join()
            if os.path.exists(out):
                with open(out) as f:
                    results[(t.name, s)] = json.load(f)
                if results[(t.name, s)]["failure"] and failed_at is None:
                    failed_at = time.monotonic()
            elif failed_at is None:
                results[(t.name, s)] = {"status": "error", "error": "worker died, exit code {}".format(p.exitcode),
                                        "evaluations": 0, "nontrivial": [], "classes": {}, "samples": [], "failure": None}
        running = still
        if failed_at is not None and not running:
            break

    evaluations = sum(r["evaluations"] for r in results.values())
    nts = set()
    classes = {}
    per_target = {}
    samples = []
    for (name, s), r in sorted(results.items()):
        pt = per_target.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}})
        pt["evaluations"] += r["evaluations"]
        mine = {name + ":" + h for h in r["nontrivial"]}
        pt["distinct_nontrivial"] += len(mine - nts)
        nts |= mine
        for c, n in r["classes"].items():
            pt["classes"][c] = pt["classes"].get(c, 0) + n
        if s == 0:
            samples += [{"target": name, "case": x} for x in r["samples"]]
    failures = [r["failure"] for r in results.values() if r["failure"]]
    errors = [(k, r["error"]) for k, r in results.items() if r["status"] == "error"]
    truncated = sorted("{}#{}".format(*k) for k, r in results.items() if r["status"] == "budget")

    known = []
    for probe in getattr(mod, "KNOWN", []):
        try:
            what = probe()
        except Exception:
            errors.append((("known", 0), traceback.format_exc()))
            continue
        if what:
            known.append(what)
            print("KNOWN-FINDING: property={} {}".format(prop, what))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nts),
            "rule": mod.RULE,
            "samples": samples[:12] or ["(no non-trivial case in this run)"],
            "targets": per_target,
            "truncated_by_budget": truncated,
            "known_findings_seen": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = os.path.join(HERE, "evidence", prop + ".json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(ev + ".tmp", ev)

    if failures:
        failures.sort(key=lambda f: len(f["case_repr"]))
        best = failures[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        tag = hashlib.blake2b(best["case_repr"].encode(), digest_size=5).hexdigest()
        path = os.path.join(HERE, "replays", "{}-{}-{}.json".format(prop, best["target"], tag))
        with open(path, "w") as f:
            json.dump(dict(best, property=prop), f, indent=1)
        print("target:", best["target"])
        print("case:", best["case_repr"][:1500])
        print("failure:", best["message"][:1500])
        if os.environ.get("VERIF_VERBOSE"):
            print(best["traceback"])
        print("VIOLATION property={} replay={}".format(prop, os.path.relpath(path, HERE)))
        return 1
    if errors:
        for k, e in errors[:3]:
            print("HARNESS ERROR in {}: {}".format(k, e), file=sys.stderr)
        return 2
    print("{}: held on {} cases ({} distinct non-trivial), {} targets, {:.1f} s{}".format(
        prop, evaluations, len(nts), len(per_target), time.monotonic() - start,
        " (budget reached in {})".format(truncated) if truncated else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
