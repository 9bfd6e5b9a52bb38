"""Core of the generated-input search: targets, case accounting, worker and replay."""
import base64
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_LIMIT_S = 40          # a case normally takes milliseconds
CASE_WALL_LIMIT_S = 180        # for a case that waits without using CPU
SHRINK_WALL_S = 45
WORKER_AS_LIMIT = 12 << 30


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is broken: never reported as a violation."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def _short(x, n=400):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...({} chars)".format(len(r))


def eq(got, want, what=""):
    """got == want, with no type confusion between bool/int surprises left to the caller."""
    if not (got == want):
        if isinstance(got, dict) and isinstance(want, dict):
            keys = [k for k in set(got) | set(want) if k not in got or k not in want or got[k] != want[k]]
            got, want = {k: got[k] for k in keys if k in got}, {k: want[k] for k in keys if k in want}
            if keys == ['f'] and isinstance(got.get('f'), dict) and isinstance(want.get('f'), dict):
                return eq(got['f'], want['f'], what)
        raise Violation("{}: got {} want {}".format(what, _short(got), _short(want)))


def true(cond, what=""):
    if not cond:
        raise Violation(what)


def raises(excs, fn, what=""):
    """fn must raise one of excs; returns the exception."""
    try:
        r = fn()
    except excs as e:
        return e
    raise Violation("{}: expected {} but got result {}".format(what, excs, _short(r)))


class Acct:
    """Accounting for one worker."""
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self._cur_nt = False
        self._cur_labels = set()

    def begin(self):
        self._cur_nt = False
        self._cur_labels = set()

    def end(self, case):
        self.evaluations += 1
        for lab in self._cur_labels:
            self.classes[lab] = self.classes.get(lab, 0) + 1
        if self._cur_nt:
            try:
                h = hashlib.blake2b(pickle.dumps(case), digest_size=8).digest()
            except Exception:
                h = hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 3 and len(self.nontrivial) in (1, 7, 29):
                    self.samples.append(_short(case, 1200))


ACCT = Acct()


def nontrivial(cond=True):
    if cond:
        ACCT._cur_nt = True


def label(name, cond=True):
    if cond:
        ACCT._cur_labels.add(str(name))


class Target:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=8, examples=(), draw_is_code=False,
                 enumerate=None):
        """strategy: a zero-argument callable returning a Hypothesis strategy (built in the worker).
        check: function of one case.  quick/thorough: number of cases in total over all shards.
        enumerate: optional callable (tier) -> list of explicit cases, all of which are run (split over shards) before the search.
        """
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 40
        self.shards = shards
        self.examples = list(examples)
        self.draw_is_code = draw_is_code
        self.enumerate = enumerate


def load_check(prop):
    return importlib.import_module("harness.checks." + prop.lower())


def derive_seed(*parts):
    return int.from_bytes(hashlib.blake2b("/".join(str(p) for p in parts).encode(), digest_size=8).digest(), "big") >> 1


class _Result:
    def __init__(self, path):
        self.path = path
        self.failure = None
        self.first_failure_at = None

    def dump(self, status, error=None):
        d = {
            "status": status, "error": error,
            "evaluations": ACCT.evaluations,
            "nontrivial": [h.hex() for h in ACCT.nontrivial],
            "classes": ACCT.classes, "samples": ACCT.samples,
            "failure": self.failure,
        }
        tmp = self.path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(d, f)
        os.replace(tmp, self.path)


def encode_case(case):
    try:
        return base64.b64encode(pickle.dumps(case)).decode()
    except Exception:
        return None


def run_case(target, case):
    ACCT.begin()
    target.check(case)
    ACCT.end(case)


def worker(prop, target, shard, nshards, tier, vseed, outpath, wall_budget):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_AS_LIMIT, WORKER_AS_LIMIT))
    res = _Result(outpath)
    start = time.monotonic()
    current = {"case": None}

    def record(case, exc, kind="violation", tb=None):
        res.failure = {
            "target": target.name, "kind": kind, "message": "{}: {}".format(type(exc).__name__, exc)[:4000],
            "traceback": (tb or "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)))[-6000:],
            "case_repr": _short(case, 6000), "case_pickle": encode_case(case),
            "shard": shard, "nshards": nshards, "tier": tier, "seed": vseed,
        }
        if res.first_failure_at is None:
            res.first_failure_at = time.monotonic()
            res.dump("failing")
        elif time.monotonic() - res.first_failure_at > SHRINK_WALL_S:
            res.dump("violation")
            os._exit(0)

    def on_cpu(signum, frame):
        case = current["case"]
        if res.failure is None:
            record(case, TimeoutError("case did not finish within {} s of CPU time or {} s of waiting".format(CASE_CPU_LIMIT_S, CASE_WALL_LIMIT_S)),
                   kind="hang", tb="".join(traceback.format_stack(frame)))
        res.dump("violation")
        os._exit(0)

    signal.signal(signal.SIGPROF, on_cpu)
    signal.signal(signal.SIGALRM, on_cpu)

    def guarded(case):
        if res.first_failure_at is None and time.monotonic() - start > wall_budget:
            res.dump("budget")
            os._exit(0)
        current["case"] = case
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT_S)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL_LIMIT_S)
        try:
            run_case(target, case)
        except (HarnessError, KeyboardInterrupt, MemoryError):
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except BaseException as e:
            record(case, e)
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)

    try:
        explicit = list(target.examples) if shard == 0 else []
        if target.enumerate is not None:
            explicit += list(target.enumerate(tier))[shard::nshards]
        for case in explicit:
            guarded(case)
        total = target.quick if tier == "quick" else target.thorough
        n = (total + nshards - 1) // nshards
        if target.strategy is not None and n > 0:
            strat = target.strategy()
            if n > 2000000:
                n = 2000000

            @hypothesis.seed(derive_seed(vseed, prop, target.name, shard))
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                      print_blob=False, verbosity=hypothesis.Verbosity.quiet)
            @given(strat)
            def test(case):
                guarded(case)

            test()
    except (HarnessError, MemoryError) as e:
        res.dump("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        return
    except BaseException as e:
        if res.failure is not None:
            res.dump("violation")
            return
        if target.draw_is_code and not isinstance(e, hypothesis.errors.Unsatisfiable):
            record(None, e, kind="generator")
            res.dump("violation")
            return
        res.dump("error", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
        return
    res.dump("ok")


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load_check(d["property"])
    target = [t for t in mod.TARGETS if t.name == d["target"]][0]
    if d.get("case_pickle") and d.get("kind") != "generator":
        case = pickle.loads(base64.b64decode(d["case_pickle"]))
        try:
            run_case(target, case)
        except HarnessError:
            raise
        except BaseException as e:
            traceback.print_exc()
            print("REPRODUCED property={} target={}: {}: {}".format(d["property"], d["target"], type(e).__name__, e))
            return 1
        print("case alone does not fail; re-running the worker that found it")
    out = path + ".rerun"
    worker(d["property"], target, d["shard"], d["nshards"], d["tier"], d["seed"], out, 3600)
    with open(out) as f:
        r = json.load(f)
    os.remove(out)
    if r["failure"]:
        print("REPRODUCED by history:", r["failure"]["message"])
        return 1
    print("not reproduced")
    return 0
