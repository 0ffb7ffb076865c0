"""
Core of the property-based testing machinery.

A *property* is a list of *targets*. A target has a generator of plain JSON-able *cases* (a Hypothesis strategy, or a
finite enumeration) and a function ``check(case, o)`` that runs the code under test and raises ``Violation`` (or any
exception coming out of pybgl) if the property is broken. ``o`` observes the case: ``o.nontrivial()`` marks it as
non-trivial by the rule of the target, ``o.label(x)`` classifies it.
"""
import collections
import hashlib
import json
import os
import signal
import sys
import time
import traceback

REPO_SRC = os.environ.get("PYBGL_SRC", "/repo/src")
TARGETS = collections.OrderedDict()      # property id -> [Target]

CASE_CPU_S = int(os.environ.get("PBT_CASE_CPU", "30"))          # CPU seconds one case may take (the unchanged tree needs far less than 1 s)
CASE_WALL_S = 4 * CASE_CPU_S    # as a case may wait for a process (dot) that waits for it
WORKER_CPU_S = {"quick": 150, "thorough": 3000}  # CPU seconds after which a worker stops generating (inconclusive)
MEM_BYTES = 3 << 30


class Violation(AssertionError):
    """The property does not hold on the current case."""


class CaseLimit(BaseException):
    """The current case exceeded its CPU limit (a loop that does not terminate)."""


class BudgetDone(BaseException):
    """The worker used its CPU budget: stop generating, nothing was found."""


def expect(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def equal(got, want, *msg):
    if not (got == want):
        raise Violation("%s: got %r, expected %r" % (" ".join(str(m) for m in msg), got, want))


class Target:
    def __init__(self, prop, name, check, strategy=None, enum=None, quick=400, thorough=None, rule="", pairs=None, large=None):
        self.prop, self.name, self.check = prop, name, check
        self.strategy, self.enum = strategy, enum
        self.quick, self.rule = quick, rule
        self.thorough = thorough if thorough is not None else quick * 25
        self.pairs = pairs if pairs is not None else max(2, quick // 6)
        self.large = large if large is not None else quick // 8


def target(prop, name, strategy=None, enum=None, quick=400, thorough=None, rule="", pairs=None, large=None):
    """
    Registers a target. ``strategy(big)`` returns a Hypothesis strategy (``big`` in the thorough tier); ``quick`` is the
    number of examples *per worker*. ``enum(big)`` yields cases enumerated completely (split over the workers).
    ``large``: number of examples of ``strategy(True)`` in the quick tier. ``pairs``: number of pairs of cases whose
    checks are interleaved (0: never; for checks that replace global state such as sys.stdout).
    """
    def deco(f):
        TARGETS.setdefault(prop, []).append(Target(prop, name, f, strategy, enum, quick, thorough, rule, pairs, large))
        return f
    return deco


class Observer:
    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, *labels):
        self.labels.extend(labels)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def derived_seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


# What the worker does now: the run of a target, the case, how often its limit passed, and how to end the worker.
NOW = {"run": None, "case": None, "limits": 0, "finish": None}


def _on_limit(signum, frame):
    """
    Ends a case that does not end: by an exception and, if something (a callback of the interpreter, the code under
    test) swallowed it, by ending the worker with what it found.
    """
    NOW["limits"] += 1
    e = CaseLimit("more than %d s of CPU time" % CASE_CPU_S if signum == signal.SIGPROF else "more than %d s" % CASE_WALL_S)
    if NOW["limits"] > 2 and NOW["finish"] is not None:
        NOW["run"].failure = Failure(NOW["case"], e, shrunk=False)
        NOW["finish"]()
    raise e


def set_limits(on):
    NOW["limits"] = 0
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S if on else 0, 3 if on else 0)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S if on else 0, 15 if on else 0)


def in_code_under_test(tb):
    """True iff the traceback goes through pybgl."""
    src = os.path.realpath(REPO_SRC)
    return any(os.path.realpath(f.filename).startswith(src) for f in traceback.extract_tb(tb))


class Failure:
    """What a failing case showed."""
    def __init__(self, case, exc, shrunk=True):
        self.case = case
        self.kind = type(exc).__name__
        self.msg = "%s: %s" % (self.kind, str(exc)[:1500])
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-8:]]
        self.shrunk = shrunk
        # A check that trips over the result (None where a list is due, ...) shows a broken property too; only a
        # failure of the environment (a missing module, file or program) is not a verdict on pybgl.
        self.harness = isinstance(exc, (ImportError, OSError)) and not in_code_under_test(exc.__traceback__)

    def as_dict(self):
        return {"message": self.msg, "where": self.where, "shrunk": self.shrunk, "harness": self.harness}


class Calls:
    """Counts the calls to the functions of pybgl made by this thread, and runs an action at a given one."""
    def __init__(self, at=None, action=None):
        self.n, self.at, self.action = 0, at, action
        self.known = {}

    def __call__(self, frame, event, arg):
        if event == "call":
            name = frame.f_code.co_filename
            mine = self.known.get(name)
            if mine is None:
                mine = self.known[name] = os.path.realpath(name).startswith(os.path.realpath(REPO_SRC))
            if mine:
                if self.n == self.at:
                    sys.setprofile(None)
                    self.action()
                self.n += 1

    def run(self, f):
        sys.setprofile(self)
        try:
            f()
        finally:
            sys.setprofile(None)


def interleaved(t, case, o):
    """
    Two checks on separate objects: B runs in the middle of A, at a call of a function of pybgl chosen by "at" (a
    fraction of the calls A makes). Neither may see that the other one runs.
    """
    (a, b), at = case["__pair__"], case["at"]
    calls = Calls()
    calls.run(lambda: t.check(a, Observer()))
    caught = []
    ob = Observer()

    def nested():
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(limit + depth)
        try:
            t.check(b, ob)
        except Exception as e:
            caught.append(e)
        finally:
            sys.setrecursionlimit(limit)

    oa = Observer()
    try:
        Calls(int(at * calls.n), nested).run(lambda: t.check(a, oa))
    except Exception as e:
        raise Violation("while another check ran in the middle of this one (at %.2f): %s: %s" % (at, type(e).__name__, e)) from e
    if caught:
        raise Violation("run in the middle of another check (at %.2f): %s: %s" % (at, type(caught[0]).__name__, caught[0])) from caught[0]
    o.nontrivial(oa.nt and ob.nt and calls.n > 0)
    o.label("interleaved")


def run_case(t, case, o):
    """Runs one case under the CPU watchdog."""
    set_limits(True)
    try:
        if isinstance(case, dict) and "__pair__" in case:
            interleaved(t, case, o)
        else:
            t.check(case, o)
    finally:
        set_limits(False)


class TargetRun:
    """Runs a target in a worker and gathers what it did."""
    def __init__(self, t, deadline_cpu):
        self.t = t
        self.deadline_cpu = deadline_cpu
        self.evaluations = 0
        self.digests = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None
        self.first_failure = None
        self.last_failure = None
        self.inconclusive = False
        self.limit_hit = None
        self.counting = True
        self.cpu = 0.0

    def one(self, case):
        case = json.loads(json.dumps(case))
        if time.process_time() > self.deadline_cpu and self.first_failure is None:
            raise BudgetDone()
        o = Observer()
        NOW["case"] = case
        try:
            run_case(self.t, case, o)
        except (CaseLimit, MemoryError) as e:
            # Not shrinkable in reasonable time: report the case as it is.
            self.limit_hit = Failure(case, e, shrunk=False)
            raise BudgetDone()
        except Exception as e:
            f = Failure(case, e)
            if self.first_failure is None:
                self.first_failure = f
            self.last_failure = f
            raise
        if self.first_failure is None:
            self.evaluations += 1
            for lab in o.labels:
                self.labels[lab] += 1
            if o.nt:
                s = canon(case)
                d = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
                if d not in self.digests:
                    self.digests.add(d)
                    if len(self.digests) in (5, 40, 300) and len(s) < 4000:
                        self.samples.append(case)

    def run(self, seed, n, big, index, count):
        t0 = time.process_time()
        try:
            if self.t.enum is not None:
                self._enum(big, index, count)
            else:
                from hypothesis import strategies as st
                scale = n / max(1, self.t.thorough if big else self.t.quick)
                self._hypothesis(seed, n, self.t.strategy(big))
                if self.failure is None and not big and self.t.large:
                    self._hypothesis(seed + 1, max(1, int(self.t.large * scale)), self.t.strategy(True))
                if self.failure is None and self.t.pairs:
                    one = self.t.strategy(False)
                    self._hypothesis(seed + 2, max(1, int(self.t.pairs * scale * (25 if big else 1))), st.fixed_dictionaries({
                        "__pair__": st.one_of(one.map(lambda x: [x, x]), st.tuples(one, one).map(list)),
                        "at": st.integers(0, 99).map(lambda k: k / 100),
                    }))
        except BudgetDone:
            if self.limit_hit is not None:
                self.failure = self.limit_hit
            else:
                self.inconclusive = True
        self.cpu = time.process_time() - t0
        return self

    def _enum(self, big, index, count):
        for i, case in enumerate(self.t.enum(big)):
            if i % count == index:
                try:
                    self.one(case)
                except Exception:
                    self.failure = self.last_failure
                    return

    def _hypothesis(self, seed, n, strategy):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 60

        @hypothesis.seed(seed)
        @settings(
            max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False, phases=(Phase.generate,) if os.environ.get("PBT_NOSHRINK") else (Phase.generate, Phase.shrink), print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(strategy)
        def test(case):
            self.one(case)

        try:
            test()
        except BudgetDone:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if self.first_failure is None:
                raise  # the generator itself failed: harness error
            if type(e).__name__ in ("Flaky", "FlakyFailure", "FlakyReplay", "FlakyStrategyDefinition"):
                # The code under test keeps state between cases: keep the case that showed it first.
                self.failure = self.first_failure
                self.failure.shrunk = False
            else:
                self.failure = self.last_failure

    def result(self):
        return {
            "target": self.t.name, "evaluations": self.evaluations, "digests": sorted(self.digests),
            "labels": dict(self.labels), "samples": self.samples, "inconclusive": self.inconclusive,
            "cpu": round(self.cpu, 2),
            "failure": None if self.failure is None else dict(self.failure.as_dict(), case=self.failure.case),
        }


def load_property(prop):
    """Imports pybgl from the working tree, then the module that holds the targets of the property."""
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    import pybgl
    assert os.path.realpath(pybgl.__file__).startswith(os.path.realpath(REPO_SRC)), pybgl.__file__
    import importlib
    from . import registry
    importlib.import_module("pbt.props." + registry.MODULES[prop])
    importlib.import_module("pbt.props.deep")
    return TARGETS[prop]


def install_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGPROF, _on_limit)
    signal.signal(signal.SIGALRM, _on_limit)


def worker_main(prop, tier, seed, index, count, out, only=None):
    install_limits()
    targets = load_property(prop)
    results = []
    deadline = time.process_time() + WORKER_CPU_S[tier]
    big = tier == "thorough"
    from . import registry
    scale = float(os.environ.get("PBT_SCALE", "1"))
    run = None

    def finish():
        """Writes the results and ends the process at once (a limit may have left its threads or locks in any state)."""
        set_limits(False)
        if run is not None:
            results.append(run.result())
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(results, f)
        os.replace(tmp, out)
        os._exit(0)

    NOW["finish"] = finish
    for t in targets:
        if only and t.name not in only:
            continue
        n = max(1, int((t.thorough if big else t.quick * registry.QUICK.get(prop, 1.5)) * scale))
        NOW["run"] = run = TargetRun(t, deadline)
        run.run(derived_seed(seed, prop, t.name, index), n, big, index, count)
        if run.failure is not None:
            break
        results.append(run.result())
        run = None
    finish()
