"""Small property-based-testing harness on top of Hypothesis.

A property module defines SUBS, a list of Sub.  Each Sub has a Hypothesis
strategy that yields JSON-able cases and a pure function check(case) which
raises Violation when the property is broken and otherwise returns
(nontrivial: bool, label: str).
"""
from __future__ import annotations
import contextlib, dataclasses, hashlib, json, os, signal, sys, time, traceback, pathlib, collections
from . import env
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase, strategies as st  # noqa: F401


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


@dataclasses.dataclass
class Sub:
    name: str
    strategy: object
    check: object
    quick: int
    thorough: int
    rule: str = ""
    known: object = None     # case -> finding id (str) or None: region of a recorded finding
    cpu_limit: int = 60     # CPU seconds per case before it counts as not terminating


def key(case) -> str:
    return json.dumps(case, sort_keys=True)


def size_of(case) -> int:
    return len(key(case))


def _alarm(_s, _f):
    raise CaseTimeout("the operation did not finish within the CPU limit for one case")


class Watch:
    """Shared memory that tells the parent process which case is running (see run.py)."""
    mem = None
    SIZE = 1 << 20

    @classmethod
    def begin(cls, sub, k: str):
        if cls.mem is None:
            return
        data = (sub + "\0" + k).encode()
        if len(data) > cls.SIZE - 16:
            data = b""
        cls.mem[8:12] = b"\0\0\0\0"
        cls.mem[16:16 + len(data)] = data
        cls.mem[0:8] = int(time.process_time() * 1000).to_bytes(8, "little")
        cls.mem[12:16] = (int.from_bytes(cls.mem[12:16], "little") + 1 & 0xFFFFFFFF).to_bytes(4, "little")
        cls.mem[8:12] = len(data).to_bytes(4, "little")

    @classmethod
    def end(cls):
        if cls.mem is not None:
            cls.mem[8:12] = b"\0\0\0\0"


class _Null:
    def write(self, *_a):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False


def run_case(sub: Sub, case):
    """Run the check on one case. Returns (nontrivial, label); raises Violation."""
    Watch.begin(sub.name, key(case))
    try:
        with contextlib.redirect_stdout(_Null()), contextlib.redirect_stderr(_Null()):
            return _run_case(sub, case)
    finally:
        Watch.end()


def _run_case(sub: Sub, case):
    # round trip through JSON so that generated and replayed cases are identical objects
    case = json.loads(key(case))
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu_limit)
    try:
        return sub.check(case)
    except Violation:
        raise
    except CaseTimeout as e:
        raise Violation(f"no result: {e}") from e
    except ImportError:
        raise
    except Exception as e:  # noqa: BLE001 - an exception on valid input is a failure of the property
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if f.filename.startswith("/repo/")), None)
        raise Violation(f"{type(e).__name__}: {str(e)[:300]} (raised {'in ' + where if where else 'while examining the result'})") from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load_findings(prop: str):
    f = env.ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == prop]


class Runner:
    def __init__(self, prop: str, subs: list[Sub], tier: str, seed: int, budget: float):
        self.prop, self.subs, self.tier, self.seed = prop, subs, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evals = 0
        self.nontrivial: set[str] = set()
        self.samples: list = []
        self.labels: dict[str, collections.Counter] = {}
        self.excluded: collections.Counter = collections.Counter()
        self.violations: list[tuple[Sub, object, str]] = []
        self.truncated: list[str] = []

    def note(self, sub: Sub, case, res):
        nt, label = res if isinstance(res, tuple) else (bool(res), "")
        self.labels.setdefault(sub.name, collections.Counter())[label] += 1
        if nt:
            k = hashlib.sha1((sub.name + key(case)).encode()).hexdigest()
            if k not in self.nontrivial:
                self.nontrivial.add(k)
                n = sum(1 for s in self.samples if s["sub"] == sub.name)
                if n < 3 and size_of(case) < 4000:
                    self.samples.append({"sub": sub.name, "label": label, "case": json.loads(key(case))})

    def run_sub(self, sub: Sub, n: int, sub_budget: float):
        failing: dict[str, tuple[int, object, str]] = {}
        t_first = [None]
        end = min(self.deadline, time.time() + sub_budget)

        def body(case):
            k = key(case)
            if failing and time.time() - t_first[0] > 60 and k not in failing:
                return  # shrinking budget used up
            if not failing and time.time() > end:
                if sub.name not in self.truncated:
                    self.truncated.append(sub.name)
                return
            if sub.known is not None:
                fid = sub.known(case)
                if fid:
                    self.excluded[f"{sub.name}:{fid}"] += 1
                    return
            self.evals += 1
            try:
                res = run_case(sub, case)
            except Violation as v:
                if t_first[0] is None:
                    t_first[0] = time.time()
                failing[k] = (len(k), case, str(v))
                raise
            self.note(sub, case, res)

        test = given(sub.strategy)(body)
        test = settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink], verbosity=hypothesis.Verbosity.quiet)(test)
        test = hypothesis.seed(self.seed)(test)
        try:
            test()
        except BaseException:
            if not failing:
                raise
        if failing:
            _, case, msg = min(failing.values(), key=lambda t: t[0])
            self.violations.append((sub, case, msg))

    def run(self) -> int:
        findings = load_findings(self.prop)
        byname = {s.name: s for s in self.subs}
        for f in findings:
            if f.get("status") != "open":
                continue
            sub = byname[f["sub"]]
            try:
                run_case(sub, f["case"])
            except Violation as v:
                print(f"KNOWN-FINDING: property={self.prop} [{f['id']}] {f['what']}")
                sys.stderr.write(f"  reproduced: {v}\n")
        only = os.environ.get("PBT_ONLY")
        subs = [s for s in self.subs if not only or s.name in only.split(",")]
        scale = float(os.environ.get("PBT_SCALE", "1"))
        times = {}
        for i, sub in enumerate(subs):
            n = sub.quick if self.tier == "quick" else sub.thorough
            left = max(1.0, self.deadline - time.time())
            t = time.time()
            self.run_sub(sub, max(1, int(n * scale)), left if i == len(subs) - 1 else left * 0.7)
            times[sub.name] = round(time.time() - t, 1)
            sys.stderr.write(f"[{self.prop}] {sub.name}: {times[sub.name]}s {dict(self.labels.get(sub.name, {}))}\n")
        self.times = times
        rc = 0
        for sub, case, msg in self.violations:
            d = env.ROOT / "replays"
            d.mkdir(exist_ok=True)
            h = hashlib.sha1(key(case).encode()).hexdigest()[:10]
            path = d / f"{self.prop}-{sub.name}-{h}.json"
            path.write_text(json.dumps({"property": self.prop, "sub": sub.name, "case": case, "message": msg}, indent=1))
            print(f"{self.prop}/{sub.name}: {msg}\n  case: {key(case)[:2000]}")
            print(f"VIOLATION property={self.prop} replay={path.relative_to(env.ROOT)}", flush=True)
            rc = 1
        self.write_evidence()
        return rc

    def write_evidence(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": " | ".join(f"{s.name}: {s.rule}" for s in self.subs),
                "samples": self.samples,
                "labels": {k: dict(v.most_common(40)) for k, v in self.labels.items()},
                "excluded_as_known_finding": dict(self.excluded),
                "stopped_by_time_budget": self.truncated,
                "seconds_per_sub": self.times,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = env.ROOT / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))


def require(cond, msg: str):
    if not cond:
        raise Violation(msg)


class Slow(BaseException):
    pass


@contextlib.contextmanager
def soft_limit(seconds):
    """Give up on an expensive search: raises Slow after that much CPU time.  The case then counts as not decided."""
    def stop(_s, _f):
        raise Slow
    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 0.2)  # repeated: one may be lost in a destructor
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
