"""
Shared machinery: runs every case of a property's enumerated space on the real code, in parallel, and reports.

A property module provides
    ID, LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
    cases(tier)          -> iterable of JSON-able cases; the enumeration is deterministic and complete for the bounds
    check(case, out)     -> explores one case; reports through `out`
A case is one input, one fault schedule, or one root of an operation-sequence search. Any exception that leaves
`check` is a violation too (the code under test failed where the property says it does not).
"""

from __future__ import annotations

import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path
from typing import Any, Iterable

VERIF = Path(os.environ.get("CRM_VERIF", Path(__file__).resolve().parent.parent))
REPO = Path(os.environ.get("CRM_REPO", "/repo"))
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"
CASE_TIMEOUT_S = 150


class CaseTimeout(BaseException):
    """Raised by the alarm when one case runs too long. Not an `Exception`, so the code under test cannot swallow it."""


class Out:
    """Collects what one worker saw."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.nontrivial: set[bytes] = set()
        self.outcomes: dict[str, int] = {}
        self.states: set[bytes] = set()
        self.transitions = 0
        self.traces = 0
        self.counters: dict[str, int] = {}
        self.samples: list[Any] = []
        self.violations: list[dict[str, Any]] = []
        self.per_key: dict[str, int] = {}
        self._case: Any = None

    # -- what was covered ------------------------------------------------------------------------------------------
    def ev(self, n: int = 1) -> None:
        """Counts oracle comparisons."""
        self.evaluations += n

    def nt(self, *key: Any) -> None:
        """Records a distinct, non-trivial case."""
        self.nontrivial.add(_digest(key))

    def outcome(self, name: str) -> None:
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def state(self, *key: Any) -> bool:
        """Records a state; True if new."""
        d = _digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        self.traces += n

    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s: Any) -> None:
        if len(self.samples) < 3:
            self.samples.append(s)

    # -- verdicts --------------------------------------------------------------------------------------------------
    def fail(self, key: str, message: str, detail: Any = None) -> None:
        """Reports a violation. `key` names the failing input and way of failing; known findings match on it."""
        n = self.per_key[key] = self.per_key.get(key, 0) + 1
        if n <= 3 and len(self.violations) < 400:
            self.violations.append({"key": key, "message": message, "detail": detail, "case": self._case})
        self.count("violations_seen")

    def expect(self, got: Any, want: Any, key: str, message: str, detail: Any = None) -> bool:
        self.ev()
        if got == want and _same_types(got, want):
            return True
        self.fail(key, f"{message}: got {_short(got)} want {_short(want)}", detail)
        return False

    def merge(self, o: "Out") -> None:
        self.evaluations += o.evaluations
        self.nontrivial |= o.nontrivial
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples.extend(o.samples)
        self.violations.extend(o.violations)


def _short(v: Any, n: int = 600) -> str:
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def _digest(key: Any) -> bytes:
    return hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def _same_types(a: Any, b: Any) -> bool:
    """Tells 1 from True and from 1.0, all the way down."""
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return all(_same_types(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return all(_same_types(x, y) for x, y in zip(a, b))
    return True


same_types = _same_types


def same(a: Any, b: Any) -> bool:
    return a == b and _same_types(a, b)


def _alarm(_sig: int, _frm: Any) -> None:
    raise CaseTimeout()


_MODULE: Any = None


def _cache_schema_checks() -> None:
    """The code under test validates with a constant schema, and jsonschema re-checks that schema against the meta-schema
    on every call, which is over 90% of the time of a patch. Each distinct schema is checked once instead."""
    try:
        import jsonschema
    except ImportError:
        return
    for cls in {jsonschema.validators.validator_for({}), jsonschema.Draft7Validator}:
        original = cls.check_schema
        seen: set[str] = set()

        def cached(schema: Any, *args: Any, _orig: Any = original, _seen: set = seen, **kwargs: Any) -> None:
            key = json.dumps(schema, sort_keys=True, default=repr)
            if key not in _seen:
                _orig(schema, *args, **kwargs)
                _seen.add(key)

        cls.check_schema = cached  # type: ignore[method-assign]


_cache_schema_checks()


def _run_chunk(cases: list[Any]) -> Out:
    out = Out()
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(_MODULE, "CASE_TIMEOUT_S", CASE_TIMEOUT_S)
    for case in cases:
        run_case(_MODULE, case, out, limit)
    return out


def run_case(module: Any, case: Any, out: Out, limit: int = CASE_TIMEOUT_S) -> None:
    out._case = case
    signal.alarm(limit)
    try:
        module.check(case, out)
    except CaseTimeout:
        out.fail("hang", f"the code under test did not finish within {limit} s")
    except (Exception, SystemExit) as e:  # pylint: disable=broad-exception-caught
        out.fail(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)


def load_known(prop: str) -> dict[str, str]:
    if not KNOWN.exists():
        return {}
    return {
        f["key"]: f["what"] for f in json.loads(KNOWN.read_text())["findings"] if f["property"] == prop
    }


def jsonable(v: Any) -> Any:
    try:
        json.dumps(v)
        return v
    except TypeError:
        return repr(v)


def main(module: Any, tier: str, seed: int, replay: str | None, one: bool) -> int:
    global _MODULE
    _MODULE = module
    prop = module.ID
    t0 = time.time()
    EVIDENCE.mkdir(exist_ok=True)
    total = Out()

    if replay:
        case = json.loads(Path(replay).read_text())["case"]
        signal.signal(signal.SIGALRM, _alarm)
        run_case(module, case, total)
        for v in total.violations:
            print(f"REPRODUCED {v['key']}: {v['message']}")
        print("violated" if total.violations else "held")
        return 1 if total.violations else 0

    for stale in (EVIDENCE / "replay").glob(f"{prop}-*.json"):
        stale.unlink()
    known = load_known(prop)
    if hasattr(module, "setup"):
        module.setup(tier)
    cases = list(module.cases(tier))
    n_cases = len(cases)
    # The seed only permutes the order in which the fixed, complete list of cases is visited.
    if seed and n_cases:
        k = seed % n_cases
        cases = cases[k:] + cases[:k]
    workers = 1 if one else min(getattr(module, "WORKERS", 8), max(1, n_cases), os.cpu_count() or 1)
    if workers == 1 and one:
        total.merge(_run_chunk(cases))
    else:
        size = max(1, min(getattr(module, "CHUNK", 200), n_cases // (workers * 6) or 1))
        chunks = [cases[i : i + size] for i in range(0, n_cases, size)]
        # More than a few visited chunks of a broken tree add nothing: stop early once there are plenty of violations.
        with cf.ProcessPoolExecutor(max_workers=workers, mp_context=mp.get_context("fork")) as pool:
            futs = {pool.submit(_run_chunk, c): c for c in chunks}
            try:
                for f in cf.as_completed(futs):
                    total.merge(f.result())
                    if sum(v["key"] not in known for v in total.violations) > 200:
                        for g in futs:
                            g.cancel()
                        break
            except cf.process.BrokenProcessPool:
                total.fail("worker-died", "a worker process exploring the code under test died")
    if hasattr(module, "teardown"):
        module.teardown()

    seen_known: dict[str, int] = {}
    fresh: list[dict[str, Any]] = []
    for v in total.violations:
        if v["key"] in known:
            seen_known[v["key"]] = seen_known.get(v["key"], 0) + 1
        else:
            fresh.append(v)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")

    # Simplest counterexample first.
    fresh.sort(key=lambda v: (len(json.dumps(jsonable(v["case"]))), v["key"]))
    shown: set[str] = set()
    rdir = EVIDENCE / "replay"
    for v in fresh:
        if v["key"] in shown or len(shown) >= 30:
            continue
        shown.add(v["key"])
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{hashlib.sha1((v['key']).encode()).hexdigest()[:10]}.json"
        path.write_text(json.dumps({"property": prop, **{k: jsonable(x) for k, x in v.items()}}, indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['key']}: {v['message']}")

    write_evidence(module, tier, seed, total, n_cases, len(fresh), time.time() - t0)
    print(
        f"{prop} [{tier}] cases={n_cases} evaluations={total.evaluations} states={len(total.states)} "
        f"transitions={total.transitions} distinct={len(total.nontrivial)} violations={len(fresh)} "
        f"known={len(seen_known)} wall={time.time() - t0:.1f}s"
    )
    return 1 if fresh else 0


def write_evidence(module: Any, tier: str, seed: int, t: Out, n_cases: int, bad: int, wall: float) -> None:
    samples = sorted((jsonable(s) for s in t.samples), key=lambda s: json.dumps(s))
    picked = samples[:: max(1, len(samples) // 4)][:5]
    cov: dict[str, Any] = {"cases_enumerated": n_cases, "exhaustive": True, "samples": picked, "rule": module.RULE}
    if module.LEVEL == "model_checking":
        cov["states"] = len(t.states)
        cov["transitions"] = t.transitions
        cov["traces_validated_against_impl"] = t.traces
        cov["oracle_comparisons"] = t.evaluations
    else:
        cov["evaluations"] = t.evaluations
        cov["distinct_nontrivial"] = len(t.nontrivial)
    if t.outcomes:
        cov["outcomes"] = dict(sorted(t.outcomes.items()))
    if t.counters:
        cov["counters"] = dict(sorted(t.counters.items()))
    ev = {
        "property": module.ID,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": cov,
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 3),
        "violations": bad,
    }
    (EVIDENCE / f"{module.ID}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")


class Scratch:
    """A scratch directory that goes away again."""

    def __init__(self, prefix: str = "crmv-"):
        self.path = Path(tempfile.mkdtemp(prefix=prefix))

    def __enter__(self) -> Path:
        return self.path

    def __exit__(self, *_: Any) -> None:
        shutil.rmtree(self.path, ignore_errors=True)
