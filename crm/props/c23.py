"""C23: `rattler-bulk-build` builds every recipe once, and reports what became of each."""

from __future__ import annotations

import itertools
import json
import os
from pathlib import Path
from typing import Any, Iterator
from unittest import mock

from click.testing import CliRunner

from conda_recipe_manager.commands import rattler_bulk_build as module
from conda_recipe_manager.commands.rattler_bulk_build import rattler_bulk_build
from crm.core import Out, Scratch

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "all multisets of up to three (four) builds with every outcome, names, arguments and thresholds, run with a stand-in for rattler-build, vs a reference report"
RULE = "Every multiset of up to 3 (4 thorough) behaviours of the build tool x thresholds and options; all directory names and arguments of a pool. Non-trivial: distinct (behaviours, options)."
ASSUMPTIONS = ["rattler-build is a stand-in on PATH that records its arguments and does what the recipe says", "the time limit is shortened through its constant"]
CHUNK = 2
CASE_TIMEOUT_S = 300

# name: (exit code, standard error, what is reported)
POOL: dict[str, tuple[int, bytes, list[str]]] = {
    "good": (0, b"all fine\n", []),
    "noisy": (0, b"  Error:   not really\n", ["Error:   not really"]),
    "one": (1, b"warning\nError:  no such thing\nbye\n", ["Error:  no such thing"]),
    "two": (2, b"Error: first\n\xc3\xa9 Error: second \xc3\xa9\n", ["Error: first", "Error: second é"]),
    "silent": (3, b"error: lower case\n", []),
    "same": (1, b"Error:  no such thing\nError: first\n", ["Error:  no such thing", "Error: first"]),
    "bytes": (1, b"\xff\xfe Error: raw\n", ["Error: raw"]),
}
HANG = "hang"
STAND_IN = """#!/bin/sh
# rattler-build build -r FILE ARGS...
{ printf '%s\\n' "$#"; printf '%s\\n' "$@"; } >> "$CRM_CALLS/$$"
. "$(dirname "$3")/behave"
"""
NAMES = ["plain", "with space", "quote'd", 'dq"d', "semi;touch pwned", "$(touch pwned)", "a&b", "glob*", "é", "-dash", "{{x}}"]
ARGUMENTS: list[list[str]] = [[], ["--render-only"], ["--channel", "a b"], ["--x=$(touch pwned)"], ["-c", "q'q"], ["--a", "*", "--b", ""], ["--k", "a;b", "-v", "-v"]]
THRESHOLDS = [None, "0", "0.33", "0.34", "0.5", "0.51", "0.66", "0.67", "1"]


def cases(tier: str) -> Iterator[Any]:
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for names in itertools.combinations_with_replacement(POOL, k):
            yield ["builds", list(names)]
    for n in NAMES:
        yield ["name", n]
    for i in range(len(ARGUMENTS)):
        yield ["arguments", i]
    yield ["hang"]
    yield ["many"]
    yield ["none"]


def script(name: str) -> bytes:
    if name == HANG:
        return b"exec sleep 60\n"
    code, err, _ = POOL[name]
    quoted = b"".join(b"\\%03o" % c for c in err)
    return b"echo to stdout Error: not this; printf '" + quoted + b"' >&2\nexit %d\n" % code


def run(out: Out, builds: list[tuple[str, str]], args: list[str], threshold: Any = None, truncate: bool = False, log: bool = False, limit: int = 60) -> None:
    """builds: (directory, behaviour)."""
    with Scratch() as scratch:
        d = scratch / "feed stocks"
        bin_dir, calls = scratch / "bin", scratch / "calls"
        for x in (d, bin_dir, calls):
            x.mkdir()
        (bin_dir / "rattler-build").write_text(STAND_IN)
        (bin_dir / "rattler-build").chmod(0o755)
        for where, behaviour in builds:
            (d / where).mkdir(parents=True)
            (d / where / "recipe.yaml").write_text("schema_version: 1\n")
            (d / where / "behave").write_bytes(script(behaviour))
        (d / "meta.yaml").write_text("package:\n  name: no\n")
        line = [str(d), *args]
        if threshold is not None:
            line += ["-m", threshold]
        if truncate:
            line += ["-t"]
        log_file = scratch / "debug log.json"
        if log:
            line += ["-l", str(log_file)]
        cwd = os.getcwd()
        os.chdir(scratch)
        try:
            with mock.patch.object(module, "DEFAULT_RATTLER_BUILD_TIMEOUT", limit):
                r = CliRunner(env={"PATH": f"{bin_dir}{os.pathsep}{os.environ['PATH']}", "CRM_CALLS": str(calls)}).invoke(rattler_bulk_build, line)
        finally:
            os.chdir(cwd)
        called = sorted(p.read_text().split("\n") for p in calls.iterdir())
        wanted = sorted([str(4 - 1 + len(args)), "build", "-r", str(d / w / "recipe.yaml"), *args, ""] for w, _ in builds)
        pwned = any(p.name == "pwned" for p in scratch.rglob("*"))
        debug = json.loads(log_file.read_text(encoding="utf-8")) if log and log_file.exists() else None
    short = builds if len(builds) < 9 else f"{len(builds)} builds"
    what = f"bulk build of {short} with {args} {line[1 + len(args):]}"
    out.nt((str(short), str(line[1:])))
    out.state((str(short), str(line[1:])))
    out.step(len(builds))
    out.expect(called, wanted, "calls", f"rattler-build calls of {what}: {r.exception!r}")
    out.expect(pwned, False, "injection", f"{what} ran a command out of a name")
    try:
        report = json.loads(r.stdout)
    except ValueError:
        out.fail("report", f"{what} wrote {r.stdout!r} {r.stderr!r} {r.exception!r}")
        return
    results = {f"{w}/recipe.yaml": POOL[b] if b != HANG else (43, b"", ["Recipe build dry-run timed out."]) for w, b in builds}
    total, bad = len(results), sorted(p for p, x in results.items() if x[0])
    good = total - len(bad)
    rate = 0.8 if threshold is None else float(threshold)
    out.outcome("passed" if good / total >= rate else "missed")
    out.expect(r.exit_code, 0 if good / total >= rate else 42, "exit", f"exit code of {what}, {good} of {total} good")
    s = report["statistics"]
    out.expect(
        {k: s.get(k) for k in ("total_recipe_files", "total_recipes_processed", "total_errors")},
        {"total_recipe_files": total, "total_recipes_processed": total, "total_errors": len(bad)},
        "statistics",
        f"statistics of {what}",
    )
    for k, n in (("errors", len(bad)), ("success", good)):
        out.expect(abs(s.get(f"percent_{k}", -1) - n / total) <= 0.0051, True, "percentages", f"{k} of {what}: {s}")
    hist: dict[str, int] = {}
    for x in results.values():
        for e in x[2]:
            hist[e] = hist.get(e, 0) + 1
    out.expect({k.strip(): v for k, v in report["error_histogram"].items()}, hist, "histogram", f"errors of {what}")
    shown = report.get("recipes_with_build_error_code")
    out.expect(None if shown is None else sorted(shown), None if truncate else bad, "failed recipes", f"failed recipes of {what}")
    if log:
        want = [{"error": e, "recipe_count": len(ps), "recipes": ps} for e, ps in ((e, sorted(p for p, x in results.items() if e in x[2])) for e in hist)]
        got = debug["errors"] if debug else None
        norm = lambda es: sorted((e["error"].strip(), e["recipe_count"], e["recipes"]) for e in es or [])
        out.expect(norm(got), norm(want), "debug log", f"debug log of {what}")
        counts = [e["recipe_count"] for e in got or []]
        out.expect(counts, sorted(counts, reverse=True), "debug log order", f"debug log of {what}")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "builds":
        builds = [(f"{b}-{i}" + ("/recipe" if i % 2 else ""), b) for i, b in enumerate(case[1])]
        pick = THRESHOLDS if len(builds) < 3 else THRESHOLDS[sum(map(len, case[1])) % 3 :: 3]
        for i, t in enumerate(pick):
            run(out, builds, ARGUMENTS[i % 2], t, truncate=i % 2 == 1, log=i % 3 != 1)
    elif kind == "name":
        for other in ("good", "one"):
            run(out, [(case[1], "one"), ("z", other)], ["--render-only"], log=True)
            run(out, [(f"{case[1]}/recipe", "good")], [])
    elif kind == "arguments":
        run(out, [("a", "good"), ("b", "one")], ARGUMENTS[case[1]], "0.5")
    elif kind == "hang":
        for names in (["hang"], ["hang", "good"], ["hang", "one", "hang"]):
            run(out, [(f"{n}{i}", n) for i, n in enumerate(names)], [], "0.5", log=True, limit=2)
    elif kind == "many":
        run(out, [(f"g{i}", "good") for i in range(200)] + [("b", "one")], [], "1")
    else:
        with Scratch() as d:
            (d / "meta.yaml").write_text("package:\n  name: no\n")
            out.nt("none")
            r = CliRunner().invoke(rattler_bulk_build, [str(d)])
            out.expect(r.exit_code, 3, "no recipes", f"exit code without recipes: {r.output}")
            out.expect(list(p.name for p in d.iterdir()), ["meta.yaml"], "no recipes", "files without recipes")
