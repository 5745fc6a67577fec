"""C22: `convert` reports what became of each recipe, and writes only what it converted."""

from __future__ import annotations

import itertools
import json
import os
from pathlib import Path
from typing import Any, Iterator
from unittest import mock

from click.testing import CliRunner

from conda_recipe_manager.commands.convert import convert
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from crm.core import Out, Scratch

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "all multisets of up to three (four) recipes out of a pool with every outcome, with all options and thresholds, vs a reference report"
RULE = "Every recipe alone with all options; every multiset of 2 and 3 (4 thorough) recipes x output option x thresholds. Non-trivial: distinct (recipes, options)."
ASSUMPTIONS = ["failures of pre-processing and rendering are injected: they are raised for recipes with a marker in them"]
CHUNK = 2
CASE_TIMEOUT_S = 300

NO_LICENSE = "No `license` provided in `/about`"
# name: (content, exit code, output, warnings, errors)
POOL: dict[str, tuple[bytes, int, str, list[str], list[str]]] = {
    "clean": (b"package:\n  name: a\nabout:\n  license: MIT\n  summary: \xc3\xa9\n", 0, "schema_version: 1\n\npackage:\n  name: a\n\nabout:\n  license: MIT\n  summary: é\n", [], []),
    "warn": (b"package:\n  name: b\nabout:\n  summary: x\n", 100, "schema_version: 1\n\npackage:\n  name: b\n\nabout:\n  summary: x\n", [NO_LICENSE], []),
    "error": (b"- a\n- b\n", 101, "- a\n\n- b\n", [], ["Failed to patch: {'op': 'add', 'path': '/schema_version', 'value': 1}"]),
    "both": (
        b"package:\n  name: c\nbuild:\n  script_env:\n    - A=x=y\nabout:\n  summary: x\n",
        101,
        "schema_version: 1\n\npackage:\n  name: c\n\nbuild:\n  script: {}\n\nabout:\n  summary: x\n",
        [NO_LICENSE],
        ["Could not parse `A=x=y` found in /build/script_env"],
    ),
    "broken": (b"package:\n  name: [a\n   b: {{\n", 102, "", [], []),
    "render": (b"package:\n  name: render-marker\n", 103, "", [], []),
    "unreadable": (b"package:\n  name: \xff\xfe\n", 104, "", [], []),
    "pre": (b"package:\n  name: pre-marker\n", 105, "", [], []),
    "v1": (b"schema_version: 1\n\npackage:\n  name: a\n", 106, "", [], []),
}
MESSAGES = {102: "EXCEPTION", 103: "EXCEPTION", 104: "EXCEPTION: Failed to read", 105: "EXCEPTION", 106: "ILLEGAL OPERATION"}
THRESHOLDS = [None, "0", "0.33", "0.34", "0.5", "0.51", "0.66", "0.67", "0.75", "1"]


def cases(tier: str) -> Iterator[Any]:
    for n in POOL:
        yield ["one", n]
    for k in (2, 3) if tier == "quick" else (2, 3, 4):
        for names in itertools.combinations_with_replacement(POOL, k):
            yield ["bulk", list(names), "all" if k == 2 and len(set(names)) == 2 else "some"]
    yield ["many"]
    yield ["none"]


REAL_PRE = RecipeParserConvert.pre_process_recipe_text
REAL_RENDER = RecipeParserConvert.render_to_v1_recipe_format


def _pre(content: str) -> str:
    if "pre-marker" in content:
        raise RuntimeError("injected")
    return REAL_PRE(content)


def _render(self: RecipeParserConvert) -> Any:
    if "render-marker" in self.render():
        raise RuntimeError("injected")
    return REAL_RENDER(self)


def invoke(args: list[str]) -> Any:
    with (
        mock.patch.object(RecipeParserConvert, "pre_process_recipe_text", staticmethod(_pre)),
        mock.patch.object(RecipeParserConvert, "render_to_v1_recipe_format", _render),
    ):
        return CliRunner().invoke(convert, args)


def tree(d: Path) -> dict[str, bytes]:
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "one":
        _one(case[1], out)
    elif kind == "none":
        with Scratch() as d:
            (d / "recipe.yaml").write_text("package:\n  name: a\n")
            for args in ([str(d)], [str(d / "missing")]):
                out.nt(("none", len(args[0])))
                r = invoke(args)
                out.expect(r.exit_code, 2, "no recipes", f"exit code without recipes: {r.output}")
    elif kind == "many":
        # One failure in many: rounding must not hide it.
        for total in (199, 201, 300):
            _bulk(["clean"] * (total - 1) + ["broken"], [("1", False, False)], out)
        # Several of each.
        for each in (1, 3):
            _bulk(list(POOL) * each, [(None, False, True), ("0.5", True, False)], out)
        for i in range(len(POOL)):
            _bulk(list(POOL)[i:] + list(POOL)[:i], [(None, False, False), ("0.34", True, True)], out)
    else:
        names = case[1]
        options: list[tuple[Any, bool, bool]] = [(t, len(names) % 2 == i % 2, i % 3 == 0) for i, t in enumerate(THRESHOLDS)]
        if case[2] == "all":
            options = [(t, o, t in (None, "0.5")) for t in (None, "0.5", "0.51", "1") for o in (False, True)]
        elif len(names) > 2:
            options = [options[i] for i in (0, 2, 3, 6, 7, 9)][sum(map(len, names)) % 2 :: 2]
        _bulk(names, options, out)


def _one(name: str, out: Out) -> None:
    content, code, text, warnings, errors = POOL[name]
    for mode, debug, old in itertools.product(("stdout", "recipe.yaml", "other.yml", "self", "directory"), (False, True), (False, True)):
        with Scratch() as d:
            src = d / "in" / "meta.yaml"
            src.parent.mkdir()
            src.write_bytes(content)
            (d / "out").mkdir()
            target = src if mode == "self" else d / "out" / mode
            if old and mode not in ("self", "stdout", "directory"):
                target.write_bytes(b"old\n" * 100)
            before = tree(d)
            args = [str(src.parent if mode == "directory" else src)]
            if mode not in ("stdout", "directory"):
                args += ["-o", str(target)]
            if debug:
                args.append("-d")
            r = invoke(args)
            after = tree(d)
        out.nt((name, mode, debug, old))
        out.step()
        what = f"convert of {name}, {mode}{', debug' if debug else ''}"
        key = f"{name} {mode}"
        out.expect(r.exit_code, code, f"exit: {key}", f"exit code of {what}: {r.output}")
        if text and mode not in ("stdout", "directory"):
            before[str(target.relative_to(d))] = text.encode()
        out.expect(
            {k: v.rstrip() for k, v in after.items()},
            {k: v.rstrip() for k, v in before.items()},
            f"files: {key}",
            f"files after {what}",
        )
        out.expect(r.stdout.strip(), text.strip() if mode in ("stdout", "directory") else "", f"stdout: {key}", f"standard output of {what}")
        for kind, msgs in (("WARNING", warnings), ("ERROR", errors)):
            shown = [l.partition("]: ")[2] for l in r.stderr.splitlines() if l.startswith(f"[{kind}]: ")]
            out.expect(shown, msgs, f"{kind}: {key}", f"{kind} lines of {what}")
        if code in MESSAGES:
            out.expect(MESSAGES[code] in r.stderr, True, f"message: {key}", f"{what} says {r.stderr}")


def where(name: str, i: int) -> str:
    """Where a recipe is. Some have the same name, in other directories."""
    return (f"p{i}/x/y/z/recipe/meta.yaml", f"p{i}/x/y/z/recipe/meta.yaml", f"{name}-{i}/meta.yaml", f"{name}-{i}/recipe/meta.yaml")[i % 4] if i < 9 else f"{name}-{i}/x/meta.yaml"


def _bulk(names: list[str], options: list[tuple[Any, bool, bool]], out: Out) -> None:
    for threshold, output, truncate in options:
        with Scratch() as d:
            for i, n in enumerate(names):
                p = d / where(n, i).removesuffix("/meta.yaml")
                p.mkdir(parents=True)
                (p / "meta.yaml").write_bytes(POOL[n][0])
                if i == 0 and output:
                    (p / "recipe.yaml").write_bytes(b"old\n" * 100)
            (d / "meta.yml").write_bytes(POOL["clean"][0])
            want = tree(d)
            args = [str(d)] + (["-m", threshold] if threshold else []) + (["-o", "recipe.yaml"] if output else []) + (["-t"] if truncate else [])
            r = invoke(args)
            after = tree(d)
        short = names if len(names) < 9 else f"{len(names)} recipes"
        what = f"bulk convert of {short} with {args[1:]}"
        out.nt((str(short), tuple(args[1:])))
        out.step(len(names))
        paths = {where(n, i): n for i, n in enumerate(names)}
        out.state((str(short), tuple(args[1:])))
        if output:
            for p, n in paths.items():
                if POOL[n][2]:
                    want[p.replace("meta.yaml", "recipe.yaml")] = POOL[n][2].encode()
        out.expect({k: v.rstrip() for k, v in after.items()}, {k: v.rstrip() for k, v in want.items()}, "bulk files", f"files after {what}")
        good = sum(POOL[n][1] in (0, 100) for n in names)
        rate = 0.8 if threshold is None else float(threshold)
        total = len(names)
        try:
            report = json.loads(r.stdout)
        except ValueError:
            out.fail("bulk report", f"{what} wrote {r.stdout!r} {r.stderr!r} {r.exception!r}")
            continue
        out.expect(r.exit_code, 0 if good / total >= rate else 42, "bulk exit", f"exit code of {what}, {good} of {total} good")
        crashed = sorted(p for p, n in paths.items() if POOL[n][1] > 101)
        errors = sorted(p for p, n in paths.items() if POOL[n][4])
        warnings = sorted(p for p, n in paths.items() if POOL[n][3])
        stats = {
            "total_recipe_files": total,
            "total_recipes_processed": total,
            "total_errors": sum(len(POOL[n][4]) for n in names),
            "total_warnings": sum(len(POOL[n][3]) for n in names),
            "num_recipe_exceptions": len(crashed),
            "num_recipe_errors": len(errors),
            "num_recipe_warnings": len(warnings),
            "num_recipe_success": good,
            "num_theoretical_recipe_success": good,
        }
        got = report["statistics"]
        out.expect({k: got.get(k) for k in stats}, stats, "bulk statistics", f"statistics of {what}")
        for k, n in (("exceptions", len(crashed)), ("errors", len(errors)), ("warnings", len(warnings)), ("success", good), ("theoretical_success", good)):
            out.expect(abs(got.get(f"percent_recipe_{k}", -1) - n / total) <= 0.0051, True, "bulk percentages", f"{k} of {what}: {got}")
        for key, field in (("errors_histogram", 4), ("warnings_histogram", 3)):
            hist: dict[str, int] = {}
            for n in names:
                for m in POOL[n][field]:
                    hist[m] = hist.get(m, 0) + 1
            out.expect(report["error_histogram" if field == 4 else key], hist, f"bulk {key}", f"{key} of {what}")
        out.expect(sum(report["exception_histogram"].values()), len(crashed), "bulk exceptions", f"exceptions of {what}: {report['exception_histogram']}")
        for k, ps in (("exceptions", crashed), ("errors", errors), ("warnings", warnings)):
            shown = report.get(f"recipes_with_{k}")
            out.expect(sorted(shown) if shown is not None else None, None if truncate else ps, f"bulk lists {k}", f"recipes with {k} of {what}")


def setup(tier: str) -> None:  # pylint: disable=unused-argument
    os.environ.setdefault("LC_ALL", "C.UTF-8")
