"""C21: `patch` applies a whole patch file, or none of it."""

from __future__ import annotations

import copy
import itertools
import json
from pathlib import Path
from typing import Any, Iterator

import yaml
from click.testing import CliRunner

from crm import rfc6902
from crm.core import Out, Scratch, same

from conda_recipe_manager.commands.patch import patch
from conda_recipe_manager.commands.utils.types import ExitCode

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "all patch files of up to three operations (applicable, failing, malformed) on several recipes, run through the command, vs RFC 6902"
RULE = "Every sequence of up to 3 (4 thorough) operations out of the pool x recipe, and every malformed file. Non-trivial: distinct (recipe, patch file)."
ASSUMPTIONS = ["PyYAML is the reference for what the written recipe means"]

RECIPES = {
    "small": "build:\n  number: 0  # [win]\n  skip: true\n\nrequirements:\n  run:\n    - a\n    - b  # keep\n",
    "v1": "schema_version: 1\n\ncontext:\n  x: 1\n\nbuild:\n  number: 0\n  skip: ünï\n\nrequirements:\n  run:\n    - a\n    - b\n    - if: win\n      then: c\n",
    "jinja": '{% set x = "1" %}\n\nbuild:\n  number: 0\n  skip: true\n\nrequirements:\n  run:\n    - a\n    - b\n',
}
POOL: list[Any] = [
    {"op": "add", "path": "/build/script", "value": "make"},
    {"op": "add", "path": "/about", "value": {"home": "é", "tags": ["t"]}},
    {"op": "add", "path": "/requirements/run/-", "value": "c"},
    {"op": "add", "path": "/requirements/run/0", "value": "z"},
    {"op": "remove", "path": "/build/skip"},
    {"op": "remove", "path": "/requirements/run/1"},
    {"op": "replace", "path": "/build/number", "value": 7},
    {"op": "replace", "path": "/about/home", "value": "h"},
    {"op": "move", "path": "/build/moved", "from": "/build/skip"},
    {"op": "copy", "path": "/requirements/host", "from": "/requirements/run"},
    {"op": "test", "path": "/build/number", "value": 0},
    {"op": "test", "path": "/build/number", "value": 7},
    # Never applicable
    {"op": "remove", "path": "/no/such"},
    {"op": "replace", "path": "/requirements/run/9", "value": "q"},
    {"op": "add", "path": "/no/such/key", "value": 1},
    {"op": "move", "path": "/x", "from": "/none"},
    # Malformed
    {"op": "add", "path": "/build/script"},
    {"op": "add", "path": "/build/script", "values": 1},
    {"op": "frobnicate", "path": "/build"},
    {"op": "remove"},
    {"op": "move", "path": "/x"},
]
MALFORMED = [{}, 1, "remove", None, [], True, {"path": "/build"}, {"op": 1, "path": "/build"}, {"op": "remove", "path": 3}]
BAD = len(POOL) - 5


def cases(tier: str) -> Iterator[Any]:
    for name in RECIPES:
        for i in range(len(POOL)):
            for j in range(len(POOL)):
                yield ["ops", name, i, j, 4 if tier == "thorough" else 3]
        yield ["single", name]
        for i in range(len(MALFORMED)):
            yield ["malformed", name, i]
        yield ["long", name]
    yield ["files"]


def model(data: Any, ops: list[Any], bad: list[bool]) -> tuple[int, Any]:
    cur = copy.deepcopy(data)
    for op, broken in zip(ops, bad):
        if broken:
            return ExitCode.JSON_ERROR, data
        try:
            cur = rfc6902.apply(cur, op)
        except rfc6902.PatchFailed:
            return ExitCode.ILLEGAL_OPERATION, data
    return ExitCode.SUCCESS, cur


def load(text: str) -> Any:
    return yaml.safe_load("\n".join("" if ln.startswith("{%") else ln for ln in text.split("\n")))


def run(scratch: Path, name: str, content: Any, code: int, want: Any, out: Out, key: str) -> None:
    recipe, blob = scratch / "recipe.yaml", scratch / "patch.json"
    recipe.write_text(RECIPES[name], encoding="utf-8")
    blob.write_text(content if isinstance(content, str) else json.dumps(content), encoding="utf-8")
    res = CliRunner().invoke(patch, [str(blob), str(recipe)])
    out.nt(name, str(content))
    out.step()
    out.outcome(f"exit {code}")
    if res.exception is not None and not isinstance(res.exception, SystemExit):
        out.ev()
        out.fail(f"exception {key}", f"{content!r} on {name}: {type(res.exception).__name__}: {res.exception}")
        return
    out.expect(int(res.exit_code), int(code), f"exit {key}", f"exit code of {content!r} on {name}")
    text = recipe.read_text(encoding="utf-8")
    if code != ExitCode.SUCCESS:
        out.expect(text, RECIPES[name], f"unchanged {key}", f"the recipe after {content!r}, which cannot be applied")
        return
    got = load(text)
    out.ev()
    if not same(got, want):
        out.fail(f"recipe {key}", f"{content!r} on {name}: got {got!r} want {want!r}")


def check(case: Any, out: Out) -> None:
    with Scratch() as scratch:
        kind = case[0]
        if kind == "ops":
            _, name, i, j, depth = case
            data = load(RECIPES[name])
            tails: Iterator[tuple] = itertools.chain.from_iterable(itertools.product(range(len(POOL)), repeat=n) for n in range(depth - 1))
            for tail in tails:
                idx = (i, j, *tail)
                ops = [POOL[k] for k in idx]
                code, want = model(data, ops, [k >= BAD for k in idx])
                run(scratch, name, ops, code, want, out, f"{name} {list(idx)}")
        elif kind == "single":
            name = case[1]
            data = load(RECIPES[name])
            run(scratch, name, [], ExitCode.SUCCESS, data, out, f"{name} no operation")
            for k, op in enumerate(POOL):
                code, want = model(data, [op], [k >= BAD])
                run(scratch, name, op, code, want, out, f"{name} single {k}")
                run(scratch, name, [op], code, want, out, f"{name} only {k}")
        elif kind == "long":
            # Many operations: whatever fails, and however late, nothing is written.
            name = case[1]
            data = load(RECIPES[name])
            many: list[Any] = [{"op": "add", "path": "/added", "value": []}]
            many += [{"op": "add", "path": "/added/-" if i % 3 else f"/added/{i}", "value": f"x{i}"} for i in range(24)]
            many += [{"op": "replace", "path": "/added/12", "value": 7}, {"op": "move", "path": "/added/2", "from": "/added/11"}, {"op": "copy", "path": "/added/-", "from": "/added/10"}, {"op": "remove", "path": "/added/13"}]
            for n in range(1, len(many) + 1):
                run(scratch, name, many[:n], *model(data, many[:n], [False] * n), out, f"{name} {n} operations")
                for k in (10, 11, 12, 13, 16, 18):
                    run(scratch, name, [*many[:n], POOL[k], *many[n:]], *model(data, [*many[:n], POOL[k], *many[n:]], [j == n and k >= BAD for j in range(len(many) + 1)]), out, f"{name} {k} at {n}")
            small = [{"op": "replace", "path": "/build/number", "value": i} for i in range(40)]
            for n in (9, 10, 11, 15, 16, 17, 31, 32, 33, 40):
                run(scratch, name, small[:n], *model(data, small[:n], [False] * n), out, f"{name} replace {n} times")
        elif kind == "malformed":
            bad = MALFORMED[case[2]]
            name = case[1]
            for where in range(3):
                ops = [POOL[0], POOL[2]]
                ops.insert(where, bad)
                run(scratch, name, ops, ExitCode.JSON_ERROR, None, out, f"{name} malformed {case[2]} at {where}")
            if not isinstance(bad, list):
                run(scratch, name, json.dumps(bad), ExitCode.JSON_ERROR, None, out, f"{name} malformed {case[2]}")
        else:
            good = json.dumps([POOL[0]])
            for text in ("", " ", "not json", "{", "[", good[:-1], "[" + good, good + "]", "{'op': 'remove'}", "# " + good):
                for name in RECIPES:
                    run(scratch, name, text, ExitCode.JSON_ERROR, None, out, f"{name} text {text[:20]!r}")
            recipe, blob = scratch / "recipe.yaml", scratch / "patch.json"
            for argv in ([], [str(recipe)], [str(scratch / "none"), str(recipe)], [str(blob), str(scratch / "none")], [str(blob), str(recipe), "x"], ["--no-such", str(blob), str(recipe)]):
                recipe.write_text(RECIPES["small"], encoding="utf-8")
                blob.write_text(good, encoding="utf-8")
                res = CliRunner().invoke(patch, argv)
                label = [a.replace(str(scratch), "") for a in argv]
                out.nt(*label)
                out.expect(int(res.exit_code), int(ExitCode.CLICK_USAGE), f"usage {label}", f"exit code with arguments {label}")
                out.expect(recipe.read_text(encoding="utf-8"), RECIPES["small"], f"usage {label}", "the recipe")
                out.expect(blob.read_text(encoding="utf-8"), good, f"usage {label}", "the patch file")
