"""C35: what a command does depends on its input and its options, not on where and how it is run."""

from __future__ import annotations

import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path
from typing import Any, Iterator

from crm import httpd
from crm import archives as ar
from crm.core import Out, Scratch

from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as _program  # noqa: F401
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert

ID = "C35"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive product of command scenarios and execution environments on the real program, in processes of their own, against the plain environment and known results"
RULE = (
    "Every scenario (each command, with success and failure) x every environment (locales and encodings, hash seeds, forms of the path, "
    "working directories, optimisation, verbosity, temporary and home directories, standard input) one at a time, and all pairs of the main ones. "
    "Non-trivial: distinct (scenario, environment)."
)
ASSUMPTIONS = ["what is printed in these scenarios is ASCII, so that it can be printed in every locale"]
CHUNK = 1
CASE_TIMEOUT_S = 600

RECIPE = """{% set name = "cafe" %}
{% set version = "1.2.3" %}

# Überschrift ☃
package:
  name: {{ name|lower }}
  version: {{ version }}

source:
  url: @BASE@/{{ version }}.tar.gz  # größer
  sha256: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa

build:
  number: 3
  skip: true  # [win or osx]
  script: {{ PYTHON }} -m pip install .

requirements:
  host:
    - python  # [unix]
    - pip >=21,<24
  run:
    - python
    - numpy >=1.2  # [linux]
    - 日本 >=1

test:
  imports:
    - a
    - b
  commands:
    - test -f x  # [osx]
    - echo é 😀
  requires:
    - pip

about:
  home: https://example.com/é
  license: MIT
  license_family: MIT
  license_url: https://example.com/license
  doc_source_url: https://example.com/doc
  summary: naïve “quotes”
  description: |
    Première ligne
    第二行

extra:
  recipe-maintainers:
    - zoë
    - bob
  feedstock-name: x
  vieux: ärger
"""
PLAIN = re.sub(r"[^\x00-\x7f]", "e", RECIPE)
MULTI = """package:
  name: top
  version: "1"

outputs:
  - name: one
    requirements:
      host:
        - z
        - a
      run:
        - m
        - {{ pin_subpackage('two') }}
    test:
      commands:
        - x
  - name: two
    build:
      noarch: python
      entry_points:
        - a = b:c
    requirements:
      run:
        - q >=1
        - é

about:
  license: GPL-3.0 or later
  licence: é
"""
PATCH = [
    {"op": "replace", "path": "/about/summary", "value": "größer 😀"},
    {"op": "add", "path": "/requirements/run/-", "value": "é >=2"},
    {"op": "move", "from": "/about/description", "path": "/about/notes"},
]
STAND_IN = """#!/bin/sh
case "$3" in
  */bad/*) echo "Error: bad thing" >&2; exit 3;;
  *) exit 0;;
esac
"""
PROGRAM = "import sys; from conda_recipe_manager.commands.conda_recipe_manager import conda_recipe_manager as m; sys.exit(m())"

# Scenario -> (files, arguments with @ for the directory, standard input, exit code)
SCENARIOS: dict[str, tuple[dict[str, str], list[str], str, int]] = {
    "convert-file": ({"r/meta.yaml": RECIPE}, ["convert", "-o", "@/out.yaml", "@/r/meta.yaml"], "", 100),
    "convert-multi": ({"r/meta.yaml": MULTI}, ["convert", "-o", "@/recipe.yaml", "@/r/meta.yaml"], "", 100),
    "convert-print": ({"r/meta.yaml": PLAIN}, ["convert", "@/r/meta.yaml"], "", 100),
    "convert-dir": (
        {"a/meta.yaml": RECIPE, "b/recipe/meta.yaml": MULTI, "c/meta.yaml": PLAIN, "d/meta.yaml": "package:\n  name: é\n", "e/meta.yaml": "a:\n\t- {"},
        ["convert", "-o", "recipe.yaml", "-m", "0", "@"], "", 0,
    ),
    "convert-dir-print": ({"a/meta.yaml": RECIPE, "b/meta.yaml": MULTI}, ["convert", "-t", "@"], "", 0),
    "convert-none": ({"x.txt": "é"}, ["convert", "@"], "", 2),
    "patch": ({"r.yaml": RECIPE, "p.json": json.dumps(PATCH, ensure_ascii=False)}, ["patch", "@/p.json", "@/r.yaml"], "", 0),
    "patch-fails": ({"r.yaml": RECIPE, "p.json": json.dumps(PATCH + [{"op": "remove", "path": "/é"}])}, ["patch", "@/p.json", "@/r.yaml"], "", 106),
    "patch-no-json": ({"r.yaml": RECIPE, "p.json": "{é"}, ["patch", "@/p.json", "@/r.yaml"], "", 4),
    "bump-build": ({"r.yaml": RECIPE}, ["bump-recipe", "-b", "@/r.yaml"], "", 0),
    "bump-dry": ({"r.yaml": PLAIN}, ["bump-recipe", "-b", "-d", "@/r.yaml"], "", 0),
    "bump-fails": ({"r.yaml": RECIPE.replace("number: 3", "number: é")}, ["bump-recipe", "-b", "@/r.yaml"], "", 106),
    "bump-version": ({"r.yaml": RECIPE}, ["bump-recipe", "-t", "2.0", "@/r.yaml"], "", 0),
    "build": ({"good/recipe.yaml": "é: 1\n", "bad/recipe.yaml": "x: 1\n", "z/bad/recipe.yaml": "x: 1\n"}, ["rattler-bulk-build", "-m", "0.3", "-l", "@/debug.json", "@", "--x", "a b"], "", 0),
    "build-fails": ({"good/recipe.yaml": "é: 1\n", "bad/recipe.yaml": "x: 1\n"}, ["rattler-bulk-build", "@"], "", 42),
    "graph": ({"a/meta.yaml": RECIPE, "b/meta.yaml": MULTI, "c/meta.yaml": "\t{"}, ["graph", "@"], "stats\nfoo\nplot build depends nothing\nexit\n", 0),
    "graph-none": ({"x.txt": ""}, ["graph", "@"], "", 2),
    "nothing": ({}, ["no-such-command"], "", 2),
}

C_LOCALE = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
ENVIRONMENTS: dict[str, dict[str, Any]] = {
    "plain": {},
    "ascii": {"env": C_LOCALE},
    "posix": {"env": {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONUTF8": "0"}},
    "no locale": {"env": {"LC_ALL": None, "LANG": None}},
    "utf-8 mode": {"env": {"PYTHONUTF8": "1", "LC_ALL": "C"}},
    **{f"hash seed {n}": {"env": {"PYTHONHASHSEED": str(n)}} for n in (1, 2, 3)},
    "relative": {"cwd": "base", "path": "relative"},
    "relative here": {"cwd": "in", "path": "up"},
    "dots": {"path": "dots"},
    "link": {"path": "link"},
    "elsewhere": {"cwd": "other"},
    "optimised": {"flags": ["-O"]},
    "verbose": {"verbose": True},
    "no home": {"env": {"HOME": None, "USER": None, "LOGNAME": None}},
    "temporary": {"tmp": True},
    "terminal": {"env": {"TERM": "xterm-256color", "COLUMNS": "20", "LINES": "3", "NO_COLOR": "1", "FORCE_COLOR": "1"}},
    "zone": {"env": {"TZ": "Asia/Kathmandu"}},
    "mask": {"umask": 0o077},
    "module": {"module": True},
}
# Only in the thorough tier.
RARE = {"posix", "utf-8 mode", "hash seed 3", "zone", "terminal"}
PAIRS = ["ascii", "hash seed 1", "relative", "optimised", "verbose", "temporary"]


_CACHE: Path = Path("/nonexistent")


def setup(_tier: str) -> None:
    """The programs compile the modules once."""
    global _CACHE
    _CACHE = Path(tempfile.mkdtemp(prefix="crmv-pyc-"))


def teardown() -> None:
    shutil.rmtree(_CACHE, ignore_errors=True)


def cases(tier: str) -> Iterator[Any]:
    for s in SCENARIOS:
        names = [[e] for e in ENVIRONMENTS if e != "plain" and (tier != "quick" or e not in RARE)]
        names += [list(p) for p in itertools.combinations(PAIRS if tier == "quick" else [e for e in ENVIRONMENTS if e != "plain"], 2) if compatible(*p)][:: 6 if tier == "quick" else 1]
        if tier == "thorough":
            ENVIRONMENTS.update({f"hash seed {n}": {"env": {"PYTHONHASHSEED": str(n)}} for n in range(4, 20)})
            names += [[f"hash seed {n}"] for n in range(4, 20)]
        for i in range(0, len(names), 12):
            yield ["run", s, names[i : i + 12]]


def compatible(a: str, b: str) -> bool:
    x, y = ENVIRONMENTS[a], ENVIRONMENTS[b]
    return not any(k in y and (k != "env" or set(x["env"]) & set(y["env"])) for k in x)


def merged(names: list[str]) -> dict[str, Any]:
    out: dict[str, Any] = {}
    for n in names:
        for k, v in ENVIRONMENTS[n].items():
            out[k] = {**out.get(k, {}), **v} if k == "env" else v
    return out


def run(name: str, how: dict[str, Any], base: str) -> tuple[int, dict[str, bytes], Any]:
    files, args, stdin, _ = SCENARIOS[name]
    with Scratch() as scratch:
        # The name of the directory is in some reports.
        d = scratch / "work"
        other, tmp, bin_dir = scratch / "other", scratch / "tmp ü", scratch / "bin"
        for x in (d, other, tmp, bin_dir):
            x.mkdir()
        (bin_dir / "rattler-build").write_text(STAND_IN)
        (bin_dir / "rattler-build").chmod(0o755)
        (scratch / "l").mkdir()
        (scratch / "l" / "work").symlink_to(d)
        for f, text in files.items():
            p = d / f
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(text.replace("@BASE@", base).encode())
        at = {"relative": "work", "up": "../work", "dots": f"{scratch}/other/../work", "link": f"{scratch}/l/work"}.get(how.get("path", ""), str(d))
        cwd = {"base": scratch, "in": d, "other": other}.get(how.get("cwd", ""), scratch)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG"))}
        env.update({"LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "TMPDIR": str(tmp if how.get("tmp") else scratch), "PATH": f"{bin_dir}{os.pathsep}{env['PATH']}", "HOME": str(other)})
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        env["PYTHONPYCACHEPREFIX"] = env["MPLCONFIGDIR"] = str(_CACHE)
        for k, v in how.get("env", {}).items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        start = ["-m", "conda_recipe_manager.commands.conda_recipe_manager"] if how.get("module") else ["-c", PROGRAM]
        line = [sys.executable, *how.get("flags", []), *start, *(["-v"] if how.get("verbose") else []), *(a.replace("@", at) for a in args)]
        r = subprocess.run(line, cwd=cwd, env=env, input=stdin.encode(), capture_output=True, timeout=120, check=False, umask=how.get("umask", -1))
        left = {str(p.relative_to(d)): p.read_bytes().replace(base.encode(), b"@BASE@") for p in sorted(d.rglob("*")) if p.is_file()}
        stray = sorted(p.name for x in (other, tmp) for p in x.iterdir() if not p.name.startswith((".", "matplotlib")))
        if stray:
            left["(elsewhere)"] = repr(stray).encode()
        text = r.stdout.decode("utf-8", "backslashreplace")
        for form in sorted({at, str(d), f"{scratch}/l/work"}, key=len, reverse=True):
            text = text.replace(form, "@") if "/" in form else re.sub(rf"(?<![\w/@]){form}/", "@/", text)
        return r.returncode, left, report(text.replace(base, "@BASE@")) if r.returncode >= 0 else r.stderr.decode()[-500:]


def report(text: str) -> Any:
    """What is printed, without times and sizes."""
    try:
        data = json.loads(text)
    except ValueError:
        return [l for l in text.splitlines() if not l.startswith(("Estimated memory", "Total graph construction"))]
    if isinstance(data, dict) and isinstance(data.get("statistics"), dict):
        data["statistics"].pop("timings", None)
    # Files are visited in the order of the file system.
    return {k: sorted(v) if isinstance(v, list) else v for k, v in data.items()} if isinstance(data, dict) else data


def check(case: Any, out: Out) -> None:
    _, name, environments = case
    srv = httpd.server()
    body = ar.build(ar.TREE_A, "tar.gz")

    def once(how: dict[str, Any]) -> tuple[int, dict[str, bytes], Any]:
        srv.reset({"/2.0.tar.gz": [("ok", body)], "/1.2.3.tar.gz": [("ok", body)]})
        return run(name, how, srv.base)

    plain = once({})
    known(name, plain, srv.base, out)
    for e in environments:
        what = f"{name} in {' + '.join(e)}"
        got = once(merged(e))
        out.step()
        out.state(what)
        out.nt(what)
        out.expect(got[0], plain[0], f"exit code {what}", f"exit code of {what} ({str(got[2])[:300]})")
        out.expect(got[1], plain[1], f"files {what}", f"files after {what}")
        out.expect(got[2], plain[2], f"output {what}", f"what is printed by {what}")
        out.trace()
    out.sample({"scenario": name, "environments": environments, "exit_code": plain[0]})


def known(name: str, got: tuple[int, dict[str, bytes], Any], base: str, out: Out) -> None:
    """What is known about the result in the plain environment."""
    files, args, _, code = SCENARIOS[name]
    out.expect(got[0], code, f"exit code {name}", f"exit code of {args} ({str(got[2])[:300]})")
    want = {f: t.encode() for f, t in files.items()}

    def converted(text: str) -> bytes:
        text = RecipeParserConvert.pre_process_recipe_text(text.replace("@BASE@", base))
        return RecipeParserConvert(text).render_to_v1_recipe_format()[0].replace(base, "@BASE@").encode()

    if name == "convert-file":
        want["out.yaml"] = converted(RECIPE)
    elif name == "convert-multi":
        want["recipe.yaml"] = converted(MULTI)
    elif name == "convert-print":
        out.expect("\n".join(got[2]).rstrip(), converted(PLAIN).decode().rstrip(), f"output {name}", "the recipe that is printed")
    elif name == "patch":
        text = RECIPE.replace("naïve “quotes”", "größer 😀").replace("    - 日本 >=1\n", "    - 日本 >=1\n    - é >=2\n").replace("  description: |", "  notes: |")
        want["r.yaml"] = text.encode()
    elif name == "bump-build":
        want["r.yaml"] = RECIPE.replace("number: 3", "number: 4").encode()
    elif name == "bump-version":
        import hashlib

        sha = hashlib.sha256(ar.build(ar.TREE_A, "tar.gz")).hexdigest()
        want["r.yaml"] = RECIPE.replace("number: 3", "number: 0").replace('"1.2.3"', '"2.0"').replace("a" * 64, sha).encode()
    elif name.startswith("convert-dir"):
        # The report is all that is printed.
        out.expect(isinstance(got[2], dict) and got[2]["info"] == {"command_name": "convert", "directory": "work"}, True, f"report {name}", f"what is printed by {args}: {str(got[2])[:300]}")
        if name == "convert-dir":
            want |= {f: converted(want[g].decode()) for f, g in (("a/recipe.yaml", "a/meta.yaml"), ("b/recipe/recipe.yaml", "b/recipe/meta.yaml"), ("c/recipe.yaml", "c/meta.yaml"), ("d/recipe.yaml", "d/meta.yaml"))}
    elif name == "build":
        out.expect(isinstance(got[2], dict) and got[2]["info"] == {"command_name": "rattler-bulk-build", "directory": "work"}, True, f"report {name}", f"what is printed by {args}: {str(got[2])[:300]}")
        want["debug.json"] = got[1].get("debug.json", b"")
    out.expect(got[1], want, f"files {name}", f"files after {args}")
