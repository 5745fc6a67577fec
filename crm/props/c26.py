"""C26: the Python scanner finds each package that a project imports, once, with its name and in its section."""

from __future__ import annotations

import itertools
import os
import subprocess
import sys
from pathlib import Path
from typing import Any, Iterator

from conda_recipe_manager.parser.dependency import DependencySection
from conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner
from conda_recipe_manager.types import MessageCategory
from crm.core import Out, Scratch

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "all import statements x all places in a file, all pairs of files out of a pool in all places of a project, vs a reference list of packages"
RULE = "Every form of import of every kind of module in every place; all pairs (and with the thorough tier triples) of files x places in the project. Non-trivial: distinct projects."
ASSUMPTIONS = ["conda's MatchSpec is replaced by a stand-in", "modules of the project are those at the top of the scanned directory"]
CHUNK = 8

# Import name: package; None: not a dependency
MODULES: dict[str, Any] = {
    "os": None, "sys": None, "__future__": None, "tomllib": None, "collections": None, "json": None,
    "mine": None, "pkg": None,  # in the project
    "requests": "requests", "numpy": "numpy", "numpydoc": "numpydoc", "osx": "osx", "mine2": "mine2", "sub": "sub", "_private": "_private",
    "yaml": "pyyaml", "git": "gitpython", "PIL": "pillow", "sklearn": "scikit-learn", "tables": "pytables", "cv": "py-opencv", "cv2": "py-opencv", "OpenGL": "pyopengl",
}  # fmt: skip

# `{}`: module
FORMS: list[tuple[str, bool]] = [
    ("import {}", True), ("import {}.sub", True), ("import {}.os.path as q", True), ("import {} as np", True), ("from {} import a", True), ("from {}.sub.os import (a,\n  b as c)", True), ("from {} import *", True),
    ("import os, {}", True), ("import {}, sys, os.path", True), ("import \\\n  {}", True), ("x = 1; import {}", True),
    ("from . import {}", False), ("from .{} import a", False), ("from ..{}.sub import a", False), ("from ... import {} as z", False), ("# import {}", False), ("'import {}'", False), ('"""\nimport {}\n"""', False),
    ("x = 'é'; import {}", True), ("from os import {}", False), ("{} = 1", False), ("import os as {}", False),
]  # fmt: skip
PLACES = [
    "{}\n", "\n\nimport os\n{}\n", "def f():\n{i}\n    return 1\n", "class A:\n    async def g(self):\n{ii}\n", "if True:\n{i}\nelse:\n    pass\n",
    "try:\n{i}\nexcept ImportError:\n    x = None\n", "try:\n    pass\nexcept ImportError:\n{i}\nfinally:\n    pass\n", "with open('x') as f:\n{i}\n", "for i in ():\n    while i:\n{ii}\n", "match 3:\n    case 3:\n{ii}\n",
    "#!/usr/bin/env python\n# -*- coding: utf-8 -*-\n{}", "\ufeff{}\n",
]  # fmt: skip
FILES = [
    "main.py", "pkg/a.py", "pkg/deep/er/b.py", "test_x.py", "pkg/x_test.py", "tests/Test_y.py", "tests/helper.py", "tests/conftest.py", "setup.py", "docs/a b.py", "contest_.py", "latest.py",
    "x.pyi", "x.txt", "x.py.bak", "py", "pkg/requests.py", "pkg/yaml/__init__.py", "other/numpydoc.py", "requests.py", "numpy/__init__.py", "test_requests.py",
    ".ci/run.py", "build/gen.py", "venv/lib/site-packages/z.py", "src/p/q.py", "__main__.py", "pkg/_test.py", "test_.py", "TEST_A.py", "attest_x.py", "pkg/test/c.py", "a/b/c/d/e/f/g/h/i/j.py",
]  # fmt: skip


def is_test(path: str) -> bool:
    name = path.rsplit("/", 1)[-1].lower()
    return name.startswith("test_") or name.endswith("_test.py")


def indent(text: str, n: int) -> str:
    return "\n".join(" " * n + l for l in text.split("\n"))


def cases(tier: str) -> Iterator[Any]:
    for f in range(len(FORMS)):
        yield ["forms", f]
    for i in range(len(FILES)):
        yield ["files", i, tier != "quick"]
    yield ["broken"]
    yield ["encodings"]
    yield ["locale"]
    yield ["empty"]
    for i in range(8):
        yield ["stdlib", i]
    yield ["many"]


def project(d: Path) -> None:
    (d / "mine.py").write_text("")
    (d / "pkg").mkdir()
    (d / "pkg" / "__init__.py").write_text("")


def scan(d: Path, out: Out, want: set[tuple[str, str]], what: str, key: str, exceptions: int = 0) -> None:
    full = want | {("python", "HOST"), ("python", "RUN")}
    full = {(n, t) for n, t in full if t != "TESTS" or (n, "RUN") not in full}
    out.step()
    out.nt(what)
    for path in (d, str(d)):
        s = PythonDependencyScanner(path)
        try:
            got = s.scan()
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.fail(f"raises: {key}", f"{e!r} from scanning {what}")
            return
        out.expect(sorted((str(x.data.name), x.type.name) for x in got), sorted(full), key, f"dependencies of {what}")
        out.expect(all(isinstance(x.type, DependencySection) for x in got), True, "types", what)
        msgs = s.get_message_table().get_messages(MessageCategory.EXCEPTION)
        out.expect(len(msgs), exceptions, f"messages: {key}", f"messages of scanning {what}: {msgs}")
        out.expect(sorted((str(x.data.name), x.type.name) for x in s.scan()), sorted(full), f"again: {key}", f"dependencies of {what}")


def place(p: str, statement: str) -> str:
    if statement.startswith("from") and "*" in statement and ("def " in p or "class" in p):
        p = PLACES[0]
    return p.replace("{ii}", indent(statement + "\npass", 8)).replace("{i}", indent(statement + "\npass", 4)).replace("{}", statement)


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "forms":
        form, real = FORMS[case[1]]
        for p in PLACES:
            for module, package in MODULES.items():
                text = place(p, form.replace("{}", module))
                with Scratch() as d:
                    project(d)
                    (d / "main.py").write_text(text, encoding="utf-8")
                    scan(d, out, {(package, "RUN")} if real and package else set(), repr(text), form)
            # Each of them once, and they do not disturb each other
            names = [m for m in MODULES if m != "__future__"]
            text = "".join(place(PLACES[0], form.replace("{}", m)) for m in names * 2)
            with Scratch() as d:
                project(d)
                (d / "pkg" / "f.py").write_text(text, encoding="utf-8")
                scan(d, out, {(MODULES[m], "RUN") for m in names if MODULES[m]} if real else set(), repr(text), form)
    elif kind == "files":
        uses = [[], ["requests"], ["yaml", "numpy"], ["requests", "os", "mine"], ["numpydoc", "requests"]]
        others: Any = [(f,) for f in FILES] if not case[2] else list(itertools.combinations(FILES, 2))
        for rest in others:
            files = [FILES[case[1]], *(f for f in rest if f != FILES[case[1]])]
            for mods in itertools.product(uses, repeat=len(files)):
                with Scratch() as d:
                    project(d)
                    want = set()
                    for f, ms in zip(files, mods):
                        (d / f).parent.mkdir(parents=True, exist_ok=True)
                        (d / f).write_text("".join(f"import {m}\n" for m in ms))
                        if f.endswith(".py"):
                            want |= {(MODULES[m], "TESTS" if is_test(f) else "RUN") for m in ms if MODULES[m]}
                    local = {f.removesuffix(".py").removesuffix("/__init__") for f in files if f.endswith(".py")}
                    want = {(n, t) for n, t in want if ("yaml" if n == "pyyaml" else n) not in local}
                    before = sorted((str(p), p.read_bytes()) for p in d.rglob("*") if p.is_file())
                    scan(d, out, want, str([*zip(files, mods)]), "files")
                    out.expect(sorted((str(p), p.read_bytes()) for p in d.rglob("*") if p.is_file()) == before, True, "unchanged", f"the project {files} was changed")
    elif kind == "broken":
        # Files that are not Python are reported; the others count
        bad = [b"import (\n", b"\xff\xfe\xff", b"def f(:\n", b"x = '\n", b"\x00", b"import a\n  import b\n", b"# coding: nope\nimport numpy\n"]
        for n in (1, 2):
            for combo in itertools.permutations(bad, n):
                for where in ("a.py", "z.py", "pkg/b.py"):
                    with Scratch() as d:
                        project(d)
                        (d / "main.py").write_text("import requests\n")
                        for i, b in enumerate(combo):
                            (d / f"{where[:-3]}{i}.py").write_bytes(b)
                        scan_broken(d, out, len(combo), f"{combo} at {where}")
    elif kind == "encodings":
        for raw in ("# -*- coding: latin-1 -*-\nx = 'é'\nimport requests\n".encode("latin-1"), "# coding: cp1252\nx = '€'\nimport requests".encode("cp1252"), "\ufeffx = 'é'\r\nimport requests\r\n".encode(), b"import os\rimport requests\r"):
            with Scratch() as d:
                project(d)
                (d / "m.py").write_bytes(raw)
                scan(d, out, {("requests", "RUN")}, repr(raw), "encodings")
    elif kind == "stdlib":
        # Each module of the standard library, and names that are like one.
        for name in sorted(sys.stdlib_module_names)[case[1] :: 8]:
            with Scratch() as d:
                project(d)
                (d / "m.py").write_text(f"import {name}\nimport {name}.a as z\nfrom {name} import a\nfrom {name}.b import c\nimport requests\n" if name != "__future__" else "import requests\n")
                scan(d, out, {("requests", "RUN")}, f"import {name}", "standard library")
                near = [f"{name}2", f"{name}_x", f"x{name}", f"py_{name}"]
                # Names of packages are in lower case
                near = [n for n in near if n not in sys.stdlib_module_names and n == n.lower()]
                (d / "m.py").write_text("".join(f"import {n}\n" for n in near))
                scan(d, out, {(n, "RUN") for n in near}, f"import {near}", "like standard library")
    elif kind == "many":
        for n in range(9, 14):
            with Scratch() as d:
                project(d)
                want = set()
                for i in range(n):
                    sub = d / "/".join(["s"] * (i % 4) + ["x"])
                    sub.mkdir(parents=True, exist_ok=True)
                    for j in range(n):
                        (sub / (f"test_{i}_{j}.py" if j % 5 == 0 else f"m_{i}_{j}.py")).write_text("".join(f"import d{(i * k + j) % 40}\n" for k in range(n)))
                        want |= {(f"d{(i * k + j) % 40}", "TESTS" if j % 5 == 0 else "RUN") for k in range(n)}
                scan(d, out, want, f"{n} x {n} files", "many")
        for size in (100, 5000, 70000):
            with Scratch() as d:
                project(d)
                (d / "m.py").write_text("import numpy\n" + "x = 1  # and more\n" * (size // 10) + "def f():\n    import requests\n")
                scan(d, out, {("numpy", "RUN"), ("requests", "RUN")}, f"a file with {size // 10} lines", "large file")
                (d / "m.py").write_text("import " + ", ".join(f"d{i}" for i in range(size // 100)) + ", requests\n")
                scan(d, out, {("requests", "RUN")} | {(f"d{i}", "RUN") for i in range(size // 100)}, f"{size // 100} modules in a line", "long line")
                (d / "m.py").write_text("".join(f"{' ' * i}if True:\n" for i in range(90)) + " " * 90 + "import requests\n")
                scan(d, out, {("requests", "RUN")}, "a deep import", "deep")
    elif kind == "locale":
        with Scratch() as d:
            (d / "p").mkdir()
            (d / "p" / "m.py").write_text("x = 'é€'\nimport requests\n", encoding="utf-8")
            code = "import sys\nfrom conda_recipe_manager.scanner.dependency.py_dep_scanner import PythonDependencyScanner as S\ns = S(sys.argv[1])\nprint(sorted(str(x.data.name) for x in s.scan()))\n"
            env = {**os.environ, "PYTHONPATH": os.pathsep.join(p for p in sys.path if p), "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "POSIX"}
            r = subprocess.run([sys.executable, "-c", code, str(d / "p")], env=env, capture_output=True, text=True, timeout=100, check=False)
            out.nt("locale")
            out.expect(r.stdout.strip(), "['python', 'python', 'requests']", "locale", f"files with non-ASCII characters in another locale: {r.stdout} {r.stderr[-500:]}")
    else:
        with Scratch() as d:
            scan(d, out, set(), "an empty project", "empty")
            project(d)
            scan(d, out, set(), "a project without imports", "empty")
            scan(d / "missing", out, set(), "a missing directory", "empty")


def scan_broken(d: Path, out: Out, n: int, what: str) -> None:
    s = PythonDependencyScanner(d)
    out.nt(what)
    out.step()
    try:
        got = s.scan()
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail("raises: broken", f"{e!r} from scanning a project with {what}")
        return
    out.expect(sorted((str(x.data.name), x.type.name) for x in got), [("python", "HOST"), ("python", "RUN"), ("requests", "RUN")], "broken", f"dependencies with {what}")
    msgs = s.get_message_table().get_messages(MessageCategory.EXCEPTION)
    out.expect(len(msgs), n, "messages: broken", f"messages with {what}: {msgs}")
    for p in sorted(d.rglob("*.py")):
        named = sum(str(p) in m for m in msgs)
        out.expect(named, 0 if p.name in ("main.py", "mine.py", "__init__.py") else 1, "named: broken", f"{p.name} in the messages {msgs}")
