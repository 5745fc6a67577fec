"""C27: the pyproject.toml scanner finds each declared dependency, and reports files that it cannot use."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser.dependency import dependency_data_render_as_str
from conda_recipe_manager.scanner.dependency.pyproject_dep_scanner import PyProjectDependencyScanner
from conda_recipe_manager.types import MessageCategory
from crm.core import Out, Scratch

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "all combinations of dependency lists and optional groups out of a pool, in all layouts of the file, and all broken files, vs a reference list"
RULE = "Every list of up to 2 (3 thorough) dependencies x every set of up to 2 optional groups x layouts; all prefixes of a file (each cut point); missing sections. Non-trivial: distinct files."
ASSUMPTIONS = ["conda's MatchSpec is replaced by a stand-in"]
CHUNK = 8

DEPS = [
    "click", "click >= 1.2", "requests >= 2.8.1, == 2.8.*", "pytest~=8.1", "numpy<2,>=1.20", "Foo.Bar", "a_b-c", "requests[security]>=2", 'importlib-metadata; python_version < "3.8"', "x @ https://x.org/x.whl",
    "name (>=1,<2)", "click!=1.5",
]  # fmt: skip
GROUPS = ["dev", "conda_build", "all-of-it"]


def q(s: str) -> str:
    return f"'{s}'" if '"' in s else f'"{s}"'


def layouts(deps: Any, groups: Any) -> Iterator[str]:
    lists = "[" + ", ".join(q(d) for d in deps or []) + "]"
    lines = "[\n" + "".join(f"    {q(d)},  # note\n" for d in deps or []) + "]"
    other = '[build-system]\nrequires = ["setuptools>=1", "wheel"]\n\n[tool.x]\ndependencies = ["no1"]\n\n[tool.x.optional-dependencies]\ndev = ["no2"]\n\n[dependency-groups]\ntest = ["no3"]\n'
    for shown, before, after in ((lists, "", ""), (lines, other, ""), (lines, "# é\n", other), (lists, "", other)):
        text = before + '[project]\nname = "p"\n' + (f"dependencies = {shown}\n" if deps is not None else "") + 'version = "1"\n'
        if groups is not None:
            text += "\n[project.optional-dependencies]\n" + "".join(f"{g} = [" + ", ".join(q(d) for d in ds) + "]\n" for g, ds in groups.items())
        yield text + after
    # Dotted and inline
    text = 'project.name = "p"\n' + (f"project.dependencies = {lists}\n" if deps is not None else "")
    if groups is not None:
        text += "project.optional-dependencies = { " + ", ".join(f'"{g}" = [' + ", ".join(q(d) for d in ds) + "]" for g, ds in groups.items()) + " }\n"
    yield text


def cases(tier: str) -> Iterator[Any]:
    yield ["groups", None, tier]
    for n in range(0, 3 if tier == "quick" else 4):
        for ix in itertools.product(range(len(DEPS)), repeat=n):
            if n < 3 or len(set(ix)) == 3:
                yield ["groups", list(ix), tier]
    yield ["many"]
    yield ["broken"]
    yield ["missing"]
    yield ["name"]


def decide(text: bytes, want: list[tuple[str, str]], msgs: dict[str, list[str]], out: Out, key: str, name: str = "pyproject.toml", default: bool = True) -> None:
    with Scratch() as d:
        if text is not None:
            (d / name).write_bytes(text)
        out.nt(text, name)
        out.step()
        for path in (d, str(d)):
            s = PyProjectDependencyScanner(path) if default else PyProjectDependencyScanner(path, name)
            try:
                got = s.scan()
            except Exception as e:  # pylint: disable=broad-exception-caught
                out.fail(f"raises: {key}", f"{e!r} from scanning {text!r}")
                return
            out.expect(sorted((dependency_data_render_as_str(x.data), x.type.name) for x in got), sorted(set(want)), f"dependencies: {key}", f"dependencies of {text!r}")
            table = s.get_message_table()
            out.expect({c.name: table.get_messages(c) for c in MessageCategory if table.get_messages(c)}, msgs, f"messages: {key}", f"messages of {text!r}")
        if text is not None:
            out.expect([(p.name, p.read_bytes()) for p in d.iterdir()] == [(name, text)], True, "unchanged", f"the file was changed: {text!r}")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "groups":
        deps = None if case[1] is None else [DEPS[i] for i in case[1]]
        first = (case[1] or [0])[0]
        options: list[Any] = [None, {}, {"dev": []}, {"dev": [DEPS[first]]}]
        options += [{a: [DEPS[(first + i) % len(DEPS)]], b: [DEPS[first], DEPS[(first + 5) % len(DEPS)]]} for i, (a, b) in enumerate(itertools.permutations(GROUPS, 2))]
        for groups in options if len(case[1] or []) < 3 else options[2:5]:
            want = [(d, "RUN") for d in deps or []] + [(d, "RUN_CONSTRAINTS") for ds in (groups or {}).values() for d in ds]
            for text in layouts(deps, groups):
                decide(text.encode(), want, {}, out, "pyproject")
    elif kind == "many":
        for n in (*range(9, 14), 100):
            deps = [f"d{i} >={i}" for i in range(n)]
            for groups in (None, {f"g{i}": [f"e{i}", *(f"f{i}-{j}" for j in range(i % 4))] for i in range(n)}, {"all": deps[::-1]}, {f"g{i}": deps[i : i + 2] for i in range(n)}):
                want = [(d, "RUN") for d in deps] + [(d, "RUN_CONSTRAINTS") for ds in (groups or {}).values() for d in ds]
                for text in layouts(deps, groups):
                    decide(text.encode(), want, {}, out, "many")
    elif kind == "broken":
        whole = '[project]\nname = "é"\ndependencies = ["a", "b>1"]\n[project.optional-dependencies]\ndev = ["c"]\n'.encode()
        import tomllib  # pylint: disable=import-outside-toplevel

        bad = {"EXCEPTION": ["Could not parse `pyproject.toml` file."]}
        none = {"ERROR": ["`pyproject.toml` file is missing a `project` section."]}
        # Cut at every point, and with a stray byte at every point
        texts = [whole[:i] for i in range(len(whole))] + [whole[:i] + b + whole[i:] for b in (b"\xff", b'"', b"\x00") for i in range(len(whole))]
        for text in texts:
            try:
                data: Any = tomllib.loads(text.decode())
            except ValueError:
                decide(text, [], bad, out, "broken")
                continue
            if "project" not in data:
                decide(text, [], none, out, "broken")
                continue
            p = data["project"]
            groups = p.get("optional-dependencies", {})
            if isinstance(p, dict) and isinstance(p.get("dependencies", []), list) and isinstance(groups, dict):
                decide(text, [(d, "RUN") for d in p.get("dependencies", [])] + [(d, "RUN_CONSTRAINTS") for ds in groups.values() for d in ds], {}, out, "broken")
    elif kind == "missing":
        decide(None, [], {"EXCEPTION": ["`pyproject.toml` file not found."]}, out, "missing")  # type: ignore[arg-type]
        decide(None, [], {"EXCEPTION": ["`x.toml` file not found."]}, out, "missing", "x.toml", False)  # type: ignore[arg-type]
        for text in ("", "# x\n", '[build-system]\nrequires = ["a"]\n', '[tool.project]\ndependencies = ["a"]\n', 'dependencies = ["a"]\n', '[projects]\ndependencies = ["a"]\n'):
            decide(text.encode(), [], {"ERROR": ["`pyproject.toml` file is missing a `project` section."]}, out, "missing")
    else:
        for name in ("x.toml", "pyproject_é.toml", "a b.toml", "pyproject.toml"):
            decide(b'[project]\ndependencies = ["a"]\n', [("a", "RUN")], {}, out, "name", name, False)
            decide(b"[project\n", [], {"EXCEPTION": [f"Could not parse `{name}` file."]}, out, "name", name, False)
            decide(b"", [], {"ERROR": [f"`{name}` file is missing a `project` section."]}, out, "name", name, False)
