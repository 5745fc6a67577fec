"""C12: get_all_dependencies() lists every dependency of every package of a recipe, where it is."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.dependency import DependencySection, DependencyVariable, dependency_data_render_as_str
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from crm.core import Out

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "all recipes with up to two outputs, sections in all forms, up to three entries of every kind, vs a reference list of dependencies"
RULE = (
    "Every section with up to 2 (3 thorough) entries out of the pool, every pair of sections, and every combination of root and outputs with sections in each form. "
    "Non-trivial: distinct recipe."
)
ASSUMPTIONS = ["conda's MatchSpec is replaced by a stand-in; only plain `name version build` specifications are used"]
CHUNK = 16

S = DependencySection
TYPES = {
    "build": S.BUILD,
    "host": S.HOST,
    "run": S.RUN,
    "run_constrained": S.RUN_CONSTRAINTS,
    "run_constraints": S.RUN_CONSTRAINTS,
    "run_exports": S.RUN_EXPORTS,
    "ignore_run_exports": None,
}
SECTIONS = [["build", "host", "run", "run_constrained", "ignore_run_exports"], ["build", "host", "run", "run_constraints", "run_exports", "ignore_run_exports"]]
LISTED = [["build", "host", "run", "run_constrained"], ["build", "host", "run", "run_constraints"]]

# An entry: the lines below its `- `, or a comment line; (path below the entry, dependency, selector)...
Entry = tuple[str, list[tuple[str, str, Any]]]
COMMON: list[Entry] = [
    ("- python", [("", "python", None)]),
    ("- numpy >=1.20,<2", [("", "numpy >=1.20,<2", None)]),
    ("- zlib  # [linux]", [("", "zlib", "[linux]")]),
    ("- zlib 1.2.* *_0  # why [not (win or osx)]", [("", "zlib 1.2.* *_0", "[not (win or osx)]")]),
    ("- \"boost >=1.8\"  # note", [("", "boost >=1.8", None)]),
    ("# - old  # [win]", []),
]
# Used one at a time: quoted entries with characters that mean something elsewhere, and names that begin alike.
ODD = [
    '"a#b"', "'a#b >=1'", '"a # b"', '" spaces  "', '"a: b"', '"- a"', '"[a]"', '"a[build=x*]"', '"*"', '"a/b"', "a::b", "'it''s'", "a==1.0", "a>=1,<2|>3", "python_abi 3.8 *_cp38", "A", "a.b_c-d", "a !=1.2",
    "a ~=1.2", '"[win]"', '"# [win]"', "requirements", "run", "a <2  # c", "a#b", '"%a"', '"&a"',
]  # fmt: skip
POOL: list[list[Entry]] = [
    [
        *COMMON,
        ("- {{ name }}-core =={{ version }}  # [win]", [("", "foo-core ==1.2.3", "[win]")]),
        ("- {{ compiler('c') }}  # [unix]", [("", "${{ compiler('c') }}", "[unix]")]),
        ("- '{{ pin_subpackage(name, max_pin=\"x.x\") }}'", [("", None, None)]),
        ("- {{ unknown }}-x", [("", "${{ unknown }}-x", None)]),
        ("-", []),
    ],
    [
        *COMMON,
        ("- ${{ name }}-core ==${{ version }}", [("", "foo-core ==1.2.3", None)]),
        ("- ${{ compiler('c') }}", [("", "${{ compiler('c') }}", None)]),
        ("- ${{ unknown }}-x", [("", "${{ unknown }}-x", None)]),
        ("- if: linux\n  then: a >=1", [("/then", "a >=1", "linux")]),
        ("- if: osx and not arm64\n  then: a\n  else: b", [("/then", "a", "osx and not arm64"), ("/else", "b", "not (osx and not arm64)")]),
        (
            "- if: win or osx\n  then:\n    - a\n    - ${{ name }}-b 1.*\n  else:\n    - c",
            [("/then/0", "a", "win or osx"), ("/then/1", "foo-b 1.*", "win or osx"), ("/else/0", "c", "not (win or osx)")],
        ),
    ],
]


# Forms of a `requirements` section without any section
BARE = [None, "requirements:\n", "requirements: {}\n", "requirements: []\n", "requirements: null\n", "requirements:\n  # none\n", "requirements:  # none\n", [("host", "empty")], [("run", "[]")]]


def forms(v: int) -> list[list[Entry] | str | None]:
    """Forms of a section: a list of entries, a single dependency, nothing."""
    p = POOL[v]
    return [
        [p[0]],
        [p[5], p[2], p[1]],
        [p[6], p[5], p[7]],
        "single >=1",
        "empty",
        "[]",
    ] + ([[p[9], p[10], p[11], p[3]]] if v else [])


def cases(tier: str) -> Iterator[Any]:
    n = 3 if tier == "thorough" else 2
    for v in (0, 1):
        for k in range(1, n + 1):
            for ix in itertools.product(range(len(POOL[v])), repeat=k):
                yield ["entries", v, list(ix)]
        if n == 2:
            for i, j in itertools.product(range(len(POOL[v])), repeat=2):
                yield ["entries", v, [5, i, j]]
        for a, b in itertools.permutations(range(len(SECTIONS[v])), 2):
            yield ["sections", v, a, b]
        for a in range(len(forms(v)) + 1):
            yield ["outputs", v, a]
        yield ["names", v]
        yield ["exports", v]
        yield ["odd", v]
        for root in BARE:
            yield ["bare", v, root]
        yield ["many", v]


def section(name: str, form: Any, path: str) -> tuple[str, list[tuple[str, Any, str, Any]], list[str]]:
    """Text, dependencies (path, type, spec, selector), and paths to list, of a section."""
    if form == "empty":
        return f"{name}:\n", [], []
    if form == "[]":
        return f"{name}: []\n", [], []
    if isinstance(form, str):
        return f"{name}: {form}\n", [(path, TYPES[name], form, None)], [path]
    text, deps, paths, i = f"{name}:\n", [], [], 0
    for lines, ds in form:
        text += "".join(f"  {l}\n" for l in lines.split("\n"))
        if lines.startswith("#"):
            continue
        paths.append(f"{path}/{i}")
        deps += [(f"{path}/{i}{sub}", TYPES[name], spec, sel) for sub, spec, sel in ds]
        i += 1
    return text, deps, paths


def requirements(sections: list[tuple[str, Any]] | None, base: str, v: int) -> tuple[str, list[Any], list[str]]:
    if sections is None:
        return "", [], []
    if isinstance(sections, str):
        return sections, [], []
    text, deps, paths = "requirements:\n", [], {}
    for name, form in sections:
        t, d, p = section(name, form, f"{base}/requirements/{name}")
        text += "".join(f"  {l}\n" for l in t.splitlines())
        if TYPES[name]:
            deps += d
        paths[name] = p
    return text, deps, [p for n in LISTED[v] for p in paths.get(n, [])]


def recipe(v: int, root: Any, outputs: list[Any] | None, name: str = "foo", var: bool = False) -> tuple[str, dict[str, Any], list[str]]:
    """Text, dependencies per package, all paths."""
    shown = ("${{ name }}" if v else "{{ name }}") if var else name
    text = "schema_version: 1\n\ncontext:\n  name: foo\n  version: 1.2.3\n\n" if v else '{% set name = "foo" %}\n{% set version = "1.2.3" %}\n\n'
    text += ("recipe" if v and outputs is not None else "package") + f":\n  name: {shown}\n\n"
    t, deps, paths = requirements(root, "", v)
    text += t + "\n"
    want: dict[str, Any] = {"foo" if var else name: deps}
    if outputs is not None:
        text += "outputs:\n"
        for i, o in enumerate(outputs):
            text += f"  - package:\n      name: out{i}\n" if v else f"  - name: out{i}\n"
            t, d, p = requirements(o, f"/outputs/{i}", v)
            text += "".join(f"    {l}\n" for l in t.splitlines())
            want[f"out{i}"] = d + deps
            paths += p
    text += "\nabout:\n  summary: x\n"
    return text, want, paths


def verify(out: Out, v: int, root: Any, outputs: list[Any] | None, key: str, var: bool = False) -> None:
    text, want, paths = recipe(v, root, outputs, var=var)
    out.nt(text)
    out.state(text)
    out.step(sum(len(w) for w in want.values()))
    key = f"V{v} {key}"
    try:
        r = RecipeReaderDeps(text)
        got = r.get_all_dependencies()
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"raises: {key}", f"{e!r} from get_all_dependencies() of\n{text}")
        return
    shown = {
        k: [(d.required_by, d.path, d.type, dependency_data_render_as_str(d.data), d.selector.render() if d.selector else None) for d in ds]
        for k, ds in got.items()
    }
    model = {k: [(k, p, t, spec, sel) for p, t, spec, sel in ds if spec is not None] for k, ds in want.items()}
    # Function calls with several arguments have no fixed spelling.
    loose = {(k, p) for k, ds in want.items() for p, _, spec, _ in ds if spec is None}
    for k, p in loose:
        if k in shown:
            hit = [d for d in shown[k] if d[1] == p]
            if len(hit) != 1 or "pin_subpackage" not in hit[0][3]:
                out.fail(f"dependency: {key}", f"no dependency at {p} for {k} in\n{text}")
            shown[k] = [d for d in shown[k] if d[1] != p]
    if not out.expect(list(shown), list(model), f"packages: {key}", f"packages {list(shown)} in\n{text}"):
        return
    for k in model:
        out.expect(sorted(shown[k], key=str) == sorted(model[k], key=str), True, f"dependencies: {key}", f"{k} has dependencies {shown[k]}, not {model[k]}, in\n{text}")
    for k, ds in got.items():
        for d in ds:
            spec = dependency_data_render_as_str(d.data)
            out.trace()
            out.expect(isinstance(d.data, DependencyVariable), "${{" in spec, f"kind: {key}", f"{spec} is a {type(d.data).__name__}")
            if not isinstance(d.data, DependencyVariable):
                out.expect(d.data.name, spec.split()[0], f"name: {key}", f"{spec}: name {d.data.name}")
            out.expect(r.get_value(d.path, sub_vars=True), spec, f"path: {key}", f"{d.path} in\n{text}")
    got_paths = r.get_dependency_paths()
    out.expect(sorted(got_paths), sorted(paths), f"paths: {key}", f"get_dependency_paths() is {got_paths}, not {paths}, in\n{text}")
    names = {k: "/" if i == 0 else f"/outputs/{i - 1}" for i, k in enumerate(want)}
    out.expect(r.get_package_names_to_path(), names, f"names: {key}", f"package names of\n{text}")
    out.expect(r.get_package_paths(), list(names.values()), f"package paths: {key}", f"package paths of\n{text}")
    out.expect(r.is_modified() if hasattr(r, "is_modified") else False, False, f"modified: {key}", "reading dependencies modified the recipe")


def check(case: Any, out: Out) -> None:
    kind, v = case[0], case[1]
    out.outcome(kind)
    p = POOL[v]
    if kind == "entries":
        form = [p[i] for i in case[2]]
        if not any(not e[0].startswith("#") for e in form):
            return
        verify(out, v, [("run", form)], None, "entries")
        verify(out, v, [("host", [p[0]]), ("run", form)], [[("run", form)], [("build", form), ("host", [p[1]])]], "entries in outputs", var=True)
    elif kind == "bare":
        full: list[Any] = [("host", [p[0]]), ("run", [p[1]])]
        verify(out, v, case[2], None, f"bare {case[2]}")
        for root in (case[2], full):
            for forms_ in itertools.product((case[2], full), repeat=2):
                verify(out, v, root, list(forms_), f"bare {case[2]} in outputs")
    elif kind == "sections":
        a, b = SECTIONS[v][case[2]], SECTIONS[v][case[3]]
        for fa, fb in itertools.product(forms(v), repeat=2):
            verify(out, v, [(a, fa), (b, fb)], None, f"sections {a} {b}")
    elif kind == "outputs":
        fs: list[Any] = [None] + [[("run", f)] for f in forms(v)]
        root = fs[case[2]]
        for n in (1, 2):
            for os in itertools.product(fs, repeat=n):
                verify(out, v, root, list(os), f"outputs {n}", var=True)
    elif kind == "exports":
        if v:
            text = "schema_version: 1\n\npackage:\n  name: a\n\nrequirements:\n  run_exports:\n    weak:\n      - w\n      - if: win\n        then: x\n    strong:\n      - s >=1\n  run:\n    - r\n"
            base = "/requirements/run_exports"
            got = RecipeReaderDeps(text).get_all_dependencies()
            out.nt(text)
            out.expect(
                {(d.path, d.type.name, dependency_data_render_as_str(d.data), d.selector.render() if d.selector else None) for d in got["a"]},
                {(f"{base}/weak/0", "RUN_EXPORTS", "w", None), (f"{base}/weak/1/then", "RUN_EXPORTS", "x", "win"), (f"{base}/strong/0", "RUN_EXPORTS", "s >=1", None), ("/requirements/run/0", "RUN", "r", None)},
                "run_exports by strength",
                f"dependencies of\n{text}",
            )
    elif kind == "many":
        # Positions of more than one digit.
        for n in range(9, 14):
            form = (p * 2)[:n]
            verify(out, v, [("host", form[::-1]), ("run", form)], None, "many entries", var=True)
            verify(out, v, [("host", form)], [[("run", [p[(i + j) % len(p)] for j in range(n)]), ("host", [p[0]])] if i % 3 else None for i in range(n)], "many outputs", var=True)
    elif kind == "odd":
        for entry in ODD:
            _odd(v, entry, out)
    else:
        _names(v, out)


def _odd(v: int, entry: str, out: Out) -> None:
    """One unusual entry, alone and between others: YAML says what it reads as."""
    real = str(yaml.safe_load(f"- {entry}")[0])
    for section_name, before, after in itertools.product(("run", "host"), (None, "zlib >=1"), (None, "python  # [win]" if v == 0 else "python")):
        entries = [x for x in (before, entry, after) if x is not None]
        body = "".join(f"    - {x}\n" for x in entries)
        text = ("schema_version: 1\n\n" if v else "") + f"package:\n  name: a\n\nrequirements:\n  {section_name}:\n{body}"
        out.nt(text)
        path = f"/requirements/{section_name}"
        want = [(f"{path}/{i}", x) for i, x in enumerate([y for y in ("zlib >=1" if before else None, real, "python" if after else None) if y is not None])]
        key = f"V{v} odd entry {entry}"
        try:
            r = RecipeReaderDeps(text)
            got = r.get_all_dependencies()["a"]
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.fail(f"raises: {key}", f"{e!r} for\n{text}")
            continue
        shown = [(d.path, dependency_data_render_as_str(d.data)) for d in got]
        out.expect([(p, x.strip()) for p, x in shown], [(p, x.strip()) for p, x in want], f"dependencies: {key}", f"dependencies of\n{text}")
        out.expect([d.path for d in got if d.selector], [f"{path}/{len(want) - 1}"] if after and not v else [], f"selectors: {key}", f"dependencies with a selector in\n{text}")


def _names(v: int, out: Out) -> None:
    """Names that are missing or not unique are errors, whatever else there is."""
    for names in itertools.product(["a", "b", "{v}", None], repeat=3):
        for n in range(3):
            text = "schema_version: 1\n\ncontext:\n  v: b\n\n" if v else "{% set v = 'b' %}\n"
            top = "recipe" if v and n else "package"
            text += f"{top}:\n  version: 1\n"
            used = list(names[: n + 1])
            var = "${{ v }}" if v else "{{ v }}"
            if used[0]:
                text += "  name: " + used[0].replace("{v}", var) + "\n"
            if n:
                text += "outputs:\n"
            for x in used[1:]:
                body = [f"name: {x.replace('{v}', var)}"] if x else ["version: 2"]
                body = ["package:", *("  " + l for l in body)] if v else body
                text += "  - " + "\n    ".join([*body, "build:", "  number: 0"]) + "\n"
            real = ["b" if x == "{v}" else x for x in used]
            out.nt(text)
            want: Any = {x: "/" if i == 0 else f"/outputs/{i - 1}" for i, x in enumerate(real)}
            for i, x in enumerate(real):
                if x is None:
                    want = KeyError
                    break
                if x in real[:i]:
                    want = ValueError
                    break
            for f in ("get_package_names_to_path", "get_all_dependencies"):
                try:
                    got: Any = getattr(RecipeReaderDeps(text), f)()
                except (KeyError, ValueError) as e:
                    got = type(e)
                if f == "get_all_dependencies" and isinstance(got, dict):
                    got = {k: want[k] for k in got} if list(got) == list(want) and not any(got.values()) else got
                out.expect(got, want, f"V{v} names", f"{f}() is {got} for\n{text}")
