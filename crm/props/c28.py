"""C28: the dependency graph has exactly the dependencies of the recipes, and one bad recipe does not hide the others."""

from __future__ import annotations

import itertools
import json
import os
import subprocess
import sys
from pathlib import Path
from typing import Any, Iterator
from unittest import mock

os.environ.setdefault("MPLBACKEND", "Agg")

import matplotlib.pyplot as plt
from click.testing import CliRunner

from conda_recipe_manager.commands.graph import graph as graph_cli
from conda_recipe_manager.grapher import recipe_graph as module
from conda_recipe_manager.grapher.recipe_graph import RecipeGraph
from conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk
from conda_recipe_manager.grapher.types import GraphDirection, GraphType, PackageStats, PackageStatsEncoder
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from crm.core import Out, Scratch

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = "all dependency graphs on three packages, all sets of good, bad and duplicate recipes, and all command sequences up to a depth, vs a reference graph"
RULE = (
    "All graphs on 3 packages (one of them outside), both graph types, directions and all packages; every subset of a pool of recipe files in memory and on disk, read with 1 to 3 processes; "
    "all sequences of up to 2 (3 thorough) shell commands. Non-trivial: distinct (recipes, request)."
)
ASSUMPTIONS = ["what is drawn is what `networkx.draw` is called with", "conda's MatchSpec is replaced by a stand-in"]
CHUNK = 2
CASE_TIMEOUT_S = 120

SECTION = {"build": "build", "host": "build", "run": "test"}


class Package:
    """A package and its requirements: (section, name)."""

    def __init__(self, name: str, reqs: list[tuple[str, str]]):
        self.name = name
        self.reqs = reqs

    def edges(self, kind: str) -> set[tuple[str, str]]:
        return {(self.name, d) for s, d in self.reqs if SECTION.get(s) == kind}


def requirements(reqs: list[tuple[str, str]], pad: str = "") -> str:
    if not reqs:
        return ""
    text = f"{pad}requirements:\n"
    for s in dict.fromkeys(s for s, _ in reqs):
        text += f"{pad}  {s}:\n" + "".join(f"{pad}    - {d} >=1\n" for t, d in reqs if t == s)
    return text


def recipe(p: Package) -> str:
    return f"package:\n  name: {p.name}\n" + requirements(p.reqs)


def drawn(g: RecipeGraph, kind: str, direction: Any = None, package: Any = None) -> Any:
    """Nodes and edges that are drawn."""
    seen: list[Any] = []
    args: list[Any] = [GraphType(kind)]
    if direction:
        args += [direction, package]
    with (
        mock.patch("networkx.draw", side_effect=lambda graph, *_, **__: seen.append((set(graph.nodes), set(graph.edges)))),
        mock.patch.object(module, "graphviz_layout", lambda *_, **__: None, create=True),
        mock.patch.object(plt, "figure"),
        mock.patch.object(plt, "axis"),
        mock.patch.object(plt, "title"),
        mock.patch.object(plt, "show"),
    ):
        g.plot(*args)
    assert len(seen) == 1
    return seen[0]


def reach(edges: set[tuple[str, str]], start: str, back: bool) -> set[str]:
    seen, todo = {start}, [start]
    while todo:
        n = todo.pop()
        for a, b in edges:
            if back:
                a, b = b, a
            if a == n and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def verify(out: Out, g: RecipeGraph, packages: list[Package], key: str, what: Any) -> None:
    names = {p.name for p in packages}
    for n in sorted(names | {"outside", "nope", ""}):
        out.expect(g.contains_package_name(n), n in names, f"contains: {key}", f"{n!r} in {what}")
    for kind in ("build", "test"):
        edges = set().union(*(p.edges(kind) for p in packages)) if packages else set()
        try:
            nodes, got = drawn(g, kind)
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.fail(f"plot: {key}", f"{e!r} from drawing the {kind} graph of {what}")
            continue
        out.step()
        out.state((kind, str(sorted(got)), str(sorted(nodes))))
        out.expect(got, edges, f"edges: {key}", f"{kind} graph of {what}")
        out.expect({n for e in edges for n in e} <= nodes <= {n for e in edges for n in e} | names, True, f"nodes: {key}", f"{kind} graph of {what}: {nodes}")
        for n in sorted(names):
            for direction in GraphDirection:
                try:
                    nodes, got = drawn(g, kind, direction, n)
                except Exception as e:  # pylint: disable=broad-exception-caught
                    out.fail(f"plot {direction.name}: {key}", f"{e!r} from drawing the {kind} graph {direction.name} {n} of {what}")
                    continue
                out.trace()
                want = reach(edges, n, direction == GraphDirection.NEEDED_BY)
                out.expect(nodes, want, f"plot {direction.name}: {key}", f"{kind} graph {direction.name} {n} of {what}")
                ok = all((a, b) in edges or (b, a) in edges for a, b in got) and len(got) >= len(want) - 1
                out.expect(ok, True, f"plot edges {direction.name}: {key}", f"{kind} graph {direction.name} {n} of {what}: {got}")


# Recipe files: text, packages (None: does not parse; []: dependencies do not), what the names are that a bad one has.
MULTI = [Package("top", [("host", "x")]), Package("o1", [("run", "a"), ("host", "x")]), Package("o2", [("build", "o1"), ("host", "x")])]
POOL: dict[str, tuple[str, Any, Any]] = {
    "a": (recipe(Package("a", [("host", "b"), ("run", "c")])), [Package("a", [("host", "b"), ("run", "c")])], None),
    "b": (recipe(Package("b", [("build", "c"), ("run", "b")])) + "about:\n  summary: é\n", [Package("b", [("build", "c"), ("run", "b")])], None),
    "multi": (
        "package:\n  name: top\nrequirements:\n  host:\n    - x\noutputs:\n  - name: o1\n    requirements:\n      run:\n        - a\n  - name: o2\n    requirements:\n      build:\n        - o1\n",
        MULTI,
        None,
    ),
    "a2": (recipe(Package("a", [("host", "z"), ("run", "z")])), [Package("a", [("host", "z"), ("run", "z")])], None),
    "nameless": ("package:\n  version: 1\nrequirements:\n  run:\n    - q\n", [], ["Unknown"]),
    "twice": ("package:\n  name: t\noutputs:\n  - name: t\n", [], ["Unknown"]),
    "broken": ("package:\n  name: [a\n   b: {{\n", None, None),
    "taken": (
        "package:\n  name: tk\noutputs:\n  - name: a\n    requirements:\n      host:\n        - w\n  - name: tk2\n    requirements:\n      host:\n        - a\n      run:\n        - w2\n",
        [Package("tk", []), Package("a", [("host", "w")]), Package("tk2", [("host", "a"), ("run", "w2")])],
        None,
    ),
    "none": ("build:\n  number: 0\n", [], ["Unknown"]),
}


def parses(text: str) -> bool:
    try:
        RecipeReaderDeps(text)
    except Exception:  # pylint: disable=broad-exception-caught
        return False
    return True


def expected(names: list[str]) -> tuple[list[Package], dict[str, Any], list[str]]:
    """Packages, in order; stats; names of bad recipes."""
    packages: list[Package] = []
    dups = set()
    bad = []
    for n in names:
        for p in POOL[n][1] or []:
            if p.name in {q.name for q in packages}:
                dups.add(p.name)
            else:
                packages.append(p)
        if POOL[n][1] == []:
            bad.append(n)
    parsed = [n for n in names if POOL[n][1] is not None]
    return packages, {"package_name_duplicates": dups, "total_parsed_recipes": len(parsed), "total_recipes": len(names), "total_packages": len(packages)}, bad


def stats(out: Out, s: PackageStats, names: list[str], failed: set[str], what: Any, key: str) -> None:
    _, want, bad = expected(names)
    got = {k: getattr(s, k) for k in want}
    out.expect(got, want, f"stats: {key}", f"statistics of {what}")
    out.expect(set(s.recipes_failed_to_parse), failed, f"failed: {key}", f"failed recipes of {what}")
    out.expect(sorted(s.recipes_failed_to_parse_dependencies.values()), sorted(POOL[n][2] for n in bad), f"failed dependencies: {key}", f"failed dependencies of {what}")
    shown = json.loads(json.dumps(s, cls=PackageStatsEncoder))
    out.expect(shown["package_name_duplicates"], sorted(want["package_name_duplicates"]), f"encoder: {key}", f"statistics of {what}")
    out.expect(shown["total_packages"], want["total_packages"], f"encoder: {key}", f"statistics of {what}")


COMMANDS = [
    "stats", "help", "plot build all", "plot test all", "plot nope all", "plot build depends a", "plot build needed-by b", "plot test depends b", "plot test needed-by o2",
    "plot build depends nope", "plot build sideways a", "plot build", "", "frobnicate", "PLOT BUILD DEPENDS A",
]  # fmt: skip
QUITS = ["exit", "quit", "q", "esc", None]

# Requirements of package i of n.
SHAPES: dict[str, Any] = {
    "chain": lambda i, n: [("host", f"p{i + 1}"), ("run", f"p{i + 2}")] if i < n - 2 else [],
    "ring": lambda i, n: [("build", f"p{(i + 1) % n}"), ("run", f"p{(i + n - 1) % n}")],
    "tree": lambda i, n: [(s, f"p{j}") for j in (2 * i + 1, 2 * i + 2) if j < n for s in ("host", "run")],
    "star": lambda i, n: [("host", f"p{j}") for j in range(1, n)] + [("run", f"q{j}") for j in range(n)] if not i else [("run", "p0")],
    "all": lambda i, n: [(("build", "host", "run")[(i + j) % 3], f"p{j}") for j in range(n) if j != i],
    "diamonds": lambda i, n: [("host", f"p{j}") for j in ((i + 1, i + 2) if i % 3 == 0 else (3 * (i // 3 + 1),)) if j < n],
}


def cases(tier: str) -> Iterator[Any]:
    for bits in range(0, 512, 8):
        yield ["graphs", bits]
    names = list(POOL)
    for k in range(0, 5 if tier == "quick" else 7):
        for sub in itertools.combinations(names, k):
            yield ["memory", list(sub)]
    for k in range(0, 4 if tier == "quick" else 6):
        for sub in itertools.combinations(names, k):
            yield ["disk", list(sub)]
    for shape in SHAPES:
        for n in (5, 9, 10, 11, 13, 20):
            yield ["large", shape, n]
    yield ["sections"]
    yield ["locale"]
    for q in QUITS:
        yield ["shell", [], q]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for seq in itertools.product(range(len(COMMANDS)), repeat=n):
            yield ["shell", list(seq), "exit" if sum(seq) % 2 else None]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "graphs":
        targets = ["a", "b", "outside"]
        for bits in range(case[1], case[1] + 8):
            packages = []
            for i, n in enumerate(["a", "b", "c"]):
                mine = bits >> (3 * i) & 7
                reqs = [("host" if j % 2 else "build", t) for j, t in enumerate(targets) if mine >> j & 1]
                reqs += [("run", t) for j, t in enumerate(targets) if not mine >> j & 1]
                packages.append(Package(n, reqs))
            out.nt(("graphs", bits))
            g = RecipeGraph({p.name: RecipeReaderDeps(recipe(p)) for p in packages}, set())
            verify(out, g, packages, "graphs", [(p.name, p.reqs) for p in packages])
    elif kind == "large":
        _, shape, n = case
        packages = [Package(f"p{i}", SHAPES[shape](i, n)) for i in range(n)]
        out.nt(("large", shape, n))
        verify(out, RecipeGraph({p.name: RecipeReaderDeps(recipe(p)) for p in packages}, set()), packages, f"large {shape}", (shape, n))
        if n in (5, 13):
            with Scratch() as d:
                for p in packages:
                    f = d / "x" / p.name / "deep" / "er" / ("meta.yaml" if p.name != "p1" else "recipe.yaml")
                    f.parent.mkdir(parents=True)
                    f.write_text(recipe(p))
                for cpus in (1, 2, 4):
                    g = RecipeGraphFromDisk(d, cpu_count=cpus)
                    s = g.get_package_stats()
                    out.expect((s.total_recipes, s.total_parsed_recipes, s.total_packages, len(s.package_name_duplicates)), (n, n, n, 0), f"large {shape}", f"statistics of {n} recipes")
                    out.expect(drawn(g, "build")[1], set().union(*(p.edges("build") for p in packages)), f"large {shape}", f"build graph of {n} recipes")
                    out.expect(drawn(g, "test")[1], set().union(*(p.edges("test") for p in packages)), f"large {shape}", f"test graph of {n} recipes")
    elif kind == "sections":
        for s in ("build", "host", "run", "run_constrained", "run_exports", "nope"):
            p = Package("a", [(s, "x"), (s, "y")])
            out.nt(("section", s))
            verify(out, RecipeGraph({"1": RecipeReaderDeps(recipe(p))}, set()), [p], f"section {s}", s)
    elif kind == "memory":
        for names in itertools.permutations(case[1]) if len(case[1]) <= 3 else [tuple(case[1]), tuple(case[1][::-1])]:
            out.nt(("memory", names))
            good = [n for n in names if POOL[n][1] is not None]
            failed = {n for n in names if POOL[n][1] is None}
            assert all(not parses(POOL[n][0]) for n in failed)
            g = RecipeGraph({n: RecipeReaderDeps(POOL[n][0]) for n in good}, set(failed))
            out.expect(bool(g), bool(good), "bool", f"graph of {names}")
            stats(out, g.get_package_stats(), list(names), failed, names, "memory")
            verify(out, g, expected(good)[0], "memory", names)
    elif kind == "disk":
        with Scratch() as d:
            paths = write(d, case[1])
            for cpus in (1, 2, 3):
                out.nt(("disk", tuple(case[1]), cpus))
                g = RecipeGraphFromDisk(d if cpus == 1 else str(d), cpu_count=cpus)
                out.expect(bool(g), any(POOL[n][1] is not None for n in case[1]), "bool", f"graph of {case[1]}")
                failed = {paths[n].as_posix() for n in case[1] if POOL[n][1] is None}
                stats(out, g.get_package_stats(), case[1], failed, case[1], "disk")
                packages = expected(case[1])[0]
                same = [n for n in case[1] if n in ("a", "a2", "taken")]
                if len(same) > 1:
                    # Any of them may come first
                    edges = drawn(g, "build")[1]
                    orders = [expected([*order, *case[1]])[0] for order in itertools.permutations(same)]
                    packages = next((ps for ps in orders if set().union(*(p.edges("build") for p in ps)) == edges), packages)
                verify(out, g, packages, "disk", case[1])
    elif kind == "locale":
        with Scratch() as d:
            write(d, ["b"])
            code = "import sys\nfrom conda_recipe_manager.grapher.recipe_graph_from_disk import RecipeGraphFromDisk as G\nprint(G(sys.argv[1], cpu_count=1).contains_package_name('b'))\n"
            env = {**os.environ, "PYTHONPATH": os.pathsep.join(p for p in sys.path if p), "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "POSIX", "MPLBACKEND": "Agg", "MPLCONFIGDIR": str(d)}
            r = subprocess.run([sys.executable, "-c", code, str(d)], env=env, capture_output=True, text=True, timeout=100, check=False)
            out.nt("locale")
            out.expect(r.stdout.strip(), "True", "locale", f"recipes with non-ASCII characters in another locale: {r.stdout} {r.stderr[-500:]}")
    else:
        _shell(case[1], case[2], out)


def write(d: Path, names: list[str]) -> dict[str, Path]:
    paths = {}
    for i, n in enumerate(names):
        p = d / (f"{n}-feedstock/recipe" if i % 2 else n) / ("recipe.yaml" if i % 3 == 1 else "meta.yaml")
        p.parent.mkdir(parents=True)
        p.write_text(POOL[n][0], encoding="utf-8")
        paths[n] = p
    # Not recipes
    (d / "other").mkdir()
    (d / "other" / "conda_build_config.yaml").write_text(recipe(Package("other", [])))
    (d / "other" / "meta.yml").write_text(recipe(Package("other", [])))
    return paths


def _shell(seq: list[int], end: Any, out: Out) -> None:
    names = ["a", "b", "multi", "nameless", "broken"]
    packages, _, _ = expected(names)
    known = {p.name for p in packages}
    with Scratch() as d:
        write(d, names)
        lines = [COMMANDS[i] for i in seq]
        plots: list[Any] = []
        with (
            mock.patch("networkx.draw", side_effect=lambda graph, *_, **__: plots.append(set(graph.nodes))),
            mock.patch.object(module, "graphviz_layout", lambda *_, **__: None, create=True),
            mock.patch.object(plt, "figure"),
            mock.patch.object(plt, "axis"),
            mock.patch.object(plt, "title"),
            mock.patch.object(plt, "show"),
        ):
            r = CliRunner().invoke(graph_cli, [str(d)], input="".join(l + "\n" for l in [*lines, *([end] if end else [])]))
    out.nt((tuple(lines), end))
    out.step(len(lines))
    what = f"commands {lines}, then {end or 'Ctrl-D'}"
    out.expect(r.exit_code, 0, f"exit: {end or 'Ctrl-D'}" if not any(l.startswith("plot") for l in lines) else "exit: plot", f"exit code of {what}: {r.exception!r}")
    want: list[Any] = []
    marks = []
    for l in lines:
        words = l.lower().split()
        match words:
            case ["plot", "build" | "test" as k, "all"]:
                want.append({n for p in packages for e in p.edges(k) for n in e})
            case ["plot", "build" | "test" as k, "depends" | "needed-by" as way, pkg] if pkg in known:
                want.append(reach(set().union(*(p.edges(k) for p in packages)), pkg, way != "depends"))
            case ["plot", _, ("depends" | "needed-by"), pkg]:
                marks.append(f"Package not found: {pkg}")
            case ["plot", k, "all"]:
                marks.append(f"Unrecognized graph type: {k}")
            case ["plot", _, _, _]:
                marks.append("Unrecognized graph direction.")
            case ["stats"]:
                marks.append('"total_packages": 5')
            case ["help"]:
                marks.append("Commands:")
            case _:
                marks.append("Invalid command.")
    ok = len(plots) == len(want) and all(w <= g <= w | known for w, g in zip(want, plots))
    out.expect(ok, True, "shell plots", f"{what} drew {plots}, not {want}")
    for m in set(marks):
        out.expect(r.output.count(m) >= marks.count(m), True, "shell output", f"{what}: {m!r} is not shown {marks.count(m)} times in\n{r.output}")
    out.expect("Failed to parse 1 out of 5 recipe files (80.00% success)." in r.output, True, "shell summary", f"{r.output}")
    out.expect("Failed to parse the dependencies from 1 out of 4 recipe files (75.00% success)." in r.output, True, "shell summary", f"{r.output}")
