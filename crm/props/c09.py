"""C09: a recipe knows whether it was changed, and its difference to the original, its hash and equality are about its text."""

from __future__ import annotations

import hashlib
import itertools
import re
from typing import Any, Iterator

from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str
from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from crm import docs, domain
from crm.core import Out

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "all sequences of edits, failing edits and reads up to a depth on the real parser; the difference is applied to the original and compared"
RULE = "All sequences of up to 3 (4 thorough) operations out of 22 on each of the recipes, the small documents with one edit each, and all pairs of the states reached. Non-trivial: distinct (recipe, sequence)."
ASSUMPTIONS = ["the difference is in the unified format, with line numbers as in `diff -u`"]
CHUNK = 4
CASE_TIMEOUT_S = 300

TEXTS = {
    "formatted": '{% set a = 1 %}\n{% set b = "x" %}\n\npackage:\n  name: p\n\nbuild:\n  number: 0  # [win]\n  script:\n    - m\n    - n\n\nrequirements:\n  host:\n    - h\n\nabout:\n  summary: é s\n',
    # render() lays this out anew
    "loose": '# top\n{% set a = 1 %}\npackage:\n  name:   "p"\nbuild:\n\n  number: 0 # [win]\n  script:\n    - m  \n    - n\nrequirements:\n  host: [h]\nabout:\n  summary: x\n  description: |\n    l1\n\n    l2',
    "v1": "schema_version: 1\n\ncontext:\n  a: 1\n  b: x\n\npackage:\n  name: p\n\nbuild:\n  number: 0\n  script:\n    - m\n    - n\n\nrequirements:\n  host:\n    - h\n",
    "dashes": "package:\n  name: p\nbuild:\n  number: 0\n  script:\n    - --- x\n    - +++ y\n    - '@@ -1 +1 @@'\nrequirements:\n  host:\n    - h\n",
}

#### Operations: (name, function, whether it is meant to fail or only read) ####


def dep(spec: str, path: str = "/requirements/host/0") -> Dependency:
    return Dependency("p", path, DependencySection.HOST, dependency_data_from_str(spec))


EDITS: list[tuple[str, Any]] = [
    ("number 1", lambda r: r.patch({"op": "replace", "path": "/build/number", "value": 1})),
    ("number 0", lambda r: r.patch({"op": "replace", "path": "/build/number", "value": 0})),
    ("add", lambda r: r.patch({"op": "add", "path": "/build/script/-", "value": "--- k"})),
    ("first", lambda r: r.patch({"op": "add", "path": "/build/script/0", "value": "+++ k"})),
    ("remove", lambda r: r.patch({"op": "remove", "path": "/build/script/0"})),
    ("move", lambda r: r.patch({"op": "move", "from": "/build", "path": "/extra"})),
    ("search", lambda r: r.search_and_patch("p", {"op": "replace", "value": "q"})),
    ("set", lambda r: r.set_variable("a", 2)),
    ("del", lambda r: r.del_variable("a")),
    ("selector", lambda r: r.add_selector("/package/name", "[osx]", SelectorConflictMode.REPLACE)),
    ("no selector", lambda r: r.remove_selector("/build/number")),
    ("comment", lambda r: r.add_comment("/package/name", "@@ -1 +1 @@")),
    ("dependency", lambda r: r.add_dependency(dep("new"))),
    ("drop", lambda r: r.remove_dependency(dep("h"))),
]
OTHERS: list[tuple[str, Any]] = [
    ("failing patch", lambda r: r.patch({"op": "remove", "path": "/nope"})),
    ("failing test", lambda r: r.patch({"op": "test", "path": "/package/name", "value": "zzz"})),
    ("passing test", lambda r: r.patch({"op": "test", "path": "/package/name", "value": "p"})),
    ("wrong selector", lambda r: r.add_selector("/build/number", "win")),
    ("missing comment", lambda r: r.add_comment("/nope", "x")),
    ("missing variable", lambda r: r.del_variable("zzz")),
    ("bad dependency", lambda r: r.add_dependency(dep("h", "/nope/host/0"), dep_mode=DependencyConflictMode.IGNORE)),
    ("reads", lambda r: _read(r)),
]
ALL = EDITS + OTHERS


def _read(r: Any) -> None:
    r.get_value("/package", sub_vars=True)
    r.get_value("/build/script", "d")
    r.find_value("m")
    r.list_value_paths()
    r.render_to_object(True)
    r.get_comments_table()
    r.get_selector_paths("[win]")
    r.get_variable_references("a")
    r.get_all_dependencies()
    r.get_package_paths()
    r.search("p", include_comment=True)
    str(r)
    r.diff()
    hash(r.calc_sha256())


def patch_text(old: list[str], diff: str) -> list[str] | None:
    """The old lines with a unified difference applied; None if it does not fit."""
    lines = diff.split("\n")
    new: list[str] = []
    at, i = 0, 0
    started = False
    want = [0, 0]
    while i < len(lines):
        l = lines[i]
        i += 1
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
        if not any(want) and m:
            started = True
            start = int(m[1]) - (1 if m[2] != "0" else 0)
            want = [int(m[2] or 1), int(m[4] or 1)]
            if start < at:
                return None
            new += old[at:start]
            at = start
            if len(new) != int(m[3]) - (1 if m[4] != "0" else 0):
                return None
        elif not any(want):
            if l and not (not started and l.startswith(("--- ", "+++ "))):
                return None
        elif l == "":
            continue
        else:
            if l[0] in " -":
                if at >= len(old) or old[at] != l[1:]:
                    return None
                at += 1
                want[0] -= 1
            if l[0] in " +":
                new.append(l[1:])
                want[1] -= 1
            if l[0] not in " +-" or min(want) < 0:
                return None
    return None if any(want) else new + old[at:]


def cases(tier: str) -> Iterator[Any]:
    for name in TEXTS:
        for i in range(len(ALL)):
            for j in range(len(ALL)):
                yield ["sequences", name, i, j, 1 if tier == "quick" else 2]
        yield ["pairs", name]
    for n in range(1, 5):
        yield ["documents", n]
    yield ["types"]


def run(name: str, seq: tuple[int, ...], out: Out) -> RecipeParserDeps:
    text = TEXTS[name]
    r = RecipeParserDeps(text)
    first = r.render()
    modified = False
    names = [ALL[i][0] for i in seq]
    touched = False
    for i in seq:
        before = r.render()
        try:
            ALL[i][1](r)
        except (KeyError, ValueError, Exception) as e:  # pylint: disable=broad-exception-caught
            out.outcome(type(e).__name__)
        after = r.render()
        out.step()
        modified = modified or after != before
        what = f"{names} on\n{text}"
        if i >= len(EDITS):
            out.expect(after, before, f"changes: {ALL[i][0]}", what)
        if after != before:
            out.expect(r.is_modified(), True, f"modified: {ALL[i][0]}", f"{ALL[i][0]}, in {what}")
        # Edits that set what there is may count as modifications
        touched = touched or i < len(EDITS)
        if not touched:
            out.expect(r.is_modified(), False, f"not modified: {ALL[i][0]}", f"{ALL[i][0]}, in {what}")
    compare(r, text, first, f"{names} on\n{text}", out)
    return r


def compare(r: Any, text: str, first: str, what: str, out: Out) -> None:
    shown, diff = r.render(), r.diff()
    out.state(shown)
    out.trace()
    if not r.is_modified():
        out.expect(diff, "", "difference of nothing", what)
        out.expect(shown, first, "render", what)
    else:
        got = patch_text(text.splitlines(), diff)
        out.expect(got, shown.splitlines(), "difference", f"the original with the difference\n{diff}\napplied, {what}")
        if shown != text:
            out.expect([l for l in diff.splitlines() if l][:2], ["--- original", "+++ current"], "header", f"difference after {what}")
    out.expect(r.calc_sha256(), hashlib.sha256(shown.encode()).hexdigest(), "hash", f"hash after {what}")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "sequences":
        _, name, i, j, depth = case
        if i == j == 0:
            run(name, (), out)
        if j == 0:
            run(name, (i,), out)
        for rest in itertools.chain.from_iterable(itertools.product(range(len(ALL)), repeat=k) for k in range(depth + 1)):
            out.nt(name, i, j, rest)
            run(name, (i, j, *rest), out)
    elif kind == "pairs":
        _pairs(case[1], out)
    elif kind == "documents":
        for d in domain.all_docs_exact(case[1]):
            text = docs.text(d)
            for value in (None, 3, "new", ["x", {"y": 1}], {"k": "v"}):
                r = RecipeParser(text)
                first = r.render()
                out.nt(text, repr(value))
                for path in r.list_value_paths()[:2] or [None]:
                    if path is None:
                        continue
                    try:
                        r.patch({"op": "replace", "path": path, "value": value})
                    except Exception:  # pylint: disable=broad-exception-caught
                        pass
                    compare(r, text, first, f"replacing {path} by {value!r} in\n{text}", out)
    else:
        for cls, x in itertools.product((RecipeReader, RecipeParser, RecipeParserDeps, RecipeParserConvert), (None, 3, "text", TEXTS["formatted"], object(), {"a": 1})):
            out.nt(cls.__name__, type(x).__name__)
            try:
                got: Any = cls(TEXTS["formatted"]) == x
            except TypeError:
                got = TypeError
            out.expect(got, TypeError, "other types", f"{cls.__name__} == {x!r}")


def _pairs(name: str, out: Out) -> None:
    """Equality is that of the text, whatever the way to it and the class."""
    states: list[tuple[str, Any]] = [("nothing", run(name, (), out))]
    for k in (1, 2):
        for seq in itertools.product(range(len(ALL)), repeat=k):
            if k == 2 and (seq[0] * 5 + seq[1]) % 4:
                continue
            states.append((str([ALL[i][0] for i in seq]), run(name, seq, out)))
    texts = {r.render() for _, r in states}
    others = [(c.__name__, c(t)) for t in sorted(texts)[:8] for c in (RecipeReader, RecipeReaderDeps, RecipeParser, RecipeParserDeps, RecipeParserConvert)]
    rendered = {id(r): r.render() for _, r in [*states, *others]}
    for (a, r), (b, s) in itertools.product([*states[:40], *others], [*states, *others]):
        out.nt(name, a, b)
        same = rendered[id(r)] == rendered[id(s)]
        out.expect((r == s, r != s), (same, not same), "equality", f"{a} and {b} of {name}:\n{rendered[id(r)]}\n{rendered[id(s)]}")
    v0, v1 = RecipeParser("package:\n  name: a\n"), RecipeParser("schema_version: 1\n\npackage:\n  name: a\n")
    v1.patch({"op": "remove", "path": "/schema_version"})
    out.expect(v0 == v1, False, "schema", "recipes with different versions of the schema")
