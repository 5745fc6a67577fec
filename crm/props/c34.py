"""C34: what a recipe says about itself (schema version, name, packages), and searches in it."""

from __future__ import annotations

import itertools
import re
from typing import Any, Iterator

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
from crm import docs, domain
from crm.core import Out

ID = "C34"
LEVEL = "exploration"
TECHNIQUE = "all combinations of headers, names and outputs, and all regular expressions of a pool on all documents of the families, vs a reference model"
RULE = (
    "Every combination of schema version (kinds and places), name (kinds and places) and outputs (absent, empty, 1 to 3, with comments); every document of the families in "
    "crm/domain.py x every regular expression. Non-trivial: distinct recipe, or distinct (recipe, expression)."
)
ASSUMPTIONS = ["the text of a value is that in the recipe: with the quotes that it needs; that of a block are its lines; that of no value is null"]
CHUNK = 60
CASE_TIMEOUT_S = 300

REGEXES = ["", ".", "x", "^x$", r"^\d+$", "true|false", "null", "^$", "name", "^k", "k$", "note", "#", r"\[win\]", r"x\s+# note", r"^.*  #", "'", '"', r"\{\{", "(?i)NAME", r"l1\nl2", "(?m)^l2$", "^l1", "l2$", ",", "full", r"\bs\b", "z"]


def leaves(entries: list, path: str) -> Iterator[tuple[str, str, str]]:
    """(path, text of the value, its comment), in the order of the recipe."""
    for e in entries:
        if e[0] != "c":
            yield from _value(e[2], e[3], f"{path}/{e[1]}")


def _value(val: list, comment: str, path: str) -> Iterator[tuple[str, str, str]]:
    if val[0] == "s":
        yield path, "null" if val[2] is None else val[1], comment
    elif val[0] == "e":
        yield path, "null", comment
    elif val[0] == "b":
        yield path, "\n".join(val[2]), ""
    elif val[0] == "m":
        yield from leaves(val[1], path)
    else:
        for i, it in enumerate(it for it in val[1] if it[0] == "i"):
            if it[1][0] == "s":
                yield from _value(it[1], it[2], f"{path}/{i}")
            else:
                yield from leaves(it[1][1], f"{path}/{i}")


def families(tier: str) -> Iterator[tuple[str, dict]]:
    seen: dict[str, int] = {}
    for fam, d in domain.all_families(tier):
        n = seen[fam] = seen.get(fam, 0) + 1
        if tier == "thorough" or fam in ("empty-key", "vars", "v1", "recipe", "comment-kind") or n % 3 == 0:
            yield fam, d


def cases(tier: str) -> Iterator[Any]:
    for place in range(5):
        for n in range(len(NAMES)):
            yield ["self", place, n]
    yield ["join"]
    yield ["none"]
    for fam, d in families(tier):
        yield ["search", d]


#### Facts ####

SCHEMAS: list[tuple[str | None, int]] = [(None, 0), ("0", 0), ("1", 1), ("1  # first", 1), ("2", 0), ("", 0), ("one", 0), ("10", 0)]
# (text, what it is after substitution with the variables)
NAMES: list[tuple[str | None, Any]] = [
    (None, None),
    ("foo", "foo"),
    ("foo  # note", "foo"),
    ('"foo"  # [win]', "foo"),
    ("7", "7"),
    ("1.5", "1.5"),
    ("true", "True"),
    ("{{ n }}", "Bar"),
    ("{{ n|lower }}-x", "bar-x"),
    ("py-{{ n }}{{ m }}", "py-Bar3"),
    ("{{ other }}", "${{ other }}"),
    ("name", "name"),
    ("package", "package"),
]
OUTPUTS: list[tuple[str | None, int]] = [
    (None, 0),
    ("outputs:\n", 0),
    ("outputs:\n  # nothing here\n", 0),
    ("outputs:  # [win]\n  - NAME: a\n", 1),
    ("outputs:\n  # first\n  - NAME: a\n  # second\n  - NAME: b\n    # inside\n    build:\n      number: 1\n  # last\n", 2),
    ("outputs:\n  - NAME: a\n  - NAME: b\n    outputs:\n      - c\n      - d\n  - NAME: c\n", 3),
]


def _self(place: int, n: int, out: Out) -> None:
    name, named = NAMES[n]
    for (schema, version), (outputs, count), first in itertools.product(SCHEMAS, OUTPUTS, (True, False)):
        if schema is None and not first:
            continue
        variables = ('{% set n = "Bar" %}\n{% set m = 3 %}\n\n' if version == 0 else "")
        context = "" if version == 0 else "context:\n  n: Bar\n  m: 3\n\n"
        written = name.replace("{{", "${{") if name is not None and version == 1 else name
        line = "" if written is None else f"  name: {written}\n"
        # Where the name is, and other things with the same keys
        head = [
            f"package:\n{line}  version: 1\n",
            f"package:\n  version: 1\n{line}",
            f"recipe:\n{line}  version: 1\n",
            f"recipe:\n  # the name\n{line}  version: 1\n\npackage:\n  version: 1\n",
            f"build:\n{line}  number: 0\n",
        ][place]
        body = "" if outputs is None else outputs.replace("NAME: a", "name: a").replace("NAME", "name")
        line2 = "" if schema is None else f"schema_version: {schema}".rstrip() + "\n\n"
        text = variables + (line2 if first else "") + context + head + "\n" + body + ("\n" + line2 if not first and line2 else "")
        r = RecipeReader(text)
        out.nt(text)
        what = f"of\n{text}"
        out.expect(r.get_schema_version(), SchemaVersion.V1 if version == 1 else SchemaVersion.V0, "schema version", f"schema version {what}")
        multi = outputs is not None
        out.expect(r.is_multi_output(), multi, "is_multi_output", f"is_multi_output {what}")
        where = 2 if version == 1 and multi else 0
        want = named if where == (0 if place < 2 else 2 if place < 4 else 9) else None
        out.expect(r.get_recipe_name(), want, "name", f"name {what}")
        paths = ["/", *[f"/outputs/{i}" for i in range(count)]]
        out.expect(r.get_package_paths(), paths, "packages", f"get_package_paths() {what}")
        # Packages lead to the values in them
        for p in paths:
            inside = r.get_value(p)
            for key, value in inside.items() if isinstance(inside, dict) else ():
                if value is None:
                    continue
                for k in (key, f"/{key}"):
                    out.expect(r.get_value(RecipeReader.append_to_path(p, k), "missing"), value, "append_to_path", f"{p} and {k} {what}")
                    out.expect(r.get_value(RecipeReader.append_to_path(p + "/" if p != "/" else "", k), "missing"), value, "append_to_path", f"{p}/ and {k} {what}")
        out.expect([r.get_value(RecipeReader.append_to_path(p, "/name"), None) for p in paths[1:]], ["a", "b", "c"][:count], "append_to_path", f"names of the outputs {what}")


def _none(out: Out) -> None:
    for text in ("", "\n", "# nothing\n", "# nothing\n\n# at all", "\n\n\n"):
        for cls in (RecipeReader, RecipeParser, RecipeReaderDeps):
            r = cls(text)
            out.nt(cls.__name__, text)
            got = (r.get_schema_version(), r.is_multi_output(), r.get_recipe_name(), r.get_package_paths(), r.list_value_paths(), r.get_dependency_paths(), r.list_variables(), r.list_selectors(), r.get_comments_table(), r.find_value(None))
            out.expect(got, (SchemaVersion.V0, False, None, ["/"], [], [], [], [], {}, []), "empty recipe", f"{cls.__name__}({text!r})")
            for rx in REGEXES:
                out.expect((r.search(rx), r.search(rx, include_comment=True)), ([], []), "empty recipe", f"search for {rx!r} in {text!r}")


def _join(out: Out) -> None:
    parts = ["", "/", "a", "/a", "a/", "/a/", "a/0", "/a/0", "/outputs/0", "/outputs/0/", "0", "/a//"]
    for base, ext in itertools.product(parts, repeat=2):
        out.nt(base, ext)
        want = (base or "/").rstrip("/") + "/" + ext.lstrip("/") if not base.endswith("//") and not ext.startswith("//") else None
        if want is not None:
            out.expect(RecipeReader.append_to_path(base, ext), want, "join", f"append_to_path({base!r}, {ext!r})")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "self":
        _self(case[1], case[2], out)
    elif kind == "none":
        _none(out)
    elif kind == "join":
        _join(out)
    else:
        d = case[1]
        text = docs.text(d)
        r = RecipeReader(text)
        all_leaves = list(leaves(d["root"], ""))
        for rx, with_comment in itertools.product(REGEXES, (False, True)):
            out.nt(text, rx, with_comment)
            want = [p for p, v, c in all_leaves if re.search(rx, f"{v}  {c}" if with_comment and c else v)]
            for arg in (rx, re.compile(rx)):
                got = r.search(arg, include_comment=with_comment) if with_comment else r.search(arg)
                if not out.expect(got, want, f"search: {'with' if with_comment else 'without'} comments", f"search for {rx!r} {'with' if with_comment else 'without'} comments in\n{text}"):
                    return
        out.expect((r.is_modified(), r.render()), (False, text), "search changes", text)
