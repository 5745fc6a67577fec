"""C04: a patch that fails, is invalid, or only tests leaves no trace; a patch that succeeds is flagged."""

from __future__ import annotations

import copy
from typing import Any, Iterator

from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from crm import docs, domain, rfc6902
from crm.core import Out
from crm.props import c03

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of failing, invalid and test patches on every small commented recipe, before and after an edit"
RULE = (
    "Every recipe structure up to the node bound, with comments and selectors on every line and in every gap, x every "
    "operation x every path and near miss, on an untouched and on an edited recipe; every way of malforming a patch. "
    "Non-trivial: distinct (recipe, patch)."
)
ASSUMPTIONS = ["what a caller can observe: render, diff, is_modified, paths, values, comments, selectors, variables, equality"]
CHUNK = 2


def observe(r: RecipeParser) -> Any:
    return (
        r.render(),
        r.diff(),
        r.is_modified(),
        r.list_value_paths(),
        r.get_comments_table(),
        [(s, r.get_selector_paths(s)) for s in r.list_selectors()],
        [(v, r.get_variable(v), r.get_variable_references(v)) for v in r.list_variables()],
        r.get_value("/", None),
        r.render_to_object(),
        r.calc_sha256(),
    )


def decorated(d: dict) -> dict:
    e = copy.deepcopy(d)
    n = 0
    for s, i in reversed(docs.gaps(e)):
        s.insert(i, ["c", f"# full{n}"])
        n += 1
    for slot in docs.slots(e):
        slot[-1] = f"# [win and py{n}]" if n % 2 else f"# end{n}"
        n += 1
    e["vars"] = [["name", "foo"], ["version", "1.2.3"]]
    return e


BAD: list[Any] = [
    {},
    {"op": "add"},
    {"path": "/k0"},
    {"op": "add", "path": "/k0"},
    {"op": "replace", "path": "/k0"},
    {"op": "test", "path": "/k0"},
    {"op": "move", "path": "/k0"},
    {"op": "copy", "path": "/k0"},
    {"op": "move", "path": "/k0", "value": 1},
    {"op": "copy", "path": "/k0", "value": 1},
    {"op": "add", "path": "/k0", "from": "/k1"},
    {"op": "replace", "path": "/k0", "from": "/k1"},
    {"op": "test", "path": "/k0", "from": "/k1"},
    {"op": "nope", "path": "/k0", "value": 1},
    {"op": "ADD", "path": "/k0", "value": 1},
    {"op": "", "path": "/k0", "value": 1},
    {"op": None, "path": "/k0", "value": 1},
    {"op": ["add"], "path": "/k0", "value": 1},
    {"op": "add", "path": "", "value": 1},
    {"op": "add", "path": None, "value": 1},
    {"op": "add", "path": 7, "value": 1},
    {"op": "add", "path": ["k0"], "value": 1},
    {"op": "remove", "path": ""},
    {"op": "move", "path": "/k0", "from": ""},
    {"op": "move", "path": "/k0", "from": 1},
    {"op": "copy", "path": "/k0", "from": None},
    {"op": "add", "path": "/k0", "value": 1, "extra": 1},
    {"op": "remove", "path": "/k0", "comment": "x"},
    [],
    None,
    "remove",
    [{"op": "remove", "path": "/k0"}],
]


def cases(tier: str) -> Iterator[Any]:
    top = 4 if tier == "thorough" else 3
    for n in range(1, top + 1):
        for d in domain.all_docs_exact(n):
            yield ["ops", d, n <= top - 2]
            yield ["bad", d]
    for i, d in enumerate(domain.big_docs()):
        yield ["big", d]
    for d in domain.large_docs():
        yield ["big", d]
    yield ["search"]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "search":
        _search(out)
        return
    d = decorated(case[1]) if kind != "big" else case[1]
    text = docs.text(d)
    out.state(text)
    data = docs.data(case[1])
    lines = docs.lines(case[1])
    for edited in (False, True):
        prepared = RecipeParser(text)
        if edited:
            prepared.patch({"op": "add", "path": "/edited", "value": "yes"})
        before = observe(prepared)
        out.expect(before[2], edited, "modified flag", f"is_modified() of {'an edited' if edited else 'a fresh'} recipe")
        out.expect(bool(before[1]), edited, "diff", "diff() shows an edit exactly if there is one")
        if kind == "bad":
            for bad in BAD:
                _bad(out, prepared, bad, before, text)
            continue
        if kind == "big":
            todo: Any = (
                o
                for p, _, _, _ in lines
                for o in (
                    {"op": "replace", "path": p + "/nope/x", "value": 1},
                    {"op": "remove", "path": p + "/nope"},
                    {"op": "remove", "path": p + "x"},
                    {"op": "add", "path": p + "/nope/x", "value": 1},
                    {"op": "move", "path": p + "/nope/x", "from": p},
                    {"op": "copy", "path": "/fine", "from": p + "/nope"},
                    {"op": "test", "path": p, "value": "nope"},
                    {"op": "test", "path": p, "value": None},
                )
            )
        else:
            paths = c03.targets(case[1])
            vals = c03.VALS if case[2] else c03.FEW[:3]
            own = [docs.value_data(v) for _, _, v, _ in lines]
            todo = c03.ops(paths, paths, vals + own)
        r = prepared
        seen: list = []
        model = rfc6902.apply(data, {"op": "add", "path": "/edited", "value": "yes"}) if edited else data
        # What should fail comes first, so that it is all seen by the comparisons below.
        for op in sorted(todo, key=lambda o: o["op"] != "test" and _succeeds(model, o)):
            out.step()
            out.nt(text, op, edited)
            if seen and op["op"] != "test" and _succeeds(model, op):
                _compare(out, r, before, "failed operations", seen, text)
                seen = []
            try:
                got = r.patch(copy.deepcopy(op))
            except Exception as e:  # pylint: disable=broad-exception-caught
                out.fail(f"raises: {op['op']}", f"{op} on\n{text}\nraised {e!r}")
                got = False
            if got not in (True, False):
                out.fail("not a bool", f"{op} returned {got!r}")
            out.ev()
            if got and op["op"] != "test":
                seen = []
                # A no-op move is not a modification
                noop = op["op"] == "move" and op["from"] == op["path"]
                out.expect(r.is_modified(), edited or not noop, f"flag after {op['op']}", f"is_modified() after {op} on\n{text}")
                if noop:
                    _compare(out, r, before, f"no-op {op['op']}", op, text)
                    continue
                r = RecipeParser(text)
                if edited:
                    r.patch({"op": "add", "path": "/edited", "value": "yes"})
                continue
            if op["op"] == "test" and kind == "ops":
                try:
                    rfc6902.apply(model, op)
                    want = True
                except rfc6902.PatchFailed:
                    want = False
                out.expect(got, want, "test: returns", f"{op} on\n{text}")
            seen.append(op)
            what = f"{'test' if op['op'] == 'test' else 'failed'} {op['op']}"
            out.ev()
            # All that can be observed is compared at intervals.
            if (r.render(), r.is_modified()) != (before[0], before[2]) or len(seen) == 25:
                if not _compare(out, r, before, what, seen[-25:], text):
                    return
                seen = []
        if r is not None and seen:
            _compare(out, r, before, "failed operations", seen, text)


def _succeeds(model: Any, op: dict) -> bool:
    try:
        rfc6902.apply(model, op)
        return True
    except rfc6902.PatchFailed:
        return False


def _compare(out: Out, r: RecipeParser, before: Any, what: str, op: Any, text: str) -> bool:
    out.ev()
    after = observe(r)
    if after == before:
        return True
    diff = [(a, b) for a, b in zip(before, after) if a != b]
    out.fail(f"{what}: changed", f"{op} failed (or only tested) but changed the recipe\n{text}\n{diff[0]}")
    return False


def _bad(out: Out, r: RecipeParser, bad: Any, before: Any, text: str) -> None:
    out.step()
    out.nt(text, repr(bad))
    for how, call in (("patch", lambda: r.patch(copy.deepcopy(bad))),):
        # `from` next to `value` is not required, but neither is it forbidden by the schema.
        tolerated = isinstance(bad, dict) and bad.get("op") in ("add", "replace", "test") and "value" in bad and "extra" not in bad
        try:
            got = call()
            if not tolerated or not isinstance(bad.get("path"), str) or not bad["path"]:
                out.fail(f"accepted: {bad}", f"{how}({bad}) returned {got!r}")
        except JsonPatchValidationException:
            pass
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.fail(f"wrong exception: {bad}", f"{how}({bad}) raised {e!r}")
    _compare(out, r, before, f"invalid {bad}", bad, text)


def _search(out: Out) -> None:
    """search_and_patch() patches every match, and only matches, and reports success only if all succeeded."""
    text = "a:\n  - foo\n  - bar\n  - foo2\n  - k: foo\n    j: zip\nb: foo\nc:\n  d: xfoo  # note\n  e: [foo]\n"
    for regex in ("foo", "^foo$", "nothing", "zip|bar", "note"):
        for cm in (False, True):
            for op in (
                {"op": "replace", "value": "new"},
                {"op": "remove"},
                {"op": "test", "value": "foo"},
                {"op": "add", "value": "new"},
                {"op": "copy", "from": "/b"},
                {"op": "copy", "from": "/zzz"},
            ):
                r = RecipeParser(text)
                found = r.search(regex, cm)
                ref = RecipeParser(text)
                want = True
                for p in reversed(found):
                    want = ref.patch({**op, "path": p}) and want
                mine = copy.deepcopy(op)
                out.step()
                out.nt(regex, cm, op)
                got = r.search_and_patch(regex, mine, cm)
                what = f"search_and_patch({regex}, {op}, {cm})"
                out.expect(got, want, "search_and_patch: returns", what)
                out.expect(r.render(), ref.render(), "search_and_patch: result", what)
                out.expect(mine, op, "search_and_patch: argument", what)
                out.expect(r.is_modified(), ref.is_modified(), "search_and_patch: flag", what)
