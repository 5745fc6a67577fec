"""C05: after any history of edits, everything that can be read equals what a fresh parse of the written recipe reads."""

from __future__ import annotations

import copy
import re

from typing import Any, Iterator

from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from crm import docs, domain, notes, rfc6902
from crm.core import Out, same
from crm.props import c03, c04

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all sequences of mixed edits on small recipes, comparing every state with its re-read text"
RULE = (
    "Every recipe structure up to the node bound, decorated with comments, selectors and variables, x all sequences of "
    "patches, selector, comment and variable edits up to the depth bound, breadth-first over distinct states."
)
ASSUMPTIONS = ["strings that YAML reads as another type are left out (known findings of C01)"]
CHUNK = 2
CASE_TIMEOUT_S = 600


def edits(doc_paths: list[str], targets: list[str], vals: list[Any], small: bool) -> Iterator[list]:
    for op in c03.ops(targets, doc_paths, vals, tests=False):
        yield ["patch", op]
    for p in doc_paths:
        yield ["selector", p, "[osx]", "REPLACE"]
        yield ["unselect", p]
        yield ["comment", p, "hello"]
        if not small:
            yield ["selector", p, "[osx]", "OR"]
            yield ["selector", p, "[win]", "AND"]
    yield ["set", "name", "bar"]
    yield ["set", "fresh", 7]
    yield ["del", "version"]


def apply(r: RecipeParser, e: list) -> Any:
    kind = e[0]
    if kind == "patch":
        return r.patch(copy.deepcopy(e[1]))
    if kind == "selector":
        return r.add_selector(e[1], e[2], SelectorConflictMode[e[3]])
    if kind == "unselect":
        return r.remove_selector(e[1])
    if kind == "comment":
        return r.add_comment(e[1], e[2])
    if kind == "set":
        return r.set_variable(e[1], e[2])
    return r.del_variable(e[1])


def clipped(x: Any) -> Any:
    """The newline at the end of a block is read, or not, depending on what follows the block (see C02)."""
    if isinstance(x, dict):
        return {k: clipped(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clipped(v) for v in x]
    return x.rstrip("\n") if isinstance(x, str) else x


def observe(r: RecipeParser, light: bool = False) -> dict[str, Any]:
    paths = r.list_value_paths()
    every = sorted({"/".join(p.split("/")[: i + 1]) for p in paths for i in range(1, len(p.split("/")))})
    values = {p: r.get_value(p, "<none>") for p in (() if light else every)}
    leaves = [v for v in values.values() if not isinstance(v, (list, dict))]
    return {
        "text": r.render(),
        "paths": paths,
        "comments": list(r.get_comments_table().items()),
        "selectors": [(s, r.get_selector_paths(s)) for s in r.list_selectors()],
        "at": [(p, r.get_selector_at_path(p, "[none]"), r.contains_selector_at_path(p), r.contains_value(p)) for p in every],
        "variables": [(v, r.get_variable(v), r.get_variable_references(v)) for v in r.list_variables()],
        "whole": clipped(r.render_to_object()),
        "values": clipped(values),
        "found": [(v, r.find_value(v)) for v in leaves],
        "searched": [r.search("v"), r.search("hello|note", include_comment=True), r.search(""), r.search("^null$")],
        "misc": [r.get_recipe_name(), r.is_multi_output(), r.get_package_paths(), r.get_dependency_paths(), r.get_schema_version()],
        "hash": r.calc_sha256(),
    }


def verify(out: Out, r: RecipeParser, trail: list, text: str, light: bool = False) -> bool:
    mine = observe(r, light)
    fresh = RecipeParser(mine["text"])
    theirs = observe(fresh, light)
    equal = mine["text"] != theirs["text"] or r == fresh
    written = mine["text"]
    out.trace()
    out.ev(len(mine))
    key = " then ".join(t[0] if t[0] != "patch" else t[1]["op"] for t in trail)
    # `null` is written out in full when it was patched in, and left out when it was read. Reading a key without a value
    # gives its name (a known finding of C02).
    if re.search(r": null(?=  #|$)|^ *-$", mine["text"], flags=re.M):
        mine.pop("text"), theirs.pop("text"), mine.pop("hash"), theirs.pop("hash")
    if not light:
        empty = {p for p, v in mine["values"].items() if v is None and theirs["values"].get(p) == p.split("/")[-1]}
        for o in (mine, theirs):
            o["values"] = {p: v for p, v in o["values"].items() if p not in empty}
        leaves = [v for v in theirs["values"].values() if not isinstance(v, (list, dict))]
        for o, from_ in ((mine, r), (theirs, fresh)):
            o["found"] = [(v, from_.find_value(v)) for v in [*leaves, None]]
    for name, value in mine.items():
        if not same(value, theirs[name]):
            out.fail(f"{name}: {key}", f"{trail} on\n{text}\n{name}: has {value}\nbut re-reading\n{written}\ngives {theirs[name]}")
            return False
    if not equal:
        out.fail(f"equal: {key}", f"{trail} on\n{text}: the recipe does not equal its re-read text")
    return True


def decorated(d: dict) -> dict:
    return c04.decorated(d)


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for n in range(1, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            yield ["one", d]
    for n in range(1, 4 if thorough else 3):
        for i, d in enumerate(domain.all_docs_exact(n)):
            yield ["seq", d, 3 if thorough and n == 1 else 2]
    for n in range(2, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            for note in ("# [osx] hello", "# [osx]", "# hello")[: 3 if thorough or n < 4 else 1]:
                yield ["uniform", docs.uniform(d), note]
    big = list(domain.big_docs())
    for d in big if thorough else big[:14] + big[-4:]:
        yield ["recipe", d]
    for d in domain.large_docs():
        yield ["recipe", d]


def check(case: Any, out: Out) -> None:
    kind, d = case[0], case[1]
    out.outcome(kind)
    doc = decorated(d) if kind in ("one", "seq") else d
    if kind == "uniform":
        # Every line has the same value, comment and selector.
        doc = copy.deepcopy(d)
        for slot in docs.slots(doc):
            slot[-1] = case[2]
        doc["vars"] = [["name", "v"], ["version", "v"]]
    text = docs.text(doc)
    lines = list(notes.slot_of(d))
    if kind == "recipe":
        keys = [p for p, k, v, _ in docs.lines(d) if k == "key" and v[0] == "s"]
        items = [p for p, k, _, _ in docs.lines(d) if k != "key"]
        todo: list[list] = [["patch", {"op": o, "path": p, **x}] for p in lines for o, x in (("remove", {}), ("replace", {"value": "n"}))]
        todo += [["patch", {"op": "add", "path": p.rsplit("/", 1)[0] + "/-", "value": {"p": "q"}}] for p in items]
        todo += [["patch", {"op": "move", "path": "/extra2", "from": p}] for p in lines]
        todo += [["patch", {"op": "copy", "path": p, "from": (keys or lines)[-1]}] for p in items]
        todo += [["comment", p, "hello"] for p in lines] if d["v"] == 0 else []
        todo += [["selector", p, "[osx]", "OR"] for p in lines] if d["v"] == 0 else []
        if d["v"] == 0:
            todo += [["set", "name", "bar"], ["set", "fresh", 7], ["del", "version"]]
        else:
            todo = [t for t in todo if not any(str(t[1].get(k, "")).startswith(("/context", "/schema_version")) for k in ("path", "from"))]
        for e in todo:
            r = RecipeParser(text)
            apply(r, e)
            out.step()
            if out.state(r.render()):
                out.nt(r.render())
                verify(out, r, [e], text, light=True)
        return
    vals = c03.FEW if kind == "one" else ["v"] if kind == "uniform" else c03.TWO
    _explore(out, text, [], lines, docs.data(d), vals, case[2] if kind == "seq" else 1)


def _explore(out: Out, text: str, trail: list, lines: list[str], data: Any, vals: list, depth: int) -> None:
    """Depth-first over edits; a state that was already seen with as much depth left is not expanded again."""
    seen: dict[str, int] = {}

    def go(trail: list, data: Any, left: int) -> None:
        paths = [p for p in c03.data_targets(data) if not p.endswith(("/new", "/-"))] if trail else lines
        # Lists in lists are values: nothing in them has a line of its own.
        paths = [p for p in paths if not re.search(r"/\d+/\d+", p)]
        known = set(paths)
        for e in edits([p for p in paths if _exists(data, p)], list(c03.data_targets(data)), vals, bool(trail) or depth > 1):
            if e[0] != "patch" and e[0] not in ("set", "del") and e[1] not in known:
                continue
            after = data
            if e[0] == "patch":
                try:
                    after = rfc6902.apply(data, e[1])
                    ok = True
                except rfc6902.PatchFailed:
                    ok = False
                if not ok:
                    continue
            r = RecipeParser(text)
            for t in trail:
                apply(r, t)
            apply(r, e)
            out.step()
            rendered = r.render()
            if seen.get(rendered, -1) >= left - 1:
                # The same text by another history: only the tables can differ.
                if not verify(out, r, [*trail, e], text):
                    continue
                continue
            seen[rendered] = left - 1
            out.state(rendered)
            out.nt(rendered)
            if verify(out, r, [*trail, e], text) and left > 1:
                go([*trail, e], after, left - 1)

    go(trail, data, depth)


def _exists(data: Any, path: str) -> bool:
    try:
        for t in path.split("/")[1:]:
            data = data[int(t)] if isinstance(data, list) else data[t]
    except (KeyError, IndexError, ValueError, TypeError):
        return False
    return True
