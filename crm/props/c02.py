"""C02: what the reader reports about a recipe is what the recipe says, at every path."""

from __future__ import annotations

import re
import json
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from crm import docs, domain
from crm.core import Out, same

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration of recipe documents and of every path in them vs a reference data model"
RULE = (
    "Every document of the families in crm/domain.py; on each, every existing path, every near-miss of it, every value. "
    "Non-trivial: distinct (document, path)."
)
ASSUMPTIONS = [
    "a block string read directly by its path, or through render_to_object(), lacks its final newline (the repository's own tests require that)",
    "PyYAML is the reference for what YAML text means",
]
MISSING = ["/nope", "/k0/nope/deeper", "/0", "/k0x"]


def cases(tier: str) -> Iterator[Any]:
    for fam, d in domain.all_families(tier):
        yield ["doc", fam, d]
    for s in FLOW:
        yield ["flow", s]
    leaves = ["x", 1, None, True, "a: b", "it's", "é", "#", "", "😀'", 1.5]
    one: list[Any] = [[a] for a in leaves] + [{"k": a} for a in leaves] + [[], {}]
    two = [[a, b] for a in leaves + one for b in (leaves if tier == "thorough" else leaves[:4])] + [{"k": a, "j": b} for a in leaves + one for b in leaves[:4]]
    for val in one + two + [[x] for x in one] + [{"k": x} for x in one]:
        yield ["element", val]
    for s in ("1", "1.10", "true"):
        yield ["quoted", s]
    yield ["append"]
    yield ["empty-key"]


FLOW = ["[a, b]", "[]", "[1, x]", "{}"]


def is_block(val: list) -> bool:
    return val[0] == "b"


def strip_blocks(val: list) -> Any:
    """The data of `val` with block strings as they are read directly."""
    if val[0] == "b":
        return block_direct(val)
    if val[0] == "m":
        return {e[1]: strip_blocks(e[2]) for e in val[1] if e[0] == "k"}
    if val[0] == "l":
        return [strip_blocks(i[1]) for i in val[1] if i[0] == "i"]
    return docs.value_data(val)


def block_direct(val: list) -> str:
    return yaml.safe_load(f"{val[1]}\n  " + "\n  ".join(val[2]))


def clip(v: Any) -> Any:
    """Direct reads and render_to_object() differ in the newlines at the end of a block string."""
    if isinstance(v, str):
        return v.rstrip("\n")
    if isinstance(v, dict):
        return {k: clip(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clip(x) for x in v]
    return v


def truth(doc: dict, text: str, fam: str) -> Any:
    if fam == "block" or "{{" not in text and "{%" not in text:
        return yaml.safe_load(text)
    return docs.data(doc)


def at(data: Any, path: str) -> Any:
    for part in [p for p in path.split("/") if p]:
        data = data[int(part)] if isinstance(data, list) else data[part]
    return data


def has_keep_block(val: Any) -> bool:
    if isinstance(val, list):
        return (len(val) == 3 and val[0] == "b" and "+" in val[1]) or any(has_keep_block(x) for x in val)
    return False


def check(case: Any, out: Out) -> None:
    if case[0] == "flow":
        _flow(case[1], out)
        return
    if case[0] == "element":
        _element(case[1], out)
        return
    if case[0] == "quoted":
        r = RecipeReader(f'a:\n  k: "{case[1]}"\n  j: x\n')
        out.expect(r.get_value("/a/k"), case[1], "quoted-direct", "a quoted string reads as another type")
        out.expect(r.render_to_object(), {"a": {"k": case[1], "j": "x"}}, "quoted-object", "a quoted string reads as another type")
        got = r.get_value("/a")
        out.expect(got, {"k": case[1], "j": "x"}, f'quoted-in-section:"{case[1]}"', "reading the section changes the type")
        return
    if case[0] == "empty-key":
        out.expect(RecipeReader("a:\n  k:\n").get_value("/a/k"), None, "empty-key-direct", "value of an empty key")
        return
    if case[0] == "append":
        _append(out)
        return
    _, fam, d = case
    text = docs.text(d)
    data = truth(d, text, fam)
    r = RecipeReader(text)
    lines = docs.lines(d)
    out.outcome(fam)
    out.sample(text[:200])

    out.expect(same(r.get_value("/"), data), True, f"root:{fam}", f"get_value('/') is {r.get_value('/')!r}, not {data!r}")
    want_obj = strip_blocks(["m", d["root"]])
    got_obj = r.render_to_object()
    out.expect(same(clip(got_obj), clip(want_obj)), True, f"object:{fam}", f"render_to_object() is {got_obj!r}, not {want_obj!r}")
    out.expect(list(got_obj), list(want_obj), f"object-order:{fam}", "order of the sections")

    leaves = docs.leaf_paths(d)
    out.expect(r.list_value_paths(), leaves, f"paths:{fam}", "list_value_paths()")
    out.expect(
        r.get_schema_version(), SchemaVersion.V1 if d["v"] == 1 else SchemaVersion.V0, f"schema:{fam}", "schema version"
    )
    out.expect(r.is_multi_output(), "outputs" in data, f"multi:{fam}", "is_multi_output()")
    outputs = data.get("outputs") or []
    out.expect(r.get_package_paths(), ["/"] + [f"/outputs/{i}" for i in range(len(outputs))], f"pkgs:{fam}", "get_package_paths()")
    out.expect(r.is_modified(), False, f"modified:{fam}", "reading modified the recipe")

    for path, _, val, _ in lines:
        out.nt(text, path)
        out.expect(r.contains_value(path), True, f"contains:{fam}", f"contains_value({path!r})")
        out.expect(r.contains_value(path + "/"), True, f"contains-slash:{fam}", f"contains_value({path!r} + '/')")
        if val[0] == "e":
            # Reading the value of an empty key directly is a known finding, see below.
            continue
        if val[0] == "b":
            want = clip(block_direct(val))
        elif has_keep_block(val):
            want = clip(at(data, path))
        else:
            want = at(data, path)
        loose = val[0] == "b" or has_keep_block(val)
        got = r.get_value(path)
        got = clip(got) if loose else got
        out.expect(same(got, want), True, f"value:{fam}", f"get_value({path!r}) of {text!r} is {got!r}, not {want!r}")
        got = r.get_value(path, default="dflt")
        got = clip(got) if loose else got
        out.expect(same(got, want), True, f"value-default:{fam}", f"get_value({path!r}, default) is {got!r}, not {want!r}")
        # Near misses
        misses = [path + "x", path + "/nope"]
        if val[0] == "l":
            misses.append(f"{path}/{len(at(data, path))}")
            misses.append(f"{path}/{len(at(data, path)) + 7}")
        else:
            misses.append(f"{path}/0")
        if val[0] == "s" and isinstance(val[2], str) and val[2] and "/" not in val[2]:
            misses.append(f"{path}/{val[2]}")
        if val[0] == "m":
            for e in val[1]:
                if e[0] == "k":
                    misses.append(f"{path}/0/{e[1]}")
        for m in misses:
            missing(r, m, fam, out)
    for m in MISSING:
        try:
            at(data, m)
        except (KeyError, IndexError, TypeError, ValueError):
            missing(r, m, fam, out)

    # Finding values
    prims: dict[str, list[str]] = {}
    for path, _, val, _ in lines:
        if val[0] == "s":
            prims.setdefault(repr(val[2]), []).append(path)
        if val[0] == "e":
            prims.setdefault("None", []).append(path)
    for rep, paths in prims.items():
        value = next((v[2] for _, _, v, _ in lines if v[0] == "s" and repr(v[2]) == rep), None)
        out.expect(r.find_value(value), paths, f"find:{fam}", f"find_value({value!r}) in {text!r}")
    for value in (1, True, 1.0, "1", None, 0, False, "", "absent", "k", "s"):
        out.expect(r.find_value(value), prims.get(repr(value), []), f"find-type:{fam}", f"find_value({value!r}) in {text!r}")
    for bad in ([], {}, ["v0"]):
        try:
            r.find_value(bad)  # type: ignore[arg-type]
            out.fail(f"find-collection:{fam}", f"find_value({bad!r}) must raise ValueError")
        except ValueError:
            out.ev()

    # Searching by regular expression
    leafs = [(p, v, c) for p, _, v, c in lines if v[0] == "s"]
    for path, val, cm in leafs:
        shown = val[1]
        rx = "^" + re.escape(shown) + "$"
        want_p = [p for p, v, _ in leafs if v[1] == shown]
        out.expect([p for p in r.search(rx) if p in dict.fromkeys(x[0] for x in leafs)], want_p, f"search:{fam}", f"search({rx!r}) in {text!r}")
        if cm:
            rx = "^" + re.escape(f"{shown}  {cm}") + "$"
            want_p = [p for p, v, c in leafs if v[1] == shown and c == cm]
            out.expect(r.search(rx, include_comment=True), want_p, f"search-comment:{fam}", f"search({rx!r}, True) in {text!r}")
            out.expect(r.search(rx), [], f"search-nocomment:{fam}", f"search({rx!r}) in {text!r}")
    out.expect(r.search("no such text"), [], f"search-none:{fam}", "search() without a match")
    # Reading has not changed anything.
    out.expect(r.is_modified(), False, f"modified2:{fam}", "reading modified the recipe")
    same_text = RecipeReader(text)
    out.expect(r.render(), same_text.render(), f"pure:{fam}", "reading changed the recipe")


def missing(r: RecipeReader, path: str, fam: str, out: Out) -> None:
    out.expect(r.contains_value(path), False, f"contains-missing:{fam}", f"contains_value({path!r})")
    try:
        got = r.get_value(path)
        out.fail(f"missing:{fam}", f"get_value({path!r}) must raise KeyError but is {got!r}")
    except KeyError:
        out.ev()
    for dflt in (None, 0, "x", [], False):
        out.expect(r.get_value(path, default=dflt), dflt, f"default:{fam}", f"get_value({path!r}, {dflt!r})")


def _flow(s: str, out: Out) -> None:
    r = RecipeReader(f"a:\n  k: {s}\n  j: x\n")
    want = yaml.safe_load(s)
    out.expect(same(r.get_value("/a/k"), want), True, f"flow-direct:{s}", f"get_value of {s} is {r.get_value('/a/k')!r}")
    out.expect(r.get_value("/a"), {"k": want, "j": "x"}, f"flow-section:{s}", "get_value of the section")
    out.expect(r.render_to_object(), {"a": {"k": want, "j": "x"}}, f"flow-object:{s}", "render_to_object()")
    out.expect(yaml.safe_load(r.render()), {"a": {"k": want, "j": "x"}}, f"flow-render:{s}", "render()")


def _element(val: Any, out: Out) -> None:
    """Collections in brackets, as values of keys, and as elements of lists."""
    s = json.dumps(val, ensure_ascii=False)
    for text, want in (
        (f"a:\n  k: {s}\n  j: x\n", {"a": {"k": val, "j": "x"}}),
        (f"a:\n  - {s}\n", {"a": [val]}),
        (f"a:\n  - x\n  - {s}  # note\n  - y\n", {"a": ["x", val, "y"]}),
        (f"a:\n  k:\n    - {s}\n    - {s}  # [win]\n  j: x\n", {"a": {"k": [val, val], "j": "x"}}),
    ):
        out.nt(text)
        r = RecipeReader(text)
        written = r.render()
        out.expect(r.get_value("/"), want, "brackets: root", f"get_value('/') of\n{text}")
        out.expect(r.get_value("/a"), want["a"], "brackets: section", f"get_value('/a') of\n{text}")
        out.expect(r.render_to_object(), want, "brackets: object", f"render_to_object() of\n{text}")
        out.expect(yaml.safe_load(written), want, "brackets: render", f"render() of\n{text}")
        out.expect(RecipeReader(written).render(), written, "brackets: again", f"rendering again\n{text}")
        for i in range(len(want["a"])) if isinstance(want["a"], list) else ():
            out.expect(r.get_value(f"/a/{i}"), want["a"][i], "brackets: element", f"get_value('/a/{i}') of\n{text}")


def _append(out: Out) -> None:
    """append_to_path() joins with exactly one `/` whatever the slashes at the seam."""
    for base in ("", "/", "/a", "/a/", "/outputs/0", "/outputs/0/"):
        for ext in ("", "b", "/b", "b/c", "/b/c", "/b/0"):
            want = (base.rstrip("/")) + "/" + ext.lstrip("/")
            out.nt(base, ext)
            out.expect(RecipeReader.append_to_path(base, ext), want, "append", f"append_to_path({base!r}, {ext!r})")
