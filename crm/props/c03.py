"""C03: JSON patches do to a recipe what RFC 6902 says."""

from __future__ import annotations

import copy
import itertools
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from crm import docs, domain, rfc6902
from crm.core import Out, same

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of patch operations and operation sequences on every small recipe vs an RFC 6902 model"
RULE = (
    "Every recipe structure up to the node bound x every operation x every existing path, its list ends and near misses x "
    "every value kind; every pair of operations on the smaller structures; every single-line comment position. "
    "Non-trivial: distinct (recipe, operation sequence)."
)
ASSUMPTIONS = [
    "the deviations from the RFC listed in crm/rfc6902.py are intended",
    "PyYAML is the reference for what the written recipe means",
]
CHUNK = 4

VALS: list[Any] = [
    "n", 7, None, True, "a: b", "x # y", 1.5, ["x"], ["x", 2], {"p": "q"}, {"p": "q", "r": False}, {"p": {"q": "r"}},
    {"p": ["q", "r"]}, [{"p": "q"}, "z"], [{"p": "q", "r": ["s"]}], [], {}, "l1\nl2\n", {"p": None}, {"p": []},
    "- x", "",
]  # fmt: skip
FEW: list[Any] = ["n", 7, None, ["x", "y"], {"p": "q", "r": ["s"]}, [{"p": "q"}]]
TWO: list[Any] = ["n", {"p": "q"}, ["x"]]


def targets(doc: dict) -> list[str]:
    out: list[str] = []
    for p, _, v, _ in docs.lines(doc):
        out.append(p)
        if v[0] == "l":
            n = len([i for i in v[1] if i[0] == "i"])
            out += [f"{p}/{n}", f"{p}/{n + 1}", f"{p}/-", f"{p}/new"]
        elif v[0] == "m":
            out += [f"{p}/new", f"{p}/0"]
        elif v[0] == "e":
            out += [f"{p}/new", f"{p}/0", f"{p}/1", f"{p}/-", f"{p}/new/deep"]
        else:
            out += [f"{p}/new", f"{p}/0"]
    return out + ["/new", "/new/deep", "/0", "/-"]


def data_targets(data: Any, path: str = "") -> Iterator[str]:
    """The same, for data (after an operation)."""
    if isinstance(data, dict):
        for k, v in data.items():
            yield f"{path}/{k}"
            yield from data_targets(v, f"{path}/{k}")
        yield f"{path}/new"
    elif isinstance(data, list):
        for i, v in enumerate(data):
            yield f"{path}/{i}"
            yield from data_targets(v, f"{path}/{i}")
        yield f"{path}/-"
        yield f"{path}/{len(data)}"
        yield f"{path}/{len(data) + 1}"


def ops(paths: list[str], sources: list[str], vals: list[Any], tests: bool = True) -> Iterator[dict]:
    for p in paths:
        yield {"op": "remove", "path": p}
        for v in vals:
            yield {"op": "add", "path": p, "value": v}
            yield {"op": "replace", "path": p, "value": v}
            if tests:
                yield {"op": "test", "path": p, "value": v}
    for f in sources:
        for t in paths:
            yield {"op": "copy", "path": t, "from": f}
            yield {"op": "move", "path": t, "from": f}


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for n in range(1, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            yield ["one", d, "all" if n < 3 or (thorough and n == 3) else "few"]
    for n in range(1, 4 if thorough else 3):
        for d in domain.all_docs_exact(n):
            yield ["two", d]
    for n in range(1, 5 if thorough else 4):
        for d in domain.all_docs_exact(n):
            yield ["comments", d]
    for n in range(2, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            yield ["one", docs.uniform(d), "uniform"]
    for d in domain.big_docs():
        yield ["big", d]
    for i, d in enumerate(domain.key_docs()):
        if thorough or i % 10 == 0:
            yield ["one", d, "key"]
    for d in domain.large_docs():
        text = docs.text(d)
        # A string of several lines is put in place as `|`
        if "{" not in text and "|-" not in text:
            parts = 8 if len(text) > 500 else 2
            for part in range(parts):
                yield ["large", d, part, parts]
    for text, value in domain.SCALARS:
        yield ["value", text, value]
    yield ["numeric"]
    yield ["nested"]
    yield ["equal"]
    yield ["texts"]


# Values that are easily taken for one another
ALIKE = [0, 1, False, True, 1.0, "1", "x", None, "", [], {}, [1], [True], [0], [False], [1, 2], [True, 2], [2, 1], [1, [1]], [1, [True]], {"a": 1}, {"a": True}, {"a": [1]}, {"a": [True]}, {"a": {"b": 0}}, {"a": {"b": False}}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, [{"a": 1}], [{"a": True}]]


def _same(a: Any, b: Any) -> bool:
    """JSON equality (RFC 6902, section 4.6)"""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return isinstance(a, bool) == isinstance(b, bool) and bool(a == b)


def _equal(out: Out) -> None:
    """`test` holds for equal values, and for no others."""
    for a in ALIKE:
        # Texts that look like numbers, and empty ones, are not kept as such.
        if a in ("", "1") or a is None:
            continue
        r = RecipeParser("z: 1\n")
        text = f"z: 1, with {a!r} added at /k"
        if not out.expect(r.patch({"op": "add", "path": "/k", "value": copy.deepcopy(a)}), True, "equal: add", text):
            continue
        for b in ALIKE:
            out.trace()
            out.nt(repr(a), repr(b))
            out.expect(r.patch({"op": "test", "path": "/k", "value": copy.deepcopy(b)}), _same(a, b), f"equal: {a!r}, {b!r}", f"test of {b!r} on\n{text}")


def load(r: RecipeParser) -> Any:
    y = yaml.safe_load(r.render())
    return {} if y is None else y


def describe(kinds: dict, op: dict) -> str:
    par = "/".join(op["path"].split("/")[:-1])
    return f"{op['op']} at {kinds.get(op['path'], '-')} in {kinds.get(par, '-') if par else 'root'}"


def step(out: Out, r: RecipeParser, data: Any, op: dict, kinds: dict, text: str, tag: str) -> tuple[bool, Any]:
    """Applies one operation to both, compares, and returns what the model says."""
    try:
        want, ok = rfc6902.apply(data, op), True
    except rfc6902.PatchFailed:
        want, ok = data, False
    what = f"{op} on\n{text}"
    key = f"{tag}{describe(kinds, op)}"
    op_before = copy.deepcopy(op)
    try:
        got = r.patch(op)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"{key}: raises", f"{what} raised {e!r}")
        return ok, None
    out.ev(4)
    if not same(op, op_before):
        out.fail(f"{key}: patch modified", f"{what} modified the patch itself: {op}")
    if got is not ok:
        out.fail(f"{key}: returns", f"{what} returned {got}, the RFC says {ok}")
        return ok, None
    try:
        new = load(r)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"{key}: unreadable", f"{what} made an unreadable recipe: {e!r}")
        return ok, None
    if not same(new, want):
        out.fail(f"{key}: data", f"{what} gives {new!r}, the RFC says {want!r}")
        return ok, None
    if rfc6902.order(new) != rfc6902.order(want):
        out.fail(f"{key}: order", f"{what} gives the order {new!r}, not {want!r}")
    return ok, want


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "numeric":
        for val in ("1.10", "true"):
            r = RecipeParser("a:\n  b: x\n  c: y\n")
            r.patch({"op": "replace", "path": "/a/b", "value": val})
            out.expect(r.get_value("/a/b"), val, "numeric-read", "the value that was put in is another one")
            out.expect(yaml.safe_load(r.render())["a"]["b"], val, f'numeric-text:"{val}"', "the written value is another one")
        return
    if kind == "texts":
        _texts(out)
        return
    if kind == "equal":
        _equal(out)
        return
    if kind == "nested":
        _nested(out)
        return
    if kind == "value":
        _value(case[1], case[2], out)
        return
    d = case[1]
    text = docs.text(d)
    if kind == "big":
        _big(d, text, out)
        return
    data = docs.data(d)
    kinds = {p: v[0] for p, _, v, _ in docs.lines(d)}
    out.state(text)
    if kind == "comments":
        _comments(d, data, kinds, out)
        return
    paths = targets(d)
    if kind in ("one", "large"):
        vals = [FEW[0], FEW[4]] if kind == "large" else VALS if case[2] == "all" else FEW if case[2] == "few" else ["v", {"k0": "v"}]
        own = [docs.value_data(v) for _, _, v, _ in docs.lines(d) if v[0] != "b"]
        r = None
        todo = ops(paths, paths, vals + [o for o in own if o not in vals])
        if kind == "large":
            own_paths = [p for p, _, _, _ in docs.lines(d)]
            ends = [own_paths[0], own_paths[-1], *(p for p in paths if p.endswith("/-"))]
            todo = itertools.chain(
                ops(paths, [], vals + ["x"]),
                ({"op": o, "path": t, "from": f} for o in ("copy", "move") for f in own_paths for t in ends),
                ({"op": o, "path": t, "from": f} for o in ("copy", "move") for t in own_paths for f in ends),
            )
            todo = itertools.islice(todo, case[2], None, case[3])
        for op in todo:
            if r is None:
                r = RecipeParser(text)
            out.nt(text, op)
            out.step()
            seen = out.counters.get("violations_seen", 0)
            ok, _ = step(out, r, data, op, kinds, text, "")
            # A parser that was not changed is used for the next operation.
            if (ok and op["op"] != "test") or out.counters.get("violations_seen", 0) != seen:
                r = None
        return
    # Two operations in a row
    first = [o for o in ops(targets(d), [p for p, _, _, _ in docs.lines(d)], TWO, tests=False)]
    for op1 in first:
        try:
            mid = rfc6902.apply(data, op1)
        except rfc6902.PatchFailed:
            continue
        if _has_null_member(mid):
            continue
        existing = [p for p in data_targets(mid) if not p.endswith(("/new", "/-"))]
        for op2 in ops(list(data_targets(mid)) + ["/new"], existing[:4], TWO[:2], tests=False):
            try:
                if _has_null_member(rfc6902.apply(mid, op2)):
                    continue
            except rfc6902.PatchFailed:
                pass
            out.nt(text, op1, op2)
            out.step(2)
            out.trace()
            r = RecipeParser(text)
            if r.patch(copy.deepcopy(op1)) is not True:
                out.fail(f"two: {describe(kinds, op1)}: first", f"{op1} on\n{text} failed")
                break
            step(out, r, mid, op2, _kinds_of(mid), f"{text}--- after {op1}", f"two: {describe(kinds, op1)}, ")


def _has_null_member(v: Any) -> bool:
    # Lists in lists are only supported as one-line members
    if isinstance(v, list):
        return any(x is None or isinstance(x, list) or _has_null_member(x) for x in v)
    if isinstance(v, dict):
        return any(_has_null_member(x) for x in v.values())
    return False


def _kinds_of(v: Any, path: str = "") -> dict:
    out = {}
    items = v.items() if isinstance(v, dict) else enumerate(v) if isinstance(v, list) else ()
    for k, x in items:
        p = f"{path}/{k}"
        out[p] = "m" if isinstance(x, dict) else "l" if isinstance(x, list) else "e" if x is None else "s"
        out.update(_kinds_of(x, p))
    return out


def _nested(out: Out) -> None:
    """Lists in lists are written on one line."""
    leaves = ["x", 1, None, True, "a: b", "it's", "l1\nl2\n", "\nl1\n\n  l2\n", "  l1\nl2\n", "l1 \nl2\n", "l1\nl2\n\n", "\n", "l1\r\nl2\n", "# l1\n- l2: 3\n", "é", "😀'", "", "{{ x }}", [], {}]
    inner: list[Any] = [[a] for a in leaves] + [[a, b] for a in leaves for b in leaves[:4]] + [[{"k": a}] for a in leaves] + [[[a]] for a in leaves] + [[{"k": [a], "j": a}] for a in leaves]
    for i in inner:
        for base, op, want in (
            ("a:\n  - x\n", {"op": "add", "path": "/a/-", "value": i}, {"a": ["x", i]}),
            ("a:\n  - x\n  - y  # c\n", {"op": "replace", "path": "/a/0", "value": i}, {"a": [i, "y"]}),
            ("a:\n  - x\n  - y  # c\n", {"op": "add", "path": "/a/0", "value": i}, {"a": [i, "x", "y"]}),
            ("a:\n  b: x\n  c: y\n", {"op": "replace", "path": "/a/b", "value": [i, i]}, {"a": {"b": [i, i], "c": "y"}}),
            ("a:\n  - b: x\n    c: y\n", {"op": "add", "path": "/a/0/d", "value": [i]}, {"a": [{"b": "x", "c": "y", "d": [i]}]}),
        ):
            r = RecipeParser(base)
            out.nt(base, op)
            out.step()
            what = f"{op} on\n{base}"
            if not out.expect(r.patch(op), True, "nested: returns", what):
                continue
            out.expect(load(r), want, "nested: text", f"the text after {what}")
            out.expect(r.get_value("/"), want, "nested: value", f"the values after {what}")
            out.expect(RecipeParser(r.render()).get_value("/"), want, "nested: re-read", f"re-reading after {what}")


# Lines of texts; all texts of one to four of these are put in
TEXT_LINES = ["", "x", "  y", "z ", "# c", "- i", "k: v", "\t", "é: \"'"]


def _cut(x: Any) -> Any:
    """Blocks are read without their last line break (pinned by tests)."""
    if isinstance(x, dict):
        return {k: _cut(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_cut(v) for v in x]
    return x.removesuffix("\n") if isinstance(x, str) else x


def _texts(out: Out) -> None:
    """Texts of several lines keep all their lines and spaces."""
    for n in range(1, 5):
        for lines in itertools.product(TEXT_LINES if n < 4 else TEXT_LINES[:5], repeat=n):
            # Without a line break at the end, one is added (pinned by tests).
            text = "\n".join(lines) + "\n"
            for base, op, want in (
                ("a: 1\n", {"op": "add", "path": "/k", "value": text}, {"a": 1, "k": text}),
                ("a:\n  b: x  # c\n  c: y\n", {"op": "replace", "path": "/a/b", "value": text}, {"a": {"b": text, "c": "y"}}),
                ("a:\n  - b: x\n    c: y\n", {"op": "add", "path": "/a/0", "value": {"b": text, "d": text}}, {"a": [{"b": text, "d": text}, {"b": "x", "c": "y"}]}),
                ("a:\n  - b\n", {"op": "replace", "path": "/a/0", "value": text}, {"a": [text]}),
            ):
                r = RecipeParser(base)
                out.nt(base, text)
                out.step()
                what = f"{op} on\n{base}"
                out.expect(r.patch(op), True, "texts: returns", what)
                out.expect(load(r), want, "texts: text", f"the text after {what}")
                out.expect(_cut(RecipeParser(r.render()).render_to_object()), _cut(want), "texts: re-read", f"re-reading after {what}")
                out.expect(RecipeParser(r.render()).render(), r.render(), "texts: stable", f"reading and writing after {what}")


def _value(text: str, value: Any, out: Out) -> None:
    """Every scalar can be put in every kind of place, by every operation, and be tested for."""
    for _, build, path in domain.POSITIONS + domain.ITEM_POSITIONS:
        if "{{" in text and not text.startswith("{{"):
            continue
        base = docs.text(domain.v(build(domain.S("old"), "")))
        for op in ("replace", "add"):
            r = RecipeParser(base)
            out.nt("value", base, op, text)
            out.step()
            # `add` inserts in a list
            if not out.expect(r.patch({"op": op, "path": path, "value": value}), True, f"value {op}: returns", f"{value!r} at {path} of\n{base}"):
                continue
            out.expect(r.get_value(path) if value is not None else None, value, f"value {op}: read", f"{value!r} put at {path} of\n{base}")
            out.expect(r.patch({"op": "test", "path": path, "value": value}), True, f"value {op}: test", f"{value!r} put at {path} of\n{base}")
            out.expect(r.patch({"op": "test", "path": path, "value": [value]}), False, f"value {op}: test other", f"[{value!r}] at {path} of\n{base}")
            want = rfc6902.apply(docs.data(domain.v(build(domain.S("old"), ""))), {"op": op, "path": path, "value": value})
            if "{{" in text:
                if text not in r.render():
                    out.fail(f"value {op}: text", f"{value!r} put at {path} is not in\n{r.render()}")
                continue
            out.expect(load(r), want, f"value {op}: data", f"{value!r} put at {path} of\n{base}")


def _covers(target: str, path: str) -> bool:
    return path == target or path.startswith(target + "/")


def _comments(d: dict, data: Any, kinds: dict, out: Out) -> None:
    """With a comment on every line and in every gap: the comments of lines that are not a target stay where they are."""
    e = copy.deepcopy(d)
    n = 0
    for s, i in reversed(docs.gaps(e)):
        s.insert(i, ["c", f"# full{n}."])
        n += 1
    full = n
    for slot in docs.slots(e):
        slot[-1] = f"# end{n}."
        n += 1
    text = docs.text(e)
    by_line = {"# end" + ln.split("# end")[1]: ln.split("  # end")[0].strip() for ln in text.splitlines() if "# end" in ln}
    lines = docs.lines(e)
    everything = [p for p, _, _, _ in lines]
    for op in ops(everything + [p for p in targets(d) if p.endswith(("/-", "/new"))], everything, ["n", {"p": "q"}], tests=False):
        out.nt(text, op)
        out.step()
        r = RecipeParser(text)
        ok, want = step(out, r, data, op, kinds, text, "comments: ")
        if not ok or want is None:
            continue
        got = r.render().splitlines()
        gone = [op["path"]] if op["op"] in ("remove", "replace") or (op["op"] == "add" and kinds.get(op["path"])) else []
        if op["op"] in ("move", "copy") and op["path"] in kinds:
            gone.append(op["path"])
        if op["op"] == "move":
            gone.append(op["from"])
        for p, _, v, c in lines:
            if not c or any(_covers(g, p) for g in gone):
                continue
            # The first key of a list element shares its line with the element.
            bare = by_line[c]
            found = [ln for ln in got if c in ln]
            out.ev()
            if len(found) != 1 or not found[0].split("  # end")[0].strip().removeprefix("- ").startswith(bare.removeprefix("- ").split(":")[0]):
                out.fail(f"comments: {describe(kinds, op)}: lost", f"{op} on\n{text}moved or lost the comment {c} of {p}: {found}")
        inside = sum(1 for ln in got if "# full" in ln)
        if not gone:
            out.expect(inside, full, f"comments: {describe(kinds, op)}: lines", f"comment lines after {op} on\n{text}")
            rest = [ln.strip() for ln in got if "# full" in ln]
            out.expect(rest, [ln.strip() for ln in text.splitlines() if "# full" in ln], f"comments: {describe(kinds, op)}: line order", f"{op} on\n{text}")


def _big(d: dict, text: str, out: Out) -> None:
    """On realistic recipes: what is put in place of a line is there, and everything else is as it was."""
    before = RecipeParser(text).render().splitlines()
    paths = [p for p, _, _, _ in docs.lines(d)]
    for p, what, v, c in docs.lines(d):
        for op in ({"op": "remove", "path": p}, {"op": "replace", "path": p, "value": "n3w"}):
            r = RecipeParser(text)
            out.nt(text, op)
            out.step()
            if not out.expect(r.patch(op), True, f"big: {op['op']}: returns", f"{op}"):
                continue
            out.expect(r.contains_value(p) if op["op"] == "replace" else True, True, f"big: {op['op']}: gone", f"{op}")
            after = r.render().splitlines()
            # Lines only disappear (and the replaced line changes): the rest is untouched and in order.
            want = [x for x in after if "n3w" not in x]
            i = 0
            extra = []
            for line in want:
                j = next((k for k in range(i, len(before)) if before[k].removeprefix("  ") == line.removeprefix("  ") or _same_line(before[k], line)), None)
                if j is None:
                    extra.append(line)
                else:
                    i = j + 1
            # A list element without its only key.
            extra = [x for x in extra if x.strip() != "-"]
            out.expect(extra, [], f"big: {op['op']} {what}: other lines", f"{op} changed other lines of\n{text}")
            n_inside = sum(1 for q in paths if _covers(p, q))
            lost = len([x for x in before if x.strip()]) - len([x for x in after if x.strip()])
            block = _block_lines(v)
            comment_lines = len(docs.comment_lines({"root": v})) if isinstance(v, list) else 0
            elems = sum(1 for q, w, _, _ in docs.lines(d) if _covers(p, q) and w == "elem")
            most = n_inside - elems + block + comment_lines - (1 if op["op"] == "replace" else 0)
            # What is emptied stays as a key, or as a `-`
            out.ev()
            if not most - 1 <= lost <= most:
                out.fail(f"big: {op['op']} {what}: amount", f"{op} removed {lost} lines, not {most}, from\n{text}")


def _same_line(a: str, b: str) -> bool:
    """A key may become the first key of a list element, or be left without its members."""
    return a.replace("- ", "  ", 1) == b.replace("- ", "  ", 1)


def _block_lines(val: Any) -> int:
    if isinstance(val, list):
        if len(val) == 3 and val[0] == "b":
            return len([x for x in val[2] if x])
        return sum(_block_lines(x) for x in val)
    return 0
