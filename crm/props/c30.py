"""C30: what a recipe hands out, takes in, or is copied to, is not shared with it."""

from __future__ import annotations

import copy
import itertools
import multiprocessing as mp
import pickle
from typing import Any, Callable, Iterator

from conda_recipe_manager.parser.dependency import dependency_data_render_as_str
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.types import MessageCategory, MessageTable, SentinelType
from crm import docs, domain
from crm.core import Out
from crm.props import c04, c09

ID = "C30"
LEVEL = "model_checking"
TECHNIQUE = "all sequences of edits on a recipe and its copies, and all interleavings of edits on two recipes, each compared with the same edits on a recipe of its own"
RULE = (
    "All single operations and a third of the pairs (thorough: all pairs) out of the pool of C09, then every way of copying, then operations on the copy and on the original; all interleavings of two sequences of 2 "
    "(2 and 3 thorough) operations on two recipes; every reader on every path, with its result changed; every value put in, then changed. Non-trivial: distinct (recipe, operations)."
)
ASSUMPTIONS = ["what a caller can observe: text, difference, flag, paths, values, comments, selectors, variables, dependencies"]
CHUNK = 4
CASE_TIMEOUT_S = 300

TEXTS = {
    **{k: c09.TEXTS[k] for k in ("formatted", "v1")},
    "lists": '{% set a = [1, 2] %}\n{% set b = ["x", "y"] %}\n\npackage:\n  name: p  # [win]\n\nbuild:\n  number: 0  # note\n  script:\n    # in between\n    - m  # [osx]\n    - k: v\n      l:\n        - 1\n        - 2\n\nrequirements:\n  host:\n    - h {{ b }}\n    - g  # [win or osx]\n  run:\n\noutputs:\n  - name: o\n    requirements:\n      run:\n        - r\n\nabout:\n  description: |\n    l1\n    l2\n',
    "context": "schema_version: 1\n\ncontext:\n  a: 1\n  b:\n    - x\n    - y\n  c:\n    d: 1\n\npackage:\n  name: p\n\nbuild:\n  number: 0\n  script:\n    - m\n    - k: v\n      l:\n        - 1\n\nrequirements:\n  host:\n    - h\n    - if: win\n      then: x\n",
}
OPS = c09.ALL


def observe(r: Any) -> Any:
    deps: Any
    try:
        deps = {k: [(d.required_by, d.path, d.type.value, dependency_data_render_as_str(d.data), d.selector and d.selector.render()) for d in v] for k, v in r.get_all_dependencies().items()}
    except Exception as e:  # pylint: disable=broad-exception-caught
        deps = repr(e)
    return (c04.observe(r), deps, r.get_package_paths(), r.get_schema_version().value, type(r).__name__)


def do(r: Any, i: int) -> str:
    try:
        return repr(OPS[i][1](r))
    except Exception as e:  # pylint: disable=broad-exception-caught
        return type(e).__name__


def after(name: str, seq: tuple[int, ...]) -> RecipeParserDeps:
    r = RecipeParserDeps(TEXTS[name])
    for i in seq:
        do(r, i)
    return r


_WANT: dict[Any, Any] = {}


def want(name: str, seq: tuple[int, ...]) -> Any:
    """What a recipe of its own looks like after the operations."""
    key = (name, seq)
    if key not in _WANT:
        _WANT[key] = copy.deepcopy(observe(after(name, seq)))
    return _WANT[key]


def spoil(x: Any, depth: int = 0) -> None:
    """Changes everything that can be changed in a value."""
    if depth > 8:
        return
    if isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
        x["spoiled"] = "spoiled"
    elif isinstance(x, list):
        for v in list(x):
            spoil(v, depth + 1)
        x.reverse()
        x.append("spoiled")
        if depth % 2:
            x.pop(0)
    elif isinstance(x, set):
        x.clear()


def readers(r: Any) -> Iterator[tuple[str, Callable[[], Any]]]:
    paths = r.list_value_paths()
    every = sorted({"/".join(p.split("/")[: k + 1]) or "/" for p in paths for k in range(len(p.split("/")))})
    for p in every:
        yield f"get_value({p})", lambda p=p: r.get_value(p, None)
        yield f"get_value({p}, sub_vars)", lambda p=p: r.get_value(p, None, sub_vars=True)
    yield "render_to_object", r.render_to_object
    yield "render_to_object(True)", lambda: r.render_to_object(True)
    yield "list_value_paths", r.list_value_paths
    yield "get_package_paths", r.get_package_paths
    yield "get_dependency_paths", r.get_dependency_paths
    yield "list_variables", r.list_variables
    for v in r.list_variables():
        yield f"get_variable({v})", lambda v=v: r.get_variable(v)
        yield f"get_variable_references({v})", lambda v=v: r.get_variable_references(v)
    yield "list_selectors", r.list_selectors
    for s in r.list_selectors():
        yield f"get_selector_paths({s})", lambda s=s: r.get_selector_paths(s)
    yield "get_comments_table", r.get_comments_table
    yield "search", lambda: r.search(".")
    yield "find_value", lambda: r.find_value("p")
    yield "get_package_names_to_path", r.get_package_names_to_path
    yield "get_all_dependencies", r.get_all_dependencies


VALUES: list[Any] = [{"k": {"l": [1, {"m": 2}]}}, ["x", {"y": ["z"]}], [], {}, ["q"], {"a": None, "b": []}]
COPIES: list[tuple[str, Callable[[Any], Any]]] = [
    ("deepcopy", copy.deepcopy),
    *[(f"pickle {p}", lambda r, p=p: pickle.loads(pickle.dumps(r, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)],
]


def cases(tier: str) -> Iterator[Any]:
    yield ["sentinel"]
    yield ["processes"]
    yield ["messages"]
    for name in TEXTS:
        for i in range(len(OPS)):
            yield ["copies", name, i, tier == "thorough"]
            yield ["results", name, i]
            for j in range(len(OPS)):
                if tier == "thorough" or name in ("lists", "context"):
                    yield ["interleave", name, i, j, 3 if tier == "thorough" else 2]
        yield ["arguments", name]
    for n in range(1, 6 if tier == "thorough" else 5):
        yield ["documents", n]
    for i in range(len(list(domain.big_docs()))):
        yield ["big", i]


def results(make: Callable[[], Any], what: str, out: Out) -> None:
    r = make()
    before = copy.deepcopy(observe(r))
    for name, read in readers(r):
        try:
            got = read()
        except Exception:  # pylint: disable=broad-exception-caught
            continue
        out.step()
        again = copy.deepcopy(got)
        spoil(got)
        key = name.split("(")[0]
        try:
            out.expect(read(), again, f"result: {key}", f"{name} after its result was changed, {what}")
        except (KeyError, ValueError) as e:
            out.fail(f"result: {key}", f"{name} raises {e!r} after its result was changed, {what}")
        if name.startswith(("get_variable(", "get_value(/,", "get_value(/)", "render", "get_comments", "get_all")):
            if not out.expect(observe(r), before, f"result changes the recipe: {key}", f"after the result of {name} was changed, {what}"):
                r = make()
    out.trace()
    out.expect(observe(r), before, "results change the recipe", f"after all results were changed, {what}")


def copies(make: Callable[[], Any], expected: Any, what: str, out: Out) -> list[tuple[str, Any]]:
    made = []
    for name, how in COPIES:
        r = make()
        c = how(r)
        out.step()
        out.expect(observe(c), expected, f"copy: {name.split()[0]}", f"{name} of {what}")
        out.expect((c == r, c is r, r == c), (True, False, True), f"equality: {name.split()[0]}", f"{name} of {what}")
        out.expect(observe(r), expected, f"original: {name.split()[0]}", f"after {name} of {what}")
        try:
            c.get_value("/no/such/path")
            out.fail("default", f"{name}: get_value of a missing path does not raise, {what}")
        except KeyError:
            pass
        try:
            c.get_variable("no such variable")
            out.fail("default", f"{name}: get_variable of a missing variable does not raise, {what}")
        except KeyError:
            pass
        made.append((name, c))
        out.trace()
    return made


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "results":
        _, name, i = case
        out.nt("results", name, i)
        out.state(name, i)
        results(lambda: after(name, (i,)), f"after {OPS[i][0]} on\n{TEXTS[name]}", out)
    elif kind == "copies":
        _copies(case, out)
    elif kind == "interleave":
        _interleave(case, out)
    elif kind == "arguments":
        _arguments(case[1], out)
    elif kind == "documents":
        for d in domain.all_docs_exact(case[1]):
            e = c04.decorated(d)
            text = docs.text(e)
            out.state(text)
            out.nt(text)
            results(lambda: RecipeParserDeps(text), f"on\n{text}", out)
            copies(lambda: RecipeParserDeps(text), copy.deepcopy(observe(RecipeParserDeps(text))), text, out)
    elif kind == "big":
        text = docs.text(list(domain.big_docs())[case[1]])
        out.state(text)
        out.nt(text)
        results(lambda: RecipeParserDeps(text), f"on\n{text}", out)
        copies(lambda: RecipeParserDeps(text), copy.deepcopy(observe(RecipeParserDeps(text))), text, out)
    elif kind == "processes":
        _processes(out)
    elif kind == "messages":
        _tables(out)
    else:
        s = SentinelType()
        for name, how in [("new", lambda x: SentinelType()), ("copy", copy.copy), *COPIES]:
            out.nt("sentinel", name)
            out.expect(how(s) is s, True, "sentinel", f"{name} of the sentinel is the sentinel")
            out.expect(how([s, {"k": s}])[0] is s if name not in ("new", "copy") else True, True, "sentinel", f"{name} of a list with the sentinel")


def _copies(case: Any, out: Out) -> None:
    _, name, i, deep = case
    for seq in [(i,), *[(i, j) for j in range(len(OPS)) if deep or (i + j) % 3 == 0]]:
        what = f"the recipe after {[OPS[k][0] for k in seq]} on\n{TEXTS[name]}"
        out.nt("copies", name, seq)
        out.state(name, seq)
        expected = want(name, seq)
        copies(lambda: after(name, seq), expected, what, out)
        for how in (COPIES[0], COPIES[-1]):
            for k in range(len(OPS)):
                if not deep and len(seq) > 1 and (i + seq[-1] + k) % 4:
                    continue
                r = after(name, seq)
                c = how[1](r)
                got = do(c, k)
                out.step(2)
                out.trace(2)
                then = want(name, (*seq, k))
                out.expect(observe(c), then, "edited copy", f"{OPS[k][0]} on a {how[0]} of {what}")
                if not out.expect(observe(r), expected, "edit of a copy changes the original", f"{OPS[k][0]} on a {how[0]} of {what}"):
                    continue
                out.expect(do(r, k), got, "edited copy: result", f"{OPS[k][0]} on the original and the {how[0]} of {what}")
                out.expect(observe(r), then, "edited original", f"{OPS[k][0]} on the original after its {how[0]} was edited, {what}")
                c = how[1](r)
                do(r, (k + 1) % len(OPS))
                out.expect(observe(c), then, "edit of the original changes a copy", f"{OPS[(k + 1) % len(OPS)][0]} on {what}")


def _interleave(case: Any, out: Out) -> None:
    """Operations on two recipes of the same text do not affect each other, in whatever order they come."""
    _, name, i, j, n = case
    if n == 2:
        seconds = [(j, (i + j) % len(OPS))]
        firsts = [(i, j), (i, (i + 2 * j + 1) % len(OPS))]
    else:
        seconds = [(j, k, (i + j + k) % len(OPS)) for k in range(len(OPS))]
        firsts = [(i, j)]
    for a, b in itertools.product(firsts, seconds):
        for where in itertools.combinations(range(len(a) + len(b)), len(a)):
            r, s = RecipeParserDeps(TEXTS[name]), RecipeParserDeps(TEXTS[name])
            x, y = list(a), list(b)
            out.nt(name, a, b, where)
            for t in range(len(a) + len(b)):
                do(*((r, x.pop(0)) if t in where else (s, y.pop(0))))
                out.step()
                out.state(name, a[: len(a) - len(x)], b[: len(b) - len(y)])
            out.trace()
            what = f"{[OPS[k][0] for k in a]} on one at {where}, {[OPS[k][0] for k in b]} on another recipe\n{TEXTS[name]}"
            out.expect(observe(r), want(name, a), "recipes affect each other", what)
            out.expect(observe(s), want(name, b), "recipes affect each other", what)


def _arguments(name: str, out: Out) -> None:
    r = RecipeParserDeps(TEXTS[name])
    paths = r.list_value_paths()
    targets = [(op, p) for p in paths for op in ("add", "replace")] + [("add", "/new"), ("add", "/build/script/-"), ("add", "/build/script/0"), ("replace", "/build"), ("replace", "/build/script")]
    for value in VALUES:
        for op, path in targets:
            r = RecipeParserDeps(TEXTS[name])
            v = copy.deepcopy(value)
            patch = {"op": op, "path": path, "value": v}
            try:
                r.patch(patch)
            except Exception as e:  # pylint: disable=broad-exception-caught
                out.outcome(type(e).__name__)
                continue
            out.nt("argument", name, op, path, repr(value))
            out.step()
            before = copy.deepcopy(observe(r))
            spoil(v)
            patch.clear()
            out.trace()
            out.expect(observe(r), before, "argument of patch", f"after the value {value!r} of {op} {path} was changed, on\n{TEXTS[name]}")
    for value in ([1, 2], ["a", "b"], []):
        r = RecipeParserDeps(TEXTS[name])
        v = copy.deepcopy(value)
        try:
            r.set_variable("b", v)
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.outcome(type(e).__name__)
            continue
        before = copy.deepcopy(observe(r))
        spoil(v)
        out.step()
        out.expect(observe(r), before, "argument of set_variable", f"after the value {value!r} was changed, on\n{TEXTS[name]}")
    # Copies made by a patch are not shared either
    for src, dst in (("/build/script", "/new"), ("/build", "/build2"), ("/requirements", "/other"), ("/build/script/1", "/build/script/0")):
        for change in ({"op": "add", "path": "{}/-", "value": "n"}, {"op": "add", "path": "{}/number", "value": 9}, {"op": "replace", "path": "{}/script/0", "value": "n"}, {"op": "replace", "path": "{}/k", "value": "n"}, {"op": "replace", "path": "{}/0", "value": "n"}, {"op": "remove", "path": "{}/0"}, {"op": "remove", "path": "{}/host"}):
            for at, other in ((src, dst), (dst, src)):
                if dst == "/build/script/0":
                    at, other = ("/build/script/0", "/build/script/2") if at == dst else ("/build/script/2", "/build/script/0")
                r = RecipeParserDeps(TEXTS[name])
                if not r.patch({"op": "copy", "from": src, "path": dst}):
                    continue
                kept = copy.deepcopy(r.get_value(other, None))
                p = {**change, "path": change["path"].format(at)}
                done = r.patch(p)
                out.step()
                out.nt("copy", name, src, dst, repr(p))
                out.expect(r.get_value(other, None), kept, "copy by a patch", f"{p} ({done}) after copying {src} to {dst}, on\n{TEXTS[name]}")
                out.expect(RecipeParserDeps(r.render()).get_value(other, None), kept, "copy by a patch", f"as written: {p} ({done}) after copying {src} to {dst}, on\n{TEXTS[name]}")


def _there(r: Any) -> tuple[Any, Any, str]:
    """Runs in another process."""
    seen = observe(r)
    do(r, 0)
    return seen, r, "" if SentinelType() is SentinelType() else "two sentinels"


def _processes(out: Out) -> None:
    for method in ("fork", "spawn"):
        with mp.get_context(method).Pool(1) as pool:
            for name in TEXTS:
                for seq in ((), (2,), (5,), (9,)):
                    out.nt(method, name, seq)
                    r = after(name, seq)
                    seen, back, problem = pool.apply(_there, (r,))
                    out.step()
                    out.trace()
                    what = f"{method}: the recipe after {[OPS[k][0] for k in seq]} on\n{TEXTS[name]}"
                    out.expect(seen, want(name, seq), "other process", f"seen there, {what}")
                    out.expect(observe(back), want(name, (*seq, 0)), "other process", f"changed there, {what}")
                    out.expect(observe(r), want(name, seq), "other process", f"here, after a change there, {what}")
                    out.expect(problem, "", "other process", what)


def _tables(out: Out) -> None:
    t, u = MessageTable(), MessageTable()
    for cat in MessageCategory:
        t.add_message(cat, "m")
        got = t.get_messages(cat)
        spoil(got)
        out.nt("messages", cat.value)
        out.expect((t.get_messages(cat), t.get_message_count(cat), u.get_messages(cat)), (["m"], 1, []), "messages", f"{cat} after the list was changed")
        empty = u.get_messages(cat)
        spoil(empty)
        out.expect((u.get_messages(cat), u.get_message_count(cat)), ([], 0), "messages", f"{cat} after the empty list was changed")
