"""C06: selector edits change the selector of the line they name, as the mode says, and nothing else."""

from __future__ import annotations

import copy
import itertools
from typing import Any, Callable, Iterator

from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.selector_parser import SelectorParser
from crm import docs, domain, notes
from crm.core import Out, same
from crm.props.c10 import python_says

ID = "C06"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all selector edit sequences on small recipes in lockstep with a reference model"
RULE = (
    "Every recipe structure up to the node bound, with every kind of comment on the edited line and others on all other "
    "lines, x every edit at every path; and all sequences of two edits (three thorough). A state is a recipe text."
)
ASSUMPTIONS = [
    "the text in brackets in a trailing comment is the selector, as in conda-build",
    "REPLACE drops the rest of the comment, and merging with a selector drops the text after it (pinned by upstream tests)",
]
CHUNK = 4

M = SelectorConflictMode
SELECTORS = ["[win]", "[osx or linux-64]", "[not unix and x86]"]
STARTS = ["", "# note", "# [osx]", "# [linux or win]", "# [unix] note", "# it's late [arm64]", "#[win]", "# [not win] a # b"]
MALFORMED = ["", "win", "win]", "[win", "osx [win]", "# [win]"]
Op = tuple[str, str, Any, Any]


def edits(paths: list[str], selectors: list[str]) -> Iterator[Op]:
    for p in paths:
        for s in selectors:
            for m in (M.REPLACE, M.AND, M.OR):
                yield ("add", p, s, m)
        yield ("remove", p, None, None)


def decorate(d: dict, skip: str, comment: str) -> dict:
    """Distinct comments on all lines but the one of path `skip`, which gets `comment`; comment lines in the gaps."""
    e = copy.deepcopy(d)
    n = 0
    for s, i in reversed(docs.gaps(e)):
        s.insert(i, ["c", f"# [win] full{n}"])
        n += 1
    for slot in docs.slots(e):
        slot[-1] = ("# [armv6l]", f"# n{n}", "", f"# [ppc64] n{n}")[n % 4]
        n += 1
    notes.slot_of(e)[skip][-1] = comment
    return e


def platforms_of(selector: str) -> set[str]:
    return python_says(selector[1:-1])


def expected(old: str, op: Op) -> tuple[str, set[str] | None]:
    """The new comment. If a set is given too, the selector in the new comment is `[?]`, and must select that set."""
    kind, _, sel, mode = op
    had, note = notes.split(old)
    if kind == "remove":
        return (note, None) if had else (old, None)
    if mode == M.REPLACE or not old:
        return f"# {sel}", None
    if had:
        a, b = platforms_of(had), platforms_of(sel)
        return "# [?]", (a & b if mode == M.AND else a | b)
    return f"# {sel} {note.replace('#', '', 1).strip()}", None


def run(r: RecipeParser, op: Op, as_object: bool = False) -> Any:
    kind, path, sel, mode = op
    if kind == "remove":
        return r.remove_selector(path)
    if as_object:
        sel = SelectorParser(sel, SchemaVersion.V0)
    if mode == M.REPLACE:
        return r.add_selector(path, sel)
    return r.add_selector(path, sel, mode)


def verify(out: Out, r: RecipeParser, doc: dict, what: Callable[[], str], key: str) -> bool:
    text = docs.text(doc)
    out.ev(2)
    if r.render() != text:
        out.fail(f"text: {key}", f"{what()} gave\n{r.render()}\nnot\n{text}")
        return False
    want = notes.tables(doc)
    got = notes.observed(r, list(want["at"]))
    for name in want:
        out.ev()
        if not same(got[name], want[name]):
            out.fail(f"{name}: {key}", f"{what()}: {name}: got {got[name]} want {want[name]} in\n{text}")
            return False
    for p, s in want["at"].items():
        if r.contains_selector_at_path(p) != (s is not None):
            out.fail(f"contains_selector_at_path: {key}", f"{what()}: {p} in\n{text}")
        if s is not None and not r.contains_selector(s):
            out.fail(f"contains_selector: {key}", f"{what()}: {s} in\n{text}")
    return True


def apply(out: Out, r: RecipeParser, doc: dict, op: Op, trail: list, as_object: bool = False) -> dict | None:
    """Applies the edit to both; gives the model's new document, or None if they differ."""
    old = notes.slot_of(doc)[op[1]][-1]
    had = notes.split(old)[0]
    new, platforms = expected(old, op)
    key = f"{op[0]} {op[3].name if op[3] else ''} on {'selector' if had else 'comment' if old else 'nothing'}"
    before = r.is_modified()

    def what() -> str:
        return f"{[*trail, op]} on\n{docs.text(doc)}"

    got = run(r, op, as_object)
    out.step()
    out.ev(2)
    changed = not (op[0] == "remove" and not had)
    if got != (had if op[0] == "remove" else None):
        out.fail(f"returns: {key}", f"{what()} returned {got!r}")
    if r.is_modified() != (before or changed):
        out.fail(f"modified: {key}", f"{what()}: is_modified() is {r.is_modified()}")
    if platforms is not None:
        text = r.get_selector_at_path(op[1], "[]")
        out.ev()
        if platforms_of(text) != platforms:
            out.fail(f"meaning: {key}", f"{what()}: {text} selects {sorted(platforms_of(text))}, not {sorted(platforms)}")
            return None
        new = new.replace("[?]", text)
    doc = notes.set_comment(doc, op[1], new)
    out.state(docs.text(doc))
    out.trace()
    return doc if verify(out, r, doc, what, key) else None


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for n in range(1, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            yield ["single", d]
    for n in range(1, 4):
        for d in domain.all_docs_exact(n):
            yield ["sequence", d, 3 if thorough and n < 3 else 2, None if thorough or n < 3 else 3]
    for d in domain.big_docs():
        yield ["recipe", d]
    for d in domain.large_docs():
        yield ["recipe", d]
    yield ["malformed"]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "malformed":
        _malformed(out)
        return
    d = case[1]
    if kind == "single":
        paths = list(notes.slot_of(d))
        for p in paths:
            for start in STARTS:
                doc = decorate(d, p, start)
                text = docs.text(doc)
                verify(out, RecipeParser(text), doc, lambda: "reading", "reading")
                for i, op in enumerate(edits([p], SELECTORS)):
                    out.nt(text, op)
                    r = RecipeParser(text)
                    apply(out, r, doc, op, [], as_object=i % 2 == 1)
        _errors(out, decorate(d, paths[0], "# [osx]"))
    elif kind == "sequence":
        for start in (d, decorate(d, list(notes.slot_of(d))[0], "# [unix] note")):
            ops = list(edits(list(notes.slot_of(d)), SELECTORS[:1] + SELECTORS[1:2]))
            text = docs.text(start)
            for seq in itertools.product(ops, repeat=case[2]):
                if case[3] and len({o[1] for o in seq}) < 2 and seq[0][1] != list(notes.slot_of(d))[0]:
                    continue
                r = RecipeParser(text)
                doc: dict | None = start
                out.nt(text, seq)
                for i, op in enumerate(seq):
                    doc = apply(out, r, doc, op, list(seq[:i]))
                    if doc is None:
                        break
    else:
        text = docs.text(d)
        if d["v"] == 0:
            for op in edits(list(notes.slot_of(d)), SELECTORS[1:2]):
                out.nt(text, op)
                apply(out, RecipeParser(text), d, op, [])


def _errors(out: Out, doc: dict) -> None:
    text = docs.text(doc)
    r = RecipeParser(text)
    known = notes.slot_of(doc)
    missing = [q for p in known for q in (p + "/nope", p + "x", p + "/0", p + "/9") if q not in known and q != "/"] + ["/nope", "/0"]
    # A path into a value is not a line
    for p in missing:
        for what, call in (
            ("add_selector", lambda: r.add_selector(p, "[win]")),
            ("remove_selector", lambda: r.remove_selector(p)),
            ("get_selector_at_path", lambda: r.get_selector_at_path(p)),
            ("get_selector_at_path default", lambda: r.get_selector_at_path(p, "[x]")),
        ):
            _raises(out, KeyError, call, f"{what} missing path", f"{what}({p}) on\n{text}")
        out.expect(r.contains_selector_at_path(p), False, "contains_selector_at_path missing path", f"{p} in\n{text}")
    for p, slot in known.items():
        if not notes.split(slot[-1])[0]:
            _raises(out, KeyError, lambda: r.get_selector_at_path(p), "get_selector_at_path no selector", f"{p} in\n{text}")
            _raises(out, ValueError, lambda: r.get_selector_at_path(p, "win"), "get_selector_at_path bad default", f"{p} in\n{text}")
        for bad in MALFORMED:
            for mode in (M.REPLACE, M.AND, M.OR):
                _raises(out, ValueError, lambda: r.add_selector(p, bad, mode), "add_selector malformed", f"{bad!r} at {p} in\n{text}")
    out.expect(r.is_modified(), False, "errors: modified", f"failed edits of\n{text}")
    verify(out, r, doc, lambda: "failed edits", "errors")


def _raises(out: Out, exc: type, call: Callable[[], Any], key: str, message: str) -> None:
    out.ev()
    try:
        got = call()
    except exc:
        return
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"wrong exception: {key}", f"{message} raised {e!r}")
        return
    out.fail(f"no exception: {key}", f"{message} returned {got!r}")


def _malformed(out: Out) -> None:
    """Every pair of selectors out of all shapes with up to two operators, in both merging modes."""
    terms = ["win", "osx", "linux-64"]
    shapes = ["{0}", "not {0}", "{0} or {1}", "{0} and {1}", "not {0} or {1}", "{0} and not {1}", "({0} or {1}) and x86", "not ({0} or {1})", "x86 or {0} and {1}"]
    sels = [f"[{s.format(terms[0], terms[1])}]" for s in shapes] + [f"[{s.format(terms[2], terms[0])}]" for s in shapes[:5]]
    for a, b in itertools.product(sels, repeat=2):
        doc = domain.v([domain.K("k", domain.S("v"), f"# {a}"), domain.K("j", domain.S("w"))])
        for mode in (M.AND, M.OR):
            out.nt(a, b, mode)
            r = RecipeParser(docs.text(doc))
            apply(out, r, doc, ("add", "/k", b, mode), [])
