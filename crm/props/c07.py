"""C07: comment edits change the comment of the line they name, keep its selector, and nothing else."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from crm import docs, domain, notes
from crm.core import Out
from crm.props import c06

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all comment and selector edit sequences on small recipes in lockstep with a model"
RULE = (
    "Every recipe structure up to the node bound x every kind of existing comment x every new comment at every path; "
    "and all sequences of two comment and selector edits (three thorough). A state is a recipe text."
)
ASSUMPTIONS = ["the text in brackets in a trailing comment is the selector, as in conda-build"]
CHUNK = 4

NEW = ["hello", "# hey", "  two # marks ", "#tight", "issue #", "it's \"q\": {x}", "- not a list", "see [win]", "x" * 200, "é"]
BAD = ["", "   ", "\t", "[win]", "[osx] and more", " [unix] "]


def body(comment: str) -> str:
    comment = comment.strip()
    return comment[1:].strip() if comment.startswith("#") else comment


def expected(old: str, new: str) -> str:
    selector, _ = notes.split(old)
    if selector:
        return f"# {selector} {body(new)}"
    return new.strip() if new.strip().startswith("#") else f"# {new.strip()}"


def apply(out: Out, r: RecipeParser, doc: dict, path: str, new: str, trail: list) -> dict | None:
    old = notes.slot_of(doc)[path][-1]
    has = "selector" if notes.split(old)[0] else "comment" if old else "nothing"

    def what() -> str:
        return f"{[*trail, ('comment', path, new)]} on\n{docs.text(doc)}"

    out.expect(r.add_comment(path, new), None, f"returns: on {has}", what())
    out.step()
    out.expect(r.is_modified(), True, f"modified: on {has}", what())
    after = notes.set_comment(doc, path, expected(old, new))
    out.state(docs.text(after))
    out.trace()
    return after if c06.verify(out, r, after, what, f"comment on {has}") else None


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for n in range(1, 6 if thorough else 5):
        for d in domain.all_docs_exact(n):
            yield ["single", d]
    for n in range(1, 4):
        for d in domain.all_docs_exact(n):
            yield ["sequence", d, 3 if thorough and n < 3 else 2]
    for d in domain.big_docs():
        yield ["recipe", d]
    for d in domain.large_docs():
        yield ["recipe", d]
    for c in domain.COMMENTS:
        yield ["read", c]


def check(case: Any, out: Out) -> None:
    kind, d = case[0], case[1]
    out.outcome(kind)
    if kind == "single":
        paths = list(notes.slot_of(d))
        for p in paths:
            for start in c06.STARTS:
                doc = c06.decorate(d, p, start)
                text = docs.text(doc)
                for new in NEW:
                    # A comment that names a selector becomes one when there is no other
                    if "[" in new and notes.split(start)[0]:
                        continue
                    out.nt(text, p, new)
                    apply(out, RecipeParser(text), doc, p, new, [])
        _errors(out, c06.decorate(d, paths[0], "# [osx]"))
    elif kind == "sequence":
        paths = list(notes.slot_of(d))
        for start in (d, c06.decorate(d, paths[0], "# [unix] note")):
            ops: list[Any] = [("comment", p, c) for p in paths for c in NEW[:2]]
            ops += list(c06.edits(paths, c06.SELECTORS[:1]))
            text = docs.text(start)
            for seq in itertools.product(ops, repeat=case[2]):
                if not any(o[0] == "comment" for o in seq):
                    continue
                r = RecipeParser(text)
                doc: dict | None = start
                out.nt(text, seq)
                for i, op in enumerate(seq):
                    if op[0] == "comment":
                        doc = apply(out, r, doc, op[1], op[2], list(seq[:i]))
                    else:
                        doc = c06.apply(out, r, doc, op, list(seq[:i]))
                    if doc is None:
                        break
    elif kind == "recipe":
        text = docs.text(d)
        for p in notes.slot_of(d):
            out.nt(text, p)
            apply(out, RecipeParser(text), d, p, NEW[0], [])
    else:
        _read(out, d)


def _read(out: Out, comment: str) -> None:
    """The tables, for a comment next to every scalar in every position."""
    for text, value in domain.SCALARS:
        for _, build, _ in (domain.POSITIONS if value is not None else []) + domain.ITEM_POSITIONS:
            doc = domain.v(build(["s", text, value], comment))
            out.nt(text, comment)
            c06.verify(out, RecipeParser(docs.text(doc)), doc, lambda: "reading", "reading")
    for val in (["e"], ["b", "|", ["l1", "l2"]], ["b", ">-", ["# no", "l2"]]):
        for _, build, _ in domain.POSITIONS:
            doc = domain.v(build(val, comment))
            c06.verify(out, RecipeParser(docs.text(doc)), doc, lambda: "reading", "reading")


def _errors(out: Out, doc: dict) -> None:
    text = docs.text(doc)
    r = RecipeParser(text)
    known = notes.slot_of(doc)
    for p in [q for p in known for q in (p + "/nope", p + "x", p + "/9") if q not in known] + ["/nope", "/0"]:
        c06._raises(out, KeyError, lambda: r.add_comment(p, "x"), "add_comment missing path", f"{p} in\n{text}")
    for p in known:
        for bad in BAD:
            c06._raises(out, ValueError, lambda: r.add_comment(p, bad), "add_comment malformed", f"{bad!r} at {p} in\n{text}")
    out.expect(r.is_modified(), False, "errors: modified", f"failed edits of\n{text}")
    c06.verify(out, r, doc, lambda: "failed edits", "errors")
