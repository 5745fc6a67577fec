"""Reference model of the comments and selectors on the lines of a recipe (see docs.py for the documents)."""

from __future__ import annotations

import copy
import re
from typing import Any, Optional

from crm import docs

_SELECTOR = re.compile(r"\[.*\]")


def split(comment: str) -> tuple[Optional[str], str]:
    """A trailing comment's selector (with brackets) and the rest, which is a comment of its own."""
    m = _SELECTOR.search(comment)
    if not m:
        return None, comment
    rest = " ".join((comment[: m.start()] + " " + comment[m.end() :]).replace("#", " ", 1).split())
    return m[0], f"# {rest}" if rest else ""


def slot_of(doc: dict) -> dict[str, list]:
    """path -> the entry or item that holds the trailing comment of the path's line."""
    out: dict[str, list] = {}

    def ents(entries: list, path: str) -> None:
        for e in entries:
            if e[0] == "k":
                p = f"{path}/{e[1]}"
                out[p] = e
                val(e[2], p)

    def val(v: list, path: str) -> None:
        if v[0] == "m":
            ents(v[1], path)
        elif v[0] == "l":
            i = 0
            for it in v[1]:
                if it[0] == "c":
                    continue
                p = f"{path}/{i}"
                i += 1
                if it[1][0] == "m":
                    # An element shares its line with its first key
                    out[p] = next(e for e in it[1][1] if e[0] == "k")
                    ents(it[1][1], p)
                else:
                    out[p] = it

    ents(doc["root"], "")
    return out


class Failed(Exception):
    """The operation must raise this error and change nothing."""


def tables(doc: dict) -> dict[str, Any]:
    comments: list[tuple[str, str]] = []
    selectors: dict[str, list[str]] = {}
    at: dict[str, Optional[str]] = {}
    for p, slot in slot_of(doc).items():
        sel, note = split(slot[-1])
        at[p] = sel
        if note:
            comments.append((p, note))
        if sel:
            selectors.setdefault(sel, []).append(p)
    return {"comments": comments, "selectors": list(selectors.items()), "at": at}


def observed(r: Any, paths: list[str]) -> dict[str, Any]:
    """The same tables, as the code under test reports them."""
    out: dict[str, Any] = {
        "comments": list(r.get_comments_table().items()),
        "selectors": [(s, r.get_selector_paths(s)) for s in r.list_selectors()],
        "at": {},
    }
    for p in paths:
        s = r.get_selector_at_path(p, "[none]")
        out["at"][p] = None if s == "[none]" else s
    return out


def set_comment(doc: dict, path: str, comment: str) -> dict:
    doc = copy.deepcopy(doc)
    slot_of(doc)[path][-1] = comment
    return doc


def count_lines(doc: dict) -> int:
    return len(docs.slots(doc))
