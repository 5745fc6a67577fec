"""
Abstract recipe documents, from which recipe text AND the expected observations are generated independently of the
code under test.

    doc   = {"v": 0|1, "vars": [[name, value], ...], "root": [entry, ...]}
    entry = ["k", key, value, comment] | ["c", text]               a `key: value  # comment` line | a comment line
    value = ["s", text, python value] | ["e"] | ["m", [entry...]] | ["l", [item...]] | ["b", variant, [line...]]
    item  = ["i", value, comment] | ["c", text]                    value is "s" or "m"; an "m" item's comment lives on
                                                                   its first entry
"""

from __future__ import annotations

import json
import copy
import itertools
from typing import Any, Iterator

import yaml

TAB = "  "


# ---- text ------------------------------------------------------------------------------------------------------------
def _cm(line: str, comment: str) -> str:
    return f"{line}  {comment}" if comment else line


QUOTED_KEYS = {"*", "#a", "a: b", "- x", "{a}", "@a", "[win]", "a #b", "%a", "a:", "it's", "&a", "!a", "> a", "'a'", "`a`", ", a", "a # [win]", " a ", 'a"b'}


def shown(key: str) -> str:
    """A key as the tool writes it. These can't be keys without quotes."""
    return json.dumps(key, ensure_ascii=False) if key in QUOTED_KEYS else key


def _emit_entries(entries: list, depth: int, out: list[str], first_prefix: str | None = None) -> None:
    for n, e in enumerate(entries):
        pre = TAB * depth
        if first_prefix is not None and n == 0:
            pre = first_prefix
        if e[0] == "c":
            out.append(TAB * depth + e[1])
        else:
            _, key, val, comment = e
            kind = val[0]
            if kind == "s":
                out.append(_cm(f"{pre}{shown(key)}: {val[1]}", comment))
            elif kind == "e":
                out.append(_cm(f"{pre}{shown(key)}:", comment))
            elif kind == "b":
                out.append(_cm(f"{pre}{shown(key)}: {val[1]}", comment))
                for ln in val[2]:
                    out.append((TAB * (depth + 1) + ln).rstrip())
            elif kind == "m":
                out.append(_cm(f"{pre}{shown(key)}:", comment))
                _emit_entries(val[1], depth + 1, out)
            elif kind == "l":
                out.append(_cm(f"{pre}{shown(key)}:", comment))
                _emit_items(val[1], depth + 1, out)
        if depth == 0 and e[0] != "c":
            out.append("")


def _emit_items(items: list, depth: int, out: list[str]) -> None:
    for it in items:
        if it[0] == "c":
            out.append(TAB * depth + it[1])
            continue
        _, val, comment = it
        if val[0] == "s":
            out.append(_cm(f"{TAB * depth}- {val[1]}", comment))
        else:
            _emit_entries(val[1], depth + 1, out, first_prefix=f"{TAB * depth}- ")


def var_text(value: Any) -> str:
    return f'"{value}"' if isinstance(value, str) else f"{value}"


def text(doc: dict) -> str:
    """The recipe text, in the layout that the tool itself writes."""
    out: list[str] = []
    if doc["v"] == 0:
        for name, value in doc["vars"]:
            out.append(f"{{% set {name} = {var_text(value)} %}}")
        if doc["vars"]:
            out.append("")
    _emit_entries(doc["root"], 0, out)
    return "\n".join(out)


# ---- expected data -----------------------------------------------------------------------------------------------------
def block_value(variant: str, lines: list[str]) -> str:
    """What YAML says a block scalar holds."""
    return yaml.safe_load(f"k: {variant}\n" + "\n".join((TAB + ln).rstrip() for ln in lines) + "\n")["k"]


def value_data(val: list) -> Any:
    kind = val[0]
    if kind == "s":
        return val[2]
    if kind == "e":
        return None
    if kind == "b":
        return block_value(val[1], val[2])
    if kind == "m":
        return {e[1]: value_data(e[2]) for e in val[1] if e[0] == "k"}
    return [value_data(i[1]) for i in val[1] if i[0] == "i"]


def data(doc: dict) -> dict:
    return {e[1]: value_data(e[2]) for e in doc["root"] if e[0] == "k"}


def lines(doc: dict) -> list[tuple[str, str, list, str]]:
    """Every addressable line: (path, kind, value, comment), in file order. kind: key | item."""
    out: list[tuple[str, str, list, str]] = []

    def walk_map(entries: list, path: str) -> None:
        for e in entries:
            if e[0] == "c":
                continue
            p = f"{path}/{e[1]}"
            out.append((p, "key", e[2], e[3]))
            descend(e[2], p)

    def descend(val: list, path: str) -> None:
        if val[0] == "m":
            walk_map(val[1], path)
        elif val[0] == "l":
            i = 0
            for it in val[1]:
                if it[0] == "c":
                    continue
                p = f"{path}/{i}"
                if it[1][0] == "s":
                    out.append((p, "item", it[1], it[2]))
                else:
                    out.append((p, "elem", it[1], ""))
                    walk_map(it[1][1], p)
                i += 1

    walk_map(doc["root"], "")
    return out


def leaf_paths(doc: dict) -> list[str]:
    return [p for p, _, v, _ in lines(doc) if v[0] in ("s", "e", "b")]


def comment_lines(doc: dict) -> list[str]:
    """All comment-only lines, in order."""
    out: list[str] = []

    def walk(node: Any) -> None:
        if isinstance(node, list):
            if len(node) == 2 and node[0] == "c":
                out.append(node[1])
                return
            for x in node:
                walk(x)

    walk(doc["root"])
    return out


# ---- enumeration -------------------------------------------------------------------------------------------------------
def shapes(budget: int, depth: int, ctx: str) -> Iterator[tuple[list, int]]:
    """All values of exactly `budget` nodes and at most `depth` further levels. ctx: 'key' or 'item'."""
    if budget == 1:
        yield ["s"], 1
        if ctx == "key":
            yield ["e"], 1
        return
    if depth == 0:
        return
    for kids in forests(budget - 1, depth - 1, "key"):
        yield ["m", kids], budget
    if ctx == "key":
        for kids in forests(budget - 1, depth - 1, "item"):
            yield ["l", kids], budget


def forests(budget: int, depth: int, ctx: str) -> Iterator[list]:
    """All non-empty ordered sequences of values using exactly `budget` nodes."""
    if budget == 0:
        return
    for first in range(1, budget + 1):
        heads = [s for s, _ in shapes(first, depth, ctx)]
        if first == budget:
            for h in heads:
                yield [h]
        else:
            tails = list(forests(budget - first, depth, ctx))
            for h in heads:
                for t in tails:
                    yield [h] + t


def number(shape_forest: list) -> list:
    """Turns a forest of shapes into doc entries with distinct keys and distinct scalars."""
    counter = itertools.count()

    def val(sh: list) -> list:
        if sh[0] == "s":
            n = next(counter)
            t = f"v{n}"
            return ["s", t, t]
        if sh[0] == "e":
            return ["e"]
        if sh[0] == "m":
            return ["m", ents(sh[1])]
        return ["l", [["i", val(k), ""] for k in sh[1]]]

    def ents(kids: list) -> list:
        return [["k", f"k{i}", val(k), ""] for i, k in enumerate(kids)]

    return ents(shape_forest)


def all_docs(max_nodes: int, depth: int) -> Iterator[dict]:
    for n in range(1, max_nodes + 1):
        for f in forests(n, depth, "key"):
            yield {"v": 0, "vars": [], "root": number(f)}


def uniform(doc: dict) -> dict:
    """All scalars have the same value."""
    d = copy.deepcopy(doc)

    def go(x: Any) -> None:
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "s":
                x[1] = x[2] = "v"
                return
            for y in x:
                go(y)

    go(d["root"])
    return d


def slots(doc: dict) -> list[list]:
    """The lists (entry or item objects) on which a trailing comment can be put, by reference."""
    out: list[list] = []

    def ents(entries: list) -> None:
        for e in entries:
            if e[0] == "k":
                out.append(e)
                val(e[2])

    def val(v: list) -> None:
        if v[0] == "m":
            ents(v[1])
        elif v[0] == "l":
            for it in v[1]:
                if it[0] == "i":
                    if it[1][0] == "s":
                        out.append(it)
                    else:
                        ents(it[1][1])

    ents(doc["root"])
    return out


def gaps(doc: dict) -> list[tuple[list, int]]:
    """Places where a comment-only line can go: (sequence, index)."""
    out: list[tuple[list, int]] = []

    def seq(s: list, first_ok: bool = True) -> None:
        for i in range(len(s) + 1):
            if i == 0 and not first_ok:
                continue
            out.append((s, i))
        for e in s:
            if e[0] == "k":
                val(e[2])
            elif e[0] == "i":
                val(e[1], item=True)

    def val(v: list, item: bool = False) -> None:
        if v[0] in ("m", "l"):
            # A comment cannot come before the first key of a list element: it would be a line between `-` and the key.
            seq(v[1], first_ok=not item)

    seq(doc["root"])
    return out
