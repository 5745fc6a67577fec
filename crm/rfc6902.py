"""
Reference model: RFC 6902 on plain Python data. Raises PatchFailed where the RFC says that the patch fails.

Recipes differ from JSON in three documented ways, which the model follows:
  - a token made of digits, or `-`, is a position in a list and never the name of a key;
  - a key without a value holds neither an object nor a list yet, so that the first key or member may be added to it;
  - a recipe cannot express an empty object or list as a block, so what is emptied by `remove`/`move` reads as null.
"""

from __future__ import annotations

import copy
from typing import Any

from crm.core import same


class PatchFailed(Exception):
    pass


def parts(path: str) -> list[str]:
    return [p for p in path.split("/") if p != ""]


def is_index(tok: str) -> bool:
    return tok == "-" or tok.isdigit()


def _index(tok: str, n: int, end: bool) -> int:
    if not tok.isdigit():
        raise PatchFailed("not an index")
    i = int(tok)
    if i > (n if end else n - 1):
        raise PatchFailed("index out of range")
    return i


def get(doc: Any, path: str) -> Any:
    for tok in parts(path):
        doc = _child(doc, tok)
    return doc


def _child(doc: Any, tok: str) -> Any:
    if isinstance(doc, dict):
        if is_index(tok) or tok not in doc:
            raise PatchFailed("no such key")
        return doc[tok]
    if isinstance(doc, list):
        return doc[_index(tok, len(doc), False)]
    raise PatchFailed("not a container")


def _parent(doc: Any, path: str) -> tuple[Any, str]:
    toks = parts(path)
    if not toks:
        raise PatchFailed("the root")
    for tok in toks[:-1]:
        doc = _child(doc, tok)
    return doc, toks[-1]


def _add(doc: Any, path: str, value: Any, emptied: Any = None) -> None:
    """`emptied`: the container that was emptied by the same operation."""
    par, tok = _parent(doc, path)
    if par is None or (par is emptied and not par and par is not doc):
        # A key without a value; in a list, there is no key.
        up, name = _parent(doc, "/".join(parts(path)[:-1]))
        if isinstance(up, list):
            if par is None or is_index(tok):
                raise PatchFailed("not a container")
            par[tok] = value
            return
        if is_index(tok) and tok not in ("-", "0"):
            raise PatchFailed("not a container")
        up[name] = [value] if is_index(tok) else {tok: value}
    elif isinstance(par, dict):
        if is_index(tok):
            raise PatchFailed("not a list")
        par[tok] = value
    elif isinstance(par, list):
        if tok == "-":
            par.append(value)
        else:
            par.insert(_index(tok, len(par), True), value)
    else:
        raise PatchFailed("not a container")


def _remove(doc: Any, path: str) -> Any:
    par, tok = _parent(doc, path)
    _child(par, tok)
    par.pop(tok if isinstance(par, dict) else int(tok))
    return par


def _null_emptied(v: Any, emptied: Any) -> Any:
    if v is emptied and not v:
        return None
    if isinstance(v, dict):
        return {k: _null_emptied(x, emptied) for k, x in v.items()}
    if isinstance(v, list):
        return [_null_emptied(x, emptied) for x in v]
    return v


def apply(doc: Any, op: dict) -> Any:
    """The new document; the old one is not touched."""
    doc = copy.deepcopy(doc)
    kind, path = op["op"], op["path"]
    if kind == "add":
        _add(doc, path, copy.deepcopy(op["value"]))
    elif kind == "remove":
        doc = _null_emptied(doc, _remove(doc, path)) or {}
    elif kind == "replace":
        par, tok = _parent(doc, path)
        _child(par, tok)
        if isinstance(par, dict):
            par[tok] = copy.deepcopy(op["value"])
        else:
            par[int(tok)] = copy.deepcopy(op["value"])
    elif kind == "test":
        if not same(get(doc, path), op["value"]):
            raise PatchFailed("test")
    elif kind == "copy":
        _add(doc, path, copy.deepcopy(get(doc, op["from"])))
    elif kind == "move":
        frm, to = parts(op["from"]), parts(path)
        if not frm:
            raise PatchFailed("the root")
        value = get(doc, op["from"])
        if frm == to:
            return doc
        if to[: len(frm)] == frm:
            raise PatchFailed("into itself")
        par = _remove(doc, op["from"])
        _add(doc, path, value, par)
        doc = _null_emptied(doc, par) or {}
    return doc


def order(v: Any) -> Any:
    """The data with the order of keys made visible."""
    if isinstance(v, dict):
        return [[k, order(x)] for k, x in v.items()]
    if isinstance(v, list):
        return [order(x) for x in v]
    return v
