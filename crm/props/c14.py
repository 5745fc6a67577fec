"""C14: a CBC variable has the value of its first entry that applies to the platform."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser.cbc_parser import CbcParser
from conda_recipe_manager.parser.platform_types import Platform
from conda_recipe_manager.parser.selector_query import SelectorQuery
from crm import platforms
from crm.core import Out, same

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "all lists of up to three entries (value x selector) x comments x all platforms vs a first-match reference model"
RULE = (
    "Every variable with 1 to 3 entries (4 thorough) out of the pool of values and selectors, between other variables and comments, "
    "queried for all 14 platforms and for none, with and without a default. Non-trivial: distinct file."
)
ASSUMPTIONS = ["PyYAML is the reference for the values"]
CHUNK = 8

# (text of the selector comment, platforms)
SELECTORS: list[Any] = [
    None,
    "linux",
    "win",
    "not win",
    "osx and arm64",
    "not (osx and arm64)",
    "linux or win",
    "linux-64",
    "nonsense",
    "unix and not osx or win",
]
TREES: dict[Any, Any] = {
    "linux": "linux",
    "win": "win",
    "not win": ("not", "win"),
    "osx and arm64": ("and", "osx", "arm64"),
    "not (osx and arm64)": ("not", ("and", "osx", "arm64")),
    "linux or win": ("or", "linux", "win"),
    "linux-64": "linux-64",
    "nonsense": "nonsense",
    "unix and not osx or win": ("or", ("and", "unix", ("not", "osx")), "win"),
}
VALUES: list[tuple[str, Any]] = [("1.10.0", "1.10.0"), ("1.5", 1.5), ("3", 3), ('"3.10"', "3.10"), ("true", True), ("/opt/x y", "/opt/x y"), ("a # b", "a"), ("1", 1), ("1.0", 1.0), ("3.0", 3.0)]
# How an entry is laid out around its selector.
STYLES = ["{i}- {v}  # [{s}]\n", "{i}- {v}  # why [{s}]\n", "{i}- {v} # [{s}] why\n"]


def wanted(entries: list[tuple[Any, Any]], platform: str | None) -> tuple[bool, Any]:
    for value, sel in entries:
        if sel is None or platform is None or platform in platforms.selected(TREES[sel]):
            return True, value
    return False, None


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for indent in ("  ", ""):
        if indent:
            for n in (1, 2):
                for sels in itertools.product(range(len(SELECTORS)), repeat=n):
                    yield ["list", list(sels)]
    for sels in itertools.product(range(len(SELECTORS) if thorough else 7), repeat=3):
        yield ["list", list(sels)]
    if thorough:
        for sels in itertools.product(range(6), repeat=4):
            yield ["list", list(sels)]
    for vs in itertools.product(range(len(VALUES)), repeat=3 if thorough else 2):
        yield ["values", list(vs)]
    # Many entries: the one that applies comes late, or only the last one has no selector.
    for n in range(9, 14):
        for i in range(len(SELECTORS)):
            for j in (0, 1, 2):
                yield ["list", [*[(i + j * k) % len(SELECTORS) for k in range(n)], SELECTORS.index(None)]]
                yield ["list", [(i + j * k) % len(SELECTORS) for k in range(n)]]
    yield ["files"]


def entry(v: str, sel: Any, style: int = 0) -> str:
    if "#" in v:
        v, note = v.split(" # ")
        return f"  - {v}  # {note}" + (f" [{sel}]" if sel else "") + "\n"
    if sel is None:
        return f"  - {v}\n"
    return STYLES[style].format(i="  ", v=v, s=sel)


def layout(entries: list[tuple[str, Any]], how: int) -> str:
    """The variable `var` with these entries; comment lines and other variables around it, by `how`."""
    lines = [entry(v, s, how % 3) for v, s in entries]
    if how == 1:
        lines.insert(1, "  # a comment\n")
    if how == 2:
        lines.insert(0, "  # - 9.9  # [linux]\n")
        lines.append("  # [win]\n")
    head = "var:  # [win]\n" if how == 3 else "var:\n"
    body = head + "".join(lines)
    if how in (1, 3):
        body = "pin_run_as_build:\n  var:\n    max_pin: x.x\n\n# all\nother:\n  - 7  # [linux]\n" + body + "zip_keys:\n  -\n    - var\n    - other\n"
    if how == 2:
        body = "\n" + body + "\nvar2:\n  - 8\n"
    return body


def verify(out: Out, texts: list[tuple[str, Any]], values: list[tuple[Any, Any]], how: int) -> None:
    text = layout(texts, how)
    out.nt(text)
    out.state(text)
    p = CbcParser(text)
    key = f"how {how}"
    names = {0: ["var"], 1: ["other", "var"], 2: ["var", "var2"], 3: ["other", "var"]}[how]
    out.expect(p.list_cbc_variables(), names, f"names: {key}", f"variables of {text!r}")
    for n in ("var", "other", "var2", "zip_keys", "pin_run_as_build", "Var", "", 3):
        out.expect(n in p, n in names, f"contains: {key}", f"{n!r} in {text!r}")
    for platform in [None, *platforms.NAMES]:
        q = SelectorQuery(platform=Platform(platform) if platform else None)
        has, want = wanted(values, platform)
        out.outcome("value" if has else "none")
        out.step()
        out.trace()
        try:
            got: Any = p.get_cbc_variable_value("var", q)
        except ValueError:
            got = ValueError
        if not (same(got, want) if has else got is ValueError):
            out.fail(f"value: {key}", f"var on {platform} is {got!r}, not {want if has else ValueError!r}, in {text!r}")
        out.ev()
        got = p.get_cbc_variable_value("var", q, "the default")
        if not same(got, want if has else "the default"):
            out.fail(f"default: {key}", f"var on {platform}, with a default, is {got!r} in {text!r}")
        out.ev()
        for missing in ("missing", "zip_keys", "pin_run_as_build"):
            try:
                got = p.get_cbc_variable_value(missing, q)
            except KeyError:
                got = KeyError
            out.expect(got, KeyError, f"missing: {key}", f"{missing} in {text!r}")
            for default in (None, "d", 0, False):
                got = p.get_cbc_variable_value(missing, q, default)
                if not same(got, default):
                    out.fail(f"missing default: {key}", f"{missing}, default {default!r} in {text!r}: {got!r}")
    if how == 1:
        for platform in platforms.NAMES:
            want = 7 if platform.startswith("linux") else None
            got = p.get_cbc_variable_value("other", SelectorQuery(platform=Platform(platform)), None)
            out.expect(got, want, "other variable", f"other on {platform} in {text!r}")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "files":
        for text in ("", "\n", "# only a comment\n", "zip_keys:\n  -\n    - a\n", "pin_run_as_build:\n  a:\n    max_pin: x\n", "a:\n", "a: 3\n"):
            out.nt(text)
            try:
                got: Any = CbcParser(text).list_cbc_variables()
            except Exception as e:  # pylint: disable=broad-exception-caught
                got = repr(e)
            out.expect(got, [], f"file {text!r}", f"variables of {text!r}")
        return
    if kind == "list":
        sels = [SELECTORS[i] for i in case[1]]
        texts = [(f"1.{i}.0", s) for i, s in enumerate(sels)]
        values = [(f"1.{i}.0", s) for i, s in enumerate(sels)]
        for how in range(4):
            verify(out, texts, values, how)
    else:
        vs = [VALUES[i] for i in case[1]]
        for sels in itertools.product(["win", "unix and not osx or win", None], repeat=len(vs)):
            for how in range(4):
                verify(out, [(t, s) for (t, _), s in zip(vs, sels)], [(v, s) for (_, v), s in zip(vs, sels)], how)
