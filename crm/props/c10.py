"""C10: a selector selects exactly the platforms that its boolean expression is true for."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser.enums import SchemaVersion
from conda_recipe_manager.parser.platform_types import Platform
from conda_recipe_manager.parser.selector_parser import SelectorParser
from conda_recipe_manager.parser.selector_query import SelectorQuery
from crm import platforms
from crm.core import Out

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of selector expressions up to a size vs Python's own evaluation of them per platform"
RULE = (
    "Every expression with up to 2 terms (not, and, or) over all 26 platform qualifiers, and every one with up to 4 terms "
    "over representative qualifiers, with minimal and with full parentheses, on every platform. Non-trivial: distinct text."
)
ASSUMPTIONS = ["as in conda-build, a selector is a Python expression over the names of platforms, systems and architectures"]
CHUNK = 40

ALL = list(platforms.TERMS)
REPS = ["linux", "osx", "unix", "win", "x86", "arm64", "linux-64", "osx-arm64"]
FEW = ["unix", "win", "x86_64", "linux-64"]


def trees(terms: list[str], n: int, nots: int) -> Iterator[Any]:
    """All trees with n leaves; every node may be negated up to `nots` times."""
    if n == 1:
        base: Iterator[Any] = iter(terms)
    else:
        base = (
            (op, a, b)
            for k in range(1, n)
            for a in trees(terms, k, nots)
            for b in trees(terms, n - k, nots)
            for op in ("and", "or")
        )
    for t in base:
        for _ in range(nots + 1):
            yield t
            t = ("not", t)


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for a in ALL:
        yield ["one", a]
        for b in ALL:
            yield ["two", a, b]
    for ts in itertools.product(REPS if thorough else REPS[:6], repeat=3):
        yield ["three", list(ts)]
    for ts in itertools.product(FEW if thorough else FEW[:3], repeat=4):
        yield ["four", list(ts)]
    yield ["misc"]
    for n in range(5, 10 if thorough else 9):
        yield ["chain", n]


def over(ts: list[str], nots: int) -> Iterator[Any]:
    """All trees whose leaves are exactly ts, in order."""
    if len(ts) == 1:
        base: list[Any] = [ts[0]]
    else:
        base = [
            (op, a, b)
            for k in range(1, len(ts))
            for a in over(ts[:k], nots)
            for b in over(ts[k:], nots)
            for op in ("and", "or")
        ]
    for t in base:
        for _ in range(nots + 1):
            yield t
            t = ("not", t)


def python_says(text: str) -> set[str]:
    """Evaluates the text with Python, for each platform."""
    import re

    names: dict[str, str] = {}
    code = re.sub(r"[\w-]+", lambda m: m[0] if m[0] in ("and", "or", "not") else names.setdefault(m[0], f"t{len(names)}"), text)
    prog = compile(code, "selector", "eval")
    out = set()
    for p in platforms.NAMES:
        if eval(prog, {"__builtins__": {}}, {v: p in platforms.TERMS.get(k.lower(), set()) for k, v in names.items()}):  # pylint: disable=eval-used
            out.add(p)
    return out


def verify(out: Out, text: str, want: set[str] | None = None) -> None:
    if want is None:
        want = python_says(text)
    out.nt(text)
    out.state(text)
    key = " ".join(w if w in ("and", "or", "not") else "x" for w in text.replace("(", " ( ").replace(")", " ) ").split())
    for version, shown in ((SchemaVersion.V0, f"[{text}]"), (SchemaVersion.V0, text), (SchemaVersion.V1, text)):
        p = SelectorParser(shown, version)
        got = {str(x.value) for x in p.get_selected_platforms()}
        if not out.expect(got == want, True, f"platforms: {key}", f"{shown} selects {sorted(got)}, not {sorted(want)}"):
            return
    p = SelectorParser(f"[{text}]", SchemaVersion.V0)
    out.ev(len(platforms.NAMES) + 4)
    applies = {n for n in platforms.NAMES if p.does_selector_apply(SelectorQuery(platform=Platform(n)))}
    if applies != want:
        out.fail(f"applies: {key}", f"[{text}] applies to {sorted(applies)}, not {sorted(want)}")
    if p.does_selector_apply(SelectorQuery()) is not True:
        out.fail("applies: unconstrained", f"[{text}] does not apply to an unconstrained query")
    if p.is_modified():
        out.fail("modified", f"reading [{text}] modified it")
    if p.render() != f"[{text}]" or SelectorParser(text, SchemaVersion.V1).render() != text:
        out.fail(f"render: {key}", f"[{text}] renders as {p.render()}")
    # What is returned belongs to the caller.
    p.get_selected_platforms().clear()
    if {str(x.value) for x in p.get_selected_platforms()} != want:
        out.fail("aliasing", f"changing the returned set changed the selector [{text}]")
    if p != SelectorParser(p.render(), SchemaVersion.V0) or p == SelectorParser(text, SchemaVersion.V1) or p == f"[{text}]":
        out.fail("equality", f"[{text}] must equal itself in the same schema, and nothing else")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "misc":
        _misc(out)
        return
    if kind == "chain":
        _chain(case[1], out)
        return
    ts = case[1] if kind in ("three", "four") else case[1:]
    nots = 2 if kind in ("one",) else 1 if kind in ("two", "three") else 0
    for t in over(ts, nots):
        want = platforms.selected(t)
        out.step()
        text = platforms.render(t)
        assert python_says(text) == want, "reference models disagree"
        verify(out, text, want)
        full = platforms.render(t, full=True)
        if full != text:
            verify(out, full, want)
    if kind == "four":
        # Without any parentheses, precedence decides.
        for ops in itertools.product(("and", "or"), repeat=3):
            for neg in itertools.product(("", "not ", "not not "), repeat=4):
                text = " ".join(x for i, t in enumerate(ts) for x in ([ops[i - 1]] if i else []) + [neg[i] + t])
                verify(out, text)


def _misc(out: Out) -> None:
    for version in (SchemaVersion.V0, SchemaVersion.V1):
        for text in ("", "[]", "   ", "[ ]"):
            out.expect(SelectorParser(text, version).get_selected_platforms(), set(), "empty", f"an empty selector {text!r} selects nothing")
    for t in ALL:
        for form in (t.upper(), t.capitalize(), f"  {t} ", f" NOT {t}", f"({t})", f"( {t} )", f"{t}  AND  {t}"):
            want = platforms.TERMS[t] if "NOT" not in form else set(platforms.NAMES) - platforms.TERMS[t]
            got = {str(x.value) for x in SelectorParser(f"[{form}]", SchemaVersion.V0).get_selected_platforms()}
            out.nt(form)
            out.expect(got == want, True, f"form: {form.replace(t, 'x')}", f"[{form}] selects {sorted(got)}")
    # Terms that do not name platforms
    for u in ("py37", "py<37", "vc14", "environ.get('x')", "f(1)", "cuda_compiler_version != 'None'"):
        first = u.split()[0]
        for t in FEW:
            if " " in u:
                continue
            out.nt(u, t)
            got = {str(x.value) for x in SelectorParser(f"[{t} or {u}]", SchemaVersion.V0).get_selected_platforms()}
            out.expect(got, platforms.TERMS[t], f"unknown: or {first}", f"[{t} or {u}]")
            got = {str(x.value) for x in SelectorParser(f"[{u} or not {t}]", SchemaVersion.V0).get_selected_platforms()}
            out.expect(got, set(platforms.NAMES) - platforms.TERMS[t], f"unknown: {first} or not", f"[{u} or not {t}]")
    a, b = SelectorParser("[osx]", SchemaVersion.V0), SelectorParser("[unix]", SchemaVersion.V0)
    out.expect(a == b, False, "equality: different", "[osx] and [unix]")
    out.expect(SelectorParser("[osx and unix]", SchemaVersion.V0) == SelectorParser("[osx or unix]", SchemaVersion.V0), False, "equality: operators", "and, or")
    out.expect(SelectorParser("[not osx]", SchemaVersion.V0) == SelectorParser("[osx]", SchemaVersion.V0), False, "equality: not", "not")


def _chain(n: int, out: Out) -> None:
    """Many terms: every choice of operators, with one term negated, or with parentheses from one place to the end or the start."""
    terms = ["linux", "unix", "win", "osx", "x86_64", "arm64", "linux-64", "win-64", "osx-arm64", "x86"]
    for ops in itertools.product(("and", "or"), repeat=n - 1):
        for back in (False, True):
            ts = terms[:n][::-1] if back else terms[:n]
            flat = " ".join([ts[0], *(f"{o} {t}" for o, t in zip(ops, ts[1:]))])
            verify(out, flat)
            for i in range(n):
                words = [f"not {t}" if j == i else t for j, t in enumerate(ts)]
                verify(out, " ".join([words[0], *(f"{o} {t}" for o, t in zip(ops, words[1:]))]))
            if back:
                continue
            # Nested to the right, and to the left.
            verify(out, "".join(f"{t} {o} (" for t, o in zip(ts, ops)) + ts[-1] + ")" * (n - 1))
            verify(out, "(" * (n - 1) + ts[0] + "".join(f" {o} {t})" for o, t in zip(ops, ts[1:])))
            verify(out, "".join(f"{t} {o} not (" for t, o in zip(ts, ops)) + ts[-1] + ")" * (n - 1))
    for k in range(1, 12):
        verify(out, "not " * k + "unix")
        verify(out, "not (" * k + "unix and not osx" + ")" * k)
        verify(out, "(" * k + "unix or win-64" + ")" * k)
