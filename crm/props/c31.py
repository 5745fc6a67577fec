"""C31: the selectors of a V0 recipe mean the same in the converted recipe, on every platform and Python version."""

from __future__ import annotations

import itertools
import re
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory
from crm.core import Out

ID = "C31"
LEVEL = "model_checking"
TECHNIQUE = "all selector expressions up to a size, evaluated before and after conversion in every state of platform and Python version"
RULE = (
    "Every expression of one and two terms (three terms: a pool) with `not` and parentheses, in every state (4 platforms x 7 Python versions); "
    "every place a selector can be in. Non-trivial: distinct recipes."
)
ASSUMPTIONS = [
    "V0 selectors are Python expressions over conda-build's variables; V1 conditions are Python expressions over the platform names and match()",
    "match(python, spec) compares major and minor version",
]
CHUNK = 2
CASE_TIMEOUT_S = 300

PYTHONS = [(2, 7), (3, 5), (3, 6), (3, 9), (3, 10), (3, 11), (3, 13)]
PLATFORMS: list[dict[str, bool]] = [
    {"linux": True, "unix": True, "x86_64": True},
    {"linux": True, "unix": True, "aarch64": True},
    {"osx": True, "unix": True, "arm64": True},
    {"win": True, "x86_64": True},
]
NAMES = ["linux", "osx", "win", "unix", "x86_64", "aarch64", "arm64"]
STATES = [(p, v) for p in PLATFORMS for v in PYTHONS]
EVERY_PYTHON = [(2, 6), (2, 7), *((3, i) for i in range(16))]


def v0_env(state: Any) -> dict[str, Any]:
    platform, (major, minor) = state
    env: dict[str, Any] = {n: platform.get(n, False) for n in NAMES}
    env.update(py=int(f"{major}{minor}"), py2k=major == 2, py3k=major == 3)
    env.update({f"py{a}{b}": (a, b) == (major, minor) for a, b in EVERY_PYTHON})
    return env


def match(version: tuple[int, int], spec: str) -> bool:
    for part in spec.split(","):
        op, num = re.fullmatch(r"(<=|>=|==|!=|<|>)\s*([0-9.]+)", part.strip()).groups()  # type: ignore[union-attr]
        want = tuple(int(x) for x in num.split("."))
        want = (*want, 0, 0)[:2]
        if not {"<": version < want, ">": version > want, "<=": version <= want, ">=": version >= want, "==": version == want, "!=": version != want}[op]:
            return False
    return True


def v1_env(state: Any) -> dict[str, Any]:
    platform, version = state
    env: dict[str, Any] = {n: platform.get(n, False) for n in NAMES}
    env.update(python=version, match=match)
    return env


CODE: dict[str, Any] = {}


def evaluate(expression: str, env: dict[str, Any]) -> bool:
    if expression not in CODE:
        CODE[expression] = compile(expression, "selector", "eval")
    return bool(eval(CODE[expression], {"__builtins__": {}}, env))  # pylint: disable=eval-used


ABSENT = object()
TERNARY = re.compile(r"\$\{\{ (true|false) if (.*) \}\}")


def v1(value: Any, env: dict[str, Any], path: str = "") -> Any:
    """What a build tool sees of a part of a V1 recipe."""
    if isinstance(value, dict):
        items = ((k, v1(v, env, f"{path}/{k}")) for k, v in value.items())
        return {k: v for k, v in items if v is not ABSENT}
    if isinstance(value, list):
        result = []
        for x in value:
            if path.endswith("/build/skip"):
                result.append(x)
            elif isinstance(x, dict) and "if" in x:
                if set(x) != {"if", "then"}:
                    raise ValueError(f"strange conditional {x}")
                if evaluate(str(x["if"]), env):
                    result.append(x["then"])
            else:
                y = v1(x, env, f"{path}/-")
                if y is not ABSENT:
                    result.append(y)
        if path.endswith("/build/skip"):
            return True if any(evaluate(str(x), env) for x in result) else ABSENT
        return result
    if isinstance(value, str):
        m = TERNARY.fullmatch(value)
        if m:
            return (m[1] == "true") if evaluate(m[2], env) else ABSENT
        if path.endswith("/build/skip"):
            return True if evaluate(value, env) else ABSENT
    return value


SELECTOR = re.compile(r"^(.*?)\s*#[^#]*\[([^\[\]]*)\][^#]*$")


def v0(text: str, env: dict[str, Any], keep: bool) -> Any:
    """What conda-build sees: lines whose selector does not hold are not there."""
    lines = []
    for line in text.splitlines():
        m = SELECTOR.match(line)
        if m is None:
            lines.append(line)
        elif evaluate(m[2], env) or (keep and not m[1].lstrip().startswith("- ") and not BOOL.search(m[1])):
            lines.append(m[1])
    return yaml.load("\n".join(lines), Loader=LastWins)


BOOL = re.compile(r":\s*(true|false|True|False)$")


class LastWins(yaml.SafeLoader):  # pylint: disable=too-many-ancestors
    """conda-build allows for a key several times."""


def _plain(d: Any, name: str) -> Any:
    x = d
    for k in name.split("/"):
        if isinstance(x, list):
            if not k.isdigit() or int(k) >= len(x):
                return ABSENT
            x = x[int(k)]
        elif not isinstance(x, dict) or k not in x:
            return ABSENT
        else:
            x = x[k]
    # An empty list is what is left if no element applies
    return ABSENT if x is None or x == [] else x


#### Expressions ####

PY = [f"py{s}{op}{s}{v}" for s in ("", " ") for op in ("<", ">", "<=", ">=", "==", "!=") for v in ("27", "36", "310")]
PY += ["py36", "py27", "py310", "py2k", "py3k"]
PLAIN = ["linux", "osx", "win", "unix", "aarch64"]
TERMS = PY + PLAIN
FEW = ["py<36", "py >= 310", "py36", "py3k", "win", "linux"]


def expressions(tier: str) -> Iterator[str]:
    for t in TERMS:
        yield t
        yield f"not {t}"
        yield f"not ({t})"
        yield f"({t})"
        yield f"not not {t}"
        yield f"not (not {t})"
    for a, b in itertools.product(TERMS, repeat=2):
        if tier == "quick" and len({a, b} - set(FEW)) == 2:
            continue
        for op in ("and", "or"):
            yield f"{a} {op} {b}"
            yield f"{a} {op} not {b}"
            if a in FEW and b in FEW:
                yield f"not {a} {op} {b}"
                yield f"not ({a} {op} {b})"
                yield f"({a} {op} {b})"
                yield f"not (not {a} {op} {b})"
                yield f"not ({a} {op} not {b})"
                yield f"not (not ({a} {op} {b}))"
                yield f"not not {a} {op} {b}"
    pool = FEW[::2] if tier == "quick" else FEW
    for a, b, c in itertools.product(FEW, pool, FEW):
        for o1, o2 in itertools.product(("and", "or"), repeat=2):
            yield f"{a} {o1} {b} {o2} {c}"
            yield f"({a} {o1} {b}) {o2} not {c}"
            yield f"{a} {o1} not ({b} {o2} {c})"
            yield f"not (not ({a} {o1} {b}) {o2} {c})"


LISTS = {  # V0 place: V1 place
    "requirements/host": "requirements/host", "requirements/run_constrained": "requirements/run_constraints", "build/script": "build/script",
    "source/patches": "source/patches", "test/commands": "tests/0/script", "test/requires": "tests/0/requirements/run", "test/imports": "tests/0/python/imports",
    "test/source_files": "tests/0/files/source", "about/license_file": "about/license_file", "build/run_exports": "requirements/run_exports",
    "build/missing_dso_whitelist": "build/dynamic_linking/missing_dso_allowlist", "extra/list": "extra/list", "build/entry_points": "build/python/entry_points",
}  # fmt: skip
BOOLS = {
    "build/skip": "build/skip", "build/skipt": "build/skip", "build/binary_relocation": "build/dynamic_linking/binary_relocation",
    "build/merge_build_host": "build/merge_build_and_host_envs", "extra/flag": "extra/flag", "build/detect_binary_files_with_prefix": "build/prefix_detection/ignore_binary_files",
}  # fmt: skip
OTHERS = ["build/number: 1", "build/noarch: python", "about/home: https://x.org", "source/url: x", "package/version: x1", "build/script: make", "about/license: MIT"]
PLACES = ["", "outputs/0/", "outputs/1/"]
ELEMENTS = ["a", "b >=1.2,<2", "c d", '"e: f"', "1", "{{ g }}", "x # note", "true"]


def cases(tier: str) -> Iterator[Any]:
    for v in EVERY_PYTHON:
        yield ["version", *v]
    for path in LISTS:
        yield ["long", path]
    batch: list[str] = []
    for e in expressions(tier):
        batch.append(e)
        if len(batch) == 60:
            yield ["expressions", batch]
            batch = []
    if batch:
        yield ["expressions", batch]
    for place in LISTS:
        yield ["list", place]
    for place in BOOLS:
        yield ["bool", place]
    yield ["repeated"]
    for place in OTHERS:
        yield ["other", place]
    yield ["element keys"]


def recipe(place: str, section: str, lines: list[str]) -> str:
    """`lines` are those of the section."""
    body = [f"{section}:", *(f"  {x}" for x in lines)]
    if section == "package":
        body = [*body, "  name: p"]
    top = [] if section == "package" else ["package:", "  name: p"]
    if not place:
        return "\n".join([*top, *body]) + "\n"
    body = [f"    {x}" for x in body]
    if place == "outputs/1/":
        return "\n".join([*top, "outputs:", "  - name: o", "    build:", "      number: 3", "  - name: q", *body]) + "\n"
    return "\n".join([*top, "outputs:", "  - name: o", *body]) + "\n"


def decide(text: str, old: str, new: str, out: Out, what: str, warned: list[str] | None = None, states: list[Any] | None = None) -> None:
    out.nt(text)
    out.step()
    try:
        result, msgs, _ = RecipeParserConvert(text).render_to_v1_recipe_format()
        data = yaml.safe_load(result)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"raised {what}", f"converting {text!r} raised {e!r}")
        return
    out.trace()
    got_warnings = [m for m in msgs.get_messages(MessageCategory.WARNING) if "selector" in m]
    out.expect(sorted(got_warnings), sorted(f"A non-list item had a selector at: /{p}" for p in warned or []), f"warnings {what}", f"warnings of {text!r}")
    out.expect(msgs.get_messages(MessageCategory.ERROR), [], f"errors {what}", f"errors of {text!r}")
    for state in states or STATES:
        out.state((text, str(state)))
        try:
            got = _plain(v1(data, v1_env(state)), new)
        except Exception as e:  # pylint: disable=broad-exception-caught
            out.fail(f"evaluate {what}", f"{text!r} became {result!r}, which cannot be evaluated: {e!r}")
            return
        want = _plain(v0(re.sub(r"(?<!\$)\{\{(.*?)\}\}", r"${{\1}}", text), v0_env(state), keep=True), old)
        if not out.expect(repr(got), repr(want), what, f"{new} in state {state} of {text!r}, which became {result!r}"):
            return


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "expressions":
        lines = ["host:"] + [f"  - e{i}  # [{e}]" for i, e in enumerate(case[1])]
        text = recipe("", "requirements", lines)
        what = "expression"
        out.count("expressions", len(case[1]))
        before = len(case[1])
        # Alone, if something is wrong, so that it is known which
        try:
            data = yaml.safe_load(RecipeParserConvert(text).render_to_v1_recipe_format()[0])
            fine = all(
                v1(data, v1_env(s))["requirements"]["host"] == v0(text, v0_env(s), True)["requirements"]["host"] for s in STATES if v0(text, v0_env(s), True)["requirements"]["host"]
            )
        except Exception:  # pylint: disable=broad-exception-caught
            fine = False
        if fine:
            decide(text, "requirements/host", "requirements/host", out, what)
        else:
            for e in case[1][:before]:
                decide(recipe("", "requirements", ["host:", f"  - e  # [{e}]"]), "requirements/host", "requirements/host", out, f"{what} {e}")
        for i, e in enumerate(case[1][::10]):
            flag, value = list(BOOLS)[i % 3], "false" if i % 2 else "true"
            if flag == "build/skipt" and i % 2:
                value = "true"
            decide(recipe("", "build", [f"{flag.split('/')[1]}: {value}  # [{e}]"]), flag, BOOLS[flag], out, f"{flag} {value}")
    elif kind == "version":
        # Every version, with every operator and spacing, and next to others.
        n = f"{case[1]}{case[2]}"
        es = [f"py{a}{op}{b}{n}" for a in ("", " ", "  ") for b in ("", " ", "  ") for op in ("<", ">", "<=", ">=", "==", "!=")]
        es += [f"py{n}", f"not py{n}", f"(py{n})", f"not(py{n})"]
        es += [f"py{op}{n} and win" for op in ("<", ">=", "==")] + [f"unix or py{op}{n}" for op in ("<=", ">", "!=")] + [f"py>={n} and py<{m}" for m in ("27", "38", "310", "312")]
        es += [f"py{m} or py{n}" for m in ("27", "38", "310")] + [f"linux and not py{n}", f"not py{n} and not win", f"py2k or py>={n}", f"py3k and py<{n}"]
        states = [(p, v) for p in (PLATFORMS[0], PLATFORMS[3]) for v in EVERY_PYTHON]
        for e in es:
            decide(recipe("", "requirements", ["host:", f"  - e  # [{e}]"]), "requirements/host", "requirements/host", out, f"version {e}", states=states)
    elif kind == "long":
        # Positions of more than one digit.
        section, key = case[1].split("/")
        for place, n in itertools.product(PLACES, (9, 10, 11, 13)):
            for step in (1, 2, 3, 5):
                lines = [f"{key}:"] + [f"  - x{i}" + (f"  # [{('win', 'py<36', 'not py3k and unix')[i % 3]}]" if (i + 1) % step == 0 else "") for i in range(n)]
                decide(recipe(place, section, lines), place + case[1], place + LISTS[case[1]], out, case[1] + " long")
    elif kind == "list":
        section, key = case[1].split("/")
        sels = ["win", "py<36", "not py3k and unix"]
        for place, n in itertools.product(PLACES, (1, 2, 3)):
            for j, marks in enumerate(itertools.product((None, *sels), repeat=n)):
                if not any(marks):
                    continue
                elements = [ELEMENTS[(j + i) % (len(ELEMENTS) - 1)] for i in range(n)]
                lines = [f"{key}:"]
                for e, m in zip(elements, marks):
                    tail = f" # [{m}]" if m else ""
                    if m and " # " in e:
                        tail = f" [{m}]"
                    lines.append(f"  - {e}{tail}")
                decide(recipe(place, section, lines), place + case[1], place + LISTS[case[1]], out, case[1])
    elif kind == "bool":
        section, key = case[1].split("/")
        for place, value, sel, spaces, note in itertools.product(PLACES, ("true", "false", "True"), ("win", "py<36", "not py27 or osx"), (" ", "  "), ("", "why ")):
            if key == "skipt" and value == "false":
                continue
            for extra in ([], ["string: x"]):
                lines = [*extra, f"{key}: {value}{spaces}# {note}[{sel}]"] if extra and place else [f"{key}: {value}{spaces}# {note}[{sel}]", *extra]
                decide(recipe(place, section, lines), place + case[1], place + BOOLS[case[1]], out, f"{case[1]} {value.lower()}")
    elif kind == "repeated":
        sels = ["win", "osx", "py<36", "py27 and linux"]
        for place, n in itertools.product(PLACES, (2, 3, 4)):
            for perm in itertools.permutations(sels, n):
                for between in (False, True):
                    lines = [f"skip: true  # [{s}]" for s in perm]
                    if between:
                        lines.insert(1, "number: 1")
                    decide(recipe(place, "build", lines), place + "build/skip", place + "build/skip", out, "repeated skip")
    elif kind == "other":
        path, value = case[1].split(": ", 1)
        section, key = path.split("/")
        new = {"about/home": "about/homepage"}.get(path, path)
        for place, sel in itertools.product(PLACES, ("win", "py<36")):
            if section == "package" and place:
                continue
            decide(recipe(place, section, [f"{key}: {value}  # [{sel}]", "other: 1"]), place + path, place + new, out, path, [place + path])
    else:
        for place, n in itertools.product(PLACES, (1, 2)):
            for marks in itertools.product((None, "win", "unix"), repeat=n):
                lines = [f"  - url: u{i}" + (f"  # [{m}]" if m else "") for i, m in enumerate(marks)]
                text = recipe(place, "source", [x[2:] for x in lines])
                bare = [{"url": f"u{i}"} for i in range(n)]
                out.nt(text)
                result, msgs, _ = RecipeParserConvert(text).render_to_v1_recipe_format()
                want = sorted(f"A non-list item had a selector at: /{place}source/{i}/url" for i, m in enumerate(marks) if m)
                out.expect(sorted(m for m in msgs.get_messages(MessageCategory.WARNING) if "selector" in m), want, "element keys", f"warnings of {text!r}")
                out.expect(_plain(yaml.safe_load(result), f"{place}source"), bare, "element keys", f"converted {text!r}")
