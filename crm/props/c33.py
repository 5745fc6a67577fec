"""C33: a conversion leaves the recipe as it is, can be repeated, includes all edits, and does not lose comments unseen."""

from __future__ import annotations

import functools
import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser.enums import SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory
from crm.core import Out
from crm.props import c15

ID = "C33"
LEVEL = "model_checking"
TECHNIQUE = "all sequences of edits and conversions up to a depth on the real parser, and all recipes of the pool with comments on every line, each pair of lines and all lines"
RULE = (
    "All sequences of up to 3 (4 thorough; the larger recipes one less) operations out of 12 edits and the conversion, on each of the recipes; every line and every pair of nearby lines (all pairs: thorough) of the recipes with a comment, "
    "and every field of C15 in all places with comments on all lines. Non-trivial: distinct (recipe, operations or comments)."
)
ASSUMPTIONS = [
    "what a conversion should give is what C15, C31 and C32 say; here it is compared to the conversion of the re-read text",
    "comments of values that are rewritten (substitutions, corrected licenses) and comments on lines of their own in moved lists are out of scope; so is that of a summary that is a list",
]
CHUNK = 2
CASE_TIMEOUT_S = 300

FULL = '''{% set name = "foo" %}
{% set version = "1.0.1" %}

package:
  name: {{ name }}
  version: {{ version }}

source:
  url: https://x.org/{{ name }}.tgz
  fn: x.tgz
  sha256: abc
  folder: f

build:
  number: 3
  skip: true  # [win]
  script:
    - make
    - {{ PYTHON }} -m pip
  script_env:
    - A
    - B=1
  entry_points:
    - a = b:c
  rpaths:
    - lib
  features: x

requirements:
  build:
    - make
  host:
    - python
    - {{ name }}
    - w  # [win]
  run:
    - python
  run_constrained:
    - z

test:
  requires:
    - pip
  commands:
    - pip check
    - other
  imports:
    - foo
  files:
    - f

about:
  home: https://x.org
  license: MIT
  license_family: x
  description: |
    l1
    l2
  summary: s

extra:
  m:
    - n
    - o
'''
SMALL = '{% set name = "foo" %}\n\npackage:\n  name: {{ name }}\n\nbuild:\n  number: 0\n  script: make\n  skip: true  # [osx]\n\ntest:\n  commands:\n    - x\n'
OUTPUTS = '''{% set name = "foo" %}

package:
  name: {{ name }}
  version: 1.0.1

build:
  no_link: q

outputs:
  - name: o1
    version: 1.0.1
    script: a.sh
    build:
      ignore_prefix_files: true
      script: k
      script_env:
        - A
    test:
      commands:
        - t
  - name: o2
    build:
      number: 4
    requirements:
      host:
        - python
        - h  # [unix]
      run_constrained:
        - z
      run:
        - r
    about:
      license: MIT
      home: https://x.org

about:
  license: MIT
  summary: s
'''
RECIPES = {"full": FULL, "small": SMALL, "outputs": OUTPUTS}

# Edits: (name, function). They work for all recipes, or do nothing.
EDITS: list[tuple[str, Any]] = [
    ("patch number", lambda r: r.patch({"op": "add", "path": "/build/number", "value": 7})),
    ("patch about", lambda r: r.patch({"op": "replace", "path": "/about", "value": {"license": "MIT", "home": "https://y.org", "tags": ["t"]}})),
    ("remove test", lambda r: r.patch({"op": "remove", "path": "/test"})),
    ("add extra", lambda r: r.patch({"op": "add", "path": "/extras", "value": {"k": ["v", True]}})),
    ("move build", lambda r: r.patch({"op": "move", "from": "/build/script", "path": "/extra"})),
    ("add host", lambda r: r.patch({"op": "add", "path": "/requirements", "value": {"host": ["new >=1"], "run_constrained": ["c"]}})),
    ("set name", lambda r: r.set_variable("name", "bar")),
    ("set other", lambda r: r.set_variable("other", ["x"])),
    ("del name", lambda r: r.del_variable("name")),
    ("selector", lambda r: r.add_selector("/build/skip", "[win and py<36]", SelectorConflictMode.AND)),
    ("no selector", lambda r: r.remove_selector("/build/skip")),
    ("comment", lambda r: r.add_comment("/build/number", "why")),
]


def cases(tier: str) -> Iterator[Any]:
    for name in RECIPES:
        for i in range(len(EDITS) + 1):
            yield ["sequences", name, i, (3 if name == "small" else 2) + (tier != "quick")]
        for i in range(len(RECIPES[name].splitlines())):
            yield ["comments", name, i, tier != "quick"]
    for section, fields in c15.SECTIONS.items():
        for k in fields:
            yield ["field", section, k]
    for i in range(len(c15.FORMS["commands"])):
        yield ["test", i]
    for i in range(4):
        yield ["long", i]


def convert(r: Any) -> Any:
    text, msgs, _ = r.render_to_v1_recipe_format()
    return text, {c.name: sorted(msgs.get_messages(c)) for c in MessageCategory}


def state(r: RecipeParserConvert) -> Any:
    return {
        "text": r.render(), "modified": r.is_modified(), "comments": r.get_comments_table(), "selectors": r.list_selectors(), "variables": {v: repr(r.get_variable(v)) for v in r.list_variables()},
        "hash": r.calc_sha256(), "diff": r.diff(), "values": r.list_value_paths(), "schema": r.get_schema_version(), "tree": str(r), "object": repr(r.render_to_object()),
    }  # fmt: skip


def apply(r: RecipeParserConvert, i: int) -> str:
    try:
        EDITS[i][1](r)
        return "done"
    except (KeyError, ValueError) as e:
        return type(e).__name__


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "sequences":
        _sequences(case[1], case[2], case[3], out)
    elif kind == "comments":
        lines = RECIPES[case[1]].splitlines()
        i = case[2]
        if not eligible(lines, i):
            return
        _comments(lines, [i], out, "one comment")
        for j in range(i + 1, len(lines)):
            if eligible(lines, j) and (case[3] or j < i + 6 or (i + j) % 5 == 0):
                _comments(lines, [i, j], out, "two comments")
        if len(lines) > 50 and i % 2:
            return
        _comments(lines, [j for j in range(len(lines)) if eligible(lines, j) and j >= i], out, "all comments")
        _comments(lines, [j for j in range(len(lines)) if eligible(lines, j) and j != i], out, "all comments")
    else:
        if kind == "long":
            # Positions of more than one digit.
            many = [f"x{i}" for i in range(13)]
            docs = [
                {"build": {"number": 1, "script": many, "missing_dso_whitelist": many}, "about": {"home": "h", "license_file": many}},
                {"requirements": {"host": many, "run_constrained": many}, "extra": {"recipe-maintainers": many}},
                {"test": {"commands": many, "imports": many, "requires": many}},
                {"source": [{"url": f"u{i}", "fn": f"f{i}"} for i in range(12)]},
            ][case[1] : case[1] + 1]
            section = "long"
        elif kind == "field":
            _, section, k = case
            docs = [{section: {k: v}} for v in c15.FORMS[k]] + [{section: {"other": 1, k: v, "last": c15.LIST}} for v in c15.FORMS[k]]
        else:
            docs = [
                {"test": {"requires": ["q"], "commands": c15.FORMS["commands"][case[1]], **more}, "requirements": {"host": host}}
                for host, more in itertools.product((["python"], ["h"]), ({}, {"imports": c15.LIST}, {"files": c15.LIST, "source_files": ["z"]}))
            ]
        for d, where in itertools.product(docs, c15.PLACES):
            lines = c15.write(c15.place(d, where), False).splitlines()
            usable = [j for j in range(len(lines)) if eligible(lines, j)]
            _comments(lines, usable, out, f"fields of {section if kind != 'test' else 'test'}")
            for j in usable:
                _comments(lines, [j], out, f"fields of {section if kind != 'test' else 'test'}")


def _sequences(name: str, first: int, depth: int, out: Out) -> None:
    text = RECIPES[name]
    n = len(EDITS)
    for k in range(depth):
        for rest in itertools.product(range(n + 1), repeat=k):
            seq = [first, *rest, n]
            if any(a == b == n for a, b in zip(seq, seq[1:])) and len(seq) > 2:
                continue
            r = RecipeParserConvert(text)
            control = RecipeParser(text)
            out.nt(name, tuple(seq))
            names = [EDITS[i][0] if i < n else "convert" for i in seq]
            for i in seq:
                out.step()
                if i < n:
                    got = apply(r, i)
                    want = apply(control, i)  # type: ignore[arg-type]
                    if not out.expect(got, want, f"edit {EDITS[i][0]}", f"{names} on {name}"):
                        break
                    continue
                before = state(r)
                new = convert(r)
                after = state(r)
                out.state(before["text"])
                for key, v in before.items():
                    out.expect(after[key], v, f"conversion changes {key}", f"{key} after {names} on\n{text}")
                out.expect(before["text"], control.render(), "edits", f"{names} on\n{text}")
                out.trace()
                out.expect(convert(RecipeParserConvert(before["text"])), new, "as re-read", f"conversion of the re-read recipe, and that after {names} on\n{text}")
                out.expect(convert(r), new, "again", f"second conversion after {names} on\n{text}")


@functools.lru_cache(maxsize=64)
def _bare(text: str) -> str:
    return RecipeParserConvert(text).render_to_v1_recipe_format()[0]


def eligible(lines: list[str], i: int) -> bool:
    body = lines[i].strip()
    if not body or body.startswith("{%") or "{{" in body or "#" in body or body.startswith("license:") or body == "summary:":
        return False
    indent = len(lines[i]) - len(lines[i].lstrip())
    for j in range(i - 1, -1, -1):
        up = lines[j]
        if up.strip() and len(up) - len(up.lstrip()) < indent:
            if up.rstrip().endswith("|"):
                return False
            break
    return not body.endswith("|")


def value_of(line: str) -> str:
    """What is on a line, without its place."""
    return line.split("  # ")[0].strip().removeprefix("- ").strip()


def _comments(lines: list[str], marked: list[int], out: Out, key: str) -> None:
    marks = {i: f"c{i}x" for i in marked}
    text = "\n".join(f"{l}  # {marks[i]}" if i in marks else l for i, l in enumerate(lines)) + "\n"
    out.nt(text)
    out.step()
    try:
        new, msgs, _ = RecipeParserConvert(text).render_to_v1_recipe_format()
        bare = _bare("\n".join(lines) + "\n")
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"raises: {key}", f"{e!r} for\n{text}")
        return
    reported = msgs.get_messages(MessageCategory.WARNING)
    shown = new.splitlines()
    for i, m in marks.items():
        at = [l for l in shown if m in l]
        said = [w for w in reported if m in w]
        out.outcome("kept" if at else "reported" if said else "lost")
        if not out.expect(len(at) + len(said), 1, f"comment: {key}", f"`{lines[i].strip()}  # {m}` is at {at}, reported {said}, after the conversion of\n{text}\nto\n{new}"):
            return
        if at:
            out.expect(at[0].strip().endswith(f"  # {m}") and value_of(at[0]) in (value_of(lines[i]), value_of(lines[i]).split(":")[0] + ":"), True, f"place: {key}", f"`{lines[i].strip()}  # {m}` is now at {at} in\n{new}")
    # As many comments with the same text, as there were before
    if len(marks) > 1:
        again = "\n".join(f"{l}  # samex" if i in marks else l for i, l in enumerate(lines)) + "\n"
        new2, msgs2, _ = RecipeParserConvert(again).render_to_v1_recipe_format()
        said2 = [w for w in msgs2.get_messages(MessageCategory.WARNING) if "samex" in w]
        out.expect((new2.count("samex"), len(said2)), (sum(new.count(f"{m}") for m in marks.values()), sum(any(m in w for m in marks.values()) for w in reported)), f"same comments: {key}", f"the comments kept and reported by the conversion of\n{again}\nto\n{new2}")
    # Comments change nothing else
    out.expect([l.split("  # ")[0].rstrip() if "x" in l else l for l in shown], [l.split("  # ")[0].rstrip() if "x" in l else l for l in bare.splitlines()], f"rest: {key}", f"conversion of\n{text}")
