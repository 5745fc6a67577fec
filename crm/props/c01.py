"""C01: reading and writing a recipe keeps it: canonical text is reproduced byte for byte, other layouts are normalised
once without losing data, comments, selectors or variables."""

from __future__ import annotations

import copy
import itertools
import re
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_reader import RecipeReader
from crm import docs, domain
from crm.core import Out, same

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "exhaustive bounded enumeration of recipe documents on the real reader/renderer vs a reference document model"
RULE = (
    "Every document of the families in crm/domain.py (all structures up to a node bound; every scalar, comment kind, "
    "empty key and block string at every position; every variable value; V0 and V1) plus every layout mutation of the "
    "small structures. Non-trivial: distinct recipe text."
)
ASSUMPTIONS = [
    "canonical layout: 2-space indentation, lists indented under their key, one blank line after each top-level section",
    "PyYAML is the reference for what YAML text means",
]

def canonical(doc: dict) -> str:
    return docs.text(doc)


# ---- layout mutations: text -> other text of the same recipe -------------------------------------------------------------
def _no_blank(t: str) -> str:
    return "\n".join(ln for ln in t.split("\n") if ln.strip()) + "\n"


def _more_blank(t: str) -> str:
    return "\n\n" + "\n\n".join(t.split("\n")) + "\n\n"


def _trailing_ws(t: str) -> str:
    return "\n".join(ln + "  " if ln else "   " for ln in t.split("\n"))


def _one_space(t: str) -> str:
    return re.sub(r"(\S)  (#[^\n]*)$", r"\1 \2", t, flags=re.M)


def _many_space(t: str) -> str:
    return re.sub(r"(\S)  (#[^\n]*)$", r"\1     \2", t, flags=re.M)


def _no_final_newline(t: str) -> str:
    return t.rstrip("\n")


def _single_quotes(t: str) -> str:
    return re.sub(r"(: |- )(v\d+)( |$)", r"\1'\2'\3", t, flags=re.M)


def _double_quotes(t: str) -> str:
    return re.sub(r"(: |- )(v\d+)( |$)", r'\1"\2"\3', t, flags=re.M)


def _wide_values(t: str) -> str:
    return re.sub(r"(: |- )(v\d+)( |$)", r"\1   \2\3", t, flags=re.M)


def _quoted_keys(t: str) -> str:
    return re.sub(r"^(\s*(?:- )?)(k\d+):", r'\1"\2":', t, flags=re.M)


def _jinja_comment(t: str) -> str:
    return "{# a template comment #}\n" + t


MUTATIONS = {
    f.__name__.strip("_"): f
    for f in (
        _no_blank,
        _more_blank,
        _trailing_ws,
        _one_space,
        _many_space,
        _no_final_newline,
        _single_quotes,
        _double_quotes,
        _wide_values,
        _quoted_keys,
        _jinja_comment,
    )
}

HEADERS: list[tuple[str, str]] = [
    ('{% set name = "foo" %}', '{% set name = "foo" %}'),
    ("{% set name = 'foo' %}", '{% set name = "foo" %}'),
    ('{%set name="foo"%}', '{% set name = "foo" %}'),
    ('{%  set   name  =  "foo"  %}', '{% set name = "foo" %}'),
    ("{% set name = 5 %}", "{% set name = 5 %}"),
    ("{% set name = 1.5 %}", "{% set name = 1.5 %}"),
    ("{% set name = [1, 2] %}", "{% set name = [1, 2] %}"),
    ('{% set name = "a=b" %}', '{% set name = "a=b" %}'),
    ('{% set name = "a # b" %}', '{% set name = "a # b" %}'),
]

QUOTED_LIKE_OTHER_TYPES = ["1", "1.10", "1.0", "true", "no", "null", "2020-01-01", "1e3", "0x10", "~"]

BODY = 'package:\n  name: "{{ name }}"\n'


def cases(tier: str) -> Iterator[Any]:
    for fam, d in domain.all_families(tier):
        yield ["canon", fam, d]
    small = [d for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)) for d in domain.all_docs_exact(n)]
    for name in MUTATIONS:
        for d in small:
            yield ["mutate", name, d]
        for d in domain.big_docs():
            yield ["mutate", name, d]
        for d in domain.comment_docs(3 if tier == "quick" else 4):
            yield ["mutate", name, d]
    for d in [d for n in range(1, 6 if tier == "thorough" else 5) for d in domain.all_docs_exact(n)] + list(domain.big_docs())[:9]:
        yield ["indent", d, 2 if len(docs.slots(d)) <= (4 if tier == "thorough" else 3) else 1]
    for i in range(len(HEADERS)):
        for j in range(len(HEADERS) + 1):
            yield ["header", i, j]
    for s in QUOTED_LIKE_OTHER_TYPES:
        for pos in range(len(domain.POSITIONS + domain.ITEM_POSITIONS)):
            yield ["quoted", s, pos]
    yield ["null"]
    for variant in ("|+", ">+"):
        yield ["keep", variant]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "canon":
        _, fam, d = case
        want = canonical(d)
        out.nt(want)
        for cls in (RecipeReader, RecipeParser):
            got = cls(docs.text(d)).render()
            out.expect(got, want, f"canonical:{fam}", "text in the tool's own layout is not reproduced")
        out.outcome(fam)
        out.sample(want[:200])
        return
    if kind == "mutate":
        _, name, d = case
        want = canonical(d)
        text = MUTATIONS[name](docs.text(d))
        if name in ("no_blank", "more_blank", "trailing_ws") and _has_block(d["root"]):
            return
        out.nt(text)
        r = RecipeReader(text)
        once = r.render()
        out.expect(once, want, f"layout:{name}", "another layout of the recipe is not normalised to the same text")
        out.expect(RecipeReader(once).render(), once, f"stable:{name}", "writing is not stable")
        out.outcome(f"layout-{name}")
        return
    if kind == "indent":
        _indent(case[1], case[2], out)
        return
    if kind == "header":
        _, i, j = case
        head, want = HEADERS[i]
        lines, wants = [head], [want]
        if j < len(HEADERS):
            lines.append(HEADERS[j][0].replace("name", "version"))
            wants.append(HEADERS[j][1].replace("name", "version"))
        text = "\n".join(lines) + "\n\n" + BODY
        out.nt(text)
        got = RecipeReader(text).render()
        out.expect(
            got, "\n".join(wants) + "\n\npackage:\n  name: {{ name }}\n", f"header:{i}:{j}", "the variables section changed"
        )
        out.outcome("header")
        return
    if kind == "quoted":
        _, s, pos = case
        name, build, _ = (domain.POSITIONS + domain.ITEM_POSITIONS)[pos]
        text = docs.text(domain.v(build(["s", f'"{s}"', s], "")))
        out.nt(text)
        got = RecipeReader(text).render()
        out.expect(
            same(yaml.safe_load(got), yaml.safe_load(text)), True, f'quoted-scalar:"{s}"', f"{text!r} is written as {got!r}"
        )
        out.outcome("quoted")
        return
    if kind == "null":
        # `key: null` and `key:` mean the same; the tool writes the latter.
        for _, build, _ in domain.POSITIONS:
            for c in ("", "# note"):
                got = RecipeReader(docs.text(domain.v(build(["s", "null", None], c)))).render()
                out.expect(got, docs.text(domain.v(build(["e"], c))), "null", "`key: null` is not kept")
        return
    if kind == "keep":
        text = f"k: {case[1]}\n  l1\nz: z\n"
        got = RecipeReader(text).render()
        out.nt(text)
        out.expect(yaml.safe_load(got), yaml.safe_load(text), f"keep-block:{case[1]}", f"{text!r} is written as {got!r}")


def _indent(d: dict, n: int, out: Out) -> None:
    """Comment-only lines between any two lines, at any indentation, in any number up to n."""
    text = docs.text(d).split("\n")
    # The variables are always written first.
    head = max((i + 1 for i, line in enumerate(text) if line.startswith("{%")), default=0)
    gaps = [i for i in range(head, len(text) + 1) if not _inside_block(text, i)]
    want = yaml.safe_load("\n".join(text)) if "{{" not in "".join(text) else None
    for gap in gaps:
        for cols in itertools.product((0, 2, 4, 6, 1, 3), repeat=n):
            lines = text[:gap] + [f"{' ' * c}# full{i}" for i, c in enumerate(cols)] + text[gap:]
            given = "\n".join(lines)
            out.nt(given)
            r = RecipeReader(given)
            got = r.render()
            stripped = [[x.strip() for x in t.split("\n") if x.strip()] for t in (given, got)]
            content = [[x for x in t.split("\n") if x.strip() and not x.strip().startswith("#")] for t in (given, got)]
            ok = out.expect(stripped[1], stripped[0], "comment indentation: lines", f"{given!r} is written as {got!r}")
            ok = ok and out.expect(content[1], content[0], "comment indentation: content", f"{given!r} is written as {got!r}")
            ok = ok and out.expect(RecipeReader(got).render(), got, "comment indentation: stable", f"{given!r}")
            if ok and want is not None:
                out.expect(r.render_to_object(), want, "comment indentation: data", f"{given!r}")
    out.outcome("indent")


def _inside_block(text: list[str], i: int) -> bool:
    """Text at this line would be a part of a block string."""
    for start, line in enumerate(text[:i]):
        if re.search(r": [|>][+-]?(  #.*)?$", line):
            depth = len(line) - len(line.lstrip())
            depth += 2 if line.lstrip().startswith("- ") else 0
            end = start + 1
            while end < len(text) and (not text[end].strip() or len(text[end]) - len(text[end].lstrip()) > depth):
                end += 1
            if start < i <= end:
                return True
    return False


def _has_block(node: Any) -> bool:
    if isinstance(node, list):
        return bool(node and node[0] == "b" and len(node) == 3) or any(_has_block(x) for x in node)
    return False
