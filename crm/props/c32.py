"""C32: a converted recipe has the same values as the V0 recipe, once the variables are replaced."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

import jinja2
import yaml

from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory
from crm.core import Out

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = "all pairs of variable definitions x all expressions x all places, V0 and V1 recipe both rendered with Jinja and compared"
RULE = "Every definition alone and every ordered pair of definitions, each with all expressions in a list, a block and other fields. Non-trivial: distinct recipes."
ASSUMPTIONS = ["V0 recipes are rendered as a whole, V1 recipes value by value with ${{ }}, with the context evaluated in order", "the order of the keys of a mapping does not matter, except in context"]
CHUNK = 1
CASE_TIMEOUT_S = 300

# What build tools provide
FUNCTIONS: dict[str, Any] = {
    "PYTHON": "py", "SRC_DIR": "src", "PKG_NAME": "pkg", "GPU": "gpu",
    "compiler": lambda *a, **k: f"compiler {a} {k}", "pin_subpackage": lambda *a, **k: f"pin {a} {k}", "pin_compatible": lambda *a, **k: f"compatible {a} {k}",
    "cdt": lambda x: f"cdt {x}", "environ": {"HOME": "h"},
}  # fmt: skip

# Literal values: (text in the V0 recipe, whether it has a V1 form)
DEFINITIONS: list[tuple[str, bool]] = [
    ('"foo-bar"', True), ("'Foo'", True), ('"1.2.3"', True), ("3", True), ("-3", True), ("1.5", True), ("true", True), ("False", True), ('""', True),
    ('"a: b # c"', True), ('"it\'s"', True), ("'say \"hi\"'", True), ('" spaces "', True), ('"https://x.org/{}"', True), ('"* [x]"', True), ('"@a"', True), ('"a|lower"', True),
    ('"a + b"', True), ('"x[0]"', True), ('"match(a, b)"', True), ('"a = b"', True), ('"%}x"', False),
    ("none", False), ("None", False), ("[1, 2]", False), ('{"a": 1}', False), ("(1, 2)", False),
]  # fmt: skip
EXPRESSIONS_OF_A = [  # Assigned to a second variable
    "a|lower", "a | upper", 'a|replace("o", "0")', "a|replace('-', '_')", 'a + "x"', 'a ~ "-" ~ a', "a[0]", "a", 'a if a else "c"', '"v" ~ a', 'a|string|length', '"%s-%s" % (a, a)',
    'environ["HOME"]', "a == a", "not a", '(a|string).split("-")[0]', '"x" * 2', "1 + 1",
]  # fmt: skip

# Texts that YAML takes for something else if they are not quoted.
NUMERIC = ["1", "1.10", "1.0", "3", "true", "True", "False", "no", "null", "None", "~", "0x10", "1e3", "2020-01-01", "1_000", "00", "-1", ".5"]

TEMPLATES = [
    "{{ a }}", "x-{{ a }}", "{{a}}", "{{ a }}{{ b }}", "{{ a }}-{{ b }}.tgz", "{{ a|lower }}", "{{ a | upper }}", '{{ a|replace("o", "_") }}', '{{ compiler("c") }}',
    '{{ pin_subpackage("a", max_pin="x.x") }}', '{{ pin_subpackage(a|string, exact=True) }} x', "{{ PYTHON }} -m pip install . -vv", '{{ a ~ "-" ~ b }}', '{{ a if b else "c" }}',
    '{{ "a/b" }}', "{{ a == b }}", '{{ a | replace(":", "/") }}', '{{ undefined | default("x@y") }}', "{{ [a, b]|join('&') }}", "{{ (a|string)[:2] }}", "{{ 3 * 2 }}", "{{ 7 // 2 }}%",
    "https://x.org/{{ a }}/{{ b }}-{{ a }}.tar.gz", '{{ "{}" }}', "{{ 1 > 2 }}", "{{ a|e }}!", "{{-a-}}", '{{ "x" }} {{ "y" }} {{ "z" }}', "text", "{ {a} }",
]  # fmt: skip


def cases(tier: str) -> Iterator[Any]:
    for i in range(len(DEFINITIONS)):
        yield ["alone", i]
        yield ["pairs", i, tier != "quick"]
        yield ["expressions", i]
    for i in range(len(TEMPLATES)):
        yield ["places", i]
    yield ["many"]
    for t in NUMERIC:
        yield ["numeric", t]
    yield ["nothing"]


def environment(v1: bool) -> jinja2.Environment:
    e = jinja2.Environment(variable_start_string="${{" if v1 else "{{", undefined=jinja2.StrictUndefined)
    e.globals.update(FUNCTIONS)
    return e


V0, V1 = environment(False), environment(True)


class Typed:
    """The text of a value together with what YAML takes it for."""


def scalar(text: str) -> Any:
    return text


def walk_v0(v: Any, variables: dict[str, Any]) -> Any:
    """`v`: data whose strings are templates."""
    if isinstance(v, dict):
        return {k: walk_v0(x, variables) for k, x in v.items()}
    if isinstance(v, list):
        return [walk_v0(x, variables) for x in v]
    if isinstance(v, str):
        return V0.from_string(v).render(variables).strip()
    return "" if v is None else str(v)


def walk_v1(v: Any, variables: dict[str, Any]) -> Any:
    if isinstance(v, dict):
        return {k: walk_v1(x, variables) for k, x in v.items()}
    if isinstance(v, list):
        return [walk_v1(x, variables) for x in v]
    if isinstance(v, str):
        return V1.from_string(v).render(variables).strip()
    return "" if v is None else str(v)


def quoted(t: str) -> str:
    """A template as a YAML scalar."""
    if '"' in t:
        return "'" + t.replace("'", "''") + "'"
    return f'"{t}"'


def context_of(data: Any, out: Out, what: str) -> dict[str, Any]:
    variables: dict[str, Any] = {}
    for k, v in (data.get("context") or {}).items():
        if isinstance(v, str) and "${{" in v:
            # The value of an expression keeps its type if there is nothing else
            inner = v.removeprefix("${{").removesuffix("}}")
            if v.startswith("${{") and v.endswith("}}") and "}}" not in inner:
                variables[k] = V1.compile_expression(inner, undefined_to_none=False)(**variables)
            else:
                variables[k] = V1.from_string(v).render(variables)
        else:
            variables[k] = v
    out.count("context variables", len(variables))
    return variables


def decide(definitions: list[tuple[str, str, bool]], body: dict[str, Any], lines: list[str], out: Out, what: str, unused: bool = False) -> None:
    """`body` is the data of `lines`, with templates in it. The third part of a definition: whether it has a V1 form."""
    text = "\n".join([f"{{% set {k} = {v} %}}" for k, v, _ in definitions] + ([""] if definitions else []) + lines) + "\n"
    out.nt(text)
    out.step()
    try:
        variables = V0.from_string("".join(f"{{% set {k} = {v} %}}" for k, v, _ in definitions)).make_module().__dict__ if definitions else {}
        variables = {k: variables[k] for k, _, _ in definitions}
        result, msgs, _ = RecipeParserConvert(text).render_to_v1_recipe_format()
        data = yaml.safe_load(result)
        context = context_of(data, out, what)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"raised {what}", f"converting {text!r} raised {e!r}")
        return
    supported = [k for k, _, ok in definitions if ok]
    out.expect(list(data.get("context") or {}), supported, f"variables {what}", f"context of {text!r}")
    out.expect("context" in data, bool(supported), f"context {what}", f"context of {text!r}")
    out.expect({k: typed(v) for k, v in context.items()}, {k: typed(variables[k]) for k in supported}, f"values {what}", f"values of the context of {text!r}, which became {result!r}")
    warned = [m for m in msgs.get_messages(MessageCategory.WARNING) if "unsupported type" in m]
    out.expect(warned, [f"The variable `{k}` is an unsupported type." for k, _, ok in definitions if not ok], f"warnings {what}", f"warnings of {text!r}")
    out.expect(msgs.get_messages(MessageCategory.ERROR), [], f"errors {what}", f"errors of {text!r}")
    if unused:
        return
    data = {k: v for k, v in data.items() if k not in ("context", "schema_version")}
    try:
        got = walk_v1(data, context)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"render {what}", f"{text!r} became {result!r}, which does not render: {e!r}")
        return
    out.expect(got, walk_v0(body, variables), what, f"values of {text!r}, which became {result!r}")


def typed(v: Any) -> Any:
    return (type(v).__name__, v)


def listing(templates: list[str]) -> tuple[dict[str, Any], list[str]]:
    return {"package": {"name": "p"}, "extra": {"x": templates}}, ["package:", "  name: p", "extra:", "  x:", *(f"    - {quoted(t)}" for t in templates)]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind in ("alone", "expressions"):
        text, ok = DEFINITIONS[case[1]]
        if "%}" in text:
            return
    if kind == "alone":
        definitions = [("a", text, ok), ("b", '"B"', True)]
        usable = TEMPLATES if ok else [t for t in TEMPLATES if "a" not in t.replace("lower", "")]
        for t in usable:
            decide(definitions, *listing([t]), out, f"{t} with {text}")
        decide(definitions[:1], *listing(["x"]), out, f"only {text}")
        decide(definitions[::-1], *listing(["{{ b }}"]), out, f"last {text}")
        for spaces in ("{%% set a=%s %%}", "{%%- set a = %s -%%}", "{%%set a = %s%%}", "{%% set  a  =  %s  %%}"):
            src = spaces % text + "\npackage:\n  name: p\n"
            result = yaml.safe_load(RecipeParserConvert(src).render_to_v1_recipe_format()[0])
            want = V0.from_string(f"{{% set a = {text} %}}").make_module().a
            out.nt(src)
            out.expect(typed((result.get("context") or {}).get("a", ...)), typed(want if ok else ...), "spaces", f"context of {src!r}")
    elif kind == "pairs":
        for j, (text, ok) in enumerate(DEFINITIONS):
            first, ok1 = DEFINITIONS[case[1]]
            if "%}" in text + first:
                continue
            definitions = [("a", first, ok1), ("b", text, ok)]
            usable = TEMPLATES if ok and ok1 else ["text", "{{ PYTHON }}", *(["{{ a }}"] if ok1 else []), *(["x{{ b }}"] if ok else [])]
            usable = [t for t in usable if works(t, definitions)]
            for k in range(len(usable)) if case[2] else ((case[1] + j) % len(usable),):
                decide(definitions, *listing(usable[k:] + usable[:k]), out, f"{first}, {text}")
    elif kind == "expressions":
        if not ok:
            return
        for e in EXPRESSIONS_OF_A:
            definitions = [("a", text, True), ("b", e, True)]
            if not works("{{ b }}", definitions):
                continue
            decide(definitions, *listing(["{{ b }}", "x{{ b }}y{{ a }}"]), out, f"set b = {e} with a = {text}")
            for f in ("b", "b|string|upper", 'b ~ "x"'):
                three = [*definitions, ("c", f, True)]
                decide(three, *listing(["{{ c }}{{ b }}"]), out, f"set c = {f} with b = {e}")
    elif kind == "places":
        t = TEMPLATES[case[1]]
        definitions = [("a", '"foo"', True), ("b", '"b-r"', True)]
        q = quoted(t)
        bare = t if t[0] not in "{" or t.startswith("{{ ") or t.startswith("{{a") else q
        if "%" == t[-1] or t.startswith("{ {"):
            bare = q
        for v in (q, bare):
            body: dict[str, Any] = {
                "package": {"name": t, "version": "x" + t.strip()}, "source": [{"url": [t, "u"], "sha256": "s"}, {"url": t}], "build": {"script": [t, "b", t], "number": 7, "string": t},
                "requirements": {"host": ["h", t], "run_constraints": [t]}, "about": {"homepage": t, "description": f"l1 {t}\n{t}\n\nl3", "summary": f"folded {t} {t}", "license": "MIT"},
                "tests": [{"python": {"imports": [t]}}, {"requirements": {"run": [t]}, "script": [t]}], "extra": {"deep": {"er": [{"k": t, "l": ["m", t]}]}, "z": t},
            }  # fmt: skip
            xq = quoted("x" + t.strip())
            lines = [
                "package:", f"  name: {v}", f"  version: {xq}", "source:", "  - url:", f"      - {v}", "      - u", "    sha256: s", f"  - url: {v}",
                "build:", "  number: 7", "  script:", f"    - {v}", "    - b", f"    - {v}", f"  string: {v}", "requirements:", "  host:", "    - h", f"    - {v}", "  run_constrained:", f"    - {v}",
                "about:", f"  home: {v}", "  description: |", f"    l1 {t}", f"    {t}", "", "    l3", "  summary: >-", f"    folded {t}", f"    {t}", "  license: MIT",
                "test:", "  imports:", f"    - {v}", "  requires:", f"    - {v}", "  commands:", f"    - {v}", "extra:", "  deep:", "    er:", f"      - k: {v}", "        l:", "          - m", f"          - {v}", f"  z: {v}",
            ]  # fmt: skip
            if t.startswith(" "):
                continue
            decide(definitions, body, lines, out, f"places of {t}")
            many = {"recipe": {"name": t}, "outputs": [{"package": {"name": "o"}, "build": {"script": [t]}}, {"package": {"name": t, "version": t}, "requirements": {"run": [t]}}]}
            lines = ["package:", f"  name: {v}", "outputs:", "  - name: o", "    build:", "      script:", f"        - {v}", f"  - name: {v}", f"    version: {v}", "    requirements:", "      run:", f"        - {v}"]
            decide(definitions, many, lines, out, f"outputs with {t}")
            comments = [f"# {t}", "package:", "  name: p", f"  # {t}", "extra:", f"  x: {v}", f"  # {t}"]
            decide(definitions, {"package": {"name": "p"}, "extra": {"x": t}}, comments, out, f"comments with {t}")
            # With a selector
            for where in ("host", "run"):
                src = "\n".join(["{% set a = 'foo' %}", "{% set b = 'b-r' %}", "requirements:", f"  {where}:", f"    - {v}  # [win]", "    - x"]) + "\n"
                data = yaml.safe_load(RecipeParserConvert(src).render_to_v1_recipe_format()[0])
                item = data["requirements"][where][0]
                out.nt(src)
                got = walk_v1(item["then"], {"a": "foo", "b": "b-r"}) if isinstance(item, dict) else item
                out.expect((got, item.get("if") if isinstance(item, dict) else None), (walk_v0(t, {"a": "foo", "b": "b-r"}), "win"), f"selector with {t}", f"converted {src!r}")
    elif kind == "numeric":
        for q in ('"', "'"):
            src = f"{{% set a = {q}{case[1]}{q} %}}\n{{% set b = {q}x{q} %}}\npackage:\n  name: p\n  version: {{{{ a }}}}\nextra:\n  x:\n    - {{{{ a }}}}-{{{{ b }}}}\n"
            result = RecipeParserConvert(src).render_to_v1_recipe_format()[0]
            out.nt(src)
            # The text stays, and so does the type
            text = yaml.load(result, Loader=yaml.BaseLoader)
            out.expect(text.get("context"), {"a": case[1], "b": "x"}, f"text of {case[1]}", f"context of {src!r}, which became {result!r}")
            out.expect((text["package"]["version"], text["extra"]["x"]), ("${{ a }}", ["${{ a }}-${{ b }}"]), f"text around {case[1]}", f"{src!r} became {result!r}")
            out.expect(typed(yaml.safe_load(result)["context"]["a"]), typed(case[1]), f"numeric-text:{case[1]}", f"type of a in {src!r}, which became {result!r}")
    elif kind == "many":
        ok = [d for d, good in DEFINITIONS if good and "%}" not in d]
        for n in range(1, len(ok) + 1):
            definitions = [(f"v{i}", d, True) for i, d in enumerate(ok[:n])]
            decide(definitions, *listing([f"{{{{ v{i} }}}}" for i in range(n)]), out, "many variables")
            decide(definitions[::-1], *listing([f"{{{{ v{i} }}}}" for i in range(n)]), out, "many variables")
        for names in itertools.permutations(["a", "aa", "a_b", "name"], 3):
            decide([(n, f'"{n.upper()}"', True) for n in names], *listing([f"{{{{ {n} }}}}" for n in names]), out, "names")
    else:
        for body, lines in (listing(["x"]), listing(["{{ PYTHON }}"])):
            decide([], body, lines, out, "no variables")


def works(t: str, definitions: list[tuple[str, str, bool]]) -> bool:
    try:
        V0.from_string("".join(f"{{% set {k} = {v} %}}" for k, v, _ in definitions) + t).render()
        return True
    except Exception:  # pylint: disable=broad-exception-caught
        return False
