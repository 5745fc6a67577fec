"""C08: variables and their substitution."""

from __future__ import annotations

import copy
import itertools
import re
from typing import Any, Iterator

import jinja2
import jinja2.meta
import yaml

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from crm import docs, domain
from crm.core import Out, same

ID = "C08"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all variable edit sequences plus exhaustive enumeration of substitutions vs Jinja"
RULE = (
    "Every supported and unsupported expression over every variable, alone, between other text, in every ordered pair, at "
    "every kind of position, in V0 and V1; every sequence of set, delete and patch operations up to the depth. A state is "
    "the list of variables and the text of the recipe."
)
ASSUMPTIONS = [
    "Jinja2 is the reference for the value of an expression, PyYAML for the type of the resulting text",
    "required by the repository's own tests: indexing past the end gives the whole value; adding a string to a number "
    "concatenates; the result of a concatenation is a string",
    "V1 strings that look like numbers are written without quotes (a known finding of C01) and not used in V1 edits",
]
CHUNK = 2

VARS: list[tuple[str, Any]] = [
    ("name", "Foo-Bar"),
    ("version", "1.2.3"),
    ("n", 42),
    ("f", 1.5),
    ("t", True),
    ("e", ""),
    ("a", "x"),
    ("na", "Y z"),
    ("name_", "under"),
    ("date", "2020-01-02"),
    ("star", "*.so"),
    ("xs", [1, "b"]),
    ("s1", "1"),
    ("s07", "07"),
    ("z", 0),
]
V = dict(VARS)
FILTERS = ["", "|lower", " | lower", "|upper", " | upper", "|lower|upper", " | upper | lower"]
UNRESOLVED = [
    "dne",
    "dne|lower",
    "compiler('c')",
    "name | replace('o', 'a')",
    "pin_subpackage(name)",
    "pin_compatible('name')",
    "name.upper()",
    "name[0] + a",
    "version.split('.')[0]",
    "name | length",
    "a ~ na",
    "n - 1",
    "lower",
]


def expressions() -> list[str]:
    out = []
    for name, value in VARS:
        out += [name + f for f in FILTERS]
        if isinstance(value, str):
            out += [f"{name}[{i}]{f}" for i in (0, 1, 2, 9) for f in ("", "|lower", " | upper")]
    terms = ["n", "f", "version", "name", "a", "1", "1.5", "'1'", '"x"', "'.'", "s1", "s07", "z"]
    out += [f"{x} + {y}" for x in terms for y in terms]
    out += [f"{x}+{y} + {z}" for x in ("n", "a", "'v'") for y in ("f", "version", "'.'") for z in ("2", "na", '"q"')]
    out += UNRESOLVED
    return [x for i, x in enumerate(out) if x not in out[:i]]


def jinja(expr: str) -> tuple[str, bool] | None:
    """The text that the expression stands for and whether it is a concatenation; None if it stays as it is."""
    if expr in UNRESOLVED:
        return None
    if "+" in expr:
        total: Any = None
        for term in expr.split("+"):
            v = eval(term.strip(), {}, dict(VARS))  # pylint: disable=eval-used
            if total is None:
                total = v
            elif isinstance(total, str) or isinstance(v, str):
                total = str(total) + str(v)
            else:
                total += v
        text = jinja2.Environment().from_string("{{ x }}").render(x=total)
        if all(isinstance(V.get(x.strip(), 1), (int, float)) and x.strip()[0] not in "\"'" for x in expr.split("+")):
            assert text == jinja2.Environment().from_string("{{ " + expr + " }}").render(**V)
        return text, isinstance(total, str)
    m = re.match(r"(\w+)\[(\d+)\](.*)", expr)
    if m and int(m.group(2)) >= len(V[m.group(1)]):
        expr = m.group(1) + m.group(3)
    return jinja2.Environment(undefined=jinja2.StrictUndefined).from_string("{{ " + expr + " }}").render(**V), False


def typed(text: str) -> Any:
    """How YAML reads `text` when it is the value of a key."""
    try:
        v = yaml.safe_load(text)
    except yaml.YAMLError:
        return text
    return v if v is None or isinstance(v, (str, int, float, bool, list, dict)) else text


def expected(parts: list[tuple[str, str]], schema: int) -> Any:
    """The value of a string that consists of ("text", ...) and ("expr", ...) parts."""
    text = ""
    changed = False
    for kind, p in parts:
        if kind == "text":
            text += p
            continue
        v = jinja(p)
        if v is None:
            text += "${{ " + p + " }}"
            changed = changed or schema == 0
        else:
            changed = True
            text += v[0]
            if v[1] and len(parts) == 1:
                return v[0]
    if not changed:
        return text
    value = typed(text)
    if len(parts) > 1 and isinstance(value, (str, list, dict)):
        return text
    return value


def source(parts: list[tuple[str, str]], schema: int) -> str:
    return "".join(p if kind == "text" else ("${{ " if schema else "{{ ") + p + " }}" for kind, p in parts)


def header(schema: int, variables: list[tuple[str, Any]]) -> dict:
    if schema == 0:
        return {"v": 0, "vars": [list(x) for x in variables], "root": []}
    ctx = [domain.K(k, scalar(x)) for k, x in variables]
    root = [domain.K("schema_version", domain.S("1", 1))]
    if ctx:
        root.append(domain.K("context", ["m", ctx]))
    return {"v": 1, "vars": [], "root": root}


def scalar(x: Any) -> list:
    if isinstance(x, str):
        return ["s", f'"{x}"', x]
    if isinstance(x, bool):
        return ["s", "true" if x else "false", x]
    return ["s", str(x), x]


def cases(tier: str) -> Iterator[Any]:
    ex = expressions()
    for schema in (0, 1):
        for e in ex:
            yield ["expr", schema, e]
        for i in range(0, len(ex), 8):
            yield ["pair", schema, ex[i : i + 8], tier == "thorough"]
        yield ["plain", schema]
        yield ["many", schema]
        yield ["refs", schema]
        for d in range(4):
            yield ["edits", schema, d, 4 if tier == "thorough" else 3]
        yield ["values", schema]
    yield ["header"]
    for e in SET_EXPRESSIONS:
        yield ["set-expression", e]


# Expressions that are assigned to variables, and strings with quotes
SET_EXPRESSIONS = [
    'version.split(".")[0]', "name|lower", "name | upper", 'environ.get("X", "1")', "version", 'name + "-x"', "'a\"b'", "1 + 1", "name[0]", 'name ~ "-" ~ version',
    'name if version else "b"', 'name|replace("n", "m")', '"%s" % name', "version|upper|lower", '"a" + name + version', "num + 1", "num", "num * 2", "name == version",
    "low", "low|upper", 'low + "-x"', "low[0]", '"a" + low', 'name + "x"', "low + version", "'it\\'s'", '"a\\"b"', '"tab\\tq"', '"back\\\\slash"', "'x=y'",
]  # fmt: skip
# Those that substitution does not support: the variable stays in place
UNSUPPORTED = {'name + "-x"', 'low + "-x"', 'version.split(".")[0]', 'environ.get("X", "1")', 'name ~ "-" ~ version', 'name if version else "b"', 'name|replace("n", "m")', '"%s" % name', "num * 2", "name == version"}


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    globals()["_" + kind.replace("-", "_")](case, out)


def _surroundings(e: str) -> Iterator[list[tuple[str, str]]]:
    x = ("expr", e)
    t = lambda s: ("text", s)  # noqa: E731
    yield [x]
    v = jinja(e)
    if v and v[1]:
        return  # The repository's tests require quotes in the text around a concatenation
    yield [t("v"), x]
    yield [x, t("-b")]
    yield [t("a-"), x, t(".c")]
    yield [x, t("."), x]
    yield [t("k: "), x]
    yield [t("it's "), x, t(" # no")]
    yield [x, t(" b "), ("expr", "dne")]


def _expr(case: Any, out: Out) -> None:
    _, schema, e = case
    for parts in _surroundings(e):
        _positions(parts, schema, out)


def _pair(case: Any, out: Out) -> None:
    _, schema, firsts, thorough = case
    plain = [x for x in expressions() if not (jinja(x) or ("", False))[1]]
    seconds = plain if thorough else plain[::5]
    d = header(schema, VARS)
    strings = []
    for a, b in itertools.product(firsts, seconds):
        if (jinja(a) or ("", False))[1]:
            continue
        for sep in ("", "/"):
            parts = [("expr", a)] + ([("text", sep)] if sep else []) + [("expr", b)]
            s = source(parts, schema)
            d["root"].append(domain.K(f"k{len(strings)}", ["s", s, s]))
            strings.append((s, expected(parts, schema)))
    r = RecipeParser(docs.text(d))
    everything = r.render_to_object(replace_variables=True)
    for i, (s, want) in enumerate(strings):
        out.ev()
        out.nt(schema, s)
        got = everything[f"k{i}"]
        if not same(got, want):
            out.fail(f"pair: {s}", f"{s} gives {got!r}, not {want!r}")


def _quoted(s: str) -> str:
    """YAML text of the string: as recipes have it."""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"' if (": " in s or " #" in s) and '"' not in s else s


def _positions(parts: list[tuple[str, str]], schema: int, out: Out) -> None:
    s = source(parts, schema)
    if ": " in s and '"' in s:
        return
    want = expected(parts, schema)
    t = _quoted(s)
    d = header(schema, VARS)
    S = ["s", t, s]
    block_text = "".join(p if k == "text" else (jinja(p) or ("${{ " + p + " }}",))[0] for k, p in parts)
    has_concat = any(k == "expr" and (jinja(p) or ("", False))[1] for k, p in parts)
    d["root"] += [
        domain.K("k", S, "# [win]"),
        domain.K("s", ["m", [domain.K("m", S), domain.K("z", domain.S("z"))]]),
        domain.K("one", ["l", [domain.I(S, "# c")]]),
        domain.K("l", ["l", [domain.I(domain.S("y")), domain.I(S)]]),
        domain.K("o", ["l", [domain.I(["m", [domain.K("m", S), domain.K("q", ["l", [domain.I(S)]])]])]]),
    ]
    block = "{{" in s and not has_concat
    if block:
        d["root"].append(domain.K("b", ["b", "|-", ["l1 " + s, s + " l2"]]))
    text = docs.text(d)
    r = RecipeParser(text)
    paths = ["/k", "/s/m", "/one/0", "/l/1", "/o/0/m", "/o/0/q/0"]
    before = r.render()
    for p in paths:
        got = r.get_value(p, sub_vars=True)
        out.ev(2)
        out.nt(schema, s, p)
        if not same(got, want):
            out.fail(f"value: {s}", f"get_value({p}, sub_vars) of `{t}` is {got!r}, not {want!r} (schema {schema})")
        if r.get_value(p) != s:
            out.fail(f"raw: {s}", f"get_value({p}) of `{t}` is {r.get_value(p)!r}")
    data = {
        "k": want,
        "s": {"m": want, "z": "z"},
        "one": [want],
        "l": ["y", want],
        "o": [{"m": want, "q": [want]}],
    }
    if block:
        data["b"] = f"l1 {block_text}\n{block_text} l2"
    rendered = r.render_to_object(replace_variables=True)
    for k, x in data.items():
        out.ev(2)
        got = rendered[k]
        if not same(got, x):
            out.fail(f"object: {s}", f"render_to_object(True)[{k}] of `{t}` is {got!r}, not {x!r} (schema {schema})")
        got = r.get_value("/" + k, sub_vars=True)
        if not same(got, x):
            out.fail(f"section: {s}", f"get_value(/{k}, sub_vars) of `{t}` is {got!r}, not {x!r} (schema {schema})")
    out.ev()
    if r.render() != before or (schema == 0 and before != text) or r.is_modified():
        out.fail(f"changed: {s}", "substituting variables changes the recipe")


def _plain(case: Any, out: Out) -> None:
    """Strings without substitutions, and values that are not strings, are not changed."""
    schema = case[1]
    extra = [(f'"{x}"', x) for x in ("1", "1.10", "true", "null", "2020-01-01", "0x10", "a: b", "[a]", "- a", "{a: 1}", "~", "%}", "{%", "{ {", "}}")]
    for text, value in domain.SCALARS + extra:
        if isinstance(value, str) and "{{" in value:
            continue
        for _, build, path in domain.POSITIONS + domain.ITEM_POSITIONS:
            d = header(schema, VARS)
            d["root"] += build(["s", text, value], "# c")
            r = RecipeParser(docs.text(d))
            out.nt(schema, text, path)
            out.ev(2)
            want = value
            got = r.get_value(path, sub_vars=True)
            if value is None and path.endswith("k"):
                continue
            if not same(got, want):
                out.fail(f"plain: {text}", f"get_value({path}, sub_vars) of {text} is {got!r}, not {want!r}")
            got = r.render_to_object(replace_variables=True)
            if not same(got, r.render_to_object()):
                out.fail(f"plain object: {text}", f"replacing no variables in\n{docs.text(d)}\ngives {got!r}")


def _many(case: Any, out: Out) -> None:
    """A URL with every number of substitutions, resolved or not, and V0 syntax in V1 recipes and the other way round."""
    schema = case[1]
    terms = [("name", "Foo-Bar"), ("version", "1.2.3"), ("dne", None), ("n", "42")]
    for count in (1, 2, 3, 4, 5):
        for seq in itertools.product(terms, repeat=count):
            o = "${{ " if schema else "{{ "
            s = "http://h/" + "/".join(f"{o}{e} }}}}" for e, _ in seq)
            want = "http://h/" + "/".join(v if v is not None else "${{ " + e + " }}" for e, v in seq)
            r = RecipeParser(docs.text(header(schema, VARS) | {"root": header(schema, VARS)["root"] + [domain.K("u", domain.S(s))]}))
            out.nt(schema, s)
            out.expect(r.get_value("/u", sub_vars=True), want, "many", s)
    if schema == 1:
        r = RecipeParser("schema_version: 1\n\ncontext:\n  name: x\n\nu: \"{{ name }}\"\nv: ${{ name }}\n")
        out.expect(r.get_value("/u", sub_vars=True), "{{ name }}", "v0-syntax-in-v1", "not a V1 substitution")
        out.expect(r.get_value("/v", sub_vars=True), "x", "v1-syntax-in-v1", "a V1 substitution")


REF_VARS = ["name", "na", "name_2", "a", "lower", "n.e", "version"]
REF_EXPRS = [
    "name", "name|lower", "na", "name_2 | upper", "a", "a + name", "version[0]", "compiler('name')", 'f("a")', "name.a", "a.name",
    "pin(name, exact=True)", "f(a)[0]", "x | lower", "lower", "lower | lower", "name | replace('a', 'b')", "version.split('.')[0] + name",
    "f('version') + na", "name ~ '-' ~ version",
]


def names_in(expr: str) -> set[str]:
    return jinja2.meta.find_undeclared_variables(jinja2.Environment().parse("{{ " + expr.replace(" ~ ", " + ") + " }}"))


def _refs(case: Any, out: Out) -> None:
    schema = case[1]
    o = "${{ " if schema else "{{ "
    variables = [(x, "v" + x) for x in REF_VARS if "." not in x]
    env: dict[str, set[str]] = {}
    for e in REF_EXPRS:
        e2 = e
        for f in re.findall(r"\|\s*(\w+)", e):
            assert f in ("lower", "upper", "replace")
        env[e] = names_in(e2)
    pairs = [(a,) for a in REF_EXPRS] + list(itertools.permutations(REF_EXPRS, 2))
    for combo in pairs:
        s = f"x {'}} y {{ '.replace('}}', ' }}').replace('{{ ', o).join(combo)}" if False else "x " + " y ".join(f"{o}{e} }}}}" for e in combo)
        used = set().union(*(env[e] for e in combo))
        d = header(schema, variables)
        d["root"] += [
            domain.K("k", domain.S(s), "# {{ name }} {{ a }}"),
            domain.K("plain", domain.S("name a version lower na")),
            domain.K("s", ["m", [domain.K("l", ["l", [domain.I(domain.S("z")), domain.I(domain.S(s), "# c"), domain.I(["m", [domain.K("m", domain.S(s))]])]]), domain.K("n", domain.S("1", 1))]]),
            domain.K("one", ["l", [domain.I(domain.S(s))]]),
            domain.K("b", ["b", "|", ["l1", s, "l3"]]),
        ]
        r = RecipeParser(docs.text(d))
        for v, _ in variables:
            want = ["/k", "/s/l/1", "/s/l/2/m", "/one/0", "/b"] if v in used else []
            got = r.get_variable_references(v)
            out.ev()
            out.nt(schema, combo, v)
            if got != want:
                out.fail(f"references: {v} in {combo}", f"references to {v} with {s} are {got}, not {want}")
        out.expect(r.get_variable_references("dne"), [], "references of no variable", "dne")


# ---- edits -----------------------------------------------------------------------------------------------------------
EDIT_VALUES: list[Any] = ["s2", 7, 1.5, False, "a b", "x#y", "it's", "*", ""]
STARTS: list[list[tuple[str, Any]]] = [[], [("name", "foo")], [("name", "foo"), ("n", 42)], [("n", 0), ("other", ""), ("name", "N")]]
USES = ["name", "n + 1", "name|lower", "fresh"]


def _model_doc(schema: int, variables: list[tuple[str, Any]], k: Any, ctx_at_end: bool) -> dict:
    d = header(schema, variables)
    o = "${{ " if schema else "{{ "
    body = [domain.K(f"u{i}", domain.S(f"{o}{e} }}}}")) for i, e in enumerate(USES)] + [domain.K("k", domain.S(k))]
    if ctx_at_end and len(d["root"]) == 2:
        ctx = d["root"].pop()
        d["root"] += body + [ctx]
    else:
        d["root"] += body
    return d


def _edits(case: Any, out: Out) -> None:
    _, schema, start, depth = case
    ops: list[tuple] = [("set", "name", "Bar"), ("set", "name", "foo"), ("set", "n", 0), ("set", "fresh", "f"), ("del", "name"), ("del", "n"), ("del", "dne"), ("use", "k", "name"), ("use", "k", "fresh")]
    if schema == 1:
        ops += [("ctx", "name", "ctx"), ("ctxrm", "n"), ("ctxall",)]
    for seq in itertools.product(ops, repeat=depth):
        variables = list(STARTS[start])
        text = docs.text(_model_doc(schema, variables, "z", False))
        r = RecipeParser(text)
        k = "z"
        modified = False
        at_end = False
        exists = bool(variables)
        for i, op in enumerate(seq):
            out.step()
            if op[0] == "set":
                r.set_variable(op[1], op[2])
                if schema == 1 and not exists:
                    at_end = exists = True
                _set(variables, op[1], op[2])
                modified = True
            elif op[0] == "del":
                had = op[1] in dict(variables)
                r.del_variable(op[1])
                variables = [x for x in variables if x[0] != op[1]]
                modified = modified or had
            elif op[0] == "use":
                k = ("${{ " if schema else "{{ ") + op[2] + " }}"
                assert r.patch({"op": "replace", "path": "/k", "value": k})
                modified = True
            elif op[0] == "ctx":
                ok = r.patch({"op": "add", "path": f"/context/{op[1]}", "value": op[2]})
                if ok != exists:
                    out.fail("context patch", f"{seq[:i + 1]}: patch gives {ok}")
                if exists:
                    _set(variables, op[1], op[2])
                    modified = True
            elif op[0] == "ctxrm":
                had = op[1] in dict(variables)
                r.patch({"op": "remove", "path": f"/context/{op[1]}"})
                variables = [x for x in variables if x[0] != op[1]]
                modified = modified or had
            else:
                r.patch({"op": "add", "path": "/context", "value": {"only": 1, "name": "Q"}})
                variables = [("only", 1), ("name", "Q")]
                at_end = at_end or not exists
                exists = modified = True
            # An emptied /context is left as an empty key, and is filled in place
            doc = _model_doc(schema, variables, k, at_end)
            if schema == 1 and exists and not variables:
                doc = _model_doc(schema, [("x", 1)], k, at_end)
                next(e for e in doc["root"] if e[1] == "context")[2] = ["e"]
            if not out.state(schema, docs.text(doc), modified) and i < depth - 1:
                continue
            out.trace()
            out.nt(schema, start, seq[: i + 1])
            _observe(r, schema, variables, doc, modified, f"{STARTS[start]} {seq[: i + 1]}", out)


def _set(variables: list, name: str, value: Any) -> None:
    for i, x in enumerate(variables):
        if x[0] == name:
            variables[i] = (name, value)
            return
    variables.append((name, value))


def _observe(r: RecipeParser, schema: int, variables: list, doc: dict, modified: bool, what: str, out: Out) -> None:
    text = _unquoted(doc, schema)
    kind = f"schema {schema}"
    out.expect(r.is_modified(), modified, f"modified: {kind}", what)
    out.expect(r.list_variables(), [x[0] for x in variables], f"list: {kind}", what)
    out.ev()
    if r.render() != text:
        out.fail(f"text: {kind}", f"{what}:\n{r.render()}\nnot\n{text}")
        return
    for name in ["name", "n", "fresh", "other", "only", "dne", ""]:
        here = dict(variables)
        out.expect(r.contains_variable(name), name in here, f"contains: {kind}", f"{what}: {name}")
        out.expect(r.get_variable(name, "dflt"), here.get(name, "dflt"), f"get: {kind}", f"{what}: {name}")
        out.expect(r.get_variable(name, None), here.get(name), f"get none: {kind}", f"{what}: {name}")
        try:
            got: Any = r.get_variable(name)
        except KeyError:
            got = KeyError
        out.expect(got, here.get(name, KeyError), f"get or raise: {kind}", f"{what}: {name}")
    fresh = RecipeParser(text)
    out.expect(fresh.list_variables(), [x[0] for x in variables], f"fresh list: {kind}", what)
    for name, value in variables:
        out.expect(fresh.get_variable(name), value, f"fresh value: {kind}", f"{what}: {name}")
    for p in ["/u0", "/u1", "/u2", "/u3", "/k"]:
        out.expect(r.get_value(p, sub_vars=True), fresh.get_value(p, sub_vars=True), f"substituted: {kind}", f"{what}: {p}")
    for name, _ in variables:
        out.expect(r.get_variable_references(name), fresh.get_variable_references(name), f"references: {kind}", f"{what}: {name}")
    if "name" in dict(variables):
        v = dict(variables)["name"]
        out.expect(r.get_value("/u0", sub_vars=True), typed(str(v)), f"use: {kind}", what)


def _unquoted(doc: dict, schema: int) -> str:
    """V1 variables are in the tree, where strings are only quoted if they need to be."""
    d = copy.deepcopy(doc)
    if schema == 1:
        for e in d["root"]:
            if e[1] == "context" and e[2][0] == "m":
                for x in e[2][1]:
                    if isinstance(x[2][2], str) and re.fullmatch(r"[\w .#']+", x[2][2]) and "'" not in x[2][2]:
                        x[2][1] = x[2][2]
    return docs.text(d)


def _values(case: Any, out: Out) -> None:
    """Every value, set in every way, is what is written and read again."""
    schema = case[1]
    values = EDIT_VALUES + ["{{ a }}", "é", "a\\b", "c:\\new", "tab\there", "two\nlines", "a=b", "a, b", "%", "# c", "[x]", "100%"]
    if schema == 0:
        values += ["1", "1.10", "true", None, [1, "a"], [], True, -3]
    for value in values:
        for old in ([], [("v", "o")], [("v", 3), ("w", "x")]):
            d = header(schema, old)
            d["root"].append(domain.K("k", domain.S("${{ v }}" if schema else "{{ v }}")))
            r = RecipeParser(docs.text(d))
            r.set_variable("v", value)
            out.nt(schema, repr(value), len(old))
            out.step()
            out.state(schema, repr(value), len(old))
            out.expect(r.get_variable("v"), value, f"set {value!r}", "get_variable after set_variable")
            fresh = RecipeParser(r.render())
            out.trace()
            if not (schema == 1 and isinstance(value, str) and "\n" in value):
                out.expect(fresh.get_variable("v"), value, f"set fresh {value!r}", f"re-read from\n{r.render()}")
            out.expect(fresh.list_variables(), ["v", "w"][: max(1, len(old))], f"set list {value!r}", "variables after set_variable")
            if len(old) == 2:
                out.expect(fresh.get_variable("w"), "x", f"set other {value!r}", "another variable")
            out.expect(r.get_value("/k", sub_vars=True), fresh.get_value("/k", sub_vars=True), f"set use {value!r}", "value of its use")
            out.expect(fresh.get_value("/k"), "${{ v }}" if schema else "{{ v }}", f"set body {value!r}", "the use")
            for x in (r, fresh):
                x.del_variable("v")
                out.expect(x.list_variables(), ["w"] if len(old) == 2 else [], f"delete {value!r}", "variables after del_variable")
                out.expect(x.contains_variable("v"), False, f"delete {value!r}", "contains_variable after del_variable")
                out.expect(RecipeParser(x.render()).list_variables(), ["w"] if len(old) == 2 else [], f"delete {value!r}", f"variables written:\n{x.render()}")


HEADERS: list[tuple[str, list[tuple[str, Any]]]] = [
    ('{% set v = "x" %}', [("v", "x")]),
    ("{% set v = 'x' %}", [("v", "x")]),
    ('{%set v="x"%}', [("v", "x")]),
    ('{%   set   v   =   "x"   %}', [("v", "x")]),
    ('{%- set v = "x" -%}', [("v", "x")]),
    ('{%- set v = "x" %}', [("v", "x")]),
    ('{% set v = "x" -%}', [("v", "x")]),
    ("{% set v = 5 %}", [("v", 5)]),
    ("{% set v = 1.5 %}", [("v", 1.5)]),
    ("{% set v = True %}", [("v", True)]),
    ("{% set v = true %}", [("v", True)]),
    ("{% set v = false %}", [("v", False)]),
    ("{% set v = none %}", [("v", None)]),
    ('{% set v = "a=b" %}', [("v", "a=b")]),
    ('{% set v = ["a", 1] %}', [("v", ["a", 1])]),
    ('{% set v = "x" %}  ', [("v", "x")]),
    ('{% set v = "x" %}\r', [("v", "x")]),
    ('{% set v = "1" %}\n{% set w = v2 %}\n{% set v = "2" %}', [("v", "2"), ("w", "v2")]),
    ('# {% set v = "x" %}', [("v", "x")]),
    ('{# {% set v = "x" %} #}', []),
    ("{# note #}", []),
    ("{% if unix %}\n{% set v = 1 %}\n{% endif %}", [("v", 1)]),
]


def _header(case: Any, out: Out) -> None:
    """Statements before, between and after the other lines never swallow one of those, and are all found."""
    body = ["a:", "  b: 1", "  c:", "    - x", "    - y", "z: 2"]
    data = {"a": {"b": 1, "c": ["x", "y"]}, "z": 2}
    for head, want in HEADERS:
        for at in range(len(body)):
            for head2, want2 in [("", [])] + HEADERS[:6]:
                lines = [head2.replace(" v", " y")] * bool(head2) + body[:at] + [head] + body[at:]
                text = "\n".join(lines) + "\n"
                r = RecipeParser(text)
                table = dict([("y", x[1]) for x in want2] + want)
                out.nt(head, head2, at)
                out.expect(r.list_variables(), list(table), f"header list: {head}", f"variables of\n{text}")
                for k, v in table.items():
                    out.expect(r.get_variable(k), v, f"header value: {head}", f"{k} of\n{text}")
                out.expect(r.render_to_object(), data, f"header data: {head}", f"data of\n{text}")
    for tail, want in (("# {% set v = 1 %}", [("v", 1)]), ("{# c #}", []), ("  # {# c #}", [])):
        for at in range(len(body)):
            if body[at].endswith(":") and not tail.strip().startswith("#"):
                continue
            text = "\n".join(body[:at] + [f"{body[at]}  {tail}"] + body[at + 1 :]) + "\n"
            r = RecipeParser(text)
            out.nt(tail, at)
            out.expect(r.render_to_object(), data, f"trailing statement: {tail}", text)
            out.expect(r.list_variables(), [k for k, _ in want], f"trailing statement list: {tail}", text)


def _set_expression(case: Any, out: Out) -> None:
    e = case[1]
    text = f'{{% set name = "N" %}}\n{{% set version = "1.2a" %}}\n{{% set num = 7 %}}\n{{% set low = name|lower %}}\n{{% set x = {e} %}}\n\nk: {{{{ x }}}}\nl: a {{{{ x }}}} b\n'
    env = jinja2.Environment()
    env.globals["environ"] = {}
    want = env.from_string(text).render().strip().replace("\n\n", "\n")
    r = RecipeParser(text)
    got = r.render()
    out.nt(e)
    try:
        value = env.from_string(got).render().strip().replace("\n\n", "\n")
    except jinja2.TemplateError as err:
        value = repr(err)
    out.expect(value, want, f"set-expression:{e}", f"the written recipe renders to something else:\n{got}")
    again = RecipeParser(got)
    out.expect(again.render(), got, f"set-expression again:{e}", "the recipe changes when written twice")
    out.expect(str(again.get_variable("x")), str(r.get_variable("x")), f"set-expression again:{e}", "the variable changes when the recipe is written")
    result = env.from_string("{% set name = 'N' %}{% set version = '1.2a' %}{% set num = 7 %}{% set low = name|lower %}{{ " + e + " }}").render()
    for path, before, after in (("/k", "", ""), ("/l", "a ", " b")):
        v = str(r.get_value(path, sub_vars=True))
        if path == "/l":
            # The repository's tests require quotes around a concatenation inside other text
            v = v.replace('"', "") if "+" in e else v
        out.expect(v, f"{before}${{{{ x }}}}{after}" if e in UNSUPPORTED else before + result + after, f"set-expression value:{e}", f"value of {path} in\n{text}")
    r.set_variable("name", "M")
    want = env.from_string(text.replace('"N"', '"M"')).render().strip().replace("\n\n", "\n")
    try:
        value = env.from_string(r.render()).render().strip().replace("\n\n", "\n")
    except jinja2.TemplateError as err:
        value = repr(err)
    out.expect(value, want, f"set-expression edit:{e}", f"changing a variable that {e} may use")
    # A cycle ends
    text = '{% set a = b %}\n{% set b = a|lower %}\nk: "{{ a }}"\n'
    out.expect(RecipeParser(text).get_value("/k", sub_vars=True), "${{ a }}", "set-expression cycle", text)

