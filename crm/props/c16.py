"""C16: pre-processing before a conversion rewrites the known idioms, wherever they are, and nothing else."""

from __future__ import annotations

import itertools
import re
from typing import Any, Iterator

import jinja2
import yaml

from conda_recipe_manager.parser.recipe_parser import RecipeParser
from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from crm.core import Out

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "all expressions, strings and lines made of idioms and similar text, and all documents of such lines up to a length, vs a reference rewriting and the values given by Jinja and YAML"
RULE = (
    "All chains of up to 2 (3 thorough) calls on all kinds of values in all places; all strings of up to 4 (5 thorough) tokens; all documents of up to 3 (4 thorough) lines of the pool; all kinds of hash. Non-trivial: distinct texts."
)
ASSUMPTIONS = ["filters of Jinja with the names of methods of strings give the same values, but for join, format and count", "calls inside of calls inside of the arguments of a call are out of scope"]
CHUNK = 2

process = RecipeParserConvert.pre_process_recipe_text

#### Calls ####

# Written with a dot; written as a filter, if there is one
CALLS: list[tuple[str, str | None]] = [
    (".lower()", " | lower"), (".upper()", " | upper"), ('.replace("a", "B")', ' | replace("a", "B")'), (".capitalize()", " | capitalize()"), (".replace('.', f(\"(\"))", " | replace('.', f(\"(\"))"),
    ('.split(".")[0]', None), (".join([name, v])", None), (".count('a')", None), ("[0]", None), (".real", None), ("|lower", None),
]  # fmt: skip
HEADS = ["name", "v", '"a.b(c)D"', "'X'", "f(name)", 'f("a.b()")', "names[0]", "d.k", 'env.get("A")', "environ.get('A')", "os.environ.get('A')"]
AROUND = ["{}", "f({})", 'f({}, "q.r(s)")', "v ~ {}", "{} ~ '.'", "{} if name else v", '"x.y" + {}']
PLACES = [("{% set x = ", " %}"), ("{%set x=", "%}"), ("k: {{ ", " }}"), ("  - a-{{", "}}.c()"), ("k: {{ name }}/v.w(z)/{{ ", " }}-{{ v }}  # a.b()"), ("- '{{ v.upper()[0] }} {{ ", " }}'")]


def chain(head: str, calls: tuple[tuple[str, str | None], ...]) -> tuple[str, str] | None:
    """The expression with dots, and as it should become; None if it is not one that is used."""
    if any(a[0].startswith("|") and not b[0].startswith("|") for a, b in zip(calls, calls[1:])):
        return None
    last = max((i for i, c in enumerate(calls) if c[1] is None and not c[0].startswith("|")), default=-1)
    src = head + "".join(c[0] for c in calls)
    want = head + "".join(c[0] if i <= last or c[1] is None else c[1] for i, c in enumerate(calls))
    return src, want


ENV = jinja2.Environment()
CONTEXT: dict[str, Any] = {
    "name": "a.Nam", "v": "1.2a", "f": lambda x, *_: x, "names": ["aB.c", "d"], "d": {"k": "K.a"}, "env": {"A": "E.a"}, "environ": {"A": "E.a"}, "os": {"environ": {"A": "E.a"}},
}  # fmt: skip


def evaluated(e: str) -> Any:
    try:
        return ENV.from_string("{{ " + e + " }}").render(**CONTEXT)
    except (jinja2.TemplateError, TypeError, AttributeError) as err:
        return type(err).__name__


#### Strings ####

TOKENS = ["a", "\\n", '\\"', "\\\\", " ", "b: c", "# d", "{{ x }}", "'", "\\t", "é", "- e"]
INDENTS = ["", "  ", "    - ", "- - "]


def string(tokens: tuple[str, ...], indent: str, comment: str) -> tuple[str, str, str]:
    """A line with the string, as it should become, and the value."""
    body = "".join(tokens)
    value = yaml.safe_load(f'"{body}"')
    line = f'{indent}key: "{body}"{comment}'
    lines = value.removesuffix("\n").split("\n")
    if len(lines) < 2 or not lines[0] or not lines[-1] or any(l != l.strip() or not l.isprintable() for l in lines):
        return line, line, value
    pad = " " * (len(indent) + 2)
    return line, f"{indent}key: |{comment}" + "".join("\n" + (pad + l if l else "") for l in lines), value


#### Lines: (text, as it should become) ####

LINES: list[tuple[str, str | None]] = [
    ("a: 1", None), ("", None), ("- x  # c", None), ("  k: {{ name }}", None), ('k: "it\'s (a).b(c)"', None), ("script: os.system(x).y()", None), ("url: https://x.org/a.b(c)/{{ name }}.tgz", None),
    ("license_file: {{ environ[\"P\"] }}/x", "license_file: {{ env.get(\"P\") }}/x"),
    ("- {{ environ['A'] }}-{{ environ[\"B\"] }} {{ environ['A'] }}", "- {{ env.get('A') }}-{{ env.get(\"B\") }} {{ env.get('A') }}"),
    ('- {{ os.environ["P"] }} {{ environ["P"] }}', '- {{ os.environ["P"] }} {{ env.get("P") }}'),
    ('k: {{ my_environ["P"] }}', None), ("k: {{ environ[P] }}", None), ("k: {{ environ }}[\"P\"]", None), ("- environ", None),
    ('- {{ pin_compatible("x", min_pin="x.x", max_pin="x") }}', '- {{ pin_compatible("x", lower_bound="x.x", upper_bound="x") }}'),
    ("- {{ pin_subpackage(name, max_pin='x') }} # max_pin", "- {{ pin_subpackage(name, upper_bound='x') }} # max_pin"), ("max_pin: x", None), ("- min_pin", None),
    ("    {{ hash_type }}: abc", "    sha256: abc"), ("'{{ hash }}': abc", "sha256: abc"), ("  - {{ hashtype }}: {{ sha }}", "  - sha256: {{ sha }}"), ("url: {{ hash_value }}", None), ("hash: x", None), ("- {{ hash_type_x }}: q", None),
    ('{% set n = name.lower() %}', "{% set n = name | lower %}"), ("k: {{ name.upper() }}.{{ v }}", "k: {{ name | upper }}.{{ v }}"), ('{% set m = "1.2" %}', None), ("{% set m = 1.2 %}", None), ('{% set u = "https://x.org/f(1.2)" %}', None),
    ('d: "l1\\nl2"', "d: |\n  l1\n  l2"), ('  - d: "l1\\n\\nl2\\n"  # [win]', "  - d: |  # [win]\n      l1\n\n      l2"), ("d: 'a\\nb'", None), ('- "a\\nb"', None), ("- sed \"s/k: 'x\\ny'/z/\"", None), ("d: a\\nb", None), ('d: ["a\\nb"]', None), ('d: "a\\\\nb"', None),
    ("{{ x|lower() }}: y", "{{ x|lower }}: y"), ("k: lower()", None), ("# a: \"b\"", None),
]  # fmt: skip


def cases(tier: str) -> Iterator[Any]:
    deep = tier != "quick"
    for i in range(len(HEADS)):
        for j in range(len(AROUND)):
            yield ["calls", i, j, 3 if deep else 2]
    for i, j in itertools.product(range(len(TOKENS)), repeat=2):
        yield ["strings", i, j, 3 if deep else 2]
    for i in range(len(LINES)):
        yield ["lines", i, 4 if deep else 3]
    yield ["hashes"]
    yield ["pins"]
    yield ["bump"]


def decide(text: str, want: str, out: Out, key: str) -> None:
    out.nt(text)
    out.step()
    got = process(text)
    out.outcome("same" if want == text else "changed")
    if out.expect(got, want, key, f"of\n{text}\n"):
        out.expect(process(got), got, f"again: {key}", f"the second time, of\n{text}\n")


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "calls":
        _calls(case[1], case[2], case[3], out)
    elif kind == "strings":
        for k in range(case[3] + 1):
            for rest in itertools.product(TOKENS, repeat=k):
                tokens = (TOKENS[case[1]], TOKENS[case[2]], *rest)
                for n, (indent, comment) in enumerate(itertools.product(INDENTS, ("", "  # [win]"))):
                    if k == case[3] and (n + case[1] + case[2]) % 4:
                        continue
                    line, want, value = string(tokens, indent, comment)
                    decide(f"x: 1\n{line}\ny: 2\n", f"x: 1\n{want}\ny: 2\n", out, "strings")
                    if want != line and "{{" not in want:
                        # The block has the value of the string, but for the last newline
                        data = yaml.safe_load(want)
                        while isinstance(data, list):
                            data = data[0]
                        out.expect(data["key"].removesuffix("\n"), value.removesuffix("\n"), "value of string", line)
    elif kind == "lines":
        for k in range(case[2]):
            for rest in itertools.product(range(len(LINES)), repeat=k):
                if k > 2 and (case[1] + sum(rest) * 3 + rest[-1]) % 12:
                    continue
                lines = [LINES[i] for i in (case[1], *rest)]
                for end in ("\n", "") if k < 2 else ("\n",):
                    decide("\n".join(l for l, _ in lines) + end, "\n".join(l if w is None else w for l, w in lines) + end, out, "lines")
    elif kind == "hashes":
        _hashes(out)
    elif kind == "pins":
        values = ["'x'", '"x.x"', "None", "pins[0]", "p", "''", '"x" ~ p', "p|lower", "1"]
        functions = ["pin_subpackage(name, {})", "pin_compatible('n', {})", "pin_subpackage(name, {}, exact=True)", "f({})", "pin_compatible( name|lower,{} )"]
        for f, a, b in itertools.product(functions, values, values):
            for args in (f"min_pin={a}, max_pin={b}", f"max_pin={b},min_pin={a}", f"max_pin={a}", f"min_pin={b}", f"lower_bound={a}, max_pin={b}"):
                for line in ("- {{ %s }}", "x: {{ %s }}  # [win]", "{%% set x = %s %%}", "- {{%s}} # max_pin"):
                    src = line % f.replace("{}", args)
                    decide(src + "\n" + src + "\n", (src + "\n" + src + "\n").replace("max_pin=", "upper_bound=").replace("min_pin=", "lower_bound="), out, "pins")
    else:
        _bump(out)


def _calls(i: int, j: int, depth: int, out: Out) -> None:
    for k in range(depth + 1):
        for calls in itertools.product(CALLS, repeat=k):
            c = chain(HEADS[i], calls)
            if c is None:
                continue
            src, want = AROUND[j].replace("{}", c[0]), AROUND[j].replace("{}", c[1])
            for before, after in PLACES:
                decide(f"{before}{src}{after}\n", f"{before}{want}{after}\n", out, "calls")
            # The rewritten expression has the same value
            a = evaluated(src)
            if not a.endswith(("Error", "Exception")):
                out.expect(evaluated(process("k: {{ " + src + " }}").removeprefix("k: {{ ").removesuffix(" }}")), a, "value of call", src)


HASH_LINES = [
    ("", {}), ('{% set hash_type = "sha256" %}\n', {"hash_type": "sha256"}), ('{% set hash_type = "md5" %}\n', {"hash_type": "md5"}), ("{% set hashtype = 'sha1' %}\n", {"hashtype": "sha1"}), ('{% set hash = "sha256" %}\n', {"hash": "sha256"}),
    ('{% set hash = "0123abc" %}\n', {}), ('{% set hash_type = "md5" %}\n{% set hash = "sha256" %}\n', {"hash_type": "md5", "hash": "sha256"}),
]  # fmt: skip


def _hashes(out: Out) -> None:
    for head, known in HASH_LINES:
        for keys in itertools.chain.from_iterable(itertools.product(("hash_type", "hash", "hashtype"), repeat=k) for k in (1, 2)):
            for quote, use in itertools.product(("", "'"), (None, "hash_type", "hash")):
                used = "" if use is None else f"  fn: x.{{{{ {use} }}}}\n"
                text = head + "{% set v = 1 %}\nsource:\n" + "".join(f"  {quote}{{{{ {k} }}}}{quote}: {i}\n" for i, k in enumerate(keys)) + used
                want = "".join(l for l in head.splitlines(True) if l != f'{{% set {l.split()[2]} = "sha256" %}}\n' or use == l.split()[2])
                want += "{% set v = 1 %}\nsource:\n" + "".join(f"  {known.get(k, 'sha256')}: {i}\n" for i, k in enumerate(keys)) + used
                out.nt(text)
                out.step()
                out.expect(process(text), want, "hash", text)
                out.expect(RecipeParser.pre_process_remove_hash_type(text), want, "hash alone", text)


def _bump(out: Out) -> None:
    """The part that is used by `bump-recipe` does nothing else."""
    for k in (1, 2):
        for lines in itertools.product(LINES, repeat=k):
            text = "\n".join(l for l, _ in lines) + "\n"
            want = "\n".join(w if w is not None and re.search(r"\{\{ (hash|hashtype|hash_type) \}\}", l) else l for l, w in lines) + "\n"
            out.nt("bump", text)
            out.expect(RecipeParser.pre_process_remove_hash_type(text), want, "hash only", text)
