"""
The document families that the recipe-text properties are checked on: every document in these finite families is
visited. Each family closes one dimension (structure, scalar values, comments, block strings, variables, schema version)
over all positions in which that dimension can appear.
"""

from __future__ import annotations

import copy
from typing import Any, Iterator

from crm import docs

S = lambda t, v=None: ["s", t, t if v is None else v]  # noqa: E731


def K(key: str, val: list, cm: str = "") -> list:
    return ["k", key, val, cm]


def I(val: list, cm: str = "") -> list:
    return ["i", val, cm]


# Scalars: (text as the tool writes it, Python value). Written in canonical form, so that text is a fixed point.
SCALARS: list[tuple[str, Any]] = [
    ("x", "x"),
    ("/", "/"),
    ("1", 1),
    ("0", 0),
    ("-1", -1),
    ("1.5", 1.5),
    ("true", True),
    ("false", False),
    ("null", None),
    ("py37", "py37"),
    ("1.2.3", "1.2.3"),
    ("a b", "a b"),
    ("x#y", "x#y"),
    ("a*b", "a*b"),
    ("a:b", "a:b"),
    ("a|b", "a|b"),
    ("a, b", "a, b"),
    ("numpy >=1.2,<2", "numpy >=1.2,<2"),
    ("python 3.8.*", "python 3.8.*"),
    ("http://x.y/z?q=1#frag", "http://x.y/z?q=1#frag"),
    ("sha256:ab-cd_ef", "sha256:ab-cd_ef"),
    ("é", "é"),
    ("😀", "😀"),
    ('"it\'s é"', "it's é"),
    ('"😀: it\'s"', "😀: it's"),
    ('"*"', "*"),
    ('"*.so"', "*.so"),
    ('"**/lib"', "**/lib"),
    ('"[x]"', "[x]"),
    ('"- x"', "- x"),
    ('"-x"', "-x"),
    ('"%x"', "%x"),
    ('"@x"', "@x"),
    ('"&x"', "&x"),
    ('"!x"', "!x"),
    ('"=x"', "=x"),
    ('":x"', ":x"),
    ('"?x"', "?x"),
    ('",x"', ",x"),
    ('"]x"', "]x"),
    ('"a: b"', "a: b"),
    ('"x # y"', "x # y"),
    ('"# x"', "# x"),
    ('"x:"', "x:"),
    ('"it\'s"', "it's"),
    ('"say \\"hi\\""', 'say "hi"'),
    ('""', ""),
    ('" x"', " x"),
    ('"x "', "x "),
    ('"`x`"', "`x`"),
    ('"> x"', "> x"),
    ('"| x"', "| x"),
    ('">=1.2"', ">=1.2"),
    ('"\\\\x"', "\\x"),
    ("a\\b", "a\\b"),
    ("{{ name }}", "{{ name }}"),
    ("x {{ name }} y", "x {{ name }} y"),
    ("{{ name|lower }}-{{ version }}", "{{ name|lower }}-{{ version }}"),
    ("{{ compiler('c') }}", "{{ compiler('c') }}"),
    ('{{ pin_compatible("numpy") }}', '{{ pin_compatible("numpy") }}'),
    ("{{ version + \".1\" }}", "{{ version + \".1\" }}"),
    ("{{ name / 2 }}", "{{ name / 2 }}"),
    ("{{ a * 2 }} {{ name }}", "{{ a * 2 }} {{ name }}"),
    ('{{ name|replace("@", ":") }}', '{{ name|replace("@", ":") }}'),
    ('"k: {{ name }}"', "k: {{ name }}"),
    ('"{{ name }} # x"', "{{ name }} # x"),
    ("'echo: {{ f(\"a\") }}'", 'echo: {{ f("a") }}'),
    ("${{ name }}", "${{ name }}"),
    ("${{ name }}-${{ version }}", "${{ name }}-${{ version }}"),
]

# (name, builder(value, comment) -> root entries, path of the value)
POSITIONS: list[tuple[str, Any, str]] = [
    ("top", lambda v, c: [K("k", v, c)], "/k"),
    ("top-then", lambda v, c: [K("k", v, c), K("z", S("z"))], "/k"),
    ("only", lambda v, c: [K("s", ["m", [K("k", v, c)]])], "/s/k"),
    ("nest-first", lambda v, c: [K("s", ["m", [K("k", v, c), K("j", S("1", 1))]])], "/s/k"),
    ("nest-last", lambda v, c: [K("s", ["m", [K("j", S("1", 1)), K("k", v, c)]])], "/s/k"),
    ("deep", lambda v, c: [K("s", ["m", [K("t", ["m", [K("u", ["m", [K("k", v, c)]])]]), K("w", S("w"))]])], "/s/t/u/k"),
    ("elem-first", lambda v, c: [K("s", ["l", [I(["m", [K("k", v, c), K("j", S("1", 1))]])]])], "/s/0/k"),
    ("elem-only", lambda v, c: [K("s", ["l", [I(["m", [K("k", v, c)]]), I(["m", [K("k", S("y"))]])]])], "/s/0/k"),
    ("elem-last", lambda v, c: [K("s", ["l", [I(["m", [K("j", S("1", 1)), K("k", v, c)]])]])], "/s/0/k"),
    ("elem2", lambda v, c: [K("s", ["l", [I(["m", [K("j", S("1", 1))]]), I(["m", [K("k", v, c)]])]])], "/s/1/k"),
]
ITEM_POSITIONS: list[tuple[str, Any, str]] = [
    ("single", lambda v, c: [K("s", ["l", [I(v, c)]])], "/s/0"),
    ("nested-single", lambda v, c: [K("s", ["m", [K("k", ["l", [I(v, c)]])]])], "/s/k/0"),
    ("first", lambda v, c: [K("s", ["l", [I(v, c), I(S("z"))]])], "/s/0"),
    ("last", lambda v, c: [K("s", ["m", [K("k", ["l", [I(S("z")), I(v, c)]]), K("j", S("w"))]])], "/s/k/1"),
    (
        "elem-list",
        lambda v, c: [K("s", ["l", [I(["m", [K("k", ["l", [I(v, c)]]), K("j", S("w"))]]), I(["m", [K("j", S("u"))]])]])],
        "/s/0/k/0",
    ),
    ("elem-list2", lambda v, c: [K("s", ["l", [I(["m", [K("j", S("w")), K("k", ["l", [I(v, c), I(S("z"))]])]])]])], "/s/0/k/0"),
]

COMMENTS = ["# note", "# [win]", "# [linux and x86] note", "#tight", "# two # marks", "# it's \"q\"", "#- x: y", "#[off] z", "# {{ name }}"]

BLOCKS = ["|", "|-", "|+", ">", ">-", ">+"]
BLOCK_LINES = [
    ["l1"],
    ["l1", "l2"],
    ["l1", "", "l2"],
    ["l1", "  ind", "l2"],
    ["# no comment", "l2"],
    ["- a", "k: v"],
    ["{{ name }} x", "[y]"],
    ["l1 # c", '"q"'],
    ["l1", "", "", "l2"],
    ["it's 100% \\ fine", "a: b: c"],
]

VAR_VALUES: list[Any] = ["name", "1.2.3", "", "a b", 0, 7, -1, 1.5, True, False, "It's", "x#y", "a|b=c", "é"]
VAR_LISTS: list[Any] = [[1, 2], ["a", "b"], []]


def v(doc_root: list, variables: list | None = None, schema: int = 0) -> dict:
    return {"v": schema, "vars": variables or [], "root": doc_root}


def shape_docs(n: int, depth: int = 5) -> Iterator[dict]:
    yield from docs.all_docs(n, depth)


def all_docs_exact(n: int, depth: int = 5) -> Iterator[dict]:
    """All structures of exactly n nodes."""
    for f in docs.forests(n, depth, "key"):
        yield {"v": 0, "vars": [], "root": docs.number(f)}


def scalar_docs(comments: tuple[str, ...] = ("", "# note")) -> Iterator[dict]:
    for text, value in SCALARS:
        # `key: null` is written `key:`, which is the empty-key family.
        for _, build, _ in (POSITIONS if value is not None else []) + ITEM_POSITIONS:
            for c in comments:
                yield v(build(S2(text, value), c))


def S2(text: str, value: Any) -> list:
    return ["s", text, value]


def empty_key_docs(comments: tuple[str, ...] = ("", "# note", "# [win]")) -> Iterator[dict]:
    for _, build, _ in POSITIONS:
        for c in comments:
            yield v(build(["e"], c))


def comment_docs(n: int) -> Iterator[dict]:
    """Every trailing comment kind on every line, and a comment line in every gap, of every structure of n nodes."""
    for d in docs.all_docs(n, 5):
        for i in range(len(docs.slots(d))):
            for c in COMMENTS[:3]:
                e = copy.deepcopy(d)
                docs.slots(e)[i][-1] = c
                yield e
        for j in range(len(docs.gaps(d))):
            e = copy.deepcopy(d)
            s, i = docs.gaps(e)[j]
            s.insert(i, ["c", "# full"])
            yield e


def comment_kind_docs() -> Iterator[dict]:
    """Every comment kind, trailing and as a line, around typical values."""
    vals = [("x", "x"), ("1", 1), ('"x # y"', "x # y"), ("{{ name }}", "{{ name }}"), ('"it\'s"', "it's"), ("x#y", "x#y")]
    for text, value in vals:
        for c in COMMENTS:
            for _, build, _ in POSITIONS + ITEM_POSITIONS:
                yield v(build(S2(text, value), c))
    for c in COMMENTS:
        d = v([K("s", ["m", [K("k", ["l", [I(S("a")), I(["m", [K("x", S("1", 1)), K("y", S("2", 2))]])]])]]), K("z", S("z"))])
        for j in range(len(docs.gaps(d))):
            e = copy.deepcopy(d)
            s, i = docs.gaps(e)[j]
            s.insert(i, ["c", c])
            yield e


def block_docs(comments: tuple[str, ...] = ("", "# note", "# [win]", "# it's \"q\"")) -> Iterator[dict]:
    for variant in BLOCKS:
        for lines in BLOCK_LINES:
            for name, build, _ in POSITIONS:
                for c in comments:
                    yield v(build(["b", variant, lines], c))


def var_docs() -> Iterator[dict]:
    """V0 headers: every value, and every ordered pair out of a few."""
    body = [K("package", ["m", [K("name", S("{{ name }}"))]])]
    for val in VAR_VALUES + VAR_LISTS:
        yield v(copy.deepcopy(body), [["name", val]])
    for a in VAR_VALUES[:8]:
        for b in VAR_VALUES[:8]:
            yield v(copy.deepcopy(body), [["name", a], ["version", b]])
    yield v(copy.deepcopy(body), [["b", 1], ["a", 2], ["c", "x"]])


def v1_docs() -> Iterator[dict]:
    """V1 headers: `schema_version: 1` and a `context` with every scalar, then a body."""
    body = [K("package", ["m", [K("name", S("${{ name }}"))]])]
    for text, value in SCALARS:
        if "{{" in text or value is None:
            continue
        yield v(
            [K("schema_version", S("1", 1)), K("context", ["m", [K("name", ["s", text, value]), K("o", S("p"))]])]
            + copy.deepcopy(body),
            schema=1,
        )
    yield v([K("schema_version", S("1", 1))] + copy.deepcopy(body), schema=1)
    yield v([K("schema_version", S("0", 0))] + copy.deepcopy(body))
    yield v([K("schema_version", S("2", 2))] + copy.deepcopy(body))


def big_docs() -> Iterator[dict]:
    """Realistic multi-section recipes, simple and multi-output, V0 and V1."""
    def reqs(c: str = "") -> list:
        return [
            "m",
            [
                K("build", ["l", [I(S("{{ compiler('c') }}")), I(S("cmake")), ["c", "# tools"], I(S("make"), "# [unix]")]]),
                K("host", ["l", [I(S("python")), I(S("numpy 1.26"), c), I(S("pip"))]]),
                K("run", ["l", [I(S("python")), I(S("numpy >=1.2,<2"), "# [win]"), I(S("foo"), "# [linux] note")]]),
                K("run_constrained", ["l", [I(S("bar <3"))]]),
            ],
        ]

    about = [
        "m",
        [
            K("home", S("http://x.y/z?q=1#frag")),
            K("license", S("MIT")),
            K("summary", ["b", "|", ["l1", "", "l2"]]),
            K("doc_url", S("http://d.o/c"), "# docs"),
            K("dev_url", ["e"]),
        ],
    ]
    test = ["m", [K("imports", ["l", [I(S("foo"))]]), K("commands", ["l", [I(S("pip check")), I(S("foo --help"), "# [not win]")]])]]
    source = ["m", [K("url", S("http://x/{{ name }}-{{ version }}.tar.gz")), K("sha256", S("ab12")), K("patches", ["l", [I(S("a.patch")), I(S("b.patch"), "# [osx]")]])]]
    srcs = ["l", [I(["m", [K("url", S("http://x/a.gz")), K("sha256", S("aa"))]]), I(["m", [K("url", S("http://x/b.gz"), "# [win]"), K("sha256", S("bb"), "# [win]"), K("folder", S("b"))]])]]
    build = ["m", [K("number", S("0", 0)), K("skip", S("true", True), "# [py<37]"), K("script", S("{{ PYTHON }} -m pip install .")), K("entry_points", ["l", [I(S("foo = foo:main")), I(S("bar = bar:main"))]])]]
    hdr = [["name", "foo"], ["version", "1.2.3"], ["build_number", 3]]
    for src in (source, srcs):
        for c in ("", "# note", "# [osx]"):
            yield v(
                [
                    ["c", "# top comment"],
                    K("package", ["m", [K("name", S("{{ name|lower }}")), K("version", S("{{ version }}"))]]),
                    K("source", copy.deepcopy(src)),
                    K("build", copy.deepcopy(build)),
                    K("requirements", reqs(c)),
                    K("test", copy.deepcopy(test)),
                    K("about", copy.deepcopy(about), c),
                    K("extra", ["m", [K("recipe-maintainers", ["l", [["c", "# us"], I(S("me")), I(S("you"), c)]])]]),
                ],
                hdr,
            )
            yield v(
                [
                    K("package", ["m", [K("name", S("{{ name }}")), K("version", S("{{ version }}"))]]),
                    K("source", copy.deepcopy(src)),
                    K("build", copy.deepcopy(build), c),
                    K(
                        "outputs",
                        [
                            "l",
                            [
                                I(["m", [K("name", S("a"), c), K("requirements", reqs(c)), K("test", copy.deepcopy(test))]]),
                                ["c", "# second"],
                                I(["m", [K("name", S("b")), K("build", copy.deepcopy(build)), K("requirements", reqs())]]),
                                I(["m", [K("name", S("c")), K("requirements", ["l", [I(S("a")), I(S("b"), c)]])]]),
                            ],
                        ],
                    ),
                    K("about", copy.deepcopy(about)),
                ],
                hdr,
            )
    for d in v1_docs():
        e = copy.deepcopy(d)
        e["root"] += [
            K("source", copy.deepcopy(srcs)),
            K("requirements", ["m", [K("host", ["l", [I(S("python")), I(["m", [K("if", S("unix")), K("then", S("make"))]])]]), K("run", ["l", [I(["m", [K("if", S("win and not osx")), K("then", ["l", [I(S("a")), I(S("b"))]]), K("else", S("c"))]]), I(S("d"))]])]]),
            K("tests", ["l", [I(["m", [K("python", ["m", [K("imports", ["l", [I(S("foo"))]]), K("pip_check", S("true", True))]])]]), I(["m", [K("script", ["l", [I(S("foo --help"))]])]])]]),
            K("about", copy.deepcopy(about)),
        ]
        yield e


# Names of keys, as the tool writes them.
KEYS = ["a-b", "a.b", "a_b", "A", "recipe-maintainers", "a b", "é", "k+", "a@b", "x#y", "_", "a-", "k1", "py3", "a:b", "a,b", "a{b}", "long" * 40, *sorted(docs.QUOTED_KEYS)]


def key_docs() -> Iterator[dict]:
    """Every kind of name in every position."""
    for key in KEYS:
        for val in (S("x"), ["e"], ["b", "|", ["l1", "l2"]]):
            for _, build, _ in POSITIONS:
                e = v(build(copy.deepcopy(val), "# note"))
                _rename(e["root"], "k", key)
                yield e
        e = v([K("s", ["m", [K("k", ["l", [I(S("x")), I(["m", [K("k", S("y")), K("j", S("z"))]])]])]]), K("k", ["m", [K("k", ["m", [K("k", S("w"))]])]])])
        _rename(e["root"], "k", key)
        yield e


def _rename(x: Any, old: str, new: str) -> None:
    if isinstance(x, list):
        if len(x) == 4 and x[0] == "k" and x[1] == old:
            x[1] = new
        for y in x:
            _rename(y, old, new)


def large_docs() -> Iterator[dict]:
    """Long lists (two-digit indices), many keys, deep nesting, long text."""
    n = 12
    yield v([K("s", ["m", [K("t", ["l", [I(S(f"x{i}")) for i in range(n)]]), K("z", S("z"))]])])
    yield v([K("s", ["l", [I(S(f"x{i}"), "# [win]" if i % 3 == 1 else "") for i in range(n)]])])
    yield v([K("s", ["l", [y for i in range(n) for y in ([["c", f"# c{i}"]] if i % 2 else []) + [I(S(f"x{i}"), f"# n{i}" if i % 3 == 0 else "")]]])])
    yield v([K("s", ["l", [I(S("x"), "# same") for _ in range(n)]])])
    yield v([K("s", ["l", [I(["m", [K("name", S(f"o{i}")), K("l", ["l", [I(S("a")), I(S("b"), "# [osx]" if i == 10 else "")]]), K("n", S(str(i), i))]]) for i in range(n)]])])
    yield v([K("s", ["l", [I(["m", [K("name", S("o")), K("e", ["e"], "# e")]]) for _ in range(n)]])])
    yield v([K(f"s{i}", ["m", [K("a", S(str(i), i)), K("b", S("b"), f"# n{i}")]]) for i in range(n)])
    yield v([K("s", ["m", [K(f"k{i}", S(f"x{i}"), "# [linux]" if i == 11 else "") for i in range(n)]])])
    yield v([K("s", ["m", [K(f"k{i}", S("x")) for i in range(n)]])], [[f"v{i}", i] for i in range(n)])
    deep: list = S("x")
    for i in range(9):
        deep = ["m", [K(f"k{i}", deep, "# deep" if i == 0 else ""), K("j", S(str(i), i))]]
    yield v([K("s", deep)])
    deep = S("x")
    for i in range(5):
        deep = ["m", [K(f"k{i}", ["l", [I(S("a")) if i % 2 else I(["m", [K("p", S("q"))]]), I(deep) if deep[0] == "m" else I(deep, "# deep"), I(S("b"))]]), K("j", S(str(i), i))]]
    yield v([K("s", deep)])
    long = " ".join(f"word{i}" for i in range(60))
    for text in (long, "x" * 300, "a/b/" * 60 + "c", "{{ name }} " * 20 + "x", "${{ name }}" * 20):
        for c in ("", "# " + long):
            yield v([K("s", ["m", [K("k", S(text), c), K("l", ["l", [I(S(text), c), I(S("y")), I(["m", [K("k", S(text), c)]])]])]]), K("z", S("z"))])
    lines = [f"line {i}" if i % 5 else "" for i in range(1, 60)] + ["  - x", "k: v  # [win]", "# c", "end"]
    for variant in ("|", ">", "|-"):
        yield v([K("s", ["m", [K("k", ["b", variant, lines]), K("j", S("1", 1))]])])
    yield v([y for i in range(n) for y in (["c", f"# before {i}"], K(f"s{i}", S("x")))])


def all_families(tier: str) -> Iterator[tuple[str, dict]]:
    thorough = tier == "thorough"
    fams = [
        ("shape", shape_docs(7 if thorough else 6)),
        ("scalar", scalar_docs(("", "# note", "# [win]") if thorough else ("", "# note"))),
        ("empty-key", empty_key_docs()),
        ("comment", comment_docs(6 if thorough else 4)),
        ("comment-kind", comment_kind_docs()),
        ("block", block_docs()),
        ("vars", var_docs()),
        ("v1", v1_docs()),
        ("recipe", big_docs()),
        ("key", key_docs()),
        ("large", large_docs()),
    ]
    for name, gen in fams:
        for d in gen:
            yield name, d
