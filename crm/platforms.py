"""Reference tables: the platforms that conda's qualifiers stand for, derived from the names of the platforms."""

from __future__ import annotations

NAMES = [
    "linux-32", "linux-64", "linux-aarch64", "linux-armv6l", "linux-armv7l", "linux-ppc64", "linux-ppc64le",
    "linux-riscv64", "linux-s390x", "osx-64", "osx-arm64", "win-32", "win-64", "win-arm64",
]  # fmt: skip
OSES = ["linux", "osx", "unix", "win"]
ARCHES = ["s390x", "x86", "x86_64", "arm64", "armv6l", "armv7l", "ppc64", "ppc64le"]


def os_set(name: str) -> set[str]:
    kernels = ("linux", "osx") if name == "unix" else (name,)
    return {p for p in NAMES if p.split("-")[0] in kernels}


def arch_set(name: str) -> set[str]:
    cpus = {"x86": ("32", "64"), "x86_64": ("64",)}.get(name, (name,))
    return {p for p in NAMES if p.split("-")[1] in cpus}


TERMS: dict[str, set[str]] = {p: {p} for p in NAMES}
TERMS.update({o: os_set(o) for o in OSES})
TERMS.update({a: arch_set(a) for a in ARCHES})


def selected(tree: object) -> set[str]:
    """tree: term | ('not', tree) | ('and'|'or', tree, tree). Terms that name no platform select none."""
    if isinstance(tree, str):
        return TERMS.get(tree.lower(), set())
    if tree[0] == "not":
        return set(NAMES) - selected(tree[1])
    a, b = selected(tree[1]), selected(tree[2])
    return a & b if tree[0] == "and" else a | b


def render(tree: object, full: bool = False) -> str:
    """As Python text: with the parentheses that precedence requires, or with all of them."""
    return _render(tree, full)[0]


def _render(tree: object, full: bool) -> tuple[str, int]:
    if isinstance(tree, str):
        return tree, 3
    if tree[0] == "not":
        t, p = _render(tree[1], full)
        t = f"not ({t})" if p < 2 or full else f"not {t}"
        return t, 2
    mine = 1 if tree[0] == "and" else 0
    (a, pa), (b, pb) = _render(tree[1], full), _render(tree[2], full)
    if pa < mine or full:
        a = f"({a})"
    # Python groups from the left
    if pb <= mine or full:
        b = f"({b})"
    return f"{a} {tree[0]} {b}", mine
