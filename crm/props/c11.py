"""C11: the platform tables agree with the names of the platforms."""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from conda_recipe_manager.parser import platform_types as pt
from crm import platforms
from crm.core import Out

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of the qualifiers in every spelling, and of call orders, vs tables derived from platform names"
RULE = "Every qualifier, as a member and as text in every case and padding, and every pair of calls. Non-trivial: distinct argument."
ASSUMPTIONS = ["x86 covers 32 and 64 bit, as in conda-build"]


def cases(_tier: str) -> Iterator[Any]:
    yield ["tables"]
    for q in platforms.OSES:
        yield ["os", q]
    for q in platforms.ARCHES:
        yield ["arch", q]
    yield ["unknown"]
    yield ["history"]


def names(s: Any) -> set[str]:
    return {str(x.value) for x in s}


def spellings(q: str) -> Iterator[str]:
    for pad_l, pad_r in itertools.product(("", " ", "\t"), ("", "  ", "\n")):
        for bits in itertools.product((0, 1), repeat=min(len(q), 6)):
            yield pad_l + "".join(c.upper() if i < len(bits) and bits[i] else c for i, c in enumerate(q)) + pad_r


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "tables":
        out.expect(names(pt.ALL_PLATFORMS) >= set(platforms.NAMES), True, "platforms", "all platforms are known")
        out.expect(names(pt.ALL_OPERATING_SYSTEMS), set(platforms.OSES), "systems", "operating systems")
        out.expect(names(pt.ALL_ARCHITECTURES) >= set(platforms.ARCHES), True, "architectures", "architectures")
        by_os = [names(pt.get_platforms_by_os(o)) for o in ("linux", "osx", "win")]
        out.expect(set.union(*by_os), names(pt.ALL_PLATFORMS), "partition", "every platform has a system")
        out.expect(sum(len(s) for s in by_os), len(pt.ALL_PLATFORMS), "partition", "no platform has two systems")
        for s in itertools.chain(map(pt.get_platforms_by_os, platforms.OSES), map(pt.get_platforms_by_arch, platforms.ARCHES)):
            out.expect(s <= pt.ALL_PLATFORMS and all(isinstance(x, pt.Platform) for x in s), True, "members", "only platforms are returned")
        return
    if kind in ("os", "arch"):
        q = case[1]
        fn = pt.get_platforms_by_os if kind == "os" else pt.get_platforms_by_arch
        other = pt.get_platforms_by_arch if kind == "os" else pt.get_platforms_by_os
        member = (pt.OperatingSystem if kind == "os" else pt.Arch)(q)
        want = platforms.os_set(q) if kind == "os" else platforms.arch_set(q)
        out.nt(q)
        out.expect(names(fn(member)), want, f"{kind} {q}", f"platforms of {q}")
        for s in spellings(q):
            out.nt(s)
            out.step()
            out.expect(names(fn(s)), want, f"{kind} {q} as text", f"platforms of {s!r}")
        out.expect(other(q), set(), f"{kind} {q} elsewhere", f"{q} is not the other kind of qualifier")
        return
    if kind == "unknown":
        for s in ("", " ", "lin", "linux-64", "windows", "macos", "x86-64", "amd64", "noarch", "ppc", "arm", "x", "LINUX64"):
            out.nt(s)
            out.expect(pt.get_platforms_by_os(s), set(), "unknown os", s)
            out.expect(pt.get_platforms_by_arch(s), set(), "unknown arch", s)
        return
    # What a caller does to a result does not show in later results, in any order of two calls.
    calls = [(pt.get_platforms_by_os, o) for o in platforms.OSES] + [(pt.get_platforms_by_arch, a) for a in platforms.ARCHES]
    ref = [set(f(q)) for f, q in calls]
    for i, j in itertools.product(range(len(calls)), repeat=2):
        a = calls[i][0](calls[i][1])
        b = calls[j][0](calls[j][1])
        out.step(2)
        out.nt(i, j)
        a.clear()
        out.expect(names(b) if i != j or a is not b else set(), names(ref[j]), "history", f"{calls[i][1]} then {calls[j][1]}")
        out.expect(names(calls[j][0](calls[j][1])), names(ref[j]), "history", f"{calls[i][1]} then {calls[j][1]}")
