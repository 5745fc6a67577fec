"""C17: license names match the license, and expressions are left alone."""

from __future__ import annotations

import difflib
import itertools
import json
from typing import Any, Iterator

from conda_recipe_manager.licenses import spdx_utils
from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
from crm.core import Out

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "every license of the database in every spelling within one edit of a pool, and every expression of two, vs the nearest entries of the database"
RULE = (
    "All identifiers and names, plain and with white space; all edits of one character (every second one in the quick run) at each position of the identifiers of up to 12 characters (20 thorough); "
    "all identifiers in all expression forms with several others. Non-trivial: distinct input."
)
ASSUMPTIONS = ["the similarity of texts is difflib's ratio, with its usual threshold of 0.6"]
CHUNK = 8

DB = json.loads(spdx_utils.SPDX_LICENSE_JSON_FILE.read_text(encoding="utf-8"))["licenses"]
IDS = {l["licenseId"] for l in DB}
KEYS: dict[str, set[str]] = {}
for _l in DB:
    KEYS.setdefault(_l["licenseId"], set()).add(_l["licenseId"])
    KEYS.setdefault(_l["name"], set()).add(_l["licenseId"])
# Identifiers that SPDX replaced
OLD = {l["licenseId"] for l in DB if l.get("isDeprecatedLicenseId")}
PATCHES = {'BSD 2-CLAUSE "SIMPLIFIED"': "BSD-2-Clause", "UNLIMITED": "NOASSERTION"}
OPS = ["AND", "OR", "WITH", "and", "or", "with"]
OTHERS = ["MIT", "Apache-2.0", "GPL-2.0-or-later", "Classpath-exception-2.0", "unknown license"]


def cases(tier: str) -> Iterator[Any]:
    thorough = tier == "thorough"
    for i in range(len(DB)):
        yield ["exact", i]
        yield ["expression", i]
    limit = 20 if thorough else 8
    for i, l in enumerate(DB):
        if len(l["licenseId"]) <= limit:
            for mode in ("drop", "swap", "change", "case", "split"):
                if thorough or (len(l["licenseId"]) + i) % 2 == 0:
                    yield ["edit", i, mode]
    yield ["far"]


def nearest(text: str) -> tuple[float, set[str]]:
    """The ratio of the nearest keys, and their identifiers."""
    best, ids = 0.0, set()
    m = difflib.SequenceMatcher()
    m.set_seq2(text)
    for key, known in KEYS.items():
        m.set_seq1(key)
        if m.real_quick_ratio() < best or m.quick_ratio() < best:
            continue
        r = m.ratio()
        if r > best:
            best, ids = r, set(known)
        elif r == best:
            ids |= known
    return best, ids


UTILS = SpdxUtils()


def ask(out: Out, text: str) -> Any:
    out.nt(text)
    out.state(text)
    out.step()
    try:
        got: Any = UTILS.find_closest_license_match(text)
    except Exception as e:  # pylint: disable=broad-exception-caught
        got = repr(e)
    out.outcome("none" if got is None else "match")
    return got


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "exact":
        l = DB[case[1]]
        out.expect(ask(out, l["licenseId"]), l["licenseId"], "identifier", f"{l['licenseId']}")
        for text in (l["name"], f" {l['name']}", f"{l['name']} \n", f" {l['licenseId']} "):
            want = KEYS[text.strip()]
            got = ask(out, text)
            out.expect(got in want and (got not in OLD or want <= OLD), True, "name", f"{text!r} is {got}, not one of {sorted(want)}")
        return
    if kind == "expression":
        a = DB[case[1]]["licenseId"]
        for b, op in itertools.product(OTHERS, OPS):
            for text in (f"{a} {op} {b}", f"{b} {op} {a}", f"({a} {op} {b})", f"MIT AND ({b} {op} {a})", f"{a}  {op}\t{b}"):
                out.expect(ask(out, text), None, f"expression {op}", f"{text!r}")
        for b in OTHERS:
            for text in (f"{a}, {b}", f"{b},{a}"):
                out.expect(ask(out, text), None, "expression ,", f"{text!r}")
        return
    if kind == "far":
        for text, want in PATCHES.items():
            for t in (text, text.lower(), f" {text.title()} "):
                out.expect(ask(out, t), want, "patched", repr(t))
        for text in ("", " ", "x", "???", "q" * 200, "foobar", "123456789"):
            if nearest(text)[0] < 0.6:
                out.expect(ask(out, text), None, "far", repr(text))
        return
    s = DB[case[1]]["licenseId"]
    edits: set[str] = set()
    for i in range(len(s)):
        if case[2] == "drop":
            edits.add(s[:i] + s[i + 1 :])
        elif case[2] == "swap":
            edits.add(s[:i] + s[i + 1 : i + 2] + s[i] + s[i + 2 :])
        elif case[2] == "change":
            edits |= {s[:i] + c + s[i + 1 :] for c in "-x"}
        elif case[2] == "case":
            edits |= {s[:i] + s[i].swapcase() + s[i + 1 :], s[:i] + s[i:].upper()}
        elif s[i] in "-.":
            edits |= {s[:i] + c + s[i + 1 :] for c in " _"}
    for text in sorted(edits - IDS):
        if not text.strip() or text.strip() in KEYS or text.strip().upper() in PATCHES:
            continue
        got = ask(out, text)
        ratio, ids = nearest(text)
        if ratio < 0.6:
            out.expect(got, None, "edit: none is near", f"{text!r} (best {ratio:.2f})")
        else:
            out.expect(got in ids, True, f"edit: {case[2]}", f"{text!r} is {got}, not one of {sorted(ids)}")
