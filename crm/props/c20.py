"""C20: `bump-recipe` changes the version, the build number, and the hashes, and nothing else, or it changes nothing."""

from __future__ import annotations

import hashlib
import itertools
import threading
import time
from pathlib import Path
from typing import Any, Iterator, Optional
from unittest import mock

from click.testing import CliRunner

from crm import archives as ar
from crm import httpd
from crm.core import Out, Scratch

from conda_recipe_manager.commands.bump_recipe import bump_recipe
from conda_recipe_manager.commands.utils.types import ExitCode
from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = (
    "enumeration of recipes x options, and stateless exploration of all interleavings of the answers to parallel, failing downloads "
    "under a controlled scheduler, vs expected text"
)
RULE = (
    "States: (recipe, options) and (failures per source, order of answers). Each run executes the real command on a real file, with a real "
    "server; waiting is recorded. Non-trivial: distinct recipe x options, or distinct schedule."
)
ASSUMPTIONS = [
    "sleeping is replaced by recording; downloads are scheduled at the granularity of answers",
    "recipes are in the layout the tool writes, without comments on the lines that change",
]

OLD_SHA = "fe" + "0" * 62
HASH_NAMES = ("sha256", "hash", "hash_val", "hash_value")


def body(n: int, version: str) -> bytes:
    """The archive of source n at a version."""
    return ar.build({f"pkg-{version}/{n}.txt": f"source {n} of {version}\n".encode()}, "tar.gz")


def sha(n: int, version: str) -> str:
    return hashlib.sha256(body(n, version)).hexdigest()


BUILDS: dict[str, Optional[Any]] = {"none": None, "0": 0, "3": 3, "-1": -1, "99": 99, "str": '"3"', "expr": "EXPR", "missing": "MISSING"}
VERSIONS = ["var", "var-unused", "literal", "missing"]
HASHES = ["literal", "missing", "var:sha256", "var:hash", "var:hash_val", "var:hash_value", "unused:sha256", "two", "other-name"]
SOURCES = ["dict", "list1", "list2", "list3", "list12", "git", "dict+path", "list-mixed", "none", "empty-list"]


def render(v: int, build: Any, version: str, hsh: str, source: str, state: dict[str, Any], base: str) -> str:
    """The recipe. `state`: number, var (version variable), pkg (package version), hashes, hashvars."""
    sub = (lambda s: "{{ %s }}" % s) if v == 0 else (lambda s: "${{ %s }}" % s)
    names: list[tuple[str, str]] = [("name", "pkg")]
    if version.startswith("var"):
        names.append(("version", state["var"]))
    for hv in state["hashvars"]:
        names.append((hv, state["hashvars"][hv]))
    names.append(("keep", "sha256 1.2.3"))
    if v == 0:
        out = [f'{{% set {k} = "{x}" %}}' for k, x in names] + [""]
    else:
        out = ["schema_version: 1", "", "context:"] + [f"  {k}: {x}" for k, x in names] + [""]
    out += ["package:", f"  name: {sub('name')}"]
    if version == "var":
        out.append(f"  version: {sub('version')}")
    elif version in ("literal", "var-unused"):
        out.append(f"  version: {state['pkg']}")
    elif state["pkg"] is not None:
        out.append(f"  version: {state['pkg']}")
    out.append("")

    ver = sub("version") if version.startswith("var") else "fixed"

    def src(n: int, pre: str, cont: str, with_hash: bool = True) -> list[str]:
        lines = [f"{pre}url: {base}/{n}/pkg-{ver}.tar.gz"]
        if with_hash and state["hashes"].get(n) is not None:
            lines.append(f"{cont}sha256: {state['hashes'][n]}")
        return lines

    if source == "dict":
        out += ["source:"] + src(0, "  ", "  ")
    elif source == "dict+path":
        out += ["source:"] + src(0, "  ", "  ", False) + ["  patches:", "    - a.patch  # [win]"]
        if state["hashes"].get(0) is not None:
            out.append(f"  sha256: {state['hashes'][0]}")
    elif source.startswith("list") and source != "list-mixed":
        out.append("source:")
        for n in range(int(source[4:])):
            out += src(n, "  - ", "    ")
    elif source == "git":
        out += ["source:", f"  {'git_url' if v == 0 else 'git'}: https://example.invalid/x.git", f"  {'git_tag' if v == 0 else 'tag'}: v{ver}"]
    elif source == "list-mixed":
        out += ["source:", f"  - {'git_url' if v == 0 else 'git'}: https://example.invalid/x.git"]
        out += src(1, "  - ", "    ") + ["  - path: ../here"] + src(3, "  - ", "    ")
    elif source == "empty-list":
        out += ["source: []"]
    if source != "none":
        out.append("")
    if build != "none":
        out.append("build:")
        if state["number"] is not None and build != "missing":
            out.append(f"  number: {sub('keep') if state['number'] == 'EXPR' else state['number']}")
        out.append("  script: echo 1.2.3 é")
        if build == "missing" and state["number"] is not None:
            out.append(f"  number: {state['number']}")
        out.append("")
    out += ["requirements:", "  run:", "    - python  # a comment", f"    - dep 1.2.3 {OLD_SHA[:8]}", "", "about:", "  summary: Ünïcode 1.2.3", ""]
    return "\n".join(out)


def initial(v: int, build: str, hsh: str, source: str) -> dict[str, Any]:
    sub = (lambda s: "{{ %s }}" % s) if v == 0 else (lambda s: "${{ %s }}" % s)
    number = BUILDS[build]
    st: dict[str, Any] = {"number": None if number == "MISSING" else number, "var": "1.2.3", "pkg": "1.2.3", "hashes": {}, "hashvars": {}}
    ids = {"dict": [0], "dict+path": [0], "list1": [0], "list2": [0, 1], "list3": [0, 1, 2], "list12": list(range(12)), "list-mixed": [1, 3]}.get(source, [])
    kind, _, name = hsh.partition(":")
    for n in ids:
        if hsh == "literal":
            st["hashes"][n] = OLD_SHA[:-2] + f"{n:02d}"
        elif hsh == "missing":
            st["hashes"][n] = None
        elif kind == "var":
            st["hashes"][n] = sub(name)
        elif kind == "unused":
            st["hashes"][n] = OLD_SHA
        elif hsh == "two":
            st["hashes"][n] = sub("sha256")
        else:
            st["hashes"][n] = sub("my_sum")
    if kind in ("var", "unused"):
        st["hashvars"] = {name: OLD_SHA}
    elif hsh == "two":
        st["hashvars"] = {"sha256": OLD_SHA, "hash": "abc"}
    elif hsh == "other-name":
        st["hashvars"] = {"my_sum": OLD_SHA}
    st["ids"] = ids
    return st


def bumped(st: dict[str, Any], build: str, version: str, hsh: str, source: str, args: dict[str, Any]) -> tuple[int, dict[str, Any]]:
    """The model of the command: its exit code and the new state."""
    new = {**st, "hashes": dict(st["hashes"]), "hashvars": dict(st["hashvars"])}
    if build == "none":
        return ExitCode.ILLEGAL_OPERATION, st
    if args["b"] and args["t"] is None and st["number"] is not None:
        if not isinstance(st["number"], int):
            return ExitCode.ILLEGAL_OPERATION, st
        new["number"] = st["number"] + 1
    else:
        new["number"] = 0
    target = args["t"]
    if target is not None:
        if version.startswith("var"):
            new["var"] = target
        else:
            new["pkg"] = target
        seen = target if version.startswith("var") else "fixed"
        kind, _, name = hsh.partition(":")
        for n in st["ids"]:
            if kind == "var" and source in ("dict", "dict+path"):
                new["hashvars"][name] = sha(n, seen)
            else:
                new["hashes"][n] = sha(n, seen)
    return ExitCode.SUCCESS, new


OPTIONS = [
    {"b": True, "t": None, "d": False},
    {"b": True, "t": None, "d": True},
    {"b": False, "t": "2.0.1", "d": False},
    {"b": True, "t": "2.0.1", "d": False},
    {"b": False, "t": "2.0.1", "d": True},
    {"b": False, "t": "1.2.3", "d": False},
    {"b": False, "t": "2024a", "d": False},
]


def cases(tier: str) -> Iterator[Any]:
    for v in (0, 1):
        for build in BUILDS:
            for version in VERSIONS:
                yield ["build", v, build, version]
        for version in VERSIONS:
            for hsh in HASHES:
                for source in SOURCES:
                    if hsh != "literal" and source in ("git", "none", "empty-list", "list12"):
                        continue
                    yield ["matrix", v, version, hsh, source]
    kinds = FAILURES if tier == "thorough" else FAILURES[:2]
    for v in (0, 1):
        for hsh in ("literal", "var:sha256"):
            for f in range(0, 7):
                for kind in FAILURES:
                    yield ["schedule", v, "dict", hsh, [f], kind, 0, 1]
    top = (0, 1, 2, 5) if tier == "thorough" else (0, 1, 5)
    for fails in itertools.product(top, repeat=2):
        for kind in kinds:
            yield ["schedule", 0, "list2", "literal", list(fails), kind, 0, 1]
    for fails in itertools.product((0, 1, 2) if tier == "thorough" else (0, 1), repeat=3):
        for kind in kinds[:1]:
            for part in range(3):
                yield ["schedule", 0, "list3", "literal", list(fails), kind, part, 3]
    for fails in set(itertools.permutations((5, 1, 0))) | set(itertools.permutations((5, 0, 0))):
        for part in range(2):
            yield ["schedule", 1, "list3", "missing", list(fails), FAILURES[0], part, 2]
    yield ["usage"]


FAILURES = ["status", "hangup", "garbage", "short"]


def failure(kind: str, n: int) -> tuple:
    if kind == "status":
        return ("status", 503, b"busy")
    if kind == "hangup":
        return ("hangup",)
    if kind == "garbage":
        return ("ok", b"<html>not an archive</html>")
    return ("short", body(n, "2.0.1"), 40)


class Gate:
    """Lets the pending requests of the server go on in the order of the schedule, one at a time."""

    def __init__(self, schedule: list[str]) -> None:
        self.cv = threading.Condition()
        self.schedule = list(schedule)
        self.pending: list[str] = []
        self.step_started = time.monotonic()
        self.diverged = False

    def __call__(self, path: str, _n: int) -> None:
        with self.cv:
            self.pending.append(path)
            self.cv.notify_all()
            deadline = time.monotonic() + 10
            while time.monotonic() < deadline:
                if not self.schedule or self.schedule[0] == path:
                    break
                # A program that asks in another order (for example, one after the other) is not held up for ever.
                if time.monotonic() - self.step_started > 0.5:
                    self.diverged = True
                    break
                self.cv.wait(0.1)
            if path in self.schedule:
                self.schedule.remove(path)
            self.pending.remove(path)
            self.step_started = time.monotonic()
            self.cv.notify_all()


def run(path: Path, args: dict[str, Any], interval: Optional[str] = None) -> tuple[int, str, list[float], Any]:
    argv = [str(path)]
    if args["b"]:
        argv.insert(0, "-b")
    if args["d"]:
        argv.insert(0, "--dry-run")
    if args["t"] is not None:
        argv = ["-t", args["t"]] + argv
    if interval is not None:
        argv = ["-i", interval] + argv
    naps: list[float] = []
    with mock.patch("time.sleep", new=naps.append):
        res = CliRunner().invoke(bump_recipe, argv)
    boom = res.exception if res.exception is not None and not isinstance(res.exception, SystemExit) else None
    return res.exit_code, res.stdout, naps, boom


def judge(label: str, key: str, path: Path, before: str, code: int, after: str, args: dict[str, Any], out: Out, interval: Optional[str] = None) -> list[float]:
    path.write_text(before, encoding="utf-8")
    got, stdout, naps, boom = run(path, args, interval)
    if boom is not None:
        out.ev()
        out.fail(f"exception {key}", f"{label}: {type(boom).__name__}: {boom}")
        return naps
    out.expect(int(got), int(code), f"exit {key}", f"exit code of {label}")
    text = path.read_text(encoding="utf-8")
    if code == ExitCode.SUCCESS and args["d"]:
        out.expect(text, before, f"dry {key}", f"the recipe after a dry run of {label}")
        out.expect(stdout.rstrip("\n"), after.rstrip("\n"), f"dry output {key}", f"output of a dry run of {label}")
    else:
        out.expect(text, after if code == ExitCode.SUCCESS else before, f"recipe {key}", f"the recipe after {label}")
    return naps


def explore(v: int, build: str, version: str, hsh: str, source: str, args: dict[str, Any], scratch: Path, out: Out) -> None:
    srv = httpd.server()
    st = initial(v, build, hsh, source)
    before = render(v, build, version, hsh, source, st, srv.base)
    code, new = bumped(st, build, version, hsh, source, args)
    if version == "missing":
        # Nothing to find before; an added version goes to the end of its section.
        st2 = {**st, "pkg": None}
        before = render(v, build, version, hsh, source, st2, srv.base)
        new = {**new, "pkg": args["t"] if args["t"] is not None and code == ExitCode.SUCCESS else None}
    after = render(v, build, version, hsh, source, new, srv.base)
    seen = args["t"] if version.startswith("var") else "fixed"
    srv.reset({f"/{n}/pkg-{seen}.tar.gz": [("ok", body(n, seen))] for n in st["ids"]} if args["t"] else {})
    label = f"V{v} build={build} version={version} hash={hsh} source={source} {args}"
    out.nt(label)
    out.state(label)
    out.step()
    out.outcome(f"exit {int(code)}")
    naps = judge(label, f"V{v} {build} {version} {hsh} {source} {sorted(args.items(), key=str)}", scratch / "meta.yaml", before, code, after, args, out)
    want = sorted(f"/{n}/pkg-{seen}.tar.gz" for n in st["ids"]) if args["t"] and code == ExitCode.SUCCESS else []
    out.expect(sorted(srv.log), want, f"requests {v} {version} {hsh} {source}", f"downloads of {label}")
    out.expect(naps, [], f"naps {v} {version} {hsh} {source}", f"waiting in {label}")
    out.trace()


def interleavings(counts: list[int]) -> Iterator[list[int]]:
    if not any(counts):
        yield []
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for tail in interleavings(rest):
                yield [i] + tail


def schedules(v: int, source: str, hsh: str, fails: list[int], kind: str, part: int, parts: int, out: Out) -> None:
    srv = httpd.server()
    args = {"b": False, "t": "2.0.1", "d": False}
    st = initial(v, "3", hsh, source)
    before = render(v, "3", "var", hsh, source, st, srv.base)
    _, new = bumped(st, "3", "var", hsh, source, args)
    lost = any(f >= 5 for f in fails)
    code = ExitCode.HTTP_ERROR if lost else ExitCode.SUCCESS
    after = render(v, "3", "var", hsh, source, new, srv.base)
    attempts = [min(f + 1, 5) for f in fails]
    paths = [f"/{n}/pkg-2.0.1.tar.gz" for n in range(len(fails))]
    with Scratch() as scratch:
        for i, order in enumerate(interleavings(attempts)):
            if i % parts != part:
                continue
            srv.reset({p: [failure(kind, n)] * fails[n] + [("ok", body(n, "2.0.1"))] for n, p in enumerate(paths)})
            gate = Gate([paths[n] for n in order])
            srv.gate = gate
            label = f"V{v} {source} {hsh} with {fails} failures ({kind}) answered in the order {order}"
            out.state(label)
            out.nt(label)
            out.step(len(order))
            naps = judge(label, f"schedule {v} {source} {hsh} {fails} {kind}", scratch / "recipe.yaml", before, code, after, args, out, "0.25")
            got = [srv.hits.get(p, 0) for p in paths]
            out.expect(got, attempts, f"attempts {source} {fails} {kind}", f"number of downloads per source of {label}")
            # Every failure but the last one of a lost source is followed by a wait, each longer than the one before.
            want = sorted(0.25 * k for f in fails for k in range(1, min(f, 4) + 1))
            extra = [0.25 * 5 for f in fails if f >= 5]
            out.expect(sorted(naps) in (want, sorted(want + extra)), True, f"naps {source} {fails} {kind}", f"waits of {label}: {naps}")
            out.count("schedules")
            if gate.diverged:
                out.count("schedules that the program did not follow")
            out.outcome(f"schedule: exit {int(code)}")
            out.trace()
        srv.gate = None


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "schedule":
        schedules(*case[1:], out)
        return
    with Scratch() as scratch:
        if kind == "build":
            for args in OPTIONS:
                for source in ("none", "dict"):
                    explore(case[1], case[2], case[3], "literal", source, args, scratch, out)
        elif kind == "matrix":
            for args in OPTIONS:
                explore(case[1], "3", case[2], case[3], case[4], args, scratch, out)
        else:
            path = scratch / "meta.yaml"
            text = render(0, "3", "var", "literal", "none", initial(0, "3", "literal", "none"), "")
            path.write_text(text, encoding="utf-8")
            for argv in ([], ["-t", ""], ["-b", "-t", ""], ["-b", "-i", "0"], ["-b", "-i", "-1"], ["-t", "2", "-i", "0"], ["-b", "-i", "x"], ["--no-such"], ["-t"]):
                with mock.patch("time.sleep", new=lambda _s: None):
                    res = CliRunner().invoke(bump_recipe, argv + [str(path)])
                out.nt(*argv)
                out.expect(int(res.exit_code), int(ExitCode.CLICK_USAGE), f"usage {argv}", f"exit code with options {argv}")
                out.expect(path.read_text(encoding="utf-8"), text, f"usage {argv}", f"the recipe after options {argv}")
            # Files that cannot be read, or are no recipes
            for name, raw, code in (
                ("bytes", b"a: \xff\xfe\n", None),
                ("structure", b"a:\n  - b\n c: d\n  - [\n", ExitCode.PARSE_EXCEPTION),
                ("jinja", b"{% set x %}\n{{ a\n", ExitCode.PARSE_EXCEPTION),
                ("empty", b"", ExitCode.ILLEGAL_OPERATION),
            ):
                for argv in (["-b"], ["-b", "-d"], ["-t", "2"]):
                    path.write_bytes(raw)
                    with mock.patch("time.sleep", new=lambda _s: None):
                        res = CliRunner().invoke(bump_recipe, argv + [str(path)])
                    out.nt(name, *argv)
                    if argv != ["-t", "2"]:
                        out.expect(int(res.exit_code) in ((int(code),) if code else range(1, 256)), True, f"unusable {name}", f"exit code {res.exit_code} with {argv} and {raw!r}")
                        out.expect(path.read_bytes() == raw, True, f"unusable {name}", f"{argv} changed {raw!r}")
                    elif name != "empty":
                        out.expect(int(res.exit_code) != 0 and path.read_bytes() == raw, True, f"unusable {name}", f"{argv} changed {raw!r}")
            (scratch / "folder").mkdir()
            res = CliRunner().invoke(bump_recipe, ["-b", str(scratch / "folder")])
            out.expect(int(res.exit_code), int(ExitCode.IO_ERROR), "usage folder", "exit code for a directory")
            res = CliRunner().invoke(bump_recipe, ["-b", str(scratch / "missing.yaml")])
            out.expect(int(res.exit_code), int(ExitCode.CLICK_USAGE), "usage missing", "exit code for a missing file")
