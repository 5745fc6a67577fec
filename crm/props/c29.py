"""C29: every source of a recipe becomes the fetcher that fetches it."""

from __future__ import annotations

import itertools
import shutil
import tempfile
from pathlib import Path
from typing import Any, Iterator, Optional

from crm import archives as ar
from crm import httpd
from crm.core import Out
from crm.props import c19

from conda_recipe_manager.fetcher.artifact_fetcher import from_recipe
from conda_recipe_manager.fetcher.exceptions import FetchError, FetchUnsupportedError
from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher
from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher
from conda_recipe_manager.parser.recipe_reader import RecipeReader

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of source sections up to three sources, in both formats; each fetcher is run against real servers and repositories"
RULE = "All lists of up to 3 sources out of the kinds of source, and single sources, x format x flag. Non-trivial: distinct (format, section, flag) with a source."
ASSUMPTIONS = ["the recipe has a name; sources have no selectors"]

KINDS = ["url", "url-vars", "url-extra", "git", "git-tag", "git-rev", "git-branch", "git-all", "git-vars", "url+git", "path", "other-format", "mirrors"]
# Other places of variables, and combinations. Used alone, and in a long list.
MORE = ["git-rev-vars", "git-branch-vars", "git-url-vars", "mirrors-vars", "mirror", "git-tag-rev", "git-rev-branch", "url-fn", "url-query"]


def setup(tier: str) -> None:
    c19.setup(tier)


def teardown() -> None:
    c19.teardown()


def source(kind: str, n: int, v: int, base: str) -> tuple[list[str], Optional[tuple]]:
    """The lines of a source, and what its fetcher gets: ("url", path), ("git", commit), or None if not supported."""
    sub = "{{ %s }}" if v == 0 else "${{ %s }}"
    ver, tag = sub % "version", sub % "tag"
    git, gt, gr, gb = ("git_url", "git_tag", "git_rev", "git_branch") if v == 0 else ("git", "tag", "rev", "branch")
    repo = c19.url("remote")
    commits = c19._COMMITS  # pylint: disable=protected-access
    if kind == "url":
        return [f"url: {base}/s{n}/a.tar.gz"], ("url", f"/s{n}/a.tar.gz")
    if kind == "url-vars":
        return [f"url: {base}/s{n}/pkg-{ver}.tar.gz"], ("url", f"/s{n}/pkg-1.2.tar.gz")
    if kind == "url-extra":
        return [f"sha256: {'0' * 64}", f"url: {base}/s{n}/b.zip", "folder: src", "patches:", "  - a.patch"], ("url", f"/s{n}/b.zip")
    if kind == "mirrors":
        return ["url:", f"  - {base}/s{n}/first.tar.gz", f"  - {base}/s{n}/second.tar.gz"], ("url", f"/s{n}/first.tar.gz")
    if kind == "git":
        return [f"{git}: {repo}"], ("git", commits["c3"])
    if kind == "git-tag":
        return [f"{git}: {repo}", f"{gt}: v2"], ("git", commits["dev1"])
    if kind == "git-rev":
        return [f"{git}: {repo}", f"{gr}: {commits['c2']}"], ("git", commits["c2"])
    if kind == "git-branch":
        return [f"{gb}: feat/x", f"{git}: {repo}"], ("git", commits["x2"])
    if kind == "git-all":
        return [f"{git}: {repo}", f"{gb}: dev", f"{gr}: {commits['c1']}", f"{gt}: rel/3"], ("git", commits["x1"])
    if kind == "git-vars":
        return [f"{git}: {repo}", f"{gt}: {tag}"], ("git", commits["c1"])
    if kind == "git-rev-vars":
        return [f"{git}: {repo}", f"{gr}: {sub % 'half'}{commits['c2'][20:]}"], ("git", commits["c2"])
    if kind == "git-branch-vars":
        return [f"{git}: {repo}", f"{gb}: feat/{sub % 'letter'}"], ("git", commits["x2"])
    if kind == "git-url-vars":
        head, tail = repo.rsplit("/", 1)
        return [f"{git}: {head}/{sub % 'repo'}", f"{gt}: v2"] if tail == _repo_name() else [], ("git", commits["dev1"])
    if kind == "mirrors-vars":
        return ["url:", f"  - {base}/s{n}/first-{ver}.tar.gz", f"  - {base}/s{n}/second-{ver}.tar.gz"], ("url", f"/s{n}/first-1.2.tar.gz")
    if kind == "mirror":
        return ["url:", f"  - {base}/s{n}/only.tar.gz"], ("url", f"/s{n}/only.tar.gz")
    if kind == "git-tag-rev":
        return [f"{git}: {repo}", f"{gr}: {commits['c1']}", f"{gt}: v2"], ("git", commits["dev1"])
    if kind == "git-rev-branch":
        return [f"{git}: {repo}", f"{gb}: feat/x", f"{gr}: {commits['c1']}"], ("git", commits["c1"])
    if kind == "url-fn":
        return [("fn" if v == 0 else "file_name") + ": other.zip", f"url: {base}/s{n}/a.tar.gz"], ("url", f"/s{n}/a.tar.gz")
    if kind == "url-query":
        return [f"url: {base}/s{n}/a.tar.gz?x=1&y={ver}"], ("url", f"/s{n}/a.tar.gz?x=1&y=1.2")
    if kind == "url+git":
        return [f"{git}: {repo}", f"url: {base}/s{n}/a.tar.gz"], ("url", f"/s{n}/a.tar.gz")
    if kind == "other-format":
        return [("git: " if v == 0 else "git_url: ") + repo], None
    return ["path: ../src", "folder: x"], None


def _repo_name() -> str:
    return c19.url("remote").rsplit("/", 1)[1]


def recipe(v: int, shape: str, kinds: list[str], base: str, name: str) -> tuple[str, list]:
    known = {"version": "1.2", "tag": "v1", "half": c19._COMMITS["c2"][:20], "letter": "x", "repo": _repo_name()}  # pylint: disable=protected-access
    out = [] if v == 0 else ["schema_version: 1", "", "context:"]
    out += [f'{{% set {k} = "{x}" %}}' if v == 0 else f'  {k}: "{x}"' for k, x in known.items()]
    out.append("")
    if name == "recipe":
        out += ["recipe:", "  name: pkg", ""]
    elif name == "package":
        out += ["package:", "  name: pkg", ""]
    wants = []
    if shape == "one":
        lines, want = source(kinds[0], 0, v, base)
        out += ["source:"] + ["  " + ln for ln in lines]
        wants.append(("/source", want))
    elif shape == "list":
        out.append("source:")
        for i, k in enumerate(kinds):
            lines, want = source(k, i, v, base)
            out += ["  - " + lines[0]] + ["    " + ln for ln in lines[1:]]
            wants.append((f"/source/{i}", want))
    elif shape == "null":
        out.append("source:")
    if name == "recipe":
        out += ["", "outputs:", "  - package:", "      name: out"]
    return "\n".join(out) + "\n", wants


def cases(tier: str) -> Iterator[Any]:
    for v in (0, 1):
        for k in KINDS + MORE:
            yield ["one", v, k]
        yield ["many", v]
        for a in KINDS:
            yield ["list", v, a, 3 if tier == "thorough" else 2]
            yield ["list-no-fetch", v, a, 3]
        yield ["none", v]


def explore(v: int, shape: str, kinds: list[str], name: str, run: bool, out: Out) -> None:
    srv = httpd.server()
    text, wants = recipe(v, shape, kinds, srv.base, name)
    label = f"V{v} {shape} {' '.join(kinds)} {name}"
    out.nt(v, shape, kinds, name)
    reader = RecipeReader(text)
    for ignore in (False, True):
        try:
            got: Any = from_recipe(reader, ignore)
        except FetchUnsupportedError:
            got = "unsupported"
        bad = [p for p, w in wants if w is None]
        if bad and not ignore:
            out.expect(got, "unsupported", f"unsupported {label}", f"sources of {label}")
            continue
        if got == "unsupported":
            out.expect(got, [p for p, _ in wants], f"supported {label}", f"sources of {label}")
            continue
        out.expect(list(got), [p for p, w in wants if w is not None], f"paths {label}", f"paths of the sources of {label}")
        base = "pkg" if name else "Unknown Recipe"
        for i, (path, want) in enumerate(wants):
            if want is None or path not in got:
                continue
            f = got[path]
            out.step()
            out.expect(str(f), base if len(wants) == 1 else f"{base}_{i}", f"name {label}", f"name of the fetcher of {path} in {label}")
            kind = HttpArtifactFetcher if want[0] == "url" else GitArtifactFetcher
            if not out.expect(isinstance(f, kind), True, f"kind {label}", f"kind of the fetcher of {path} in {label} ({type(f).__name__})") or not run or ignore:
                continue
            srv.reset({want[1]: [("ok", ar.build(ar.TREE_A, "tar.gz"))]} if want[0] == "url" else {})
            try:
                f.fetch()
            except FetchError as e:
                out.ev()
                out.fail(f"fetch {label}", f"{path} of {label} cannot be fetched: {e}; requests {srv.log}")
                continue
            src = f.get_path_to_source_code()
            if want[0] == "url":
                out.expect(srv.log, [want[1]], f"fetch {label}", f"requests for {path} of {label}")
                out.expect(ar.read_tree(src), ar.TREE_A, f"fetch {label}", f"files of {path} of {label}")
            else:
                out.expect(c19.git(src, "rev-parse", "HEAD"), want[1], f"fetch {label}", f"commit of {path} of {label}")
        out.trace()


def check(case: Any, out: Out) -> None:
    out.outcome(case[0])
    if case[0] == "one":
        for name in ("package", "") + (("recipe",) if case[1] else ()):
            explore(case[1], "one", [case[2]], name, True, out)
            explore(case[1], "list", [case[2]], name, True, out)
    elif case[0] == "many":
        # Positions of more than one digit.
        for n in range(9, 14):
            explore(case[1], "list", [(KINDS + MORE)[(n + i) % len(KINDS + MORE)] for i in range(n)], "package", False, out)
        explore(case[1], "list", [k for k in KINDS + MORE if k not in ("path", "other-format")], "package", True, out)
    elif case[0] == "list":
        for rest in itertools.product(KINDS, repeat=case[3] - 1):
            explore(case[1], "list", [case[2], *rest], "package", True, out)
    elif case[0] == "list-no-fetch":
        for rest in itertools.product(KINDS, repeat=case[3] - 1):
            explore(case[1], "list", [case[2], *rest], "package", False, out)
    else:
        for shape in ("absent", "null"):
            text, _ = recipe(case[1], shape, [], "", "package")
            for ignore in (False, True):
                out.nt(case[1], shape, ignore)
                out.expect(from_recipe(RecipeReader(text), ignore), {}, f"no sources V{case[1]} {shape}", f"sources of a recipe where they are {shape}")
