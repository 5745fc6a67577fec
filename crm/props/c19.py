"""C19: git sources are checked out at the tag, else the revision, else the branch that they name."""

from __future__ import annotations

import gc
import itertools
import os
import shutil
import subprocess
import tempfile
from pathlib import Path
from typing import Any, Iterator, Optional

from crm.core import Out, Scratch

from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
from conda_recipe_manager.fetcher.git_artifact_fetcher import GitArtifactFetcher

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of targets x kinds of source on real local git repositories, and failure points, vs the tree git itself gives"
RULE = "All combinations of tag, revision, branch (given, absent, missing in the repository) for cloned and copied repositories. Non-trivial: distinct (source, tag, rev, branch)."
ASSUMPTIONS = ["remote repositories are reached with file:// URLs", "names of tags and branches of a repository differ"]
WORKERS = 8

_ENV = {
    "GIT_CONFIG_GLOBAL": "/dev/null",
    "GIT_CONFIG_SYSTEM": "/dev/null",
    "GIT_CONFIG_NOSYSTEM": "1",
    "GIT_AUTHOR_NAME": "A",
    "GIT_AUTHOR_EMAIL": "a@example.com",
    "GIT_COMMITTER_NAME": "A",
    "GIT_COMMITTER_EMAIL": "a@example.com",
    "GIT_AUTHOR_DATE": "2001-09-09T01:46:40Z",
    "GIT_COMMITTER_DATE": "2001-09-09T01:46:40Z",
    "GIT_TERMINAL_PROMPT": "0",
    # The workers read the same repositories: reading must not write.
    "GIT_OPTIONAL_LOCKS": "0",
}

TAGS = [None, "v1", "v2", "rel/3", "no-such-tag"]
REVS = [None, "c1", "c2", "c2:short", "dev1", "deadbeef"]
BRANCHES = [None, "main", "dev", "feat/x", "no-such-branch"]
SOURCES = ["remote", "remote-bare", "local", "local-on-dev", "local-detached", "local-dirty"]

_DIR: Optional[Path] = None
_COMMITS: dict[str, str] = {}


def git(where: Path, *args: str) -> str:
    return subprocess.run(["git", "-C", str(where), *args], check=True, capture_output=True, text=True, env={**os.environ, **_ENV}).stdout.strip()


def setup(_tier: str) -> None:
    """Builds the repositories once; workers only read these."""
    global _DIR
    os.environ.update(_ENV)
    _DIR = Path(tempfile.mkdtemp(prefix="crmv-git-"))
    repo = _DIR / "origin"
    repo.mkdir()
    git(repo, "init", "-q", "-b", "main")

    def commit(name: str, files: dict[str, Optional[str]]) -> None:
        for f, text in files.items():
            p = repo / f
            if text is None:
                p.unlink()
            else:
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text(text)
        git(repo, "add", "-A")
        git(repo, "commit", "-q", "-m", name)
        _COMMITS[name] = git(repo, "rev-parse", "HEAD")

    commit("c1", {"a.txt": "1", "only1.txt": "x"})
    git(repo, "tag", "v1")
    commit("c2", {"a.txt": "2", "only1.txt": None})
    git(repo, "checkout", "-q", "-b", "dev")
    commit("dev1", {"a.txt": "dev 1", "dev/d.txt": "d"})
    git(repo, "tag", "-a", "v2", "-m", "annotated")
    commit("dev2", {"a.txt": "dev 2"})
    git(repo, "checkout", "-q", "-b", "feat/x", "main")
    commit("x1", {"x.txt": "x"})
    git(repo, "tag", "rel/3")
    commit("x2", {"x.txt": "xx"})
    git(repo, "checkout", "-q", "main")
    (repo / "link").symlink_to("a.txt")
    (repo / "dangling").symlink_to("nowhere")
    commit("c3", {"a.txt": "3"})
    for name in ("local-on-dev", "local-detached", "local-dirty"):
        shutil.copytree(repo, _DIR / name, symlinks=True)
    git(_DIR / "local-on-dev", "checkout", "-q", "dev")
    git(_DIR / "local-detached", "checkout", "-q", "--detach", _COMMITS["c1"])
    (_DIR / "local-dirty" / "a.txt").write_text("not committed")
    git(_DIR, "clone", "-q", "--bare", str(repo), str(_DIR / "bare.git"))
    (_DIR / "no-repo").mkdir()
    (_DIR / "no-repo" / "f").write_text("f")
    (_DIR / "file").write_text("f")
    (_DIR / "empty").mkdir()
    git(_DIR / "empty", "init", "-q", "-b", "main")


def teardown() -> None:
    if _DIR is not None:
        shutil.rmtree(_DIR, ignore_errors=True)


def cases(tier: str) -> Iterator[Any]:
    for src in SOURCES:
        for tag in TAGS:
            for rev in REVS:
                yield ["target", src, tag, rev]
    for bad in ("no-repo", "file", "empty"):
        for kind in ("local", "remote"):
            yield ["bad", bad, kind]
    yield ["missing"]
    for order in itertools.permutations(range(3)):
        yield ["several", list(order)]


def url(src: str) -> str:
    assert _DIR is not None
    if src == "remote":
        return f"file://{_DIR}/origin"
    if src == "remote-bare":
        return f"file://{_DIR}/bare.git"
    return str(_DIR / ("origin" if src == "local" else src))


def tree(root: Path) -> dict[str, str]:
    return {str(p.relative_to(root)): p.read_text() for p in sorted(root.rglob("*")) if p.is_file() and not p.is_symlink() and ".git" not in p.relative_to(root).parts} | {
        str(p.relative_to(root)): os.readlink(p) for p in root.iterdir() if p.is_symlink()
    }


def want_tree(commit: str) -> dict[str, str]:
    assert _DIR is not None
    repo = _DIR / "origin"
    key = commit
    if key not in _TREES:
        names = git(repo, "ls-tree", "-r", "--name-only", commit).split("\n")
        _TREES[key] = {n: git(repo, "show", f"{commit}:{n}") for n in names}
    return _TREES[key]


_TREES: dict[str, dict[str, str]] = {}
_TIP = {"main": "c3", "dev": "dev2", "feat/x": "x2"}
_TAG = {"v1": "c1", "v2": "dev1", "rel/3": "x1"}
_HEAD = {"remote": "c3", "remote-bare": "c3", "local": "c3", "local-on-dev": "dev2", "local-detached": "c1", "local-dirty": "c3"}


def resolve(tag: Optional[str], rev: Optional[str], branch: Optional[str], src: str) -> Optional[str]:
    """The commit that must be checked out, or None if there is none."""
    if tag is not None:
        name = _TAG.get(tag)
    elif rev is not None:
        name = rev.split(":")[0] if rev.split(":")[0] in _COMMITS else None
    elif branch is not None:
        name = _TIP.get(branch)
    else:
        name = _HEAD[src]
    return None if name is None else _COMMITS[name]


def spelled(rev: Optional[str]) -> Optional[str]:
    if rev is None or rev == "deadbeef":
        return rev
    name, _, short = rev.partition(":")
    return _COMMITS[name][: 10 if short else 40]


def unfetched(f: GitArtifactFetcher, key: str, out: Out) -> None:
    out.ev()
    try:
        out.fail(f"unfetched {key}", f"get_path_to_source_code() gives {f.get_path_to_source_code()} although nothing was fetched: {key}")
    except FetchRequiredError:
        pass


def check(case: Any, out: Out) -> None:
    assert _DIR is not None
    kind = case[0]
    out.outcome(kind)
    if kind == "target":
        _, src, tag, rev = case
        for branch in BRANCHES:
            key = f"{src} tag={tag} rev={rev} branch={branch}"
            f = GitArtifactFetcher("pkg", url(src), branch=branch, tag=tag, rev=spelled(rev))
            unfetched(f, key, out)
            want = resolve(tag, rev, branch, src)
            out.nt(src, tag, rev, branch)
            out.step()
            try:
                f.fetch()
                ok = True
            except FetchError:
                ok = False
            if not out.expect(ok, want is not None, f"success {key}", f"whether fetch() succeeds: {key}"):
                continue
            if want is None:
                unfetched(f, key, out)
                continue
            got = tree(f.get_path_to_source_code())
            expected = dict(want_tree(want))
            if src == "local-dirty" and tag is None and rev is None and branch is None:
                expected["a.txt"] = "not committed"
            out.expect(got, expected, f"files {key}", f"files checked out: {key}")
            out.expect(git(f.get_path_to_source_code(), "rev-parse", "HEAD"), want, f"commit {key}", f"commit checked out: {key}")
        # The source is as it was.
        if src.startswith("local"):
            out.expect(git(Path(url(src)), "rev-parse", "HEAD"), _COMMITS[_HEAD[src]], f"source {src}", "HEAD of the source repository")
            out.expect(git(Path(url(src)), "status", "--porcelain").strip(), "M a.txt" if src == "local-dirty" else "", f"source {src}", "changes in the source repository")
    elif kind == "bad":
        _, bad, how = case
        where = str(_DIR / bad)
        for branch, tag, rev in ((None, None, None), ("main", None, None), (None, "v1", None), (None, None, "deadbeef")):
            f = GitArtifactFetcher("pkg", where if how == "local" else f"file://{where}", branch=branch, tag=tag, rev=rev)
            key = f"{how} {bad} {branch} {tag} {rev}"
            out.nt(key)
            try:
                f.fetch()
                ok = True
            except FetchError:
                ok = False
            if bad == "empty" and (branch, tag, rev) == (None, None, None):
                out.expect(ok, True, f"empty {key}", "an empty repository is fetched")
                continue
            out.expect(ok, False, f"bad {key}", f"whether fetch() succeeds: {key}")
            unfetched(f, key, out)
    elif kind == "missing":
        for where in ("", "file:///no/such/repository", "/no/such/repository", "http://127.0.0.1:1/x.git", "not a url"):
            f = GitArtifactFetcher("pkg", where) if where else None
            if f is None:
                continue
            out.nt(where)
            try:
                f.fetch()
                out.fail(f"missing {where}", f"fetch() succeeds: {where}")
            except FetchError:
                out.ev()
            unfetched(f, where, out)
    else:
        # Several fetchers of one repository, used in some order, and their directories.
        targets = [("v1", None, None), (None, "dev1", None), (None, None, "feat/x")]
        with Scratch() as scratch:
            old, tempfile.tempdir = tempfile.tempdir, str(scratch)
            try:
                fs = [GitArtifactFetcher(f"p{i}", url("remote" if i else "local"), tag=t, rev=spelled(r), branch=b) for i, (t, r, b) in enumerate(targets)]
                done: set[int] = set()
                for i in case[1]:
                    fs[i].fetch()
                    done.add(i)
                    out.step()
                    for j, f in enumerate(fs):
                        key = f"order {case[1]}"
                        if j in done:
                            want = resolve(*targets[j], "remote")
                            assert want
                            out.expect(tree(f.get_path_to_source_code()), want_tree(want), key, f"files of fetcher {j}")
                        else:
                            unfetched(f, key, out)
                        out.expect(str(f), f"p{j}", key, "name")
                out.nt(*case[1])
                del f, fs
                gc.collect()
                out.expect([p.name for p in scratch.iterdir()], [], "lifetime", "directories left behind")
            finally:
                tempfile.tempdir = old
