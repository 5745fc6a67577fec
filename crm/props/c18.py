"""C18: fetched archives are whole, theirs, and contained, or there is a FetchError."""

from __future__ import annotations

import gc
import hashlib
import itertools
import os
import resource
import signal
import tarfile
import tempfile
from pathlib import Path
from typing import Any, Iterator

import requests

from crm import archives as ar
from crm import httpd
from crm.core import Out, Scratch

from conda_recipe_manager.fetcher.exceptions import FetchError, FetchRequiredError
from conda_recipe_manager.fetcher.http_artifact_fetcher import ArtifactArchiveType, HttpArtifactFetcher

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = (
    "explicit-state: all sequences of server behaviours for one fetcher, every truncation and byte corruption of small archives, "
    "every write-failure point, a server that falls silent, against a model of the fetcher; real loopback HTTP"
)
RULE = (
    "States: (what the last fetch did) x history of server answers. Non-trivial: distinct (answers, format) with at least one fetch. "
    "Torn archives: every length of every format; write faults: every file size limit up to the size of the archive."
)
ASSUMPTIONS = [
    "the connection is plain HTTP on the loopback interface",
    "an uncompressed tar cut between two members reads as a shorter archive, which only its hash tells",
]

TYPE = {f: ArtifactArchiveType.TARBALL for f in ar.TAR_FORMATS} | {f: ArtifactArchiveType.ZIP for f in ar.ZIP_FORMATS}


def answers() -> dict[str, tuple[list[tuple], str | None, str | None]]:
    """Name -> (answers of the server to one request, tree, format); no tree: the fetch must fail."""
    gz, zp = ar.build(ar.TREE_A, "tar.gz"), ar.build(ar.TREE_B, "zip")
    return {
        "A.tar.gz": ([("ok", gz)], "A", "tar.gz"),
        "B.zip": ([("ok", zp)], "B", "zip"),
        "C.tar": ([("ok", ar.build(ar.TREE_C, "tar"))], "C", "tar"),
        "B.tar.xz": ([("ok", ar.build(ar.TREE_B, "tar.xz"))], "B", "tar.xz"),
        "C.tar.bz2": ([("ok", ar.build(ar.TREE_C, "tar.bz2"))], "C", "tar.bz2"),
        "A.zip": ([("ok", ar.build(ar.TREE_A, "zip-stored"))], "A", "zip-stored"),
        "moved": ([("redirect", "/moved")], "A", "tar.gz"),
        "404": ([("status", 404, b"<html>no</html>")], None, None),
        "500": ([("status", 500, b"")], None, None),
        "503 with an archive": ([("status", 503, gz)], None, None),
        "404 with a zip": ([("status", 404, zp)], None, None),
        "hangup": ([("hangup",)], None, None),
        "short": ([("short", gz, len(gz) - 3)], None, None),
        "short tar": ([("short", ar.build(ar.TREE_C, "tar"), 8192)], None, None),
        "half": ([("ok", gz[: len(gz) // 2])], None, None),
        "garbage": ([("ok", b"This is not an archive.\n" * 100)], None, None),
        "empty": ([("ok", b"")], None, None),
        "loop": ([("redirect", "/loop")], None, None),
    }


ANSWERS = answers()
CORE = ["A.tar.gz", "B.zip", "C.tar", "404", "503 with an archive", "hangup", "short", "half", "garbage"]


def cases(tier: str) -> Iterator[Any]:
    for first in ANSWERS:
        yield ["sequences", first, 3 if tier == "thorough" else 2]
    for first, second in itertools.product(CORE, repeat=2):
        yield ["sequences3", first, second, 4 if tier == "thorough" else 3]
    for fmt in ar.FORMATS:
        for t in ("A", "C") if tier == "thorough" else ("A",):
            body = ar.build(ar.TREES[t], fmt)
            step = 1 if tier == "thorough" or len(body) < 1000 else 13
            # The padding at the end of a tar file is all the same.
            top = min(len(body), 4096) if fmt == "tar" else len(body)
            marks = sorted(set(range(0, top + 1, step)) | {x for b in range(0, top, 512) for x in (b - 1, b, b + 1) if 0 <= x <= top})
            for i in range(0, len(marks), 40):
                yield ["torn", fmt, t, marks[i : i + 40]]
                yield ["flip", fmt, t, marks[i : i + 40]]
    for fmt in ar.FORMATS:
        yield ["hostile", fmt]
    for fmt in ("tar.gz", "zip", "tar", "zip-stored"):
        body = ar.build(ar.TREE_C, fmt)
        top = max(len(body), 2100) + 2
        step = 7 if tier == "thorough" else 61
        for lo in range(0, top, step * 8):
            yield ["full-disk", fmt, list(range(lo, min(lo + step * 8, top), step))]
    for u in range(len(URLS)):
        yield ["url", u]
    for fmt in ar.FORMATS:
        yield ["stall", fmt]
    yield ["lifetime"]


URLS = [
    # (path and query, name of the archive)
    ("/a.tar.gz", "a.tar.gz"),
    ("/x/y/pkg-1.2.3.tar.gz", "pkg-1.2.3.tar.gz"),
    ("/x/pkg-1.2.3.zip?raw=true&name=/other.tgz", "pkg-1.2.3.zip"),
    ("/archive/v1.0", "v1.0"),
    ("/x/a%20b.tar.gz", "a%20b.tar.gz"),
    ("/x/a.tar.gz;p=1", "a.tar.gz"),
    ("/x/.hidden", ".hidden"),
    ("/x/trailing/", "trailing"),
]


def model_getters(f: HttpArtifactFetcher, want: tuple[str, str, bytes] | None, key: str, out: Out) -> None:
    """`want`: tree, format, and bytes of the archive, or None if the last fetch did not succeed."""
    if want is None:
        for name in ("get_path_to_source_code", "get_archive_sha256", "get_archive_type"):
            out.ev()
            try:
                got = getattr(f, name)()
            except FetchRequiredError:
                continue
            out.fail(f"{name} unfetched {key}", f"{name}() gives {got!r} although the archive has not been fetched: {key}")
        return
    tree, fmt, body = want
    out.expect(ar.read_tree(f.get_path_to_source_code()), ar.TREES[tree], f"tree {key}", f"the extracted files after {key}")
    out.expect(f.get_archive_sha256(), hashlib.sha256(body).hexdigest(), f"sha {key}", f"SHA-256 after {key}")
    out.expect(f.get_archive_type(), TYPE[fmt], f"type {key}", f"type of the archive after {key}")


def fetch(f: HttpArtifactFetcher, key: str, out: Out) -> bool:
    """True if it succeeded. Anything but a FetchError is a violation."""
    try:
        f.fetch()
        return True
    except FetchError:
        return False
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.ev()
        out.fail(f"raises {type(e).__name__} {key}", f"fetch() raises {type(e).__name__}: {e}, not FetchError: {key}")
        return False


def sequences(prefix: list[str], names: list[str], depth: int, out: Out) -> None:
    srv = httpd.server()
    for rest in itertools.product(names, repeat=depth - len(prefix)):
        seq = prefix + list(rest)
        srv.reset(
            {
                "/p.bin": [a for n in seq for a in ANSWERS[n][0]],
                "/moved": [("ok", ar.build(ar.TREE_A, "tar.gz"))],
                "/loop": [("redirect", "/loop")],
            }
        )
        f = HttpArtifactFetcher("pkg", srv.base + "/p.bin")
        model_getters(f, None, "before the first fetch", out)
        for i, name in enumerate(seq):
            out.step()
            out.state(tuple(seq[: i + 1]))
            key = " > ".join(seq[: i + 1])
            ok = fetch(f, key, out)
            _, tree, fmt = ANSWERS[name]
            out.outcome("fetched" if ok else "refused")
            if not out.expect(ok, tree is not None, f"success {key}", f"whether fetch() succeeds after {key}"):
                break
            body = b"" if tree is None else (ar.build(ar.TREE_A, "tar.gz") if name == "moved" else ANSWERS[name][0][0][1])
            model_getters(f, None if tree is None else (tree, str(fmt), body), key, out)
        out.trace()
        out.nt(*seq)


def torn(fmt: str, tree: str, marks: list[int], out: Out) -> None:
    srv = httpd.server()
    body = ar.build(ar.TREES[tree], fmt)
    for n in marks:
        for promise in (True, False):
            if promise and n == len(body):
                continue
            srv.reset({"/p": [("short", body, n) if promise else ("ok", body[:n]), ("ok", body)]})
            key = f"{fmt} of {tree} cut to {n} of {len(body)} bytes" + (", connection lost" if promise else "")
            f = HttpArtifactFetcher("pkg", srv.base + "/p")
            ok = fetch(f, key, out)
            out.step()
            out.state(fmt, tree, n, promise)
            out.outcome("torn: fetched" if ok else "torn: refused")
            out.ev()
            if ok and promise:
                out.fail(f"torn {fmt}", f"fetch() succeeds: {key}")
            elif ok:
                files = ar.read_tree(f.get_path_to_source_code())
                whole = {k: v for k, v in ar.TREES[tree].items() if files.get(k) == v}
                out.expect(files, whole, f"torn {fmt}", f"files extracted from {key} are whole")
                if fmt != "tar":
                    out.expect(files, ar.TREES[tree], f"torn {fmt}", f"files extracted from {key}")
                out.expect(f.get_archive_sha256(), hashlib.sha256(body[:n]).hexdigest(), f"torn {fmt}", f"SHA-256 of {key}")
            else:
                model_getters(f, None, f"torn {fmt}", out)
            # A second attempt gets the whole archive, and nothing is left of the first.
            out.expect(fetch(f, "retry", out), True, f"retry {fmt}", f"whether a retry succeeds after {key}")
            model_getters(f, (tree, fmt, body), f"retry {fmt}", out)
            out.trace()
            out.nt(fmt, tree, n, promise)


def flip(fmt: str, tree: str, marks: list[int], out: Out) -> None:
    srv = httpd.server()
    body = ar.build(ar.TREES[tree], fmt)
    for n in marks:
        if n >= len(body):
            continue
        for mask in (0xFF, 0x01):
            bad = body[:n] + bytes([body[n] ^ mask]) + body[n + 1 :]
            srv.reset({"/p": [("ok", bad), ("ok", body)]})
            key = f"{fmt} of {tree}, byte {n} ^ {mask:#x}"
            f = HttpArtifactFetcher("pkg", srv.base + "/p")
            ok = fetch(f, key, out)
            out.step()
            out.state(fmt, tree, n, mask)
            out.outcome("corrupt: fetched" if ok else "corrupt: refused")
            if ok:
                out.expect(f.get_archive_sha256(), hashlib.sha256(bad).hexdigest(), f"flip {fmt}", f"SHA-256 of {key}")
            else:
                model_getters(f, None, f"flip {fmt}", out)
            out.expect(fetch(f, "retry", out), True, f"retry {fmt}", f"whether a retry succeeds after {key}")
            model_getters(f, (tree, fmt, body), f"retry after flip {fmt}", out)
            out.trace()
            out.nt(fmt, tree, n, mask)


def hostile(fmt: str, out: Out) -> None:
    """Members that name places outside. All of these places lie in the scratch directory."""
    srv = httpd.server()
    with Scratch() as scratch:
        deep = scratch / "1" / "2" / "3" / "4" / "5"
        deep.mkdir(parents=True)
        outside = scratch / "outside"
        outside.mkdir()
        names = ["../evil", "../../evil", "../../../evil", "pkg/../../../evil", f"{outside}/evil", "./../../evil", "pkg/./../../../evil"]
        bodies: list[tuple[str, bytes]] = []
        if fmt in ar.ZIP_FORMATS:
            for n in names + ["..\\..\\evil"]:
                bodies.append((n, ar.zip_of([("ok.txt", b"ok"), (n, b"evil")], fmt == "zip-stored")))
        else:
            for n in names:
                bodies.append((n, ar.tar_of([(ar.tarinfo("ok.txt", 2), b"ok"), (ar.tarinfo(n, 4), b"evil")])))
            for kind, label in ((tarfile.SYMTYPE, "symbolic link"), (tarfile.LNKTYPE, "hard link")):
                for target in (str(outside), "../../../..", "../../../../../../outside", str(outside / "there")):
                    bodies.append((f"{label} to {target}", ar.tar_of([(ar.tarinfo("link", 0, kind, target), b""), (ar.tarinfo("link/evil", 4), b"evil")])))
                    bodies.append((f"{label} to {target} as file", ar.tar_of([(ar.tarinfo("link", 0, kind, target), b""), (ar.tarinfo("link", 4), b"evil")])))
            for kind in (tarfile.CHRTYPE, tarfile.BLKTYPE):
                bodies.append((f"device {kind!r}", ar.tar_of([(ar.tarinfo("dev", 0, kind), b"")])))
            bodies = [(n, ar.compress(b, fmt)) for n, b in bodies]
        old_tmp, old_tempdir = os.environ.get("TMPDIR"), tempfile.tempdir
        tempfile.tempdir = str(deep)
        try:
            for label, body in bodies:
                (outside / "there").write_bytes(b"before")
                before = ar.read_tree(scratch)
                srv.reset({"/p": [("ok", body)]})
                f = HttpArtifactFetcher("pkg", srv.base + "/p")
                ok = fetch(f, label.replace(str(scratch), "SCRATCH"), out)
                out.outcome("hostile: fetched" if ok else "hostile: refused")
                out.step()
                out.trace()
                out.nt(fmt, label.replace(str(scratch), ""))
                home = next(deep.iterdir(), None)
                after = {k: v for k, v in ar.read_tree(scratch).items() if home is None or not str(scratch / k).startswith(str(home) + "/")}
                out.expect(after, before, f"escape {fmt}", f"files outside of the directory of the fetcher after {label!r}")
                devices = [] if home is None else [str(p) for p in home.rglob("*") if p.is_block_device() or p.is_char_device()]
                out.expect(devices, [], f"device {fmt}", f"device files made by {label!r}")
                links = [] if home is None else [str(p) for p in home.rglob("*") if p.is_symlink() and not str(p.resolve()).startswith(str(home) + "/")]
                out.expect(links, [], f"link {fmt}", f"links out of the directory of the fetcher after {label!r}")
                del f
                gc.collect()
        finally:
            tempfile.tempdir = old_tempdir
            if old_tmp is not None:
                os.environ["TMPDIR"] = old_tmp


def full_disk(fmt: str, limits: list[int], out: Out) -> None:
    """No file can grow past the limit: in the download, or in the extraction."""
    srv = httpd.server()
    body = ar.build(ar.TREE_C, fmt)
    biggest = max(len(body), max(len(v) for v in ar.TREE_C.values()))
    for n in limits:
        srv.reset({"/p": [("ok", body)]})
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                signal.alarm(60)
                f = HttpArtifactFetcher("pkg", srv.base + "/p")
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
                try:
                    f.fetch()
                    ok = ar.read_tree(f.get_path_to_source_code()) == ar.TREE_C
                    os.write(w, b"fetched" if ok else b"fetched with other files")
                except FetchError:
                    try:
                        f.get_archive_sha256()
                        os.write(w, b"hash of a broken archive")
                    except FetchRequiredError:
                        os.write(w, b"refused")
                except BaseException as e:  # pylint: disable=broad-exception-caught
                    os.write(w, f"raises {type(e).__name__}: {e}".encode())
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                f._temp_dir.cleanup() if hasattr(f, "_temp_dir") else None  # pylint: disable=protected-access,expression-not-assigned
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        got = b""
        while chunk := os.read(r, 4096):
            got += chunk
        os.close(r)
        os.waitpid(pid, 0)
        out.step()
        out.trace()
        out.state("full", fmt, n)
        out.nt(fmt, n)
        want = "fetched" if n >= biggest else "refused"
        out.outcome(f"limit: {want}")
        out.expect(got.decode(), want, f"full disk {fmt}", f"fetch of {fmt} when no file can have more than {n} bytes ({len(body)} in the archive)")


def stall(fmt: str, out: Out) -> None:
    """A server that stops answering, at any point: the fetch gives up. The time that it waits is cut short here."""
    srv = httpd.server()
    body = ar.build(ar.TREE_A, fmt)
    waits: list[Any] = []
    original = requests.adapters.HTTPAdapter.send

    def send(self: Any, request: Any, stream: bool = False, timeout: Any = None, **kwargs: Any) -> Any:
        waits.append(timeout)
        return original(self, request, stream=stream, timeout=0.2, **kwargs)

    requests.adapters.HTTPAdapter.send = send  # type: ignore[method-assign]
    try:
        for sent in (None, 0, 1, len(body) // 2, len(body) - 1):
            srv.reset({"/p": [("stall", body, sent), ("ok", body)]})
            f = HttpArtifactFetcher("pkg", srv.base + "/p")
            key = f"stall {fmt} {sent if sent is None or sent < 2 else 'half' if sent < len(body) - 1 else 'last byte'}"
            waits.clear()
            out.expect(fetch(f, key, out), False, key, "whether an archive of which the rest never comes is fetched")
            model_getters(f, None, key, out)
            bounded = all(w is not None and (not isinstance(w, tuple) or None not in w) for w in waits)
            out.expect(bounded, True, f"unbounded wait {key}", f"whether there is a limit on how long a silent server is waited for ({waits})")
            out.expect(fetch(f, key + " > ok", out), True, key + " > ok", "whether the archive is fetched by the next attempt")
            model_getters(f, ("A", fmt, body), key + " > ok", out)
            out.step(2)
            out.state(fmt, sent)
            out.nt("stall", fmt, sent)
            out.trace()
    finally:
        requests.adapters.HTTPAdapter.send = original  # type: ignore[method-assign]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "sequences":
        for depth in range(1, case[2] + 1):
            sequences([case[1]], list(ANSWERS), depth, out)
    elif kind == "sequences3":
        sequences([case[1], case[2]], CORE, case[3], out)
    elif kind == "torn":
        torn(*case[1:], out)
    elif kind == "flip":
        flip(*case[1:], out)
    elif kind == "hostile":
        hostile(case[1], out)
    elif kind == "full-disk":
        full_disk(case[1], case[2], out)
    elif kind == "stall":
        stall(case[1], out)
    elif kind == "url":
        url, name = URLS[case[1]]
        srv = httpd.server()
        body = ar.build(ar.TREE_A, "tar.gz")
        srv.reset({url: [("ok", body)]})
        f = HttpArtifactFetcher("pkg", srv.base + url)
        out.expect(fetch(f, url, out), True, f"url {url}", f"whether {url} is fetched")
        model_getters(f, ("A", "tar.gz", body), f"url {url}", out)
        out.expect(f.get_path_to_source_code().name, f"extracted_{name}", f"url {url}", "name of the directory")
        out.expect(srv.log, [url], f"url {url}", "requests")
        out.nt(url)
        out.trace()
    else:
        # Unreachable hosts and nonsense, then the lifetime of the directory.
        srv = httpd.server()
        for bad in (httpd.refused_url(), "not a url", "", "ftp://127.0.0.1/x.tar.gz", "http://", srv.base + "/", srv.base, srv.base + "/..", "file:///x.tar.gz"):
            srv.reset({"/": [("ok", ar.build(ar.TREE_A, "tar.gz"))]})
            f = HttpArtifactFetcher("pkg", bad)
            label = bad.replace(srv.base, "SERVER")
            if fetch(f, f"url {label}", out):
                model_getters(f, ("A", "tar.gz", ar.build(ar.TREE_A, "tar.gz")), f"url {label}", out)
            else:
                model_getters(f, None, f"url {label}", out)
            out.nt(label)
        body = ar.build(ar.TREE_A, "zip")
        for answer in (("ok", body), ("status", 404, b""), ("ok", b"garbage")):
            srv.reset({"/p": [answer]})
            with Scratch() as scratch:
                old, tempfile.tempdir = tempfile.tempdir, str(scratch)
                try:
                    f, g = HttpArtifactFetcher("one", srv.base + "/p"), HttpArtifactFetcher("two", srv.base + "/p")
                    out.expect((str(f), str(g)), ("one", "two"), "name", "names of fetchers")
                    ok = fetch(f, "lifetime", out)
                    model_getters(g, None, "lifetime", out)
                    fetch(g, "lifetime", out)
                    if ok:
                        out.expect(f.get_path_to_source_code() != g.get_path_to_source_code(), True, "lifetime", "fetchers do not share a directory")
                    del f
                    gc.collect()
                    if ok:
                        model_getters(g, ("A", "zip", body), "lifetime", out)
                    del g
                    gc.collect()
                    out.expect([p.name for p in scratch.iterdir()], [], "lifetime", "directories left behind")
                finally:
                    tempfile.tempdir = old
            out.step()
            out.trace()
