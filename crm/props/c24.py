"""C24: files and texts are hashed as a whole, with the algorithm that was asked for."""

from __future__ import annotations

import hashlib
import itertools
from typing import Any, Iterator

from conda_recipe_manager.fetcher.http_artifact_fetcher import HttpArtifactFetcher
from conda_recipe_manager.utils.cryptography.hashing import hash_file, hash_str
from crm import archives, httpd
from crm.core import Out, Scratch

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "all algorithms x all sizes around the sizes of buffers x contents, vs hashlib on the whole content at once"
RULE = "Every guaranteed algorithm by name and by constructor x sizes 0 to 300 (2000 thorough) and 3 around each power of two up to 2^20 (2^23) x contents x str and Path. Non-trivial: distinct (algorithm, size, content)."
ASSUMPTIONS = ["hashlib is right about bytes in memory"]
CHUNK = 1

ALGORITHMS = sorted(a for a in hashlib.algorithms_guaranteed if not a.startswith("shake"))
TEXTS = ["", "a", "é€𝄞", "a\nb\r\nc\r", "\x00", " a ", "{{ x }}", "\ufeffa", "x" * 70000, "\n"]
ENCODINGS = ["utf-8", "utf-16", "utf-32-be", "latin-1", "ascii"]


def sizes(tier: str) -> list[int]:
    top, small = (21, 301) if tier == "quick" else (24, 2001)
    return sorted({*range(small), *((1 << k) + d for k in range(9, top) for d in (-1, 0, 1)), 65536 * 3, 65536 * 3 + 7})


def cases(tier: str) -> Iterator[Any]:
    for s in range(0, len(sizes(tier)), 20):
        yield ["files", s, tier]
    yield ["texts"]
    yield ["errors"]
    yield ["archives"]


def contents(size: int) -> list[bytes]:
    base = bytes((i * 7 + i // 256) % 256 for i in range(min(size, 4096)))
    long = (base * (size // max(len(base), 1) + 1))[:size]
    return [long, long[:-1] + b"\n" if size else b"", b"\r\n" * (size // 2) + b"x" * (size % 2)]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "files":
        with Scratch() as d:
            for size in sizes(case[2])[case[1] : case[1] + 20]:
                for n, data in enumerate(contents(size)):
                    p = d / "f é"
                    p.write_bytes(data)
                    some = ALGORITHMS if n == 0 and size < 70000 else ["sha256", "md5"]
                    for a in some:
                        out.nt(a, size, n)
                        out.step()
                        want = hashlib.new(a, data).hexdigest()
                        for path, algo in itertools.product((p, str(p)), (a, getattr(hashlib, a))):
                            out.expect(hash_file(path, algo), want, f"file {a}", f"{a} of {size} bytes")
                    if size > 4096:
                        # A change of a single byte anywhere is seen
                        for at in (0, size // 2, size - 1):
                            with p.open("r+b") as f:
                                f.seek(at)
                                f.write(bytes([data[at] ^ 1]))
                            changed = data[:at] + bytes([data[at] ^ 1]) + data[at + 1 :]
                            out.expect(hash_file(p, "sha256"), hashlib.sha256(changed).hexdigest(), "changed byte", f"{size} bytes, changed at {at}")
                            p.write_bytes(data)
                    out.expect(p.read_bytes() == data, True, "unchanged", f"{size} bytes")
    elif kind == "texts":
        for t, a, e in itertools.product(TEXTS, ALGORITHMS, ENCODINGS):
            out.nt(t[:20], a, e)
            try:
                want: Any = hashlib.new(a, t.encode(e)).hexdigest()
            except UnicodeEncodeError:
                want = UnicodeEncodeError
            for kw in ({"encoding": e}, {}) if e == "utf-8" else ({"encoding": e},):
                try:
                    got: Any = hash_str(t, getattr(hashlib, a), **kw)
                except UnicodeEncodeError:
                    got = UnicodeEncodeError
                out.expect(got, want, f"text {a} {e}", f"{a} of {t[:20]!r} in {e}")
    elif kind == "errors":
        with Scratch() as d:
            for path, algo, error in ((d / "missing", "sha256", FileNotFoundError), (d, "sha256", IsADirectoryError), (d / "f", "nope", ValueError)):
                (d / "f").write_bytes(b"x")
                out.nt(str(error))
                try:
                    got = hash_file(path, algo)
                except OSError as e:
                    got = type(e)
                except ValueError:
                    got = ValueError
                out.expect(got, error, "errors", f"{algo} of {path.name}")
    else:
        # The hash of an archive is that of the bytes that were sent
        for fmt, size in itertools.product(("tar", "tar.gz", "zip-stored"), (0, 10, 65535, 65536, 65537, 200000, 300001)):
            with Scratch():
                body = archives.build({"p/a": contents(size)[0]}, fmt)
                server = httpd.server()
                server.reset({f"/a.{fmt.split('-')[0]}": [("ok", body)]})
                out.nt("archive", fmt, size)
                f = HttpArtifactFetcher("a", f"{server.base}/a.{fmt.split('-')[0]}")
                f.fetch()
                out.expect(f.get_archive_sha256(), hashlib.sha256(body).hexdigest(), "archive", f"{fmt} of {len(body)} bytes")
