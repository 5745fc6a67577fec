"""Builds small archives, the same bytes every time."""

from __future__ import annotations

import bz2
import gzip
import io
import lzma
import tarfile
import zipfile
from pathlib import Path

TAR_FORMATS = ("tar", "tar.gz", "tar.bz2", "tar.xz")
ZIP_FORMATS = ("zip", "zip-stored")
FORMATS = TAR_FORMATS + ZIP_FORMATS

TREE_A = {"pkg/a.txt": b"first version\n", "pkg/sub/b.txt": b"B"}
TREE_B = {"pkg/a.txt": b"second version, longer\n", "other/c.txt": b"C" * 40}
TREE_C = {"setup.py": b"print(1)\n", "data/blob.bin": bytes(range(256)) * 8}
TREES = {"A": TREE_A, "B": TREE_B, "C": TREE_C}


def tarinfo(name: str, size: int = 0, kind: bytes = tarfile.REGTYPE, link: str = "") -> tarfile.TarInfo:
    info = tarfile.TarInfo(name)
    info.size, info.type, info.linkname, info.mtime, info.mode = size, kind, link, 1_000_000_000, 0o644
    return info


def tar_of(entries: list[tuple[tarfile.TarInfo, bytes]]) -> bytes:
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w", format=tarfile.GNU_FORMAT) as tar:
        for info, data in entries:
            tar.addfile(info, io.BytesIO(data) if data else None)
    return buf.getvalue()


def compress(raw: bytes, fmt: str) -> bytes:
    if fmt == "tar.gz":
        return gzip.compress(raw, mtime=0)
    if fmt == "tar.bz2":
        return bz2.compress(raw)
    if fmt == "tar.xz":
        return lzma.compress(raw)
    return raw


def zip_of(entries: list[tuple[str, bytes]], stored: bool = False) -> bytes:
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for name, data in entries:
            info = zipfile.ZipInfo("x", (2001, 9, 9, 1, 46, 40))
            info.filename = name
            info.external_attr = 0o644 << 16
            z.writestr(info, data, zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED)
    return buf.getvalue()


def build(tree: dict[str, bytes], fmt: str) -> bytes:
    if fmt in TAR_FORMATS:
        return compress(tar_of([(tarinfo(n, len(d)), d) for n, d in tree.items()]), fmt)
    return zip_of(list(tree.items()), fmt == "zip-stored")


def read_tree(root: Path) -> dict[str, bytes]:
    """The files below a directory."""
    return {
        str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file() and not p.is_symlink()
    }
