"""
Stand-in for the third-party package `conda`, which cannot be installed in this sandbox (see /opt/vp/BUILD.json).

Only the part of `conda.models.match_spec` that conda-recipe-manager uses is provided: `MatchSpec(str)`, `.name`,
`.version`, `.original_spec_str`, value equality/hash, and `InvalidMatchSpec`. Every check that imports a module that
needs `conda` lists this stand-in among its assumptions. The checks keep to dependency strings of the plain forms
`name`, `name <version>` and `name <version> <build>`, on which this agrees with the real class for the attributes used.
"""

from __future__ import annotations

import re


class InvalidMatchSpec(ValueError):
    """Raised when a string is not a match spec."""

    def __init__(self, invalid_spec: str, details: str):
        super().__init__(f"Invalid spec '{invalid_spec}': {details}")


_BRACKET = re.compile(r"^(.*?)\s*\[([^\]]*)\]$")
_PAIR = re.compile(r"([a-z_]+)\s*=\s*(?:'([^']*)'|\"([^\"]*)\"|([^,\s]+))")
_NAME = re.compile(r"^(?:[A-Za-z0-9_./-]+::)?([A-Za-z0-9_*][A-Za-z0-9_.*+-]*)$")


class MatchSpec:
    """Subset of conda's MatchSpec."""

    def __init__(self, spec: str):
        if isinstance(spec, MatchSpec):
            spec = spec.original_spec_str
        if not isinstance(spec, str):
            raise InvalidMatchSpec(str(spec), "not a string")
        text = spec.split("#", 1)[0].strip()
        if not text:
            raise InvalidMatchSpec(spec, "empty spec")
        extra: dict[str, str] = {}
        b = _BRACKET.match(text)
        if b:
            text = b.group(1)
            for k, v1, v2, v3 in _PAIR.findall(b.group(2)):
                extra[k] = v1 or v2 or v3
        m = re.match(r"^([^\s=<>!~]+)\s*(.*)$", text)
        if not m or not _NAME.match(m.group(1)):
            raise InvalidMatchSpec(spec, "bad package name")
        self.original_spec_str = spec
        self.name = _NAME.match(m.group(1)).group(1).lower()
        rest = m.group(2).strip()
        rest = re.sub(r"([<>=!~,|])\s+", r"\1", rest)
        rest = re.sub(r"\s+([,|])", r"\1", rest)
        parts = rest.split()
        if len(parts) > 2:
            raise InvalidMatchSpec(spec, "too many components")
        self.version = extra.get("version", parts[0] if parts else None)
        self.build = extra.get("build", parts[1] if len(parts) > 1 else None)

    def _key(self) -> tuple[object, ...]:
        return (self.name, self.version, self.build)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, MatchSpec) and self._key() == other._key()

    def __hash__(self) -> int:
        return hash(self._key())

    def __str__(self) -> str:
        return " ".join(p for p in self._key() if p)

    def __repr__(self) -> str:
        return f'MatchSpec("{self}")'
