"""C15: converting a recipe renames and moves its fields as the V1 format requires, and changes nothing else."""

from __future__ import annotations

import copy
import itertools
from typing import Any, Iterator

import yaml

from conda_recipe_manager.parser.recipe_parser_convert import RecipeParserConvert
from conda_recipe_manager.types import MessageCategory
from crm.core import Out

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "all sets of up to three (four) fields of each section, with all forms of values, in all places, vs a reference model of the format"
RULE = (
    "Every field of each section with every form of value; all pairs and (small sections: all subsets) triples of fields, in both orders, "
    "at the top level and in outputs, with and without comments. Non-trivial: distinct recipes."
)
ASSUMPTIONS = ["the recipe is in a layout that the parser supports", "license names: three representative ones; the matching itself is C17"]
CHUNK = 2
CASE_TIMEOUT_S = 300

LIST = ["a", "b"]
SCALARS: list[Any] = ["x", ["x"], LIST]
FORMS: dict[str, list[Any]] = {}
SOURCE = ["url", "sha256", "md5", "path", "patches", "fn", "folder", "git_url", "git_tag", "git_rev", "git_depth", "svn_url", "hg_url"]
BUILD_MOVED = [
    "run_exports", "ignore_run_exports", "merge_build_host", "no_link", "entry_points", "ignore_prefix_files",
    "detect_binary_files_with_prefix", "rpaths", "binary_relocation", "missing_dso_whitelist", "runpath_whitelist",
]  # fmt: skip
BUILD_KEPT = ["number", "string", "skip", "noarch", "script", "script_env", "always_include_files", "track_features"]
BUILD_GONE = [
    "pre-link", "noarch_python", "features", "msvc_compiler", "requires_features", "provides_features", "preferred_env",
    "preferred_env_executable_paths", "disable_pip", "pin_depends", "overlinking_ignore_patterns", "rpaths_patcher", "post-link", "pre-unlink",
]  # fmt: skip
BUILD_WRONG = ["skipt", "skips", "Skip"]
ABOUT_KEPT = ["license", "license_file", "license_url", "summary", "description"]
ABOUT_MOVED = {"home": "homepage", "dev_url": "repository", "doc_url": "documentation"}
ABOUT_GONE = ["prelink_message", "license_family", "identifiers", "tags", "keywords", "doc_source_url"]
TEST = ["files", "source_files", "requires", "commands", "imports", "downstreams"]
REQUIREMENTS = ["build", "host", "run", "run_constrained"]

FORMS.update({k: SCALARS for k in (*SOURCE, *BUILD_MOVED, *BUILD_KEPT, *ABOUT_KEPT, *ABOUT_GONE, *TEST, *REQUIREMENTS)})
FORMS.update({k: ["x", LIST, True] for k in (*BUILD_GONE,)})
FORMS.update({k: ["https://x.org/y"] for k in ABOUT_MOVED})
FORMS.update({k: ["https://x.org/y.tgz", ["https://x.org/1", "https://y.org/2"]] for k in ("url", "git_url", "svn_url", "hg_url")})
FORMS.update({k: [True, False] for k in ("merge_build_host", *BUILD_WRONG, "skip", "disable_pip", "noarch_python")})
FORMS.update({k: ["x", 3] for k in ("git_depth", "git_rev", "git_tag", "number", "folder", "fn", "sha256", "md5", "string", "noarch")})
FORMS.update({k: [True, False, LIST] for k in ("binary_relocation", "ignore_prefix_files", "detect_binary_files_with_prefix")})
FORMS["run_exports"] = ["x", LIST, {"strong": LIST, "weak": ["c"]}, {"strong": "c"}]
FORMS["script_env"] = ["A", "A=1", ["A"], ["A=x"], ["A", "B=x", "C"], ["A = x", "B=y", "C="], ["A=x=y", "B", "C=z"]]
FORMS["script"] = ["x.sh", ["a b", "c"], "make\nmake install\n"]
FORMS["license"] = ["MIT", "Apache 2", "zzqqxxww", 7]
FORMS["summary"] = ["x", LIST, "a\nb\n"]
FORMS["description"] = ["x: y", "a\nb\n"]
FORMS["commands"] = [
    "x", ["x"], LIST, "pip check", ["pip check"], ["x", "pip check"], ["python -m pip check"], ["python3 -m pip check", "x"], ["pip check", "pip check"], ["pip check --x"],
]  # fmt: skip
FORMS["host"] = ["x", LIST, "python", ["python"], ["pip", "python"], ["python-x"], "python-x"]
for _k in ("patches", "entry_points", "missing_dso_whitelist", "rpaths", "license_file", "host", "run_constrained", "files", "source_files", "requires", "commands", "imports", "run_exports", "license", "script_env"):
    FORMS[_k] = [*FORMS[_k], None]

LICENSES = {"MIT": "MIT", "Apache 2": "Apache-2.0"}
PIP_CHECK = ("pip check", "python -m pip check", "python3 -m pip check")
TOP_ORDER = ["schema_version", "context", "package", "recipe", "source", "files", "build", "requirements", "outputs", "test", "tests", "about", "extra"]
SOURCE_ORDER = ["url", "sha256", "md5", "path", "use_gitignore", "git", "branch", "tag", "rev", "depth", "lfs", "target_directory", "file_name", "patches"]
BUILD_ORDER = [
    "number", "string", "skip", "noarch", "script", "merge_build_and_host_envs", "always_include_files", "always_copy_files", "variant",
    "python", "prefix_detection", "dynamic_linking",
]  # fmt: skip
PLACES = ("top", "output", "second", "both")


#### The reference model ####


def as_list(v: Any) -> list[Any]:
    return v if isinstance(v, list) else [v]


def nested(d: dict[str, Any], *keys: str) -> dict[str, Any]:
    for k in keys:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    return d


class Reference:
    def __init__(self) -> None:
        self.warnings: list[str] = []
        self.errors: list[str] = []

    def recipe(self, old: dict[str, Any]) -> dict[str, Any]:
        new = copy.deepcopy(old)
        self.package(new, "")
        if "outputs" in new:
            for i, o in enumerate(as_list(new["outputs"])):
                if not isinstance(o, dict):
                    continue
                self.package(o, f"/outputs/{i}")
                for k in ("name", "version"):
                    if k in o:
                        nested(o, "package")[k] = o.pop(k)
            if "package" in new:
                new["recipe"] = new.pop("package")
        new["schema_version"] = 1
        return new

    def package(self, p: dict[str, Any], path: str) -> None:
        if isinstance(p.get("build"), dict):
            for wrong in BUILD_WRONG:
                if wrong in p["build"]:
                    p["build"]["skip"] = p["build"].pop(wrong)
        if "extras" in p:
            p["extra"] = p.pop("extras")
        for s in as_list(p.get("source")):
            if isinstance(s, dict):
                self.source(s)
        if isinstance(p.get("build"), dict):
            self.build(p, p["build"], f"{path}/build")
            p["build"] = p["build"] or None
        if isinstance(p.get("requirements"), dict) and "run_constrained" in p["requirements"]:
            p["requirements"]["run_constraints"] = p["requirements"].pop("run_constrained")
        if "about" in p:
            if p["about"] is None:
                self.warnings.append(f"No `license` provided in `{path}/about`")
            else:
                self.about(p["about"], f"{path}/about")
                p["about"] = p["about"] or None
        if "test" in p:
            host = p["requirements"].get("host") if isinstance(p.get("requirements"), dict) else None
            p["tests"] = self.tests(p.pop("test") or {}, as_list(host))

    def source(self, s: dict[str, Any]) -> None:
        if "svn_url" in s:
            self.warnings.append("SVN packages are no longer supported in the V1 format")
        if "hg_url" in s:
            self.warnings.append("HG (Mercurial) packages are no longer supported in the V1 format")
        names = {"fn": "file_name", "folder": "target_directory", "git_url": "git", "git_tag": "tag", "git_rev": "rev", "git_depth": "depth"}
        for a, b in names.items():
            if a in s:
                s[b] = s.pop(a)

    def build(self, p: dict[str, Any], b: dict[str, Any], path: str) -> None:
        for k in ("run_exports", "ignore_run_exports"):
            if k in b:
                nested(p, "requirements")[k] = b.pop(k)
        for a, to in {
            "merge_build_host": ("merge_build_and_host_envs",),
            "no_link": ("always_copy_files",),
            "entry_points": ("python", "entry_points"),
            "ignore_prefix_files": ("prefix_detection", "ignore"),
            "detect_binary_files_with_prefix": ("prefix_detection", "ignore_binary_files"),
            "rpaths": ("dynamic_linking", "rpaths"),
            "binary_relocation": ("dynamic_linking", "binary_relocation"),
            "missing_dso_whitelist": ("dynamic_linking", "missing_dso_allowlist"),
            "runpath_whitelist": ("dynamic_linking", "rpath_allowlist"),
        }.items():
            if a in b:
                nested(b, *to[:-1])[to[-1]] = b.pop(a)
        env = b.get("script_env")
        if env is not None:
            script: dict[str, Any] = {}
            for item in as_list(env):
                parts = [x.strip() for x in item.split("=")]
                if len(parts) == 1:
                    script.setdefault("secrets", []).append(item)
                elif len(parts) == 2:
                    script.setdefault("env", {})[parts[0]] = parts[1]
                else:
                    self.errors.append(f"Could not parse `{item}` found in {path}/script_env")
            if "script" in b:
                script["content"] = b["script"]
            b["script"] = script
            del b["script_env"]
        for k in BUILD_GONE:
            if k in b:
                del b[k]
                self.warnings.append(f"Field at `{path}/{k}` is no longer supported.")

    def about(self, a: dict[str, Any], path: str) -> None:
        for k, v in ABOUT_MOVED.items():
            if k in a:
                a[v] = a.pop(k)
        old = a.get("license")
        if old is None:
            self.warnings.append(f"No `license` provided in `{path}`")
        elif old not in LICENSES:
            self.warnings.append(f"Could not patch unrecognized license: `{old}`")
        elif LICENSES[old] != old:
            a["license"] = LICENSES[old]
            self.warnings.append(f"Changed {path}/license from `{old}` to `{LICENSES[old]}`")
        if isinstance(a.get("summary"), list):
            a["summary"] = "\n".join(a["summary"])
        for k in ABOUT_GONE:
            if k in a:
                del a[k]
                self.warnings.append(f"Field at `{path}/{k}` is no longer supported.")

    def tests(self, t: dict[str, Any], host: list[Any]) -> list[Any]:
        t = dict(t)
        python: dict[str, Any] = {}
        if "files" in t:
            t["files"] = {"recipe": t["files"]}
        if "source_files" in t:
            nested(t, "files")["source"] = t.pop("source_files")
        if "requires" in t:
            t["requirements"] = {"run": t.pop("requires")}
        if "imports" in t:
            python["imports"] = t.pop("imports")
        if "python" in host:
            commands = as_list(t.get("commands"))
            found = next((i for i, c in enumerate(commands) if c in PIP_CHECK), None)
            python["pip_check"] = found is not None
            if found is not None:
                t["commands"] = commands[:found] + commands[found + 1 :]
                if not t["commands"]:
                    del t["commands"]
                    t.pop("requirements", None)
        if "commands" in t:
            t["script"] = t.pop("commands")
        result: list[Any] = []
        if python:
            result.append({"python": python})
        if "downstreams" in t:
            result.append({"downstream": t.pop("downstreams")})
        return result + ([t] if t else [])


#### Recipes ####


def write(d: dict[str, Any], comments: bool) -> str:
    return "\n".join(_lines(d, 0, comments)) + "\n"


def _lines(d: dict[str, Any], indent: int, comments: bool) -> list[str]:
    pad, lines = " " * indent, []
    for i, (k, v) in enumerate(d.items()):
        tail = f"  # about {k}" if comments and i % 2 == 0 else ""
        if comments and i % 2 == 1:
            lines.append(f"{pad}# before {k}")
        if isinstance(v, dict):
            lines += [f"{pad}{k}:{tail}", *_lines(v, indent + 2, comments)]
        elif isinstance(v, list):
            lines.append(f"{pad}{k}:{tail}")
            for j, x in enumerate(v):
                if isinstance(x, dict):
                    sub = _lines(x, indent + 4, False)
                    lines += [f"{pad}  - {sub[0].lstrip()}", *sub[1:]]
                else:
                    lines.append(f"{pad}  - {_scalar(x)}" + (f"  # item {j}" if comments and j == 0 else ""))
        elif isinstance(v, str) and "\n" in v:
            lines += [f"{pad}{k}: |", *(f"{pad}  {x}" for x in v.rstrip("\n").split("\n"))]
        else:
            lines.append(f"{pad}{k}:" + ("" if v is None else f" {_scalar(v)}") + tail)
    return lines


def _scalar(v: Any) -> str:
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, str) and (": " in v):
        return f'"{v}"'
    return str(v)


def place(sections: dict[str, Any], where: str) -> dict[str, Any]:
    top: dict[str, Any] = {"package": {"name": "p", "version": "x1"}}
    if where in ("top", "both"):
        top.update(copy.deepcopy(sections))
    if where in ("output", "second", "both"):
        out = {"name": "o", **copy.deepcopy(sections)}
        top["outputs"] = [{"name": "o0", "version": "x2", "requirements": {"host": ["python"]}}, out] if where == "second" else [out]
    return top


def alike(v: Any) -> Any:
    """With the same value everywhere, but in places where it matters for the conversion."""
    if isinstance(v, dict):
        return {k: x if k in ("host", "commands", "license", "script_env") else alike(x) for k, x in v.items()}
    if isinstance(v, list):
        return [alike(x) for x in v]
    return "x" if isinstance(v, str) and "\n" not in v else v


def decide(old: dict[str, Any], comments: bool, out: Out, what: str) -> None:
    text = write(old, comments)
    old = yaml.safe_load(text)
    ref = Reference()
    want = ref.recipe(old)
    out.nt(text)
    out.step()
    try:
        new, msgs, _ = RecipeParserConvert(text).render_to_v1_recipe_format()
        got = yaml.safe_load(new)
    except Exception as e:  # pylint: disable=broad-exception-caught
        out.fail(f"raised {what}", f"converting {text!r} raised {e!r}")
        return
    out.expect(norm(got), norm(want), f"fields {what}", f"converted {text!r}")
    out.expect(sorted(msgs.get_messages(MessageCategory.ERROR)), sorted(ref.errors), f"errors {what}", f"errors of {text!r}")
    warnings = [m for m in msgs.get_messages(MessageCategory.WARNING) if not (comments and m.startswith("Could not relocate comment"))]
    out.expect(sorted(warnings), sorted(ref.warnings), f"warnings {what}", f"warnings of {text!r}")
    if isinstance(got, dict):
        ordered(got, TOP_ORDER, out, text)
        for p in [got, *(o for o in as_list(got.get("outputs")) if isinstance(o, dict))]:
            if p is not got:
                ordered(p, TOP_ORDER, out, text)
            for s in as_list(p.get("source")):
                ordered(s, SOURCE_ORDER, out, text)
            ordered(p.get("build"), BUILD_ORDER, out, text)
            for t in as_list(p.get("tests")):
                if isinstance(t, dict):
                    ordered(t.get("python"), ["imports", "pip_check"], out, text)


def ordered(d: Any, order: list[str], out: Out, text: str) -> None:
    if isinstance(d, dict):
        keys = [k for k in d if k in order]
        out.expect(keys, sorted(keys, key=order.index), "order", f"order of the keys after converting {text!r}")


def norm(v: Any) -> Any:
    """Empty sections and sections without value are the same; text of blocks may differ in the final line break."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()} or None
    if isinstance(v, list):
        return [norm(x) for x in v] or None
    if isinstance(v, str):
        # The types of number-like strings are decided by C01 and C08
        try:
            return yaml.safe_load(v) if v.strip().isdigit() else v.rstrip("\n") or None
        except yaml.YAMLError:
            return v
    return v


SECTIONS: dict[str, list[str]] = {
    "source": SOURCE,
    "build": [*BUILD_KEPT, *BUILD_MOVED, *BUILD_GONE, *BUILD_WRONG],
    "about": [*ABOUT_KEPT, *ABOUT_MOVED, *ABOUT_GONE],
    "requirements": REQUIREMENTS,
}


def clash(keys: tuple[str, ...]) -> bool:
    return sum(k in ("skip", *BUILD_WRONG) for k in keys) > 1


def cases(tier: str) -> Iterator[Any]:
    deep = tier != "quick"
    for s, fields in SECTIONS.items():
        for k in fields:
            yield ["one", s, k]
        for i, k in enumerate(fields):
            yield ["sets", s, 2, i, 1]
            yield ["sets", s, 3, i, 1 if deep or s != "build" else 9]
            if deep:
                yield ["sets", s, 4, i, 1 if s != "build" else 97]
    for host in range(len(FORMS["host"]) + 1):
        for c in range(len(FORMS["commands"]) + 1):
            yield ["test", host, c, 2 if deep else 1]
    for re in range(len(FORMS["run_exports"]) + 1):
        for ire in range(len(FORMS["ignore_run_exports"]) + 1):
            yield ["exports", re, ire]
    for i in range(9):
        yield ["structure", i, deep]
    yield ["lists"]
    yield ["many"]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    out.outcome(kind)
    if kind == "one":
        _, section, k = case
        for v, where, comments in itertools.product(FORMS[k], PLACES, (False, True)):
            decide(place({section: {k: v}}, where), comments, out, f"/{section}/{k}")
            if section == "build":
                decide(place({section: {k: v}, "requirements": {"run": ["r"]}}, where), comments, out, f"/{section}/{k}")
            decide(place({"extra": {"x": 1}, section: {"unknown": 1, k: v, "other": LIST}}, where), comments, out, f"/{section}/{k}")
    elif kind == "sets":
        _, section, n, i, every = case
        fields = SECTIONS[section]
        for j, rest in enumerate(itertools.combinations(fields[i + 1 :], n - 1)):
            keys = (fields[i], *rest)
            if clash(keys) or j % every:
                continue
            for back in (False, True) if n == 2 else (j % 2 == 0,):
                ks = keys[::-1] if back else keys
                values = {k: FORMS[k][(j + x) % len(FORMS[k])] for x, k in enumerate(ks)}
                decide(place({section: values}, PLACES[(i + j + back) % 4]), (i + j) % 3 == 0, out, f"/{section} with {n} fields")
                if n == 2:
                    for where in PLACES[1:]:
                        decide(alike(place({section: values}, where)), False, out, f"/{section} alike")
    elif kind == "test":
        hosts, commands = [*FORMS["host"], ...], [*FORMS["commands"], ...]
        host, command = hosts[case[1]], commands[case[2]]
        others = [k for k in TEST if k != "commands"]
        for n in range(len(others) + 1):
            for j, keys in enumerate(itertools.combinations(others, n)):
                values = {k: FORMS[k][(j + x) % len(FORMS[k])] for x, k in enumerate(keys)}
                if command is not ...:
                    values = {"commands": command, **values} if j % 2 else {**values, "commands": command}
                sections: dict[str, Any] = {"test": values or None}
                if host is not ...:
                    sections["requirements"] = {"host": host, "run": LIST}
                for where in (PLACES[(j + case[1]) % 4], PLACES[(j + case[1] + 1 + n % 3) % 4])[: case[3]]:
                    decide(place(sections, where), j % 3 == 1, out, "/test")
                    if j % 2:
                        decide(alike(place(sections, where)), False, out, "/test alike")
    elif kind == "exports":
        res, ires = [*FORMS["run_exports"], ...], [*FORMS["ignore_run_exports"], ...]
        build = {k: v for k, v in (("run_exports", res[case[1]]), ("ignore_run_exports", ires[case[2]])) if v is not ...}
        for req, extra, where in itertools.product((..., None, {"run": ["r"]}, {"host": None}, {"run_constrained": LIST}), (False, True), PLACES):
            sections = {"build": {**build, **({"number": 1} if extra else {})} or None}
            if req is not ...:
                sections = {"requirements": req, **sections} if extra else {**sections, "requirements": req}
            decide(place(sections, where), extra, out, "run_exports")
    elif kind == "many":
        # Positions of more than one digit.
        long = [f"x{i}" for i in range(13)]
        for section, fields in {**SECTIONS, "test": TEST}.items():
            for k in fields:
                if any(isinstance(f, list) for f in FORMS[k]) and not any(isinstance(y, dict) for f in FORMS[k] if isinstance(f, list) for y in f):
                    values = [f"K{i}=v" for i in range(13)] if k == "script_env" else long
                    for where, comments in itertools.product(PLACES, (False, True)):
                        decide(place({section: {k: values}}, where), comments, out, f"/{section}/{k} many")
            for i, k in enumerate(fields):
                outputs = [{"name": f"o{j}", **({section: {k: FORMS[k][(i + j) % len(FORMS[k])]}} if j in (1, 2, 10, 11) else {"build": {"number": j}})} for j in range(13)]
                decide({"package": {"name": "p"}, "outputs": outputs}, i % 2 == 1, out, f"/{section}/{k} many outputs")
        for i in range(13):
            for host in ("python", None):
                commands = [*long[:i], "pip check", *long[i:]]
                for where in PLACES:
                    decide(place({"requirements": {"host": host}, "test": {"commands": commands, "imports": long}}, where), False, out, "/test many")
        for k in SOURCE:
            items = [{"fn": f"f{j}", **({k: f"x{j}"} if j in (0, 1, 10, 12) else {"url": f"u{j}"})} if k != "fn" else {"fn": f"f{j}"} for j in range(13)]
            for where in PLACES:
                decide(place({"source": items}, where), False, out, "/source many")
    elif kind == "structure":
        pool: list[tuple[str, Any]] = [
            ("source", {"url": "u", "fn": "f"}), ("build", {"number": 1, "no_link": "x"}), ("requirements", {"run_constrained": LIST}), ("test", {"imports": LIST}),
            ("about", {"home": "h"}), ("extra", {"a": LIST}), ("extras", {"a": LIST}), ("unknown", {"build": {"no_link": 1}}),
        ]  # fmt: skip
        for n in (case[1],):
            for j, keys in enumerate(itertools.combinations(pool, n)):
                if sum(k[0].startswith("extra") for k in keys) > 1:
                    continue
                for back, where in itertools.product((False, True), PLACES if case[2] else (PLACES[j % 4],)):
                    decide(place(dict(keys[::-1] if back else keys), where), back, out, "top level")
                if n < 3:
                    for empty in range(n):
                        chosen = {k: None if i == empty else v for i, (k, v) in enumerate(keys)}
                        for where in PLACES:
                            decide(place(chosen, where), False, out, "empty section")
        for outputs in () if case[1] else (None, [{"name": "a"}], [{"version": "v"}], [{"name": "a", "version": "v"}, {"name": "b", "files": LIST, "script": "s.sh"}], [{"name": "a"}, {"build": {"number": 1}}]):
            decide({"package": {"name": "p"}, "outputs": outputs}, False, out, "outputs")
            decide({"outputs": outputs, "build": {"no_link": "x"}}, False, out, "outputs")
            decide({"package": {"name": "p", "version": "v"}, "outputs": outputs, "about": {"home": "v", "dev_url": "v"}}, False, out, "outputs")
            decide({"package": {"name": "a", "version": "v"}, "outputs": outputs and outputs * 2}, False, out, "outputs")
    else:
        for n in (1, 2, 3):
            for combo in itertools.product(SOURCE, repeat=n) if n < 3 else zip(SOURCE, SOURCE[4:] + SOURCE[:4], SOURCE[7:] + SOURCE[:7]):
                items = [{k: "x", "sha256": "y", "git_url": "z"} if i % 2 else {"fn": "w", k: "x"} for i, k in enumerate(combo)]
                decide(place({"source": items}, PLACES[len(combo[0]) % 4]), False, out, "/source list")
