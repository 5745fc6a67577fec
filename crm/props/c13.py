"""C13: dependencies are added and removed where, and only where, they have to be."""

from __future__ import annotations

import copy
import itertools
from typing import Any, Iterator, Optional

import yaml

from conda_recipe_manager.parser.dependency import Dependency, DependencyConflictMode, DependencySection, dependency_data_from_str, dependency_data_render_as_str
from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
from conda_recipe_manager.parser.recipe_parser_deps import RecipeParserDeps
from conda_recipe_manager.parser.selector_parser import SelectorParser
from crm import platforms
from crm.core import Out

ID = "C13"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories of dependency edits against a reference model of the sections, every step replayed on the real recipe"
RULE = (
    "Every edit (dependency x selector x path x duplicate mode x selector mode, and every removal) of every initial recipe, and all histories of 2 (3 thorough) edits out of a smaller pool. "
    "Non-trivial: distinct (recipe, history)."
)
ASSUMPTIONS = ["conda's MatchSpec is replaced by a stand-in; only plain `name version build` specifications are used", "V0 recipes: adding dependencies to V1 recipes is not supported"]
CHUNK = 4

# A member of a section: [text, selector, note]; comment lines have no text.
Member = list[Any]
FORMS: dict[str, Optional[list[Member]]] = {
    "plain": [["a", None, None], ["b", "osx", None]],
    "comments": [["a >=1", "linux", None], [None, None, "# - b"], ["a <9", None, "note"], ["{{ name }}-x", None, None], ["b", "win or osx", "why"]],
    "jinja": [["{{ compiler('c') }}", "unix", None], ["b 1.0", None, None], ["{{ unknown }}-a", None, None]],
    "single": [["b", "win", None]],
    "prefixes": [["a-x >=1", "osx", None], ["aa", None, "note"], ["a", "linux", None], ["foo", None, None]],
    "empty": [["null", None, None], ["a", None, "note"], ['""', "osx", None], ["b", "win", None]],
    "many": [[f"m{i}" if i != 11 else "a <5", "osx" if i % 5 == 1 else None, "note" if i % 4 == 3 else None] for i in range(13)],
    "absent": None,
}
# Members that are no dependencies.
EMPTY = {"null", '""'}
SPECS = ["a", "a >=2", "b 2.*", "c", "foo-x >=1", "a-x", "aa"]
SELECTORS = [None, "win", "unix or win"]
MODES = list(DependencyConflictMode)
SEL_MODES = list(SelectorConflictMode)
PLACES = ["", "/outputs/0", "/outputs/1"]


def initial(form: str, where: str) -> dict[str, Any]:
    """Sections by their path. The output 0 has no requirements."""
    doc: dict[str, Any] = {
        "/requirements": {"build": [["{{ compiler('c') }}", None, None]], "run": [["a", "win", "kept"], ["b", None, None]]},
        "/outputs/1/requirements": {"run": [["a", None, None], ["b", "osx", None]]},
    }
    sections = doc[where + "/requirements"]
    f = copy.deepcopy(FORMS[form])
    if f is None:
        sections.pop("run")
        sections["host"] = [["pip", None, None]]
    else:
        sections["run"] = f
    return doc


def member(m: Member) -> str:
    if m[0] is None:
        return str(m[2])
    note = " ".join(x for x in (m[2], f"[{m[1]}]" if m[1] else None) if x)
    return f"- {m[0]}" + (f"  # {note}" if note else "")


def requirements(sections: dict[str, Any], pad: str) -> str:
    text = f"{pad}requirements:\n"
    for name, members in sections.items():
        text += f"{pad}  {name}:" + ("\n" if members else " []\n")
        for m in members:
            text += f"{pad}    {member(m)}\n"
    return text


def text_of(doc: dict[str, Any]) -> str:
    return (
        '{% set name = "foo" %}\n\npackage:\n  name: {{ name }}\n\nbuild:\n  number: 0  # [osx]\n\n'
        + requirements(doc["/requirements"], "")
        + "\noutputs:\n  - name: first\n    build:\n      skip: true  # [win]\n  - name: second\n"
        + requirements(doc["/outputs/1/requirements"], "    ")
        + "\nabout:\n  summary: x  # note\n"
    )


def rendered_name(text: str) -> str:
    """The name of a dependency as it reads after substitution."""
    if "compiler" in text or "unknown" in text:
        return text.replace("{{", "${{")
    return text.replace("{{ name }}", "foo").split()[0]


def selector(old: Any, new: Any, mode: SelectorConflictMode) -> Any:
    """Platforms of the combined selector."""
    if new is None:
        return old
    if old is None or mode == SelectorConflictMode.REPLACE:
        return new
    return (mode.name.lower(), old, new)


def platforms_of(sel: Any) -> Any:
    if sel is None:
        return None
    if isinstance(sel, tuple):
        a, b = platforms_of(sel[1]), platforms_of(sel[2])
        return a & b if sel[0] == "and" else a | b
    return {str(p.value) for p in SelectorParser(f"[{sel}]", SchemaVersion.V0).get_selected_platforms()}


def add(doc: dict[str, Any], spec: str, sel: Any, path: str, mode: DependencyConflictMode, sel_mode: SelectorConflictMode) -> bool:
    """Reference model. Edits doc; says if it did."""
    base, name, index = path.rsplit("/", 2)
    if base not in doc or name not in ("build", "host", "run", "run_constrained", "run_exports") or not index.isdigit():
        return False
    sections = doc[base]
    written = spec.replace("${{", "{{")
    if mode == DependencyConflictMode.EXACT_POSITION:
        members = [m for m in sections.get(name, []) if m[0] is not None]
        if int(index) >= len(members):
            return False
        target: Optional[Member] = members[int(index)]
    else:
        members = [m for m in sections.setdefault(name, []) if m[0] is not None]
        target = next((m for m in members if rendered_name(m[0]) == rendered_name(written)), None)
        if mode == DependencyConflictMode.IGNORE and target:
            return False
        if mode == DependencyConflictMode.USE_BOTH:
            target = None
    if target is None:
        sections[name].append([written, sel, None])
    else:
        old = None if sel_mode == SelectorConflictMode.REPLACE else target[1]
        target[:] = [written, selector(old, sel, sel_mode), None]
    return True


def remove(doc: dict[str, Any], path: str) -> bool:
    base, name, index = path.rsplit("/", 2)
    members = [m for m in doc.get(base, {}).get(name, []) if m[0] is not None]
    if not index.isdigit() or int(index) >= len(members):
        return False
    lst = doc[base][name]
    lst[:] = [m for m in lst if m is not members[int(index)]]
    return True


def shape(text: str) -> list[Any]:
    """The lines, with selectors as sets of platforms."""
    out: list[Any] = []
    for line in text.splitlines():
        line = line.rstrip()
        if not line:
            continue
        body, _, note = line.partition("  # ")
        if body.endswith(" []"):
            body = body[:-3]
        sel: Any = None
        if "[" in note and "]" in note:
            sel = frozenset(platforms_of(note[note.index("[") + 1 : note.rindex("]")]))
            note = note[: note.index("[")].strip()
        out.append((body, note, sel))
    return out


def model_shape(doc: dict[str, Any]) -> list[Any]:
    """As shape(), with selectors of the model, which may be trees."""
    flat = copy.deepcopy(doc)
    marks: list[Any] = []
    for sections in flat.values():
        for members in sections.values():
            for m in members:
                if isinstance(m[1], tuple):
                    marks.append(frozenset(platforms_of(m[1])))
                    m[1] = f"@{len(marks) - 1}"
    out = []
    for line in text_of(flat).splitlines():
        if line.endswith("]") and "[@" in line:
            body, _, note = line.partition("  # ")
            out.append((body, note[: note.index("[")].strip(), marks[int(note[note.index("@") + 1 : -1])]))
        else:
            out += shape(line)
    return out


def dependency(op: list[Any]) -> Dependency:
    spec, sel, path = op[1], op[2], op[3]
    return Dependency("x", path, DependencySection.RUN, dependency_data_from_str(spec), SelectorParser(f"[{sel}]", SchemaVersion.V0) if sel else None)


def step(out: Out, r: RecipeParserDeps, doc: dict[str, Any], op: list[Any], trail: list[Any], text: str) -> bool:
    out.step()
    if op[0] == "add":
        want = add(doc, *op[1:])
        key = f"{op[4].name} {op[5].name}"
        try:
            got: Any = r.add_dependency(dependency(op), dep_mode=op[4], sel_mode=op[5])
        except Exception as e:  # pylint: disable=broad-exception-caught
            got = repr(e)
    else:
        want = remove(doc, op[1])
        key = "remove"
        try:
            got = r.remove_dependency(Dependency("x", op[1], DependencySection.RUN, dependency_data_from_str("a")))
        except Exception as e:  # pylint: disable=broad-exception-caught
            got = repr(e)
    out.outcome(f"{key}: {want}")

    def what() -> str:
        return f"{[[getattr(x, 'name', x) for x in o] for o in trail]} on\n{text}"

    ok = out.expect(got, want, f"result: {key}", f"{got!r}, not {want}, for {what()}")
    shown = r.render()
    out.state(shown)
    if not out.expect(shape(shown) == model_shape(doc), True, f"recipe: {key}", f"{what()}\nis now\n{shown}\nnot\n{text_of(doc)}"):
        return False
    return ok


def deps_agree(out: Out, r: RecipeParserDeps, doc: dict[str, Any], key: str) -> None:
    """What get_all_dependencies() says, in memory and when re-read."""
    if any(not m for s in doc.values() for m in s.values()):
        return
    want = set()
    for base, sections in doc.items():
        for name, members in sections.items():
            real = [m for m in members if m[0] is not None]
            for i, m in enumerate(real):
                if m[0] in EMPTY:
                    continue
                want.add((f"{base}/{name}/{i}", rendered_name(m[0]), frozenset(platforms_of(m[1])) if m[1] else None))
    for what, x in (("in memory", r), ("re-read", RecipeParserDeps(r.render()))):
        got = set()
        for ds in x.get_all_dependencies().values():
            for d in ds:
                sel = frozenset(str(p.value) for p in d.selector.get_selected_platforms()) if d.selector else None
                got.add((d.path, str(d.data.name), sel))
        out.trace()
        out.expect(got == want, True, f"dependencies: {key} {what}", f"{sorted(map(str, got))}, not {sorted(map(str, want))}, in\n{x.render()}")


def run(out: Out, doc: dict[str, Any], ops: list[list[Any]]) -> None:
    text = text_of(doc)
    out.nt((text, str(ops)))
    r = RecipeParserDeps(text)
    if r.render() != text:
        raise AssertionError(f"the initial recipe is not in the layout of render():\n{text}\n{r.render()}")
    doc = copy.deepcopy(doc)
    for i in range(len(ops)):
        if not step(out, r, doc, ops[i], ops[: i + 1], text):
            return
    deps_agree(out, r, doc, ops[-1][0])
    yaml_says = yaml.safe_load(r.render().split("%}", 1)[1].replace("{{ name }}", "foo").replace("{{ compiler('c') }}", "C").replace("{{ unknown }}", "u"))
    out.expect(len((yaml_says.get("requirements") or {}).get("run") or []), len([m for m in doc["/requirements"].get("run", []) if m[0] is not None]), "yaml", f"data of\n{r.render()}")


BAD_PATHS = [
    "/requirements/run", "/requirements/run/-", "/requirements/run/0/1", "/requirements/nope/0", "requirements/run/0", "/build/run/0", "/outputs/x/requirements/run/0",
    "/outputs/0/requirements/run/0", "/outputs/7/requirements/run/0", "/outputs/1/requirements/nope/0", "/outputs/1/build/run/0", "/", "", "/about/summary/0", "/requirements/run/-1",
]  # fmt: skip


def all_ops(where: str) -> Iterator[list[Any]]:
    for spec, sel, mode, sel_mode in itertools.product(SPECS, SELECTORS, MODES, SEL_MODES):
        yield ["add", spec, sel, f"{where}/requirements/run/1", mode, sel_mode]


def few_ops() -> list[list[Any]]:
    m, s = DependencyConflictMode, SelectorConflictMode
    out: list[list[Any]] = []
    for where in ("", "/outputs/1"):
        p = f"{where}/requirements/run"
        out += [
            ["add", "a >=2", "win", f"{p}/0", m.REPLACE, s.AND],
            ["add", "b", None, f"{p}/1", m.REPLACE, s.REPLACE],
            ["add", "b <7", "linux", f"{p}/0", m.EXACT_POSITION, s.OR],
            ["add", "c", "osx", f"{p}/0", m.IGNORE, s.REPLACE],
            ["add", "c", None, f"{p}/0", m.USE_BOTH, s.REPLACE],
            ["remove", f"{p}/0"],
            ["remove", f"{p}/1"],
            ["add", "d", "win", f"{where}/requirements/run_constrained/0", m.REPLACE, s.OR],
        ]
    out.append(["remove", "/requirements/build/0"])
    return out


def cases(tier: str) -> Iterator[Any]:
    for form in FORMS:
        for where in ("", "/outputs/1"):
            yield ["each", form, where]
    n = len(few_ops())
    for form in FORMS:
        for where in ("", "/outputs/1"):
            for i in range(n):
                if tier == "thorough":
                    for j in range(n):
                        yield ["history", form, where, [i, j]]
                else:
                    yield ["history", form, where, [i]]
    yield ["bad"]


def check(case: Any, out: Out) -> None:
    kind = case[0]
    if kind == "each":
        doc = initial(case[1], case[2])
        for op in all_ops(case[2]):
            run(out, doc, [op])
        m = DependencyConflictMode
        p = f"{case[2]}/requirements/"
        for i, mode, sel in itertools.product((0, 2, 3, 4, 9, 10, 11, 12, 13), MODES, SELECTORS):
            run(out, doc, [["add", "a >=3", sel, f"{p}run/{i}", mode, SelectorConflictMode.AND]])
        for name, mode, sel in itertools.product(("build", "host", "run_constrained", "run_exports"), MODES, SELECTORS):
            run(out, doc, [["add", "a", sel, f"{p}{name}/0", mode, SelectorConflictMode.REPLACE]])
        for name, i in itertools.product(("build", "host", "run", "nope"), (*range(6), 10, 12, 13)):
            run(out, doc, [["remove", f"{p}{name}/{i}"]])
        # What is read can be added again.
        for ds in RecipeParserDeps(text_of(doc)).get_all_dependencies().values():
            for d in ds:
                for mode in (m.REPLACE, m.IGNORE, m.USE_BOTH, m.EXACT_POSITION):
                    sel = d.selector.render()[1:-1] if d.selector else None
                    run(out, doc, [["add", dependency_data_render_as_str(d.data), sel, d.path, mode, SelectorConflictMode.REPLACE]])
    elif kind == "history":
        ops = few_ops()
        for last in range(len(ops)):
            run(out, initial(case[1], case[2]), [*(ops[i] for i in case[3]), ops[last]])
    else:
        for path, mode, sel in itertools.product(BAD_PATHS, MODES, SELECTORS):
            for form in FORMS:
                doc = initial(form, "")
                text = text_of(doc)
                r = RecipeParserDeps(text)
                out.nt((form, path, mode.name, sel))
                out.outcome("bad path")
                try:
                    got: Any = r.add_dependency(dependency(["add", "a", sel, path]), dep_mode=mode)
                except Exception as e:  # pylint: disable=broad-exception-caught
                    got = repr(e)
                out.expect(got, False, "bad path", f"{got!r} from adding at {path} ({mode.name}) in\n{text}")
                out.expect(r.render(), text, "bad path edits", f"adding at {path} ({mode.name}) edited\n{text}")
                if mode == MODES[0] and sel is None and path not in ("/", ""):
                    before = r.render()
                    try:
                        got = r.remove_dependency(Dependency("x", path + "/99", DependencySection.RUN, dependency_data_from_str("a")))
                    except Exception as e:  # pylint: disable=broad-exception-caught
                        got = repr(e)
                    out.expect((got, r.render() == before), (False, True), "remove nothing", f"{got!r} from removing {path}/99 in\n{text}")
