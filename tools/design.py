"""Writes the table of planted changes into DESIGN.md (between the markers)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parents[1]
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    files = [l[6:] for l in (d / "patch.diff").read_text().splitlines() if l.startswith("+++ b/")]
    rows.append(f"| `{d.name}` | {', '.join(pathlib.Path(f).name for f in files)} | {m['needs']} | {m['what_it_breaks']} | {m['property']} |")
text = (root / "DESIGN.md").read_text()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
table = "| change | file | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n"
pre, post = text.split(a)[0], text.split(b)[1]
(root / "DESIGN.md").write_text(pre + a + table + b + post)
