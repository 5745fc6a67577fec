"""
Plants a bug: plant.py ID PROPERTY FILE  (old text and new text on stdin, separated by a line `====`; the demonstration
follows after a line `####`, then `needs` and `what_it_breaks`, separated by lines `####`).
Verifies in a scratch copy of /repo: it applies, the stable tests pass, and the demonstration tells the trees apart.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

REPO = Path("/repo")
SEEDED = Path(__file__).resolve().parent.parent / "seeded"
HEAD = """#!/bin/bash
# Run with the repository as the working directory. 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here/stubs"
exec "$py" "$here/demo.py"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def passed(res):
    if isinstance(res.get("passed"), list):
        return set(res["passed"])
    if isinstance(res.get("tests"), dict):
        return {k for k, v in res["tests"].items() if v in ("pass", "passed")}
    return {k for k, v in res.items() if v in ("pass", "passed")}


def main():
    bug, prop, rel = sys.argv[1:4]
    change, demo, needs, breaks = [x.strip("\n") for x in sys.stdin.read().split("####\n")]
    rel = f"conda_recipe_manager/{rel}"
    out = SEEDED / bug
    out.mkdir(parents=True, exist_ok=True)
    scratch = Path(tempfile.mkdtemp(prefix="crm-plant-"))
    try:
        tree = scratch / "repo"
        subprocess.run(["cp", "-a", str(REPO), str(tree)], check=True)
        text = (tree / rel).read_text()
        for part in change.split("\n@@@@\n"):
            old, new = part.split("\n====")
            new = new.removeprefix("\n")
            assert text.count(old) == 1, f"{text.count(old)} matches of {old!r}"
            text = text.replace(old, new)
        (tree / rel).write_text(text)
        (out / "patch.diff").write_text(run(["git", "diff"], cwd=tree).stdout)
        (out / "demo.py").write_text(demo + "\n")
        (out / "demo.sh").write_text(HEAD)
        (out / "demo.sh").chmod(0o755)
        shutil.copytree(SEEDED.parent / "stubs", out / "stubs", dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
        (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        moved = scratch / "demo"
        shutil.copytree(out, moved, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        good = run(["bash", str(moved / "demo.sh")], cwd=REPO)
        bad = run(["bash", str(moved / "demo.sh")], cwd=tree)
        print("demo unchanged:", good.returncode, good.stderr[-300:], "patched:", bad.returncode, (bad.stdout + bad.stderr)[-200:].replace("\n", " | "))
        base = json.loads(Path("/opt/vp/BASELINE.json").read_text())
        # The stable tests, in the copy.
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
        cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-n", "4", "-o", "junit_family=xunit2", f"--junitxml={scratch}/junit.xml", "tests"]
        run(cmd, cwd=tree, env=env)
        run(["python3", "/opt/vp/results.py", str(scratch / "out.json"), f"junit:{scratch}/junit.xml"])
        res = json.loads((scratch / "out.json").read_text())
        failing = [t for t in base["stable"] if t not in passed(res)]
        print("stable tests failing:", failing[:3])
        # The property's check against the patched tree.
        r = run([str(SEEDED.parent / "check"), prop], env=dict(os.environ, CRM_REPO=str(tree)))
        print("check:", r.returncode, [x for x in r.stdout.splitlines() if not x.startswith("KNOWN")][-1][:150])
        print([x for x in r.stdout.splitlines() if x.startswith("  ")][:1])
        ok = good.returncode == 0 and bad.returncode != 0 and not failing
        print("OK" if ok else "NOT OK", "caught" if r.returncode == 1 else "MISSED")
    finally:
        shutil.rmtree(scratch)


main()
