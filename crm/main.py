"""Command line of the checks: `python -m crm.main C01 [--thorough] [--replay FILE] [--one-process]`."""

from __future__ import annotations

import importlib
import os
import sys
import traceback


def cli() -> int:
    args = sys.argv[1:]
    prop = args[0]
    tier = "thorough" if "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    from crm import core

    try:
        module = importlib.import_module(f"crm.props.{prop.lower()}")
    except Exception as e:  # pylint: disable=broad-exception-caught
        # The harness imports on the unchanged tree, so a failing import means that the code under test does not load.
        tb = traceback.format_exc()
        if str(core.REPO) not in tb:
            raise
        rdir = core.EVIDENCE / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{prop}-import.json"
        path.write_text(__import__("json").dumps({"property": prop, "key": "import", "message": tb}))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  the code under test cannot be imported: {type(e).__name__}: {e}")
        return 1
    return core.main(module, tier, seed, replay, "--one-process" in args)


if __name__ == "__main__":
    sys.exit(cli())
