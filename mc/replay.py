"""python -m mc.replay <replay file>: runs the scenario of a violation again, alone and after those before it."""
import importlib
import json
import os
import sys
from pathlib import Path


def main():
    path = sys.argv[1]
    with open(path) as f:
        e = json.load(f)
    from mc import core

    if e["property"] == "C30":
        from mc import locks

        locks.install()
    core.load_sut()
    check = importlib.import_module(f"mc.checks.{e['property'].lower()}")
    if getattr(check, "SHIM", False):
        from mc import shim

        shim.ensure_loaded()

    class One:
        ID = check.ID
        run = staticmethod(check.run)

        @staticmethod
        def prepare(scratch):
            if hasattr(check, "prepare"):
                check.prepare(scratch)

        @staticmethod
        def explore(ctx):
            ctx.run_all("alone", lambda: [e["scenario"]], batch=1)
            if not ctx.violations:
                todo = e["preceding"] + [e["scenario"]]
                ctx.run_all("preceded", lambda: todo, batch=len(todo))

    core.VERIF = Path(os.environ.get("MC_REPLAY_OUT", str(core.VERIF / "build" / "replay")))
    core.VERIF.mkdir(parents=True, exist_ok=True)
    sys.exit(core.main(One, "quick"))


if __name__ == "__main__":
    main()
