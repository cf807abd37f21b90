"""python -m mc.run <property> [quick|thorough]"""
import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.umask(0o022)
    from mc import core

    sys.path.insert(0, str(core.VERIF))
    if pid == "C30":
        from mc import locks

        locks.install()
    core.load_sut()
    check = importlib.import_module(f"mc.checks.{pid.lower()}")
    if getattr(check, "SHIM", False):
        from mc import shim

        shim.ensure_loaded()
    sys.exit(core.main(check, tier))


if __name__ == "__main__":
    main()
