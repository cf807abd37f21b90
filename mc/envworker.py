"""A process of its own, in an environment of its own, that runs steps of histories (see mc/checks/c31.py)."""
import json
import os
import signal
import sys


def main(r, w):
    from mc import core

    core.load_sut()
    from mc.checks import c23

    with os.fdopen(r, "rb") as src, os.fdopen(w, "wb") as dst:
        dst.write(b'"ready"\n')
        dst.flush()
        for line in src:
            job = json.loads(line)
            signal.alarm(60)
            try:
                # every step in a new process
                res = core.in_fork(step, c23, job, timeout=50)
            except core.ChildDied as e:
                res = f"died: {e}"
            signal.alarm(0)
            dst.write(json.dumps(res).encode("ascii") + b"\n")
            dst.flush()


def step(c23, job):
    if job.get("cwd"):
        os.chdir(job["cwd"])
    core_dir(job["scratch"])
    return list(c23.do(job["top"], [job["place"], job["what"]]))


def core_dir(scratch):
    from mc import core

    core.SCRATCH[0] = scratch


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]))
