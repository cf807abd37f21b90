"""Runs sessions of the interactive shell of a private copy of the repository. python shellserver.py COPY

Requests and answers are JSON lines. Each session runs in a fork of this process, so that every session
is a new start of the shell.
"""
import builtins
import io
import json
import os
import shutil
import signal
import sys
import traceback


# errors with every kind of message
ERRORS = {
    "empty": lambda: OSError(),
    "lines": lambda: ValueError("first\nsecond\n\nthird"),
    "newline": lambda: RuntimeError("\n"),
    "denied": lambda: PermissionError(13, "Permission denied", "/x"),
    "memory": lambda: MemoryError(),
    "assert": lambda: AssertionError(),
    "recursion": lambda: RecursionError("maximum recursion depth exceeded"),
    "key": lambda: KeyError("k"),
    "object": lambda: Exception({"a": 1}, [2]),
    "none": lambda: Exception(None),
    "format": lambda: Exception("%s %d {0} {x}"),
    "surrogate": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte"),
    "accents": lambda: OSError(5, "Ein-/Ausgabefehler \u00e9 \u2603"),
    "stop": lambda: StopIteration(),
    "timeout": lambda: TimeoutError(),
    "missing": lambda: FileNotFoundError(2, "No such file or directory"),
    "json": lambda: json.JSONDecodeError("Expecting value", "", 0),
    "attribute": lambda: AttributeError("'NoneType' object has no attribute 'x'"),
    "index": lambda: IndexError(),
}


def inject(req, asked, fired):
    """Files cannot be opened while the lines of req["inject"] are worked on."""
    import io as io_module

    where = req["inject"]

    def wrap(f):
        def g(*a, **k):
            name = where.get(str(asked[0]))
            if name:
                fired.append(asked[0])
                raise ERRORS[name]()
            return f(*a, **k)

        return g

    builtins.open = io_module.open = wrap(builtins.open)
    os.open = wrap(os.open)


def session(req, start):
    answers = iter(req["lines"])
    out = io.StringIO()
    asked = [0]

    def fake(prompt=""):
        asked[0] += 1
        out.write(f"\0{asked[0]}\0")
        try:
            return next(answers)
        except StopIteration:
            raise EOFError()

    builtins.input = fake
    fired = []
    if req.get("inject"):
        inject(req, asked, fired)
    old, sys.stdout = sys.stdout, out
    end = "returned"
    try:
        start()
    except EOFError:
        end = "asked for more"
    except SystemExit:
        end = "exited"
    except BaseException as e:
        end = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-800:]}"
    finally:
        sys.stdout = old
    return {"end": end, "asked": asked[0], "out": out.getvalue(), "fired": fired}


def main():
    copy = sys.argv[1]
    sys.dont_write_bytecode = True
    sys.path[:0] = [copy, os.path.join(copy, "wiggle_shell")]
    os.chdir(os.path.join(copy, "wiggle_shell"))
    import wiggleshell

    dbms = os.path.join(copy, "dbms")
    print("ready", flush=True)
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("clean"):
            shutil.rmtree(dbms, ignore_errors=True)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(30)
                # stray output of the code must not get into the answers
                null = os.open("/dev/null", os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                data = json.dumps(session(req, wiggleshell.start_wiggle_shell)).encode()
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        print(data.decode() or json.dumps({"end": "the shell died or hung", "asked": 0, "out": ""}), flush=True)


main()
