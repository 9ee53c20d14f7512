"""Run a function in a forked child and get its JSON-able result."""

import json
import os
import signal
import time

from .core import Hang, Violation

WALL = 60.0


class ChildDied(Exception):
    """The child ended without a result."""


def run(fn, *args, wall=WALL):
    """fn(*args) in a forked copy of this process, as JSON."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, 25.0, 1.0)
            try:
                out = {"value": fn(*args)}
            except Violation as e:
                out = {"violation": str(e)}
            except Hang as e:
                out = {"violation": f"hang: {e}"}
            except BaseException as e:  # noqa
                import traceback

                out = {"error": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.time() + wall
    try:
        import select

        while True:
            left = deadline - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise Violation("the call never ended")
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not chunks:
        raise ChildDied("no result")
    out = json.loads(b"".join(chunks))
    if "violation" in out:
        raise Violation(out["violation"])
    if "error" in out:
        raise ChildDied(out["error"])
    return out["value"]


def warm_patterns(fn):
    """Compile here the regular expressions fn() would compile, without running fn here."""
    import re

    def spy():
        seen, real = [], re.compile

        def compile_(pattern, flags=0):
            if isinstance(pattern, str):
                seen.append([pattern, int(flags)])
            return real(pattern, flags)

        re.compile = compile_
        try:
            fn()
        finally:
            re.compile = real
        return seen

    try:
        for pattern, flags in run(spy):
            re.compile(pattern, flags)
    except (ChildDied, Violation, re.error):
        pass  # only a matter of speed
