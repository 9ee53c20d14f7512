"""What a property module is made of, and how one case is run."""

import hashlib
import importlib
import json
import os
import signal
import traceback

from . import env  # noqa: F401
from .core import Hang, Violation, reset_parsers

CPU_LIMIT = 25.0  # seconds of CPU time one case may take


class Part:
    """One generated check: a strategy of JSON-able cases and an oracle.

    check(case) raises a Violation, or returns (nontrivial, classes).
    """

    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 15


def load(prop):
    """Import a property module."""
    return importlib.import_module(f"pv.props.{prop.lower()}")


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def _on_alarm(_sig, _frame):
    raise Hang("the case used up its CPU time")


def arm():
    signal.signal(signal.SIGVTALRM, _on_alarm)


def run_case(part, case):
    """Run one case: returns (nontrivial, classes) or raises Violation."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1.0)
    try:
        r = part.check(case)
        return r
    except Violation:
        raise
    except MemoryError:
        raise Violation("the case ran out of memory") from None
    except Exception as e:  # noqa
        if type(e).__module__.startswith("hypothesis"):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        inner = frames[-1].filename
        mine = os.path.join(env.VERIF, "pv") + os.sep
        lib_dir = os.path.join(env.REPO, "pddl") + os.sep
        if not inner.startswith(mine) and any(f.filename.startswith(lib_dir) for f in frames):
            last = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in frames[-4:]]
            raise Violation(f"unexpected {type(e).__name__}: {str(e)[:500]} [{' > '.join(last)}]") from None
        if os.path.basename(inner) == "view.py" and isinstance(e, (AttributeError, TypeError, KeyError, IndexError)):
            # the public attributes of a returned object do not hold what they should
            raise Violation(f"cannot read the object: {type(e).__name__}: {str(e)[:500]}") from None
        raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def replay_case(prop, part_name, case):
    """Run one saved case in this process; returns None or the message."""
    mod = load(prop)
    part = {p.name: p for p in mod.PARTS}[part_name]
    arm()
    reset_parsers()
    try:
        run_case(part, case)
    except Violation as e:
        return str(e)
    except Hang as e:
        return f"hang: {e}"
    return None
