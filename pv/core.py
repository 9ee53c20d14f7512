"""Violations, guarded calls into the library, cached parsers."""

import traceback

from . import env  # noqa: F401


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """The case used up its CPU time."""


def check(cond, message, *details):
    """Raise a Violation unless cond."""
    if not cond:
        text = message
        for d in details:
            text += "\n  " + (d if isinstance(d, str) else repr(d))
        raise Violation(text)


def short_tb(exc):
    """Describe an exception."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{f.filename.rsplit('/', 2)[-2]}/{f.filename.rsplit('/', 1)[-1]}:{f.lineno} {f.name}" for f in tb[-3:]]
    return f"{type(exc).__name__}: {str(exc)[:400]} [at {' <- '.join(reversed(where))}]"


def lib(what, fn, *args, **kwargs):
    """Call the library where no exception is allowed."""
    try:
        return fn(*args, **kwargs)
    except (Violation, Hang):
        raise
    except Exception as e:  # noqa
        raise Violation(f"{what}: unexpected exception {short_tb(e)}") from None


_PARSERS = {}


def parser(kind, fresh=False):
    """Get a (cached) parser: 'domain', 'problem' or 'plan'."""
    from pddl.parser.domain import DomainParser
    from pddl.parser.plan import PlanParser
    from pddl.parser.problem import ProblemParser

    cls = {"domain": DomainParser, "problem": ProblemParser, "plan": PlanParser}[kind]
    if fresh:
        return cls()
    if kind not in _PARSERS:
        _PARSERS[kind] = cls()
    return _PARSERS[kind]


def reset_parsers():
    """Drop the cached parsers."""
    _PARSERS.clear()


def parse(kind, text):
    """Parse a text that must be accepted."""
    try:
        return parser(kind)(text)
    except Exception as e:  # noqa
        raise Violation(f"valid {kind} text rejected: {short_tb(e)}\n{text}") from None


def clean_errors():
    """Exception families a parser may raise on bad input."""
    from lark.exceptions import LarkError
    from pddl.exceptions import PDDLError

    return (LarkError, PDDLError, ValueError)


def outcome(fn, *args):
    """Run fn: ('ok', value) or ('err', exception)."""
    try:
        return "ok", fn(*args)
    except Exception as e:  # noqa
        return "err", e
