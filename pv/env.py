"""Process set-up: which pddl, lark and hypothesis the checks use."""

import os
import sys

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup() -> None:
    """Put /repo first and the verification tools last on the import path."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        # last: the library under test keeps the lark of its own environment
        sys.path.append(VT_SITE)


setup()
