#!/usr/bin/env python3
"""Author's tool (no check uses it): re-validate the planted bugs under /verif/seeded against /repo's HEAD.

usage: seeded.py [id ...] [--checks] [--jobs N]
For each: the patch applies, touches only Python sources and lines of the original repository, and the demo tells
the two trees apart; with --checks, the property's quick check (or any listed in meta.json "caught_by") reports it.
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys

from plant import REPO, VERIF, base_commit, foreign, sh


def one(i, checks):
    d = f"{VERIF}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    copy = f"/tmp/sd/{i}"
    sh(["rm", "-rf", copy])
    os.makedirs("/tmp/sd", exist_ok=True)
    try:
        sh(["git", "clone", "-q", REPO, copy])
        clean = sh(["bash", f"{d}/demo.sh"], cwd=copy).returncode
        r = sh(["git", "-C", copy, "apply", f"{d}/patch.diff"])
        if r.returncode:
            return i, "DOES NOT APPLY: " + r.stdout.strip()[:200]
        files = sh(["git", "-C", copy, "diff", "--name-only"]).stdout.split()
        note = foreign(copy, sh(["git", "-C", copy, "diff"]).stdout, base_commit())
        bad = sh(["bash", f"{d}/demo.sh"], cwd=copy).returncode
        out = f"{meta['property']} demo {clean}/{bad}{'' if clean == 0 and bad else ' WRONG'} {note}"
        if any(not f.endswith(".py") for f in files):
            out += " NOT-PYTHON"
        if checks:
            r = sh([f"{VERIF}/check.sh", meta["property"]], env={"PV_REPO": copy}, cwd=VERIF)
            hit = re.search(r"VIOLATION property=(\S+)", r.stdout)
            out += f" check rc={r.returncode} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'}"
        return i, out
    finally:
        sh(["rm", "-rf", copy])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ids = args or sorted(os.listdir(f"{VERIF}/seeded"))
    checks = "--checks" in sys.argv
    with concurrent.futures.ThreadPoolExecutor(2 if checks else 8) as ex:
        for i, out in ex.map(lambda x: one(x, checks), ids):
            print(i, out, flush=True)


if __name__ == "__main__":
    main()
