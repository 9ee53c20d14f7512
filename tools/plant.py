#!/usr/bin/env python3
"""Author's tool (no check uses it): confirm a planted bug and keep it under /verif/seeded.

usage: plant.py SPECS.py [id ...] [--no-tests] [--no-check]
SPECS.py defines BUGS: a list of dicts
   id, property, edits=[(file, old, new), ...], demo (python text), needs, what
For each one, in a scratch copy of /repo under /tmp/pl:
   the demo passes without the change and fails with it; the change removes only lines of the
   original repository; the test suite still passes; then the property's quick check is run on it.
"""
import json
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def base_commit():
    out = sh(["git", "-C", REPO, "log", "--format=%H %s"]).stdout.splitlines()
    for line in out:
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            return h
    raise SystemExit("no base")


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "tests", "stable"):
        if k in b:
            return len(b[k])
    return 2247


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = {a for a in sys.argv[1:] if a.startswith("--")}
    ns = {}
    exec(open(args[0]).read(), ns)
    wanted = set(args[1:])
    base = base_commit()
    summary = []
    for bug in ns["BUGS"]:
        if wanted and bug["id"] not in wanted:
            continue
        print("==", bug["id"], bug["property"], flush=True)
        res = confirm(bug, base, flags)
        print("   ->", res, flush=True)
        summary.append((bug["id"], bug["property"], res))
    print("\nSUMMARY")
    for s in summary:
        print(*s)


def confirm(bug, base, flags):
    copy = f"/tmp/pl/{bug['id']}"
    sh(["rm", "-rf", copy])
    os.makedirs("/tmp/pl", exist_ok=True)
    sh(["cp", "-a", REPO, copy])
    out = f"{VERIF}/seeded/{bug['id']}"
    try:
        os.makedirs(out, exist_ok=True)
        open(f"{out}/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        r = sh(["bash", f"{out}/demo.sh"], cwd=copy)
        if r.returncode != 0:
            print(r.stdout[-1500:])
            return drop(out, "DEMO FAILS ON CLEAN")
        for f, old, new in bug["edits"]:
            p = f"{copy}/{f}"
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                return drop(out, f"EDIT {f}: {t.count(old)} matches for {old[:60]!r}")
            open(p, "w", newline="").write(t.replace(old, new))
        raw = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE).stdout
        open(f"{out}/patch.diff", "wb").write(raw)
        d = raw.decode()
        note = foreign(copy, d, base)
        r = sh(["bash", f"{out}/demo.sh"], cwd=copy)
        if r.returncode == 0:
            return drop(out, "DEMO PASSES ON PATCHED")
        print("   demo:", (r.stdout.strip().splitlines() or [""])[-1][:150])
        if "--no-tests" not in flags:
            r = sh([PY, "-m", "pytest", "-q", "--doctest-modules", "pddl", "tests", "-p", "no:cacheprovider",
                    "-p", "no:randomly", "-n", "8", "--timeout=60", "-o", "log_cli=0"], cwd=copy,
                   env={"PYTHONPATH": copy, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
            tail = r.stdout.strip().splitlines()[-1]
            failed = [l for l in r.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
            known = [l for l in failed if is_known(l)]
            if len(failed) != len(known):
                print("   ", *[l for l in failed if l not in known][:4], sep="\n    ")
                return drop(out, "TESTS FAIL " + tail)
        res = "tests ok" + note
        if "--no-check" not in flags:
            r = sh([f"{VERIF}/check.sh", bug["property"]], env={"PV_REPO": copy}, cwd=VERIF)
            hit = re.search(r"VIOLATION property=(\S+)", r.stdout)
            res += f"; check rc={r.returncode} {'CAUGHT' if r.returncode == 1 and hit else 'MISSED'}"
            if r.returncode != 1:
                print(r.stdout[-800:])
            elif hit:
                lines = r.stdout.splitlines()
                print("\n".join("      " + l[:200] for l in lines[-6:]))
        return res
    finally:
        sh(["rm", "-rf", copy])


_KNOWN = None


def is_known(line):
    """Failures that also happen on the unchanged tree."""
    global _KNOWN
    if _KNOWN is None:
        p = "/tmp/pl/known_failures"
        _KNOWN = set(open(p).read().split("\n")) if os.path.exists(p) else set()
    return line.split(" - ")[0] in _KNOWN


def drop(out, msg):
    keep = f"/tmp/pl/rejected-{os.path.basename(out)}"
    sh(["rm", "-rf", keep])
    sh(["mv", out, keep])
    return "REJECTED: " + msg


def foreign(copy, diff, base):
    """How many lines of the original repository a patch changes (not of our repairs)."""
    ours, theirs, lines = 0, 0, diff.splitlines()
    added, n = set(), 0
    for line in lines:
        if line.startswith("--- a/"):
            added, m = set(), 0
            for x in sh(["git", "-C", REPO, "diff", "-U0", base, "HEAD", "--", line[6:].strip()]).stdout.splitlines():
                if x.startswith("@@"):
                    m = int(re.search(r"\+(\d+)", x).group(1))
                elif x.startswith("+") and not x.startswith("+++"):
                    added.add(m)
                    m += 1
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            if line[1:].strip() and not line[1:].strip().startswith("#"):
                ok = n not in added
                theirs, ours = theirs + ok, ours + (not ok)
            n += 1
        elif not line.startswith(("+", "\\")):
            n += 1
    return f" (changes {theirs} original lines, {ours} repaired ones{'' if theirs else ': DOES NOT COUNT'})"


if __name__ == "__main__":
    main()
