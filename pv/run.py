"""Parent process of a check: workers, confirmation, replay file, evidence."""

import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import env
from .harness import digest, load, replay_case

WORKERS = 8
WALL = {"quick": 780, "thorough": 6 * 3600}
FINDINGS = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")


def hash_seed(seed, index):
    """Hash seed of a worker: different ones, fixed by the seed."""
    return str((seed * 7919 + index * 104729) % 4294967295) if index else "0"


def spawn(args, seed, index, tmp):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = hash_seed(seed, index)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONUTF8"] = "1"
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hyp")
    e["TMPDIR"] = tmp
    log = open(os.path.join(tmp, f"log{index}"), "wb")
    return subprocess.Popen(
        [sys.executable, "-m", *args], cwd=env.VERIF, env=e, stdout=log, stderr=log, start_new_session=True
    )


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def known_findings(prop):
    """Digests of listed findings of a property: digest -> description."""
    out = {}
    try:
        with open(FINDINGS) as fh:
            for line in fh:
                if line.startswith(f"finding: property={prop} "):
                    w = line.split(None, 3)
                    out[w[2].split("=", 1)[1]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


def campaign(prop, tier, seed, only=None):
    """Run the workers; returns (results, errors, failure)."""
    tmp = tempfile.mkdtemp(prefix=f"pv-{prop}-")
    try:
        procs = {}
        for i in range(WORKERS):
            if only is not None and i != only:
                continue
            out = os.path.join(tmp, f"out{i}")
            procs[i] = spawn(["pv.worker", prop, tier, str(seed), str(i), str(WORKERS), out], seed, i, tmp)
        t0 = time.time()
        results, errors, failures = {}, [], {}
        pending = dict(procs)
        try:
            while pending:
                for i, p in list(pending.items()):
                    rc = p.poll()
                    if rc is None:
                        continue
                    del pending[i]
                    out = os.path.join(tmp, f"out{i}")
                    if os.path.exists(out):
                        with open(out) as fh:
                            results[i] = json.load(fh)
                        if results[i]["failed"]:
                            failures[i] = results[i]["failed"]
                    else:
                        with open(os.path.join(tmp, f"log{i}"), errors="replace") as fh:
                            errors.append(f"worker {i} ended with {rc}:\n{fh.read()[-4000:]}")
                if failures or time.time() - t0 > WALL[tier]:
                    break
                time.sleep(0.05)
            if pending and not failures:
                errors.append("time ran out")
        finally:
            for p in procs.values():
                kill(p)
        return results, errors, failures
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fresh_replay(path, hashseed):
    """Replay in a fresh process: True if it fails there."""
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = hashseed
    try:
        r = subprocess.run(
            [sys.executable, "-m", "pv.run", "--replay", path, "--quiet"], cwd=env.VERIF, env=e, timeout=120,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        )
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def save_failure(prop, tier, seed, index, failed):
    """Write the replay file of a failure."""
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    data = {
        "property": prop,
        "kind": "case",
        "part": failed["part"],
        "case": failed["case"],
        "message": failed["message"],
        "hashseed": hash_seed(seed, index),
        "campaign": {"tier": tier, "seed": seed, "worker": index},
    }
    path = os.path.join(d, f"{prop}-{failed['part']}-{digest(failed['case'])}.json")
    with open(path, "w") as fh:
        json.dump(data, fh, indent=1)
    if not fresh_replay(path, data["hashseed"]):
        # the failure depends on what ran before in the process: the whole campaign is the reproduction
        data["kind"] = "campaign"
        with open(path, "w") as fh:
            json.dump(data, fh, indent=1)
    return path


def do_replay(path, quiet):
    with open(path) as fh:
        data = json.load(fh)
    say = (lambda *_a: None) if quiet else print
    if data["kind"] == "campaign":
        c = data["campaign"]
        _r, errors, failures = campaign(data["property"], c["tier"], c["seed"], only=c["worker"])
        if failures:
            f = next(iter(failures.values()))
            say(f["message"])
            say(f"VIOLATION property={data['property']} replay={path}")
            return 1
        say("\n".join(errors) or "the property held")
        return 2 if errors else 0
    if os.environ.get("PYTHONHASHSEED") != data["hashseed"]:
        e = dict(os.environ, PYTHONHASHSEED=data["hashseed"])
        args = ["--replay", path] + (["--quiet"] if quiet else [])
        return subprocess.run([sys.executable, "-m", "pv.run", *args], cwd=env.VERIF, env=e).returncode
    message = replay_case(data["property"], data["part"], data["case"])
    if message is None:
        say("the property held")
        return 0
    say(message)
    say(f"VIOLATION property={data['property']} replay={path}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--quiet", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return do_replay(os.path.abspath(a.replay), a.quiet)
    t0 = time.time()
    mod = load(a.prop)
    results, errors, failures = campaign(a.prop, a.tier, a.seed)
    findings = known_findings(a.prop)
    for d, text in findings.items():
        print(f"KNOWN-FINDING: property={a.prop} {text}")
    classes = collections.Counter()
    nontrivial, samples, evaluations = set(), [], 0
    for i in sorted(results):
        r = results[i]
        evaluations += r["evaluations"]
        nontrivial.update(r["nontrivial"])
        classes.update(r["classes"])
        samples += r["samples"]
    reported = 0
    for i in sorted(failures):
        f = failures[i]
        if digest(f["case"]) in findings:
            continue
        path = save_failure(a.prop, a.tier, a.seed, i, f)
        print(f["message"])
        print(f"VIOLATION property={a.prop} replay={path}")
        reported += 1
        break
    seen, picked = set(), []
    for s in samples:
        if s["part"] not in seen or len(picked) < 4:
            seen.add(s["part"])
            picked.append(s)
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": picked[:8],
            "classes": {k: v for k, v in sorted(classes.items()) if "~cpu" not in k},
            "workers": len(results),
            "regressions": len(getattr(mod, "REGRESSIONS", [])),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": reported,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if reported:
        return 1
    if errors:
        print(errors[0] + f"\n({len(errors)} workers failed)", file=sys.stderr)
        return 2
    print(f"{a.prop}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial), {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
