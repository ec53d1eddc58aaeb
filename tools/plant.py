"""Runs the checks against the planted bugs of a directory: each patch is applied to /repo, the
quick check of its property is run, and the patch is undone. Development tool, used by no check."""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*args):
    return subprocess.run(["git", "-C", "/repo"] + list(args), capture_output=True, text=True)


def run(d, prop=None, tier="quick"):
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = prop or meta["property"]
    assert not git("status", "--porcelain", "-uno").stdout, "/repo is not clean"
    try:
        res = git("apply", os.path.join(d, "patch.diff"))
        if res.returncode:
            return "does not apply", 0, ""
        start = time.time()
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier)
        res = subprocess.run([sys.executable, os.path.join(ROOT, "tools/check.py"), prop, "--tier", tier],
                             capture_output=True, text=True, env=env, timeout=3600)
        lines = [v for v in res.stdout.splitlines() if v.startswith("VIOLATION property=" + prop)]
        caught = res.returncode == 1 and bool(lines)
        return ("caught" if caught else "MISSED rc=%d" % res.returncode), time.time() - start, \
            (lines[0] if lines else (res.stdout + res.stderr)[-300:])
    finally:
        git("checkout", "-q", "--", ".")


def main():
    base = sys.argv[1]
    ids = sys.argv[2:] or sorted(os.listdir(base))
    missed = []
    for i in ids:
        name, _, prop = i.partition(":")
        what, secs, text = run(os.path.join(base, name), prop or None)
        print("%-28s %-14s %5.0fs %s" % (i, what, secs, text.replace("\n", " ")[:160]), flush=True)
        if what != "caught":
            missed.append(i)
    print("missed:", *missed)


if __name__ == "__main__":
    main()
