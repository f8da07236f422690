#!/usr/bin/env python3
"""Creates and tries planted bugs:  seed.py SPEC.py [id...]   (scratch copies under /tmp)

SPEC.py defines BUGS = {id: dict(property, file, edits=[(old, new)...], needs, breaks, demo)}.
A bug is kept in /verif/seeded if the stable tests pass with it and demo.py fails only with it.
seed.py --check [id...] runs the property's quick check against each kept bug and writes tools/seeded.json.
"""

import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TMPDIR="$t" /opt/venv/bin/python "$d/demo.py" > /dev/null
"""


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(bid):
    tree = f"/tmp/seed_{bid}"
    shutil.rmtree(tree, ignore_errors=True)
    run(["cp", "-a", "/repo", tree])
    return tree


def original_lines_only(tree, patch):
    base = run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    # every removed line has to come from the base commit
    cur, line, files = None, 0, {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and cur and not l.startswith("---"):
            files.setdefault(cur, []).append(line)
            line += 1
        elif l.startswith(" "):
            line += 1
    any_original = False
    for f, ls in files.items():
        blame = run(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f]).stdout.splitlines()
        for n in ls:
            if blame[n - 1].lstrip("^")[:39] == base[:39]:
                any_original = True
            else:
                print("   not original:", f, n)
                return False
    return any_original


def demo_ok(folder, tree):
    return run(["bash", os.path.join(folder, "demo.sh")], cwd=tree, timeout=300)


def plant(bid, b):
    tree = copy(bid)
    try:
        files = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        for f, edits in files.items():
            p = os.path.join(tree, "objutils", f)
            s = open(p, encoding="utf-8").read()
            for old, new in edits:
                if s.count(old) != 1:
                    return print(bid, "NOT APPLICABLE:", f, s.count(old), "matches of", repr(old))
                s = s.replace(old, new)
            open(p, "w", encoding="utf-8").write(s)
        patch = run(["git", "-C", tree, "diff", "--", "objutils"]).stdout
        if not original_lines_only(tree, patch):
            return print(bid, "DROPPED: touches lines of a fix")
        folder = os.path.join(SEEDED, bid)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(patch)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(folder, "demo.py"), "w").write(b["demo"].strip() + "\n")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(folder, "meta.json"), "w"), indent=1)
        before, after = demo_ok(folder, "/repo"), demo_ok(folder, tree)
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=/dev/null", "objutils/tests"], cwd=tree, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        tests = t.stdout.strip().splitlines()[-1]
        good = before.returncode == 0 and after.returncode != 0 and "346 passed" in tests
        print(bid, "KEPT" if good else "DROPPED", "demo", before.returncode, after.returncode, tests)
        if not good:
            print("   ", before.stderr[-400:], [l for l in t.stdout.splitlines() if l.startswith("FAILED")][:4])
            shutil.rmtree(folder)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def check(ids):
    path = os.path.join(VERIF, "tools", "seeded.json")
    table = json.load(open(path)) if os.path.exists(path) else {}
    for bid in ids or sorted(os.listdir(SEEDED)):
        tree = copy(bid)
        try:
            r = run(["git", "-C", tree, "apply", os.path.join(SEEDED, bid, "patch.diff")])
            if r.returncode:
                print(bid, "patch does not apply", r.stderr)
                continue
            prop = json.load(open(os.path.join(SEEDED, bid, "meta.json")))["property"]
            r = run([PY, os.path.join(VERIF, "check.py"), prop, "--tier", "quick"], env=dict(os.environ, SX_REPO=tree, SX_EVIDENCE="/tmp/seed_evidence"))
            hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
            table[bid] = prop if hit else "missed"
            print(bid, prop, "CAUGHT" if hit else f"MISSED rc={r.returncode}", (r.stdout.strip().splitlines() or [""])[-1][:220], flush=True)
        finally:
            shutil.rmtree(tree, ignore_errors=True)
    for i in list(table):
        if not os.path.isdir(os.path.join(SEEDED, i)):
            del table[i]
    json.dump(table, open(path, "w"), indent=1, sort_keys=True)


if sys.argv[1] == "--check":
    check(sys.argv[2:])
else:
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for i, bug in ns["BUGS"].items():
        if len(sys.argv) == 2 or i in sys.argv[2:]:
            plant(i, bug)
