"""setup_cmd: the tools are there, every harness loads, and the engine tells true from false assertions."""

import json
import sys

import check
from symx import harness


def main():
    n = 0
    with open(check.VERIF + "/MANIFEST.json") as f:
        m = json.load(f)
    for c in m["checks"]:
        _, tasks = check.load_cases(c["property"], "quick")
        assert tasks, c["property"]
        n += len(tasks)
    loader, tasks = check.load_cases("T00", "quick")
    for t in tasks:
        r = harness.Runner(loader, t["sym"], t["nat"], {}, {}, 60).run()
        assert bool(r["violations"]) == (t["name"] == "bad"), (t["name"], r)
        assert not r["mismatches"] and not r["incomplete"], r
    print(f"selftest ok: {len(m['checks'])} checks, {n} harness instances")


if __name__ == "__main__":
    sys.exit(main())
