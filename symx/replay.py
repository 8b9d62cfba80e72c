"""Run harness bodies on the real, unpatched code with concrete inputs.

python -m symx.replay FILE            replay one recorded violation (exit 1 when it still fails)
python -m symx.replay --batch IN OUT  used by the driver
"""
import json
import sys

from . import env  # noqa: F401
from . import harness as hz


def find(mod, name):
    for tier in ("quick", "thorough"):
        for h in mod.harnesses(tier):
            if h.name == name:
                return h
    raise SystemExit("no harness " + name)


def main():
    if sys.argv[1] == "--batch":
        with open(sys.argv[2]) as f:
            job = json.load(f)
        mod = hz.load_check(job["module"])
        outs = []
        for name, inputs, seed, _ in job["cases"]:
            outs.append(hz.run_concrete(find(mod, name), inputs, seed))
        with open(sys.argv[3], "w") as f:
            json.dump(outs, f, default=str)
        return 0
    with open(sys.argv[1]) as f:
        job = json.load(f)
    mod = hz.load_check(job["module"])
    out = hz.run_concrete(find(mod, job["harness"]), job["inputs"], job["seed"])
    for x in out["failures"]:
        print(hz._fmt(x))
        if "trace" in x:
            print(x["trace"])
    print("inputs:", out["inputs"])
    print("reproduced" if not out["ok"] else "not reproduced")
    return 0 if out["ok"] else 1


if __name__ == "__main__":
    sys.exit(main())
