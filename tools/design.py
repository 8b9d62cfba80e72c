"""DESIGN.md from design_head.md, the checks and design_tail.md:  /opt/venv/bin/python tools/design.py"""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from symx import env    # noqa
from design_notes import NOTES      # noqa


def fmt(d):
    return ", ".join("%s=%s" % (k, json.dumps(v) if not isinstance(v, str) else v) for k, v in d.items()) or "-"


def seeds():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
    return out


def main():
    man = {c["property"]: c for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
    sd = seeds()
    text = open(os.path.join(ROOT, "tools", "design_head.md")).read()
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        if p["id"] not in man:
            continue
        m = importlib.import_module("checks." + p["id"].lower())
        text += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        text += "*Decided by:* %s\n\n" % m.EXPLANATION
        n = NOTES.get(p["id"])
        if n:
            text += "*Oracle:* %s\n\n" % n
        text += "*Why tests cannot settle it:* %s.\n\n" % p["why_tests_cant"].rstrip(".")
        text += "*Assumed:* %s. *Outside:* %s.\n\n" % ("; ".join(m.ASSUMPTIONS), "; ".join(m.OUTSIDE))
        hs = m.harnesses("thorough")
        stubs = sorted({s for h in hs for s in h.stubs or []})
        if stubs:
            text += "*Stand-ins:* %s.\n\n" % "; ".join(stubs)
        text += "*Harnesses:*\n"
        for h in hs[:40]:
            text += "`%s`%s (%s)%s\n" % (h.name, "" if h.tier == "quick" else " thorough", fmt(h.bounds or {}), ";" if h is not hs[-1] else ".")
        if len(hs) > 40:
            text += "and %d more of the same kind.\n" % (len(hs) - 40)
        text += "\n"
        if p["id"] in sd:
            text += "*Planted bugs caught:* %s.\n\n" % ", ".join(s[0] for s in sd[p["id"]])
    tail = open(os.path.join(ROOT, "tools", "design_tail.md")).read()
    table = "| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
    for pid in sorted(sd):
        for a, b, c in sd[pid]:
            table += "| %s | %s | %s | %s |\n" % (a, b, c, pid)
    titles = {json.loads(x)["id"]: json.loads(x)["title"] for x in open(os.path.join(ROOT, "properties.jsonl"))}
    na = "".join("* **%s %s**: %s\n" % (x["property"], titles[x["property"]], x["reason"])
                 for x in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["not_applicable"])
    text += tail.replace("@SEEDS@", table).replace("@NA@", na)
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write(text)


main()
