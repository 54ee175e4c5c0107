"""Assemble DESIGN.md from tools/design, properties.jsonl, the property modules and seeded/."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from hvsa.props import common  # noqa: E402


def read(name):
    return open(os.path.join(ROOT, name)).read()


def sentence(s):
    s = s.strip()
    return s if s.endswith(".") else s + "."


def main():
    out = [read("tools/design/head.md").rstrip(), "", "## 2. Properties", ""]
    props = [json.loads(line) for line in read("properties.jsonl").splitlines() if line.strip()]
    notes = json.loads(read("tools/design/notes.json"))
    known = read("known_findings.txt").splitlines()
    for p in props:
        i = p["id"]
        m = importlib.import_module("hvsa.props." + i.lower())
        expl = m.EXPLANATION.replace(common.METHOD, "").strip()
        n = notes.get(i, {})
        out += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
        out += ["* *Rule (oracle)*: " + sentence(m.RULE)]
        out += ["* *Analysed*: " + sentence(expl)]
        out += ["* *Quantified over*: " + sentence(p["quantifier"]["text"])]
        for a in getattr(m, "ASSUMPTIONS", None) or []:
            out += ["* *Assumes*: " + sentence(a)]
        if "bounds" in n:
            out += ["* *Bounds*: " + sentence(n["bounds"])]
        if "cost" in n:
            out += ["* *Cost*: " + sentence(n["cost"])]
        out += ["* *Why tests cannot settle it*: " + sentence(p["why_tests_cant"])]
        fx = [k.split(None, 3) for k in known if k.startswith("fixed: property=%s " % i)]
        for _, _, c, what in fx:
            out += ["* *Fixed in /repo* (%s): %s" % (c, sentence(what))]
        for k in known:
            if k.startswith("finding: property=%s " % i):
                out += ["* *Known finding*: " + sentence(k.split(" :: ")[1])]
        out += [""]
    na = json.loads(read("tools/na.json"))
    out += ["## 3. Not applicable", ""]
    out += ["* %s: %s" % kv for kv in sorted(na.items())] or ["None of the listed properties: each is about terms, effects or resolution, which the analysis reaches."]
    out += ["", read("tools/design/planted.md").rstrip(), "", "| id | property | what it breaks | needs | outcome |", "|---|---|---|---|---|"]
    missed = json.loads(read("tools/design/missed.json"))
    rows = []
    for f in glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")):
        b, d = os.path.basename(os.path.dirname(f)), json.load(open(f))
        rows.append((d["property"], b, d["what_it_breaks"], d["needs"], missed.get(b, "caught at once")))
    out += ["| %s | %s | %s | %s | %s |" % (b, p, w, n, o) for p, b, w, n, o in sorted(rows)]
    out += ["", read("tools/design/tail.md").rstrip(), ""]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))


main()
