"""Turns obligations into evidence, replay files, VIOLATION / KNOWN-FINDING lines and an exit code."""
import json
import os
import shutil
import time

from . import terms as tm

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings(pid):
    """Entries 'finding: property=<id> key=<scenario>/<label> :: <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid) and " :: " in line:
                    head, what = line.strip().split(" :: ", 1)
                    out.append((head.split(" key=", 1)[1], what))
    return out


def key(ob):
    k = "%s/%s" % (ob.scenario, ob.label)
    if ob.where and ob.kind in ("raise", "silent", "unbound"):
        k += "@" + str(ob.where[1])
    return k


def rel(f):
    return f[len("/repo/"):] if f and f.startswith("/repo/") else f


def site(ob):
    """The construct a violated obligation is attributed to."""
    if ob.where and ob.where[0] and not str(ob.where[0]).startswith("<"):
        return "%s:%s:%s" % (rel(ob.where[0]), ob.where[1], ob.where[2])
    fns = [f for f in ob.fns if not f[0].endswith("/vector.py")] or list(ob.fns)
    return ", ".join("%s:%s" % (rel(f), q) for f, q in fns[-6:]) or ob.scenario


def finish(pid, d, tier, seed, t0, rule, explanation, assumptions, extra=None):
    ev_dir = os.path.join(ROOT, "evidence")
    rp = os.path.join(ev_dir, "replay")
    os.makedirs(rp, exist_ok=True)
    for f in os.listdir(rp):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(rp, f))
    known = known_findings(pid)
    viol, kf, und = [], [], []
    for o in d.obs:
        if o.verdict == "different":
            m = [w for k, w in known if k == key(o)]
            if m:
                kf.append((o, m[0]))
            else:
                viol.append(o)
        elif o.verdict == "unknown":
            und.append(o)
    dec = [o for o in d.obs if o.verdict == "equal"]
    for w in sorted({w for _, w in kf}):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    seen = set()
    n = 0
    for o in viol:
        k = key(o)
        if k in seen:
            continue
        seen.add(k)
        n += 1
        path = os.path.join(rp, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": k, "obligation": o.label, "scenario": o.scenario, "kind": o.kind,
                       "site": site(o), "detail": o.detail, "functions": ["%s:%s" % (rel(a), b) for a, b in o.fns],
                       "rerun": "cd /verif && python3 -m hvsa %s --only '%s'" % (pid, o.scenario)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s]: %s\n  at %s" % (o.label, o.scenario, o.detail, site(o)))
    by = {}
    for o in d.obs:
        by.setdefault(o.kind, [0, 0])
        by[o.kind][0] += 1
        by[o.kind][1] += o.verdict == "equal"
    cov = {
        "explanation": explanation, "rule": rule,
        "obligations": len(d.obs), "discharged": len(dec), "undecided": len(und),
        "known_findings": len(kf),
        "by_kind": {k: {"stated": a, "discharged": b} for k, (a, b) in sorted(by.items())},
        "contexts": len(d.scenarios),
        "functions_analysed": sorted("%s:%s" % (rel(f), q) for f, q in d.functions),
        "call_sites": len(d.callsites), "joins": d.branches, "summarised_loops": d.loops,
        "term_comparisons": tm.STATS["comparisons"], "interpretations": tm.STATS["interpretations"],
        "samples": [{"context": o.scenario, "obligation": o.label, "kind": o.kind, "verdict": o.verdict, "detail": o.detail[:200]} for o in (dec[:4] + dec[-2:])],
        "undecided_obligations": [{"context": o.scenario, "obligation": o.label, "detail": o.detail[:300]} for o in und[:40]],
        "unmodelled_externals": d.externals,
    }
    if extra:
        cov.update(extra)
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3),
                   "assumptions": assumptions, "violations": n}, f, indent=1, sort_keys=True)
    if n:
        return 1
    for o in und:
        print("UNDECIDED %s [%s]: %s" % (o.label, o.scenario, o.detail[:200]))
    total = len(d.obs)
    if not total or len(dec) + len(kf) < (total + 1) // 2:
        print("analysis broken: %d of %d obligations decided" % (len(dec), total))
        return 2
    print("property %s: %d obligations, %d discharged, %d undecided, %d functions" % (pid, total, len(dec), len(und), len(d.functions)))
    return 0
