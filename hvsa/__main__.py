"""python3 -m hvsa <property> [--tier quick|thorough] [--only scenario]"""
import argparse
import importlib
import os
import sys
import threading
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--src", default="/repo/src")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = [2]

    def go():
        from . import report
        from .driver import Driver
        t0 = time.time()
        try:
            p = importlib.import_module("hvsa.props." + a.property.lower())
            d = Driver(src=a.src, seed=seed, samples=12 if tier == "quick" else 40)
            d.only = a.only
            d.tier = tier
            d.workers = min(8, os.cpu_count() or 1)
            p.run(d)
            d.join()
            res[0] = report.finish(a.property, d, tier, seed, t0, p.RULE, p.EXPLANATION, getattr(p, "ASSUMPTIONS", ASSUMPTIONS))
        except Exception:
            traceback.print_exc()
            res[0] = 2

    sys.setrecursionlimit(400000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(res[0])


ASSUMPTIONS = [
    "values are compared as real-number terms (floating-point rounding is not modelled)",
    "equality of terms is decided by random interpretation (Gulwani-Necula): a wrong 'equal' verdict has negligible probability, a 'different' verdict always carries a witness",
    "numpy, pandas, numpy-stl, multiprocess and os behave as in the library models of hvsa/models.py and hvsa/frames.py",
    "sizes (cells, components, parameters, sections) are fixed per analysis context as listed; all numbers, flags and functions in a context are symbolic",
]

if __name__ == "__main__":
    main()
