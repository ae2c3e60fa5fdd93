#!/opt/venv/bin/python
"""run.py check C01 [--tier quick|thorough] [--seed N] [--runs N] [--cap S] | replay FILE | determinism C01 | smoke"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst import boot  # noqa

boot.ensure_env()


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    c.add_argument("--runs", type=int)
    c.add_argument("--cap", type=float)
    c.add_argument("--workers", type=int)
    p = sub.add_parser("replay")
    p.add_argument("file")
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--tier", default="quick")
    d = sub.add_parser("determinism")
    d.add_argument("property")
    d.add_argument("--runs", type=int, default=24)
    d.add_argument("--seed", type=int, default=1)
    sub.add_parser("smoke")
    h = sub.add_parser("helper")
    h.add_argument("socket")
    a = ap.parse_args()
    boot.boot()
    from dst import core
    if a.cmd == "check":
        rc, _ = core.check(a.property, a.tier, a.seed, a.runs, a.cap, a.workers or core.WORKERS)
        return rc
    if a.cmd == "replay":
        return core.replay(a.file)
    if a.cmd == "one":
        import json
        mod = core.load(a.property)
        if hasattr(mod, "prepare"):
            mod.prepare()
        from dst import iso
        plan = core.gen_plan(mod, a.seed, a.index, a.tier)
        print(json.dumps(plan, indent=1))
        res = core.run_plan(mod, plan)
        res.pop("plan", None)
        print({k: v for k, v in res.items() if k != "sig"})
        return 1 if res.get("viol") else 0
    if a.cmd == "determinism":
        digs = []
        for w in (8, 3, 8):
            _, agg = core.check(a.property, "quick", a.seed, a.runs, 600, w, quiet=True)
            digs.append(agg["digs"])
        bad = [i for i in digs[0] if any(d.get(i) != digs[0][i] for d in digs)]
        print(a.property, "determinism:", len(digs[0]), "runs x3, differing:", bad, "digest", core.plan_digest(sorted(digs[0].items())))
        return 1 if bad else 0
    if a.cmd == "helper":
        from dst.checks import c12
        return c12.serve(a.socket)
    if a.cmd == "smoke":
        import direpack
        print("booted", direpack.__file__, core.src_digest())
        return 0


if __name__ == "__main__":
    sys.exit(main())
