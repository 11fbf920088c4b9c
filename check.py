#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from /repo's current source.
exit 0 held, exit 1 + VIOLATION line, exit 3 the analysis could not answer."""
import os, sys, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
from db import AnalysisBroken
from model import Model
from rulebase import Ctx

REG = json.load(open(os.path.join(HERE, "rules", "registry.json")))


def known(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    for e in (json.load(open(p)) if os.path.exists(p) else {}).get("findings", []):
        if e["property"] == pid:
            out[e["key"]] = e["what"]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod, fn = REG[pid]["rule"].split(".")
    try:
        rule = getattr(importlib.import_module(mod), fn)
        configs = [("default", ())]
        if tier == "thorough":
            configs += [("ndebug", ("-DNDEBUG",)), ("bind", ("-DBIND",))] if REG[pid].get("configs", True) else []
        viol, obl, funcs, samples, notes = {}, {}, set(), [], {}
        for name, extra in configs:
            m = Model(extra)
            c = Ctx(pid, m, tier)
            c.config = name
            rule(c)
            for k, v in c.viol.items():
                viol.setdefault(k, dict(v, config=name))
            for k, v in c.obl.items():
                obl[k] = obl.get(k, 0) + v
            funcs |= c.functions | m.inlined
            samples += c.samples[:12]
            notes.update(c.notes)
        if not obl:
            raise AnalysisBroken("no obligation was met")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    kn = known(pid)
    new = {k: v for k, v in viol.items() if k not in kn}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": REG[pid]["explain"],
                       "obligations_by_rule": obl, "obligations_total": sum(obl.values()),
                       "configurations": [n for n, _ in configs],
                       "functions_analysed": len(funcs), "functions": sorted(funcs)[:400],
                       "violations_new": len(new), "violations_known": len(viol) - len(new),
                       "violations": sorted(viol.values(), key=lambda v: v["key"])[:50],
                       "samples": samples[:40], "notes": notes},
          "wall_s": round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(viol):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".violation.json")
        json.dump(sorted(new.values(), key=lambda v: v["key"]), open(rp, "w"), indent=1)
        for k in sorted(new):
            print("  %s: %s [%s]" % (new[k]["where"], new[k]["message"], k))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d %.1fs" % (pid, sum(obl.values()), len(funcs), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
