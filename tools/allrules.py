#!/usr/bin/env python3
"""allrules.py [IDs]: run the rules of all (or the given) properties over $KNOR_REPO in one process and print what is new."""
import os, sys, importlib, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]
import check
from model import Model
from rulebase import Ctx
m = Model()
bad = 0
for pid in sys.argv[1:] or sorted(check.REG):
    mod, fn = check.REG[pid]["rule"].split(".")
    c = Ctx(pid, m, "quick")
    try:
        getattr(importlib.import_module(mod), fn)(c)
    except Exception as e:
        bad += 1
        print("%s BROKEN %s" % (pid, str(e) or repr(e)))
        if os.environ.get("TB"):
            traceback.print_exc()
        continue
    for k, v in c.viol.items():
        if k not in check.known(pid):
            bad += 1
            print("%s %s: %s [%s]" % (pid, v["where"], v["message"][:300], k[:200]))
sys.exit(1 if bad else 0)
