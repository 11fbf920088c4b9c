import sys, time
from db import DB
from interp import *
d = DB()
q = sys.argv[1]
cls = sys.argv[2] if len(sys.argv) > 2 else None
f = d.byq[q][0]
t = time.time()
I = Interp(d, elemcls={"knor::thread": sys.argv[3]} if len(sys.argv) > 3 else {})
root, env, ret = I.entry(f, thiscls=cls)
print("\n".join(dump(root)))
print("ret", ret, "pc", env.pc)
print("time", time.time() - t, "warn", I.warn[:5], file=sys.stderr)
