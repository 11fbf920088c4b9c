"""effctor.py FAMILY: normalised effects of the driver's constructor (development aid)"""
import sys
sys.path[:0] = ["/verif/engine", "/verif/rules"]
from model import *
from canon import *
from spec import *
m = Model()
for f in m.fams:
    if f.name == sys.argv[1]:
        for ct in [g for g in m.db.fn.values() if g.get("ctor") and g.get("cls") == f.coord and g.get("body") is not None]:
            print("=====", ct["q"], ct["m"])
            t = m.tree(ct, f.coord, f)
            nf = Norm(t, enums_of(m), alias=aliaser(COMMON, False))
            for e, s in zip(nf.effs, nf.lines):
                print(e.n.loc.split("/")[-1], s[:int(sys.argv[2]) if len(sys.argv) > 2 else 300])
