"""eff.py FAMILY PHASE|METHOD[@DISPATCH] ..: print the normalised effects (development aid).
METHOD@STATE restricts the output to the loop that dispatches STATE"""
import sys
sys.path[:0] = ["/verif/engine", "/verif/rules"]
from model import *
from canon import *
from spec import *
from protocol import *
if __name__ == "__main__":
    m = Model()
    for f in m.fams:
        if f.name == sys.argv[1]:
            for ph in sys.argv[2].split(","):
                print("=====", ph)
                meth, _, st = ph.partition("@")
                t = m.drive(f, meth) if not meth.isupper() else m.work(f, meth)
                sb = None
                if st:
                    sb = loop_of(t, st)
                nf = Norm(t, enums_of(m), alias=aliaser(COMMON), sub_=sb)
                for e, s in zip(nf.effs, nf.lines):
                    print(e.n.loc.split("/")[-1], s[:600])
