"""Facts about knor shared by the rules: which driver owns which worker, effect trees of both sides."""
import re
from db import DB, AnalysisBroken
from interp import *
import terms

COORD, WORKER = "knor::coordinator", "knor::thread"
THIS = sym("this")


def short(q):
    return q.split("::")[-1]


class Family(object):
    pass


class Model(object):
    def __init__(self, extra=(), standin=None):
        self.extra = extra
        self.db = DB(extra)
        if standin:
            self.db.standin(standin)
        self.trees = {}
        self.inlined = set()
        self._fams = None

    # ---------------------------------------------------------------- families
    @property
    def fams(self):
        if self._fams is None:
            self._fams = self.find_families()
        return self._fams

    def find_families(self):
        db = self.db
        if COORD not in db.cls or WORKER not in db.cls:
            raise AnalysisBroken("base classes %s / %s not found" % (COORD, WORKER))
        workers = set(db.concrete(WORKER))
        out = []
        for c_ in db.concrete(COORD):
            f = db.find_method(c_, "build_thread_state")
            if f is None:
                raise AnalysisBroken("no build_thread_state for " + c_)
            I = Interp(db, opaque=lambda f: f["q"].startswith("cxxopts::"))
            root, env, _ = I.entry(f, thiscls=c_)
            ws = sorted({n.ty for n, _ in allnodes(root) if n.kind == "alloc" and n.ty in workers})
            fm = Family()
            fm.coord, fm.workers = c_, ws
            fm.name = short(c_).replace("_coordinator", "")
            fm.worker = ws[0] if ws else None
            # dynamic classes of the fields (clusters variants)
            fm.fieldcls = {}
            fm.elemcls = None
            for cl in [c_] + ws:
                for ct in [g for g in db.fn.values() if g.get("ctor") and g.get("cls") == cl]:
                    if ct.get("body") is None:
                        continue
                    J = Interp(db, elemcls={WORKER: fm.worker} if fm.worker else {})
                    try:
                        r2, e2, _ = J.entry(ct, this=THIS, thiscls=cl)
                    except AnalysisBroken:
                        continue
                    for n, _a in allnodes(r2):
                        if n.kind == "store" and n.lv.op == "F" and n.val.op == "new" and n.val.a[1] == "obj":
                            fm.fieldcls.setdefault(n.lv.a[1], n.val.a[2])
                        # what the driver keeps in its table of tree nodes
                        if cl == c_ and n.kind == "store" and n.lv.op == "I" and n.val.op == "new" and n.val.a[1] == "obj" and n.lv.a[0].op == "F" and n.lv.a[0].a[0].op == "F":
                            fm.elemcls = n.val.a[2]
            # objects of the driver that its workers point to
            fm.wire = {}
            vals = {}
            for n, _ in allnodes(root):
                if n.kind == "store" and n.lv.op == "F" and n.lv.a[0].op == "new":
                    vals.setdefault(n.lv.a[1], set()).add(n.val)
            for fld, vs in vals.items():
                v = next(iter(vs))
                if len(vs) == 1 and v.op == "ld" and v.a[0].op == "F" and v.a[0].a[0] is THIS and v.a[0].a[1] in fm.fieldcls:
                    fm.wire[fld] = v
            out.append(fm)
        return out

    def hints(self, fm):
        fc = fm.fieldcls if fm else {}
        db = self.db

        def pick(static):
            def f(o):
                if o.op in ("ld", "hv") and o.a[0].op == "I" and o.a[0].a[0].op == "F" and fm and fm.elemcls and static in db.bases(fm.elemcls):
                    return fm.elemcls
                if o.op == "ld" and o.a[0].op == "F":
                    t = fc.get(o.a[0].a[1])
                    if t and static in db.bases(t):
                        return t
                return static if not db.cls[static]["abstract"] else None
            return f
        h = {}
        for q in ("knor::base::clusters", "knor::base::prune_clusters", "knor::base::h_clusters"):
            if q in db.cls:
                h[q] = pick(q)
        if fm and fm.worker:
            for b in db.bases(fm.worker):
                h.setdefault(b, fm.worker)
        if fm:
            for b in db.bases(fm.coord):
                h.setdefault(b, fm.coord)
        return h

    def tree(self, fnr, thiscls=None, fm=None, args=None, pre=None, key=None, **opts):
        k = (fnr["m"], thiscls, fm.name if fm else None, key, repr(sorted((a, id(b)) for a, b in opts.items())))
        r = self.trees.get(k)
        if r is None:
            I = Interp(self.db, elemcls=self.hints(fm), **opts)
            if fm and thiscls == fm.coord and not fnr.get("ctor"):
                I.wire = fm.wire
            root, env, ret = I.entry(fnr, thiscls=thiscls, args=args, pre=pre)
            r = self.trees[k] = (root, env, ret, I)
            self.inlined |= set(I.inlined)
        return r

    def drive(self, fm, method="run", **opts):
        f = self.db.find_method(fm.coord, method)
        if f is None:
            raise AnalysisBroken("%s has no %s" % (fm.coord, method))
        return self.tree(f, fm.coord, fm, **opts)

    def work(self, fm, state, method="run", **opts):
        """worker behaviour for one dispatched phase"""
        f = self.db.find_method(fm.worker, method)
        if f is None:
            raise AnalysisBroken("%s has no %s" % (fm.worker, method))
        pre = {mk("F", THIS, "state"): mk("e", state)} if state else None
        return self.tree(f, fm.worker, fm, pre=pre, key=state, **opts)

    def where(self, n):
        return "%s in %s" % (n.loc, n.fn)


if __name__ == "__main__":
    import time
    t = time.time()
    m = Model()
    for f in m.fams:
        print(f.coord, f.workers, f.fieldcls)
    print(time.time() - t)
