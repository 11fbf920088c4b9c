"""C24: one pass of the hierarchical drivers (hierarchical, x-means, g-means) over the partitions they refine."""
from spec import *
from kmeans import *
from canon import cshow
from model import Model
import re

FAMS = ("hclust", "xmeans", "gmeans")
_models = {}


def modelof(c):
    """the same program with the table of partitions replaced by what it means (engine/model/vmap.cpp)"""
    k = tuple(c.model.extra)
    if k not in _models:
        _models[k] = Model(c.model.extra, standin="vmap")
    return _models[k]


class Sub(object):
    """the caller's obligations, another program"""
    def __init__(self, c, m):
        self.c, self.model = c, m

    def __getattr__(self, a):
        return getattr(self.c, a)


def inner(tree, state):
    for n, anc in allnodes(tree[0]):
        if n.kind == "store" and fieldname(n.lv) == "state" and n.val.op == "e" and n.val.a[0] == state:
            ls = [l for l in anc if l.kind == "loop" and not isworkers(l)]
            if ls:
                return ls[-1]
    raise AnalysisBroken("no loop dispatches %s" % state)


PID = "this.part_id[(q0 + this.start_rid)]"
CA = "this.cluster_assignments[(q0 + this.start_rid)]"
ACT = "('1' == this.cltr_active_vec.data[%s]._)" % CA


def names(s):
    """the words of the property: P the row's partition, LP this worker's sums for it, D0/D1 the distances to its two centres"""
    s.macro("this.g_hcltrs.data[%s]" % PID, "P")
    s.rx(r"this\.local_hcltrs\.data\[%s\]'*" % re.escape(PID), "LP")
    for i, m in ((0, "P.means[0]"), (0, "P.means"), (1, "P.means[this.ncol]")):
        s.macro("dist(this.dist_metric, %s, this.local_data[q0*this.ncol], this.ncol)" % m, "D%d" % i)
        s.macro("dist(this.dist_metric, this.local_data[q0*this.ncol], %s, this.ncol)" % m, "D%d" % i)
    s.macro(ACT, "ACT")
    s.rx(r"\bLP\.ncol\b", "this.ncol")
    txt = "\n".join(s.lines())
    s.second = "(D1 < D0)"
    if "(D1 <= D0)" in txt or "(D0 < D1)" in txt:
        if s.second not in txt and "(D0 <= D1)" not in txt:
            # rows equally near to both go to the second centre: as good, if it is done everywhere
            s.macro("(D1 <= D0)", "(D1 < D0)")
            s.macro("(D0 < D1)", "(D0 <= D1)")


def worker(c, fm):
    s = wsum(c, fm, "H_EM")
    names(s)
    key = "C24:%s:row" % fm.name
    # sums for a partition that is not refined do no harm
    s.rx(r" if !this\.g_hcltrs\.data\[key\(this\.g_hcltrs, q0\)\]\.converged : ", " : ")
    mine = [l for l in s.lines() if re.match(r"^for q0<nkeys\(this\.g_hcltrs\) : this\.local_hcltrs\.data\[key\(this\.g_hcltrs, q0\)\] = (new<[\w:]+>)$", l)]
    if not mine:
        c.bad(key + ":fresh", fm.worker, "a worker does not start every partition that is refined with sums of its own", "fresh sums")
        return
    obj = mine[0].split(" = ")[1]
    z = "for q0<nkeys(this.g_hcltrs) : fill base=%s.%s lo=0 hi=%s val=0"
    W = "!P.converged && ACT"
    row = "for q0<this.nprocrows if %s : "
    A1, A0 = row % (W + " && (D1 < D0)"), row % (W + " && (D0 <= D1)")
    moved = ["((D1 < D0) ? P.oneid : P.zeroid)", "((D0 <= D1) ? P.zeroid : P.oneid)"]
    req = [
        [z % (obj, "means", "(2*this.ncol)"), z % (obj, "means", "2*this.ncol")],
        z % (obj, "num_members_v", "2"),
        [": fill base=this.nchanged.data lo=0 hi=size(this.nchanged.data) val=this.nchanged.emptyval", ": fill base=this.nchanged.data lo=0 hi=size(this.nchanged.data) val=0"],
        ["for q0<this.nprocrows if !(%s == %s) && %s : this.nchanged.data[%s] += 1" % (mv, CA, W, PID) for mv in moved],
        ["for q0<this.nprocrows for q1<this.ncol if %s : LP.means[((D1 < D0)*this.ncol + q1)] += this.local_data[(q0*this.ncol + q1)]" % W,
         ("for q0<this.nprocrows for q1<this.ncol if %s && (D1 < D0) : LP.means[(q1 + this.ncol)] += this.local_data[(q0*this.ncol + q1)]" % W,
          "for q0<this.nprocrows for q1<this.ncol if %s && (D0 <= D1) : LP.means[q1] += this.local_data[(q0*this.ncol + q1)]" % W)],
        [row % W + "LP.num_members_v[(D1 < D0)] += 1", (A1 + "LP.num_members_v[1] += 1", A0 + "LP.num_members_v[0] += 1")],
        [(A1 + CA + " = P.oneid", A0 + CA + " = P.zeroid")] + [row % W + CA + " = " + mv for mv in moved],
    ]
    new = lambda l, e: l.startswith("for q0<nkeys(this.g_hcltrs)") and ("base=new<" in l or ": new<" in l) or l in mine or l.startswith(": fill base=this.local_hcltrs.data ")
    s.check(key, "a row's half", req, fields=("data", "means", "num_members_v", "cluster_assignments"), allowed=(new,), seq=[(0, 4), (1, 5), (2, 3)],
            msg="every row of a partition that is being refined goes to the nearer of the partition's two centres and is counted there, and no other row moves", where=fm.worker)
    reset = [l for l in s.lines() if l.startswith(": fill base=this.local_hcltrs.data ") and "lo=0 hi=size(this.local_hcltrs.data) val=this.local_hcltrs.emptyval" in l]
    c.check(bool(reset), "old sums dropped", key + ":drop", fm.worker, "the sums of the previous pass are not dropped before the next: a partition that is no longer refined would be added again")


def driver(c, fm):
    t = c.model.drive(fm, "run")
    s = Sum(c, t, sub_=inner(t, "H_EM"))
    s.listed(Sum(c, t, sub_=inner(t, "H_EM"), locals_=True))
    key = "C24:%s:pass" % fm.name
    s.macro("(this.nthreads + this.nthreads)", "this.nthreads")
    s.rx(r"this\.hcltrs\.data\[key\(this\.hcltrs, q0\)\]", "H")
    s.rx(r"this\.hcltrs\.data\[key\(this\.threads\[q0\]\.local_hcltrs, q1\)\]", "HT")
    s.rx(r"this\.threads\[q0\]\.local_hcltrs\.data\[key\(this\.threads\[q0\]\.local_hcltrs, q1\)\]", "LT")
    s.rx(r"mu\(#, H\.converged\)", "H.converged")
    s.rx(r"H\.(complete_v\[[01]\]|num_members_v\[[01]\]|converged)'+", r"H.\1")
    s.rx(r"this\.nchanged\.data\[key\(this\.hcltrs, q0\)\]'*", "CHANGED")
    cv = any("!H.complete_v" in l for l in s.lines())
    for i in (0, 1):
        s.rx(r" && !H\.complete_v\[%d\]" % i, "")
        s.rx(r" && (\(1 < H\.num_members_v\[%d\]\)|!\(0 == H\.num_members_v\[%d\]\)|\(0 < H\.num_members_v\[%d\]\))" % (i, i, i), "")
    # every half of h_clusters is this.ncol wide, and there are two of them
    s.rx(r"\bHT?\.ncol\b", "this.ncol")
    s.rx(r"q2<(HT|LT)\.nclust", "q2<2")
    s.rx(r"q2<(size\((HT|LT)\.means\)|\(?2\*this\.ncol\)?)", "q2<MEANS")
    s.rx(r"hi=(size\(H\.means\)|\(?2\*this\.ncol\)?|\(?H\.nclust\*this\.ncol\)?)", "hi=MEANS")
    s.rx(r"hi=(size\(H\.(num_members_v|complete_v)\)|H\.nclust)", "hi=2")
    T = "for q0<this.nthreads for q1<nkeys(this.threads[q0].local_hcltrs) for q2<%s : HT.%s[q2] += LT.%s[q2]"
    Z = "for q0<nkeys(this.hcltrs) if !H.converged : fill base=H.%s lo=0 hi=%s val=0"
    C = "for q0<nkeys(this.hcltrs) : this.cluster_assignment_counts[%s] = %s"
    G = "for q0<nkeys(this.hcltrs) %sif !H.converged%s : "
    # in terms of what the workers counted
    n01 = "(H.num_members_v[0] + H.num_members_v[1])"
    ratio = ["(1/(%s)*CHANGED <= this.tolerance)" % n01, "(CHANGED/%s <= this.tolerance)" % n01, "(CHANGED <= %s*this.tolerance)" % n01, "(CHANGED <= this.tolerance*%s)" % n01]
    conv = ["(%s || %s)" % (a, b) for r in ratio for z in ("(0 == CHANGED)", "(CHANGED == 0)") for a, b in ((z, r), (r, z))]
    req = [
        [": fill base=this.nchanged.data lo=0 hi=size(this.nchanged.data) val=this.nchanged.emptyval", ": fill base=this.nchanged.data lo=0 hi=size(this.nchanged.data) val=0"],
        Z % ("means", "MEANS"), Z % ("num_members_v", "2"),
        ["for q0<this.nthreads for q1<size(this.threads[q0].nchanged.data) : this.nchanged.data[q1] += this.threads[q0].nchanged.data[q1]",
         "for q0<this.nthreads for q1<size(this.nchanged.data) : this.nchanged.data[q1] += this.threads[q0].nchanged.data[q1]"],
        T % ("MEANS", "means", "means"), T % ("2", "num_members_v", "num_members_v"),
        C % ("key(this.hcltrs, q0)", "0"), C % ("H.zeroid", "H.num_members_v[0]"), C % ("H.oneid", "H.num_members_v[1]"),
        [(G % ("for q1<this.ncol ", "") + "H.means[q1] /= H.num_members_v[0]", G % ("for q1<this.ncol ", "") + "H.means[(q1 + this.ncol)] /= H.num_members_v[1]"),
         G % ("for q1<2 for q2<this.ncol ", "") + "H.means[(q1*this.ncol + q2)] /= H.num_members_v[q1]"],
        [G % ("", " && " + x) + "H.converged = 1" for x in conv] + [G % ("", " && " + x) + "H.converged = 1" for x in [y[1:-1] for y in conv]],
    ]
    if cv:
        req.append(Z % ("complete_v", "2"))
    s.check(key, "sums of a pass", req, fields=("data", "means", "num_members_v", "cluster_assignment_counts", "converged"),
            seq=[(0, 3), (1, 4, 9), (2, 5, 7), (5, 8), (5, 9), (3, 10), (5, 10)],
            msg="after a pass the two centres and sizes of a partition are the means and numbers of the rows all workers sent there, and it is finished exactly when no more than the tolerated share of its rows moved", where=fm.coord)
    # merged only after every worker is done
    pos = [i for i, (l, e) in enumerate(s.items) if ".state = H_EM" in l]
    m = [i for i, (l, e) in enumerate(s.items) if l == T % ("MEANS", "means", "means")]
    z = [i for i, (l, e) in enumerate(s.items) if l == Z % ("means", "MEANS")]
    if pos and m and z:
        c.check(max(pos) < min(m), "merged after the pass", key + ":after", fm.coord, "the workers' sums are merged before the pass is run")
        c.check(max(pos) < min(z), "cleared after the pass", key + ":clear", fm.coord, "the centres are cleared before the pass that compares rows with them is run")


def wiring(c, fm):
    s = Sum(c, c.model.drive(fm, "build_thread_state"))
    w = "new<%s>" % fm.worker
    s.macro("(this.nthreads + this.nthreads)", "this.nthreads")
    s.rx(r"this\.threads\[(\(?q0( \+ this\.nthreads)?\)?|\(this\.nthreads \+ q0\))\]", "W")
    s.rx(re.escape(w), "W")
    q = "for q0<this.nthreads : W."
    s.check("C24:%s:wiring" % fm.name, "worker wiring", [[q + "part_id = this.part_id", q + "part_id = this.part_id[0]"],
            [q + "cluster_assignments = this.cluster_assignments", q + "cluster_assignments = this.cluster_assignments[0]"], q + "cltr_active_vec = this.cltr_active_vec"],
            msg="every worker works on the driver's assignments, partition numbers and active clusters")


def table(c):
    """the class of the partition tables behaves like its stand-in: a table from ids to values, walked by its keys"""
    n = 0
    for f in c.model.db.fn.values():
        cls = f.get("cls") or ""
        if not re.match(r"^knor::base::vmap(_iterator)?<", cls) or f.get("body") is None:
            continue
        t = c.model.tree(f, cls)
        c.seen(t)
        nm = short(f["q"])
        s = Sum(c, t, locals_=True)
        ret = cshow(t[2]) if t[2] is not None else None
        ef = [(l, e) for l, e in s.items if e.kind in ("store", "fill", "push", "resize", "copy", "assign") and not l.split(" : ", 1)[-1].startswith("$") and not l.split(": ", 1)[-1].startswith("$")]
        at = "%s (%s)" % (f.get("l", ""), f["q"])
        key = "C24:table:%s" % nm
        R = "table of partitions"

        def bad(msg):
            c.bad(key, at, "%s: %s" % (nm, msg), R)
        n += 1
        if "_iterator<" not in cls:
            lines = [l for l, _ in ef]
            if nm == "erase":
                ok = lines == [": this.data[idx] = this.emptyval"]
            elif nm == "clear":
                ok = lines == [": fill base=this.data lo=0 hi=size(this.data) val=this.emptyval"]
            elif nm == "set_capacity":
                ok = lines == [": fill base=this.data lo=0 hi=capacity val=this.emptyval"]
            elif nm in ("operator[]", "at"):
                ok = ret == "this.data[idx]" and all("resize" in l and "size(this.data)" in l and "<= idx" in l for l in lines)
            elif nm == "size":
                ok = ret == "size(this.data)" and not lines
            elif nm == "get_keys":
                ok = any(re.match(r"^for q0<size\(this\.data\) if !\(this\.data\[q0\] == this\.emptyval\) : push obj=ids val=q0$", l) for l in lines) and len([l for l in lines if "push" in l]) == 1
            elif nm == "has_key":
                ok = "!(this.data[idx] == this.emptyval)" in (ret or "") and not lines
            else:
                continue
            c.check(ok, R, key, at, "%s does not do what a table from ids to values does: %s returns %s" % (nm, [l[:120] for l in lines], ret))
            continue
        for l, e in ef:
            if e.kind != "store" or fieldname(e.lv) != "offset":
                continue
            step = e.op == "+=" and cshow(e.rhs) == "1" or e.op in ("=", "==") and re.match(r"^\(1 \+ (\w+\.)?offset\)$", cshow(e.rhs) or "")
            if e.op in ("=", "==") and (cshow(e.rhs) == "0" or ".offset" in cshow(e.rhs)) and not step:
                continue
            if not step:
                bad("the position moves by %s" % l[:160])
            elif nm == "next":
                if e.guards or e.loops:
                    bad("moves on under a condition: %s" % l[:160])
            elif not any(cshow(g).startswith("(") and ".data[" in cshow(g) and "== " in cshow(g) and ".emptyval" in cshow(g) for g in e.guards):
                bad("moves past an entry that is not empty: %s" % l[:160])
            c.ok(R)
        if nm == "has_next" and "offset" not in (ret or "offset"):
            bad("does not depend on the position")
    if n < 10:
        raise AnalysisBroken("the table of partitions is not analysed")


def c24(c):
    table(c)
    sc = Sub(c, modelof(c))
    for fm in fams(sc, *FAMS):
        worker(sc, fm)
        driver(sc, fm)
        wiring(sc, fm)
