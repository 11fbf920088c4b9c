"""C30: which row becomes the medoid of a cluster."""
from spec import *
from kmeans import *
from canon import cshow
import seed
import re

INF = ("max()", "infinity()", "HUGE_VAL", "inf")
RID = "(q0 + this.start_rid)"
CID = "this.cluster_assignments[%s]" % RID


def worker(c, fm):
    s = wsum(c, fm, "MEDOID", hook=lambda r: seed.rowdata(r, "this.coord."))
    MB = "this.coord.membership[%s]" % CID
    for x in INF[1:]:
        s.rx(r"val=%s$" % re.escape(x), "val=max()")
    d = "dist(this.dist_metric, %s, this.ncol)" % ", ".join(sorted(["rowdata(%s[j1])" % MB, "this.local_data[q0*this.ncol]"]))
    for e in ("sum(size(%s), j1, ((%s == %s[j1]) ? 0 : %s))" % (MB, RID, MB, d), "sum(size(%s), j1, %s)" % (MB, d),
              "sum(size(%s), j1, %s*!(%s == %s[j1]))" % (MB, d, RID, MB)):
        s.macro(e, "COST")
    s.macro(CID, "CID")
    n = "this.g_clusters.nclust"
    pick = "for q0<this.nprocrows if (COST < this.candidate_medoid_energy[CID]) && (rand <= this.sample_rate) : "
    s.rx(r"if \(rand <= this.sample_rate\) && \(COST < this.candidate_medoid_energy\[CID\]\)", "if (COST < this.candidate_medoid_energy[CID]) && (rand <= this.sample_rate)")
    s.check("C30:worker", "cheapest member of a cluster",
            [[": fill base=this.candidate_medoid_energy lo=0 hi=%s val=max()" % n, "for q0<%s : this.candidate_medoid_energy[q0] = max()" % n],
             pick + "this.candidate_medoid_energy[CID] = COST", pick + "this.candidate_medoids[CID] = " + RID],
            fields=("candidate_medoid_energy",), seq=[(0, 1)],
            msg="of the rows it samples, a worker offers for each cluster the member with the smallest sum of distances to all members")
    for l, e in s.items:
        if target(e) == "candidate_medoids" and not l.startswith(pick):
            ok = e.kind == "fill" or e.kind == "store" and len(e.loops) == 1 and cshow(e.loops[0][1]) == n
            c.check(ok and not e.guards, "cheapest member of a cluster", "C30:worker:other", loc(e.n), "a cluster's candidate is set to something else than a sampled member: %r" % l[:250])


def driver(c, fm):
    s = dsum(c, fm, "run", "MEDOID", locals_=True, hook=seed.rowdata)
    for x in INF[1:]:
        s.rx(r"val=%s$" % re.escape(x), "val=max()")
    L = loop_of(c.model.drive(fm, "run"), "MEDOID")
    # the best offer of all workers
    pat = re.compile(r"^for q0<this\.k for q1<this\.nthreads if \(this\.threads\[q1\]\.candidate_medoid_energy\[q0\] < (\$\w+)\[q0\]\) : \1\[q0\] = this\.threads\[q1\]\.candidate_medoid_energy\[q0\]$")
    best = [m for m in (pat.match(l) for l in s.lines()) if m]
    if not best:
        # a cluster at a time, with a scalar for the best
        whole = [l for l in s.lines() if "candidate_medoid_energy" in l]
        m = re.search(r"minval\(this\.nthreads, j1, this\.threads\[j1\]\.candidate_medoid_energy\[q0\](, max\(\)|, this\.medoid_energy\[q0\])?\)", " ".join(whole))
        if m is None:
            c.bad("C30:best", loc(L), "the best offer of a cluster must be the smallest cost offered by any worker; found %r" % [l[:200] for l in whole], "best offer")
            return
        E = m.group(0)
        am = re.search(r"argmin\(this\.nthreads, j1, this\.threads\[j1\]\.candidate_medoid_energy\[q0\], this\.threads\[j1\]\.candidate_medoids\[q0\](, [^()]*(\(\))?(, [^()]*(\(\))?)?)?\)", " ".join(whole))
        M = am.group(0) if am else "?"
        s.macro(M, "MED")
        s.macro(E, "BEST")
    else:
        E = best[0].group(1)
        s.rx(re.escape(E) + r"\[q0\]'", "BEST")
        who = re.compile(r"^for q0<this\.k for q1<this\.nthreads if \(this\.threads\[q1\]\.candidate_medoid_energy\[q0\] < %s\[q0\]\) : (\$\w+)\[q0\] = this\.threads\[q1\]\.candidate_medoids\[q0\]$" % re.escape(E))
        ms = [m for m in (who.match(l) for l in s.lines()) if m]
        M = ms[0].group(1) if ms else "$?"
        s.rx(re.escape(M) + r"\[q0\]'", "MED")
        q = "for q0<this.k for q1<this.nthreads if (this.threads[q1].candidate_medoid_energy[q0] < %s[q0]) : " % E
        s.check("C30:best", "best offer", [[": fill base=%s lo=0 hi=%s val=max()" % (E, h) for h in ("this.k", "size(%s)" % E)],
                                           q + "%s[q0] = this.threads[q1].candidate_medoid_energy[q0]" % E, q + "%s[q0] = this.threads[q1].candidate_medoids[q0]" % M],
                seq=[(0, 1)], msg="the best offer for a cluster is the smallest cost offered by any worker, with its row")
        for l, e in s.items:
            b = l.split(": ", 1)[-1]
            if b.startswith((E + "[", M + "[")) and not l.startswith(q):
                c.bad("C30:best:other", loc(e.n), "the best offer is changed afterwards: %r" % l[:250], "best offer")
    g = "(BEST < this.medoid_energy[q0])"
    q = "for q0<this.k if %s : " % g
    s.rx(r"this\.cltrs\.means\[(q0\*this\.ncol|this\.ncol\*q0)\]", "this.cltrs.means[q0*this.ncol]")
    one = [tuple("for q0<this.k if %s : copy dst=this.cltrs.means[q0*this.ncol] src=%s n=this.ncol" % (gg, r) for gg, r in
                 ((" && ".join(sorted([g, "(allocd_data == null)"])), "rowdata(MED)"), (" && ".join(sorted([g, "!(allocd_data == null)"])), "allocd_data[MED*this.ncol]"))),
           q + "copy dst=this.cltrs.means[q0*this.ncol] src=rowdata(MED) n=this.ncol",
           q + "copy dst=this.cltrs.means[q0*this.ncol] src=((allocd_data == null) ? rowdata(MED) : allocd_data[MED*this.ncol]) n=this.ncol",
           q + "copy dst=this.cltrs.means[q0*this.ncol] src=(!(allocd_data == null) ? allocd_data[MED*this.ncol] : rowdata(MED)) n=this.ncol"]
    # guards in one order
    s.items = [(guardsort(l), e) for l, e in s.items]
    s.check("C30:replace", "replaced medoid", [q + "this.cltrs.num_members_v[q0] = MED", one],
            msg="a cluster's medoid becomes the best offered row exactly when that is cheaper than the present medoid")
    # the flag that another assignment is due
    ch = "fold(this.k, j0, this.medoids_changed, (%s ? 1 : acc0_0))" % g.replace("q0", "j0").replace("BEST", E + "[j0]'")
    for l, e in s.items:
        f = target(e)
        if e.kind in ("store", "copy", "fill") and f in ("means", "num_members_v") and "this.cltrs" in l and not l.startswith("for q0<this.k if "):
            c.bad("C30:replace:extra", loc(e.n), "a medoid is replaced on other grounds: %r" % l[:250], "replaced medoid")
        if f in ("means", "num_members_v") and "this.cltrs" in l and l.startswith("for q0<this.k if ") and g not in l:
            c.bad("C30:replace:extra", loc(e.n), "a medoid is replaced on other grounds: %r" % l[:250], "replaced medoid")
    # costs and members after the next assignment
    i = [k for k, l in enumerate(s.lines()) if l.endswith(".state = EM")]
    c.check(len(i) == 1, "reassignment", "C30:assign", loc(L), "a pass assigns the rows to the medoids %d times" % len(i))
    if len(i) != 1:
        return
    t = Sum.__new__(Sum)
    t.__dict__.update(s.__dict__)
    t.items = [(strip(l), e) for l, e in s.items]
    t.check("C30:cost", "cost of the present medoid",
            [[": fill base=this.medoid_energy lo=0 hi=size(this.medoid_energy) val=0", ": fill base=this.medoid_energy lo=0 hi=this.k val=0", "for q0<this.k : this.medoid_energy[q0] = 0"],
             "for q0<this.k for q1<this.nthreads : this.medoid_energy[q0] += this.threads[q1].local_medoid_energy[q0]"],
            seq=[(0, 1)], msg="the cost of a medoid is the sum of what all workers measured in the last assignment")
    t.check("C30:members", "members of a cluster",
            [["for q0<size(this.membership) : clear obj=this.membership[q0]", "for q0<this.k : clear obj=this.membership[q0]"],
             ["for q0<this.k for q1<this.nrow if (q0 == this.cluster_assignments[q1]) : push obj=this.membership[q0] val=q1",
              "for q0<this.nrow : push obj=this.membership[this.cluster_assignments[q0]] val=q0"]],
            seq=[(0, 1)], msg="the members of a cluster are all rows assigned to it, and only these")


def guardsort(l):
    m = re.match(r"^((?:for q\d<.*? )*)if (.*) : (.*)$", l)
    if not m or "fold(" in m.group(2):
        return l
    return "%sif %s : %s" % (m.group(1), " && ".join(sorted(m.group(2).split(" && "))), m.group(3))


def strip(l):
    """without the guards that say whether a further assignment is made at all (when that is, is for C11)"""
    m = re.match(r"^((?:for q\d<\S+ )*)if (.*) : (.*)$", l)
    if not m:
        return l
    g, depth, cur = [], 0, ""
    for part in m.group(2).split(" && "):
        cur = cur + " && " + part if cur else part
        if cur.count("(") == cur.count(")"):
            g.append(cur)
            cur = ""
    if cur:
        g.append(cur)
    g = [x for x in g if "this.medoids_changed" not in x]
    return "%s%s: %s" % (m.group(1), "if %s " % " && ".join(g) if g else "", m.group(3))


def c30(c):
    for fm in fams(c, "medoid"):
        worker(c, fm)
        driver(c, fm)
        # what the workers measure is the distance to the medoid of the row's new cluster
        s = wsum(c, fm, "EM")
        r = rid("thread")
        s.assigned("cluster_assignments")
        n = "this.g_clusters.nclust"
        cost = ["minval(%s, j1, %s)" % (n, D("q0", "j1"))]
        s.check("C30:measure", "cost of the present medoid",
                [[": fill base=this.local_medoid_energy lo=0 hi=%s val=0" % n, "for q0<%s : this.local_medoid_energy[q0] = 0" % n],
                 ["for q0<this.nprocrows : this.local_medoid_energy[%s] += %s" % (a, x) for x in cost for a in ("A(q0)", "this.cluster_assignments[%s]'" % r)]],
                fields=("local_medoid_energy",), seq=[(0, 1)], msg="every row adds its distance to its medoid to its cluster's cost")
        w = "new<%s>" % fm.worker
        q = "for q0<this.nthreads : "
        s = Sum(c, c.model.drive(fm, "build_thread_state"))
        s.check("C30:wiring", "worker wiring", [q + w + ".dist_metric = this._dist_t", q + w + ".g_clusters = this.cltrs", q + w + ".sample_rate = this.sample_rate"],
                fields=(), msg="every worker is built with the driver's distance, medoids and sampling rate")
