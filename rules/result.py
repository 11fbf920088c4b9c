"""What a clustering run hands back to its caller."""
from kmeans import *
from iters import evalt, Unknown, MAXIT

RES = ("assignments", "assignment_count", "centroids", "nrow", "ncol", "k")


def ressum(c, t):
    """effects on the returned (or filled-in) result object, without how the return is reached; the object is called RES"""
    s = Sum(c, t, locals_=True, want=lambda n, tg: rootof(tg).op in ("tmp", "L", "new") and fieldname(tg) in RES)
    roots = {}
    for l, e in s.items:
        t_ = e.n.get("lv") or e.n.get("base") or e.n.get("dst") or e.n.get("obj")
        r = rootof(t_)
        roots.setdefault(r, set()).add(fieldname(t_))
    rs = [r for r, fs in roots.items() if {"assignments", "centroids"} <= fs]
    if not rs:
        raise AnalysisBroken("no result object is built")
    return s, rs


def content(f, src, n, val=None):
    """the ways to give a vector its content"""
    return [": copy dst=RES.%s[0] src=%s[0] n=%s" % (f, src, n), ": assign dst=RES.%s src=%s" % (f, src)] + elementwise(f, src, n)


def elementwise(f, src, n):
    return ["for q0<%s : RES.%s[q0] = %s[q0]%s" % (n, f, src, x) for x in ("", "'")]


def flat(c, t, key, want, where=""):
    s, rs = ressum(c, t)
    for r in rs:
        nm = cshow(r)
        items = [(l.replace(nm + ".", "RES."), e) for l, e in s.items if contains(e.n.get("lv") or e.n.get("base") or e.n.get("dst") or e.n.get("obj"), r)]
        if len(rs) > 1:
            print("MANY", key, [cshow(x) for x in rs])
        es = [e for _, e in items]
        com = [g for g in es[0].guards if all(g in e.guards for e in es)]
        x = Sum.__new__(Sum)
        x.c, x.nf, x.tree, x.macros = c, s.nf, t, []
        for e in es:
            e.guards = [g for g in e.guards if g not in com]
        x.items = [(s.nf.text(e).replace(nm + ".", "RES."), e) for e in es]
        ok = lambda l, e: e.kind == "fill" and l.startswith(": fill base=RES.")
        x.check(key, "complete result", want, fields=RES, allowed=[ok], where=where,
                msg="the result has the data's rows and columns, every assignment, every cluster size and every centre")


def after(t, L):
    """nodes reached after the loop"""
    seen, out = False, set()
    for n, anc in allnodes(t[0]):
        if n is L:
            seen = True
        elif seen and L not in anc:
            out.add(id(n))
    return out


KEPT = ("cluster_assignments", "cluster_assignment_counts", "means", "mat", "num_members_v", "centers", "cltrs")


def count_lines(n):
    """sizes counted from the assignments"""
    return [[": fill base=this.cluster_assignment_counts lo=0 hi=this.k val=0", ": fill base=this.cluster_assignment_counts lo=0 hi=size(this.cluster_assignment_counts) val=0"],
            ["for q0<%s : this.cluster_assignment_counts[this.cluster_assignments[q0]'] += 1" % x for x in n]]


def tail(c, fm, t, L, key, want, seq=(), allowed=()):
    """nothing but the wanted effects on what the result is made of, once the last pass is over"""
    ids = after(t, L)
    s = Sum(c, t)
    s.items = [(l, e) for l, e in s.items if id(e.n) in ids and rootof(e.n.get("lv") or e.n.get("base") or e.n.get("dst") or e.n.get("obj")) is THIS
               and not any(l.split(" : ")[-1].startswith(x) for x in ("this.threads[", "fill base=this.threads["))]
    s.nocommon()
    s.rx(r"\$\w+\[q0\] < this.um", "$V[q0] < this.um")
    s.check(key, "result not altered after the last pass", want, fields=KEPT, seq=seq, allowed=allowed,
            msg="between the last pass and the return only the reported sizes (and, for fuzzy clustering and mini-batches, the final assignment) are computed")


def assume(p, facts, M):
    """p with the limit M, given the other facts"""
    mp = {x: c(M) for f in facts for x in walk(f) if x.op == "ld" and x.a[0] is MAXIT or x is MAXIT}
    fs = [subst(f, mp) for f in facts if f is not p]
    known = {}
    for f in fs:
        for y in (f.a if f.op == "&" else (f,)):
            if y.op != "c":
                known[y] = TRUE
                if terms.isbool(y):
                    known[not_(y)] = FALSE
    q = subst(p, mp)
    return subst(q, {k: v for k, v in known.items() if k is not q})


def once(c, t, L, key):
    """sizes added up after the loop start from zero: they are cleared first, or no pass has been made"""
    x = after(t, L)
    clear = False
    for n, a in allnodes(t[0]):
        if id(n) not in x or fieldname(n.get("lv") or n.get("base")) != "cluster_assignment_counts":
            continue
        if n.kind == "fill" and n.val is FALSE:
            clear = True
        elif n.kind == "store" and not clear:
            parts = []
            for p in n.pc:
                parts += list(p.a) if p.op == "&" else [p]
            ok = False
            for p in parts:
                try:
                    if not any(evalt(assume(p, parts, M), L, v, M, {MAXIT}, f) for M in (1, 2, 3, 7) for v in range(M + 1) for f in (FALSE, TRUE)):
                        ok = True
                        break
                except Unknown:
                    pass
            c.check(ok, "sizes counted once", key, loc(n), "the sizes are added up a second time, on top of those of the passes made")


def c21(c):
    for fm in fams(c, "kmeans", "skmeans", "kmeans_task", "medoid", "fcm", "dist", "dist_task"):
        for meth in ("run",) + (("mb_run",) if fm.name == "kmeans_task" else ()):
            t = c.model.drive(fm, meth)
            k = "C21:%s:%s" % (fm.name, meth)
            d = fm.name.startswith("dist")
            n = "this.g_nrow" if d else "this.nrow"
            flat(c, t, k, [": RES.nrow = %s" % n, ": RES.ncol = this.ncol", ": RES.k = this.k",
                           content("assignments", "$assignments" if d else "this.cluster_assignments", n),
                           content("assignment_count", "this.cltrs.num_members_v" if d else "this.cluster_assignment_counts", "this.k"),
                           content("centroids", "this.centers.mat" if fm.name == "fcm" else "this.cltrs.means", "this.k*this.ncol")])
            st = "MB_EM" if meth == "mb_run" else "E" if fm.name == "fcm" else "EM"
            L = loop_of(t, st)
            if L is None:
                raise AnalysisBroken("%s::%s: iteration loop not found" % (fm.name, meth))
            if fm.name == "fcm":
                x = after(t, L)
                s = Sum(c, t, locals_=True)
                s.items = [(l, e) for l, e in s.items if id(e.n) in x]
                s.nocommon()
                s.rx(r"\$\w+\[q0\] < this.um", "$V[q0] < this.um")
                s.rx(r": \$\w+\[q0\] = this.um", ": $V[q0] = this.um")
                s.rx(r"^: fill base=\$\w+ lo=0 hi=this.um.ncol val=(min\(\)|-1\*max\(\)|lowest\(\)|-1|0)$", ": fill base=$V lo=0")
                am = "for q0<this.um.ncol : this.cluster_assignments[q0] = argmax(this.um.nrow, j1, this.um.mat[(j1*this.um.ncol + q0)]', j1)"
                s.check(k + ":argmax", "largest membership", [[tuple(FCM_ARGMAX[0][:1]) + ("for q0<this.um.ncol for q1<this.um.nrow " + _g + ": $V[q0] = this.um.mat[(q0 + q1*this.um.ncol)]'", ": fill base=$V lo=0"), am]],
                        msg="each row is reported in the cluster of its largest membership")
                tail(c, fm, t, L, k + ":tail", FCM_ARGMAX + count_lines(("this.um.ncol", "this.nrow", "size(this.cluster_assignments)")), seq=[(0, 2), (1, 2)])
            elif meth == "mb_run":
                tail(c, fm, t, L, k + ":tail", count_lines(("this.nrow", "size(this.cluster_assignments)")), seq=[(0, 1)])
            elif fm.name == "kmeans_task":
                once(c, t, L, k + ":once")
                tail(c, fm, t, L, k + ":tail", [count_lines(("this.nrow", "size(this.cluster_assignments)"))[1]], allowed=count_lines(("this.nrow",))[0])
            else:
                tail(c, fm, t, L, k + ":tail", [])
            if fm.name == "medoid":
                s = Sum(c, t, sub_=L)
                s.items = s.of("cluster_assignment_counts")
                s.nocommon()
                s.check(k + ":sizes", "sizes of the last pass",
                        [[": fill base=this.cluster_assignment_counts lo=0 hi=%s val=0" % x for x in ("size(this.cluster_assignment_counts)", "this.k")],
                         ["for q0<%s for q1<%s : this.cluster_assignment_counts[%s] += this.threads[%s].local_clusters.num_members_v[%s]" % x for x in
                          (("this.nthreads", "this.k", "q1", "q0", "q1"), ("this.k", "this.nthreads", "q0", "q1", "q0"))]],
                        fields=("cluster_assignment_counts",), seq=[(0, 1)], msg="the reported size of a cluster is its number of members after the pass")
            if meth == "run" and fm.name in ("kmeans", "skmeans", "kmeans_task"):
                s = Sum(c, t, sub_=L)
                s.check(k + ":sizes", "sizes of the last pass", [COUNTS], fields=("cluster_assignment_counts",), msg="the reported size of a cluster is its number of members after the pass")
    for nm, t, L, base in autos(c):
        flat(c, t, "C21:%s" % nm, [": RES.nrow = num_rows", ": RES.ncol = num_cols", ": RES.k = k",
                                   ptr("assignments", "cluster_assignments", "num_rows"), ptr("assignment_count", "cluster_assignment_counts", "k"),
                                   [": assign dst=RES.centroids src=%s.means" % x for x in ("new<knor::base::clusters>", "new<knor::base::prune_clusters>")] +
                                   [": copy dst=RES.centroids[0] src=%s.means[0] n=k*num_cols" % x for x in ("new<knor::base::clusters>", "new<knor::base::prune_clusters>")]])


def ptr(f, src, n):
    return [": copy dst=RES.%s[0] src=%s n=%s" % (f, src, n), ": copy dst=RES.%s[0] src=%s[0] n=%s" % (f, src, n)] + elementwise(f, src, n)


_g = "if ($V[q0] < this.um.mat[(q0 + q1*this.um.ncol)]') "
FCM_ARGMAX = [["for q0<this.um.ncol for q1<this.um.nrow " + _g + ": this.cluster_assignments[q0] = q1",
               "for q0<this.um.ncol : this.cluster_assignments[q0] = argmax(this.um.nrow, j1, this.um.mat[(j1*this.um.ncol + q0)]', j1)"],
              [": fill base=this.cluster_assignments lo=0 hi=this.um.ncol val=0"]]
