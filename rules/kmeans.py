"""What the clustering iterations compute: assignment, centroid update, convergence, pruning, seeding."""
from spec import *
from canon import cshow
import re

ROW = {"thread": ("this.nprocrows", "this.local_data[%s*this.ncol]", "this.start_rid"),
       "task": ("this.curr_task.nrow", "this.curr_task.data[%s*this.ncol]", "this.curr_task.start_rid")}


def D(x, cl, kind="thread"):
    """distance of the row counted by x to the centre cl"""
    row = ROW[kind][1] % x
    a, b = sorted([row, "this.g_clusters.means[%s*this.ncol]" % cl])
    return "dist(this.dist_metric, %s, %s, this.ncol)" % (a, b)


def near(x, kind="thread", seed=""):
    return "argmin(this.g_clusters.nclust, j1, %s, j1%s)" % (D(x, "j1", kind), seed)


def rid(kind, q="q0"):
    return "(%s + %s)" % (q, ROW[kind][2])


def wsum(c, fm, ph, **k):
    return Sum(c, c.model.work(fm, ph), **k)


def dsum(c, fm, meth="run", state=None, **k):
    t = c.model.drive(fm, meth)
    L = loop_of(t, state) if state else None
    if state and L is None:
        raise AnalysisBroken("%s::%s has no loop dispatching %s" % (fm.name, meth, state))
    return Sum(c, t, sub_=L, **k)


# fuzzy c-means: the sizes its matrices are built with
DDIM = {"this.um.nrow": "this.k", "this.um.ncol": "this.nrow", "this.centers.nrow": "this.k", "this.centers.ncol": "this.ncol",
        "this.prev_centers.nrow": "this.k", "this.prev_centers.ncol": "this.ncol"}


def ipdim(r):
    s = cshow(r)
    m = re.match(r"^this\.threads\[[^\]]*\]\.innerprod\.(nrow|ncol)$", s)
    if m:
        return path("this.k" if m.group(1) == "nrow" else "this.ncol")
    m = re.match(r"^size\(this\.threads\[[^\]]*\]\.innerprod\.mat\)$", s)
    if m:
        return mul(mk("ld", path("this.k")), mk("ld", path("this.ncol")))
    m = re.match(r"^size\(this\.(um|centers)\.mat\)$", s)
    if m:
        return mul(mk("ld", path("this.k")), mk("ld", path("this.nrow" if m.group(1) == "um" else "this.ncol")))
    return None


def fams(c, *names):
    out = []
    for f in c.model.fams:
        if f.name in names:
            out.append(f)
    missing = set(names) - {f.name for f in out}
    if missing:
        raise AnalysisBroken("drivers not found: %s" % sorted(missing))
    return out


# ------------------------------------------------------------------ the OpenMP drivers
def autos(c):
    """the OpenMP drivers: (name, tree, loop, base passes)"""
    out = []
    for nm in ("compute_kmeans", "compute_min_kmeans"):
        fs = [f for f in c.model.db.fn.values() if f.get("body") is not None and short(f["q"]) == nm]
        if len(fs) != 1:
            raise AnalysisBroken("%s not found" % nm)
        t = c.model.tree(fs[0])
        c.seen(t)
        cnt = [(n, a) for n, a in allnodes(t[0]) if n.kind == "store" and rootof(n.lv).op == "sym" and cshow(rootof(n.lv)) == "cluster_assignment_counts"]
        Ls, base = [], 0
        for n, a in cnt:
            ls = [x for x in a if x.kind == "loop"]
            if len(ls) >= 2 and ls[0] not in Ls:
                Ls.append(ls[0])
            elif len(ls) < 2:
                base += 1
        if len(Ls) != 1:
            raise AnalysisBroken("%s: iteration loop not found" % nm)
        out.append((nm, t, Ls[0], base))
    return out


def autosum(c, t, L, **k):
    """summary of the iteration loop L, or of the whole function, with the number of threads called NT"""
    s = Sum(c, t, sub_=L, **k)
    for l, e in Sum(c, t).items:
        if "hardware_concurrency" in l and l.startswith(": ") and " = " in l and e.kind == "store" and rootof(e.n.lv).op not in ("L", "tmp"):
            s.NT = l.split(" = ", 1)[1]
            s.macro(s.NT, "NT")
            return s
    raise AnalysisBroken("number of OpenMP threads not found")


def autonames(s, c, key):
    """local names by role: CL the centres, PT the calling thread's sums, PTQ thread q1's sums"""
    s.rx(r"new<knor::base::prune_clusters>", "CL")
    if not any("CL." in l for l in s.lines()):
        s.rx(r"new<knor::base::clusters>", "CL")
    s.rx(r"\$\w+\[omp_get_thread_num\(\)\]'\.ncol", "num_cols")
    s.rx(r"\$\w+\[omp_get_thread_num\(\)\]'\.", "PT.")
    s.rx(r"\$\w+\[q1\]'\.(means|num_members_v)", r"PTQ.\1")


def mergedist(s):
    """a value that is eucl(..) under 'eucl' == dist_type and cos(..) otherwise, written as one effect"""
    T, F = "('eucl' == dist_type)", "!('eucl' == dist_type)"
    have, out, gone = set(s.lines()), [], set()

    def strip(l, g):
        h, b = cut(l)
        h = (h + " ").replace("if %s && " % g, "if ").replace(" && %s" % g, "").replace("if %s" % g, "").rstrip()
        return h + " : " + b
    for l, e in s.items:
        if l in gone:
            continue
        i = len(cut(l)[0])
        if T in gset(l) and " eucl(" in l[i:]:
            a, b = l[i:].split(" eucl(", 1)
            for o in [x for x in have if F in gset(x) and x.endswith(a + " cos(" + b)]:
                if strip(o, F) == strip(l[:i] + a + " cos(" + b, T):
                    gone.add(o)
                    l = strip(l[:i] + a + " (%s ? eucl(%s : cos(%s)" % (T, b, b), T)
                    break
        out.append((l, e))
    s.items = [(l, e) for l, e in out if l not in gone]


def autoD(row, cl):
    a = ["matrix[%s]" % "*".join(sorted(["num_cols", row])), "CL.means[%s]" % "*".join(sorted([cl, "num_cols"]))]
    return "(('eucl' == dist_type) ? eucl(%s, %s, num_cols) : cos(%s, %s, num_cols))" % (a[0], a[1], a[0], a[1])


# ------------------------------------------------------------------ C08 assignment
def full_scan(s, kind, key, guard, c, also=()):
    """the running-minimum form over stored distances, or an arg-min over them"""
    n, r = ROW[kind][0], rid(kind)
    d = D("q0", "q1", kind)
    g = "if " + " && ".join(sorted(["(%s < this.dist_v[%s])" % (d, r)] + list(guard))) + " "
    q = "for q0<%s for q1<this.g_clusters.nclust " % n
    g1 = ("if " + " && ".join(sorted(guard)) + " ") if guard else ""
    da = D("q0", "j1", kind)
    seed = ", this.dist_v[%s], this.cluster_assignments[%s]" % (r, r)
    alt1 = "%s%s: this.cluster_assignments[%s] = q1" % (q, g, r)
    alt2 = "for q0<%s %s: this.cluster_assignments[%s] = argmin(this.g_clusters.nclust, j1, %s, j1%s)" % (n, g1, r, da, seed)
    alt3 = "for q0<%s %s: this.cluster_assignments[%s] = argmin(this.g_clusters.nclust, j1, %s, j1)" % (n, g1, r, da)
    b1 = "%s%s: this.dist_v[%s] = %s" % (q, g, r, d)
    b2 = "for q0<%s %s: this.dist_v[%s] = minval(this.g_clusters.nclust, j1, %s, this.dist_v[%s])" % (n, g1, r, da, r)
    b3 = "for q0<%s %s: this.dist_v[%s] = minval(this.g_clusters.nclust, j1, %s)" % (n, g1, r, da)
    alts = [(alt1, b1)] + [(x, y) for x in (alt2, alt3) for y in (b2, b3)]
    return alts


def c08(c):
    done = set()
    for fm in fams(c, "kmeans", "skmeans", "medoid", "dist"):
        if fm.worker not in done:
            done.add(fm.worker)
            s = wsum(c, fm, "EM")
            r = rid("thread")
            s.check("C08:%s" % fm.name, "nearest centre", ["for q0<this.nprocrows : this.cluster_assignments[%s] = %s" % (r, near("q0"))],
                    fields=("cluster_assignments",), msg="each row takes the nearest of all centres under the configured distance")
        wiring(c, fm)
    for fm in fams(c, "kmeans_task", "dist_task"):
        if fm.worker not in done:
            done.add(fm.worker)
            s = wsum(c, fm, "EM")
            s.check("C08:%s:first" % fm.name, "nearest centre (first pass)", [full_scan(s, "task", "", ("this.prune_init",), c)],
                    msg="in the first pass each row takes the nearest of all centres")
            s = wsum(c, fm, "MB_EM")
            s.check("C08:%s:mb" % fm.name, "nearest centre (mini-batch)", [full_scan(s, "task", "", ("(rand <= this.mb_perctg)",), c)],
                    fields=("cluster_assignments",), msg="each sampled row takes the nearest of all centres")
        wiring(c, fm)


    for nm, t, L, base in autos(c):
        key = "C08:%s" % nm
        if not base:
            s = autosum(c, t, L)
            autonames(s, c, key)
            s.check(key, "nearest centre (OpenMP)", ["for q0<num_rows : cluster_assignments[q0] = argmin(k, j1, %s, j1)" % autoD("q0", "j1")],
                    msg="each row takes the nearest of all centres under the configured distance")
        else:
            s = autosum(c, t, None, drop=L.pc)
            autonames(s, c, key)
            s.rx(r"(means\[[^\]]*\])'", r"\1")
            s.rx(r"\$\w+\[q1\]\)", "$D[q1])")
            alts = ["for q0<k for q1<num_rows if %s : cluster_assignments[q1] = q0" % " && ".join(sorted(["(%s < $D[q1])" % autoD("q1", "q0"), "(0 < MAX_ITERS)"])),
                    "for q0<num_rows if (0 < MAX_ITERS) : cluster_assignments[q0] = argmin(k, j1, %s, j1)" % autoD("q0", "j1")]
            s.check(key, "nearest centre (OpenMP, first pass)", [alts], msg="in the first pass each row takes the nearest of all centres")


def wiring(c, fm):
    """the worker's metric, centres, assignments and rows are the driver's"""
    s = Sum(c, c.model.drive(fm, "build_thread_state"))
    w = "new<%s>" % fm.worker
    q = "for q0<this.nthreads : "
    s.check("C08:%s:wiring" % fm.name, "worker wiring",
            [q + w + ".dist_metric = this._dist_t", q + w + ".ncol = this.ncol", q + w + ".g_clusters = this.cltrs",
             q + w + ".cluster_assignments = this.cluster_assignments[0]"],
            fields=(), msg="every worker is built with the driver's distance, centres and assignment vector")


# ------------------------------------------------------------------ C09 centroid update
def fills(base, k, extra=()):
    out = []
    for f, hi in (("means", "%s*this.ncol" % k), ("num_members_v", k)):
        out.append(["fill base=%s.%s lo=0 hi=%s val=0" % (base, f, hi)])
    return [[(": " + x)] for g in out for x in g]


def finalize(pre="", q="q0", ok=()):
    """mean = sum / count for every cluster with members; a sum of at most one row is already the mean"""
    out = []
    for g in ("(1 < this.cltrs.num_members_v[q0]')", "(0 < this.cltrs.num_members_v[q0]')", "(2 <= this.cltrs.num_members_v[q0]')",
              "(1 <= this.cltrs.num_members_v[q0]')", "!(0 == this.cltrs.num_members_v[q0]')"):
        for e in ([], ["!this.cltrs.complete_v[q0]"], ["!this.cltrs.complete_v[q0]'"]):
            for op in ("/= this.cltrs.num_members_v[q0]'", "*= 1/(this.cltrs.num_members_v[q0]')"):
                out.append("for q0<this.k for q1<this.ncol if %s : this.cltrs.means[(q0*this.ncol + q1)] %s" % (" && ".join(sorted(e + [g] + list(ok))), op))
    return out


WMEAN = "for q0<this.ncol for q1<this.nprocrows : this.local_clusters.means[(A(q1)*this.ncol + q0)] += this.local_data[(q0 + q1*this.ncol)]"
WCNT = "for q0<this.nprocrows : this.local_clusters.num_members_v[A(q0)] += 1"
DMEAN = "for q0<this.k*this.ncol for q1<this.nthreads : this.cltrs.means[q0] += this.threads[q1].local_clusters.means[q0]"
DCNT = "for q0<this.k for q1<this.nthreads : this.cltrs.num_members_v[q0] += this.threads[q1].local_clusters.num_members_v[q0]"
COUNTS = ["for q0<this.k : this.cluster_assignment_counts[q0] = this.cltrs.num_members_v[q0]'"]


def c09(c):
    done = set()
    for fm in fams(c, "kmeans", "skmeans", "dist"):
        if fm.worker not in done:
            done.add(fm.worker)
            s = wsum(c, fm, "EM")
            s.assigned("cluster_assignments")
            k = "this.g_clusters.nclust"
            s.check("C09:%s:worker" % fm.name, "worker sums and counts", fills("this.local_clusters", k) + [[WMEAN], [WCNT]],
                    fields=("means", "num_members_v"), seq=[(0, 2), (1, 3)], msg="a worker adds each of its rows to the sum and count of the row's cluster, starting from zero")
        if fm.name == "dist":
            continue
        s = dsum(c, fm, "run", "EM")
        s.check("C09:%s:driver" % fm.name, "merge and mean", fills("this.cltrs", "this.k") + [[DMEAN], [DCNT], finalize(), COUNTS],
                fields=("means", "num_members_v", "cluster_assignment_counts"), seq=[(0, 2, 4), (1, 3, 4), (3, 5)],
                msg="the centre of a cluster is the mean of all rows assigned to it by all workers")
        sizes(c, fm)
    import mpi
    for fm in fams(c, "dist", "dist_task"):
        (mpi.merge_plain if fm.name == "dist" else mpi.merge_pruned)(c, fm, "C09")
        sizes(c, fm)
    done = set()
    for fm in fams(c, "kmeans_task", "dist_task"):
        if fm.worker not in done:
            done.add(fm.worker)
            task_sums(c, wsum(c, fm, "EM"), "C09:%s:worker" % fm.name)
        s = dsum(c, fm, "run", "EM")
        f = ["for q0<this.nthreads " + x[0] for x in fills("this.threads[q0].local_clusters", "x")]
        s.check("C09:%s:reset" % fm.name, "worker sums start at zero",
                [["for q0<this.nthreads : fill base=this.threads[q0].local_clusters.%s lo=0 hi=size(this.threads[q0].local_clusters.%s) val=0" % (x, x)] for x in ("means", "num_members_v")],
                msg="the workers' sums are cleared before every pass")
        if fm.name == "kmeans_task":
            s.check("C09:%s:driver" % fm.name, "incremental merge and mean", [UNFIN, [DMEAN], [DCNT], finalize(), COUNTS],
                    fields=("means", "num_members_v", "cluster_assignment_counts"), allowed=[lambda l, e: "this.threads[" in l.split(": ")[1][:30]],
                    seq=[(0, 1, 3), (2, 3), (2, 4)],
                    msg="old means are turned back into sums, the workers' changes are added, and the totals are divided by the new counts")
            sizes(c, fm)
    for nm, t, L, base in autos(c):
        autoupdate(c, nm, t, L, base)


def autoupdate(c, nm, t, L, base):
    key = "C09:%s" % nm
    F = ("means", "num_members_v", "cluster_assignment_counts")

    def texts(f):
        return [x.replace("this.cltrs", "CL").replace("this.k", "k").replace("this.ncol", "num_cols").replace("(q0*num_cols + q1)", "(num_cols*q0 + q1)") for x in f]
    merge = [["for q0<k*num_cols for q1<NT : CL.means[q0] += PTQ.means[q0]"], ["for q0<k for q1<NT : CL.num_members_v[q0] += PTQ.num_members_v[q0]"]]
    own = [["for q0<NT : new<PT>.ncol = num_cols"], ["for q0<NT : fill base=new<PT>.means lo=0 hi=k*num_cols val=0"], ["for q0<NT : fill base=new<PT>.num_members_v lo=0 hi=k val=0"]]
    clr = [[": fill base=CL.means lo=0 hi=k*num_cols val=0"], [": fill base=CL.num_members_v lo=0 hi=k val=0"]]
    cnt = [["for q0<k : cluster_assignment_counts[q0] = CL.num_members_v[q0]'"]]
    full = [["for q0<num_cols for q1<num_rows : PT.means[(A(q1)*num_cols + q0)] += matrix[(num_cols*q1 + q0)]"], ["for q0<num_rows : PT.num_members_v[A(q0)] += 1"]]
    x = "matrix[(num_cols*q1 + q0)]"
    ch = "if !(cluster_assignments[q%d] == cluster_assignments[q%d]')"
    inc = [["for q0<num_cols for q1<num_rows %s : PT.means[(cluster_assignments[q1]*num_cols + q0)] += (-1*%s)" % (ch % (1, 1), x)],
           ["for q0<num_rows %s : PT.num_members_v[cluster_assignments[q0]] += -1" % (ch % (0, 0))],
           ["for q0<num_cols for q1<num_rows %s : PT.means[(cluster_assignments[q1]'*num_cols + q0)] += %s" % (ch % (1, 1), x)],
           ["for q0<num_rows %s : PT.num_members_v[cluster_assignments[q0]'] += 1" % (ch % (0, 0))]]

    def prep(s):
        s.items = [(re.sub(r"^(for q0<NT (?:if [^:]*)?:.*)new<knor::base::clusters>", r"\1new<PT>", l), e) for l, e in s.items]
        autonames(s, c, key)
        s.assigned("cluster_assignments", pre="")
        s.rx(r"num_cols\*(A\(q1\)|cluster_assignments\[q1\]'?)", r"\1*num_cols")
        return s
    s = prep(autosum(c, t, L))
    msg = "the centre of a cluster is the mean of all rows assigned to it by all threads"
    if not base:
        s.check(key, "OpenMP sums, merge and mean", own + full + clr + merge + [texts(finalize())] + cnt, fields=F,
                seq=[(1, 3, 7, 9), (2, 4, 8, 9), (5, 7), (6, 8), (8, 10)], msg=msg)
        return
    s.check(key, "OpenMP incremental sums, merge and mean", own + inc + [texts(UNFIN)] + merge + [texts(finalize())] + cnt, fields=F,
            seq=[(1, 3, 8, 10), (2, 4, 9, 10), (7, 8), (9, 11)], msg=msg)
    s = prep(autosum(c, t, None, drop=tuple(L.pc) + (terms.lt(terms.c(0), sym("MAX_ITERS")),)))
    s.items = [(re.sub(r"cluster_assignments\[(q\d)\]'", r"A(\1)", l), e) for l, e in s.items]
    s.check(key + ":first", "OpenMP first-pass sums, merge and mean", own + full + clr + merge + [texts(finalize())] + cnt,
            seq=[(1, 3, 7, 9), (2, 4, 8, 9), (5, 7), (6, 8), (8, 10)], msg=msg)


UNFIN = ["for q0<this.k for q1<this.ncol if %s : this.cltrs.means[(q0*this.ncol + q1)] *= this.cltrs.num_members_v[q0]" % " && ".join(sorted(g + [e]))
         for g in ([], ["this.cltrs.complete_v[q0]"])
         for e in ("(2 <= this.cltrs.num_members_v[q0])", "(1 < this.cltrs.num_members_v[q0])", "(1 <= this.cltrs.num_members_v[q0])", "(0 < this.cltrs.num_members_v[q0])")]


def task_sums(c, s, key):
    """first pass: add the row; later passes: move a row whose cluster changed from the old sum to the new one"""
    R = rid("task")
    new, old = "this.cluster_assignments[%s]'" % R, "this.cluster_assignments[%s]" % R
    x = "this.curr_task.data[(q0*this.ncol + q1)]"
    q, qq = "for q0<this.curr_task.nrow ", "for q0<this.curr_task.nrow for q1<this.ncol "
    ch = "if %s " % " && ".join(sorted(["!(%s == %s)" % tuple(sorted((new, old))), "!this.prune_init"]))
    m, n = "this.local_clusters.means[(%s)] += %s", "this.local_clusters.num_members_v[%s] += %s"

    def ix(a):
        return " + ".join(sorted(["q1", a + "*this.ncol"]))
    s.check(key, "worker sums and counts",
            [[qq + "if this.prune_init : " + m % (ix(new), x)], [q + "if this.prune_init : " + n % (new, "1")],
             [qq + ch + ": " + m % (ix(old), "(-1*%s)" % x)], [q + ch + ": " + n % (old, "-1")],
             [qq + ch + ": " + m % (ix(new), x)], [q + ch + ": " + n % (new, "1")]],
            fields=("means", "num_members_v"), msg="a row is added to its first cluster and moved between sums whenever its cluster changes")


def sizes(c, fm):
    """the vectors the updates run over have the sizes the rules assume"""
    for ct in [g for g in c.model.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]:
        t = c.model.tree(ct, fm.coord, fm)
        c.seen(t)
        s = Sum(c, t)
        P = {}
        for l, e in s.items:
            for f in ("k", "ncol"):
                if l.startswith(": this.%s = " % f):
                    P[f] = l.split(" = ")[1]
        if len(P) < 2:
            raise AnalysisBroken("%s: constructor does not store k and ncol" % fm.name)
        n = 0
        for l, e in s.items:
            if e.kind == "fill" and target(e) in ("means", "num_members_v") and "knor::base" in l:
                want = {"means": "hi=%s " % "*".join(sorted(P.values())), "num_members_v": "hi=%s " % P["k"]}[target(e)]
                c.check(want in l, "vector sizes", "C09:%s:size:%s" % (fm.name, target(e)), loc(e.n), "%s does not have its full size: %r" % (target(e), l[-120:]))
                n += 1
        if n < 4:
            raise AnalysisBroken("%s: cluster vectors not found in the constructor" % fm.name)
