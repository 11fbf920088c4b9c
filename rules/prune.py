"""Pruned k-means: a centre may only be skipped under bounds that hold."""
from kmeans import *


def shorten(s, subs):
    for a, b in subs:
        s.macro(a, b)


def body(l):
    return cut(l)[1]


ASRT = "((((-1 + -1*min(q1, a) + max(q1, a)) < (-1*min(q1, a) + ROWS)) && (min(q1, a) < ROWS)) || (q1 == a))"
ASRT2 = "((((-1 + -1*min(a, q1) + max(a, q1)) < (-1*min(a, q1) + ROWS)) && (min(a, q1) < ROWS)) || (a == q1))"


def skips(c, key, s, where, init):
    """the steps of one row, in a summary where names are already short:
    a assignment, d stored distance, ad/jd exact distance to own/other centre, DM half the distance between the two
    centres, PREV movement of the own centre, SV half the distance to the closest other centre, rec: bound already exact"""
    st = {}
    for l, e in s.items:
        b = body(l)
        if b in ("d += PREV", "d = ad", "d = jd", "a = q1") or b.startswith("copy dst=REC"):
            st.setdefault(b if not b.startswith("copy") else "REC", []).append((l, gset(l) - init, e))
    rule = "pruning"
    # bound follows the centre
    up = st.get("d += PREV", [])
    c.check(len(up) == 1 and not up[0][1], rule, key + ":drift", loc(up[0][2].n) if up else where,
            "in every pruned pass each row's bound must first grow by the movement of its own centre (found %r)" % [sorted(x[1]) for x in up])
    ok1 = [x for x in st.get("REC", []) if not x[1]]
    c.check(bool(ok1), rule, key + ":stale", where, "the mark that a row's bound is exact must be cleared for every row in every pass")
    pre = {"(SV < (d + PREV))", "(SV <= (d + PREV))"}
    dm0 = {"(DM < mu(#, d))", "(DM <= mu(#, d))"}
    dm1 = {"(DM < TIGHT)", "(DM <= TIGHT)"}
    # the bound is made exact before it is compared
    ex = st.get("d = ad", [])
    c.check(len(ex) == 1 and ex[0][1] <= pre | dm0 | {"!(rec)", "ASRT"}, rule, key + ":exact", loc(ex[0][2].n) if ex else where,
            "before a row is compared with another centre its bound must be made exact (found %r)" % [sorted(x[1]) for x in ex])
    mk_ = [x for x in st.get("REC", []) if x[1]]
    c.check(len(mk_) == 1 and ex and mk_[0][1] == ex[0][1], rule, key + ":mark", loc(mk_[0][2].n) if mk_ else where,
            "the bound is marked exact exactly when it was made exact (found %r)" % [sorted(x[1]) for x in mk_])
    for b in ("a = q1", "d = jd"):
        xs = st.get(b, [])
        c.check(len(xs) == 1, rule, key + ":move", loc(xs[0][2].n) if xs else where, "a pruned pass moves a row in exactly one place (%r, found %d)" % (b, len(xs)))
        for l, g, e in xs:
            c.check("(jd < TIGHT)" in g, rule, key + ":closer", loc(e.n), "a row moves only to a centre strictly closer than its own (conditions: %s)" % sorted(g))
            bad = g - pre - dm0 - dm1 - {"(jd < TIGHT)", "ASRT"}
            c.check(not bad, rule, key + ":skip", loc(e.n), "a centre is skipped under a condition that does not exclude it: the move also needs %s" % sorted(bad))
    extra = [l for l, e in s.items if re.match(r"^[ad] [-+*/]?= ", body(l)) and body(l) not in ("d += PREV", "d = ad", "d = jd", "a = q1")]
    for l in extra:
        c.bad(key + ":other", where, "a pruned pass changes a row's assignment or bound in another way: %r" % l[:300], rule)


def flags(c, key, s, init, where):
    f0 = [gset(l) - init for l, e in s.items if l.endswith(": tmp._[0] = 48")]
    f1 = [gset(l) - init for l, e in s.items if l.endswith(": tmp._[0] = 49")]
    c.check(f0 == [set()] and len(f1) == 1 and "!(rec)" in f1[0], "pruning", key + ":flag", where,
            "the mark is cleared at the start of the row and set after the bound was made exact (cleared under %r, set under %r)" % ([sorted(x) for x in f0], [sorted(x) for x in f1]))


def short_task(s):
    shorten(s, [("(q0 + this.curr_task.start_rid)", "R"), ("this.cluster_assignments[R]", "a"), ("this.dist_v[R]", "d"), ("this.g_clusters.", "G."),
                ("dist(this.dist_metric, this.curr_task.data[q0*this.ncol], G.means[q1*this.ncol], this.ncol)", "jd"),
                ("dist(this.dist_metric, this.curr_task.data[q0*this.ncol], G.means[a*this.ncol], this.ncol)", "ad"),
                ("this.dm.rows", "ROWS"), ("this.dm.mat", "MAT"), ("'1' == this.recalculated_v.data[R]._", "rec"),
                ("copy dst=this.recalculated_v.data[R]._ ", "copy dst=REC "), ("G.prev_dist_v[a]", "PREV"), ("G.s_val_v[a]", "SV")])
    shared(s)


def shared(s):
    shorten(s, [("((q1 == a) ? max() : MAT[min(q1, a)][(-1 + -1*min(q1, a) + max(q1, a))])", "DM"),
                ("((a == q1) ? max() : MAT[min(a, q1)][(-1 + -1*min(a, q1) + max(a, q1))])", "DM"),
                (ASRT, "ASRT"), (ASRT2, "ASRT"), ("((rec) ? mu(#, d) : ad)", "TIGHT")])


def driver(c, key, s, k="this.k", n="this.ncol", CL="this.cltrs", MAT="this.dm.mat", dispatch=None, unfin=None, merge=None):
    def M(*xs):
        xs = sorted(xs)
        return "%s.means[%s]" % (CL, "(" + " + ".join(xs) + ")" if len(xs) > 1 else xs[0])
    ij = "*".join(sorted(["q0", n])), "*".join(sorted(["q1", n]))
    d = "(0.5*eucl(%s, %s, %s))" % (M(ij[0], ij[1], n), M(ij[0]), n)
    q = "for q0<%s for q1<(-1 + -1*q0 + %s) " % (k, k)
    g1 = "(1 < %s)" % k

    def both(pre, guards, what):
        out = []
        for g in (guards, guards + [g1]):
            out.append("%s%s: %s" % (pre, ("if %s " % " && ".join(sorted(g))) if g else "", what))
        return out
    at = "%s[min((1 + q0 + q1), q0)][(-1 + -1*min((1 + q0 + q1), q0) + max((1 + q0 + q1), q0))]" % MAT
    sv = CL + ".s_val_v"
    req = [both("", [], "fill base=%s lo=0 hi=size(%s) val=max()" % (sv, sv)) + both("", [], "fill base=%s lo=0 hi=%s val=max()" % (sv, k)),
           both(q, [], "%s = %s" % (at, d)),
           both(q, ["(%s < %s[q0])" % (d, sv)], "%s[q0] = %s" % (sv, d)) + both(q, ["(%s < %s[q0]')" % (d, sv)], "%s[q0] = %s" % (sv, d)),
           both(q, ["(%s < %s[(1 + q0 + q1)]')" % (d, sv)], "%s[(1 + q0 + q1)] = %s" % (sv, d)) + both(q, ["(%s < %s[(1 + q0 + q1)])" % (d, sv)], "%s[(1 + q0 + q1)] = %s" % (sv, d)),
           [": assign dst=%s.prev_means src=%s.means" % (CL, CL)],
           ["for q0<%s : %s.prev_dist_v[q0] = eucl(%s.means[%s]%s, %s.means[%s]%s, %s)" % ((k, CL, CL, ij[0], x, CL, ij[0], y, n)) for x, y in (("", "'"), ("'", ""))],
           merge]
    seq = [(0, 2), (0, 3), (4, 6, 5)]
    if dispatch:
        req += [[dispatch]]
        seq += [(1, 7), (2, 7), (3, 7)]
    if unfin:
        req += [unfin]
        seq += [(4, len(req) - 1)]
    s.check(key, "pruning bounds", req, fields=("s_val_v", "prev_dist_v", "prev_means"), seq=seq,
            msg="the bounds are half the distances between the current centres, and the movement of a centre is measured from its position in the previous pass")


def c19(c):
    done = set()
    for fm in fams(c, "kmeans_task", "dist_task"):
        key = "C19:%s" % fm.name
        if fm.worker not in done:
            done.add(fm.worker)
            s = wsum(c, fm, "EM", locals_=True, want=lambda n, tg: fieldname(tg) in ("dist_v", "cluster_assignments", "recalculated_v", "data", "_") or n.kind == "copy")
            short_task(s)
            init = {"!this.prune_init"}
            s.items = [(l, e) for l, e in s.items if "this.prune_init" not in gset(l)]
            skips(c, key, s, "libman/kmeans_task_thread.cpp", init)
            flags(c, key, s, init, "libman/kmeans_task_thread.cpp")
        s = dsum(c, fm, "run", "EM")
        driver(c, key + ":driver", s, dispatch="for q0<this.nthreads : this.threads[q0].state = EM", merge=DMEAN,
               unfin=UNFIN if fm.name == "kmeans_task" else None)
        t = c.model.drive(fm, "run")
        L = loop_of(t, "EM")
        if fm.name == "kmeans_task":
            w = Sum(c, t, drop=tuple(L.pc) + (terms.lt(terms.c(0), mk("ld", MAXI)),))
            w.check(key + ":first", "first pruned pass",
                    ["for q0<this.nthreads : this.threads[q0].state = EM", ": assign dst=this.cltrs.prev_means src=this.cltrs.means",
                     ": fill base=this.cltrs.means lo=0 hi=this.k*this.ncol val=0", DMEAN,
                     "for q0<this.k : this.cltrs.prev_dist_v[q0] = eucl(this.cltrs.means[q0*this.ncol]', this.cltrs.means[q0*this.ncol]', this.ncol)",
                     "for q0<this.nthreads : this.threads[q0].prune_init = 0"],
                    seq=[(1, 2, 3, 4), (0, 5)], msg="after the first pass movements are measured against the initial centres and pruning starts")
    for nm, t, L, base in autos(c):
        if not base:
            continue
        key = "C19:%s" % nm
        s = autosum(c, t, L, locals_=True)
        autonames(s, c, key)
        mergedist(s)
        s.rx(r"new<knor::base::thd_safe_bool_vector>", "REC_")
        s.rx(r"new<knor::prune::dist_matrix>\.mat", "MAT")
        r = [(l, e) for l, e in s.items]
        w = autosum(c, t, L, locals_=True)
        # rows are q1 and centres q0 in two-level effects, rows q0 in one-level ones: use q0 for rows and q1 for centres throughout
        out = []
        for l, e in r:
            if l.startswith("for q0<k for q1<num_rows"):
                l = l.replace("q0", "q9").replace("q1", "q0").replace("q9", "q1")
            out.append((l, e))
        w.items = out
        rowv = [re.match(r"^for q0<num_rows : (\$\w+)\[q0\] \+= ", l) for l in w.lines()]
        rowv = [x.group(1) for x in rowv if x and x.group(1) != "$CH"]
        if rowv:
            w.macro(rowv[0] + "[q0]", "d")
        DJ = "(('eucl' == dist_type) ? eucl(%s, %s, num_cols) : cos(%s, %s, num_cols))"

        def D(cl):
            a, b = "matrix[num_cols*q0]", "CL.means[%s]" % cl
            return DJ % (a, b, a, b)
        shorten(w, [("cluster_assignments[q0]", "a"), (D("num_cols*q1"), "jd"), (D("a*num_cols"), "ad"), ("'1' == REC_.data[q0]._", "rec"),
                    ("copy dst=REC_.data[q0]._ ", "copy dst=REC "), ("CL.prev_dist_v[a]", "PREV"), ("CL.s_val_v[a]'", "SV"), ("CL.s_val_v[a]", "SV"), ("(a == q1)", "(q1 == a)"),
                    ("min(a, q1)", "min(q1, a)"), ("max(a, q1)", "max(q1, a)"),
                    ("((((-1 + -1*min(q1, a) + max(q1, a)) < (-1 + -1*min(q1, a) + k)) && (min(q1, a) < (-1 + k))) || (q1 == a))", "ASRT")])
        shared(w)
        w.items = [(l, e) for l, e in w.items if l.startswith("for q0<num_rows") or l.startswith("for q1<k for q0<num_rows") or re.search(r" : tmp\._", l)]
        skips(c, key, w, L.loc, set())
        flags(c, key, w, set(), L.loc)
        driver(c, key + ":driver", s, k="k", n="num_cols", CL="CL", MAT="MAT", merge=["for q0<k*num_cols for q1<NT : CL.means[q0] += PTQ.means[q0]"],
               unfin=[x.replace("this.cltrs", "CL").replace("this.k", "k").replace("this.ncol", "num_cols").replace("(q0*num_cols + q1)", "(num_cols*q0 + q1)") for x in UNFIN])


MAXI = mk("F", THIS, "max_iters")
