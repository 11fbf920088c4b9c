"""Seeding: k-means++, Forgy, random partition."""
from kmeans import *


def rowdata(r, pre="this."):
    """threads[owner(row)].local_data[(row - owner*rows per thread)*ncol]  ->  rowdata(row)"""
    if r.op != "I":
        return None
    b = r.a[0]
    while b.op in ("ld", "ald"):
        b = b.a[0]
    if not (b.op == "F" and b.a[1] == "local_data"):
        return None
    th = b.a[0]
    while th.op in ("ld", "ald", "V"):
        th = th.a[0]
    if th.op != "I":
        return None
    P = th.a[1]
    ub = [x for x in walk(P) if x.op == "call" and x.a[0] == "upper_bound"]
    n, t, nc = (mk("ld", path(pre + x)) for x in ("nrow", "nthreads", "ncol"))
    if not ub:
        return owned(r, P, n, t, nc)
    row = ub[0].a[-1]
    want = canon.kern(mul(add(row, mul(c(-1), mul(P, mk("idiv", n, t)))), nc))
    if show(want) == show(r.a[1]):
        return mk("call", "rowdata", row)
    d = canon.kern(add(r.a[1], mul(c(-1), want)))
    if any(x.op == "call" and x.a[0] == "upper_bound" for x in walk(d)):
        return None
    return mk("I", mk("call", "rowdata", row), d)


def owned(r, P, n, t, nc):
    """the same when the owner is computed another way (that it is the row's owner is for C06 to decide)"""
    if P.op in ("c", "iv", "sym"):
        return None
    K = canon.kern
    P, nc = K(P), K(nc)
    rem = K(add(r.a[1], mul(mul(P, K(mk("idiv", n, t))), nc)))
    if contains(rem, P):
        return None
    row, d = c(0), c(0)
    for mon, co in terms.poly(rem).items():
        x = c(co)
        mon = list(mon)
        mine = nc in mon
        if mine:
            mon.remove(nc)
        for y in mon:
            x = mul(x, y)
        if mine:
            row = add(row, x)
        else:
            d = add(d, x)
    if not any(contains(P, x) for x in ([row] + [y for y in children(row)]) if not is_c(x)):
        return None
    return mk("call", "rowdata", row) if d is c(0) else mk("I", mk("call", "rowdata", row), d)


def wnorm(s):
    """the condition of a while loop written as a guard of everything in its body"""
    out = []
    for l, e in s.items:
        h, b = cut(l)
        gs, hh, i = set(), "", 0
        for m in re.finditer(r"<while\(", h):
            j, d = m.end(), 1
            while d:
                d += {"(": 1, ")": -1}.get(h[j], 0)
                j += 1
            cond = h[m.end():j - 1]
            hh += h[i:m.start()] + "<while"
            i = j
            if cond.startswith("(") and cond.endswith(")") and "&&" not in cond or "&&" not in cond:
                if cond != "1":
                    gs.add(cond)
            else:
                gs |= set(gset("if " + cond[1:-1] + " : "))
        h = hh + h[i:]
        if gs:
            g = gset(h + " : x") | gs
            k = h.find(" if ") if " if " in h else (0 if h.startswith("if ") else -1)
            base = h[:k] if k >= 0 else h
            h = (base + " if " + " && ".join(sorted(g))).strip()
        out.append(((h + " : " + b) if h else ": " + b, e))
    s.items = out
    return s


def ranges(t):
    """what every random draw draws from: {draw node: (kind, args)}"""
    par, out = {}, []
    for n, _ in allnodes(t[0]):
        if n.kind == "ctor" and "_distribution" in n.cls:
            par[n.obj] = (n.cls, list(n.args))
        elif n.kind == "assign" and n.src in par:
            par[n.dst] = par[n.src]
        elif n.kind == "draw":
            out.append((n, par.get(n.dist)))
    return out


def drawn(c, fm, t, key, want):
    """every draw is from one of the wanted closed ranges: 'unit' or an upper bound"""
    s = Sum(c, t)
    for n, p in ranges(t):
        if p is None or len(p[1]) != 2:
            raise AnalysisBroken("%s: range of a random draw not found at %s" % (key, n.loc))
        lo, hi = [cshow(s.nf.k(s.nf.cl.close(x))) for x in p[1]]
        got = "unit" if "real" in p[0] and (lo, hi) == ("0", "1") else hi if "int" in p[0] and lo == "0" else "%s..%s" % (lo, hi)
        c.check(got in want, "range of a draw", "%s:draw:%s" % (key, got), loc(n), "a random choice is made from 0..%s instead of %s" % (got, " or ".join(sorted(want))))


LOCALROW = "-1*(this.g_nrow / this.nprocs)*this.mpi_rank + %s"


def loops_in(t, state):
    """the loop in which the phase is dispatched and the selection loop in it"""
    L = loop_of(t, state)
    if L is None:
        raise AnalysisBroken("seeding loop not found")
    inner = None
    for n, a in allnodes(t[0]):
        if n.kind == "copy" and L in a and fieldname(n.dst) == "means":
            ls = [x for x in a[a.index(L) + 1:] if x.kind == "loop" and not isworkers(x)]
            if ls:
                inner = ls[0]
    if inner is None:
        # the row is searched for first and used afterwards
        ls = []
        for n, a in allnodes(t[0]):
            if n.kind == "loop" and L in a and not isworkers(n) and (breaks(n) or any(y.op == "mu" for y in walk(n.cond))):
                ls.append(n)
        if len(ls) != 1:
            raise AnalysisBroken("selection loop not found")
        inner = ls[0]
    return L, inner


def sink(s, n, cum, dv):
    """effects on the row at which a search loop stopped, after the loop, written as effects in the loop"""
    iv = "ivend((iv(#) < %s))" % n
    out = []
    for l, e in s.items:
        g = gset(l)
        if "(%s < %s)" % (iv, n) in g and not any("for q1" in x for x in (cut(l)[0],)):
            ends = [x for x in g if x.startswith("(((-1*%s[%s]' + wfold(" % (dv, iv)) and x.endswith(" <= 0) || (%s <= %s))" % (n, iv))]
            rest = [x for x in g if x not in ends and x != "(%s < %s)" % (iv, n)]
            if len(ends) <= 1 and not any(iv in x for x in rest):
                h, b = cut(l)
                base = (" " + h).split(" if ")[0].strip()
                gs = sorted(rest + ["((-1*%s[q1]' + mu(#, %s)) <= 0)" % (dv, cum)])
                l = "%s for q1<while((q1 < %s)) if %s : %s" % (base, n, " && ".join(gs), b.replace(iv, "q1"))
        out.append((l, e))
    s.items = out


def kpp_worker(c, fm):
    kind = "task" if "task" in fm.name else "thread"
    s = wsum(c, fm, "KMSPP_INIT")
    n, r = ROW[kind][0], rid(kind)
    d = D("q0", "this.meta.clust_idx", kind)
    q = "for q0<%s " % n
    g = "if (%s < this.dist_v[%s]) : " % (d, r)
    s.check("C25:%s:worker" % fm.name, "distance to the nearest centre",
            [[q + g + "this.dist_v[%s] = %s" % (r, d), q + ": this.dist_v[%s] = %s" % (r, mn(d, "this.dist_v[%s]" % r))],
             q + g + "this.cluster_assignments[%s] = this.meta.clust_idx" % r,
             [q + ": this.cuml_dist += " + mn(d, "this.dist_v[%s]" % r), q + ": this.cuml_dist += this.dist_v[%s]'" % r]],
            fields=("dist_v", "cluster_assignments", "cuml_dist"), msg="a row's distance is lowered to that of the new centre when that is nearer, and the distances are added up")


def mn(a, b):
    return "min(%s)" % ", ".join(sorted([a, b]))


SCALE = "for q0<while : CUM *= rand"


def kpp(c, fm):
    t = c.model.drive(fm, "kmeanspp_init")
    key = "C25:%s" % fm.name
    d = fm.name.startswith("dist")
    n = "this.g_nrow" if d else "this.nrow"
    drawn(c, fm, t, key, {"unit", "(-1 + %s)" % n})
    L, inner = loops_in(t, "KMSPP_INIT")
    s = Sum(c, t, locals_=True, hook=rowdata)
    dv = [l.split(" = ")[1] for l in s.lines() if l.startswith("for q0<this.nthreads : this.threads[q0].dist_v = ")]
    dv = dv[0][:-3] if dv and dv[0].endswith("[0]") else "this.dist_v"

    s.rx(r"!\(\(1 \+ q0\) == this\.k\)", "((1 + q0) < this.k)")
    cm = set(re.findall(r"\(-1\*([\w.$]+)\[q1\]' \+ mu\(#, (\$\w+)\)\)", " ".join(s.lines())))
    if len(cm) != 1:
        raise AnalysisBroken("%s: running total of the selection not found" % key)
    gv, cum = cm.pop()
    sink(s, n, cum, gv)

    def roles(x):
        x.macro(dv, "DV")
        x.rx(r"\(-1\*\$\w+\[(q\d|iv\(#\))\]'", r"(-1*GV[\1]'") if d else x.rx(r"\(-1\*DV\[", "(-1*GV[")
        wnorm(x)
        return x
    roles(s)
    s.macro(cum, "CUM")
    if d:
        loc_, own = (lambda x: "(%s)" % (LOCALROW % x)), (lambda x: "(%s < this.nrow)" % ("(%s)" % (LOCALROW % x)))
    else:
        loc_, own = (lambda x: x), None
    o0 = ("if %s " % own("rand")) if own else ""
    sel = ["((-1*GV[q1]' + mu(#, CUM)) <= 0)", "((1 + q0) < this.k)", "(q1 < %s)" % n] + ([own("q1")] if own else [])
    q = "for q0<while for q1<while if %s : " % " && ".join(sorted(sel))
    want = [o0 + ": copy dst=this.cltrs.means[0] src=rowdata(%s) n=this.ncol" % loc_("rand"),
            "for q0<this.nthreads for q1<while : this.threads[q0].meta.clust_idx = q1",
            "for q0<this.nthreads for q1<while : this.threads[q0].state = KMSPP_INIT",
            "for q0<this.nthreads for q1<while : this.threads[q0].cuml_dist = 0",
            SCALE,
            "for q0<while for q1<while if %s : CUM += (-1*GV[q1]')" % " && ".join(sorted(["((1 + q0) < this.k)", "(q1 < %s)" % n])),
            q + "copy dst=this.cltrs.means[(q0*this.ncol + this.ncol)] src=rowdata(%s) n=this.ncol" % loc_("q1")]
    if not d:
        tot = "sum(this.nthreads, j0, this.threads[j0].cuml_dist)"
        want[want.index(SCALE)] = [("for q0<while : CUM *= rand", "for q0<while : CUM = " + tot), "for q0<while : CUM = rand*" + tot, "for q0<while : CUM = %s*rand" % tot]
    ok = {o0 + ": DV[%s] = 0" % loc_("rand"), o0 + ": this.cluster_assignments[%s] = 0" % loc_("rand"),
          q + "this.cluster_assignments[%s] = (1 + q0)" % loc_("q1"), q + "DV[%s] = 0" % loc_("q1"),
          ": fill base=DV lo=0 hi=this.nrow val=max()"}
    s.check(key, "k-means++ selection", want, fields=("means", "cluster_assignments", "dist_v", "clust_idx"),
            allowed=[lambda l, e: l in ok or "this.threads[q0].dist_v = DV[0]" in l or d and (": resize obj=this.cltrs.means" in l or ": copy dst=this.cltrs.means[0] src=$" in l or
                     ": fill base=this.cltrs.means" in l) or "this.threads[q0].local_clusters.means" in l],
            msg="the first centre is a random row; each further one is the row at which the running total of the distances reaches a random share of their sum")
    if dv.startswith("$"):
        s.check(key + ":max", "distances start at infinity", [": fill base=DV lo=0 hi=this.nrow val=max()"], msg="before the first centre no row has a nearest one")
    stop_check(c, key, t, L, inner, n, "this.k", dv, cum, rowdata)


def stop_check(c, key, t, L, inner, n, k, dv, cum, hook=None):
    """the selection loop stops exactly when a row is chosen, the outer loop when k centres are there"""
    for lp, wg, ws, what in ((inner, "(iv(#) < %s)" % n, "((CUM + -1*GV[iv(#)]') <= 0)", "a row has been chosen"), (L, "((1 + iv(#)) < %s)" % k, "(%s <= (1 + iv(#)))" % k, "all centres are chosen")):
        x = Sum(c, t, sub_=lp, locals_=True, hook=hook)
        go, st = exits(x, lp)
        fix = lambda y: re.sub(r"-1\*(\$\w+|DV)\[", "-1*GV[", y.replace(dv, "DV").replace(cum, "CUM")).replace("(-1*GV[iv(#)]' + CUM)", "(CUM + -1*GV[iv(#)]')")
        go, st = set(fix(y) for y in go) - {"1"}, set(fix(y) for y in st)
        st = set("(%s <= (1 + iv(#)))" % k if y == "((1 + iv(#)) == %s)" % k else y for y in st)
        go = set("((1 + iv(#)) < %s)" % k if y == "!((1 + iv(#)) == %s)" % k else y for y in go)
        neg = {"(0 < (CUM + -1*GV[iv(#)]'))": ws, "((1 + iv(#)) < %s)" % k: ws}
        c.check(go <= {wg} | set(neg) and (st | {neg[y] for y in go if y in neg}) == {ws}, "selection loops", key + ":stop:" + what.split()[0], loc(lp),
                "the loop must go on until %s; it goes on while %s and stops when %s" % (what, sorted(go), sorted(st)))


def ndraws(c, t, key, n):
    ds = [x for x, _ in allnodes(t[0]) if x.kind == "draw"]
    c.check(len(ds) == n, "one draw per choice", key + ":draws", loc(ds[0]) if ds else "", "one random choice is made per seed, not %d" % len(ds))


def forgy(c, fm):
    t = c.model.drive(fm, "forgy_init")
    key = "C25:%s:forgy" % fm.name
    dist = fm.name.startswith("dist")
    drawn(c, fm, t, key, {"(-1 + %s)" % ("this.g_nrow" if dist else "this.nrow")})
    ndraws(c, t, key, 1)
    s = Sum(c, t, hook=rowdata)
    if dist:
        w = ["for q0<this.k if (%s < this.nrow) : copy dst=this.cltrs.means[q0*this.ncol] src=rowdata(%s) n=this.ncol" % ((("(%s)" % (LOCALROW % "rand")),) * 2)]
    elif fm.name == "fcm":
        w = ["for q0<this.k : copy dst=this.centers.mat[q0*this.centers.ncol] src=rowdata(rand) n=this.centers.ncol"]
    else:
        w = ["for q0<this.k : copy dst=this.cltrs.means[q0*this.ncol] src=rowdata(rand) n=this.ncol"]
    if fm.name == "medoid":
        w.append("for q0<this.k : this.cltrs.num_members_v[q0] = rand")
    s.check(key, "Forgy seeding", w, fields=("means", "mat", "num_members_v"), msg="every initial centre is a randomly drawn row of the data")


def randpart(c, fm):
    t = c.model.drive(fm, "random_partition_init")
    key = "C25:%s:random" % fm.name
    dist = fm.name.startswith("dist")
    drawn(c, fm, t, key, {"(-1 + this.k)"})
    ndraws(c, t, key, 2 if dist else 1)
    s = Sum(c, t, hook=rowdata)
    n = "this.nrow"
    w = ["for q0<this.ncol for q1<%s : this.cltrs.means[(q0 + rand*this.ncol)] += rowdata(q1)[q0]" % n,
         "for q0<%s : this.cltrs.num_members_v[rand] += 1" % n, "for q0<%s : this.cluster_assignments[q0] = rand" % n]
    if not dist:
        w.append(finalize())
    s.check(key, "random partition", w, fields=("means", "num_members_v", "cluster_assignments"), seq=[] if dist else [(0, 3), (1, 3)],
            msg="every row is put into a random cluster and each initial centre is the mean of its rows")


def kinds(t, L):
    """what the draws in a loop draw from"""
    rs = {id(n): p for n, p in ranges(t)}
    return ["unit" for n, a in allnodes(t[0]) if L in a and id(n) in rs and rs[id(n)] is not None and "real" in rs[id(n)][0]]


def autoseed(c, nm, t, L):
    key = "C25:%s" % nm
    s = autosum(c, t, None, drop=L.pc, locals_=True)
    autonames(s, c, key)
    mergedist(s)
    inl = set(id(n) for n, a in allnodes(t[0]) if n is L or L in a)
    s.items = [(l, e) for l, e in s.items if id(e.n) not in inl]
    sec = {}
    INIT = re.compile(r"\(('\w+' == init|init == '\w+')\)")

    def part(x):
        """the effects of one way of seeding, without the test that selects it"""
        y = Sum.__new__(Sum)
        y.__dict__.update(s.__dict__)
        y.items = []
        for l, e in s.items:
            g = gset(l)
            pos = [z for z in g if INIT.fullmatch(z) and "'%s'" % x in z]
            if not pos:
                continue
            h, b = cut(l)
            k = (" " + h).find(" if ")
            rest = sorted(z for z in g if not INIT.fullmatch(z.lstrip("!")))
            base = h[:max(k - 1, 0)] if k >= 0 else h
            h = (base + (" if " + " && ".join(rest) if rest else "")).strip()
            y.items.append((h + " : " + b if h else ": " + b, e))
        return y

    def dr(y, want, n):
        got = []
        ids = set(id(e.n) for _, e in y.items)
        for d, p in ranges(t):
            if p is None or len(p[1]) != 2:
                raise AnalysisBroken("%s: range of a random draw not found" % key)
            if any(("'%s' == init" % y.name) in cshow(g) and not cshow(g).startswith("!") for g in d.pc):
                lo, hi = [cshow(s.nf.k(s.nf.cl.close(x))) for x in p[1]]
                got.append("unit" if "real" in p[0] and (lo, hi) == ("0", "1") else hi if "int" in p[0] and lo == "0" else "%s..%s" % (lo, hi))
        c.check(sorted(got) == sorted(want), "range of a draw", "%s:%s:draws" % (key, y.name), loc(L), "random choices are made from %s instead of %s" % (got, want))
    y = part("random")
    y.name = "random"
    dr(y, ["(-1 + k)"], 1)
    fin = [x.replace("this.cltrs", "CL").replace("this.k", "k").replace("this.ncol", "num_cols").replace("(q0*num_cols + q1)", "(num_cols*q0 + q1)") for x in finalize()]
    y.check(key + ":random", "random partition", ["for q0<num_cols for q1<num_rows : CL.means[(num_cols*rand + q0)] += matrix[(num_cols*q1 + q0)]",
            "for q0<num_rows : CL.num_members_v[rand] += 1", "for q0<num_rows : cluster_assignments[q0] = rand", fin],
            fields=("means", "num_members_v"), seq=[(0, 3), (1, 3)], msg="every row is put into a random cluster and each initial centre is the mean of its rows")
    y = part("forgy")
    y.name = "forgy"
    dr(y, ["(-1 + num_rows)"], 1)
    y.check(key + ":forgy", "Forgy seeding", ["for q0<k : copy dst=CL.means[num_cols*q0] src=matrix[num_cols*rand] n=num_cols"], fields=("means", "num_members_v"),
            msg="every initial centre is a randomly drawn row of the data")
    y = part("kmeanspp")
    y.name = "kmeanspp"
    dr(y, ["(-1 + num_rows)", "unit"], 2)
    cum = set(re.findall(r"\(-1\*(\$\w+)\[q1\]' \+ mu\(#, (\$\w+)\)\)", " ".join(y.lines())))
    if len(cum) != 1:
        raise AnalysisBroken("%s: running total of the selection not found" % key)
    dv, cum = cum.pop()
    sink(y, "num_rows", cum, dv)
    y.rx(r"!\(\(1 \+ q0\) == k\)", "((1 + q0) < k)")
    wnorm(y)
    y.macro(dv + "[", "DV[")
    y.macro(cum, "CUM")
    d = lambda r, q: autoD(r, q)
    sel = ["((-1*DV[q1]' + mu(#, CUM)) <= 0)", "((1 + q0) < k)", "(q1 < num_rows)"]
    q = "for q0<while for q1<while if %s : " % " && ".join(sorted(sel))
    w = "for q0<num_rows for q1<while "
    dd = d("q0", "q1")
    mins = [w + ": DV[q0] = min(%s, %s)" % x for x in ((dd, "DV[q0]"), ("DV[q0]", dd))]
    y.check(key, "k-means++ selection",
            [": copy dst=CL.means[0] src=matrix[num_cols*rand] n=num_cols", "for q0<while : CUM = 0", "for q0<while : CUM *= rand",
             "for q0<while for q1<while if %s : CUM += (-1*DV[q1]')" % " && ".join(sorted(sel[1:])),
             q + "copy dst=CL.means[(num_cols + num_cols*q0)] src=matrix[num_cols*q1] n=num_cols",
             [w + "if (%s < DV[q0]) : DV[q0] = %s" % (dd, dd)] + mins,
             [w + ": CUM += min(%s, %s)" % x for x in ((dd, "DV[q0]"), ("DV[q0]", dd))] + [w + ": CUM += DV[q0]'"]],
            fields=("means", "num_members_v"), seq=[(0, 4), (1, 6, 2, 3, 4)],
            msg="the first centre is a random row; each further one is the row at which the running total of the distances reaches a random share of their sum")
    outer = [n for n, a in allnodes(t[0]) if n.kind == "draw" for n in a if n.kind == "loop" and any(p.op == "mu" or "kmeanspp" in cshow(p) for p in n.pc) and "unit" in kinds(t, n)]
    outer = [x for i, x in enumerate(outer) if x not in outer[:i]]
    lps = [(o, n) for o in outer for n, a in allnodes(t[0]) if n.kind == "loop" and o in a and (breaks(n) or any(y.op == "mu" for y in walk(n.cond)))]
    if len(lps) != 1:
        raise AnalysisBroken("%s: selection loop not found" % key)
    stop_check(c, key, t, lps[0][0], lps[0][1], "num_rows", "k", dv, cum)
    for l, e in y.items:
        if ": DV[" in l and l not in (w + "if (%s < DV[q0]) : DV[q0] = %s" % (dd, dd), ": DV[rand] = 0", q + "DV[q1] = 0") and l not in mins:
            c.bad(key + ":dist:extra", loc(e.n), "unexpected effect on the distances to the nearest centre: %r" % l[:300], "k-means++ selection")
    c.check(any(l.startswith(": fill base=%s lo=0 hi=num_rows val=max()" % dv) for l, _ in s.items), "distances start at infinity", key + ":max", loc(L), "before the first centre no row has a nearest one")


def starts_max(c, fm):
    """the task drivers keep one distance vector for all passes; it is set when the driver is built"""
    seen = 0
    for ct in [g for g in c.model.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]:
        s = Sum(c, c.model.tree(ct, fm.coord, fm))
        fs = [(l, e) for l, e in s.items if e.kind == "fill" and "base=this.dist_v " in l]
        if fs:
            seen += 1
            c.check(fs[-1][0].endswith("val=max()") and " lo=0 " in fs[-1][0], "distances start at infinity", "C25:%s:max" % fm.name, loc(fs[-1][1].n), "before the first centre no row has a nearest one")
    if not seen:
        raise AnalysisBroken("%s: initial distances not found" % fm.name)


def c25(c):
    for fm in fams(c, "kmeans_task", "dist_task"):
        starts_max(c, fm)
    for nm, t, L, base in autos(c):
        autoseed(c, nm, t, L)
    done = set()
    for fm in fams(c, "kmeans", "skmeans", "kmeans_task", "dist", "dist_task"):
        if fm.worker not in done:
            done.add(fm.worker)
            kpp_worker(c, fm)
        kpp(c, fm)
        forgy(c, fm)
        randpart(c, fm)
    for fm in fams(c, "fcm", "medoid"):
        forgy(c, fm)
