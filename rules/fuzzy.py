"""C29: what one pass of fuzzy c-means computes."""
from spec import *
from kmeans import *
from canon import cshow
import numval, re

WDIM = {"this.innerprod.nrow": "this.nclust", "this.innerprod.ncol": "this.ncol", "this.centers.ncol": "this.ncol", "this.centers.nrow": "this.nclust",
        "this.um.nrow": "this.nclust"}
def wdim(r):
    if cshow(r) == "size(this.innerprod.mat)":
        return mul(mk("ld", path("this.nclust")), mk("ld", path("this.ncol")))
    return None


def wired(c, fm):
    t = c.model.drive(fm, "build_thread_state")
    s = Sum(c, t)
    w = "new<%s>" % fm.worker
    q = "for q0<this.nthreads : "
    s.check("C29:wiring", "worker wiring", [q + w + ".dist_metric = this._dist_t", q + w + ".ncol = this.ncol", q + w + ".centers = this.centers",
                                            q + w + ".um = this.um", q + w + ".nclust = this.k", q + w + ".fuzzindex = this.fuzzindex"],
            fields=(), msg="every worker is built with the driver's distance, centres, memberships and fuzziness")
    # sizes of the matrices
    for ct in [g for g in c.model.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]:
        t = c.model.tree(ct, fm.coord, fm)
        c.seen(t)
        obj, dim, base = {}, {}, {}
        for n, _ in allnodes(t[0]):
            if n.kind != "store":
                continue
            f = fieldname(n.lv)
            if n.lv.op == "F" and n.lv.a[0] is THIS:
                if f in ("um", "centers", "prev_centers"):
                    obj[f] = n.val
                elif f in ("k", "ncol", "nrow"):
                    base[f] = n.val
            if n.lv.op == "F" and f in ("nrow", "ncol"):
                dim[(n.lv.a[0], f)] = n.val
        for f, (r, q) in {"um": ("k", "nrow"), "centers": ("k", "ncol"), "prev_centers": ("k", "ncol")}.items():
            o = obj.get(f)
            if o is None or (o, "nrow") not in dim:
                raise AnalysisBroken("fuzzy c-means: %s is not built in the constructor" % f)
            c.check(dim[(o, "nrow")] is base.get(r) and dim[(o, "ncol")] is base.get(q), "matrix sizes", "C29:size:%s" % f, "%s (%s)" % (ct.get("l", ""), ct["q"]),
                    "%s is a %s x %s matrix, not %s x %s" % (f, cshow(dim[(o, "nrow")]), cshow(dim[(o, "ncol")]), r, q))


DRX = re.compile(r"^dist\(this\.dist_metric, (.*), this\.ncol\)$")


def estep(c, fm):
    s = wsum(c, fm, "E", alias=WDIM, hook=wdim)
    es = [(l, e) for l, e in s.items if e.kind == "store" and fieldname(e.lv) == "mat" and "this.um.mat" in cshow(e.lv)]
    key = "C29:E"
    if not es:
        raise AnalysisBroken("fuzzy c-means: the E phase writes no membership")

    def roles(e):
        """which counter is the cluster's and which the row's"""
        if len(e.loops) != 2:
            return None
        r = {cshow(t): cshow(q) for q, t in e.loops}
        return (r.get("this.nclust"), r.get("this.nprocrows")) if len(r) == 2 else None
    ok = True
    for l, e in es:
        r = roles(e)
        if r is None or None in r:
            c.bad(key + ":range", loc(e.n), "memberships are computed for %s, not for every cluster and every row" % ["%s<%s" % (cshow(q), cshow(t)) for q, t in e.loops], "membership range")
            return
        want = "this.um.mat[(%s + %s*this.um.ncol + this.start_rid)]" % (r[1], r[0])
        got = cshow(e.lv)
        tok = lambda x: sorted(re.findall(r"\w+|[^\w\s]", x))
        ok = c.check(tok(got) == tok(want), "membership entry", key + ":entry", loc(e.n), "the membership of a row in a cluster is stored at %s instead of %s" % (got, want)) and ok
    if not ok:
        return
    big = 0
    for m in (2, 3, 5):
        for d in (0.0, 1e-5, 0.25, 1.0, 3.0, 40.0):
            vals = []
            try:
                for l, e in es:
                    cl, row = roles(e)
                    want = sorted(["this.local_data[%s*this.ncol]" % row, "this.centers.mat[%s*this.ncol]" % cl])
                    want = ["this.local_data[%s]" % "*".join(sorted([row, "this.ncol"])), "this.centers.mat[%s]" % "*".join(sorted([cl, "this.ncol"]))]

                    def atom(t):
                        s_ = cshow(t)
                        mm = DRX.match(s_)
                        if mm:
                            if sorted(mm.group(1).split(", ")) == sorted(want):
                                return d
                            raise numval.Unknown("the distance between %s" % mm.group(1))
                        if s_ == "this.fuzzindex":
                            return m
                        return None
                    if all(numval.num(g, atom) for g in e.guards):
                        vals.append((numval.num(e.rhs, atom) if e.op in ("=", "==") else None, e))
            except numval.Unknown as x:
                c.bad(key + ":formula", loc(e.n), "the membership depends on %s, not only on the distance between the row and the cluster's centre and on the fuzziness" % x, "membership formula")
                return
            if not vals or vals[-1][0] is None:
                c.bad(key + ":formula", loc(es[0][1].n), "no membership is stored for a row at distance %g from the centre" % d, "membership formula")
                return
            v, e = vals[-1]
            if d == 0.0:
                # as if at a distance too small to matter
                good = v >= numval.power(1e12, 1.0 / (m - 1)) and v < numval.math.inf
                c.check(good, "membership formula", key + ":zero", loc(e.n), "a row that coincides with a centre gets the weight %g in its cluster, less than any other row's" % v)
            else:
                w = numval.power(1.0 / d, 1.0 / (m - 1))
                c.check(numval.close(v, w), "membership formula", key + ":formula", loc(e.n), "at distance %g with fuzziness %d a row gets the weight %g instead of %g" % (d, m, v, w))


def mstep(c, fm):
    s = wsum(c, fm, "M", alias=WDIM, hook=wdim)
    um = "this.um.mat[(q0*this.um.ncol + q2 + this.start_rid)]"
    ip = "this.innerprod.mat[(q0*this.ncol + q1)]"
    acc = "for q0<this.nclust for q1<this.ncol for q2<this.nprocrows : %s += this.local_data[(q1 + q2*this.ncol)]*%s" % (ip, um)
    full = ["for q0<this.nclust for q1<this.ncol : %s = sum(this.nprocrows, j2, this.local_data[(j2*this.ncol + q1)]*%s)" % (ip, um.replace("q2", "j2"))]
    z = [": fill base=this.innerprod.mat lo=0 hi=this.nclust*this.ncol val=0", ": fill base=this.innerprod.mat lo=0 hi=size(this.innerprod.mat) val=0",
         "for q0<this.nclust*this.ncol : this.innerprod.mat[q0] = 0", "for q0<this.nclust for q1<this.ncol : this.innerprod.mat[(q0*this.ncol + q1)] = 0"]
    if any(x in s.lines() for x in full):
        s.check("C29:M", "partial sums", [full], fields=("mat",), msg="every worker sums its rows' data times their memberships")
        return
    s.check("C29:M", "partial sums", [z, acc], fields=("mat",), seq=[(0, 1)], msg="every worker starts from zero and adds its rows' data times their memberships")


def lin(t, idx):
    """{base of a matrix: coefficient} of an elementwise linear combination of matrices, all at the same index"""
    out = {}
    for ms, k in (t.a if t.op == "+" else (((t,), 1),)):
        ms = list(ms)
        if t.op != "+" and t.op == "c":
            if t.a[0] == 0:
                return {}
            raise numval.Unknown(cshow(t))
        if len(ms) != 1:
            raise numval.Unknown(cshow(t))
        x = ms[0]
        while x.op in ("ld", "ald", "hv", "at"):
            x = x.a[0]
        if x.op != "I" or fieldname(x) != "mat" or cshow(x.a[1]) != cshow(idx):
            raise numval.Unknown(cshow(t))
        b = x.a[0]
        out[b] = out.get(b, 0) + k
    return out


def merged(c, s, fm, lo):
    """the new centres are the sum of all workers' partial sums, whatever the number of workers"""
    rel = []
    for l, e in s.items[lo:]:
        if e.kind in ("store", "fill", "copy"):
            b = cshow(e.lv) if e.kind == "store" else cshow(e.x.get("base") if e.kind == "fill" else e.x.get("dst"))
            if ".mat" in b and "prev_centers" not in b and ("this.centers.mat" in b or b.startswith("new<")):
                rel.append((l, e))
    size = sorted(["this.k", "this.ncol"])

    def isfull(*ts):
        fs = []
        for t in ts:
            fs += cshow(t).split("*")
        return sorted(fs) == size
    for T_ in (1, 2, 3, 5):
        st = {}

        def atom0(t):
            return T_ if cshow(t) == "this.nthreads" else None
        try:
            for l, e in rel:
                if e.kind == "store" and e.op == "/=":
                    break
                if e.kind == "store" and e.op in ("=", "==") and "new<" in l.split(" = ")[0] and "this.centers.mat" not in l.split(" = ")[0] and "prev_centers" in l:
                    break   # the movement of the centres
                if not all(numval.num(g, atom0) for g in e.guards):
                    continue
                th, el = [], []
                for q, t in e.loops:
                    if cshow(t) in ("this.k", "this.ncol") or isfull(t):
                        el.append((q, t))
                    else:
                        th.append((q, int(numval.num(t, atom0))))
                envs = [{}]
                for q, n in th:
                    envs = [dict(v, **{cshow(q): i}) for v in envs for i in range(n)]
                name = lambda b, mp: cshow(subst(b, {q: c_(mp[cshow(q)]) for q, _ in th}))
                for mp in envs:
                    if e.kind == "fill":
                        if not isfull(e.x["hi"]) or cshow(e.x["lo"]) != "0":
                            raise numval.Unknown(l)
                        if cshow(e.x["val"]) != "0":
                            raise numval.Unknown(l)
                        st[name(e.x["base"], mp)] = {}
                    elif e.kind == "copy":
                        d, r = e.x["dst"], e.x["src"]
                        while r.op in ("ld", "ald", "hv", "at"):
                            r = r.a[0]
                        if not isfull(e.x["n"]) or d.op != "I" or r.op != "I" or cshow(d.a[1]) != "0" or cshow(r.a[1]) != "0":
                            raise numval.Unknown(l)
                        b = name(r.a[0], mp)
                        st[name(d.a[0], mp)] = dict(st.get(b, {b: 1}))
                    else:
                        if not (len(el) == 1 and isfull(el[0][1]) or len(el) == 2 and isfull(el[0][1], el[1][1])):
                            raise numval.Unknown(l)
                        d = e.lv
                        ix = cshow(d.a[1])
                        if len(el) == 1:
                            good = ix == cshow(el[0][0])
                        else:
                            r_, q_ = [cshow(q) for q, t in sorted(el, key=lambda z: cshow(z[1]) != "this.k")]
                            good = sorted(re.findall(r"[\w.]+|\S", ix)) == sorted(re.findall(r"[\w.]+|\S", "(%s + %s*this.ncol)" % (q_, r_)))
                        if not good:
                            raise numval.Unknown(l)
                        b = name(d.a[0], mp)
                        v = {}
                        for src, k in lin(e.rhs, d.a[1]).items():
                            sb = name(src, mp)
                            for x, y in st.get(sb, {sb: 1}).items():
                                v[x] = v.get(x, 0) + k * y
                        if e.op == "+=":
                            for x, y in st.get(b, {b: 1}).items():
                                v[x] = v.get(x, 0) + y
                        elif e.op not in ("=", "=="):
                            raise numval.Unknown(l)
                        st[b] = v
        except numval.Unknown as x:
            c.bad("C29:merge", loc(e.n), "the new centres are not the sum of the workers' partial sums: %s" % str(x)[:300], "merged partial sums")
            return
        got = {x: y for x, y in st.get("this.centers.mat", {"this.centers.mat": 1}).items() if y}
        want = {"this.threads[%d].innerprod.mat" % i: 1 for i in range(T_)}
        c.check(got == want, "merged partial sums", "C29:merge", loc(rel[0][1].n) if rel else "", "with %d workers the new centres are made of %s instead of the sum of all workers' partial sums" % (T_, " + ".join("%s*%s" % (v, k) for k, v in sorted(got.items()))[:200]))


def c_(v):
    return terms.c(v)


def roles_text(l):
    """the line with its counters named after what they count: r a row, c a cluster, j a column"""
    mp = {}
    while True:
        m = re.match(r"^for (q\d)<([^ ]+) ", l)
        if not m:
            break
        nm = {"this.nrow": "r", "this.k": "c", "this.ncol": "j", "(-1 + this.k)": "c-1"}.get(m.group(2))
        if nm is None:
            m = re.match(r"^for (q\d)<\(-1 \+ this\.k\) ", l)
            if not m:
                return l
            nm = "c-1"
        mp[m.group(1)] = nm
        l = l[m.end():]
    body = re.sub(r"\bq\d\b", lambda m: {"c-1": "c"}.get(mp.get(m.group(0)), mp.get(m.group(0), m.group(0))), l)

    def resort(m):
        return m.group(1) + " + ".join(sorted("*".join(sorted(x.split("*"))) for x in m.group(2).split(" + "))) + m.group(3)
    body = re.sub(r"(\[\(?)([^()\[\]]*)(\)?\])", resort, body)
    return "for %s %s" % (",".join(sorted(mp.values())), body) if mp else body


def pass_(c, fm):
    s = dsum(c, fm, "run", "E", alias=DDIM, hook=ipdim, locals_=True)
    key = "C29:pass"
    R = [roles_text(l) for l, _ in s.items]
    # memberships of a row, divided by their sum and raised
    nrm = [(i, R[i], e) for i, (l, e) in enumerate(s.items) if e.kind == "store" and "this.um.mat" in cshow(e.lv)]
    if not nrm:
        c.bad(key + ":normalised", "", "the memberships of a row are never divided by their sum", "normalised memberships")
        return
    head = "for c,r : this.um.mat[(c*this.nrow + r)]"
    i0, l0, e0 = nrm[-1]
    sums = set(re.findall(r"(\$\w+)\[r\]'", " ".join(x[1] for x in nrm))) | set(re.findall(r"sum\(this\.k, j\d, this\.um\.mat\[[^\]]*\]\)", " ".join(x[1] for x in nrm)))
    good = len(sums) == 1 and all(l.startswith(head + " ") and not e.guards for _, l, e in nrm)
    colsum = sums.pop() if good else None
    try:
        for u, w, f in ((0.5, 2.0, 2), (3.0, 7.0, 3), (1.25, 4.0, 5)):
            v = u
            for _, l, e in nrm if good else ():
                def atom(t):
                    z = cshow(t)
                    if re.match(r"^\$\w+\[q\d\]'?$", z) or z.startswith("sum("):
                        return w
                    if z.startswith("this.um.mat["):
                        return v if z.endswith("'") else u   # after or before the division
                    return f if z == "this.fuzzindex" else None
                x = numval.num(e.rhs, atom)
                v = x if e.op in ("=", "==") else v * x if e.op == "*=" else v / x if e.op == "/=" else numval.math.nan
            good = good and numval.close(v, (u / w) ** f)
    except numval.Unknown:
        good = False
    if not good:
        c.bad(key + ":normalised", loc(e0.n), "the memberships of a row must be divided by their sum over the clusters and raised to the fuzziness; found %r" % [x[1][:300] for x in nrm], "normalised memberships")
        return
    c.ok("normalised memberships", l0)
    if colsum.startswith("$"):
        axis(c, s, R, key + ":colsum", colsum, "this.nrow", [
            (": copy dst=%s[0] src=this.um.mat[0] n=this.nrow", "for c-1,r : %s[r] += this.um.mat[(c*this.nrow + r + this.nrow)]"),
            (": fill base=%s lo=0 hi=this.nrow val=0", "for c,r : %s[r] += this.um.mat[(c*this.nrow + r)]"),
            ("for r : %s[r] = sum(this.k, j1, this.um.mat[(j1*this.nrow + r)])",)], "the sum of a row's memberships over the clusters", nrm[0][0])
    # weighted means
    div = [(i, R[i], e) for i, (l, e) in enumerate(s.items) if e.kind == "store" and "this.centers.mat" in cshow(e.lv) and e.op == "/="]
    m2 = re.match(r"^for c,j : this\.centers\.mat\[\(c\*this\.ncol \+ j\)\] /= (\$\w+)\[c\]'$", div[0][1]) if len(div) == 1 else None
    if m2 is None:
        c.bad(key + ":divided", loc(div[0][2].n) if div else "", "each centre must be divided by the sum of its cluster's weights; found %r" % [x[1][:200] for x in div], "weighted means")
        return
    c.ok("weighted means", div[0][1])
    axis(c, s, R, key + ":rowsum", m2.group(1), "this.k", [
        (": fill base=%s lo=0 hi=this.k val=0", "for c,r : %s[c] += this.um.mat[(c*this.nrow + r)]'"),
        ("for c : %s[c] = sum(this.nrow, j1, this.um.mat[(c*this.nrow + j1)]')",)], "the sum of a cluster's weights over the rows", div[0][0], after=i0)
    # order of the parts
    d = [i for i, (l, e) in enumerate(s.items) if l.endswith(".state = E") or l.endswith(".state = M")]
    lm = [i for i in d if s.items[i][0].endswith("= M")]
    le = [i for i in d if s.items[i][0].endswith("= E")]
    if len(lm) != 1 or len(le) != 1:
        c.bad(key + ":phases", loc(e0.n), "a pass dispatches the E phase %d and the M phase %d times" % (len(le), len(lm)), "order of a pass")
        return
    c.check(le[0] < i0 < lm[0] < div[0][0], "order of a pass", key + ":order", loc(e0.n), "memberships, normalisation, partial sums and division are not done in this order")
    merged(c, s, fm, lm[0])
    # nothing else changes the memberships or, before the phases, the centres
    for l, e in s.items[:lm[0]]:
        b = cshow(e.lv) if e.kind == "store" else cshow(e.x["base"]) if e.kind == "fill" else cshow(e.x["dst"]) if e.kind == "copy" else ""
        if b.startswith("this.centers.mat"):
            c.bad(key + ":early", loc(e.n), "the centres change before the partial sums are complete: %r" % l[:200], "order of a pass")


def axis(c, s, R, key, name, n, alts, what, before, after=-1):
    mine = [(i, R[i], e) for i, (l, e) in enumerate(s.items) if after < i < before and (l.split(": ", 1)[-1].startswith(name + "[") or "base=%s " % name in l or "dst=%s[" % name in l)]
    have = [l for i, l, e in mine]
    z = ": fill base=%s lo=0 hi=%s val=0" % (name, n)   # the values it gets when it is made
    alts = [tuple(x % name for x in a) for a in alts]
    for a in alts:
        if have == list(a) or have == [z] + list(a):
            c.ok("weights summed", "%s: %s" % (what, a[-1]))
            return
    where = loc(mine[0][2].n) if mine else loc(s.items[before][1].n)
    c.bad(key, where, "%s is expected; found %r" % (what, [h[:160] for h in have]), "weights summed")


def c29(c):
    for fm in fams(c, "fcm"):
        wired(c, fm)
        estep(c, fm)
        mstep(c, fm)
        pass_(c, fm)
