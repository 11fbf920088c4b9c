"""Mini-batch k-means: what a pass samples and how the sample moves the centres."""
from seed import *
import re


def unprime(s):
    return s.replace("'", "")


def base(t):
    while t.op in ("ld", "ald", "hv"):
        t = t.a[0]
    return t


def worker(cx, fm):
    """(number handed on for the worker's row q0, its place) of the one push per sampled row"""
    t = cx.model.work(fm, "MB_EM")
    cx.seen(t)
    s = Sum(cx, t)
    key = "C28:worker"
    pu = [(l, e) for l, e in s.items if e.kind == "push" and target(e) == "mb_selected"]
    where = loc(pu[0][1].n) if pu else "libman/kmeans_task_thread.cpp"
    ok = len(pu) == 1 and len(pu[0][1].loops) == 1 and unprime(pu[0][0]).startswith("for q0<this.curr_task.nrow if ")
    cx.check(ok, "every sampled row is remembered once", key + ":push", where, "each row of the sample must be remembered exactly once per pass; found %s" % [l[:200] for l, _ in pu][:3])
    if not ok:
        return None
    l, e = pu[0]
    g = gset(l)
    ok = len(g) == 1 and re.match(r"^\(rand <=? this\.mb_perctg\)$", next(iter(g)))
    cx.check(ok, "the sample", key + ":rate", where, "a row belongs to the sample when a draw between 0 and 1 is at most the sampling rate; found condition %s" % sorted(g))
    for x in ("dist_v", "cluster_assignments"):
        for l2, e2 in s.items:
            if e2.kind == "store" and target(e2) == x:
                cx.check(g <= gset(l2), "only sampled rows are assigned", "%s:only:%s" % (key, x), loc(e2.n), "a row outside the sample is assigned: %s" % l2[:200])
    n = [p for nd, p in ranges(t)]
    dr = [nd for nd, p in ranges(t)]
    cx.check(len(dr) == 1, "one draw per row", key + ":draws", where, "%d draws per row" % len(dr))
    # the distribution the worker is built with
    return e, s


def driver(cx, fm, pushed):
    t = cx.model.drive(fm, "mb_run")
    cx.seen(t)
    L = loop_of(t, "MB_EM")
    if L is None:
        raise AnalysisBroken("mini-batch loop not found")
    key = "C28:driver"
    s = Sum(cx, t, locals_=True, hook=rowdata)
    # the sampling rate
    rate = [(l, e) for l, e in s.items if e.kind == "store" and target(e) == "mb_perctg"]
    want = "for q0<this.nthreads : this.threads[q0].mb_perctg = "
    ok = len(rate) == 1 and rate[0][0].startswith(want)
    vals = []
    if ok:
        vals = flatphi(rate[0][1].val)
        for v in vals:
            x = mul(v, mk("ld", path("this.nrow")))
            ok = ok and canon.cshow(s.nf.k(s.nf.cl.close(x))) in ("1", "this.mb_size", "max(1, this.mb_size)", "max(this.mb_size, 1)", "this.nrow*1/(this.nrow)", "1/(this.nrow)*this.nrow", "1/(this.nrow)*this.mb_size*this.nrow", "this.mb_size*1/(this.nrow)*this.nrow", "this.mb_size*this.nrow*1/(this.nrow)", "this.nrow*this.mb_size*1/(this.nrow)", "this.nrow*1/(this.nrow)*this.mb_size", "1/(this.nrow)*this.nrow*this.mb_size")
        ok = ok and any("mb_size" in cshow(v) for v in vals)
    cx.check(ok, "sampling rate", key + ":rate", loc(rate[0][1].n) if rate else "", "every worker must sample with the rate batch size / rows; found %s" % [l[:250] for l, _ in rate][:3])
    # the moves
    P = "for q0<while("
    inl = [(l, e) for l, e in s.items if L in anc(t, e.n)]
    mv = [(l, e) for l, e in inl if e.kind == "store" and target(e) == "means"]
    where = loc(mv[0][1].n) if mv else loc(L)
    h = cut(mv[0][0])[0] if mv else ""
    ok = len(mv) == 1 and re.search(r"for q1<this\.nthreads for q2<(mu\(#, )?size\(this\.threads\[q1\]\.mb_selected\)\)? for q3<this\.ncol$", h)
    cx.check(ok, "every remembered row moves its centre, in all coordinates", key + ":all", where, "all coordinates of a centre must be moved once for each remembered row of each worker; found %s" % [cut(l)[0][:250] for l, _ in mv][:3])
    if not ok:
        return
    e = mv[0][1]
    k = lambda x: x
    lv, val = e.lv, e.val
    old = mk("ld", lv)
    xs = {x for x in walk(val) if x.op in ("ld", "ald", "hv") and base(x).op == "I" and any(y.op == "F" and y.a[1] in ("local_data",) for y in walk(base(x).a[0]))}
    xs = {x for x in xs if not any(x is not z and contains(z, x) for z in xs)}
    idx = k(lv.a[1])
    asg = [x for x in walk(idx) if x.op in ("ld", "ald", "hv") and base(x).op == "I" and fieldname(base(x).a[0]) == "cluster_assignments"]
    sel = [x for x in walk(idx) if x.op in ("ld", "ald", "hv") and base(x).op == "I" and fieldname(base(x).a[0]) == "mb_selected"]
    if not (len(xs) == 1 and asg and sel):
        cx.check(False, "the centre of the row's cluster moves towards the row", key + ":move", where, "the moved centre is %s, its new coordinate %s" % (cshow(lv)[:200], cshow(val)[:300]))
        return
    x, A, S = next(iter(xs)), asg[0], sel[0]
    # old values appear with some version
    olds = {y for y in walk(val) if y.op in ("ld", "ald", "hv") and fieldname(base(y)) == "means"}
    val2 = subst(val, {y: old for y in olds if cshow(base(y)) == cshow(lv)})
    pv = terms.poly(val2)
    w = c(0)
    for m, kf in pv.items():
        if x in m:
            r = list(m)
            r.remove(x)
            w = add(w, mul(c(kf), product(r)))
    d = sub(val2, add(old, sub(mul(w, x), mul(w, old))))
    ok = d.op == "c" and d.a[0] == 0 and not contains(w, x) and not contains(w, old)
    cx.check(ok, "convex combination", key + ":combine", where, "a sampled row must move its centre to (1 - rate) * centre + rate * row; found %s" % unprime(cshow(val))[:300])
    ws, As = unprime(cshow(w)), unprime(cshow(A))
    m = re.match(r"^(1/\()?\$(\w+)\[(.*?)\]\)?$", ws)
    ok = bool(m) and m.group(3) == As and bool(m.group(1)) == ws.endswith("])")
    cx.check(ok, "learning rate of the row's cluster", key + ":rateof", where, "the rate with which a row moves its centre must be its cluster's, found %s" % ws[:200])
    # which row the remembered number stands for
    pe, ps = pushed
    num = pe.x["val"]
    iv = pe.loops[0][0]
    rowno = add(iv, mk("ld", path("this.curr_task.start_rid")))
    tsub = worker_of(S, num)
    st = mk("ld", path("this.start_rid"))
    ai = k(base(A).a[1])
    got = subst(plain(ai, s), {plain(S, s): num})
    cx.check(same(got, rowno), "the row's cluster", key + ":rowcluster", where, "the cluster used for a remembered row is that of row %s instead of %s" % (cshow(got)[:150], cshow(rowno)))
    di = subst(plain(k(base(x).a[1]), s), {plain(S, s): num})
    col = mv[0][1].loops[-1][0]
    di = subst(di, {plain(col, s): c(0), col: c(0)})
    ncol = mk("ld", path("this.ncol"))
    cx.check(same(di, mul(sub(rowno, st), ncol)), "the row's coordinates", key + ":rowdata", where, "the coordinates used for a remembered row are at %s of the worker's data instead of %s" % (cshow(di)[:150], cshow(mul(sub(rowno, st), ncol))))
    ci = sub(idx, mul(A, mk("ld", path("this.ncol"))))
    cx.check(terms.poly(ci) and ci is col or same(ci, col), "the row's centre", key + ":centre", where, "the coordinate moved is %s" % unprime(cshow(idx))[:200])
    # the rates
    name = m.group(2) if m else None
    if name:
        C = "$" + name
        bl = [(unprime(l).replace("size(this.cluster_assignments)", "this.nrow"), e_) for l, e_ in inl]
        head = cut(mv[0][0])[0].split(" for q1<")[0]
        pre = unprime(head) + " "
        pos = {}
        for i, (l, e_) in enumerate(bl):
            pos.setdefault(l, i)
        cnt = pre + "for q1<this.nrow if !(INVALID_CLUSTER_ID == this.cluster_assignments[q1]) : %s[this.cluster_assignments[q1]] += 1" % C
        cx.check(cnt in pos, "rows of a cluster are counted", key + ":count", where, "the rows assigned so far must be counted per cluster, found %s" % [l[:200] for l in pos if ": " + C in l and "+=" in l][:2])
        z = [i for l, i in pos.items() if "fill base=%s lo=0 hi=this.k val=0" % C in l and l.startswith(pre)]
        cx.check(z and cnt in pos and z[0] < pos[cnt], "counts start at zero", key + ":zero", where, "the counts must start at zero in every pass")
        if not m.group(1):
            inv = [pre + "for q1<this.k : %s[q1] = 1/(%s[q1])" % (C, C)]
            hit = [pos[i] for i in inv if i in pos]
            cx.check(hit and cnt in pos and pos[cnt] < hit[0], "rate is one over the count", key + ":inverse", where, "a cluster's rate must be one over the number of its rows, found %s" % [l[-120:] for l in pos if ": %s[q1] =" % C in l][:2])
            mvpos = pos[unprime(mv[0][0])]
            cx.check(hit and hit[0] < mvpos, "rates before moves", key + ":order", where, "the centres are moved before the rates are known")
        others = [l for l, e_ in bl if re.search(r" : (copy dst=|fill base=|push obj=)?%s\b" % re.escape(C), l) and l != cnt and "val=0" not in l and "= 1/(" not in l]
        cx.check(not others, "nothing else changes the rates", key + ":others", where, "the rates are also changed by %s" % others[:2])
    # start the next pass afresh
    last = max(i for i, (l, e_) in enumerate(inl) if e_ is e)
    cl = [i for i, (l, e_) in enumerate(inl) if (e_.kind == "clear" or e_.kind == "resize" and e_.x.get("n") is not None and cshow(e_.x["n"]) == "0") and target(e_) == "mb_selected" and re.search(r"for q1<this\.nthreads$", cut(l)[0])]
    cx.check(cl and cl[-1] > last, "the sample is forgotten", key + ":forget", where, "after its pass every worker's sample must be emptied")
    fl = [i for i, (l, e_) in enumerate(inl) if re.search(r"(fill base=this\.dist_v lo=0 hi=(this\.nrow|size\(this\.dist_v\)) val=max\(\)|: this\.dist_v\[q1\] = max\(\))$", unprime(l)) and "if" not in cut(l)[0]]
    disp = [i for i, (l, e_) in enumerate(inl) if target(e_) == "state" and "MB_EM" in l]
    cx.check(fl and disp and (fl[-1] > disp[-1] or fl[-1] < disp[0]), "distances start afresh", key + ":fresh", where, "the distances of the last pass must be forgotten before the next one")


def anc(t, n):
    m = getattr(anc, "memo", None)
    if m is None or m[0] is not t:
        m = anc.memo = (t, {id(x): a for x, a in allnodes(t[0])})
    return m[1].get(id(n), ())


def product(r):
    o = c(1)
    for x in r:
        o = mul(o, x)
    return o


def flatphi(t):
    p = next((y for y in walk(t) if y.op == "phi"), None)
    if p is None:
        return [t]
    return flatphi(subst(t, {p: p.a[1]})) + flatphi(subst(t, {p: p.a[2]}))


def worker_of(*a):
    return None


def plain(t, s):
    """the driver's terms about worker number q, as the worker sees them (this)"""
    mp = {}
    for x in walk(t):
        if x.op in ("ld", "ald", "hv") and base(x).op == "I" and fieldname(base(x).a[0]) == "threads":
            mp[x] = THIS
        if x.op == "I" and fieldname(x.a[0]) == "threads":
            mp[x] = THIS
    t = subst(t, mp)
    return K0(t)


def K0(t):
    # drop versions of loads
    def go(x):
        if not isinstance(x, T):
            return x
        if x.op in ("ld", "ald", "hv"):
            return mk("ld", go(x.a[0]))
        return x
    mp = {}
    for x in walk(t):
        if x.op in ("ald", "hv") or x.op == "ld" and len(x.a) > 1:
            mp[x] = mk("ld", x.a[0])
    return subst(t, mp) if mp else t


def same(a, b):
    return unprime(cshow(a)) == unprime(cshow(b)) or (lambda d: d.op == "c" and d.a[0] == 0)(sub(a, b))


def c28(cx):
    fm = fams(cx, "kmeans_task")[0]
    p = worker(cx, fm)
    if p is not None:
        driver(cx, fm, p)
