"""Who owns which row: division among processes and workers, loading, looking up, and visiting each row once."""
from kmeans import *

N, TN, P, RK = sym("rows"), sym("workers"), sym("processes"), sym("process")
ROWF = ("nprocrows", "nrow")


def modless(t):
    """a % b written as a - b * (a / b)"""
    mp = {x: add(x.a[0], mul(c(-1), mul(x.a[1], mk("idiv", x.a[0], x.a[1])))) for x in walk(t) if x.op == "mod"}
    return subst(t, mp) if mp else t


def zero(t, truth):
    """t is 0 once the conditions in `truth` are fixed"""
    t = subst(t, truth)
    for _ in range(6):
        n = modless(t)
        n = n if n.op == "c" else add(n, c(0))
        if n is t:
            break
        t = n
    return t.op == "c" and t.a[0] == 0, t


def cond_of_last(ts, iv, n):
    """comparisons that tell the last part from the others, with their value for the others"""
    out = {}
    for t in ts:
        for x in walk(t):
            if x.op == "==" and any(y is iv for y in walk(x)) and subst(x, {iv: add(n, c(-1))}) is TRUE:
                out[x] = FALSE
            if x.op in ("<", "<=") and contains(x, iv) and not contains(x, mk("idiv", N, TN)):
                # i < n-1 and the like
                d = sub(x.a[1], x.a[0])
                v = subst(d, {iv: add(n, c(-1))})
                if v.op == "c":
                    last = (v.a[0] > 0) if x.op == "<" else (v.a[0] >= 0)
                    e = add(d, iv)
                    if not contains(e, iv):             # grows towards the front: the others have it larger
                        nxt = v.a[0] + 1
                        oth = (nxt > 0) if x.op == "<" else (nxt >= 0)
                    else:
                        nxt = v.a[0] - 1
                        oth = (nxt > 0) if x.op == "<" else (nxt >= 0)
                    if last != oth:
                        out[x] = c(1 if oth else 0)
    return out


def parts(cx, key, what, start, length, iv, n, total, where):
    """start/length (terms over iv in 0..n-1) divide 0..total-1 into consecutive parts"""
    oth = cond_of_last([start, length], iv, n)
    lastv = {iv: add(n, c(-1))}
    ok, r = zero(subst(start, {iv: c(0)}), {})
    if not ok:
        ok, r = zero(subst(subst(start, oth), {iv: c(0)}), {})
    cx.check(ok, "first part starts at row 0", key + ":first", where, "the first %s starts at row %s" % (what, cshow(r)[:150]))
    s1 = subst(start, oth)
    nx = subst(subst(start, oth), {iv: add(iv, c(1))})
    ok, r = zero(sub(sub(nx, s1), subst(length, oth)), {})
    cx.check(ok, "parts follow each other", key + ":next", where, "a %s's rows do not end where the next one's start: off by %s" % (what, cshow(r)[:150]))
    st, le = subst(start, lastv), subst(length, lastv)
    ok, r = zero(sub(add(st, le), total), {})
    cx.check(ok, "last part ends at the last row", key + ":last", where, "the last %s's rows end %s past the last row" % (what, cshow(r)[:150]))


def phis(vals):
    """value left by a sequence of (guards, value) stores"""
    v = None
    for g, x in vals:
        v = x if v is None or not g else phi(and_(*g), x, v)
    return v


class Built(object):
    """the workers a driver creates"""

    def __init__(self, cx, fm):
        self.sites = []
        roots = [cx.model.tree(ct, fm.coord, fm) for ct in cx.model.db.fn.values() if ct.get("ctor") and ct.get("cls") == fm.coord and ct.get("body") is not None]
        try:
            roots.append(cx.model.drive(fm, "run"))
        except AnalysisBroken:
            pass
        for t in roots:
            cx.seen(t)
            for n, a in allnodes(t[0]):
                if n.kind == "push" and isinstance(n.get("obj"), T) and n.obj.op == "F" and n.obj.a[0] is THIS and n.obj.a[1] == "threads":
                    self.sites.append((t, n, a))


def closed(cx, t):
    cl = Closer(t[0])
    return lambda x: canon.kern(cl.close(x), enums_of(cx.model))


def shape(cx, fm):
    """terms for the division of the driver's rows among its workers"""
    key = "C06:%s" % fm.name
    b = Built(cx, fm)
    if len(b.sites) != 1:
        raise AnalysisBroken("%s: %d places where workers are created" % (fm.name, len(b.sites)))
    t, push, anc = b.sites[0]
    Ls = [x for x in anc if x.kind == "loop"]
    if len(Ls) != 1 or Ls[0].nbreaks:
        raise AnalysisBroken("%s: workers are not created in one loop" % fm.name)
    L = Ls[0]
    K = closed(cx, t)
    tree_nodes = list(allnodes(t[0]))
    val = lambda obj, f: phis([([p for p in n.pc if p not in push.pc and p not in L.pc and contains(p, L.iv)], n.val) for n, a in tree_nodes
                               if n.kind == "store" and n.lv.op == "F" and n.lv.a[0] is obj and n.lv.a[1] == f and (not a or True)])
    this = lambda f: phis([([], n.val) for n, a in tree_nodes if n.kind == "store" and n.lv is mk("F", THIS, f) and n.lv is mk("F", THIS, f)]) if t[0].name != "run" else None
    obj = push.val
    nrow = thisval(t, tree_nodes, "nrow")
    nthr = thisval(t, tree_nodes, "nthreads")
    ab = {}
    if nthr is not None and nthr.op != "sym":
        ab[K(nthr)] = TN
    ab[mk("ld", mk("F", THIS, "nthreads"))] = TN
    ab[mk("ld", mk("F", THIS, "nrow"))] = N
    if nrow is not None:
        ab[K(nrow)] = N
    cn = lambda x: subst(subst(K(x), {k: v for k, v in ab.items() if v is TN}), {k: v for k, v in ab.items() if v is N})
    return t, push, L, obj, val, cn, key, tree_nodes


def thisval(t, nodes, f):
    vs = [n.val for n, a in nodes if n.kind == "store" and n.lv is mk("F", THIS, f)]
    return vs[-1] if vs else None


def workers(cx, fm):
    t, push, L, obj, val, cn, key, nodes = shape(cx, fm)
    where = loc(push)
    trip = Closer(t[0]).trip(L)
    tr = cn(trip) if trip is not None else None
    cx.check(tr is TN, "one worker per thread", key + ":number", loc(L), "the driver starts %s workers" % (cshow(tr) if tr is not None else "an unknown number of"))
    start = val(obj, "start_rid")
    size = val(obj, "data_size")
    q = val(obj, "tasks")
    rows = val(obj, "nprocrows") if q is None else val(q, "nrow")
    if start is None or rows is None or size is None:
        raise AnalysisBroken("%s: a worker's rows were not found" % fm.name)
    start, rows, size = cn(start), cn(rows), cn(size)
    parts(cx, key, "worker", start, rows, L.iv, TN, N, where)
    nc = cn(val(obj, "ncol"))
    cx.check(zero(sub(size, mul(mul(c(8), rows), nc)), {})[0], "room for the worker's rows", key + ":size", where, "a worker's data has %s bytes, its rows take 8 * rows * columns" % cshow(size)[:120])
    if q is not None:
        qs = cn(val(q, "start_rid"))
        cx.check(zero(sub(qs, start), {})[0], "tasks start at the worker's first row", key + ":tasks", where, "the tasks count rows from %s, the worker's first row is %s" % (cshow(qs)[:80], cshow(start)[:80]))
        qc = cn(val(q, "ncol"))
        cx.check(qc is nc, "task row width", key + ":taskcols", where, "the tasks take rows of %s values" % cshow(qc))
    # lookup table of the ends
    ends = [(n, a) for n, a in nodes if n.kind == "push" and isinstance(n.get("obj"), T) and n.obj is mk("F", THIS, "thd_max_row_idx")]
    ok = len(ends) == 1 and L in ends[0][1] and zero(sub(cn(ends[0][0].val), add(start, rows)), {})[0]
    cx.check(ok, "lookup table", key + ":ends", loc(ends[0][0]) if ends else where, "the table of the workers' row ends gets %s" % (cshow(cn(ends[0][0].val))[:150] if ends else "nothing"))
    idn = cn(val(obj, "thd_id"))
    cx.check(idn is L.iv, "worker numbers", key + ":id", where, "worker %s gets number %s" % ("i", cshow(idn)))
    lookup(cx, fm, start, L.iv, key)
    return start, rows


def lookup(cx, fm, start, iv, key):
    f = cx.model.db.find_method(fm.coord, "get_thd_data")
    if f is None:
        raise AnalysisBroken("get_thd_data not found")
    t = cx.model.tree(f, fm.coord, fm)
    cx.seen(t)
    r = t[2]
    r = closed(cx, t)(r) if isinstance(r, T) else None
    where = "%s (%s)" % (str(f.get("l", "")), f["q"])
    ok, got = False, r
    if r is not None and r.op == "I":
        ub = [x for x in walk(r) if x.op == "call" and x.a[0] == "upper_bound"]
        b = r.a[0]
        while b.op in ("ld", "ald"):
            b = b.a[0]
        if b.op == "F" and b.a[1] == "local_data":
            th = b.a[0]
            while th.op in ("ld", "ald"):
                th = th.a[0]
            if th.op == "I" and cshow(th.a[0]).endswith("threads"):
                Px = th.a[1]
                wantP = "pdiff(upper_bound(this.thd_max_row_idx[0], this.thd_max_row_idx[size(this.thd_max_row_idx)], ROW), this.thd_max_row_idx[0])"
                row = ub[0].a[-1] if ub else next((x for x in walk(r.a[1]) if x.op == "sym"), NULL)
                # equal shares: the number of the share, at most that of the last worker
                byhand = "min((%s / (this.nrow / this.nthreads)), (-1 + this.nthreads))" % cshow(row), "min((-1 + this.nthreads), (%s / (this.nrow / this.nthreads)))" % cshow(row)
                if (cshow(Px) == wantP.replace("ROW", cshow(row)) or cshow(Px) in byhand) and row.op == "sym":
                    s = subst(subst(start, {TN: mk("ld", mk("F", THIS, "nthreads")), N: mk("ld", mk("F", THIS, "nrow"))}), cond_of_last([start], iv, TN))
                    s = subst(s, {iv: Px})
                    d = sub(r.a[1], mul(sub(row, s), mk("ld", mk("F", THIS, "ncol"))))
                    ok, got = zero(d, {})
    cx.check(ok, "row lookup", key + ":lookup", where, "looking up a row does not give the row of the worker that owns it: %s" % (cshow(got)[:250] if got is not None else "?"))


def loading(cx, fm):
    key = "C06:%s" % fm.name
    # from the caller's memory
    for meth in ("run", "mb_run"):
        if fm.name == "gmm" or fm.name.startswith("dist") or meth == "mb_run" and fm.name != "kmeans_task":
            continue
        s = Sum(cx, cx.model.drive(fm, meth), want=lambda n, t: n.kind == "store")
        s.rx(r"\(this\.nthreads \+ this\.nthreads\)", "this.nthreads")
        ls = [(l, e) for l, e in s.items if e.kind == "store" and target(e) in ("local_data", "data") and "this.threads[" in cut(l)[1][:14]]
        want = ["this.threads[q0].local_data = allocd_data[%s]" % "*".join(sorted(["this.threads[q0].ncol", "this.threads[q0].start_rid"]))]
        alt = ["this.threads[q0].local_data = allocd_data[%s]" % "*".join(sorted(["this.ncol", "this.threads[q0].start_rid"]))]
        # a later store to the same place replaces the earlier one
        ls = [x for i, x in enumerate(ls) if not any(y[1].lv is x[1].lv and cut(y[0])[0] == cut(x[0])[0] and frozenset(y[1].guards) <= frozenset(x[1].guards) for y in ls[i + 1:])]
        own = [x for x in ls if target(x[1]) == "local_data"]
        bodies = {cut(l)[1].strip() for l, _ in own}
        head = all(l.startswith("for q0<this.nthreads if ") for l, _ in own)
        cx.check(bodies and (bodies == set(want) or bodies == set(alt)) and head, "rows from memory", "%s:%s:memory" % (key, meth), loc(own[0][1].n) if own else "",
                 "every worker must find its rows at its first row in the caller's array; found %s" % [l[:200] for l, _ in own][:3])
        if "task" in fm.name:
            td = [x for x in ls if target(x[1]) == "data"]
            b = {cut(l)[1].strip() for l, _ in td}
            cx.check(b and b <= {"this.threads[q0].tasks.data = this.threads[q0].local_data", "this.threads[q0].tasks.data = this.threads[q0].local_data'"} | {"this.threads[q0].tasks.data = " + x.split(" = ")[1] for x in want + alt},
                     "tasks read the worker's rows", "%s:%s:taskdata" % (key, meth), loc(td[0][1].n) if td else "", "the tasks' data is %s" % sorted(b)[:3])
    # from the file
    t = cx.model.work(fm, "ALLOC_DATA")
    cx.seen(t)
    K = closed(cx, t)
    calls = {}
    for n, a in allnodes(t[0]):
        if n.kind == "call" and n.name in ("fseek", "fread", "fseeko", "numa_alloc_onnode", "fseeko64"):
            calls.setdefault(n.name.replace("fseeko64", "fseek").replace("fseeko", "fseek"), []).append(n)
    F = lambda f: mk("ld", mk("F", THIS, f))
    fl, st, nc, ds = F("f"), F("start_rid"), F("ncol"), F("data_size")
    sk, rd = calls.get("fseek", []), calls.get("fread", [])
    ok = len(sk) == 1 and K(sk[0].args[0]) is fl and zero(sub(K(sk[0].args[1]), mul(mul(c(8), st), nc)), {})[0] and cshow(K(sk[0].args[2])) == "0"
    cx.check(ok, "position in the file", key + ":seek", loc(sk[0]) if sk else "", "the worker must position the file at its first row (8 * columns * first row bytes from the start), found %s" % [[cshow(K(x)) for x in n.args] for n in sk][:2])
    ok = len(rd) == 1 and zero(sub(mul(K(rd[0].args[1]), K(rd[0].args[2])), ds), {})[0] and K(rd[0].args[3]) is fl
    cx.check(ok, "all of the worker's rows are read", key + ":read", loc(rd[0]) if rd else "", "the worker must read all bytes of its rows, found %s" % [[cshow(K(x)) for x in n.args] for n in rd][:2])
    if len(sk) == 1 and len(rd) == 1:
        order = [n.name for n, a in allnodes(t[0]) if n in (sk[0], rd[0])]
        cx.check(order[0].startswith("fseek"), "position before reading", key + ":order", loc(rd[0]), "the file is read before it is positioned")
        buf = K(rd[0].args[0])
        stores = {fieldname(n.lv): K(n.val) for n, a in allnodes(t[0]) if n.kind == "store" and fieldname(n.lv) in ("local_data", "data")}
        want = ["local_data"] + (["data"] if "task" in fm.name else [])
        for w in want:
            cx.check(stores.get(w) is buf, "rows are where they are used", "%s:buffer:%s" % (key, w), loc(rd[0]), "the rows are read to %s, but the worker's %s is %s" % (cshow(buf), w, cshow(stores[w]) if w in stores else "not set"))
        al = [n for n in calls.get("numa_alloc_onnode", []) if n.get("ret") is not None and K(n.ret) is buf]
        if al:
            cx.check(K(al[0].args[0]) is ds, "room for the rows", key + ":room", loc(al[0]), "the buffer for the rows has %s bytes" % cshow(K(al[0].args[0])))


def processes(cx, fm):
    """the rows of the processes of a distributed run"""
    key = "C06:%s" % fm.name
    ct = [g for g in cx.model.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]
    for g in ct:
        t = cx.model.tree(g, fm.coord, fm)
        cx.seen(t)
        K = closed(cx, t)
        nodes = list(allnodes(t[0]))
        nrow = thisval(t, nodes, "nrow")
        sh = [n for n, a in nodes if n.kind == "store" and fieldname(n.lv) == "start_rid" and contains(n.lv, mk("F", THIS, "threads"))]
        if nrow is None or len(sh) != 1:
            cx.check(False, "process offset", key + ":offset", loc(sh[0]) if sh else "", "the workers' first rows must be moved once to the process's rows")
            continue
        mp = {}
        for x in list(walk(K(nrow))) + list(walk(K(sh[0].val))):
            if x.op in ("ld", "hv") and cshow(x).rstrip("'") == "this.mpi_rank":
                mp[x] = RK
            if x.op in ("ld", "hv") and cshow(x).rstrip("'") == "this.nprocs":
                mp[x] = P
            if x.op in ("mu",) :
                mp[x] = sym("old")
            if x.op == "ld" and cshow(x).rstrip("'") == "this.g_nrow":
                mp[x] = sym("nrow")
            if x.op == "ld" and x.a[0].op == "F" and x.a[0].a[1] == "start_rid":
                mp[x] = sym("old")
        ln, val = subst(K(nrow), mp), subst(K(sh[0].val), mp)
        off = sub(val, sym("old"))
        parts(cx, key + ":process", "process", off, ln, RK, P, sym("nrow"), loc(sh[0]))
        g_ = [n for n, a in nodes if n.kind == "store" and n.lv is mk("F", THIS, "g_nrow")]
        cx.check(bool(g_) and all(K(n.val) is sym("nrow") for n in g_), "rows of the whole data", key + ":global", loc(g_[0]) if g_ else "", "the number of rows of all processes is set to %s" % [cshow(K(n.val)) for n in g_][:2])


def c06(cx):
    n = 0
    for fm in cx.model.fams:
        workers(cx, fm)
        loading(cx, fm)
        n += 1
        if fm.name.startswith("dist"):
            processes(cx, fm)
    if n < 8:
        raise AnalysisBroken("only %d drivers found" % n)


# ------------------------------------------------------------------ every row once per pass
ROWDATA = ("local_data", "data")
PHASES = {"fcm": ("E", "M"), "hclust": (), "kmeans": ("EM", "KMSPP_INIT"), "medoid": ("EM", "MEDOID"), "kmeans_task": ("KMSPP_INIT", "EM", "MB_EM"),
          "skmeans": ("EM", "KMSPP_INIT"), "dist": ("EM", "KMSPP_INIT"), "dist_task": ("EM", "KMSPP_INIT"), "xmeans": ("H_EM", "MEAN", "H_SPLIT"), "gmeans": ("H_EM", "MEAN", "H_SPLIT")}


def ownrow(loc_):
    """index into the worker's own rows, if the location is one of their coordinates"""
    if loc_.op != "I":
        return None
    b = loc_.a[0]
    while b.op in ("ld", "ald", "hv"):
        b = b.a[0]
    if b.op == "F" and b.a[1] in ROWDATA:
        f = fieldchain(b)
        if b.a[0] is THIS and b.a[1] == "local_data" or "curr_task" in f or "tasks" in f:
            return loc_.a[1]
    return None


def terms_of(n):
    for k in ("lv", "val", "cond", "src", "dst", "base", "obj", "lo", "hi", "n"):
        v = n.get(k)
        if isinstance(v, T):
            yield v
    for v in n.get("args", ()) or ():
        if isinstance(v, T):
            yield v


def rowloops(cx, fm, ph):
    """every loop whose counter picks one of the worker's rows: runs over all of them, one by one; what it writes per row is that row's entry"""
    t = cx.model.work(fm, ph)
    cx.seen(t)
    K = closed(cx, t)
    key = "C07:%s:%s" % (fm.name, ph)
    task = "task" in fm.name
    nrow = path("this.curr_task.nrow") if task else path("this.nprocrows")
    strt = path("this.curr_task.start_rid") if task else path("this.start_rid")
    nrow, strt, ncol = mk("ld", nrow), mk("ld", strt), mk("ld", path("this.ncol"))
    found = {}
    for n, a in allnodes(t[0]):
        Ls = [x for x in a if x.kind == "loop"]
        if not Ls:
            continue
        for v in terms_of(n):
            for x in walk(v):
                i = ownrow(x) if x.op == "I" else None
                if i is None:
                    continue
                i = K(i)
                for L in Ls:
                    if L.iv in set(walk(i)):
                        # coefficient of the counter
                        d = sub(subst(i, {L.iv: add(L.iv, c(1))}), i)
                        if d is ncol:
                            found.setdefault(id(L), (L, i))
                        elif direct(i, L.iv) and d.op != "c":
                            cx.check(False, "a row's coordinates", key + ":stride", loc(n), "row i of the worker starts at %s, it has %s coordinates per row" % (cshow(i)[:120], cshow(ncol)))
    if not found:
        return 0
    for L, i in found.values():
        lk = "%s:%s" % (key, len([1 for x in found if x == id(L)]))
        tr = Closer(t[0]).trip(L)
        tr = K(tr) if tr is not None else None
        base0 = subst(i, {L.iv: c(0)})
        z = [y.iv for y in found_ivs(t, L)]
        off = subst(base0, {y: c(0) for y in z})
        cx.check(tr is not None and zero(sub(tr, nrow), {})[0] and not breaks(L), "all rows, one by one", key + ":range", loc(L),
                 "the loop over the worker's rows makes %s steps%s, the worker has %s rows" % (cshow(tr) if tr is not None else "an undetermined number of", " and may end early" if breaks(L) else "", cshow(nrow)))
        cx.check(off.op == "c" and off.a[0] == 0, "from the first row", key + ":first", loc(L), "the loop over the worker's rows starts at offset %s" % cshow(off)[:120])
        # per-row tables, shared by the workers: the row's number in the whole data
        done = set()
        for n, a in allnodes(t[0]):
            if L not in a:
                continue
            for v in terms_of(n):
                for x in walk(v):
                    if x.op != "I" or (x, n.kind == "store" and v is n.lv) in done:
                        continue
                    j = K(x.a[1])
                    if not direct(j, L.iv) or ownrow(x) is not None or rootof(x).op in ("L", "tmp"):
                        continue            # or indexed by something looked up for the row
                    wr = n.kind == "store" and v is n.lv
                    done.add((x, wr))
                    r = subst(sub(j, add(L.iv, strt)), {y.iv: c(0) for y in found_ivs(t, L)})
                    cx.check(r.op == "c" and r.a[0] == 0, "own rows' entries", "%s:entry:%s" % (key, fieldname(x.a[0]) or "?"), loc(n),
                             "the entry %s for the worker's row i is %s, that row's number is first row + i" % ("written" if wr else "used", cshow(j)[:150]))
    return len(found)


def found_ivs(t, L):
    return [n for n, a in allnodes(t[0]) if n.kind == "loop" and n is not L]


def direct(j, iv):
    """the counter itself is part of the sum, not only of something looked up with it"""
    if j is iv:
        return True
    if j.op == "+":
        return any(direct(x, iv) for m, k in j.a for x in m)
    return j.op in ("/", "%", "neg", "cast") and any(direct(x, iv) for x in j.a if isinstance(x, T))


def chainI(l):
    while l.op in ("F", "I", "ld", "ald", "hv", "V", "size"):
        if l.op == "I":
            yield l
        l = l.a[0]


def tasks(cx, fm):
    """the pieces handed out one after the other are consecutive and together all rows"""
    key = "C07:%s:tasks" % fm.name
    db = cx.model.db
    tq = "knor::task_queue"
    f = db.find_method(tq, "get_task")
    if f is None:
        raise AnalysisBroken("get_task not found")
    t = cx.model.tree(f, tq, fm)
    K = closed(cx, t)
    s = Sum(cx, t)
    cur, nr, st, nc = (mk("ld", path("this." + x)) for x in ("curr_rid", "nrow", "start_rid", "ncol"))
    has = mk("ld", path("this._has_task"))
    live = [(l, e) for l, e in s.items if e.kind == "store" and not any(g is not_(has) for g in e.guards)]
    G = lambda e: frozenset(g for g in e.guards if g is not has)
    where = "%s (%s)" % (f.get("l", ""), f["q"])

    def of(fld, own):
        out = []
        for l, e in live:
            if target(e) == fld and (e.lv.op == "F" and (e.lv.a[0] is THIS) == own):
                out.append(e)
        return out

    def valof(e):
        return K(e.n.val)
    strip = {}
    for x in of("start_rid", False):
        cx.check(zero(sub(valof(x), add(st, cur)), {})[0] and not G(x), "a piece's first row", key + ":start", loc(x.n), "the piece starts at row %s, the next row not handed out is start_rid + curr_rid" % cshow(valof(x)))
    for x in of("data", False):
        v = valof(x)
        ok = v.op == "I" and cshow(v.a[0]) == "this.data" and zero(sub(v.a[1], mul(cur, nc)), {})[0] and not G(x)
        cx.check(ok, "a piece's data", key + ":data", loc(x.n), "the piece's data is %s, not that of its first row" % cshow(v)[:120])
    if not of("start_rid", False) or not of("data", False):
        raise AnalysisBroken("get_task: the piece's place was not found")
    sizes = of("nrow", False)
    if not sizes:
        raise AnalysisBroken("get_task: the piece's size was not found")
    curs, hass = of("curr_rid", True), of("_has_task", True)
    allg = []
    def cases(g, v):
        p = next((y for y in walk(v) if y.op == "phi"), None)
        if p is None:
            return [(g, v)]
        return [z for cnd, w in ((p.a[0], p.a[1]), (not_(p.a[0]), p.a[2])) if not_(cnd) not in g for z in cases(g | {cnd}, subst(v, {p: w}))]
    for x, g, n in [(x, g, n) for x in sizes for g, n in cases(G(x), valof(x))]:
        allg.append(and_(*g) if g else TRUE)
        last = [h for h in hass if G(h) <= g]
        for h in last:
            cx.check(valof(h).op == "c" and valof(h).a[0] == 0, "end of the rows", key + ":end", loc(h.n), "handing out a piece marks the queue as non-empty")
        if last:
            cx.check(zero(sub(n, sub(nr, cur)), {})[0], "the last piece is the rest", key + ":rest", loc(x.n), "the last piece has %s rows, %s are left" % (cshow(n), cshow(sub(nr, cur))))
            continue
        mv = [q for q in curs if G(q) <= g]
        ok = len(mv) == 1 and any(zero(sub(v, add(cur, n)), {})[0] for q, v in cases(G(mv[0]), valof(mv[0])) if q <= g)
        cx.check(ok, "the next piece follows", key + ":next", loc(x.n), "after a piece of %s rows the next one starts at %s" % (cshow(n), [cshow(valof(q)) for q in mv]))
        left = sub(nr, add(cur, n))
        ok = False
        for y in g:
            if y.op in ("<", "<="):
                d = sub(left, sub(y.a[1], y.a[0]))
                if d.op == "c" and d.a[0] >= (0 if y.op == "<" else 1):
                    ok = True
        cx.check(ok, "rows are left when more pieces follow", key + ":left", loc(x.n), "a piece of %s rows is handed out without knowing that rows are left after it (known: %s)" % (cshow(n), [cshow(y) for y in g]))
    tot = or_(*allg)
    cx.check(tot is TRUE or canon.tautology(tot, enums_of(cx.model)), "every hand-out has a size", key + ":all", loc(sizes[0].n), "in some cases the piece has no size")
    # starting over
    f = db.find_method(tq, "reset")
    s = Sum(cx, cx.model.tree(f, tq, fm))
    s.rx(r"if \((0 < this\.nrow|1 <= this\.nrow)\) : this\._has_task", ": this._has_task")
    s.rx(r"if !\(0 == this\.nrow\) : this\._has_task", ": this._has_task")
    s.check(key + ":reset", "start over", [": this.curr_rid = 0", ": this._has_task = 1"], msg="a reset queue hands out all rows again")
    # at the start of a phase
    f = db.find_method(fm.worker, "wake")
    t = cx.model.tree(f, fm.worker, fm)
    cx.seen(t)
    for ph in PHASES[fm.name]:
        mp = {}
        for n, a in allnodes(t[0]):
            for p in n.pc:
                for x in walk(p):
                    if x.op == "==" and any(y.op == "e" for y in x.a) and any(y.op == "sym" for y in x.a):
                        mp[x] = TRUE if any(y.op == "e" and y.a[0] == ph for y in x.a) else FALSE
        seq = []
        for n, a in allnodes(t[0]):
            gs = [subst(p, mp) for p in n.pc]
            if FALSE in gs:
                continue
            if n.kind == "store" and fieldname(n.lv) == "curr_rid" and n.val.op == "c" and n.val.a[0] == 0:
                seq.append("reset")
            if n.kind == "store" and fieldname(n.lv) == "start_rid" and rootof(n.lv).op == "new":
                seq.append("take")
            if n.kind == "store" and n.lv is mk("F", THIS, "curr_task"):
                seq.append("set")
        cx.check(seq[:1] == ["reset"] and "take" in seq and seq[-1:] == ["set"], "a phase starts with all rows", "%s:wake:%s" % (key, ph), loc(t[0]),
                 "when a worker is woken for %s it must start over and take the first piece; it does %s" % (ph, seq or "nothing"))
    # at the end of a piece
    for ph in PHASES[fm.name]:
        t = cx.model.work(fm, ph)
        cur_ = [(n, a) for n, a in allnodes(t[0]) if n.kind == "store" and n.lv is mk("F", THIS, "curr_task") and n.val.op != "null"]
        rowl = [n for n, a in allnodes(t[0]) if n.kind == "loop"]
        ok = len(cur_) >= 1 and all(n.val.op == "new" or n.val.op == "phi" for n, a in cur_)
        hs = {x for n, a in cur_ for p in n.pc for x in walk(p)}
        ok = ok and all(any(cshow(K_).rstrip("'") == "this.tasks._has_task" for K_ in [p for p in n.pc]) for n, a in cur_)
        cx.check(ok, "the next piece is fetched", "%s:next:%s" % (key, ph), loc(cur_[0][0]) if cur_ else loc(t[0]), "after a piece the worker must go on with the next one as long as there is one")


def c07(cx):
    n = 0
    for fm in cx.model.fams:
        for ph in PHASES.get(fm.name, ()):
            k = rowloops(cx, fm, ph)
            cx.obl["row loops found"] = cx.obl.get("row loops found", 0) + k
            n += k
        if "task" in fm.name:
            tasks(cx, fm)
    if n < 12:
        raise AnalysisBroken("only %d loops over rows found" % n)
