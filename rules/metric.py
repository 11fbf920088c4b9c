"""Distance kernels, their selection by name, and their use."""
from kmeans import *

NAMES = {"eucl": "EUCL", "cos": "COS", "taxi": "TAXI", "sqeucl": "SQEUCL"}
KERNEL = {"eucl_dist": "eucl", "sqeucl_dist": "sqeucl", "taxi_dist": "taxi", "cos_dist": "cos"}
STREQ = re.compile(r"^\('(\w*)' == (\w+)\)$|^\((\w+) == '(\w*)'\)$")


def named(t, name):
    """t when the metric's name is `name` (a name is what is compared with a metric's)"""
    at = []
    for x in walk(t):
        if x.op in ("==", "eq") or terms.isbool(x):
            m = STREQ.match(cshow(x))
            if m:
                at.append((x, m.group(2) or m.group(3), m.group(1) or m.group(4)))
    vs = set(v for x, v, l in at if l in NAMES)
    mp = {}
    for x, v, l in at:
        if v in vs:
            mp[x] = TRUE if l == name else FALSE
            mp[not_(x)] = not_(mp[x])
    return subst(t, mp)


def chosen(dt, e):
    """atoms (E == dt) for the enumerator e"""
    def f(t):
        mp = {}
        for x in walk(t):
            if terms.isbool(x):
                m = re.match(r"^\((\w+) == %s\)$|^\(%s == (\w+)\)$" % (dt, dt), cshow(x))
                if m:
                    mp[x] = TRUE if (m.group(1) or m.group(2)) == e else FALSE
                    mp[not_(x)] = not_(mp[x])
        return subst(t, mp)
    return f


def returned(c, s, t, f):
    """the distinct values the function returns on the paths left open by f (f: term -> term)"""
    out = {}
    rs = [n for n, a in allnodes(t[0]) if n.kind == "return" and n.val is not None]
    top = min([n.depth for n in rs] + [99])
    for n in rs:
        if n.depth > top:
            continue
        if any(f(p) is FALSE for p in n.pc):
            continue
        out.setdefault(cshow(s.nf.k(s.nf.cl.close(f(n.val)))), n)
    return out


def one(c, name):
    fs = [f for f in c.model.db.fn.values() if f.get("body") is not None and short(f["q"]) == name and f["q"].startswith("knor::")]
    if not fs:
        raise AnalysisBroken("%s not found" % name)
    return fs


def c10(c):
    msg = "the %s distance is not computed by its definition over all coordinates: %s"
    for name, k in KERNEL.items():
        for f in one(c, name):
            t = c.model.tree(f)
            s = Sum(c, t)
            P = [p["n"] for p in f["params"]]
            vals = returned(c, s, t, lambda x: x)
            want = {"%s(%s, %s, %s)" % (k, P[0], P[1], P[2]), "%s(%s, %s, %s)" % (k, P[1], P[0], P[2])}
            c.check(len(vals) == 1 and set(vals) <= want, "distance definition", "C10:%s" % name, loc(next(iter(vals.values()))) if vals else f["q"], msg % (k, sorted(vals)[:2]))
    for f in one(c, "dist_comp_raw"):
        t = c.model.tree(f)
        s = Sum(c, t)
        P = [p["n"] for p in f["params"]]
        for nm, e in NAMES.items():
            vals = returned(c, s, t, chosen(P[3], e))
            want = {"%s(%s, %s, %s)" % (nm, P[0], P[1], P[2]), "%s(%s, %s, %s)" % (nm, P[1], P[0], P[2])}
            c.check(len(vals) == 1 and set(vals) <= want, "distance dispatch", "C10:dispatch:%s" % nm, loc(next(iter(vals.values()))) if vals else f["q"], "the metric %s computes %s" % (nm, sorted(vals)[:2]))
    for f in one(c, "get_dist_type"):
        t = c.model.tree(f)
        s = Sum(c, t)
        for nm, e in NAMES.items():
            vals = returned(c, s, t, lambda x: named(x, nm))
            c.check(set(vals) == {e}, "metric by name", "C10:name:%s" % nm, loc(next(iter(vals.values()))) if vals else f["q"], "the name %r selects %s" % (nm, sorted(vals)))
    for fm in c.model.fams:
        names(c, fm)
        s = Sum(c, c.model.drive(fm, "build_thread_state"))
        s.check("C10:%s:worker" % fm.name, "workers use the driver's metric", ["for q0<this.nthreads : new<%s>.dist_metric = this._dist_t" % fm.worker], fields=("dist_metric",),
                msg="every worker measures with the driver's metric")
        uses(c, fm)
    for nm, t, L, base in autos(c):
        for x, e in (("eucl", "EUCL"), ("cos", "COS")):
            last = {}
            for n, a in allnodes(t[0]):
                if n.kind == "store" and cshow(n.lv).startswith("g_dist_type"):
                    if any(named(p, x) is FALSE for p in n.pc):
                        continue
                    last[cshow(named(n.val, x))] = n
            c.check(set(last) == {e}, "metric by name", "C10:%s:name:%s" % (nm, x), loc(L), "the name %r selects %s" % (x, sorted(last)))
        bad = set()
        s = Sum(c, t)
        for l, ef in s.items:
            for m in re.finditer(r"\b(taxi|sqeucl|dist)\(", l):
                bad.add(m.group(1))
        c.check(not bad, "metric in use", "C10:%s:use" % nm, loc(L), "measures with %s whatever metric was asked for" % sorted(bad))


def names(c, fm):
    fs = [f for f in c.model.db.fn.values() if f.get("body") is not None and short(f["q"]) == "create" and f.get("cls") == fm.coord]
    if not fs:
        raise AnalysisBroken("%s: create not found" % fm.name)
    for f in fs:
        t = c.model.tree(f)
        c.seen(t)
        for nm, e in NAMES.items():
            got = {}
            for n, a in allnodes(t[0]):
                if n.kind == "store" and fieldname(n.lv) == "_dist_t" and not any(named(p, nm) is FALSE for p in n.pc):
                    got[cshow(named(n.val, nm))] = n
            c.check(set(got) == {e}, "metric by name", "C10:%s:name:%s" % (fm.name, nm), loc(next(iter(got.values()))) if got else f["q"],
                    "the name %r makes the driver use %s" % (nm, sorted(got)))


def uses(c, fm):
    """every distance a worker computes is by its metric and over all columns"""
    n = 0
    for ph in enums_of_states(c):
        try:
            t = c.model.work(fm, ph)
        except AnalysisBroken:
            continue
        s = Sum(c, t)
        for l, e in s.items:
            for m in re.finditer(r"\b(eucl|sqeucl|cos|taxi|dist)\(", l):
                a = args(l, m.end())
                n += 1
                if m.group(1) != "dist":
                    c.bad("C10:%s:%s:%s" % (fm.name, ph, m.group(1)), loc(e.n), "a worker measures with the %s distance whatever metric is configured" % m.group(1), "metric in use")
                elif len(a) != 4 or a[0] != "this.dist_metric" or not (a[3] == "this.ncol" or a[3].endswith(".ncol")):
                    c.bad("C10:%s:%s:args" % (fm.name, ph), loc(e.n), "a worker measures with %s over %s columns" % (a[0], a[-1]), "metric in use")
                else:
                    c.ok("metric in use")
    return n


def enums_of_states(c):
    for v in c.model.db.enums.values():
        ns = [x["n"] if isinstance(x, dict) else x for x in v]
        if "KMSPP_INIT" in ns:
            return [x for x in ns if x not in ("EXIT", "WAIT", "TEST")]
    raise AnalysisBroken("thread states not found")


def args(l, i):
    out, d, cur = [], 0, ""
    while i < len(l):
        ch = l[i]
        if ch in "([":
            d += 1
        elif ch in ")]":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
        i += 1
    out.append(cur.strip())
    return out
