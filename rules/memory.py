"""Who owns what: every acquisition is released once, with its counterpart, and the caller's memory never."""
from rows import *
from flow import Flow
from spec import cut
import terms
import protocol

ACQ = {"fopen": "fopen", "numa_alloc_onnode": "numa", "numa_alloc_local": "numa", "numa_alloc_interleaved": "numa", "malloc": "malloc", "calloc": "malloc",
       "numa_allocate_nodemask": "nodemask", "numa_allocate_cpumask": "nodemask"}
REL = {"fclose": "fopen", "numa_free": "numa", "free": "malloc", "numa_free_nodemask": "nodemask", "numa_bitmask_free": "nodemask", "numa_free_cpumask": "nodemask"}
SAY = {"new": "delete", "array": "delete []", "fopen": "fclose", "numa": "numa_free", "malloc": "free", "nodemask": "numa_free_nodemask"}


def touches(x):
    if isinstance(x, dict):
        if x.get("k") in ("new", "delete") or x.get("k") == "call" and (x.get("n") in ACQ or x.get("n") in REL):
            return True
        return any(touches(v) for v in x.values() if isinstance(v, (dict, list)))
    return isinstance(x, list) and any(touches(v) for v in x)


def inbinding(f):
    return "binding" in f["q"]


def alts(p):
    """the values a pointer may have"""
    if p.op in ("phi", "ite", "?"):
        return list(dict.fromkeys(y for x in p.a[1:] for y in alts(x)))
    return [p]


def strip1(p):
    while p.op in ("ld", "mu", "hv"):
        p = p.a[1] if p.op == "mu" else p.a[0]
    return p


def conds(anc, nd):
    """the tests a node is under, inside the loops and calls it is in"""
    out = []
    ch = list(anc) + [nd]
    for x, y in zip(ch, ch[1:]):
        if x.kind == "if":
            out.append(x.cond if any(z is y for z in x.then) else terms.not_(x.cond))
    return out


class Tree(object):
    def __init__(self, cx, f, t, cls):
        self.cx, self.f, self.t, self.cls = cx, f, t, cls
        self.adopted = set()
        self.ret = t[2] if isinstance(t[2], T) else None
        self.esc = []           # (object, place, node)
        self.fieldrel = []      # (place, kind, node, ancestors, argument terms)
        self.acqs = {}          # term -> (kind, node)
        for nd, a in allnodes(t[0]):
            if nd.kind == "adopt":
                self.adopted.add(nd.obj)
        for nd, a in allnodes(t[0]):
            if nd.kind == "alloc" and nd.obj not in self.adopted:
                self.acqs[nd.obj] = ("array" if nd.arr else "new", nd)
            elif nd.kind == "call" and nd.name in ACQ and isinstance(nd.ret, T):
                self.acqs[nd.ret] = (ACQ[nd.name], nd)
        for nd, a in allnodes(t[0]):
            if nd.kind == "store" and not nd.local and isinstance(nd.val, T):
                for v in alts(nd.val):
                    if v in self.acqs:
                        self.esc.append((v, nd.lv, nd))
            elif nd.kind == "push" and isinstance(nd.val, T) and nd.val in self.acqs:
                self.esc.append((nd.val, mk("I", nd.obj, mk("sym", "any")), nd))
            r = release(nd)
            if r:
                for v in alts(r[1]):
                    p = strip1(v)
                    if v not in self.acqs and p.op in ("F", "I"):
                        self.fieldrel.append((p, r[0], nd, a, nd.args if nd.kind == "call" else [nd.ptr]))

    def returned(self):
        return {v for v in (alts(self.ret) if self.ret is not None else ()) if v in self.acqs}


def release(nd):
    """(kind, pointer) of a release"""
    if nd.kind == "free":
        return ("array" if nd.arr else "new"), nd.ptr
    if nd.kind == "call" and nd.name in REL and nd.args:
        return REL[nd.name], nd.args[0]
    return None


class Owners(object):
    def __init__(self, cx):
        self.cx = cx
        m = self.m = cx.model
        self.fields, self.rel = {}, {}
        for q, cl in m.db.cls.items():
            for f in cl["fields"]:
                self.fields.setdefault(f["n"], []).append(q)

    def place(self, tr, p):
        """(class that declares it, field) of the place a pointer is kept in"""
        while p.op in ("I", "ld", "ald", "hv", "size"):
            p = p.a[0]
        if p.op != "F":
            return None
        h, f = p.a[0], p.a[1]
        cls = None
        b = h
        if h is THIS:
            cls = tr.cls
        elif h.op == "new":
            cls = h.a[2] if len(h.a) > 2 else None
        else:
            fn_ = fieldname(h)
            if fn_ == "threads":
                ds = [q for q in self.fields.get(f, ()) if "knor::thread" in self.m.db.bases(q)]
                cls = ds[0] if ds else None
        ds = self.fields.get(f, ())
        if cls is None and h is not THIS and self.rel:
            ds = [q for q in ds if (q, f) in self.rel] or ds
        if cls:
            for q in self.m.db.bases(cls):
                if q in ds:
                    return q, f
        if len(ds) == 1:
            return ds[0], f
        return (str(cls), f)


def roots(cx):
    m = cx.model
    want = {}
    for k, f in m.db.fn.items():
        if f.get("body") is not None and not inbinding(f) and "unit-test" not in f.get("loc", "") and (touches(f["body"]) or touches(f.get("inits"))):
            want[k] = f
    cg = protocol.callees(m)
    trees = {}
    while True:
        new = [k for k in want if k not in trees]
        if not new:
            break
        giving = set()
        for k in new:
            f = want[k]
            trees[k] = Tree(cx, f, m.tree(f, f.get("cls")), f.get("cls"))
            if trees[k].returned():
                giving.add(k)
        for k, f in m.db.fn.items():
            if k not in want and f.get("body") is not None and not inbinding(f) and giving & cg.get(k, set()):
                want[k] = f
    return list(trees.values())


def c18(cx):
    m = cx.model
    own = Owners(cx)
    ts = roots(cx)
    # the destructors: what each class releases
    dtors, owned = {}, {}
    for q, cl in m.db.cls.items():
        n = q.split("<")[0].split("::")[-1]
        for f in m.db.byq.get(q + "::~" + n, ()):
            if f.get("body") is not None and not inbinding(f):
                dtors[q] = Tree(cx, f, m.tree(f, q), q)
    rel = {}
    for q, tr in dtors.items():
        for p, kind, nd, a, args in tr.fieldrel:
            pl = own.place(tr, p)
            if pl:
                rel.setdefault(pl, []).append((q, p, kind, nd, a, args))
    own.rel = {p: v for p, v in rel.items() if p[0] != "knor::thread"}
    for tr in ts:
        cx.seen(tr.t)
        for o, lv, nd in tr.esc:
            pl = own.place(tr, lv)
            if pl:
                owned.setdefault(pl, []).append((tr, o, lv, nd))
    # every acquisition that outlives its function is kept where a destructor releases it
    for tr in ts:
        by = {}
        for o, lv, nd in tr.esc:
            by.setdefault(o, []).append((own.place(tr, lv), nd))
        for o, ps in by.items():
            kind, at = tr.acqs[o]
            pls = sorted({str(p) for p, _ in ps})
            rs = {p for p, _ in ps if p in rel}
            key = "C18:%s:%s" % (tr.f["q"], ",".join(pls)[:120])
            if not rs:
                # released on the way out of this very function
                if o in flow(cx, tr, own, {})[1]:
                    continue
            cx.check(len(rs) >= 1, "kept where it is released", key + ":owner", loc(ps[0][1]), "what %s acquires here (%s) is kept in %s, which nothing releases with %s" % (tr.f["q"], loc(at), ", ".join("%s::%s" % p if p else "?" for p, _ in ps), SAY[kind]))
            cx.check(len(rs) <= 1, "one owner", key + ":owners", loc(ps[0][1]), "what is acquired here is released by %s" % " and by ".join("%s::%s" % p for p in rs))
            for pl in rs:
                for q, p, k2, nd, a, args in rel[pl]:
                    cx.check(k2 == kind, "released with its counterpart", key + ":kind", loc(nd), "%s::%s is acquired at %s but released with %s instead of %s" % (pl[0], pl[1], loc(at), SAY[k2], SAY[kind]))
                    if kind == "numa":
                        sz = numasize(at)
                        cx.check(len(args) > 1 and fieldname(args[1]) is not None and fieldname(args[1]) == fieldname(sz) and same_holder(args[1], p), "released in its size", key + ":size", loc(nd), "a block of %s bytes is released as one of %s" % (show(sz)[:80], show(args[1])[:80] if len(args) > 1 else "?"))
                    every(cx, own, key, pl, p, nd, a, owned[pl])
    # paths
    names = {p: v for p, v in rel.items() if p in owned}
    for tr in ts + [d for d in dtors.values() if d.f["m"] not in {t.f["m"] for t in ts}]:
        bad = flow(cx, tr, own, names)[0]
        for k, (nd, msg) in bad.items():
            cx.bad("C18:%s:%s" % (tr.f["q"], k), loc(nd) if nd is not None else tr.f["q"], msg, "paths")
        if not bad:
            cx.ok("paths", tr.f["q"])
    initialised(cx, own, names)
    callers(cx)
    cx.need(20, "paths")
    cx.need(8, "kept where it is released")


def numasize(at):
    return at.args[0]


def same_holder(x, p):
    x = strip1(x)
    return x.op == "F" and p.op == "F" and x.a[0] is p.a[0]


def every(cx, own, key, pl, p, nd, anc, stores):
    """a release in a destructor reaches every object kept there, under no test but one for presence"""
    lvs = [lv for _, _, lv, _ in stores]
    loops = [a for a in anc if a.kind == "loop"]
    ivs = [x for x in walk(p) if x.op == "iv"]
    for cd in conds(anc, nd):
        for l in (cd.a if cd.op == "&" else [cd]):
            presence = any(fieldname(y) == pl[1] for y in walk(l) if y.op in ("ld", "F"))
            flag = any(y.op == "F" and y.a[1] == "preallocd_data" for y in walk(l))
            mine = flag and l.op == "!"
            inloop = any(cd is L.cond for L in loops)
            cx.check(presence or mine or inloop, "released whenever it is there", key + ":when", loc(nd), "%s::%s is only released when %s" % (pl[0], pl[1], show(l)[:150]))
    for iv in ivs:
        L = [l for l in loops if l.iv is iv] if loops and hasattr(loops[0], "iv") else loops
        L = L or loops
        ok = False
        for l in loops:
            ok = ok or covers(l, p, iv, stores)
        cx.check(ok, "all elements released", key + ":all", loc(nd), "not every element of %s::%s is released" % pl)


def covers(l, p, iv, stores):
    """the loop runs iv over the whole container"""
    tr = trip(l, iv)
    if tr is None:
        return False
    for x in walk(p):
        if x.op == "I" and terms.contains(x.a[1], iv) and x.a[1] is not iv and x.a[1] is not terms.sub(terms.sub(tr, iv), terms.c(1)):
            return False
    if tr.op == "size" or tr.op in ("ld", "ald") and tr.a[0].op == "size":
        return True
    n = fieldname(tr)
    if n == "nthreads":
        return True
    for _, o, lv, nd in stores:
        for t2 in pushtrips(nd, _):
            if t2 is not None and (t2 is tr or n and (fieldname(t2) == n or t2.op == "sym" and t2.a[0] == n)):
                return True
    return False


def pushtrips(nd, tr):
    for x, a in allnodes(tr.t[0]):
        if x is nd:
            for l in a:
                if l.kind == "loop":
                    for iv in [y for y in walk(l.cond) if y.op == "iv"] if l.cond is not None else []:
                        yield trip(l, iv)


def trip(l, iv):
    cd = l.cond
    if cd is None:
        return None
    if cd.op == "<" and cd.a[0] is iv:
        return cd.a[1]
    if cd.op in ("!", "==", "!=", "ne", "eq"):
        xs = [x for x in walk(cd) if x.op == "size"]
        return xs[0] if xs else None
    if cd.op == "<" and any(x is iv for x in walk(cd)):
        return cd.a[1]
    xs = [x for x in walk(cd) if x.op == "size"]
    return xs[0] if xs else None


def flow(cx, tr, own, names):
    """typestate of every acquisition of the function and of every owned field it touches"""
    bad = {}
    freed = set()
    acq = tr.acqs
    lost = {}

    def say(k, nd, msg):
        bad.setdefault(k, (nd, msg))

    def put(v, o, s):
        return frozenset([x for x in v if x[1] is not o]) | (frozenset([("o", o, s)]) if s else frozenset())

    def st(v, o):
        for x in v:
            if x[0] == "o" and x[1] is o:
                return x[2]
        return None

    def fst(v, p):
        for x in v:
            if x[0] == "f" and x[1] is p:
                return x[2]
        return None

    def fput(v, p, s):
        return frozenset([x for x in v if not (x[0] == "f" and x[1] is p)]) | (frozenset([("f", p, s)]) if s else frozenset())

    def desc(o):
        return "what is acquired at %s" % loc(acq[o][1])

    ctor = "~" not in tr.f["q"] and tr.cls and tr.f["q"].split("::")[-1].split("<")[0] == tr.cls.split("<")[0].split("::")[-1]
    isd = "~" in tr.f["q"]

    def leaf(nd, v):
        if nd.kind in ("return", "enter", "leave", "if"):
            return None
        o = nd.obj if nd.kind == "alloc" else nd.ret if nd.kind == "call" and nd.name in ACQ else None
        if o is not None and o in acq:
            if st(v, o) == "L":
                say("again:" + str(acq[o][1].name if nd.kind == "call" else nd.ty), nd, "%s acquires again what it acquired before without having released it" % nd.fn)
            return [put(v, o, "L")]
        r = release(nd)
        if r:
            kind, ptr = r
            v2 = v
            for x in alts(ptr):
                if x in acq:
                    freed.add(x)
                    s = st(v2, x)
                    if s == "F":
                        say("twice:" + SAY[kind], nd, "%s is released a second time" % desc(x))
                    if acq[x][0] != kind:
                        say("kind:" + SAY[kind], nd, "%s is released with %s instead of %s" % (desc(x), SAY[kind], SAY[acq[x][0]]))
                    if s == "A":
                        say("shared:" + SAY[kind], nd, "%s is released although something else owns it" % desc(x))
                    if s:
                        v2 = put(v2, x, "F")
                    continue
                if x in tr.adopted:
                    say("shared:" + SAY[kind], nd, "what is released here is owned by a shared pointer")
                    continue
                if x is NULL or x.op == "null":
                    continue
                p = strip1(x)
                if p.op in ("F", "I") and fieldname(p):
                    pl = own.place(tr, p)
                    if names and pl not in names and kind != "fopen":
                        say("foreign:" + str(fieldname(p)), nd, "%s releases %s, which the library does not own" % (tr.f["q"], show(p)[:80]))
                        continue
                    per = any(y.op in ("iv", "mu") for y in walk(p))
                    if fst(v2, p) == "D" and not per:
                        say("twice:" + str(fieldname(p)), nd, "%s is released a second time" % show(p)[:80])
                    if per:
                        for y in v2:
                            if y[0] == "s" and y[1] == pl and y[2] is not nd:
                                say("twice:" + str(fieldname(p)), nd, "%s is released a second time" % show(p)[:80])
                        v2 = v2 | frozenset([("s", pl, nd)])
                    v2 = fput(v2, p, {"M": "N", "MA": "A"}.get(fst(v2, p), "D"))
                elif p.op == "sym" or p.op == "I" and rootof(p).op == "sym":
                    say("caller:" + show(p)[:40], nd, "%s releases %s, which its caller owns" % (tr.f["q"], show(p)[:80]))
            return [v2]
        if nd.kind == "store":
            v2 = v
            if isinstance(nd.val, T) and not nd.local:
                for x in alts(nd.val):
                    if x in acq and st(v2, x) == "L":
                        v2 = put(v2, x, "E")
                    elif x in acq and st(v2, x) == "F":
                        say("dangling:" + str(fieldname(nd.lv)), nd, "%s is kept after its release" % desc(x))
            if not nd.local and nd.lv.op in ("F", "I"):
                pl = own.place(tr, nd.lv)
                if pl in names:
                    s = fst(v2, nd.lv)
                    isnew = isinstance(nd.val, T) and any(x in acq for x in alts(nd.val))
                    fresh = rootof(nd.lv).op in ("new", "objaddr") or ctor and rootof(nd.lv) is THIS and s is None
                    if not fresh and s not in ("D", "N") and pl[1] != "local_data" and not isnull(nd.val) and names[pl][0][2] != "fopen":
                        lost[nd.lv] = nd
                        v2 = fput(v2, nd.lv, "MA")
                    elif not fresh and s not in ("D", "N") and isnull(nd.val):
                        lost[nd.lv] = nd
                        v2 = fput(v2, nd.lv, "M")
                    else:
                        v2 = fput(v2, nd.lv, "N" if isnull(nd.val) else "A")
            if v2 is not v:
                return [v2]
            # a dead object is not written
        if nd.kind == "push" and isinstance(nd.val, T) and nd.val in acq and st(v, nd.val) == "L":
            return [put(v, nd.val, "E")]
        for x in derefs(nd):
            if x in acq and st(v, x) == "F":
                say("after:" + acq[x][0], nd, "%s is used after its release" % desc(x))
            if x.op == "F" and fst(v, x) == "D":
                say("after:" + x.a[1], nd, "%s is used after its release" % show(x)[:80])
        return None

    def guard(cond, pos, v):
        lits = [(l, pos) for l in (cond.a if (pos and cond.op == "&") else [cond])]
        if not pos and cond.op == "|":
            lits = [(l, False) for l in cond.a]
        for l, p in lits:
            if l.op == "!":
                l, p = l.a[0], not p
            x = nulltest(l)
            if x is None:
                continue
            f = strip1(x)
            if p:       # it is null
                if x in acq and st(v, x) == "L" and acq[x][0] in ("new", "array"):
                    return False
                if x in acq and acq[x][0] == "fopen":
                    v = put(v, x, None)
                if f.op in ("F", "I") and fst(v, f) in (None, "V", "M", "MA"):
                    v = fput(v, f, "A" if fst(v, f) == "MA" else "N")
            elif f.op in ("F", "I") and fst(v, f) == "N":
                return False
        return v

    fl = Flow(leaf, guard=guard, corr=False)
    ends = fl.run(tr.t[0], [frozenset()])
    ret = tr.returned()
    for v in set(ends) | {x for nd, S in fl.ends["exit"] for x in () if S}:
        for x in v:
            if x[0] == "o" and x[2] == "L" and x[1] not in ret and not tr.f["m"].startswith("main@"):
                say("leak:" + acq[x[1]][0] + ":" + acq[x[1]][1].fn, acq[x[1]][1], "%s can return without releasing %s" % (tr.f["q"], desc(x[1])))
            if x[0] == "f" and x[2] in ("M", "MA"):
                say("over:" + str(fieldname(x[1])), lost[x[1]], "%s is given a new value and what it held is never released" % show(x[1])[:80])
            if x[0] == "f" and x[2] == "D" and not isd and rootof(x[1]) is THIS and not helper(tr, x[1]):
                say("stale:" + str(fieldname(x[1])), None, "%s leaves %s pointing to what it released" % (tr.f["q"], show(x[1])[:80]))
    return bad, freed


def helper(tr, p):
    """a method called by destructors alone may leave the pointer behind"""
    cg = protocol.callees(tr.cx.model)
    me = tr.f["m"]
    cs = [k for k, v in cg.items() if me in v]
    return bool(cs) and all("D1Ev" in k or "D2Ev" in k or "D0Ev" in k for k in cs)


def nulltest(l):
    """x if l says x is null"""
    if l.op in ("==", "eq") and any(isnull(y) for y in l.a):
        o = [y for y in l.a if not isnull(y)]
        return o[0] if o else None
    return None


def derefs(nd):
    out = []
    if nd.kind not in ("store", "call", "assign", "copy", "fill", "free", "io", "push"):
        return out
    for t in terms_of(nd):
        for x in walk(t):
            if x.op in ("I", "F") and x.a:
                b = x.a[0]
                while b.op in ("I", "F") and b.op == "F" and False:
                    b = b.a[0]
                out.append(b.a[0] if b.op == "ld" else b)
    if nd.kind == "call":
        for t in nd.args:
            if isinstance(t, T):
                for y in alts(t):
                    out.append(strip1(y))
    return out


def initialised(cx, own, names):
    """a pointer a destructor releases has been given a value by every constructor"""
    m = cx.model
    for (q, f), rs in sorted(names.items()):
        decl = [x for x in m.db.cls[q]["fields"] if x["n"] == f] if q in m.db.cls else []
        if not decl or not decl[0]["t"].endswith("*"):
            continue
        n = q.split("<")[0].split("::")[-1]
        for fn in m.db.byq.get(q + "::" + n, ()):
            if fn.get("body") is None or fn.get("implicit") or not real(fn, q):
                continue
            t = m.tree(fn, q)
            target = mk("F", THIS, f)
            fl = Flow(lambda nd, v: [True] if nd.kind == "store" and nd.lv is target else None, corr=False)
            ends = fl.run(t[0], [False])
            cx.check(all(ends), "set by every constructor", "C18:%s:%s:init" % (q, f), fn["q"], "%s can leave %s without a value although %s releases it" % (fn["q"], f, rs[0][3].fn))


def real(fn, q):
    """not the copy or move constructor the compiler makes"""
    ps = fn["params"]
    return not (len(ps) == 1 and strip_ref(ps[0]["t"]) == q)


def strip_ref(t):
    return t.replace("const ", "").replace("&", "").strip()


def callers(cx):
    """rows handed in by the caller are marked as not the worker's own"""
    m = cx.model
    for fm in m.fams:
        for meth in ("run", "mb_run"):
            if fm.name == "gmm" or meth == "mb_run" and fm.name != "kmeans_task":
                continue
            t = m.drive(fm, meth)
            ns = list(allnodes(t[0]))
            for nd, a in ns:
                if nd.kind != "store" or fieldname(nd.lv) != "local_data" or nd.lv.op != "F":
                    continue
                r = rootof(strip1(nd.val)) if isinstance(nd.val, T) else None
                if r is None or r.op != "sym":
                    continue
                h = nd.lv.a[0]
                up = [x for x in a if x.kind in ("loop", "if")]
                ok = any(n2.kind == "store" and n2.lv is mk("F", h, "preallocd_data") and n2.val.op == "c" and n2.val.a[0] == 1 and all(any(x is y for y in up) for x in a2 if x.kind in ("loop", "if")) for n2, a2 in ns)
                cx.check(ok, "the caller's rows stay the caller's", "C18:%s:%s:caller" % (fm.name, meth), loc(nd), "a worker that is given the caller's rows still releases them as its own when it was built with a file name")
    # and a worker that loads its rows itself does release them
    f = [x for x in m.db.byq.get("knor::thread::thread", ()) if len(x["params"]) > 2]
    t = m.tree(f[0], "knor::thread")

    def leaf(nd, v):
        if nd.kind == "store" and nd.lv is mk("F", THIS, "preallocd_data"):
            return [(v[0], nd.val)]
        if nd.kind == "call" and nd.name == "fopen":
            return [(True, v[1])]
        return None
    fl = Flow(leaf, corr=False)
    ends = fl.run(t[0], [(False, None)])
    ok = all(not o or isinstance(p, T) and p.op == "c" and p.a[0] == 0 for o, p in ends)
    cx.check(ok, "own rows are released", "C18:thread:own", f[0]["q"], "a worker that loads its rows from a file is built as if they were its caller's, so they are never released")
