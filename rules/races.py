"""C05: threads that work at the same time never touch the same data unprotected."""
from model import *
from rulebase import *
from terms import walk, sub, add, subst, c, mk, lt
import protocol, canon
from canon import cshow, Closer
from protocol import locks_at, states_requested

PTR = ("ld", "ald", "hv")
SYNC = ("pthread_cond_t", "pthread_mutex_t")
QUIET = {"cond", "mutex"}


def steps(l):
    """the way from the root of a location to the location itself"""
    out = []
    while l.op in ("F", "I", "size", "V") or l.op in PTR:
        out.append(l)
        l = l.a[0]
    return l, list(reversed(out))


def embedded(l):
    """(object that holds the storage directly, pointer loaded on the way or None)"""
    while l.op in ("F", "I", "size", "V"):
        l = l.a[0]
    return (None, l) if l.op in PTR else (l, None)


def indices(l):
    """the indices met on the way to a location"""
    out = []
    while l.op in ("F", "I", "size", "V") or l.op in PTR:
        if l.op == "I":
            out.append(l.a[1])
        l = l.a[0]
    return out


def basekey(l):
    """the storage a location is part of: indices forgotten"""
    r, st = steps(l)
    out = [show(r)]
    for x in st:
        if x.op == "F":
            out.append(x.a[1])
        elif x.op in PTR:
            out.append("*")
    # vectors and the arrays behind pointers alike
    return tuple(out)


def conflict(a, b):
    """one of the two is (part of) the other"""
    n = min(len(a), len(b))
    return a[:n] == b[:n] and "*" not in a[n:] + b[n:]


def bound(L, iv):
    """terms N with iv < N while the loop runs"""
    out = []
    todo = [L.cond]
    while todo:
        x = todo.pop()
        if x.op == "&":
            todo += list(x.a)
        else:
            out.append(x)
            if x.op == "<" and x.a[0] is not iv:        # start + iv < start + N, 0 < N - iv
                cf = coef(sub(x.a[1], x.a[0]), iv)
                if cf is not None and cf[0].op == "c" and cf[0].a[0] == -1:
                    out.append(lt(iv, cf[1]))
    return out


def below(Ls, iv, N):
    """iv < N is a condition of its loop"""
    want = lt(iv, N)
    for L in Ls:
        if L.iv is iv:
            for x in bound(L, iv):
                if x is want:
                    return True
                # i != N counting up from zero
                if x.op == "!" and x.a[0] is terms.eq(iv, N):
                    return True
    return False


def coef(idx, x):
    """(coefficient, rest) of x in idx, or None when it is not linear"""
    d = sub(subst(idx, {x: add(x, c(1))}), idx)
    if x in set(walk(d)):
        return None
    r = subst(idx, {x: c(0)})
    if x in set(walk(r)):
        return None
    return d, r


def varying(t, Ls):
    """does the term depend on something that changes inside the region's inner loops"""
    ivs = {L.iv for L in Ls}
    return any(x in ivs or x.op in ("mu", "end", "muend") for x in walk(t))


def restok(rest, d, Ls, big):
    """what is added to the own part of an index cannot reach another thread's entries"""
    if rest.op == "c" and rest.a[0] == 0:
        return True
    one = d.op == "c" and d.a[0] == 1
    ms = terms.poly(rest)
    left = c(0)
    for mo, k in (ms.items() if isinstance(ms, dict) else ms):
        t = terms.unpoly({mo: k})
        if one and big is not None and any(big(x) for x in mo):
            continue
        left = add(left, t)
    if left.op == "c" and left.a[0] == 0:
        return True
    if one:
        return False
    # a single inner counter below the stride
    for L in Ls:
        if left is L.iv and below(Ls, L.iv, d):
            return True
        # a matrix's own width: its rows do not overlap while the counter is below a configured number of columns
        if left is L.iv and d.op in PTR and d.a[0].op == "F" and d.a[0].a[1] == "ncol" and d.a[0].a[0].op in PTR and \
                any(below(Ls, L.iv, mk("ld", mk("F", THIS, f))) for f in ("k", "ncol")):
            return True
    return False


class Access(object):
    def __init__(self, wr, l, nd, anc, what):
        self.wr, self.loc, self.nd, self.anc, self.what = wr, l, nd, anc, what


WRITES = {"store": ("lv",), "fill": ("base",), "copy": ("dst",), "push": ("obj",), "clear": ("obj",), "resize": ("obj",), "assign": ("obj",), "erase": ("obj",),
          "mapslot": ("obj",), "draw": ("gen",), "free": ("obj",)}


def accesses(nodes):
    for nd, anc in nodes:
        ks = WRITES.get(nd.kind, ())
        if nd.kind == "fill" and not isinstance(nd.get("base"), T):
            ks = ()
        for k in ks:
            l = nd.get(k)
            if isinstance(l, T) and not (nd.kind == "store" and nd.get("atomic")):
                yield Access(True, l, nd, anc, nd.kind)
        for k, v in nd.d.items():
            if k in ("body", "then", "els", "handlers", "mods", "fnrec", "old", "clauses", "lid", "ret", "decls", "frame", "locals", "val" if nd.kind == "return" else ""):
                continue
            for x in ([v] if isinstance(v, T) else v if isinstance(v, (list, tuple)) else ()):
                if not isinstance(x, T):
                    continue
                if k in ks:
                    # the location written is not read; what leads to it is
                    todo = [x.a[1]] if x.op == "I" else []
                    y = x.a[0] if x.op in ("F", "I", "size", "V") else None
                    while y is not None:
                        if y.op == "I":
                            todo.append(y.a[1])
                        if y.op in PTR:
                            todo.append(y)
                            break
                        y = y.a[0] if y.op in ("F", "I", "size", "V") else None
                else:
                    todo = [x]
                for z in todo:
                    for y in walk(z):
                        if y.op == "ld":
                            yield Access(False, y.a[0], nd, anc, "load")


def region(cx, key, where, nodes, private, own, safe, exempt=lambda a: False, who="threads"):
    """the obligations of one region: every shared write is own or protected; nothing written is used by another thread"""
    acc = [a for a in accesses(nodes) if not private(a.loc)]
    written = {}
    nw = 0
    seen = set()
    for a in acc:
        if not a.wr or exempt(a):
            continue
        k = basekey(a.loc)
        s = safe(a)
        o = own(a.loc, a)
        nw += 1
        written.setdefault(k, []).append((a, s, o))
        if (k, o, bool(s)) in seen:
            continue
        seen.add((k, o, bool(s)))
        if a.nd.get("bit") and not s:
            cx.bad("%s:bit:%s" % (key, name(a.loc)), loc(a.nd), "neighbouring entries of %s share a byte: %s writing different entries at the same time lose updates" % (name(a.loc), who), "shared write")
            continue
        cx.check(s or o, "shared write", "%s:write:%s" % (key, name(a.loc)), loc(a.nd),
                 "%s (%s) may be written by several %s at the same time: %s" % (cshow(a.loc)[:140], {"push": "an insertion", "mapslot": "an insertion into a map", "draw": "a random generator"}.get(a.what, a.what), who,
                                                                              "nothing makes the entry this one's own, and no lock is held"))
    seen = set()
    for a in acc:
        if a.wr:
            continue
        k = basekey(a.loc)
        for kw, ws in written.items():
            if not conflict(k, kw):
                continue
            if (a.loc, kw) in seen:
                continue
            seen.add((a.loc, kw))
            o = own(a.loc, a)
            s = safe(a)
            ok = all((w[2] and o) or (w[1] and s) for w in ws) or not any(w[2] or w[1] for w in ws)
            cx.check(ok, "use of what others write", "%s:read:%s" % (key, name(a.loc)), loc(a.nd),
                     "%s is used here while another of the %s may be writing it (%s)" % (cshow(a.loc)[:140], who, loc(ws[0][0].nd)))
    return nw


def name(l):
    f = fieldchain(l)
    r = rootof(l)
    n = ".".join(x for x in f if x not in ("_",)) or (r.a[-1] if r.op == "L" else show(r))
    return str(n)[:60]


# ------------------------------------------------------------------ OpenMP
def prefix_frames(f):
    while f is not None and f.op == "fr":
        yield f
        f = f.a[0]


def omp_region(cx, t, nd, anc, fm):
    body = [(x, (nd,) + tuple(a)) for b in nd.body for x, a in allnodes(b)]
    fr, decls = nd.frame, nd.decls
    priv = {l for k, v in nd.clauses.items() if k in ("private", "firstprivate", "lastprivate", "reduction", "linear") for l, _ in v}
    made = {y for x, _ in body if x.kind == "alloc" for y in walk_node(x) if y.op == "new"}
    # loops whose iterations the threads share out
    ws = []
    for x, a in [(nd, ())] + body:
        if x.kind == "omp" and ("for" in x.dir.split()):
            n = 1
            if x.ncollapse:
                n = 2       # of more than two loops the outer two are looked at
            cur = x.body
            for _ in range(n):
                L = next((y for y in cur if y.kind == "loop"), None)
                if L is None:
                    break
                ws.append(L)
                cur = L.body

    def private(l):
        base, ptr = embedded(l)
        if base is None:
            return False
        if base.op == "L":
            f = base.a[0]
            if f is fr:
                return base in priv or base.a[1] in decls
            return fr in list(prefix_frames(f))[1:]
        if base.op == "tmp":
            return True
        if base.op == "new":
            return base in made
        return base.op not in ("G", "F") and base is not THIS and base.op not in ("sym",)

    def own_index(idx, a, which):
        idx = settled(idx)
        Ls = [x for x in a.anc if x.kind == "loop"] + ([a.nd] if a.nd.kind == "loop" else [])
        for x in walk(idx):
            if isinstance(x, T) and "omp_get_thread_num" in show_op(x):
                if idx is x:
                    return True
                cf = coef(idx, x)
                if cf and restok(cf[1], cf[0], Ls, None):
                    return True
        for L in which:
            iv = L.iv
            if iv in set(walk(idx)):
                cf = coef(idx, iv)
                if cf is None or (cf[0].op == "c" and cf[0].a[0] == 0):
                    continue
                d, rest = cf
                inner_ = [x for x in Ls if x is not L]
                if varying(d, inner_):
                    continue
                if not varying(rest, inner_):
                    return True
                if restok(rest, d, inner_, lambda f: below([L], iv, f)):
                    return True
        # an entry of a work list of this loop
        if idx.op == "ld":
            base, ptr = embedded(idx.a[0])
            if base is not None and base.op == "L":
                return any(own_index(i, a, which) for i in indices(idx.a[0]))
        return False

    def own(l, a):
        ix = indices(l)
        return any(own_index(i, a, ()) for i in ix) or bool(ws) and all(any(own_index(i, a, (L,)) for i in ix) for L in ws)

    def safe(a):
        for x in a.anc:
            if x.kind == "omp" and x is not nd and any(w in x.dir for w in ("critical", "atomic")):
                return True
        return False

    key = "C05:omp:%s:%d" % (nd.fn, 0)
    n = region(cx, key, loc(nd), body, private, own, safe, lambda a: a.what == "mapslot" and present(t, a.nd, a.anc, nd), who="threads of the loop")
    cx.ok("parallel loop", "%s at %s: %d shared writes" % (nd.fn, nd.loc, n))


def walk_node(n):
    for v in n.d.values():
        if isinstance(v, T):
            yield v


def show_op(x):
    return " ".join(str(y) for y in (x.op,) + tuple(x.a) if isinstance(y, str))


def omps(cx):
    m = cx.model
    done = {}
    roots = []
    for fm in m.fams:
        for f, t in protocol.driver_entries(m, fm):
            roots.append((t, fm))
    for t, fm in roots:
        scan(cx, t, fm, done)
    for f in list(m.db.fn.values()):
        if f.get("body") is None:
            continue
        at = omp_at(f["body"])
        if not at or at <= {l for _, l in done}:
            continue
        fm = next((g for g in m.fams if f.get("cls") in m.db.bases(g.coord) or f.get("cls") == g.coord), None)
        t = m.tree(f, fm.coord if fm else f.get("cls"), fm)
        scan(cx, t, fm, done)
    cx.done = done
    if len(done) < 8:
        raise AnalysisBroken("only %d parallel regions found" % len(done))


def scan(cx, t, fm, done):
    for nd, anc in allnodes(t[0]):
        if nd.kind == "omp" and "parallel" in nd.dir:
            done.setdefault((nd.fn, nd.loc), 0)
            done[nd.fn, nd.loc] += 1
            cx.seen(t)
            omp_region(cx, t, nd, anc, fm)


def nn(t):
    """a sum of counters and sizes"""
    ms = terms.poly(t)
    return all(k >= 0 and all(x.op in ("iv", "size", "rangesize") for x in mo) for mo, k in (ms.items() if isinstance(ms, dict) else ms))


def settled(t):
    """choices decided by counters being non-negative"""
    mp = {}
    for x in walk(t):
        if isinstance(x, T) and x.op == "phi":
            y = x.a[0]
            if y.op == "<" and nn(sub(y.a[0], y.a[1])):
                mp[x] = x.a[2]
            elif y.op == "<=" and nn(sub(sub(y.a[0], y.a[1]), c(1))):
                mp[x] = x.a[2]
    return subst(t, mp) if mp else t


def present(t, nd, anc, region_):
    """the key looked up has been in the map since before the region"""
    for x, a in allnodes(t[0]):
        if x is region_:
            break
        if x.kind == "mapslot" and x.obj is nd.obj:
            Ls = [y for y in a if y.kind == "loop"]
            if not Ls:
                continue
            L = Ls[-1]
            after = a[a.index(L) + 1:]
            if any(y.kind in ("if", "omp", "switch") for y in after) or protocol_breaks(L):
                continue
            for R in [y for y in anc if y.kind == "loop"]:
                if subst(x.key, {L.iv: R.iv}) is nd.key and subst(L.cond, {L.iv: R.iv}) is R.cond:
                    return True
    k = nd.key
    while k.op in PTR:
        k = k.a[0]
    if k.op == "I":
        lst = k.a[0]
        src = [x.val for x, a in allnodes(t[0]) if x.kind == "push" and x.obj is lst]

        def keyof(v):
            while v.op in PTR:
                v = v.a[0]
            return v.op == "F" and v.a[1] == "first" and v.a[0].op == "I" and v.a[0].a[0] is nd.obj
        return bool(src) and all(keyof(v) for v in src)
    return False


def protocol_breaks(L):
    return bool(L.get("nbreaks"))


def omp_at(b):
    todo, out = [b], set()
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "omp" and "parallel" in x.get("d", ""):
                out.add(x.get("l"))
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return out


# ------------------------------------------------------------------ the workers of a driver
def fieldtypes(db, cls):
    out = {}
    for b in list(db.bases(cls)) + [cls]:
        for f in db.cls.get(b, {}).get("fields", []):
            out[f["n"]] = f["t"]
    return out


def made_here(m, fm):
    """pointer fields of the worker that only ever hold what the worker itself created"""
    vals = {}

    def note(t, isobj):
        for n, _ in allnodes(t[0]):
            if n.kind == "store" and n.lv.op == "F" and isobj(n.lv.a[0]):
                vals.setdefault(n.lv.a[1], []).append(n.val)
    # the driver's own fields are unknown here: what the worker gets from it stays recognisable
    note(m.tree(m.db.find_method(fm.coord, "build_thread_state"), fm.coord, fm), lambda o: o.op == "new" and o.a[2] == fm.worker)
    for ph in states_requested(m, fm):
        if ph != "EXIT":
            note(m.work(fm, ph), lambda o: o is THIS)
    own = set()
    for f, vs in vals.items():
        if any(v.op == "new" for v in vs) and all(v.op in ("new", "null", "undef") for v in vs):
            own.add(f)
    return own


ROWS = ("local_data",)
NROWS = (mk("ld", mk("F", THIS, "nprocrows")), )
START = mk("ld", mk("F", THIS, "start_rid"))
THD = mk("ld", mk("F", THIS, "thd_id"))


def worker_region(cx, fm, ph):
    m = cx.model
    t = m.work(fm, ph)
    cx.seen(t)
    types_ = fieldtypes(m.db, fm.worker)
    mine = made_here(m, fm)
    at, ends, thr, probs = locks_at(t[0])
    cl = Closer(t[0])

    def private(l):
        r, st = steps(l)
        if r.op in ("L", "tmp", "new"):
            return True
        if r.op == "G":
            return False
        if r is not THIS:
            return r.op not in ("sym", "ret", "mu", "end")
        first = None
        for x in st:
            if x.op == "F":
                ty = types_.get(x.a[1], "") if x.a[0] is THIS else ""
                if x.a[0] is THIS:
                    first = x.a[1]
                    if ty.rstrip().endswith("&"):
                        return False
            elif x.op in PTR:
                if first in ROWS:
                    return True
                if x.a[0].op == "F" and x.a[0].a[0] is THIS:
                    if first in mine:
                        first = None
                        continue
                    if first == "curr_task":
                        continue
                    return False
                # a pointer kept inside something
                e = x.a[0]
                if e.op == "F" and e.a[1] in ("coordinator", "driver", "data", "data_ptr"):
                    return False
                if e.op == "I" and first is not None and not types_.get(first, "").rstrip().endswith("&"):
                    return True         # element of the worker's own table
                if first is None:
                    continue
                return False
        return True

    def taskish(x):
        return x.op in PTR and x.a[0].op == "F" and x.a[0].a[1] in ("start_rid", "nrow") and "curr_task" in fieldchain(x.a[0])

    def own_index(idx, a):
        idx = settled(cl.close(idx))
        if idx is THD:
            return True
        Ls = [x for x in a.anc if x.kind == "loop"] + ([a.nd] if a.nd.kind == "loop" else [])
        for S in set(x for x in walk(idx) if isinstance(x, T) and (x is START or taskish(x) and x.a[0].a[1] == "start_rid")):
            cf = coef(idx, S)
            if cf is None or cf[0].op == "c" and cf[0].a[0] == 0:
                continue
            d, rest = cf
            for L in Ls:
                iv = L.iv
                if iv not in set(walk(rest)):
                    continue
                cf2 = coef(rest, iv)
                if cf2 is None or cf2[0] is not d:
                    continue
                want = [mk("ld", mk("F", THIS, "nprocrows"))] if S is START else [mk(S.op, mk("F", S.a[0].a[0], "nrow"))]
                conds = {x for y in bound(L, iv) for x in (y,)}
                ok = any(cshow(x) == cshow(lt(iv, w)) for x in conds for w in want)
                if not ok:
                    continue
                if restok(cf2[1], d, [x for x in Ls if x is not L], lambda f: f.op in PTR and f.a[0].op == "F" and f.a[0].a[1] in ("ncol", "nrow")):
                    return True
        return False

    def own(l, a):
        return any(own_index(i, a) for i in indices(l))

    def safe(a):
        if a.nd.get("atomic"):
            return True
        ls = at.get(id(a.nd))
        return bool(ls) and all(any(not (x.op == "F" and x.a[0] is THIS and x.a[1] == "mutex") for x in s) for s in ls[1])

    def exempt(a):
        # looking a node of the tree up never grows the table: it was sized for all of them
        return a.what == "resize" and a.nd.fn and "vmap" in a.nd.fn
    key = "C05:%s:%s" % (fm.name, ph)
    n = region(cx, key, loc(t[0]), list(allnodes(t[0])), private, own, safe, exempt, "workers")
    cx.ok("phase", "%s %s: %d shared writes" % (fm.name, ph, n))
    return n


def workers(cx):
    m = cx.model
    n = 0
    for fm in m.fams:
        for ph in sorted(states_requested(m, fm)):
            if ph in ("EXIT", "WAIT"):
                continue
            n += worker_region(cx, fm, ph)
    if n < 12:
        raise AnalysisBroken("only %d writes to what the workers share found" % n)


def c05(cx):
    omps(cx)
    workers(cx)
    cx.need(14, "parallel loop")
    cx.need(20, "phase")
