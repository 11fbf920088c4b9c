"""Closed, alpha-invariant summaries of effect trees.

close(t)   rewrites loop results (muend) into folds / sums over a bound variable, so that two programs computing the
           same reduction with different variable names, loop forms or helper boundaries give the same term.
effects()  lists the writes to non-local memory as (quantifiers, guards, location, value).
"""
from terms import *
import terms
from interp import allnodes, Interp

_I = Interp.__new__(Interp)


def height(t):
    h = 0
    for x in walk(t):
        if x.op == "bv" and x.a[0] >= h:
            h = x.a[0] + 1
    return h


class Closer(object):
    def __init__(self, root, strip=True, fixed=None):
        self.loops = {}
        self.fixed = fixed      # sizes that never change
        self.strip = strip
        for n, a in allnodes(root):
            if n.kind == "loop":
                self.loops[n.lid] = n
        self.memo = {}
        self.busy = set()

    def trip(self, L):
        if L.lkind == "do" or L.nbreaks:
            return None
        return _I.trip(L.cond, L.iv)

    def close(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._close(t)
            self.memo[t] = r
        return r

    def _close(self, t):
        op = t.op
        if op in ("mu", "muend") and self.fixed is not None and t.a[1].op == "size":
            v = self.fixed(self.close(t.a[1]))
            if v is not None:
                return v
        if op == "muend":
            return self.fold(t)
        if op == "ivend":
            L = self.loops.get(t.a[0])
            if L is not None:
                return mk("ivend", self.shape(L))
            return t
        if op == "ld" and self.strip:
            if t.a[0].op in ("mu", "muend") and t.a[0].a[1].op == "size":
                v = self.close(t.a[0])
                if v.op not in ("mu", "muend"):
                    return v
            return mk("ld", self.close(t.a[0]), *t.a[1:])
        if op in ("c", "sym", "e", "str", "null", "iv", "bv", "slot"):
            return t
        if op == "hv" and self.strip:
            return mk("ld", self.close(t.a[0]), mk("w", t.a[1]))
        if op == "L":
            return mk("L", 0, 0, t.a[2]) if False else t
        if op == "+":
            r = c(0)
            for m, k in t.a:
                q = c(k)
                for y in m:
                    q = mul(q, self.close(y))
                r = add(r, q)
            return r
        if op == "*":
            r = c(1)
            for y in t.a:
                r = mul(r, self.close(y))
            return r
        if not any(isinstance(y, T) for y in t.a):
            return t
        return rebuild(op, [self.close(y) if isinstance(y, T) else y for y in t.a])

    def shape(self, L):
        tr = self.trip(L)
        return tr if tr is not None else (self.close(L.cond) if L.cond is not None else TRUE)

    def fold(self, t):
        lid, k = t.a
        if t in self.busy or lid not in self.loops:
            return t
        L = self.loops[lid]
        self.busy.add(t)
        try:
            order = [k]
            backs = {}
            mus = {}
            for key in L.mods:
                if L.mods[key]["mode"] == "mu":
                    mus[mk("mu", lid, key)] = key
            i = 0
            while i < len(order):
                kk = order[i]
                i += 1
                md = L.mods.get(kk)
                if md is None or md["back"] is None:
                    return t
                b = self.close(md["back"])
                backs[kk] = b
                for x in walk(b):
                    if x in mus and mus[x].op != "V" and mus[x] not in order:
                        order.append(mus[x])
            order = [order[0]] + sorted(order[1:], key=lambda kk: show(self.close(L.mods[kk]["init"])) + show(backs[kk]))
            tr = self.trip(L)
            trc = self.close(tr) if tr is not None else None
            iv = L.iv
            h = max([height(b) for b in backs.values()] + ([height(trc)] if trc is not None else []))
            bv = mk("bv", h)
            mp = {iv: bv}
            for j, kk in enumerate(order):
                mp[mk("mu", lid, kk)] = mk("slot", h, j)
            bs = [subst(backs[kk], mp) for kk in order]
            ins = [self.close(L.mods[kk]["init"]) for kk in order]
            if trc is None:
                cd = subst(self.close(L.cond), mp) if L.cond is not None else TRUE
                brk = [subst(self.close(x), mp) for x in breakconds(L)]
                return mk("wfold", cd, mk("brks", *brk), bv, *[y for p in zip(ins, bs) for y in p])
            s0 = mk("slot", h, 0)
            if len(order) == 1:
                e = sub(bs[0], s0)
                if not contains(e, s0):
                    return add(ins[0], self.sumof(trc, bv, e))
                if bs[0].op == "phi":
                    a, b = sub(bs[0].a[1], s0), sub(bs[0].a[2], s0)
                    if not contains(a, s0) and not contains(b, s0) and not contains(bs[0].a[0], s0):
                        return add(ins[0], self.sumof(trc, bv, phi(bs[0].a[0], a, b)))
                if not contains(bs[0], s0):
                    # last value wins
                    return mk("last", trc, bv, ins[0], bs[0])
            return mk("fold", trc, bv, *[y for p in zip(ins, bs) for y in p])
        finally:
            self.busy.discard(t)

    def sumof(self, n, bv, e):
        rev = subst(e, {bv: sub(sub(n, c(1)), bv)})
        cand = sorted((e, rev), key=lambda x: (len(show(x)), show(x)))[0]
        if not contains(cand, bv):
            return mul(n, cand)
        # linear factors independent of bv are kept inside: one normal form is enough
        return mk("sum", n, bv, cand)


def breakconds(L, skip=0):
    out = []

    def go(ns):
        for n in ns:
            if n.kind == "break":
                out.append(and_(*n.pc[skip:]))
            elif n.kind == "loop" or n.kind == "switch":
                continue
            else:
                for b in n.bodies():
                    go(b)
    go(L.body)
    return out


class Eff(object):
    __slots__ = ("kind", "n", "anc", "loops", "guards", "lv", "val", "op", "rhs", "x", "L")

    def __repr__(self):
        q = " ".join("for %s<%s" % (show(b), show(t)) for b, t in self.loops)
        g = " if %s" % " && ".join(show(x) for x in self.guards) if self.guards else ""
        if self.kind == "store":
            return "%s%s: %s %s %s" % (q, g, show(self.lv), self.op, show(self.rhs))
        return "%s%s: %s %s" % (q, g, self.kind, {k: show(v) for k, v in self.x.items()})


KINDS = ("mpi", "store", "fill", "copy", "push", "clear", "resize", "assign", "free", "veccopy", "insert", "erase")


def isiv(L, cond):
    return L.cond is not None and (cond is L.cond or (L.cond.op == "&" and cond in L.cond.a))


def effects(root, closer=None, want=None, locals_=False, inside=None):
    cl = closer or Closer(root)
    out = []
    last = None
    for n, anc in allnodes(root):
        before = last
        if n.kind not in ("enter", "return") and not (n.kind == "store" and n.get("local")):
            last = n
        if n.kind not in KINDS:
            continue
        tgt = n.get("lv") or (n.get("src") or n.get("ret") if n.kind == "mpi" else None) or n.get("base") or n.get("dst") or n.get("obj")
        if not isinstance(tgt, T):
            continue
        r = tgt
        while r.op in ("F", "I", "size", "V", "ld", "ald", "hv"):
            r = r.a[0]
        if not locals_ and n.kind != "mpi" and (r.op in ("L", "tmp") and not _deref(tgt) or n.get("local")):
            continue
        if want and not want(n, tgt):
            continue
        e = Eff()
        e.kind, e.n, e.anc = n.kind, n, anc
        loops = [a for a in anc if a.kind == "loop" and a is not inside]
        mp = {}
        e.loops = []
        for i, L in enumerate(loops):
            q = mk("q", i)
            mp[L.iv] = q
            tr = cl.trip(L)
            e.loops.append((q, subst(cl.close(tr), mp) if tr is not None else mk("while", subst(cl.close(L.cond), mp) if L.cond is not None else TRUE)))
        e.L = loops
        lc = set()
        for L in loops:
            if L.cond is not None:
                lc.add(L.cond)
                if L.cond.op == "&":
                    lc.update(L.cond.a)
        e.guards = [subst(cl.close(p), mp) for p in n.pc if p not in lc]
        e.x = {}
        for k, v in n.d.items():
            if isinstance(v, T):
                e.x[k] = subst(cl.close(v), mp)
        e.lv = e.x.get("lv")
        e.val, e.rhs, e.op = e.x.get("val"), e.x.get("rhs"), n.get("op")
        # an entry computed in two steps (x = a; x -= b) is set once, to the final value
        p = out[-1] if out else None
        if p is not None and p.n is before and p.kind == e.kind == "store" and e.lv is p.lv and e.lv.op == "I" and "=" in (p.op, e.op) and \
                e.L == p.L and e.guards == p.guards and isinstance(e.val, T) and not n.get("atomic"):
            out.pop()
            e.op, e.rhs = "=", e.val
            e.x = dict(e.x, rhs=e.val)
            e.x.pop("old", None)
            if "old" in p.x:
                e.x["old"] = p.x["old"]
        out.append(e)
    return out


def _deref(t):
    """location reached through a loaded pointer: not local memory even if the pointer variable is"""
    while t.op in ("F", "I", "size", "V"):
        t = t.a[0]
    return t.op in ("ld", "ald", "hv")


# ------------------------------------------------------------------ recognised kernels
def _loads(t):
    return [x for x in walk(t) if x.op == "ld"]


def _stride1(x, bv):
    """x = ld(I(base, A + bv)) with A, base free of bv -> location of element 0"""
    if x.op == "ld" and x.a[0].op == "I" and not contains(x.a[0].a[0], bv):
        d = sub(x.a[0].a[1], bv)
        if not contains(d, bv):
            l = mk("I", x.a[0].a[0], d) if d is not FALSE else x.a[0].a[0]
            return l if len(x.a) < 2 or not written(x.a[1]) else mk("at", l, x.a[1])
    if x.op == "ld" and x.a[0].op == "I" and not contains(x.a[0].a[1], bv) and False:
        return None
    return None


def kern_sum(n, bv, e):
    p = poly(e)
    if len(p) == 3:
        sq = [m[0] for m, k in p.items() if k == 1 and len(m) == 2 and m[0] is m[1]]
        if len(sq) == 2:
            X, Y = sq
            cross = tuple(sorted((X, Y), key=lambda x: x.id))
            if p.get(cross) == -2:
                x, y = _stride1(X, bv), _stride1(Y, bv)
                if x is not None and y is not None:
                    x, y = _ord(x, y)
                    return mk("call", "sqeucl", x, y, n)
    if e.op == "call" and e.a[0] in ("abs", "fabs", "std::abs"):
        q = poly(e.a[1])
        if len(q) == 2 and sorted(q.values()) == [-1, 1] and all(len(m) == 1 for m in q):
            (X,), (Y,) = q.keys()
            x, y = _stride1(X, bv), _stride1(Y, bv)
            if x is not None and y is not None:
                x, y = _ord(x, y)
                return mk("call", "taxi", x, y, n)
    return None


def kern_flat(n, bv, e):
    """rows of m entries summed one after the other are a sum of n*m entries"""
    if not (isinstance(e, T) and e.op == "sum" and bv in set(walk(e.a[2]))):
        return None
    m, iv, b = e.a
    if bv in set(walk(m)) or iv in set(walk(n)) or bv is iv:
        return None
    g = subst(b, {bv: c(0)})
    if bv in set(walk(g)) or subst(g, {iv: add(iv, mul(bv, m))}) is not b:
        return None
    return mk("sum", mul(n, m), iv, g)


def _ord(x, y):
    return (x, y) if cshow(x) <= cshow(y) else (y, x)


def nonneg(t):
    return t.op in ("q", "bv", "iv") or t.op == "c" and t.a[0] >= 0


def kern_eq(r):
    """a counter is never negative"""
    d = poly(sub(r.a[0], r.a[1]))
    k0 = d.pop((), 0)
    if d and all(len(m) == 1 and m[0].op in ("q", "bv", "iv") for m in d):
        if k0 > 0 and all(k > 0 for k in d.values()) or k0 < 0 and all(k < 0 for k in d.values()):
            return FALSE
    if k0:
        d[()] = k0
    if len(d) > 1 and any(k < 0 for k in d.values()) and any(x.op == "+" for x in r.a) and all(isinstance(k, int) for k in d.values()):
        # equality in balanced form: no negative terms on either side
        l = rr = c(0)
        for m, k in d.items():
            t = c(abs(k))
            for y in m:
                t = mul(t, y)
            if k > 0:
                l = add(l, t)
            else:
                rr = add(rr, t)
        k = eq(l, rr)
        return k if k is not r else None
    return None


def kern(t, enums=None, memo=None, alias=None):
    """rewrite recognised reductions bottom-up"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "+":
            r = c(0)
            for m, k in x.a:
                q = c(k)
                for y in m:
                    q = mul(q, go(y))
                r = add(r, q)
        elif x.op == "*":
            r = c(1)
            for y in x.a:
                r = mul(r, go(y))
        elif not any(isinstance(y, T) for y in x.a):
            r = x
        elif x.op == "ld" and x.a[0].op == "size" and go(x.a[0]).op != "size":
            r = go(x.a[0])      # a size with a known value
        else:
            r = rebuild(x.op, [go(y) if isinstance(y, T) else y for y in x.a])
        r = top(r)
        memo[x] = r
        return r

    def top(r):
        if alias and r.op in ("F", "size", "call", "ld", "I"):
            al = alias(r)
            if al is not None:
                return al
        if r.op == "==":
            k = kern_eq(r)
            if k is not None:
                return k
        if r.op == "phi" and isinstance(r.a[0], T) and r.a[0].op == "<=" and len(r.a) == 3:
            r = mk("phi", lt(r.a[0].a[1], r.a[0].a[0]), r.a[2], r.a[1])
        if r.op == "sum":
            k = kern_flat(*r.a)
            if k is not None:
                return k
            k = kern_sum(*r.a)
            if k is not None:
                return k
        if r.op == "call" and r.a[0] in ("sqrt", "std::sqrt") and r.a[1].op == "call" and r.a[1].a[0] == "sqeucl":
            return mk("call", "eucl", *r.a[1].a[1:])
        if r.op == "+" and len(r.a) == 2:
            k = kern_cos(r)
            if k is not None:
                return k
        if r.op == "phi":
            k = kern_dispatch(r)
            if k is not None:
                return k
            k = kern_min(r)
            if k is not None:
                return k
        if r.op == "call" and r.a[0] in ("std::min", "std::max", "min", "max", "fmin", "fmax", "std::fmin", "std::fmax") and len(r.a) == 3:
            return mk("call", "min" if "min" in r.a[0] else "max", *_ord(r.a[1], r.a[2]))
        if r.op == "|" and enums:
            k = allenum(r, enums)
            if k is not None:
                return k
        if r.op in ("&", "|"):
            k = inrange(r.a, r.op == "|")
            if len(k) < len(r.a):
                return (and_ if r.op == "&" else or_)(*k)
        if r.op == "fold":
            k = kern_argmin(r)
            if k is not None:
                return k
        return r
    return go(t)


def inrange(ts, neg_=False):
    """x <= y && y - x < n on indices: the second alone already says both, as differences of indices do not go below zero; dually for !(...)"""
    ts = list(ts)
    for t in list(ts):
        if t.op == ("<=" if neg_ else "<"):
            for o in ts:
                if o.op == ("<" if neg_ else "<="):
                    d = sub(o.a[0], o.a[1]) if neg_ else sub(o.a[1], o.a[0])
                    if d is (t.a[1] if neg_ else t.a[0]) and d.op == "+" and o in ts:
                        ts.remove(o)
                        break
    return ts


def kern_min(r):
    cd, x, y = r.a
    if cd.op in ("<", "<="):
        d = sub(cd.a[1], cd.a[0])
        if x is d and y is neg(d) or y is d and x is neg(d):
            a = mk("call", "abs", d if cshow(d) <= cshow(neg(d)) else neg(d))
            return a if x is d else neg(a)
        if cd.a[0] is x and cd.a[1] is y:
            return mk("call", "min", *_ord(x, y))
        if cd.a[0] is y and cd.a[1] is x:
            return mk("call", "max", *_ord(x, y))
    return None


def kern_cos(r):
    p = dict(r.a)
    if p.get(()) != 1:
        return None
    ms = [m for m in p if m != ()]
    if len(ms) != 1 or p[ms[0]] != -1:
        return None
    m = ms[0]
    s = [x for x in m if x.op == "sum"]
    iv = [x for x in m if x.op == "inv"]
    if len(s) != 1 or len(s) + len(iv) != len(m):
        return None
    roots = []
    for x in iv:
        y = x.a[0]
        for z in (y.a if y.op == "*" else (y,)):
            roots.append(z)
    ss = []
    for z in roots:
        if z.op == "call" and z.a[0] in ("sqrt", "std::sqrt"):
            w = z.a[1]
            ss += list(w.a) if w.op == "*" else [w]
        else:
            return None
    if len(ss) == 1:
        ss = ss * 2
    n, bv, e = s[0].a
    pp = poly(e)
    if len(pp) != 1:
        return None
    (mm, k), = pp.items()
    if k != 1 or len(mm) != 2:
        return None
    X, Y = mm
    want = {mk("sum", n, bv, mul(X, X)), mk("sum", n, bv, mul(Y, Y))}
    x, y = _stride1(X, bv), _stride1(Y, bv)
    if set(ss) == want and x is not None and y is not None:
        x, y = _ord(x, y)
        return mk("call", "cos", x, y, n)
    return None


DK = {"EUCL": "eucl", "COS": "cos", "TAXI": "taxi", "SQEUCL": "sqeucl"}


def kern_dispatch(r):
    """a merge over the metric of the four kernels on the same operands"""
    m = None
    for x in walk(r.a[0]):
        if x.op == "==" and any(y.op == "e" and y.a[0] in DK for y in x.a):
            m = [y for y in x.a if not (y.op == "e" and y.a[0] in DK)]
            m = m[0] if m else None
    if m is None:
        return None
    ops = None
    for e, k in DK.items():
        v = specialise(r, m, mk("e", e))
        if v.op != "call" or v.a[0] != k:
            return None
        if ops is None:
            ops = v.a[1:]
        elif ops != v.a[1:]:
            return None
    return mk("call", "dist", m, *ops)


def specialise(t, m, e):
    mp = {}
    for x in walk(t):
        if x.op == "==" and m in x.a:
            o = x.a[0] if x.a[1] is m else x.a[1]
            if o.op == "e":
                mp[x] = TRUE if o is e else FALSE
    return subst(t, mp)


def allenum(r, enums):
    m, seen = None, set()
    for x in r.a:
        if x.op == "==":
            es = [y for y in x.a if y.op == "e"]
            o = [y for y in x.a if y.op != "e"]
            if len(es) == 1 and len(o) == 1 and (m is None or m is o[0]):
                m = o[0]
                seen.add(es[0].a[0])
                continue
        return None
    for names in enums:
        if seen == set(names):
            return TRUE
    return None


def kern_argmin(r):
    """index (and value) of the smallest of f(0..n-1), first one wins"""
    n, bv = r.a[0], r.a[1]
    prs = list(zip(r.a[2::2], r.a[3::2]))
    h = bv.a[0]
    if len(prs) == 1:
        s0 = mk("slot", h, 0)
        (i0, b0), = prs
        if b0.op in ("phi", "call"):
            f = _minpair(b0, s0)
            if f is not None:
                return _arg(f[0] + "val", n, bv, f[1], None, i0, None)
        return None
    if len(prs) == 2:
        for b in (0, 1):
            sb, si = mk("slot", h, b), mk("slot", h, 1 - b)
            f = _minpair(prs[b][1], sb)
            o = prs[1 - b][1]
            if f is None or o.op != "phi":
                continue
            p = prs[b][1]
            if p.op == "call":
                f = _mincond(o.a[0], f, sb)
                if f is None:
                    continue
                oi, oe = (o.a[1], o.a[2]) if f[2] else (o.a[2], o.a[1])
            else:
                if o.a[0] is not p.a[0]:
                    continue
                pos = p.a[1] is f[1]
                oi, oe = (o.a[1], o.a[2]) if pos else (o.a[2], o.a[1])
            if oe is not si or contains(oi, sb):
                continue
            if contains(oi, si):
                # "leave it" at the first element leaves the seed there
                if not (oi.op == "phi" and oi.a[0] is eq(c(0), bv) and oi.a[1] is si and not contains(oi.a[2], si)):
                    continue
                oi = phi(oi.a[0], prs[1 - b][0], oi.a[2])
            ini_b, ini_i = prs[b][0], prs[1 - b][0]
            if b == 0:
                return _arg(f[0] + "val", n, bv, f[1], None, ini_b, None)
            return _arg("arg" + f[0], n, bv, f[1], oi, ini_b, ini_i)
    return None


def _arg(name, n, bv, f, oi, ini_b, ini_i):
    """drop a neutral seed; a seed that is the element before the range extends the range"""
    sgn = -1 if "max" in name else 1
    ini = (ini_b,) if oi is None else (ini_b, ini_i)
    body = (f,) if oi is None else (f, oi)
    if huge(ini_b, sgn):
        ini = ()
    else:
        mp = {bv: c(-1)}
        if subst(f, mp) is ini_b and (oi is None or subst(oi, mp) is ini_i):
            sh = {bv: sub(bv, c(1))}
            body = tuple(subst(x, sh) for x in body)
            n, ini = add(n, c(1)), ()
    if n.op == "c" and n.a[0] == 2 and not ini and name == "argmin":
        # of two: the second when it is smaller
        at = lambda t, i: subst(t, {bv: c(i)})
        return phi(lt(at(f, 1), at(f, 0)), at(oi, 1), at(oi, 0))
    return mk("call", name, n, bv, *(body + ini))


def huge(t, sgn):
    if t.op == "c" and isinstance(t.a[0], float):
        return sgn * t.a[0] > 1e300
    q = str(t.a[0]) if t.op == "call" else ""
    if sgn > 0:
        return q.startswith("std::numeric_limits") and q.endswith(("::max", "::infinity"))
    return q.startswith("std::numeric_limits") and q.endswith("::lowest")


def _mincond(cd, f, s):
    """the guard of the companion index of min(f, s): ('min'|'minlast'.., f, polarity)"""
    w, x = f
    if cd.op not in ("<", "<="):
        return None
    l, r = cd.a
    if w == "min":
        if l is x and r is s:
            return ("min" if cd.op == "<" else "minlast", x, True)
        if l is s and r is x:
            return ("min" if cd.op == "<=" else "minlast", x, False)
    else:
        if l is s and r is x:
            return ("max" if cd.op == "<" else "maxlast", x, True)
        if l is x and r is s:
            return ("max" if cd.op == "<=" else "maxlast", x, False)
    return None


def _minpair(b, s):
    """b = (f < s ? f : s) -> ('min', f)"""
    if b.op == "call" and b.a[0] in ("min", "max") and len(b.a) == 3 and s in b.a[1:]:
        x = b.a[2] if b.a[1] is s else b.a[1]
        return None if contains(x, s) else (b.a[0], x)
    if b.op != "phi":
        return None
    cd, x, y = b.a
    if y is s and cd.op in ("<", "<=") and not contains(x, s):
        f = x
        if cd.op == "<" and cd.a[0] is f and cd.a[1] is s:
            return ("min", f)
        if cd.op == "<" and cd.a[1] is f and cd.a[0] is s:
            return ("max", f)
        if cd.op == "<=" and cd.a[0] is f and cd.a[1] is s:
            return ("minlast", f)
        if cd.op == "<=" and cd.a[1] is f and cd.a[0] is s:
            return ("maxlast", f)
    if x is s and cd.op in ("<", "<=") and not contains(y, s):
        f = y
        if cd.op == "<=" and cd.a[0] is s and cd.a[1] is f:
            return ("min", f)
        if cd.op == "<=" and cd.a[1] is s and cd.a[0] is f:
            return ("max", f)
    return None


# ------------------------------------------------------------------ canonical text
_cs = {}


def written(v):
    """the version says: modified since the analysed function was entered (this iteration, for loop bodies)"""
    return any(x.op in ("w", "muend", "fold", "wfold", "last") for x in walk(v))


def cshow(t):
    r = _cs.get(t)
    if r is None:
        r = _cs[t] = _cshow(t)
    return r


def _num(k):
    if isinstance(k, float) and k == int(k) if not (isinstance(k, float) and (k != k or abs(k) == float("inf"))) else False:
        k = int(k)
    return str(k)


def _cshow(t):
    o, a = t.op, t.a
    if o == "c":
        return _num(a[0])
    if o in ("sym", "e"):
        return a[0]
    if o == "str":
        return repr(a[0])
    if o == "null":
        return "null"
    if o == "G":
        return a[0].split("::")[-1]
    if o == "L":
        return "$" + str(a[2])
    if o == "F":
        return "%s.%s" % (cshow(a[0]), a[1])
    if o == "I":
        return "%s[%s]" % (cshow(a[0]), cshow(a[1]))
    if o == "ld":
        return cshow(a[0]) + ("'" if len(a) > 1 and written(a[1]) else "")
    if o in ("hv", "ald"):
        return cshow(a[0])
    if o == "at":
        return cshow(a[0]) + "'"
    if o == "q":
        return "q%d" % a[0]
    if o == "bv":
        return "j%d" % a[0]
    if o == "slot":
        return "acc%d_%d" % a
    if o == "+":
        ms = []
        for m, k in a:
            s = "*".join(sorted(cshow(x) for x in m))
            ms.append(s if k == 1 and m else (_num(k) if not m else "%s*%s" % (_num(k), s)))
        return "(" + " + ".join(sorted(ms)) + ")"
    if o == "*":
        return "*".join(sorted(cshow(x) for x in a))
    if o == "==":
        return "(%s == %s)" % tuple(sorted((cshow(a[0]), cshow(a[1]))))
    if o in ("<", "<="):
        return "(%s %s %s)" % (cshow(a[0]), o, cshow(a[1]))
    if o in ("&", "|"):
        return "(" + (" %s " % (o * 2)).join(sorted(cshow(x) for x in a)) + ")"
    if o == "!":
        return "!" + cshow(a[0])
    if o == "phi":
        return "(%s ? %s : %s)" % tuple(cshow(x) for x in a)
    if o == "inv":
        return "1/(%s)" % cshow(a[0])
    if o == "idiv":
        return "(%s / %s)" % (cshow(a[0]), cshow(a[1]))
    if o == "mod":
        return "(%s %% %s)" % (cshow(a[0]), cshow(a[1]))
    if o == "call":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(cshow(x) if isinstance(x, T) else str(x) for x in a[1:]))
    if o == "new":
        return "new<%s>" % (a[-1],)
    if o in ("tmp",):
        return "tmp"
    if o in ("w", "site", "fr", "lid"):
        return "#"
    if o == "ret":
        return "%s()" % (a[1] if len(a) > 1 else "?",)
    if o == "rand":
        return "rand"
    if o == "fn":
        return "fn:%s" % str(a[0])[:20]
    return "%s(%s)" % (o, ", ".join(cshow(x) if isinstance(x, T) else str(x) for x in a))


# ------------------------------------------------------------------ normal form of effects
# exit condition of the completion wait (decided by the protocol rules)
WAITED = {"(0 == this.pending_threads)"}


def cofactor(t, x):
    """f with t == x * f, f free of x"""
    r = {}
    if is_c(t):
        return None
    for m, k in poly(t).items():
        if sum(1 for y in m if y is x) != 1:
            return None
        rest = list(m)
        rest.remove(x)
        r[tuple(rest)] = k
    f = unpoly(r)
    return None if contains(f, x) else f


def relax(p, drop):
    """p where conditions that only lead to a failure when false are taken as true"""
    if p in drop:
        return TRUE
    if p.op == "|":
        return or_(*[relax(x, drop) for x in p.a])
    if p.op == "&":
        return and_(*[relax(x, drop) for x in p.a])
    return p


def tautology(p, enums):
    """true in every assignment of its atoms (the values of an enumeration exclude each other and are exhaustive)"""
    atoms, en = [], {}

    def atom(x):
        if x.op in ("&", "|"):
            for y in x.a:
                atom(y)
        elif x.op == "!":
            atom(x.a[0])
        elif x.op != "c":
            if not_(x) in atoms:
                return
            if x.op == "==" and any(y.op == "e" for y in x.a):
                o = [y for y in x.a if y.op != "e"]
                if len(o) == 1:
                    es = en.setdefault(o[0], [])
                    n = [y for y in x.a if y.op == "e"][0].a[0]
                    if n not in es:
                        es.append(n)
                    return
            if x not in atoms:
                atoms.append(x)
    atom(p)
    dims = []
    for m, ns in en.items():
        full = any(set(ns) >= set(e) for e in enums if set(e) >= set(ns))
        dims.append([(m, n) for n in ns] + ([] if full else [(m, None)]))
    if len(atoms) > 8 or len(dims) > 2:
        return False
    import itertools

    def val(x, asg):
        if x.op == "&":
            return all(val(y, asg) for y in x.a)
        if x.op == "|":
            return any(val(y, asg) for y in x.a)
        if x.op == "!":
            return not val(x.a[0], asg)
        if x.op == "c":
            return bool(x.a[0])
        if x in asg:
            return asg[x]
        if not_(x) in asg:
            return not asg[not_(x)]
        o = [y for y in x.a if y.op != "e"][0]
        return asg[o] == [y for y in x.a if y.op == "e"][0].a[0]
    for bs in itertools.product((False, True), repeat=len(atoms)):
        for es in itertools.product(*dims):
            asg = dict(zip(atoms, bs))
            asg.update(dict(es))
            if not val(p, asg):
                return False
    return True


MPICONST = {"1275070475": "DOUBLE", "1275068673": "CHAR", "1275069445": "INT", "1275069446": "UNSIGNED", "1275070471": "LONG", "1275070472": "UNSIGNED_LONG", "1275070473": "LONG_LONG",
            "1275070489": "UNSIGNED_LONG_LONG", "1275069450": "FLOAT", "1476395011": "SUM", "1476395009": "MAX", "1476395010": "MIN", "1476395012": "PROD", "1140850688": "WORLD"}


def mpiconst(s):
    return MPICONST.get(s, s[5:] if s.startswith("MPI::") else s)


class Norm(object):
    """effects of one tree, split on boolean merges, with rejected paths dropped from the guards"""

    def __init__(self, tree, enums=(), locals_=False, want=None, sub_=None, alias=None, under=()):
        root = tree[0]
        self.root = root
        self.sub_ = sub_
        self.cl = Closer(root, fixed=alias)
        self.enums = enums
        self.alias = alias
        self.memo = {}
        drop = set(under)
        if sub_ is not None:
            for p in sub_.pc:
                drop.add(p)
        for n, a in allnodes(root):
            if n.kind == "assert" and isinstance(n.get("cond"), T):
                drop.add(n.cond)
                if n.cond.op == "&":
                    drop.update(n.cond.a)
                for i in range(len(n.pc) - 1, max(-1, len(n.pc) - 6), -1):
                    drop.add(or_(not_(and_(*n.pc[i:])), n.cond))
            if n.kind in ("throw", "exit") or n.kind == "call" and n.get("noret"):
                for i in range(len(n.pc) - 1, max(-1, len(n.pc) - 6), -1):
                    x = not_(and_(*n.pc[i:]))
                    drop.add(x)
                    if x.op == "&" and i == len(n.pc) - 1:
                        drop.update(x.a)
            if n.kind == "loop" and n.lkind != "do":
                # whoever gets past a loop left it in one of its ways
                mp = {n.iv: mk("ivend", n.lid)}
                for key in n.mods:
                    if n.mods[key]["mode"] == "mu":
                        mp[mk("mu", n.lid, key)] = mk("muend", n.lid, key)
                ways = breakconds(n, len(n.pc))
                if n.cond is not None and n.cond is not TRUE:
                    ways.append(not_(n.cond))
                p = subst(or_(*ways), mp)
                drop.add(p)
                if p.op == "&":
                    drop.update(p.a)
        self.drop = drop
        self.effs = []
        for e in effects(sub_ or root, self.cl, want, locals_, sub_):
            self.norm(e, drop)
        # canonical text
        self.lines = [self.text(e) for e in self.effs]

    def k(self, t):
        return kern(t, self.enums, self.memo, self.alias)

    def norm(self, e, drop):
        lc = set()
        mp = {}
        if self.sub_ is not None and self.sub_.kind == "loop":
            # values at the start of one iteration
            for key in self.sub_.mods:
                if key.op not in ("V",):
                    mp[mk("mu", self.sub_.lid, key)] = mk("ld", self.cl.close(key))
        if self.sub_ is not None and self.sub_.kind == "loop" and self.sub_.cond is not None:
            lc.add(self.sub_.cond)
            if self.sub_.cond.op == "&":
                lc.update(self.sub_.cond.a)
        for (q, tr), L in zip(e.loops, e.L):
            mp[L.iv] = q
            if L.cond is not None:
                lc.add(L.cond)
                if L.cond.op == "&":
                    lc.update(L.cond.a)
        gs = []
        for p in e.n.pc:
            if p in lc or p in drop:
                continue
            for x in (p.a if p.op == "&" else (p,)):
                if x in lc or x in drop:
                    continue
                y = self.k(subst(self.cl.close(relax(x, drop)), mp))
                if y.op == "|" and tautology(y, self.enums):
                    continue
                for z in (y.a if y.op == "&" else (y,)):
                    if z is not TRUE and z not in gs and cshow(z) not in WAITED:
                        gs.append(z)
        e.guards = gs = inrange(gs)
        e.loops = [(q, self.k(subst(t, mp))) for q, t in e.loops]
        e.x = {k: self.k(subst(v, mp)) for k, v in e.x.items()}
        e.lv = e.x.get("lv")
        e.val, e.rhs = e.x.get("val"), e.x.get("rhs")
        if e.kind == "store":
            for g, op, rhs in self.split(e, e.op, e.rhs, e.val):
                f = Eff()
                for s in ("kind", "n", "anc", "loops", "lv", "L"):
                    setattr(f, s, getattr(e, s))
                f.x = dict(e.x)
                f.op, f.rhs = op, rhs
                f.val = e.val
                f.guards = list(e.guards)
                dead = False
                for y in g:
                    for z in (y.a if y.op == "&" else (y,)):
                        if not_(z) in f.guards:
                            dead = True
                        if z not in f.guards and z is not TRUE:
                            f.guards.append(z)
                # storing the value that is already there changes nothing
                if f.op in ("=", "==") and e.x.get("old") is not None:
                    same = not_(eq(e.x["old"], f.rhs))
                    f.guards = [z for z in f.guards if z is not same]
                if not dead:
                    self.effs.append(f)
        else:
            self.effs.append(e)

    def split(self, e, op, rhs, val):
        if rhs is None:
            return [([], op, rhs)]
        if op == "=":
            op = "=="[:1]
        # x = x + d  is  x += d
        if op in ("=", "==") and e.x.get("old") is not None:
            d = sub(rhs, e.x["old"])
            if not contains(d, e.x["old"]) and rhs is not d and contains(rhs, e.x["old"]) and not any(y is e.x["old"] for y in [rhs]):
                return self.split(e, "+=", d, val)
        # x = x * f  is  x *= f,  x = x / f  is  x /= f
        if op in ("=", "==") and e.x.get("old") is not None and rhs is not e.x["old"]:
            f = cofactor(rhs, e.x["old"])
            if f is not None:
                return self.split(e, "*=", f, val)
        if op == "*=" and rhs.op == "inv":
            return [([], "/=", rhs.a[0])]
        if op == "-=":
            return self.split(e, "+=", neg(rhs), val)
        if op != "+=" and rhs.op == "call" and rhs.a[0] in ("min", "max") and len(rhs.a) == 3 and e.x.get("old") is not None and e.x["old"] in rhs.a:
            o = rhs.a[1] if rhs.a[2] is e.x["old"] else rhs.a[2]
            g = lt(o, e.x["old"]) if rhs.a[0] == "min" else lt(e.x["old"], o)
            return [([g], op, o)]
        if rhs.op == "phi":
            out = []
            for g, r in ((rhs.a[0], rhs.a[1]), (not_(rhs.a[0]), rhs.a[2])):
                if e.x.get("old") is not None and op != "+=" and r is e.x["old"]:
                    continue
                if op == "+=" and r is FALSE:
                    continue
                out += [([g] + gg, o, rr) for gg, o, rr in self.split(e, op, r, val)]
            return out
        if op == "+=" and isbool(rhs):
            return [([rhs], "+=", c(1))]
        return [([], op, rhs)]

    def text(self, e):
        n = len(e.loops)
        free = [i for i in range(n)]
        import itertools
        best = None
        self.extend(e)
        self.flatten(e)
        n = len(e.loops)
        # quantifiers whose bounds use other quantifiers keep their order
        dep = any(any(x.op == "q" for x in walk(t)) for _, t in e.loops)
        perms = [tuple(range(n))] if dep or n > 3 else list(itertools.permutations(range(n)))
        for pm in perms:
            mp = {e.loops[o][0]: mk("q", i) for i, o in enumerate(pm)}
            ls = [subst(e.loops[o][1], mp) for o in pm]
            for rv in (range(1 << n) if not dep and n <= 3 else (0,)):
                mq = dict(mp)
                for i, o in enumerate(pm):
                    if rv >> i & 1:
                        if ls[i].op == "while":
                            break
                        mq[e.loops[o][0]] = sub(sub(ls[i], c(1)), mk("q", i))
                else:
                    s = self.one(e, ls, mq)
                    if best is None or (len(s), s) < best:
                        best = (len(s), s)
        return best[1]

    def extend(self, e):
        """an outer counter may run one further if the inner one does nothing there"""
        for i, (q, M) in enumerate(e.loops):
            if M.op == "while":
                continue
            for _ in range(2):
                if any(N.op != "while" and contains(N, q) and self.k(subst(N, {q: M})) is FALSE for r, N in e.loops[i + 1:]):
                    M = add(M, c(1))
                    e.loops[i] = (q, M)

    def flatten(self, e):
        """two counters used only as i*N + j (j < N, i < M) are one counter below M*N"""
        again = True
        while again and len(e.loops) > 1:
            again = False
            for qi, M in e.loops:
                for qj, N in e.loops:
                    if qi is qj or M.op == "while" or N.op == "while" or N is c(1) or M is c(1):
                        continue
                    if any(contains(t, qi) or contains(t, qj) for _, t in e.loops):
                        continue
                    mp = {qj: sub(qj, mul(qi, N))}
                    g = [subst(x, mp) for x in e.guards]
                    x = {k: subst(v, mp) for k, v in e.x.items()}
                    r = subst(e.rhs, mp) if e.rhs is not None else None
                    ts = g + [v for v in x.values() if isinstance(v, T)] + ([r] if r is not None else [])
                    if any(contains(t, qi) for t in ts) or not any(contains(t, qj) for t in ts):
                        continue
                    e.guards, e.x, e.rhs = g, x, r
                    e.lv = x.get("lv")
                    e.val = x.get("val")
                    e.loops = [(q, mul(M, N) if q is qj else t) for q, t in e.loops if q is not qi]
                    again = True
                    break
                if again:
                    break

    def one(self, e, ls, mp):
        f = lambda t: cshow(subst(t, mp))
        q = "".join("for q%d<%s " % (i, cshow(t)) for i, t in enumerate(ls))
        g = sorted(f(x) for x in e.guards)
        g = ("if " + " && ".join(g) + " ") if g else ""
        if e.kind == "store":
            return "%s%s: %s %s %s" % (q, g, f(e.lv), "=" if e.op in ("=", "==") else e.op, f(e.rhs))
        if e.kind == "mpi":
            return "%s%s: %s %s" % (q, g, e.n.name, " ".join("%s=%s" % (k, mpiconst(f(e.x[k]))) for k in ("src", "v", "dst", "n", "t", "n2", "t2", "op", "peer", "displ", "comm") if k in e.x))
        keys = [k for k in ("base", "dst", "obj", "src", "lo", "hi", "n", "val", "key") if k in e.x]
        return "%s%s: %s %s" % (q, g, e.kind, " ".join("%s=%s" % (k, f(e.x[k])) for k in keys))
