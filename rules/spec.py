"""Specifications as sets of normalised effects (see engine/canon.py) and their comparison with the code."""
from rulebase import *
from model import THIS, short, COORD, WORKER
import canon
from canon import Norm, cshow, Closer, Eff
from terms import contains, sub, mk


def enums_of(m):
    if getattr(m, "_enums", None) is None:
        m._enums = [tuple(x["n"] if isinstance(x, dict) else x for x in v) for v in m.db.enums.values()]
    return m._enums


def path(s):
    """'this.a.b' -> the location term after closing (loads stripped of versions)"""
    ps = s.split(".")
    t = THIS if ps[0] == "this" else sym(ps[0])
    for i, p in enumerate(ps[1:]):
        if i:
            t = mk("ld", t)
        t = mk("F", t, p)
    return t


def aliaser(table, sizes=True):
    """table: 'this.cltrs.nclust' -> 'this.k' (equalities fixed when the objects are built)"""
    names = {}
    for k, v in table.items():
        names[k] = v

    def f(r):
        if r.op not in ("F", "size"):
            return None
        s = cshow(r)
        v = names.get(s)
        if v is None:
            v = SIZES.get(s) if sizes else None
            if v is None:
                return None
            x = mk("ld", path(v[0]))
            for y in v[1:]:
                x = mul(x, mk("ld", path(y)))
            return x
        return v if isinstance(v, T) else path(v)
    return f


COMMON = {"this.local_clusters.ncol": "this.ncol", "this.g_clusters.ncol": "this.ncol", "this.cltrs.ncol": "this.ncol",
          "this.local_clusters.nclust": "this.g_clusters.nclust", "this.cltrs.nclust": "this.k",
          "size(this.threads)": "this.nthreads"}
SIZES = {"size(this.cltrs.means)": ("this.k", "this.ncol"), "size(this.cltrs.num_members_v)": ("this.k",),
         "size(this.local_clusters.means)": ("this.g_clusters.nclust", "this.ncol"),
         "size(this.local_clusters.num_members_v)": ("this.g_clusters.nclust",),
         "size(this.local_clusters.complete_v)": ("this.g_clusters.nclust",),
         "size(this.cltrs.complete_v)": ("this.k",)}


def chain(f, g):
    if g is None:
        return f
    return lambda r: f(r) or g(r)


class Sum(object):
    def __init__(self, c, tree, alias=None, sub_=None, drop=(), locals_=False, want=None, sizes=True, hook=None):
        al = dict(COMMON)
        al.update(alias or {})
        self.c = c
        self.nf = Norm(tree, enums_of(c.model), locals_=locals_, sub_=sub_, alias=chain(aliaser(al, sizes), hook), want=want, under=drop)
        self.tree = tree
        c.seen(tree)
        self.items = list(zip(self.nf.lines, self.nf.effs))
        self.macros = []

    def macro(self, text, name):
        """shorten a recurring value in every line"""
        self.items = [(l.replace(text, name), e) for l, e in self.items]

    def nocommon(self):
        """drop the guards shared by all effects (how the code is reached at all)"""
        es = [e for _, e in self.items]
        if es:
            com = [g for g in es[0].guards if all(g in e.guards for e in es)]
            for e in es:
                e.guards = [g for g in e.guards if g not in com]
            self.items = [(self.nf.text(e), e) for e in es]
        return self

    def rx(self, pat, repl):
        import re
        self.items = [(re.sub(pat, repl, l), e) for l, e in self.items]

    def listed(self, full):
        """the elements of a local list filled by one loop are what was pushed (full: the same effects with those on locals)"""
        import re
        by = {}
        for l in full.lines():
            m = re.match(r"^(.*): push obj=(\$\w+) val=(.*)$", l)
            if m:
                by.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
        for v, ps in by.items():
            if len(ps) == 1 and re.match(r"^for q0<\S+ $", ps[0][0]) and not re.search(r"q[1-9]|\$", ps[0][1]):
                self.rx(re.escape(v) + r"\[(q\d)\]'*", lambda m: re.sub(r"\bq0\b", m.group(1), ps[0][1]))
        return self

    def assigned(self, field, name="A", pre="this."):
        """name(q) for the value stored to the field once per row, so that other rules do not depend on how it is chosen"""
        for l, e in self.items:
            if e.kind == "store" and len(e.loops) == 1 and not e.guards and ": %s%s[" % (pre, field) in l and " = " in l:
                v = l.split(" = ", 1)[1]
                if "q0" not in v or len(v) < 12:
                    continue
                for i in range(3, -1, -1):
                    w = v.replace("q0", "q%d" % i)
                    self.items = [(x.replace(w, "%s(q%d)" % (name, i)), y) for x, y in self.items]
                return True
        return False

    def lines(self):
        return [l for l, _ in self.items]

    def of(self, *fields):
        return [(l, e) for l, e in self.items if target(e) in fields]

    def check(self, key, rule, required, fields=None, allowed=(), where="", msg="", seq=()):
        """required: list of groups; a group is a list of alternatives; an alternative is a line or a tuple of lines"""
        c = self.c
        have = {}
        for l, e in self.items:
            have.setdefault(l, e)
        real = {}
        if any(": copy dst=" in x for g in required for a in (g if isinstance(g, list) else [g]) for x in (a if isinstance(a, tuple) else (a,))):
            # the same entries set one after the other
            for l, e in self.items:
                for x in self.copyforms(e):
                    if x not in have:
                        have[x] = e
                        real[x] = l
        ok = True
        accepted = set(x for x in allowed if not callable(x))
        hits = {}
        for gi, g in enumerate(required):
            g = g if isinstance(g, list) else [g]
            hit = None
            for alt in g:
                alt = alt if isinstance(alt, tuple) else (alt,)
                if all(x in have for x in alt):
                    hit = tuple(real.get(x, x) for x in alt)
                    accepted.update(hit)
                    break
            if hit is None:
                alt = g[0] if isinstance(g[0], tuple) else (g[0],)
                miss = [x for x in alt if x not in have][0]
                near = self.near(miss)
                c.bad("%s:%d" % (key, gi), loc(near.n) if near is not None else where,
                      "%s: expected effect %r%s" % (msg or rule, miss[:300], ("; found %r" % self.textof(near)[:300]) if near is not None else ""), rule)
                ok = False
            else:
                c.ok(rule, key + " " + hit[0][:160])
                hits[gi] = hit
        pos = {}
        for i, (l, e) in enumerate(self.items):
            pos.setdefault(l, []).append(i)
        for ch in seq:
            for a, b in zip(ch, ch[1:]):
                if a not in hits or b not in hits:
                    continue
                la = max(i for x in hits[a] for i in pos[x])
                lb = min(i for x in hits[b] for i in pos[x])
                if la > lb:
                    c.bad("%s:order:%d<%d" % (key, a, b), loc(have[hits[b][0]].n), "%s: %r must come before %r" % (msg or rule, hits[a][0][:200], hits[b][0][:200]), rule)
                    ok = False
                else:
                    c.ok(rule)
        if fields and ok:
            for l, e in self.items:
                if target(e) in fields and l not in accepted and not any(callable(a) and a(l, e) for a in allowed):
                    c.bad("%s:extra:%s" % (key, target(e)), loc(e.n), "%s: unexpected effect %r" % (msg or rule, l[:300]), rule)
                    ok = False
        return ok

    def copyforms(self, e):
        """an element by element copy, as a copy of the range"""
        if e.kind != "store" or e.op not in ("=", "==") or e.lv is None or e.lv.op != "I" or not isinstance(e.rhs, T) or e.rhs.op != "ld" or e.rhs.a[0].op != "I":
            return
        s = e.rhs.a[0]
        for q, n in e.loops:
            if n.op == "while" or any(contains(x, q) for x in list(e.guards) + [b for _, b in e.loops] + [e.lv.a[0], s.a[0]]):
                continue
            x, y = sub(e.lv.a[1], q), sub(s.a[1], q)
            if contains(x, q) or contains(y, q):
                continue
            f = Eff()
            f.kind, f.n, f.anc, f.L, f.guards = "copy", e.n, e.anc, e.L, list(e.guards)
            f.loops = [(p, b) for p, b in e.loops if p is not q]
            f.lv = f.val = f.rhs = f.op = None
            src = s.a[0] if s.a[0].op == "call" and y.op == "c" and y.a[0] == 0 else mk("I", s.a[0], y)
            f.x = {"dst": mk("I", e.lv.a[0], x), "src": src, "n": n}
            yield self.nf.text(f)

    def textof(self, e):
        return next(l for l, x in self.items if x is e)

    def near(self, line):
        t = line.split(": ")[-1].split(" ")[0]
        f = t.split("[")[0]
        for l, e in self.items:
            if l.split(": ")[-1].split("[")[0].split(" ")[0] == f and not str(e.n.loc).startswith("vmap.cpp"):
                return e
        return None


def cut(l):
    """(loops and guards, effect) of a normal-form line"""
    if l.startswith(": "):
        return "", l[2:]
    d = 0
    for i, ch in enumerate(l):
        if ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        elif d == 0 and l.startswith(" : ", i):
            return l[:i], l[i + 3:]
    return l, ""


def gset(l):
    """guards of a normal-form line"""
    head = " " + cut(l)[0]
    i = head.find(" if ")
    if i < 0:
        return set()
    g = head[i + 4:]
    out, d, cur, k = set(), 0, "", 0
    while k < len(g):
        ch = g[k]
        if ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        if d == 0 and g.startswith(" && ", k):
            out.add(cur)
            cur, k = "", k + 4
            continue
        cur += ch
        k += 1
    out.add(cur)
    return out


def target(e):
    t = e.n.get("lv") or e.n.get("base") or e.n.get("dst") or e.n.get("obj")
    return fieldname(t)


def loop_of(tree, state):
    """outermost loop of the driver in which the phase is dispatched"""
    for n, anc in allnodes(tree[0]):
        if n.kind == "store" and fieldname(n.lv) == "state" and n.val.op == "e" and n.val.a[0] == state:
            ls = [a for a in anc if a.kind == "loop"]
            ls = [l for l in ls if not isworkers(l)]
            if ls:
                return ls[0]
    return None


def isworkers(L):
    return any(x.op == "F" and x.a[1] == "threads" for x in walk(L.cond)) if L.cond is not None else False


def exits(s, L):
    """(conditions to go on, conditions to stop) of a loop, as canonical texts; asserts and the way to the loop are left out.
    A flag tested by the loop condition is replaced by the value it has at the end of a pass."""
    cl, nf = s.nf.cl, s.nf
    skip = set(L.pc) | nf.drop
    cond = list(L.cond.a) if L.cond is not None and L.cond.op == "&" else ([L.cond] if L.cond is not None else [])
    skip |= set(cond)
    if L.cond is not None:
        skip.add(L.cond)
    iv = {L.iv}

    def txt(x):
        mp = {}
        for k in L.mods:
            if k.op != "V":
                mp[mk("mu", L.lid, k)] = mk("ld", cl.close(k))
        return cshow(nf.k(subst(cl.close(x), mp)))
    stop, go = set(), []

    def conds(pc):
        out = []
        for p in pc:
            if p in skip:
                continue
            for x in (p.a if p.op == "&" else (p,)):
                if x in skip or x is TRUE:
                    continue
                out.append(x)
        return out

    def addstop(ts):
        # disjuncts of a conjunction with one disjunction in it
        ts = [t for t in ts if txt(t) not in canon.WAITED and txt(t) != "1"]
        ors = [t for t in ts if t.op == "|"]
        if ors:
            rest = [t for t in ts if t is not ors[0]]
            for y in ors[0].a:
                addstop(rest + list(y.a if y.op == "&" else (y,)))
            return
        # a disjunct already excluded: x || (!x && y) is x || y
        stop.add(tuple(sorted(set(txt(t) for t in ts))))
    for b in breaks(L):
        addstop(conds(b.pc))
    for x in cond:
        mus = [y for y in walk(x) if y.op == "mu" and y.a[0] is L.lid]
        if not mus or not all(boolish(L.mods.get(y.a[1])) for y in mus):
            go.append(txt(x))       # the limit
            continue
        mp, now = {}, {y: TRUE for y in cond if y.op == "mu"}
        now.update({not_(y): FALSE for y in cond if not_(y).op == "mu"})
        for k, md in L.mods.items():
            if md["mode"] == "mu" and md["back"] is not None:
                mp[mk("mu", L.lid, k)] = subst(md["back"], now)
        mp[L.iv] = add(L.iv, c(1))
        addstop([y for y in conj(not_(subst(x, mp)))])
    # absorb: (a) and (!a && b)
    ch = True
    while ch:
        ch = False
        for a in list(stop):
            for b in list(stop):
                if a is b or len(a) != 1:
                    continue
                na = a[0][1:] if a[0].startswith("!") else "!" + a[0]
                if na in b and len(b) > 1:
                    stop.discard(b)
                    stop.add(tuple(x for x in b if x != na))
                    ch = True
    return sorted(go), sorted(" && ".join(x) for x in stop)


def boolish(md):
    return md is not None and md["mode"] == "mu" and md.get("back") is not None and md.get("init") is not None and isbit(md["init"]) and isbit(md["back"])


def isbit(t):
    return t.op == "c" and t.a[0] in (0, 1) or terms.isbool(t) or t.op == "phi" and isbit(t.a[1]) and isbit(t.a[2]) or t.op == "mu"


def conj(x):
    return list(x.a) if x.op == "&" else [x]


def breaks(L):
    out = []

    def go(ns):
        for n in ns:
            if n.kind == "break":
                out.append(n)
            elif n.kind in ("loop", "switch"):
                continue
            else:
                for b in n.bodies():
                    go(b)
    go(L.body)
    return out
