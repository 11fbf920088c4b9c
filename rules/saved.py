"""C22: what is saved, reported and read back is the whole result, every value once and in its place."""
import re
import numval
from interp import *
from terms import *
from rulebase import loc
from model import AnalysisBroken


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


class Over(Exception):
    """the program ends here"""


class Walk(object):
    """the effects of a function in order, for one shape of its data: loops are unrolled for that shape, values of the data stay names"""

    def __init__(self, tree, sizes, data=None, results=None):
        self.sizes, self.data, self.results = sizes, data or {}, results or (lambda n, args: None)
        self.iv, self.end, self.mem, self.ret, self.out, self.events, self.val, self.open, self.muend, self.start = {}, {}, {}, {}, [], [], None, {}, {}, {}
        self.steps = 0
        try:
            self.run(tree[0] if isinstance(tree[0], list) else [tree[0]])
        except Over:
            pass

    # values
    def num(self, t):
        return numval.num(t, self.atom)

    def value(self, t):
        try:
            if t.op == "I":
                return mk("I", t.a[0], c(int(self.num(t.a[1]))))
            return self.num(t)
        except (numval.Unknown, TypeError, AttributeError, ValueError):
            return t

    def place(self, l):
        """the text of a location with its positions worked out"""
        if isinstance(l, T) and l.op == "I":
            return "%s[%d]" % (self.place(l.a[0]), self.num(l.a[1]))
        if isinstance(l, T) and l.op == "F" and isinstance(l.a[0], T):
            return "%s.%s" % (self.place(l.a[0]), l.a[1])
        if isinstance(l, T) and l.op == "ld":       # what a pointer points to is called after the pointer
            return self.place(l.a[0])
        return show(l)

    def size(self, b):
        return self.sizes.get("size(%s)" % b, 0)

    def spot(self, p):
        """(start, position) of the memory a pointer points to"""
        return (self.place(p.a[0]), self.num(p.a[1])) if p.op == "I" else (self.place(p), 0)

    def get(self, w):
        return self.sizes[w] if w in self.sizes else self.data.get(w, w)

    def take(self, d, q):
        """d becomes a copy of the list q"""
        n = self.size(q)
        vals = [self.get("%s[%d]" % (q, i)) for i in range(n)]
        self.sizes["size(%s)" % d] = n
        for i, v in enumerate(vals):
            self.data["%s[%d]" % (d, i)] = v

    def atom(self, t):
        o, a = t.op, t.a
        if t in self.iv:
            return self.iv[t]
        if t in self.ret:
            return self.ret[t]
        if o == "mu" and (a[0], a[1]) in self.start:
            return self.start[(a[0], a[1])]
        if o in ("mu", "muend") and a[1].op == "size":
            return self.size(self.place(a[1].a[0]))
        if o == "mu":
            return self.mem.get(a[1])
        if o == "muend":
            return self.muend.get((a[0], a[1]))
        if o == "ivend":
            return self.end.get(a[0], 0)
        if o == "str":
            return a[0]
        if o == "call" and a[0] == "str+":
            return "".join(str(self.num(x)) for x in a[1:])
        if o == "call" and str(a[0]).split("::")[-1] == "to_string":
            return str(self.num(a[1]))
        if o == "call" and str(a[0]).split("::")[-1] == "equal":
            return self.equal(*a[1:])
        if o in ("ld", "hv", "sym", "L", "F", "size", "call"):
            w = show(t).replace("'", "") if o != "call" else show(t)
            if o == "call" and str(a[0]) in ("size", "rangesize") and isinstance(a[1], T):
                w = "%s(%s)" % (a[0], self.place(a[1]))
            if o == "ld" and a[0].op == "size" or o == "size":
                w = "size(%s)" % self.place(a[0].a[0] if o == "ld" else a[0])
            if w in self.sizes:
                return self.sizes[w]
            if o == "ld":
                try:
                    w = self.place(a[0])
                except numval.Unknown:
                    return None
                if w in self.sizes:
                    return self.sizes[w]
                if w in self.data:
                    return self.data[w]
                if a[0].op == "I":
                    return w
        if o in ("I", "null") and o == "I":
            return t
        return None

    def equal(self, b, e, d):
        if not (b.op == e.op == d.op == "I" and b.a[0] is e.a[0]):
            raise numval.Unknown("equal")
        lo, hi, p, q = self.num(b.a[1]), self.num(e.a[1]), self.place(b.a[0]), self.place(d.a[0])
        at = self.num(d.a[1])
        return int(all(self.data.get("%s[%d]" % (p, i), "?") == self.data.get("%s[%d]" % (q, at + i - lo), "??") for i in range(lo, hi)))

    # effects
    def run(self, ns):
        for n in ns:
            self.steps += 1
            if self.steps > 20000:
                raise numval.Unknown("too long")
            self.one(n)

    def one(self, n):
        k = n.kind
        if k == "if":
            self.run(n.get("then") if self.num(n.get("cond")) else n.get("els"))
        elif k == "enter":
            try:
                self.run(n.get("body"))
            except Ret:
                pass
        elif k in ("omp", "try"):
            self.run(n.get("body"))
        elif k == "loop":
            self.loop(n)
        elif k == "store":
            v = self.value(n.get("val"))
            self.mem[n.get("lv")] = v
            if n.get("lv").op in ("I", "F"):
                self.data[self.place(n.get("lv"))] = v
            self.events.append(("store", n, [self.place(n.get("lv")) if n.get("lv").op in ("I", "F") else n.get("lv"), v]))
        elif k in ("fill", "resize"):
            b = self.place(n.get("base") if k == "fill" else n.get("obj"))
            lo, hi = (self.num(n.get("lo")), self.num(n.get("hi"))) if k == "fill" else (self.size(b), self.num(n.get("n")))
            for i in range(lo, hi):
                self.data["%s[%d]" % (b, i)] = self.value(n.get("val"))
            if k == "resize" or n.get("fresh"):
                self.sizes["size(%s)" % b] = hi
        elif k == "copy":
            (d, i), (q, j) = self.spot(n.get("dst")), self.spot(n.get("src"))
            vals = [self.get("%s[%d]" % (q, j + x)) for x in range(self.num(n.get("n")))]
            for x, v in enumerate(vals):
                self.data["%s[%d]" % (d, i + x)] = v
            if n.get("sized"):
                self.sizes["size(%s)" % d] = len(vals)
        elif k == "assign":
            self.take(self.place(n.get("dst")), self.place(n.get("src")))
        elif k == "push":
            b = self.place(n.get("obj"))
            i = self.size(b)
            self.sizes["size(%s)" % b] = i + 1
            v = self.value(n.get("val"))
            if isinstance(v, T):
                self.take("%s[%d]" % (b, i), self.place(v))
            else:
                self.data["%s[%d]" % (b, i)] = v
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cont()
        elif k == "return":
            self.val = self.value(n.get("val")) if n.get("val") is not None else None
            raise Ret()
        elif k in ("throw", "exit", "assertfail", "terminate"):
            raise Over()
        elif k == "assert":
            if self.value(n.get("cond")) in (0, False):
                raise Over()
        elif k == "io" and n.get("name") == "operator<<":
            a = n.get("args")
            to, a = (n.get("obj"), a) if n.get("obj") is not None else (a[0], a[1:])
            self.out.append((to, n, self.text(a[0], n.get("obj") is None)))
        elif k == "mapslot":                        # an entry that is looked up comes into being as zero
            w = "%s[%d]" % (self.place(n.get("obj")), self.num(n.get("key")))
            if w not in self.sizes:
                self.data.setdefault(w, 0)
        elif k == "ctor":
            self.open[n.get("obj")] = [self.value(x) for x in n.get("args")]
        elif k == "call":
            args = [self.value(x) if isinstance(x, T) else x for x in n.get("args")]
            if n.get("name") == "stream::open":
                self.open[n.get("obj")] = args
            r = self.results(n, args)
            if r is not None:
                self.ret[n.get("ret")] = r
            self.events.append((n.get("name"), n, args))

    def text(self, t, free):
        if t.op == "fn":
            return "\n" if "endl" in str(t.a[0]) else ""
        v = self.value(t)
        if isinstance(v, T):
            raise numval.Unknown("prints %s" % show(v)[:60])
        if free and isinstance(v, int):
            return chr(v)
        return v if isinstance(v, str) else str(v)

    def loop(self, n):
        lid = n.get("lid")
        muts = [(k, v) for k, v in n.get("mods").items() if v["mode"] != "iv"]
        for k, v in muts:
            if k not in self.mem and isinstance(v["init"], T):
                self.mem[k] = self.value(v["init"])
        i, body, head = 0, n.get("body"), 0
        # calls made by the condition itself (reading the next line) stand before it
        if n.get("lkind") != "do":
            used = {x for x in walk(n.get("cond")) if isinstance(x, T)}
            made = [j for j, b in enumerate(body) if b.kind == "call" and b.get("ret") in used]
            head = made[-1] + 1 if made else 0
        try:
            while True:
                self.iv[n.iv] = i
                for k, v in muts:                  # what a variable holds when the pass begins
                    self.start[(lid, k)] = self.size(self.place(k.a[0])) if k.op == "size" else self.mem.get(k)
                self.run(body[:head])
                if (n.get("lkind") != "do" or i) and not self.num(n.get("cond")):
                    break
                try:
                    self.run(body[head:])
                except Cont:
                    pass
                i += 1
                if i > 200:
                    raise numval.Unknown("a loop without an end")
        except Brk:
            pass
        self.end[lid] = i
        self.iv.pop(n.iv, None)
        for k, v in muts:
            self.muend[(lid, k)] = self.mem.get(k)


SHAPES = [(1, 1, 1), (1, 4, 2), (2, 1, 3), (3, 5, 1), (2, 3, 2), (4, 6, 3)]


def fns(c, q, n=None):
    r = [f for f in c.model.db.fn.values() if f["q"] == q and (n is None or len(f.get("params", f.get("p", []))) == n)]
    return r


def one(c, q, pick=None):
    r = [f for f in fns(c, q) if pick is None or pick(names(f))]
    if len(r) != 1:
        raise AnalysisBroken("%d functions %s" % (len(r), q))
    return r[0]


def names(f):
    return [p.get("n", p.get("name")) if isinstance(p, dict) else p for p in f.get("params", f.get("p", []))]


def tree(c, f):
    t = c.model.tree(f, f.get("cls"), None)
    c.seen(t)
    return t


def guarded(c, rule, key, where, what, fn):
    """fn() -> message or None; a summary that cannot be worked out is not a pass"""
    try:
        msg = fn()
    except (numval.Unknown, Brk, Cont) as u:
        raise AnalysisBroken("%s: %s cannot be worked out: %s" % (key, what, u))
    c.check(msg is None, rule, key, where, "%s: %s" % (what, msg))


def at(f):
    l = f.get("loc", f.get("l", ""))
    return "%s (%s)" % (l, f["q"])


def vec(sizes, name, n):
    sizes["size(%s)" % name] = n
    return ["%s[%d]" % (name, i) for i in range(n)]


def document(c):
    rule = "a saved result is complete"
    f = one(c, "knor::base::cluster_t::write")
    t = tree(c, f)
    for k, n, d in SHAPES:
        z = {"this.k": k, "this.nrow": n, "this.ncol": d, "this.iters": 987654, "dirname": "OUT"}
        cnt, asg, cen = vec(z, "this.assignment_count", k), vec(z, "this.assignments", n), vec(z, "this.centroids", k * d)
        want = "k: %d\nniter: 987654\nnsamples: %d\ndim: %d\nsize: [%s]\ncluster: [%s]\ncentroids: [%s]\n" % (
            k, n, d, ",".join(cnt), ",".join(asg), ",".join("[" + ",".join(cen[i * d:(i + 1) * d]) + "]" for i in range(k)))

        def run():
            w = Walk(t, z, results=lambda n, a: 0 if n.get("name") == "system" else None)
            files = [o for o, a in w.open.items() if a and isinstance(a[0], str)]
            if not files or w.open[files[0]][0] != "OUT/cluster_t.yml":
                return "it is not written to cluster_t.yml in the named directory"
            got = "".join(x for o, n, x in w.out if o is files[0])
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                return "after '%s' comes '%s' instead of '%s'" % (want[max(0, i - 30):i].replace("\n", " "), got[i:i + 30].replace("\n", " "), want[i:i + 30].replace("\n", " "))
        guarded(c, rule, "C22:write:%dx%dx%d" % (k, n, d), at(f), "the saved text of %d clusters, %d rows and %d columns" % (k, n, d), run)


def check(c, rule, key, f, t, what, sizes, data, want, wsizes):
    def run():
        w = Walk(t, dict(sizes), dict(data))
        for k, v in sorted(want.items()):
            if w.get(k) != v:
                return "%s is %s instead of %s" % (k, w.get(k) if not isinstance(w.get(k), T) else show(w.get(k))[:60], v)
        for k, v in wsizes.items():
            if w.size(k) != v:
                return "%s has %s entries instead of %d" % (k, w.size(k), v)
    guarded(c, rule, key, at(f), what, run)


def reported(c):
    rule = "a result takes over everything"
    C = "knor::base::cluster_t::"
    byn = lambda n: lambda ps: len(ps) == n
    flat, hier, comp = one(c, C + "cluster_t", byn(7)), one(c, C + "cluster_t", byn(6)), one(c, C + "set_computed")
    tf, th, tc = tree(c, flat), tree(c, hier), tree(c, comp)
    for k, n, d in SHAPES:
        sz = {"nrow": n, "ncol": d, "iters": 77, "k": k}
        vec(sz, "centroids", k * d)
        want = {"this.assignments[%d]" % i: "assignments_buf[%d]" % i for i in range(n)}
        want.update({"this.assignment_count[%d]" % i: "assignment_count_buf[%d]" % i for i in range(k)})
        want.update({"this.centroids[%d]" % i: "centroids[%d]" % i for i in range(k * d)})
        ws = {"this.assignments": n, "this.assignment_count": k, "this.centroids": k * d}
        what = "%d clusters, %d rows and %d columns" % (k, n, d)
        check(c, rule, "C22:set_computed", comp, tc, "a result of " + what, {"this.nrow": n, "this.ncol": d, "this.k": k, "size(centroids)": k * d}, {}, want, ws)
        check(c, rule, "C22:flat", flat, tf, "a result of " + what, sz, {}, dict(want, **{"this.nrow": n, "this.ncol": d, "this.iters": 77, "this.k": k}), ws)
    # hierarchical results: ids with rows become 0, 1, 2, ... in order, for counts, rows and centres alike
    for ids, rows, d, order in (([0], [0, 0], 2, 0), ([1, 4], [4, 1, 1, 4, 4], 2, 1), ([0, 2, 3], [3, 2, 0, 3], 1, 0), ([5, 6, 2], [2, 2, 6, 5, 6, 2], 3, 1), ([3], [3], 1, 0)):
        top = max(ids) + 2
        new = {v: i for i, v in enumerate(sorted(ids))}
        seq = sorted(ids, reverse=bool(order))
        sz = {"nrow": len(rows), "ncol": d, "iters": 77, "size(assignment_count_buf)": top, "size(assignments_buf)": len(rows), "size(centroids)": len(ids), "rangesize(centroids)": len(ids)}
        dt = {"assignments_buf[%d]" % i: v for i, v in enumerate(rows)}
        dt.update({"assignment_count_buf[%d]" % i: rows.count(i) for i in range(top)})
        for i, v in enumerate(seq):
            sz["centroids[%d].first" % i] = v
            sz["size(centroids[%d].second)" % i] = d
            dt.update({"centroids[%d].second[%d]" % (i, j): "centre%d[%d]" % (v, j) for j in range(d)})
        want = {"this.assignments[%d]" % i: new[v] for i, v in enumerate(rows)}
        want.update({"this.assignment_count[%d]" % new[v]: rows.count(v) for v in ids})
        want.update({"this.centroids[%d]" % (new[v] * d + j): "centre%d[%d]" % (v, j) for v in ids for j in range(d)})
        want.update({"this.nrow": len(rows), "this.ncol": d, "this.iters": 77, "this.k": len(ids)})
        check(c, rule, "C22:hier", hier, th, "clusters %s of rows %s" % (sorted(ids), rows), sz, dt, want,
              {"this.assignments": len(rows), "this.assignment_count": len(ids), "this.centroids": len(ids) * d})
    f = one(c, "knor::base::gmm_t::gmm_t", byn(8))
    t = tree(c, f)
    for k, n, d in SHAPES:
        sz = {"nrow": n, "ncol": d, "iters": 77, "k": k, "size(_cov_mats)": k}
        sz.update({"size(_cov_mats[%d].mat)" % i: d * d for i in range(k)})
        want = {"this.means[%d]" % i: "_means[%d]" % i for i in range(k * d)}
        want.update({"this.resp_mat[%d]" % i: "_resp_mat[%d]" % i for i in range(n * k)})
        want.update({"this.gaussian_prob[%d]" % i: "_gaussian_prob[%d]" % i for i in range(k)})
        want.update({"this.cov_mats[%d][%d]" % (i, j): "_cov_mats[%d].mat[%d]" % (i, j) for i in range(k) for j in range(d * d)})
        want.update({"this.nrow": n, "this.ncol": d, "this.iters": 77, "this.k": k})
        check(c, rule, "C22:gmm", f, t, "a mixture of %d components, %d rows and %d columns" % (k, n, d), sz, {}, want,
              {"this.means": k * d, "this.resp_mat": n * k, "this.gaussian_prob": k, "this.cov_mats": k})


def equals(c):
    rule = "results are equal when everything is"
    for q, vecs, scalars in (("knor::base::cluster_t", ("assignments", "assignment_count", "centroids"), ()),
                             ("knor::base::gmm_t", ("means", "resp_mat", "gaussian_prob", "cov_mats[0]", "cov_mats[1]"), ("nrow", "ncol", "iters", "k")),
                             ("knor::base::clusters", ("means", "num_members_v"), ("ncol", "nclust"))):
        f = one(c, q + "::operator==")
        t = tree(c, f)

        def case(what, want, sizes=None, data=None):
            sz, dt = {}, {}
            for o in ("this", "other"):
                for v in vecs:
                    sz["size(%s.%s)" % (o, v)] = 3
                    dt.update({"%s.%s[%d]" % (o, v, i): 10 + i for i in range(5)})
                for x in scalars:
                    sz["%s.%s" % (o, x)] = 2
                if q.endswith("gmm_t"):
                    sz["size(%s.cov_mats)" % o] = 2
            sz.update(sizes or {})
            dt.update(data or {})

            def run():
                w = Walk(t, sz, dt)
                r = w.val if w.val is not None else w.value(t[2])
                if isinstance(r, T) or r is None:
                    raise numval.Unknown(show(r)[:100] if r is not None else "no result")
                if bool(r) != want:
                    return "two such objects are taken as %s" % ("equal" if r else "different")
            guarded(c, rule, "C22:%s:%s" % (q.split("::")[-1], what.replace(" ", "-")), at(f), what, run)
        case("everything equal", True)
        for v in vecs:
            for i in range(3):
                case("%s differs in entry %d" % (v, i), False, data={"other.%s[%d]" % (v, i): 99})
            if q.endswith("::clusters"):     # their lengths follow from the numbers compared below
                continue
            case("%s is longer" % v, False, sizes={"size(this.%s)" % v: 4})
            case("%s is shorter" % v, False, sizes={"size(this.%s)" % v: 2})
        for x in scalars:
            case("%s differs" % x, False, sizes={"other.%s" % x: 3})
        if q.endswith("gmm_t"):
            case("one component less", False, sizes={"size(other.cov_mats)": 1})
            case("one component more", False, sizes={"size(other.cov_mats)": 3})
    r = [f for f in c.model.db.fn.values() if f["q"].startswith("knor::base::eq_all")]
    if not r:
        raise AnalysisBroken("no eq_all")
    for f in r[:1]:
        t = tree(c, f)
        for n, diff, want in ((1, None, True), (1, 0, False), (4, None, True), (4, 0, False), (4, 3, False), (4, 2, False), (4, 4, True)):
            dt = {"%s[%d]" % (v, i): 10 + i for v in ("v1", "v2") for i in range(6)}
            if diff is not None:
                dt["v2[%d]" % diff] = 99

            def run():
                w = Walk(t, {"len": n}, dt)
                r = w.val if w.val is not None else w.value(t[2])
                if isinstance(r, T) or r is None:
                    raise numval.Unknown("no result")
                if bool(r) != want:
                    return "they are taken as %s" % ("equal" if r else "different")
            guarded(c, rule, "C22:eq_all", at(f), "%d values%s" % (n, "" if diff is None else ", value %d different" % diff), run)


def whole(c):
    rule = "readers and writers move whole values"
    B = "knor::base::bin_io<double>::"
    for f in fns(c, B + "read") + fns(c, B + "readline") + fns(c, B + "write"):
        nm, ps = f["q"].split("::")[-1], names(f)
        t = tree(c, f)
        for k, n, d in SHAPES:
            z = {"this.nrow": n, "this.ncol": d, "numel": n * d, "this.f": 77}
            want = n * d if nm != "readline" else d

            def run():
                w = Walk(t, z, results=lambda n, a: a[2] if n.get("name") in ("fread", "fwrite") else None)
                io = [e for e in w.events if e[0] in ("fread", "fwrite")]
                got = 0
                for e, n_, a in io:
                    if e != ("fwrite" if nm == "write" else "fread") or a[3] != 77:
                        return "another call is made on the file"
                    p = a[0]
                    off = w.num(p.a[1]) if isinstance(p, T) and p.op == "I" else 0
                    if off * 8 != got:
                        return "the values go to position %s instead of %s" % (off, got // 8)
                    got += a[1] * a[2]
                if got != 8 * want:
                    return "%s bytes are moved instead of %d" % (got, 8 * want)
            guarded(c, rule, "C22:bin_io:%s:%s" % (nm, ",".join(ps)), at(f), "%s for %d rows and %d columns" % (nm, n, d), run)
    for f in fns(c, B + "bin_io"):
        ps = names(f)
        if len(ps) < 2:
            continue
        t = tree(c, f)

        def run():
            w = Walk(t, {"fn": "FN", "mode": "MODE", "nrow": 5, "ncol": 3}, results=lambda n, a: 77 if n.get("name") == "fopen" else None)
            op = [a for e, n, a in w.events if e == "fopen"]
            if op != [["FN", "MODE"]]:
                return "another file is opened, or in another mode"
            st = {a[0]: a[1] for e, n, a in w.events if e == "store"}
            if st.get("this.f") != 77 or len(ps) == 4 and (st.get("this.nrow"), st.get("this.ncol")) != (5, 3):
                return "the file, rows or columns are not the ones given"
        guarded(c, rule, "C22:bin_io:open:%d" % len(ps), at(f), "opening a file", run)
    f = one(c, "knor::base::store_cluster")
    t = tree(c, f)
    for n, d, cl in ((1, 1, [7]), (5, 3, [2, 7, 7, 1, 7]), (4, 2, [7, 7, 7, 7]), (6, 2, [7, 1, 2, 3, 4, 5]), (6, 2, [0, 1, 2, 3, 4, 7])):
        z = {"id": 7, "numel": cl.count(7), "nrow": n, "ncol": d, "dir": "OUT/"}
        dt = {"cluster_assignments[%d]" % i: v for i, v in enumerate(cl)}

        def run():
            w = Walk(t, z, dt, results=lambda n, a: 77 if n.get("name") == "fopen" else 1 if n.get("name") == "fwrite" else None)
            op = [a for e, n, a in w.events if e == "fopen"]
            if op != [["OUT/cluster_7_r%d_c%d.bin" % (cl.count(7), d), "wb"]]:
                return "the file is not named after the cluster, its rows and columns"
            got = []
            for e, n_, a in w.events:
                if e == "fwrite":
                    if a[3] != 77 or not (isinstance(a[0], T) and a[0].op == "I") or show(a[0].a[0]) != "data":
                        return "something else than rows is written"
                    o = w.num(a[0].a[1])
                    got += list(range(int(o), int(o) + a[1] * a[2] // 8))
            if got != [i * d + j for i in range(n) if cl[i] == 7 for j in range(d)]:
                return "the values written are not those of the cluster's rows in order"
            if not any(e == "fclose" and a == [77] for e, n_, a in w.events):
                return "the file is not closed"
        guarded(c, rule, "C22:store_cluster:%d" % n, at(f), "rows %s of cluster 7" % cl, run)


class Lines(object):
    """a text of n lines with d numbers each, as its reader sees it"""

    def __init__(self, n, d):
        self.n, self.d, self.line, self.col, self.ok = n, d, -1, 0, 0

    def __call__(self, n, args):
        k = n.get("name")
        if k == "getline":
            self.line, self.col = self.line + 1, 0
            self.ok = int(self.line < self.n)
        elif k == "stream::operator>>":
            self.ok = int(self.col < self.d)
            self.col += 1
        elif k in ("stream::operator bool", "stream::good"):
            return self.ok
        elif k in ("stream::operator!", "stream::fail"):
            return 1 - self.ok
        return None


def readers(c):
    rule = "readers and writers move whole values"
    for q in ("read", "readline"):
        f = one(c, "knor::base::text_reader<double>::" + q)
        t = tree(c, f)
        for n, d in ((1, 1), (1, 4), (3, 1), (3, 2)):
            def run():
                w = Walk(t, {"size(data)": n * d, "this.nrow": 0}, results=Lines(n, d))
                st = [a[0] for e, n_, a in w.events if e == "store" and str(a[0]).startswith("data[")]
                m = n if q == "read" else 1
                if st != ["data[%d]" % i for i in range(m * d)]:
                    return "the numbers of %d lines of %d go to %s" % (m, d, ", ".join(st[:8]))
                if w.data.get("this.nrow") != m:
                    return "%s rows are counted after %d lines" % (w.data.get("this.nrow"), m)
            guarded(c, rule, "C22:text_reader:" + q, at(f), "%s of %d lines with %d numbers" % (q, n, d), run)
        f = one(c, "knor::base::bin_rm_reader<double>::" + q)
        t = tree(c, f)
        for d in (1, 6):
            def run():
                w = Walk(t, {"size(data)": d, "this.nrow": 0, "this.ncol": d, "this.f": 77}, results=lambda n, a: 1 if n.get("name") == "stream::operator bool" else None)
                got = [(show(n.get("obj")), show(a[0]), a[1]) for e, n, a in w.events if e == "stream::read"]
                if got != [("this.f", "data[0]", 8 * d)]:
                    return "%d values are read as %s" % (d, got)
            guarded(c, rule, "C22:bin_rm_reader:" + q, at(f), "%s of %d values" % (q, d), run)


def c22(c):
    document(c)
    reported(c)
    equals(c)
    whole(c)
    readers(c)
    for r, n in (("a saved result is complete", 6), ("a result takes over everything", 20), ("results are equal when everything is", 30), ("readers and writers move whole values", 30)):
        c.need(n, r)
