"""Distributed runs: every process makes the same collective calls and ends up with the same centres, sizes and counts."""
from kmeans import *
import re

COLL = ("MPI_Allreduce", "MPI_Reduce", "MPI_Allgather", "MPI_Gather", "MPI_Bcast", "MPI_Barrier", "MPI_Allgatherv", "MPI_Gatherv", "MPI_Scan", "MPI_Exscan", "MPI_Scatter", "MPI_Scatterv",
        "MPI_Alltoall", "MPI_Reduce_scatter", "MPI_Comm_split", "MPI_Comm_dup", "MPI_Init", "MPI_Finalize")
SAME = ("MPI_Allreduce", "MPI_Allgather", "MPI_Bcast", "MPI_Allgatherv")      # every process receives the same
RETOK = set(COLL) | {"MPI_Comm_size", "MPI_Comm_rank", "MPI_Send", "MPI_Ssend", "MPI_Recv"}
PUREFN = ("sqrt", "abs", "fabs", "floor", "ceil", "min", "max", "pow", "size", "compare", "strcmp", "empty", "round")


class Uniform(object):
    """which values are the same in every process: configuration, counters, what a collective handed out, draws of equal generators"""

    def __init__(self, c, fm, root, drop):
        self.c, self.root, self.drop = c, root, drop
        self.loops, self.calls, self.draws, self.stores, self.ctors = {}, {}, [], [], []
        self.recv, self.bad0 = set(), set()
        self.fields = {}
        for ct in [g for g in c.model.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]:
            t = c.model.tree(ct, fm.coord, fm)
            c.seen(t)
            self.index(t[0])
        self.index(root)
        self.bad = set(self.bad0)        # facts found to differ between processes
        while True:
            n = len(self.bad)
            self.memo = {}
            for k, (L, md) in self.mus.items():
                ok = self.ctl(L) and (md["init"] is None or self.u(md["init"]))
                if not ok or not (md["back"] is None or self.u(self.goon(L, md["back"]))):
                    self.bad.add(k)
                if not ok or not (md["back"] is None or self.u(md["back"])):
                    self.bad.add(("end",) + k)
            for r, n_, v in self.stores:
                if r not in self.bad and not (self.u(v) and self.path(n_)):
                    self.bad.add(r)
            for r, n_ in self.draws:
                if r not in self.bad and not self.path(n_):
                    self.bad.add(r)
            for r, n_ in self.ctors:
                if r not in self.bad and not all(self.u(x) for x in n_.get("args", []) if isinstance(x, T)):
                    self.bad.add(r)
            if len(self.bad) == n:
                break

    mus = None

    def index(self, root):
        self.mus = self.mus or {}
        self.anc = getattr(self, "anc", {})
        for n, a in allnodes(root):
            self.anc[id(n)] = [x for x in a if x.kind == "loop"]
            if n.kind == "loop":
                self.loops[n.lid] = n
                for k, md in n.mods.items():
                    if md["mode"] == "mu":
                        self.mus[(n.lid, k)] = (n, md)
            elif n.kind == "mpi":
                if n.name in SAME and n.get("dst") is not None:
                    self.recv.add(base(n.dst))
                self.calls[n.ret.a[0]] = n.name, ()
            elif n.kind == "call":
                if n.name == "MPI_Comm_size":
                    self.stores.append((base(n.args[1]), n, TRUE))
                if n.name == "MPI_Comm_rank":
                    self.bad0.add(base(n.args[1]))
                if isinstance(n.get("ret"), T) and n.ret.op == "ret" and n.ret.a[0] not in self.calls:
                    self.calls[n.ret.a[0]] = n.name, [x for x in n.args if isinstance(x, T)] + ([n.obj] if isinstance(n.get("obj"), T) else [])
            elif n.kind == "draw":
                self.draws.append((base(n.gen), n))
            elif n.kind == "ctor" and isinstance(n.get("obj"), T):
                self.ctors.append((base(n.obj), n))
            elif n.kind == "store":
                self.stores.append((base(n.lv), n, n.val))
            elif n.kind in ("fill", "copy", "assign", "veccopy", "push"):
                v = n.get("val") or n.get("src")
                d = n.get("base") or n.get("dst") or n.get("obj")
                if isinstance(v, T) and isinstance(d, T):
                    self.stores.append((base(d), n, mk("ld", v) if n.kind in ("copy", "assign", "veccopy") and v.op != "ld" else v))

    def goon(self, L, t):
        """the value if another iteration follows: the flags that end the loop were not set"""
        conj = () if L.cond is None else L.cond.a if L.cond.op == "&" else (L.cond,)
        mp, now = {}, {y: TRUE for y in conj if y.op == "mu"}
        now.update({not_(y): FALSE for y in conj if not_(y).op == "mu"})
        for y, v in now.items():
            md = L.mods.get(y.a[1])
            b = subst(md["back"], now) if md is not None and md["mode"] == "mu" and md.get("back") is not None else None
            if b is not None and terms.isbool(b):
                mp[b] = v
                mp[not_(b)] = not_(v)
        return subst(subst(t, now), mp)

    def path(self, n):
        """the same processes' worth of executions: all or none"""
        return all(self.ctl(L) for L in self.anc[id(n)]) and all(self.cond(p) for p in n.pc)

    def cond(self, p):
        """conditions whose only other outcome is an error that ends the program do not count"""
        return p in self.drop or self.u(canon.relax(p, self.drop))

    def ctl(self, L):
        k = ("ctl", L.lid)
        if k in self.bad:
            return False
        if k not in self.memo:
            self.memo[k] = True
            ok = (L.cond is None or self.u(L.cond)) and all(self.cond(x) for x in breakconds(L))
            self.memo[k] = ok
            if not ok:
                self.bad.add(k)
        return self.memo[k]

    def u(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = True
            r = self.memo[t] = self._u(t)
        return r

    def _u(self, t):
        op = t.op
        if cshow(t) in canon.WAITED:
            return True
        if op in ("c", "e", "str", "null", "bv", "sym", "slot"):
            return True
        if op == "iv":
            return True
        if op in ("mu", "muend"):
            return ((("end",) if op == "muend" else ()) + (t.a[0], t.a[1])) not in self.bad and (t.a[0], t.a[1]) in self.mus or t.a[1].op == "size" and self.size(t.a[1])
        if op == "ivend":
            return self.ctl(self.loops[t.a[0]]) if t.a[0] in self.loops else False
        if op == "rand":
            return base(t.a[2]) not in self.bad and base(t.a[1]) not in self.bad
        if op == "ret":
            nm, args = self.calls.get(t.a[0], (None, ()))
            if nm in RETOK or str(nm).startswith("pthread_"):
                return True
            return nm in PUREFN and all(self.u(x) for x in args)
        if op == "hv":
            nm, args = self.calls.get(t.a[1], (None, ()))
            if nm == "MPI_Comm_size":
                return True
            if nm == "MPI_Comm_rank":
                return False
            return self.loc(t.a[0])
        if op in ("ld", "ald"):
            return self.loc(t.a[0])
        if op == "size":
            return self.size(t)
        return all(self.u(x) for x in t.a if isinstance(x, T))

    def size(self, t):
        return "cltrs" in fieldchain(t) or rootof(t).op in ("L", "tmp") or base(t) in self.recv

    def loc(self, l):
        if l.op == "size":
            return self.size(l)
        b = base(l)
        if b in self.recv:
            return all(self.u(x) for x in idx(l))
        if b in self.bad:
            return False
        if b.op in ("L", "tmp"):
            return all(self.u(x) for x in idx(l))
        if b.op == "sym":
            return True
        if b.op == "G":                     # a constant of the program
            return all(self.u(x) for x in idx(l)) and b not in [x[0] for x in self.stores]
        if b.op == "F" and b.a[0] is THIS:
            if l is b:
                return not any(x[0] is b and False for x in self.stores) and b in [x[0] for x in self.stores]
            return l.op == "F" and l.a[1] in ("nclust", "ncol") and fieldchain(l)[0] == "cltrs"
        return False


def idx(l):
    while l.op in ("F", "I", "size", "V", "ld", "ald", "hv"):
        if l.op == "I":
            yield l.a[1]
        l = l.a[0]


def base(l):
    """the variable, parameter or member a location belongs to"""
    while l.op in ("F", "I", "size", "V", "ld", "ald", "hv"):
        if l.op == "F" and l.a[0] is THIS:
            return l
        l = l.a[0]
    return l


def breakconds(L):
    """what decides, inside an iteration, whether the loop is left"""
    out = []

    def go(ns):
        for n in ns:
            if n.kind == "break" or n.kind == "return" and n.depth <= L.depth:
                out.extend(p for p in n.pc if p not in L.pc)
            if n.kind not in ("loop", "switch"):
                for b in n.bodies():
                    go(b)
    go([n for n in L.body])
    return out


# ------------------------------------------------------------------ what the collectives combine
WIDE = ("LONG_LONG", "UNSIGNED_LONG", "UNSIGNED_LONG_LONG", "LONG")
KN = "n=this.k*this.ncol"
SHARE = "(this.g_nrow / this.nprocs)"
TAIL = "(this.g_nrow % this.nprocs)"


def buffers(s):
    """BM / BC: where the global centres / sizes are received; NCH: the global number of changes; NLOC what is sent"""
    for l, e in list(s.items):
        if e.kind != "mpi" or e.n.name != "MPI_Allreduce":
            continue
        b = re.search(r" dst=(.+?) n=", l).group(1)
        b = b[:-3] if b.endswith("[0]") else b
        rx = re.escape(b) + r"(?![\w<])"
        if "src=this.cltrs.means[0]" in l:
            s.rx(rx, "BM")
        elif "src=this.cltrs.num_members_v[0]" in l:
            s.rx(rx, "BC")
    s.rx(r"(dst|src)=(BM|BC)\[0\]", r"\1=\2")
    for w in WIDE:
        s.rx(r" t=%s " % w, " t=INT64 ")
        s.rx(r" t2=%s " % w, " t2=INT64 ")
    return s


def resort(s):
    """guards in order again after renaming"""
    out = []
    for l, e in s.items:
        g = gset(l)
        if g:
            h, b = cut(l)
            h = " " + h
            l = (h[:h.find(" if ")] + " if " + " && ".join(sorted(g))).strip() + " : " + b
        out.append((l, e))
    s.items = out


def reduce_means(pre=""):
    return pre + ": MPI_Allreduce src=this.cltrs.means[0] dst=BM %s t=DOUBLE op=SUM comm=WORLD" % KN


def reduce_counts(pre=""):
    return pre + ": MPI_Allreduce src=this.cltrs.num_members_v[0] dst=BC n=this.k t=INT64 op=SUM comm=WORLD"


def back_means(pre=""):
    return pre + ": copy dst=this.cltrs.means[0] src=BM %s" % KN


def back_counts(pre=""):
    return pre + ": copy dst=this.cltrs.num_members_v[0] src=BC n=this.k"


def changes(s):
    """the number of changed rows that is sent: a local copy of the process's own total"""
    s.rx(r"MPI_Allreduce src=\S+ v=sum\(this.nthreads, j0, this.threads\[j0\].meta.num_changed\) dst=\S+ n=1", "MPI_Allreduce own changes n=1")
    return s


NCHG = ": MPI_Allreduce own changes n=1 t=INT64 op=SUM comm=WORLD"


def merge_plain(c, fm, pid="C12"):
    s = changes(buffers(dsum(c, fm, "run", "EM")))
    s.check("%s:%s:pass" % (pid, fm.name), "global merge", fills("this.cltrs", "this.k") + [[DMEAN], [DCNT], [reduce_means()], [reduce_counts()], [back_means()], [back_counts()], [NCHG], finalize()],
            seq=[(0, 2, 4, 6, 9), (1, 3, 5, 7, 9)], fields=("means", "num_members_v"), allowed=[lambda l, e: own(l)],
            msg="after every pass the centres and sizes are those of the sums over all processes")


def own(l):
    return "this.threads[" in cut(l)[1][:40] or "resize obj=" in l and "val=0" in l or "complete_v" in cut(l)[1][:40]


def merge_pruned(c, fm, pid="C12"):
    s = changes(buffers(dsum(c, fm, "run", "EM")))
    s.rx(r"size\(this\.cltrs\.prev_means\)", "this.k*this.ncol")
    prv = [x.split("dst=")[1].split("[0]")[0] for x in s.lines() if x.startswith(": copy dst=") and x.endswith("src=this.cltrs.num_members_v[0] n=this.k")]
    for x in s.lines():
        if x.startswith(": assign dst=this.") and x.endswith("src=this.cltrs.num_members_v"):
            prv.append(x.split("dst=")[1].split(" ")[0])
    for p in prv:
        s.macro(p, "PREVN")
    s.rx(r"assign dst=PREVN src=this.cltrs.num_members_v$", "copy dst=PREVN[0] src=this.cltrs.num_members_v[0] n=this.k")
    s.rx(r"assign dst=this.cltrs.num_members_v src=PREVN$", "copy dst=this.cltrs.num_members_v[0] src=PREVN[0] n=this.k")
    s.rx(r"copy dst=this.cltrs.prev_means\[0\] src=this.cltrs.means\[0\] n=this.k\*this.ncol$", "assign dst=this.cltrs.prev_means src=this.cltrs.means")
    s.rx(r"copy dst=this.cltrs.means\[0\] src=this.cltrs.prev_means\[0\] n=this.k\*this.ncol$", "assign dst=this.cltrs.means src=this.cltrs.prev_means")
    s.rx(r"\((0 == iv\(#\)|iv\(#\) == 0|iv\(#\) <= 0|iv\(#\) < 1)\)", "(FIRST)")
    s.rx(r"\((0 < iv\(#\)|1 <= iv\(#\))\)", "!(FIRST)")
    resort(s)
    f, g = "if (FIRST) ", "if !(FIRST) "
    unf = []
    for a in ("(2 <= this.cltrs.num_members_v[q0]')", "(1 < this.cltrs.num_members_v[q0]')", "(0 < this.cltrs.num_members_v[q0]')", "(1 <= this.cltrs.num_members_v[q0]')"):
        for e in ([], ["this.cltrs.complete_v[q0]"], ["this.cltrs.complete_v[q0]'"]):
            unf.append("for q0<this.k for q1<this.ncol if %s : this.cltrs.means[(q0*this.ncol + q1)] *= this.cltrs.num_members_v[q0]'" % " && ".join(sorted(["!(FIRST)", a] + e)))
    s.check("%s:%s:pass" % (pid, fm.name), "global incremental merge",
            [[": assign dst=this.cltrs.prev_means src=this.cltrs.means"], [": copy dst=PREVN[0] src=this.cltrs.num_members_v[0] n=this.k"]] + fills("this.cltrs", "this.k") +
            [[DMEAN], [DCNT], [reduce_means()], [reduce_counts()], [back_means(f)], [back_counts(f)],
             [g + ": assign dst=this.cltrs.means src=this.cltrs.prev_means"], [g + ": copy dst=this.cltrs.num_members_v[0] src=PREVN[0] n=this.k"], unf,
             ["for q0<this.k*this.ncol %s: this.cltrs.means[q0] += BM[q0]'" % g], ["for q0<this.k %s: this.cltrs.num_members_v[q0] += BC[q0]'" % g], [NCHG], finalize()],
            seq=[(0, 2, 4, 6, 8, 16), (1, 3, 5, 7, 9, 16), (6, 10, 12, 13, 16), (7, 11, 12, 14, 16)], fields=("means", "num_members_v", "prev_means"), allowed=[lambda l, e: own(l)],
            msg="after the first pass the centres and sizes are the global sums; afterwards the changes of all processes are added to the previous global ones")


def given(s, kind):
    """the effects left when the initialisation is of this kind"""
    out = []
    for l, e in s.items:
        gs, dead = [], False
        for g in e.guards:
            mp = {}
            for x in walk(g):
                if x.op == "==" and any(y.op == "e" for y in x.a) and "_init_t" in cshow(x):
                    mp[x] = TRUE if any(y.op == "e" and y.a[0] == kind for y in x.a) else FALSE
            g = subst(g, mp)
            if g is FALSE:
                dead = True
            elif g is not TRUE:
                gs.append(g)
        if dead:
            continue
        old, e.guards = e.guards, gs
        out.append((s.nf.text(e), e))
    s.items = out
    return s


def init_merge(c, fm):
    L = loop_of(c.model.drive(fm, "run"), "EM")
    for kind in ("RANDOM", "FORGY"):
        s = Sum(c, c.model.drive(fm, "run"), want=lambda n, t: L.lid not in [])
        s.items = [(l, e) for l, e in s.items if L not in e.L]
        after = [i for i, (l, e) in enumerate(s.items) if e.kind == "mpi" and e.n.name == "MPI_Ssend"]
        s = buffers(given(s, kind))
        w, seq = [[reduce_means()], [back_means()]], [(0, 1)]
        if kind == "RANDOM":
            w += [[reduce_counts()], [back_counts()], finalize()]
            seq = [(0, 1, 4), (2, 3, 4)]
        s.check("C12:%s:init:%s" % (fm.name, kind), "global initial centres", w, seq=seq,
                msg="with %s initialisation all processes start from the centres formed by all of them" % kind.lower())


def kpp(c, fm):
    t = c.model.drive(fm, "kmeanspp_init")
    key = "C12:%s:kpp" % fm.name
    import seed
    s = Sum(c, t, locals_=True, hook=seed.rowdata)
    dv = [l.split(" = ")[1] for l in s.lines() if l.startswith("for q0<this.nthreads : this.threads[q0].dist_v = ")]
    dv = dv[0][:-3] if dv and dv[0].endswith("[0]") else "this.dist_v"
    s.rx(r"!\(\(1 \+ q0\) == this\.k\)", "((1 + q0) < this.k)")
    cm = set(re.findall(r"\(-1\*([\w.$]+)\[q1\]' \+ mu\(#, (\$\w+)\)\)", " ".join(s.lines())))
    if len(cm) != 1:
        raise AnalysisBroken("%s: running total of the selection not found" % key)
    gv, cum = cm.pop()
    s.macro(dv, "DV")
    s.macro(gv, "GV")
    s.macro(cum, "CUM")
    seed.wnorm(s)
    buffers(s)
    s.rx(r"MPI_Allreduce src=\S+ v=sum\(this.nthreads, j0, this.threads\[j0\].cuml_dist\)", "MPI_Allreduce own distances")
    s.rx(r"!\(%s == 0\)" % re.escape(TAIL), "(TAIL)")
    s.rx(r"\(0 < %s\)" % re.escape(TAIL), "(TAIL)")
    s.rx(re.escape("(-1*%s + this.g_nrow)" % TAIL), "TAILPOS")
    s.rx(re.escape("(-1*%s + q0 + this.g_nrow)" % TAIL), "(TAILPOS + q0)")
    s.rx(re.escape("%s*this.nprocs" % SHARE), "TAILPOS")
    resort(s)
    more = "((1 + q0) < this.k)"
    last = "((1 + this.mpi_rank) == this.nprocs)"

    def g(*x):
        return "for q0<while if %s " % " && ".join(sorted(x))
    tl = []
    for x in (["(TAIL)"], []):
        bc = "%s: MPI_Bcast dst=GV[TAILPOS] n=%s t=DOUBLE peer=(-1 + this.nprocs) comm=WORLD" % (g(more, *x), TAIL)
        tl += [("%s: copy dst=GV[TAILPOS] src=DV[%s] n=%s" % (g(more, last, *x), SHARE, TAIL), bc),
               ("%s: GV[(TAILPOS + q0)] = DV[(%s + q0)]'" % (g(more, last, *x).replace("q0", "q1").replace("for ", "for q0<%s for " % TAIL, 1), SHARE), bc)]
    lr = "(-1*%s*this.mpi_rank + %s)"
    sel = ["((-1*GV[q1]' + mu(#, CUM)) <= 0)", more, "(q1 < this.g_nrow)"]
    q = "for q0<while for q1<while if %s "
    s.check(key, "global k-means++ seeding",
            [["if (%s < this.nrow) : copy dst=this.cltrs.means[0] src=rowdata(%s) n=this.ncol" % ((lr % (SHARE, "rand"),) * 2)],
             [reduce_means()], [back_means()],
             ["for q0<while : MPI_Allreduce own distances dst=CUM n=1 t=DOUBLE op=SUM comm=WORLD"],
             [g(more) + ": MPI_Allgather src=DV[0] dst=GV[0] n=%s t=DOUBLE n2=%s t2=DOUBLE comm=WORLD" % (SHARE, SHARE)],
             tl,
             [q % " && ".join(sorted(sel + ["(%s < this.nrow)" % (lr % (SHARE, "q1"))])) + ": copy dst=this.cltrs.means[(q0*this.ncol + this.ncol)] src=rowdata(%s) n=this.ncol" % (lr % (SHARE, "q1"))],
             [q % " && ".join(sorted(sel + ["(this.nrow <= %s)" % (lr % (SHARE, "q1"))])) + ": fill base=this.cltrs.means lo=0 hi=this.k*this.ncol val=0"],
             [reduce_means(g(more))], [back_means(g(more))]],
            seq=[(0, 1, 2, 3, 4, 5, 6, 8, 9), (5, 7, 8)], fields=("means",), allowed=[lambda l, e: own(l)],
            msg="the distances of all processes are gathered at their rows' positions, and the process holding the chosen row contributes it to everybody's centres")


def gather(c, fm):
    key = "C12:%s:assignments" % fm.name
    s = Sum(c, c.model.drive(fm, "run"), locals_=True)
    snd = [(l, e) for l, e in s.items if e.kind == "mpi" and e.n.name in ("MPI_Ssend", "MPI_Send")]
    rcv = [(l, e) for l, e in s.items if e.kind == "mpi" and e.n.name == "MPI_Recv"]
    c.check(len(snd) == 1 and len(rcv) == 1, "assignments travel once", key + ":count", loc(snd[0][1].n) if snd else "", "expected one send and one receive of the assignments, found %d and %d" % (len(snd), len(rcv)))
    if len(snd) != 1 or len(rcv) != 1:
        return
    A = re.search(r" dst=(\S+?)\[", rcv[0][0]).group(1)
    s.macro(A, "ALL")
    s.rx(r"!\('' == outdir\)", "(OUT)")
    s.rx(r"MPI_Send ", "MPI_Ssend ")
    s.rx(r"\(\(2 \+ q0\) == this\.nprocs\)", "(LAST)")
    s.rx(r"\(\(\(LAST\) \? %s : 0\) \+ (\S+|%s)\)" % (re.escape(TAIL), re.escape(SHARE)), lambda m: "((LAST) ? (%s + %s) : %s)" % (*sorted([TAIL, m.group(1)]), m.group(1)))
    s.rx(r"tag=\S+ ", "")
    s.items = [(l.replace("this.nrow*q0", SHARE + "*q0") if "(root == this.mpi_rank)" in gset(l) else l, e) for l, e in s.items]
    s.rx(r"\(%s \+ %s\*q0\)" % (re.escape(SHARE), re.escape(SHARE)), "POS")
    resort(s)
    r, nr = "(root == this.mpi_rank)", "!(root == this.mpi_rank)"
    gs = [["(OUT)"], []]

    def g(*x):
        return ("if %s " % " && ".join(sorted(x))) if x else ""
    s.check(key, "assignments of all processes",
            [["%s: MPI_Ssend src=this.cluster_assignments[0] n=this.nrow t=UNSIGNED peer=root comm=WORLD" % g(nr, *x) for x in gs],
             ["%s: copy dst=ALL[0] src=this.cluster_assignments[0] n=%s" % (g(r, *x), n) for x in gs for n in ("this.nrow", SHARE)],
             ["for q0<(-1 + this.nprocs) %s: MPI_Recv dst=ALL[POS] n=((LAST) ? (%s + %s) : %s) t=UNSIGNED peer=(1 + q0) comm=WORLD" % (g(r, *x), *sorted([TAIL, n]), n) for x in gs for n in ("this.nrow", SHARE)]],
            msg="the root receives every other process's assignments at the position of that process's rows")


def shifted(c, fm):
    """workers that address rows by their place in the file are moved to places within the process, once"""
    s = Sum(c, c.model.drive(fm, "run"))
    st = [(l, e) for l, e in s.items if e.kind == "store" and target(e) == "start_rid" and cut(l)[1].startswith("this.threads[")]
    want = "for q0<this.nthreads : this.threads[q0].start_rid += (-1*%s*this.mpi_rank)" % SHARE
    c.check([l for l, _ in st] == [want], "rows within the process", "C12:%s:shift" % fm.name, loc(st[0][1].n) if st else "",
            "the workers' first rows must be counted from the process's own first row: expected %r, found %s" % (want, [l[:200] for l, _ in st]))


def c12(c):
    for fm in fams(c, "dist", "dist_task"):
        t = c.model.drive(fm, "run")
        c.seen(t)
        nf = Norm(t, enums_of(c.model), want=lambda n, x: False)
        U = Uniform(c, fm, t[0], nf.drop)
        n = 0
        for x, anc in allnodes(t[0]):
            if x.kind != "call" or x.name not in COLL or x.name == "MPI_Init":
                continue
            n += 1
            key = "C12:%s:uniform:%s:%d" % (fm.name, x.name, n)
            badp = [p for p in x.pc if not U.cond(p)]
            badl = [L for L in U.anc[id(x)] if not U.ctl(L)]
            c.check(not badp and not badl, "same calls everywhere", key, loc(x),
                    "whether this collective is reached depends on something that differs between processes: %s" %
                    ([cshow(Closer(t[0]).close(p))[:120] for p in badp[:2]] + ["how often the loop at %s runs" % loc(L) for L in badl[:2]]))
        for x, anc in allnodes(t[0]):
            if x.kind == "mpi" and x.name in COLL:
                for k in ("n", "n2", "op", "peer", "t", "comm"):
                    v = x.get(k)
                    if isinstance(v, T):
                        c.check(U.u(v), "same arguments everywhere", "C12:%s:arg:%s" % (fm.name, x.name), loc(x), "the %s of this collective differs between processes: %s" % (
                            {"n": "element count", "n2": "element count", "op": "operation", "peer": "root"}.get(k, k), show(v)[:120]))
        if n < 8:
            raise AnalysisBroken("%s: only %d collective calls found" % (fm.name, n))
        (merge_plain if fm.name == "dist" else merge_pruned)(c, fm)
        init_merge(c, fm)
        kpp(c, fm)
        gather(c, fm)
        if fm.name == "dist":
            shifted(c, fm)
