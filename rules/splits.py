"""C26: what a hierarchical driver does between two passes: which halves are split, recorded, undone, and how clusters are counted."""
from spec import *
from kmeans import *
from hier import modelof, Sub, FAMS, inner
from canon import cshow
from interp import mk
import numval
import itertools
import re

KEY = "key(this.hcltrs, q0)"
LOOP = "for q0<nkeys(this.hcltrs) "
ACTIVE = ("set", "check_set")
_op = {}


def opaque(names):
    if names not in _op:
        def f(fn):
            n = short(fn["q"])
            if fn["q"].startswith("cxxopts::"):
                return True
            return n in names and (n not in ACTIVE or "thd_safe_bool_vector" in (fn.get("cls") or ""))
        _op[names] = f
    return _op[names]


def pushes(t, names):
    """the calls that stay visible, as effects: 'push obj=<object>.<name>[first argument] val=second'"""
    for n, anc in allnodes(t[0]):
        if n.kind != "call" or n.name not in names:
            continue
        a = list(n.args)
        n.d["words"] = a
        o = n.get("obj") if isinstance(n.get("obj"), T) else mk("sym", "this")
        o = mk("F", o, n.name) if n.name not in ACTIVE else o
        if a and isinstance(a[0], T):
            o = mk("I", o, a[0])
        n.kind = "push"
        n.d["obj"] = o
        n.d.pop("val", None)
        if len(a) > 1 and isinstance(a[1], T):
            n.d["val"] = a[1]
    return t


class Steps(Sum):
    """one method of the driver: what happens to partitions, ids, centres, sizes and the number of clusters"""
    def __init__(self, c, fm, meth, *names):
        names = tuple(ACTIVE + names)
        f = c.model.db.find_method(fm.coord, meth)
        if f is None:
            raise AnalysisBroken("%s has no %s" % (fm.coord, meth))
        t = pushes(c.model.tree(f, fm.coord, fm, opaque=opaque(names)), names)
        Sum.__init__(self, c, t, locals_=True)
        self.f, self.where, self.meth = f, "%s (%s)" % (f.get("l", ""), f["q"]), meth
        self.rx(r"push obj=this\.cltr_active_vec'*\[(.*)\] val=", r"active \1 := ")
        self.rx(r"push obj=this\.ider'*\.get_split_ids.*$", "fresh ids")
        self.rx(r"push obj=this\.ider'*\.reclaim_id\[(.*)\]$", r"free \1")
        self.rx(r"this\.threads\[[^=]*?\]\.local_data\[\([^=]*?\b([\w.$:]+)\*this\.ncol\)\]", r"ROW(\1)")
        self.records()
        self.rx(r"this\.hcltrs\.data\[key\(this\.hcltrs, q0\)\]\.id\b", "KEY")
        self.rx(r"this\.hcltrs\.data\[key\(this\.hcltrs, q0\)\]", "H")
        self.rx(re.escape(KEY), "KEY")
        self.rx(r"this\.hcltrs\.data\[KEY\]", "H")
        self.rx(r"\bH\.ncol\b", "this.ncol")
        self.rx(r"this\.hcltrs\.data\[0\]\.ncol\b", "this.ncol")
        self.rx(r"this\.cluster_assignment_counts'*\[", "COUNT[")
        self.all = list(self.items)
        self.centres()
        self.items = [(l, e) for l, e in self.items if not re.match(r"^(.* )?: ((\w+ (obj|dst|base)=)?(\$|tmp\b))", l)]

    def records(self):
        """the elements of a list with one entry for every key are what was put there"""
        txt = self.lines()
        for l in txt:
            m = re.match(r"^for q0<nkeys\(this\.hcltrs\) : push obj=([\w$]+) val=(.*)$", l)
            if not m:
                continue
            v, x = m.groups()
            v = v if v.startswith("$") else "$" + v
            ev = re.escape(v) + r"\[(q\d)\]'*"
            x = re.sub(r"(\$\w+)\[q0\]'*", lambda z: KEY if any(t == LOOP + ": push obj=%s val=%s" % (z.group(1), KEY) for t in txt) else z.group(0), x)
            inloop = lambda i: i.startswith("for q0<nkeys(this.hcltrs)")
            if not re.search(r"\$|tmp", x):
                self.items = [(re.sub(ev, lambda z: x.replace("q0", z.group(1)), i) if inloop(i) else i, e) for i, e in self.items]
            elif re.match(r"^(tmp|\$\w+)$", x):
                for l2 in txt:
                    m2 = re.match(r"^for q0<nkeys\(this\.hcltrs\) : %s\.(\w+) = (.*)$" % re.escape(x), l2)
                    if m2 and not any(re.search(r": %s\[[^\]]*\]\.%s (=|\+=|-=)" % (re.escape(v), m2.group(1)), t) for t in txt):
                        fe = ev + r"\.%s\b" % m2.group(1)
                        self.items = [(re.sub(fe, lambda z: m2.group(2).replace("q0", z.group(1)), i), e) for i, e in self.items]

    def centres(self):
        """'record X := S': the centre stored under id X of the result is the ncol values at S"""
        out, src = [], {}
        for l, e in self.items:
            m = re.match(r"^.*: copy dst=(tmp|\$\w+)\[0\] src=(.*) n=(.*)$", l)
            if m:
                src[m.group(1)] = m.group(2) + ("" if m.group(3) == "this.ncol" else " (only %s)" % m.group(3))
            m = re.match(r"^(.*): assign dst=this\.final_centroids'*\[(.*)\] src=(tmp|\$\w+)'*$", l)
            if m:
                l = "%s: record %s := %s" % (m.group(1), m.group(2), src.get(m.group(3), "?"))
            out.append((l, e))
        self.items = out

    def net(self, prefix):
        """change of the number of clusters under one guard"""
        n = 0
        for l, e in self.items:
            m = re.match(r"^(.*?)\s?: this\.curr_nclust (\+=|-=|=) (.*)$", l)
            if m and m.group(1).strip() == prefix.strip():
                if m.group(2) == "=" or not re.match(r"^-?\d+$", m.group(3)):
                    return None
                n += int(m.group(3)) if m.group(2) == "+=" else -int(m.group(3))
        return n

    def find(self, text):
        return [e for l, e in self.items if l.split(": ", 1)[-1] == text]


GRID = list(itertools.product((1, 2, 4), range(0, 9), (2, 3), range(0, 5), range(0, 5)))


def truth(s, gs):
    """value of the guards for every k, number of clusters, least size and sizes of the two halves of the grid"""
    out = []

    def atom(t):
        x = cshow(t)
        if x == "this.k":
            return cur[0]
        if x == "this.curr_nclust":
            return cur[1]
        if x == "this.min_clust_size":
            return cur[2]
        if x.startswith("this.cluster_assignment_counts[") and x.endswith(".zeroid]"):
            return cur[3]
        if x.startswith("this.cluster_assignment_counts[") and x.endswith(".oneid]"):
            return cur[4]
        return None
    for cur in GRID:
        try:
            out.append(all(numval.num(g, atom) for g in gs))
        except (numval.Unknown, KeyError, TypeError, ValueError):
            return None
    return out


def zero(k, n, lo, a, b):
    return a < lo or n >= 2 * k


def one(k, n, lo, a, b):
    return b < lo or n + (0 if zero(k, n, lo, a, b) else 1) >= 2 * k


def halves(c, fm):
    """which halves are not split any more: recorded and inactive"""
    sp = splitter(c, fm)
    s = Steps(c, fm, "inner_init", sp)
    R, key = "half not split", "C26:%s:halves" % fm.name
    want = {"zeroid": [zero(*x) for x in GRID], "oneid": [one(*x) for x in GRID]}
    for half, i, m in (("zeroid", 3, "H.means[0]"), ("oneid", 4, "H.means[this.ncol]")):
        A = s.find("active H.%s := 0" % half)
        W = want[half]
        hasrows = [w and x[i] > 0 for w, x in zip(W, GRID)]
        ok = A and all(len(e.loops) == 1 for e in A) and truth(s, A[0].guards) == W
        c.check(bool(ok), R, "%s:inactive:%s" % (key, half), loc(A[0].n) if A else s.where,
                "a half (%s) stops being refined exactly when it is smaller than the least size or splitting it would exceed the maximum number of clusters" % half)
        B = [(l, e) for l, e in s.items if ": record H.%s := " % half in l]
        ok = B and B[0][0].endswith(":= " + m) and truth(s, B[0][1].guards) == hasrows
        c.check(bool(ok), R, "%s:record:%s" % (key, half), loc(B[0][1].n) if B else s.where,
                "a half (%s) that is not split any more has its own centre recorded under its id exactly when it has rows: %s" % (half, [l[-120:] for l, _ in B][:2]))
    extra = [(l, e) for l, e in s.items if re.search(r": (record|active|free) ", l) and not re.search(r": (active H\.(zero|one)id := 0|record H\.(zero|one)id := .*)$", l)]
    for l, e in extra:
        c.bad(key + ":extra", loc(e.n), "unexpected effect on the halves of a partition: %s" % l[:200], R)
    # picks
    S = [e for l, e in s.items if ": push obj=this.%s[" % sp in l]
    R = "rows a split starts from"
    if len(S) != 1 or S[0].guards or len(S[0].loops) != 1:
        c.bad(key + ":spawn", loc(S[0].n) if S else s.where, "every partition is handed to the split once, unconditionally", R)
        return s, None
    words = [cshow(s.nf.k(s.nf.cl.close(x))) if isinstance(x, T) else "" for x in S[0].n.words]
    cp = [w for w in words if w.startswith("$")]
    off = {}
    for l, e in s.all:
        m = re.match(r"^for q0<nkeys\(this\.hcltrs\) if .* : (\$\w+) = 1$", l)
        if m:
            for h in want:
                if truth(s, e.guards) == want[h]:
                    off.setdefault(m.group(1), set()).add(h)
    rowloop, second, going = None, {}, None
    for half, a in (("zeroid", "l"), ("oneid", "r")):
        lits = []
        for j in "01":
            fld = "%s.%s%s" % (cp[0] if cp else "$cp", a, j)
            st = [(l, e) for l, e in s.all if re.search(r": %s = " % re.escape(fld), l)]
            init = [l for l, e in st if l == LOOP + ": %s = max()" % fld]
            picks = [(l, e) for l, e in st if not l.endswith("= max()")]
            k2 = "%s:pick:%s%s" % (key, a, j)
            if not init or not picks:
                c.bad(k2, s.where, "the rows a split starts from are chosen afresh for every partition (%s)" % fld, R)
                continue
            for l, e in picks:
                g = gset(l)
                mine = "(this.cluster_assignments[q1] == H.%s)" % half
                c.check(l.endswith("= q1") and mine in g and allrows(l) is not None,
                        R, k2, loc(e.n), "a split of a half starts from rows of that half: %s" % l[:240])
                flags = [x for x in g for m in [re.match(r"^!mu\(#, (\$\w+)\)$", x)] if m and half in off.get(m.group(1), ())]
                act = "('1' == this.cltr_active_vec.data[H.%s]._)" % half in g
                c.check(bool(flags) or act, R, k2 + ":active", loc(e.n), "no rows are chosen for a half that is not split any more: %s" % l[:240])
                lits.append(g)
                going = allrows(l)
                if j == "1":
                    second[half] = set(flags)
                rowloop = e.L[-1]
        if len(lits) == 2:
            ex = any(("!" + x) in lits[1] or x.startswith("!") and x[1:] in lits[1] for x in lits[0])
            c.check(ex, R, "%s:two:%s" % (key, a), s.where, "the two rows a split of %s starts from are different" % half)
    # nothing stops the search before both halves have their rows
    if rowloop is not None:
        if going:
            for half in want:
                c.check(bool(second.get(half)) and any(x in going for x in second[half]), R, key + ":stop", loc(rowloop), "the search for the rows of a split goes on only while %s" % " || ".join(sorted(going))[:200])
        for n, anc in allnodes(rowloop):
            if n.kind != "break" or [x for x in anc if x.kind == "loop" and x is not rowloop]:
                continue
            g = set()
            for p in n.pc:
                y = s.nf.k(s.nf.cl.close(p))
                for z in (y.a if y.op == "&" else (y,)):
                    g.add(re.sub(r"this\.hcltrs\.data\[[^.]*\]\.", "H.", cshow(z)))
            txt = " && ".join(sorted(g))
            done = {}
            for half, a in (("zeroid", "l"), ("oneid", "r")):
                fl = [f for f, h in off.items() if half in h]
                picked = any("cluster_assignments[" in x and x.startswith("(") and "== H.%s" % half in x or "H.%s == " % half in x and not x.startswith("!") for x in g) and \
                    sum(1 for f in fl if "mu(#, %s)" % f in g) >= 1 and sum(1 for f in fl if "!mu(#, %s)" % f in g) >= 1
                full = fl and (all("mu(#, %s)" % f in g for f in fl) or any(x[1:] in g for x in second.get(half, ())))
                idle = any(x.startswith("!") and "cltr_active_vec" in x and "H.%s" % half in x for x in g)
                done[half] = picked or full or idle
            c.check(all(done.values()), R, key + ":stop", loc(n), "the search for the rows of a split stops before both halves are done: under %s" % txt[:300])
    return s, dict((w, p["n"]) for w, p in zip(words, c.model.db.find_method(fm.coord, sp)["params"]))


def allrows(l):
    """the loop of the line walks all rows; the flags that keep it going, if it may stop before"""
    m = re.match(r"^for q0<nkeys\(this\.hcltrs\) for q1<(\S.*?) (?:if .* |): ", l)
    x = m.group(1) if m else ""
    if x in ("this.nrow", "size(this.cluster_assignments)"):
        return set()
    m = re.match(r"^while\((.*)\)$", x.split(" if ")[0])
    if not m:
        return None
    x = m.group(1)
    n = r"\(q1 < (this\.nrow|size\(this\.cluster_assignments\))\)"
    if re.match("^%s$" % n, x):
        return set()
    m = re.match(r"^\(\(?(.*?)\)? && %s\)$" % n, x)
    fl = m.group(1).split(" || ") if m else ["?"]
    return set(fl) if all(re.match(r"^!mu\(#, \$\w+\)$", f) for f in fl) else None


def splitter(c, fm):
    for f in c.model.db.fn.values():
        if f.get("body") is not None and (f.get("cls") or "").endswith("_coordinator") and len(f["params"]) > 1 and any("c_part" in p["t"] for p in f["params"]):
            if c.model.db.find_method(fm.coord, short(f["q"])) is not None:
                return short(f["q"])
    return "spawn"


def spawn(c, fm, par):
    sp = splitter(c, fm)
    s = Steps(c, fm, sp, "get_split_ids")
    R = "a half becomes a partition"
    for l, p in par.items():
        t = "ZERO" if l.endswith(".zeroid") else "ONE" if l.endswith(".oneid") else "PICK"
        s.rx(r"\barg:%s\b" % re.escape(p), t)
        s.rx(r"(?<![\w.$])%s\b" % re.escape(p), t)
    s.rx(r"\(max\(\) == (PICK\.[lr][01])\)", r"(\1 == max())")
    s.rx(r"if (!\(PICK\.[lr]1 == max\(\)\)) && (!\(PICK\.[lr]0 == max\(\)\)) ", r"if \2 && \1 ")
    s.rx(r"new<[\w:]*h_clusters>", "N")
    for half, a in (("ZERO", "l"), ("ONE", "r")):
        key = "C26:%s:split:%s" % (fm.name, a)
        g = "if !(PICK.%s0 == max()) && !(PICK.%s1 == max()) " % (a, a)
        s.check(key, R, [g + ": fresh ids", g + ": N.id = " + half, g + ": N.zeroid = tmp.first", g + ": N.oneid = tmp.second", g + ": this.hcltrs.data[%s] = N" % half,
                         g + ": copy dst=N.means[0] src=ROW(PICK.%s0) n=this.ncol" % a, g + ": copy dst=N.means[this.ncol] src=ROW(PICK.%s1) n=this.ncol" % a,
                         g + ": active tmp.first := 1", g + ": active tmp.second := 1", [g + ": N.converged = 0"]],
                msg="a half that is split becomes a partition under its own id, with two new ids, started from its two rows", where=s.where)
        c.check(s.lines().count(g + ": fresh ids") == 1, R, key + ":fresh", s.where, "every split takes new ids once")
        c.check(s.net(g) == 1, "clusters counted", key + ":count", s.where, "a split must add exactly one to the number of clusters, it adds %s" % s.net(g))
    for l, e in s.items:
        if not l.startswith(("if !(PICK.l0 == max()) && !(PICK.l1 == max()) :", "if !(PICK.r0 == max()) && !(PICK.r1 == max()) :")):
            c.bad("C26:%s:split:extra" % fm.name, loc(e.n), "unexpected effect of a split: %s" % l[:200], R)


def start(c, fm):
    s = Steps(c, fm, "run_hinit", "get_split_ids")
    R = "the first split"
    gs = [l.split(": ")[0] for l in s.lines() if l.endswith(": fresh ids")]
    if not gs:
        c.bad("C26:%s:start" % fm.name, s.where, "the first split takes new ids", R)
    for i, g in enumerate(gs):
        key = "C26:%s:start:%d" % (fm.name, i)
        req = [g + ": this.hcltrs.data[0].zeroid = tmp.first", g + ": this.hcltrs.data[0].oneid = tmp.second", g + ": active tmp.first := 1", g + ": active tmp.second := 1"]
        if g.startswith("if (FORGY == "):
            req += [g + ": copy dst=this.hcltrs.data[0].means[0] src=ROW(rand) n=this.ncol", g + ": copy dst=this.hcltrs.data[0].means[this.ncol] src=ROW(rand) n=this.ncol"]
        s.check(key, R, req, msg="the first partition gets two new ids, both active", where=s.where)
        c.check(s.net(g) == 2, "clusters counted", key + ":count", s.where, "the first split makes two clusters, counted as %s" % s.net(g))


def between(c, fm):
    sp = splitter(c, fm)
    s = Steps(c, fm, "init_splits", sp, "reclaim_id")
    s.rx(r"this\.nrow'+", "this.nrow")
    s.check("C26:%s:replace" % fm.name, "split partitions are replaced",
            [LOOP + ": push obj=this.%s[H.zeroid] val=H.oneid" % sp, LOOP + ": H = this.hcltrs.emptyval", LOOP + ": active KEY := 0", LOOP + ": free KEY",
             [": assign dst=this.part_id src=this.cluster_assignments", "for q0<this.nrow : this.part_id[q0] = this.cluster_assignments[q0]"]],
            seq=[(0, 1), (0, 3)], where=s.where,
            msg="after its halves were handled a partition disappears, its id may be used again, and every row's partition is the half it was in")
    n = [(l, e) for l, e in s.items if ": this.curr_nclust " in l]
    for l, e in n:
        c.bad("C26:%s:replace:count" % fm.name, loc(e.n), "the number of clusters is changed once more when a partition is replaced: %s" % l[:160], "clusters counted")
    if not n:
        c.ok("clusters counted")


def undo(c, fm):
    if c.model.db.find_method(fm.coord, "partition_decision") is None:
        return
    s = Steps(c, fm, "partition_decision", "reclaim_id")
    key, R = "C26:%s:undo" % fm.name, "a rejected split is undone"
    recs = [l for l in s.lines() if re.match(r"^for q0<nkeys\(this\.hcltrs\) if .* : record KEY := ", l)]
    if len(recs) != 1:
        c.bad(key, s.where, "a partition whose split is rejected has its centre recorded under its id", R)
        return
    rev = recs[0].split(" if ", 1)[1].split(" : ")[0]
    good = {"xmeans": r"^\((\$\w+)\[q0\]'*\.cscore <=? \1\[q0\]'*\.pscore\)$", "gmeans": r"^\((\$\w+)\[KEY\]'*\[\(-1 \+ size\(\1\[KEY\]\)'*\)\]'* <=? (\$\w+)\[this\.strictness\]'*\)$"}[fm.name]
    c.check(re.match(good, rev) is not None, R, key + ":when", s.where,
            "a split is rejected when the parent scores better than the halves" if fm.name == "xmeans" else "a split is rejected when the statistic of the partition does not exceed the critical value", )
    s.macro(rev, "REV")
    txt = [l for l, _ in s.all]
    txt = [l.replace(rev, "REV") for l in txt]
    # flags kept per partition while the decisions are taken
    for l in txt:
        m = re.match(r"^for q0<nkeys\(this\.hcltrs\) if REV : (?:push obj=([^ ]+)\[q0\] val=1|(\$\w+)\[(KEY|q0)\] = 1)$", l)
        if not m:
            continue
        v = m.group(1) or m.group(2)
        if any((": push obj=%s[" % v in x or re.search(r": %s\[[^ ]*\] = " % re.escape(v), x)) and x != l for x in txt):
            continue
        if not any(": fill base=%s" % v in x and x.endswith("val=0") for x in txt):
            continue
        if m.group(3) == "KEY":
            s.rx(re.escape(v) + r"\[(this\.part_id\[q\d\])\]'*", r"UNDONE(\1)")
        else:
            s.rx(r"^for q0<fold\(nkeys\(this\.hcltrs\), .*\) (if .* : )", LOOP + r"\1")
            s.macro("('1' == %s.data[q0]._)" % v, "REV")
            s.rx(re.escape(v) + r"\[q0\]'*", "REV")
    s.rx(r"this\.hcltrs\.data\[KEY\]", "H")
    s.rx(r" && \(this\.part_id\[q\d\] < (\(1 \+ max_element\(\$\w+\[0\], \$\w+\[nkeys\(this\.hcltrs\)\]\)\)|size\(\$\w+\))\)", "")
    G = LOOP + "if REV : "
    rows = ["for q0<this.nrow if UNDONE(this.part_id[q0]) : this.cluster_assignments[q0] = this.part_id[q0]"]
    for l in txt:
        m = re.match(r"^for q0<(size\(this\.cluster_assignments\)|this\.nrow) : push obj=(\$\w+)\[this\.cluster_assignments\[q0\]\]'* val=q0$", l)
        if m:
            e = m.group(2)
            rows.insert(0, tuple(LOOP + "for q1<size(%s[H.%s]) if REV : this.cluster_assignments[%s[H.%s][q1]] = KEY" % (e, h, e, h) for h in ("zeroid", "oneid")))
    s.rx(r"(\$\w+\[H\.\w+\])'+", r"\1")
    s.check(key, R, [rows, [G + "COUNT[KEY] = (COUNT[H.oneid] + COUNT[H.zeroid])", G + "COUNT[KEY] = (COUNT[H.zeroid] + COUNT[H.oneid])"],
                     (G + "COUNT[H.zeroid] = 0", G + "COUNT[H.oneid] = 0"), G + "active H.zeroid := 0", G + "active H.oneid := 0", G + "active KEY := 0",
                     G + "free H.zeroid", G + "free H.oneid", [G + "record KEY := this.cltrs.means[KEY*this.ncol]"], G + "H = this.hcltrs.emptyval"],
            seq=[(1, 2)], fields=("cluster_assignments", "cluster_assignment_counts", "final_centroids", "part_id"), where=s.where,
            msg="a rejected split gives all rows of both halves back to the partition, which is finished with their number and its own centre, and its halves' ids are free again")
    c.check(s.net(LOOP + "if REV ") == -1, "clusters counted", key + ":count", s.where, "a rejected split leaves one cluster in place of two; the number of clusters changes by %s" % s.net(LOOP + "if REV "))


def last(c, fm):
    s = Steps(c, fm, "complete_final_centroids")
    s.rx(r"!\(0 == (COUNT\[H\.\w+\])\)", r"(0 < \1)")
    s.check("C26:%s:rest" % fm.name, "remaining halves are recorded",
            [LOOP + "if (0 < COUNT[H.zeroid]) : record H.zeroid := H.means[0]", LOOP + "if (0 < COUNT[H.oneid]) : record H.oneid := H.means[this.ncol]"],
            fields=("final_centroids",), where=s.where, msg="at the end the centre of every half with rows is recorded under its id, and no other")


def ids(c):
    f = c.model.db.find_method("knor::hclust_id_generator", "get_split_ids")
    g = c.model.db.find_method("knor::hclust_id_generator", "reclaim_id")
    if f is None or g is None:
        raise AnalysisBroken("no generator of ids")
    t = c.model.tree(f, "knor::hclust_id_generator")
    s = Sum(c, t, locals_=True)
    R, key = "ids are new", "C26:ids"
    where = "%s (%s)" % (f.get("l", ""), f["q"])
    txt = s.lines()
    # a new id is one more than the largest so far; each use advances it
    inc = [l for l in txt if ": this.max_id += 1" in l]
    c.check(len(inc) == 2, R, key + ":next", where, "a new id advances the largest id: %s" % inc[:3])
    # for every number of free ids: the pair is made of the last ones given back and of new ones, none twice
    FREE, TOP = 1000, 50
    for n in range(4):
        got = []
        for fld in ("first", "second"):
            vals = []
            for l, e in s.items:
                if not re.search(r": tmp\.%s = " % fld, l):
                    continue

                def atom(x):
                    y = cshow(x)
                    if y.rstrip("'") == "size(this.recycler)":
                        return n - (1 if y.endswith("'") else 0)
                    if y == "this.max_id":
                        return TOP
                    if x.op == "ld" and y.startswith("this.recycler[") and x.a[0].op == "I":
                        return FREE + numval.num(x.a[0].a[1], atom)
                    return None
                try:
                    if all(numval.num(g_, atom) for g_ in e.guards):
                        vals.append(numval.num(e.rhs, atom))
                except (numval.Unknown, KeyError, TypeError, ValueError):
                    vals.append(None)
            got.append(vals[-1] if len(vals) == 1 else None)
        want = [FREE + n - 1 - i_ for i_ in range(min(n, 2))] + [TOP + 1 + i_ for i_ in range(2 - min(n, 2))]
        c.check(sorted(got, key=str) == sorted(want, key=str), R, "%s:pair:%d" % (key, n), where,
                "with %d ids free the two ids of a split are not two different ids that are free or new" % n)
    pops = [n for n, a in allnodes(t[0]) if n.kind == "vecop" and n.name == "pop_back" and cshow(n.obj) == "this.recycler"]
    c.check(len(pops) >= 2, R, key + ":pop", where, "an id that is used again is taken from the list of free ids")
    s2 = Sum(c, c.model.tree(g, "knor::hclust_id_generator"))
    c.check([re.sub(r"val=\S+$", "val", l) for l in s2.lines()] == [": push obj=this.recycler val"], R, key + ":free", "%s (%s)" % (g.get("l", ""), g["q"]), "an id given back is free")


def flags(c):
    """the vector of active flags keeps what is set"""
    cls = "knor::base::thd_safe_bool_vector"
    for nm in ("set", "check_set", "get"):
        f = c.model.db.find_method(cls, nm)
        if f is None:
            continue
        t = c.model.tree(f, cls)
        c.seen(t)
        where = "%s (%s)" % (f.get("l", ""), f["q"])
        P = [p["n"] for p in f["params"]]
        if nm == "get":
            c.check(cshow(t[2]) in ("('1' == this.data[%s]._)" % P[0], "(this.data[%s]._ == '1')" % P[0]), "active flags", "C26:flags:get", where, "reading a flag returns %s" % cshow(t[2]))
            continue
        s = Sum(c, t, locals_=True)
        for g, v in (("if %s " % P[1], "49"), ("if !%s " % P[1], "48")):
            L = s.lines()
            a, b = g + ": tmp._[0] = " + v, g + ": copy dst=this.data[%s]._ src=tmp._ n=2" % P[0]
            alt = g + ": this.data[%s]._[0] = %s" % (P[0], v)
            c.check(alt in L or a in L and b in L, "active flags", "C26:flags:%s:%s" % (nm, v), where, "setting a flag stores it")


def ctor(c, fm):
    f = next((x for x in c.model.db.fn.values() if x.get("ctor") and (x.get("cls") or "") == "knor::hclust_coordinator" and x.get("body") is not None and len(x["params"]) > 5), None)
    if f is None:
        raise AnalysisBroken("no constructor of the hierarchical driver")
    s = Sum(c, c.model.tree(f, f["cls"]))
    L = s.lines()
    w = "%s (%s)" % (f.get("l", ""), f["q"])
    m = [l.split(" = ", 1)[1] for l in L if ": this.min_clust_size = " in l]
    two = lambda x: re.match(r"^(max\(2, \w+\)|max\(\w+, 2\)|\(\((\w+) <=? [12]\) \? 2 : \2\)|\(\([12] <=? (\w+)\) \? \3 : 2\))$", x)
    c.check(len(m) == 1 and two(m[0]) or len(m) == 2 and "2" in m, "least size", "C26:start:least", w,
            "a cluster must have two rows to be split: the least size is %s" % m)
    n = [l.split(" = ", 1)[1] for l in L if ": this.curr_nclust = " in l]
    c.check(n == ["0"], "clusters counted", "C26:start:count", w, "no cluster is counted before the first split")


def c26(c):
    sc = Sub(c, modelof(c))
    ids(sc)
    flags(sc)
    ctor(sc, None)
    for fm in fams(sc, *FAMS):
        s, par = halves(sc, fm)
        if par:
            spawn(sc, fm, par)
        start(sc, fm)
        between(sc, fm)
        undo(sc, fm)
        last(sc, fm)
