"""Stopping and counting of iterative runs."""
from kmeans import *

CHG = "sum(this.nthreads, j0, this.threads[j0].meta.num_changed)"
NONE_CHANGED = "(0 == %s)" % CHG


def frac(n, chg, tol):
    return ["(1/(%s)*%s <= %s)" % (n, chg, tol), "(%s*1/(%s) <= %s)" % (chg, n, tol), "(%s <= %s*%s)" % ((chg,) + tuple(sorted((n, tol))))]


class Unknown(Exception):
    pass


def evalt(t, L, v, M, maxt, flag):
    """integer value of t when the loop L ends (or is about to start pass) v, with the limit M; flags get the value `flag`"""
    mp = {L.iv: c(v), mk("ivend", L.lid): c(v)}
    for x in walk(t):
        if x.op == "ld" and x.a[0] in maxt or x in maxt:
            mp[x] = c(M)
        if x.op in ("mu", "muend") and x.a[0] is L.lid:
            md = L.mods.get(x.a[1])
            if md is not None and md["mode"] == "mu" and md.get("init") is not None and md.get("back") is not None:
                if isflag(md):
                    mp[x] = flag
                else:
                    mp[x] = carried(x.a[1], md, L, v, M, maxt, flag)
    t = subst(t, mp)
    for _ in range(8):
        if t.op == "c":
            return t.a[0]
        mp = {}
        for x in walk(t):
            if x.op == "phi" and not any(y.op == "phi" for y in walk(x.a[0])):
                mp[x.a[0]] = TRUE
        if not mp:
            if terms.isbool(t):
                mp = {y: TRUE for y in (t.a if t.op in ("&", "|") else (t,))}
            else:
                raise Unknown(show(t)[:200])
        t = subst(t, mp)
    raise Unknown(show(t)[:200])


def carried(key, md, L, v, M, maxt, flag):
    """value of a variable carried round the loop before pass v, when the pass before it converged iff flag"""
    val = c(evalt(md["init"], L, 0, M, maxt, FALSE))
    for p in range(v):
        conv = flag if p == v - 1 else FALSE
        mp = {mk("mu", L.lid, key): val}
        for k2, m2 in L.mods.items():
            if m2["mode"] == "mu" and m2.get("back") is not None and m2.get("init") is not None and isflag(m2):
                mp[m2["back"]] = conv
                mp[not_(m2["back"])] = not_(conv)
                if m2["back"].op == "phi":
                    mp[m2["back"].a[0]] = conv
        x = subst(md["back"], mp)
        if contains(x, mk("mu", L.lid, key)):
            raise Unknown(show(x)[:200])
        val = c(evalt(x, L, p, M, maxt, conv))
    return val


def isflag(md):
    def truth(t):
        if t.op == "phi":
            return truth(t.a[1]) and truth(t.a[2])
        return t.op == "c" and t.a[0] in (0, 1) or t.op == "mu" or terms.isbool(t)
    return md["init"].op == "c" and md["init"].a[0] in (0, 1) and not any(x.op in ("iv",) for x in walk(md["back"])) and truth(md["back"])


def cap(cx, key, t, L, base, maxt):
    """at most `limit` passes, exactly as many when nothing stops it earlier, and the number done is the number reported"""
    hasbrk = bool(breaks(L))
    flagged = L.cond is not None and any(y.op == "mu" and y.a[0] is L.lid for y in walk(L.cond))
    vals = [n for n, _ in allnodes(t[0]) if n.kind == "store" and fieldname(n.lv) == "iters" and rootof(n.lv).op in ("tmp", "L")]
    if not vals:
        raise AnalysisBroken("%s: no reported iteration count" % key)
    try:
        for M in (1, 2, 3, 5, 8):
            v = 0
            while v < M + 3 and evalt(L.cond, L, v, M, maxt, FALSE):
                v += 1
            cx.check(base + v == max(M, base), "iteration limit", key + ":limit", loc(L), "a run with a limit of %d that does not converge makes %d passes" % (M, base + v))
            for n in vals:
                def rep(x, flag, what, want):
                    got = evalt(n.val, L, x, M, maxt, flag)
                    cx.check(got == want, "reported iterations", key + ":report", loc(n), "a run with a limit of %d that %s after %d passes reports %s" % (M, what, want, got))
                rep(v, FALSE, "stops at the limit", base + v)
                for x in range(v):
                    if hasbrk:
                        rep(x, TRUE, "converges", base + x + 1)
                    if flagged and x:
                        rep(x, TRUE, "converges", base + x)
        z = evalt(L.cond, L, 0, 0, maxt, FALSE)
        cx.check(not z, "iteration limit", key + ":zero", loc(L), "a run with a limit of 0 still makes a pass")
    except Unknown as e:
        raise AnalysisBroken("%s: iteration count not understood: %s" % (key, e))


def stops(cx, key, s, L, want, go=None):
    """want: groups of alternative texts; the loop must have exactly these reasons to stop"""
    g, st = exits(s, L)
    if getattr(s, "NT", None):
        st = [x.replace(s.NT, "NT") for x in st]
    if getattr(s, "mapstop", None):
        st = [s.mapstop(x) for x in st]
    st = set(re.sub(r"\$\w+\[j0\]'", "$[j0]'", x) for x in st)
    st = set(re.sub(r"\$\w+'", "$'", x) for x in st)
    # a number of changes is never negative
    st = set(re.sub(r"^\((\$'|sum\(.*num_changed\)|sum\(NT, j0, .*\)) (<= 0|< 1)\)$", lambda m: "(0 == %s)" % m.group(1), x) for x in st)
    left = set(st)
    for alts in want:
        hit = [a for a in alts if a in st]
        cx.check(bool(hit), "stop criterion", key + ":stop", loc(L), "the run does not stop when %s; it stops when %s" % (alts[0], " or ".join(sorted(st))[:500]))
        left -= set(hit)
    for x in left:
        cx.bad(key + ":stop:extra", loc(L), "the run also stops when %s" % x[:400], "stop criterion")


MAXIT = mk("F", THIS, "max_iters")


def dispatches_before(t, L, state):
    n = 0
    for x, a in allnodes(t[0]):
        if x.kind == "store" and fieldname(x.lv) == "state" and x.val.op == "e" and x.val.a[0] == state and L not in a:
            n += 1
    return n


def c11(c):
    done = set()
    for fm in fams(c, "kmeans", "skmeans", "kmeans_task", "medoid", "dist", "dist_task"):
        t = c.model.drive(fm, "run")
        L = loop_of(t, "EM")
        s = dsum(c, fm, "run", "EM")
        k = "C11:%s" % fm.name
        if fm.name.startswith("dist"):
            want = [["($' == 0)", "(0 == $')"], frac("this.g_nrow", "$'", "this.tolerance")]
        else:
            want = [[NONE_CHANGED], frac("this.nrow", CHG, "this.tolerance")]
        if fm.name == "medoid":
            want.append(["!fold(this.k, j0, this.medoids_changed, (($[j0]' < this.medoid_energy[j0]) ? 1 : acc0_0))"])
        stops(c, k, s, L, want)
        cap(c, k, t, L, dispatches_before(t, L, "MEDOID" if fm.name == "medoid" else "EM"), {MAXIT})
        # what counts as changed
        if fm.worker not in done:
            done.add(fm.worker)
            w = wsum(c, fm, "EM")
            if "task" in fm.name:
                R = rid("task")
                new, old = "this.cluster_assignments[%s]'" % R, "this.cluster_assignments[%s]" % R
                ch = "!(%s == %s)" % tuple(sorted((new, old)))
                q = "for q0<this.curr_task.nrow "
                w.check(k + ":worker", "changed rows counted",
                        [q + "if this.prune_init : this.meta.num_changed += 1", q + "if " + " && ".join(sorted([ch, "!this.prune_init"])) + " : this.meta.num_changed += 1"],
                        fields=("num_changed",), msg="each row that changes cluster counts once (in the first pass every row)")
            else:
                w.assigned("cluster_assignments")
                w.check(k + ":worker", "changed rows counted",
                        [": this.meta.num_changed = 0", "for q0<this.nprocrows if !(A(q0) == this.cluster_assignments[%s]) : this.meta.num_changed += 1" % rid("thread")],
                        fields=("num_changed",), seq=[(0, 1)], msg="each row that changes cluster counts once")
        if "task" in fm.name:
            s.check(k + ":reset", "changed rows reset", ["for q0<this.nthreads : this.threads[q0].meta.num_changed = 0"], msg="the count of changed rows restarts with every pass")
    for fm in fams(c, "kmeans_task"):
        t = c.model.drive(fm, "mb_run")
        L = loop_of(t, "MB_EM")
        if L is None:
            raise AnalysisBroken("mini-batch loop not found")
        s = dsum(c, fm, "mb_run", "MB_EM", locals_=True)
        stops(c, "C11:mb", s, L, [["(sqrt(sum(this.k*this.ncol, j0, $[j0]'*$[j0]')) < this.tolerance)"]])
        cap(c, "C11:mb", t, L, dispatches_before(t, L, "MB_EM"), {MAXIT})
        s.rx(r"\$\w+\[q0\] = \((-1\*)?this.cltrs.means", r"$[q0] = (\1this.cltrs.means")
        s.check("C11:mb:diff", "movement of the centres",
                [": assign dst=this.cltrs.prev_means src=this.cltrs.means",
                 ["for q0<this.k*this.ncol : $[q0] = (-1*this.cltrs.means[q0]%s + this.cltrs.means[q0]%s)" % x for x in (("", "'"), ("'", ""))]],
                seq=[(0, 1)], msg="the movement is the difference between the centres after and before the pass")
    for fm in fams(c, "fcm"):
        t = c.model.drive(fm, "run")
        L = loop_of(t, "E")
        if L is None:
            raise AnalysisBroken("fuzzy c-means loop not found")
        s = dsum(c, fm, "run", "E", alias=DDIM, hook=ipdim)
        n = "this.k*this.ncol"
        o = "new<knor::base::dense_matrix<double>>.mat"
        stops(c, "C11:fcm", s, L, [["(sqrt(sum(%s, j0, %s[j0]'*%s[j0]')) < this.tolerance)" % (n, o, o)]])
        cap(c, "C11:fcm", t, L, 0, {MAXIT})
        s.check("C11:fcm:diff", "movement of the centres",
                [": copy dst=this.prev_centers.mat[0] src=this.centers.mat[0] n=%s" % n,
                 ["for q0<%s : %s[q0] = (-1*this.prev_centers.mat[q0]' + this.centers.mat[q0]')" % (n, o),
                  "for q0<%s : %s[q0] = (-1*this.centers.mat[q0]' + this.prev_centers.mat[q0]')" % (n, o)]],
                seq=[(0, 1)], msg="the movement is the difference between the centres after and before the pass")
    for nm, t, L, base in autos(c):
        k = "C11:%s" % nm
        s = autosum(c, t, L, locals_=True)
        chg = "sum(NT, j0, $[j0]')"
        # a counter that is one number (added to atomically or as a reduction) is known in closed form: the number of rows
        # whose new cluster is not the one they had
        s.rowsum = False
        tokens = lambda x: sorted(re.findall(r"\w+|[^\w\s]", re.sub(r"\b[jq]\d+", "#", x)))   # factors of an index come in any order
        news = [tokens(l.split(" = ", 1)[1]) for l, e in s.items if e.kind == "store" and re.match(r"for q0<num_rows : cluster_assignments\[q0\] = ", l)]

        def total(m):
            if tokens(m.group(2)) not in news:
                return m.group(0)
            s.rowsum = True
            return chg
        s.mapstop = lambda x: re.sub(r"sum\(num_rows, (j\d+), !\((.*?) == cluster_assignments\[\1\]\)\)", total, x)
        stops(c, k, s, L, [["(0 == %s)" % chg], frac("num_rows", chg, "tolerance")])
        cap(c, k, t, L, base, {sym("MAX_ITERS")})
        if s.rowsum:
            c.ok("changed rows counted")
            continue
        s.rx(r"\$\w+\[(omp_get_thread_num\(\)|0)\] \+= 1", "$CH += 1")
        s.assigned("cluster_assignments", pre="")
        ls = [l for l in s.lines() if l.endswith(": $CH += 1")]
        new, old = "cluster_assignments[q0]'", "cluster_assignments[q0]"
        want = ["for q0<num_rows if !(A(q0) == cluster_assignments[q0]) : $CH += 1", "for q0<num_rows if !(cluster_assignments[q0] == cluster_assignments[q0]') : $CH += 1"]
        c.check(len(ls) == 1 and ls[0] in want, "changed rows counted", k + ":count", loc(L), "each row that changes cluster counts once; found %r" % [l[:200] for l in ls])
