"""C01-C04: the driver/worker phase protocol, the wake-up handshake, lock discipline."""
from rulebase import *
from flow import Flow
from model import THIS, short, COORD, WORKER

WAKE = "knor::coordinator::wake4run"
WAITC = "knor::coordinator::wait4complete"


def driver_entries(m, fm):
    """trees that together contain every phase dispatch of this driver"""
    db = m.db
    done, out = set(), []
    names = []
    for b in db.bases(fm.coord):
        for f in db.fn.values():
            if f.get("cls") == b and f.get("body") is not None and not f.get("ctor") and not f.get("dtor"):
                if f["n"] not in names:
                    names.append(f["n"])
    pri = [n for n in ("run", "soft_run") if n in names] + sorted(n for n in names if n not in ("run", "soft_run"))
    for nme in pri:
        f = db.find_method(fm.coord, nme)
        if f is None or f["q"] in done or f["q"] in (WAKE, WAITC):
            continue
        if nme not in ("run", "soft_run") and not reaches(m, f, WAKE):
            continue
        t = m.tree(f, fm.coord, fm)
        out.append((f, t))
        done |= set(t[3].inlined)
    return out


def callees(m):
    if getattr(m, "_cg", None) is None:
        cg = {}

        def walk(x, acc):
            if isinstance(x, dict):
                if x.get("k") in ("call", "ctor") and x.get("m"):
                    acc.add(x["m"])
                if x.get("k") in ("lambda", "fn") and x.get("m"):
                    acc.add(x["m"])
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v, acc)
            elif isinstance(x, list):
                for v in x:
                    walk(v, acc)
        for k, f in m.db.fn.items():
            acc = set()
            walk(f.get("body"), acc)
            for i in f.get("inits", []) or []:
                walk(i, acc)
            ex = set()
            for a in acc:
                ex.add(a)
                todo = [a]
                while todo:
                    y = todo.pop()
                    for _, o in m.db.overriders.get(y, []):
                        if o not in ex:
                            ex.add(o)
                            todo.append(o)
            cg[k] = ex
        m._cg = cg
    return m._cg


def reaches(m, f, q):
    cg = callees(m)
    goal = {g["m"] for g in m.db.byq.get(q, [])}
    seen, todo = set(), [f["m"]]
    while todo:
        x = todo.pop()
        if x in goal:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += cg.get(x, ()) or cg.get(x + "@" + str(f.get("unit")), ())
    return False


def states_requested(m, fm):
    out = {}
    for f, t in driver_entries(m, fm):
        for n, a in allnodes(t[0]):
            if n.kind == "enter" and n.q == WAKE and n.args and n.args[0].op == "e":
                out.setdefault(n.args[0].a[0], n)
            elif n.kind == "enter" and n.q == WAKE and n.args and n.args[0].op == "phi":
                for x in terms.walk(n.args[0]):
                    if x.op == "e":
                        out.setdefault(x.a[0], n)
    return out


def is_pending(t):
    """the count of workers still busy, seen from a worker or the driver"""
    return t is not None and any(x.op == "F" and x.a[1] in ("parent_pending_threads", "pending_threads") for x in terms.walk(t))


def completion(n):
    return n.kind == "store" and n.atomic and is_pending(n.lv) and n.op == "+=" and is_c(n.rhs) and n.rhs.a[0] < 0


# ------------------------------------------------------------------ C01
def c01(c):
    m = c.model
    enum = next((v for k, v in m.db.enums.items() if k.endswith("thread_state_t")), None)
    if not enum:
        raise AnalysisBroken("worker state enumeration not found")
    for fm in m.fams:
        if not fm.worker:
            raise AnalysisBroken("no worker class built by " + fm.coord)
        req = states_requested(m, fm)
        if not req:
            raise AnalysisBroken("driver %s dispatches no phase" % fm.coord)
        for st in sorted(req):
            if st == "EXIT":
                continue
            t = m.work(fm, st)
            c.seen(t)
            phase(c, fm, st, t, req[st])
        loop_rule(c, fm)
    c.need(15, "phase")


def phase(c, fm, st, t, asked):
    key = "C01:%s:%s" % (fm.worker, st)
    runfn = t[0].q
    rejecting = [n for n, a in allnodes(t[0]) if n.kind == "throw" and n.fn == runfn]
    normal = not t[1].dead
    if not normal:
        c.bad(key + ":unhandled", loc(asked), "driver %s dispatches phase %s but worker %s::run has no path that completes it (%s)" %
              (fm.coord, st, fm.worker, loc(rejecting[0]) if rejecting else "no normal return"), "phase")
        return
    if rejecting:
        c.bad(key + ":rejects", loc(rejecting[0]), "worker %s can reject the dispatched phase %s" % (fm.worker, st), "phase")
        return
    probs = {}

    def leaf(n, v):
        done, tk = v
        if completion(n):
            if n.rhs is not c_m1 and not (is_c(n.rhs) and n.rhs.a[0] == -1):
                probs.setdefault("count", (n, "completion subtracts %s" % show(n.rhs)))
            return [(min(done + 1, 2), tk)]
        if n.kind == "store" and n.lv.op == "F" and n.lv.a[1] == "curr_task" and not isnull(n.val):
            return [(done, min(tk + 1, 2))]
        if done and n.kind in ("store", "fill", "copy", "push", "clear", "resize") and not exempt_after(n):
            probs.setdefault("late", (n, "writes %s after reporting completion" % show(n.get("lv") or n.get("base") or n.get("dst") or n.get("obj"))[:80]))
        return None
    f = Flow(leaf)
    ends = f.core(f.run(t[0], [(0, 0)]))
    for done, tk in ends:
        if done + tk != 1:
            if done == 0 and tk == 0:
                probs.setdefault("none", (t[0], "a path through the phase returns without reporting completion"))
            elif done > 1:
                probs.setdefault("twice", (t[0], "a path through the phase reports completion more than once"))
            else:
                probs.setdefault("both", (t[0], "a path both takes another task and reports completion (%d/%d)" % (done, tk)))
    for k in probs:
        n, msg = probs[k]
        c.bad(key + ":" + k, loc(n) if n.kind != "enter" else fm.worker + "::run", "worker %s, phase %s: %s" % (fm.worker, st, msg), "phase")
    if not probs:
        c.ok("phase", key)
    # the state is set back to waiting in the same critical section as the completion report
    waits = [n for n, a in allnodes(t[0]) if n.kind == "store" and n.lv.op == "F" and n.lv.a[1] == "state" and n.val.op == "e" and n.val.a[0] == "WAIT"]
    if any(completion(n) for n, _ in allnodes(t[0])):
        c.check(bool(waits), "parks", key + ":parks", fm.worker + "::run", "worker reports completion but never returns to the waiting state")


c_m1 = terms.c(-1)


def exempt_after(n):
    if n.kind == "store":
        if n.lv.op == "L" or n.local or n.lv.op == "tmp":
            return True
        return n.lv.op == "F" and n.lv.a[1] in ("state", "curr_task")
    b = n.get("base") or n.get("dst") or n.get("obj")
    return b is not None and rootof(b).op in ("L", "tmp")


def loop_rule(c, fm):
    """the hardware thread runs the worker's loop: wait while idle, leave on EXIT, otherwise run the phase"""
    m = c.model
    st = m.db.find_method(fm.worker, "start")
    if st is None:
        raise AnalysisBroken(fm.worker + " has no start")
    t = m.tree(st, fm.worker, fm)
    c.seen(t)
    cr = [n for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_create"]
    key = "C01:%s:thread" % fm.worker
    if not cr:
        c.bad(key, st["q"], "start() creates no thread", "thread")
        return
    n = cr[0]
    fnm = n.args[2]
    ok = fnm.op == "fn" and n.args[3] is THIS
    c.check(ok, "thread", key, loc(n), "the thread does not run the worker's loop on this worker")
    if not ok:
        return
    cb = m.db.fn.get(fnm.a[0])
    if cb is None:
        raise AnalysisBroken("thread entry point of %s not found" % fm.worker)
    W = sym("worker")
    I = Interp(m.db, elemcls=m.hints(fm), opaque=lambda f: f["n"] in ("run", "bind2node_id") and f.get("cls") or f["q"].startswith("cxxopts::"))
    root, env, ret = I.entry(cb, args=[W])
    SF = mk("F", W, "state")
    # every way round the loop: the last thing read before run() says "not waiting, not exit"
    loops = [(n, a) for n, a in allnodes(root) if n.kind == "loop" and any(x.kind == "call" and x.name == "run" for x, _ in allnodes(n))]
    key = "C01:%s:loop" % fm.worker
    if not loops:
        c.bad(key, cb["q"], "no loop that runs phase after phase", "loop")
        return
    L = [l for l, a in loops if not any(x in [q for q, _ in loops] for x in a)][0]
    probs = []
    WAITE, EXITE = mk("e", "WAIT"), mk("e", "EXIT")

    def refine(cond, pos, v):
        # v: set of facts the worker knows about its state: subset of {'nowait','noexit'}; 'waited' forces recheck
        x = cond
        if x.op == "!":
            x, pos = x.a[0], not pos
        if x.op == "==" and any(isstate(y) for y in x.a):
            e = [y for y in x.a if y.op == "e"]
            if e:
                nm = e[0].a[0]
                if not pos:
                    return v | {"no" + nm}
                # state == nm contradicts
                return v | {"is" + nm}
        return v

    def isstate(y):
        return any(x.op == "F" and x.a[1] == "state" for x in terms.walk(y))

    class F2(Flow):
        def filt(self, cond, pos, S):
            cs = [(cond, pos)]
            if pos and cond.op == "&":
                cs = [(x, True) for x in cond.a]
            if not pos and cond.op == "|":
                cs = [(x, False) for x in cond.a]
            out = set()
            for v in S:
                for cc, p in cs:
                    v = refine(cc, p, v)
                out.add(frozenset(v))
            return frozenset(out)

    def leaf(n, v):
        if n.kind == "call" and n.name == "run":
            if "isEXIT" in v:
                probs.append((n, "runs a phase after being told to exit"))
            if "noEXIT" not in v:
                probs.append((n, "runs a phase without having excluded EXIT"))
            return [frozenset({"ran"})]
        if n.kind == "call" and n.name in ("pthread_cond_wait", "pthread_mutex_lock"):
            return [frozenset(x for x in v if x == "ran")]
        return None
    f = F2(leaf, corr=False)
    ends = f.run(root, [frozenset()])
    for e in list(ends) + [x for _, S in f.ends["exit"] for x in S]:
        if "isEXIT" not in e and "noWAIT" not in e and False:
            probs.append((L, "leaves the loop other than on EXIT"))
    left = [e for e in list(ends) + [x for nd, S in f.ends["exit"] for x in S if nd.name == "pthread_exit"]]
    if not left:
        probs.append((L, "never leaves the loop"))
    for e in left:
        if "isEXIT" not in e:
            probs.append((L, "can leave the loop without having been told to exit"))
    # waits: the loop reaches the condition wait while the state is WAIT
    wts = [n for n, a in allnodes(L) if n.kind == "call" and n.name == "pthread_cond_wait"]
    if not wts:
        probs.append((L, "never waits while idle (busy loop)"))
    for n, msg in probs[:1]:
        c.bad(key, loc(n), "worker loop of %s %s" % (fm.worker, msg), "loop")
    if not probs:
        c.ok("loop", key)


# ------------------------------------------------------------------ C02
def c02(c):
    m = c.model
    for fm in m.fams:
        wr, rd = worker_effects(m, fm)
        for f, t in driver_entries(m, fm):
            c.seen(t)
            drive_rule(c, fm, f, t, wr, rd)
    c.need(12, "dispatch")


def worker_effects(m, fm):
    """field names of shared memory a worker writes / reads in any requested phase"""
    wr, rd = set(), set()
    for st in states_requested(m, fm):
        if st == "EXIT":
            continue
        t = m.work(fm, st)
        for n, a in allnodes(t[0]):
            for k in ("lv", "base", "dst", "obj"):
                x = n.get(k)
                if n.kind in ("store", "fill", "copy", "push", "clear", "resize", "free", "assign") and isinstance(x, T) and rootof(x).op not in ("L", "tmp", "new"):
                    ch = fieldchain(x)
                    if ch:
                        wr.add(ch[-1] if ch[-1] not in ("first", "second") else ch[-2])
            if n.kind in ("store", "if", "call", "fill", "copy", "loop"):
                for x in nodeterms(n):
                    for y in terms.walk(x):
                        if y.op in ("ld", "ald"):
                            ch = fieldchain(y)
                            if ch:
                                rd.add(ch[-1])
    ign = {"state", "parent_pending_threads", "curr_task", "cond", "mutex", "ncol", "nrow", "nclust", "k", "nthreads"}
    return wr - ign, rd - ign - {"parent_cond", "parent_mutex"}


def drive_rule(c, fm, f, t, wr, rd):
    key0 = "C02:%s:%s" % (fm.coord, f["n"])
    probs = {}
    nd = [0]

    def enter(n, v):
        if n.q == WAKE:
            nd[0] += 1
            st = show(n.args[0])
            if v != "idle":
                probs.setdefault("overlap:" + st, (n, "phase %s is dispatched while phase %s may still be running" % (st, v)))
            return ["idle" if st == "EXIT" else st]
        if n.q == WAITC:
            return ["idle"]
        if n.name == "wake" and n.cls and WORKER in c.model.db.bases(n.cls):
            st = show(n.args[0]) if n.args else "?"
            if v != "idle":
                probs.setdefault("overlap:" + st, (n, "worker is woken for %s while phase %s may still be running" % (st, v)))
            return [st if st != "EXIT" else "idle"]
        return None

    def leaf(n, v):
        if v == "idle":
            return None
        if n.kind in ("store", "fill", "copy", "push", "clear", "resize", "assign"):
            x = n.get("lv") or n.get("base") or n.get("dst") or n.get("obj")
            if isinstance(x, T) and rootof(x).op not in ("L", "tmp"):
                ch = fieldchain(x)
                if ch and (ch[-1] in wr or ch[-1] in rd):
                    probs.setdefault("write:" + ch[-1], (n, "driver writes %s while workers may still be running phase %s" % (ch[-1], v)))
        for x in nodeterms(n):
            for y in terms.walk(x):
                if y.op in ("ld", "ald"):
                    ch = fieldchain(y)
                    if ch and ch[-1] in wr:
                        probs.setdefault("read:" + ch[-1], (n, "driver reads %s, which workers write in phase %s, before they have reported completion" % (ch[-1], v)))
        return None
    fl = Flow(leaf, enter)

    class _(object):
        pass
    # conditions are read by the driver too
    base = fl.filt

    def filt(cond, pos, S):
        for v in S:
            if v[0] != "idle":
                for y in terms.walk(cond):
                    if y.op in ("ld", "ald"):
                        ch = fieldchain(y)
                        if ch and ch[-1] in wr:
                            probs.setdefault("read:" + ch[-1], (t[0], "driver tests %s, which workers write in phase %s, before they have reported completion" % (ch[-1], v[0])))
        return base(cond, pos, S)
    fl.filt = filt
    ends = fl.core(fl.run(t[0], ["idle"]))
    for v in ends:
        if v != "idle":
            probs.setdefault("return:" + v, (t[0], "returns while phase %s may still be running" % v))
    for k, (n, msg) in sorted(probs.items()):
        c.bad("%s:%s" % (key0, k), loc(n) if n.kind != "enter" or n is not t[0] else f["q"], "%s (driver %s)" % (msg, fm.coord), "dispatch")
    for i in range(nd[0]):
        c.ok("dispatch", key0 if i == 0 else None)


# ------------------------------------------------------------------ C03
def c03(c):
    m = c.model
    db = m.db
    wake4run_rule(c)
    wait4complete_rule(c)
    for fm in m.fams:
        wake_rule(c, fm)
        wait_rule(c, fm)
        handover_rule(c, fm)
        report_rule(c, fm)
        setup_rule(c, fm)
    c.need(8, "wake")
    c.need(8, "report")


def covers_all(loop, coll, iv=None):
    """loop visits every element of coll exactly once: counter from 0 to size, no break"""
    if loop.nbreaks or loop.cond is None:
        return False
    n = mk("size", coll)
    cd = loop.cond
    iv = loop.iv
    for x in terms.walk(cd):
        pass
    tr = trip_of(cd, iv)
    return tr is not None and (tr is mk("ld", n) or tr is n)


def trip_of(cd, iv):
    I = Interp.__new__(Interp)
    return I.trip(cd, iv)


def wake4run_rule(c):
    m = c.model
    fm = m.fams[0]
    for fm in m.fams:
        f = m.db.find_method(fm.coord, "wake4run")
        t = m.tree(f, fm.coord, fm)
        c.seen(t)
        key = "C03:%s:wake4run" % fm.coord
        st = sym("state")
        sets = [(n, a) for n, a in stores(t[0], lambda n: n.atomic and is_pending(n.lv) and n.op == "=")]
        NT = mk("ld", mk("F", THIS, "nthreads"))
        NTS = mk("ld", mk("size", mk("F", THIS, "threads")))
        c.check(len(sets) >= 1 and all(n.val in (NT, NTS) for n, a in sets), "arm", key + ":count", f["q"],
                "the pending count is not set to the number of workers before waking them")
        wk = enters(t[0], lambda n: n.name == "wake" and n.cls and WORKER in m.db.bases(n.cls))
        if not wk:
            c.bad(key + ":wakes", f["q"], "wakes no worker", "wakeall")
            continue
        for n, a in wk:
            loops = [x for x in a if x.kind == "loop"]
            ifs = [x for x in a if x.kind == "if"]
            okl = len(loops) == 1 and covers_all(loops[0], mk("F", THIS, "threads")) and not ifs
            okw = n.obj is not None and loops and n.obj is mk("ld", mk("I", mk("F", THIS, "threads"), loops[0].iv))
            c.check(okl and okw, "wakeall", key + ":all", loc(n), "does not wake every worker exactly once")
            arg = n.args[0] if n.args else None
            p0 = t[0].args[0]
            c.check(arg is p0, "wakeall", key + ":phase", loc(n), "workers are not given the requested phase")
        # order: count is set before the first wake
        order = []

        def leaf(n, v):
            if n.kind == "store" and n.atomic and is_pending(n.lv) and n.op == "=":
                return ["armed"]
            if n.kind == "store" and n.lv.op == "F" and n.lv.a[1] == "state" and v != "armed":
                order.append(n)
            return None
        Flow(leaf).run(t[0], ["no"])
        c.check(not order, "arm", key + ":order", loc(order[0]) if order else "", "a worker can be woken before the pending count is set")


def wait4complete_rule(c):
    m = c.model
    for fm in m.fams[:1]:
        f = m.db.find_method(fm.coord, "wait4complete")
        t = m.tree(f, fm.coord, fm)
        c.seen(t)
        key = "C03:wait4complete"
        ws = [(n, a) for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_cond_wait"]
        if not ws:
            c.bad(key + ":wait", f["q"], "the driver does not block until completion", "waitloop")
            return
        P = mk("ald", mk("F", THIS, "pending_threads"))
        done = terms.eq(P, FALSE)
        for n, a in ws:
            lp = [x for x in a if x.kind == "loop"]
            ok = bool(lp) and implies_pred(lp[-1], done)
            c.check(ok, "waitloop", key + ":predicate", loc(n), "the wait is not repeated until no worker is pending")
            c.check(n.args[0] is mk("F", THIS, "cond") and n.args[1] is mk("F", THIS, "mutex"), "waitloop", key + ":objects", loc(n),
                    "waits on other objects than the ones workers signal")
        # on return the predicate holds: exit only through it
        bad = []

        def leaf(n, v):
            return None

        class F3(Flow):
            def filt(self, cond, pos, S):
                x = cond if pos else terms.not_(cond)
                if x is done or (x.op == "&" and done in x.a) or x is terms.le(P, FALSE):
                    return frozenset(["done"])
                if terms.not_(x) is done or (x.op == "<" and x.a[1] is P):
                    return frozenset(["pending"])
                return S
        fl = F3(leaf, corr=False)
        ends = fl.run(t[0], ["start"])
        c.check(all(v == "done" for v in ends) and ends, "waitloop", key + ":exit", f["q"], "can return while workers are pending")


def implies_pred(lp, done):
    """loop continues exactly while !done"""
    cd = lp.cond if lp.lkind != "do" else lp.latch
    P = [x for x in terms.walk(done) if x.op == "ald"][0]
    alts = (terms.not_(done), terms.lt(FALSE, P))
    if cd is not None and (cd in alts or cd is TRUE and lp.nbreaks):
        return True
    return False


def locks_at(root, init=()):
    """lockset at every event; returns {node: [locksets]}, ends, problems"""
    at, probs = {}, []

    def leaf(n, v):
        at.setdefault(id(n), (n, set()))[1].add(v)
        if n.kind == "call" and n.name == "pthread_mutex_lock":
            l = n.args[0]
            if l in v:
                probs.append(("double", n, v))
            return [v | frozenset([l])]
        if n.kind == "call" and n.name == "pthread_mutex_unlock":
            l = n.args[0]
            if l not in v:
                probs.append(("notheld", n, v))
            return [v - frozenset([l])]
        if n.kind == "call" and n.name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            if n.args[1] not in v:
                probs.append(("waitnolock", n, v))
            return None
        if n.kind == "call" and n.name == "pthread_mutex_destroy" and n.args[0] in v:
            probs.append(("destroyheld", n, v))
        return None

    def guard(cond, pos, v):
        return True

    class F4(Flow):
        def filt(self, cond, pos, S):
            S = Flow.filt(self, cond, pos, S)
            x = cond if pos else terms.not_(cond)
            # trylock succeeded
            cs = x.a if x.op == "&" else [x]
            for y in cs:
                if y.op == "==" and FALSE in y.a:
                    r = [z for z in y.a if z.op == "ret"]
                    if r and len(r[0].a) > 1 and r[0].a[1] == "pthread_mutex_trylock" and r[0] in trylocks:
                        l = trylocks[r[0]]
                        S = frozenset((v[0] | frozenset([l]), v[1]) for v in S)
            return S
    trylocks = {}
    for n, a in allnodes(root):
        if n.kind == "call" and n.name == "pthread_mutex_trylock":
            trylocks[n.ret] = n.args[0]
    f = F4(leaf)
    ends = f.core(f.run(root, [frozenset(init)]))
    thr = [(n, v) for n, S in f.ends["throw"] for v in f.core(S)]
    return at, ends, thr, probs


def wake_rule(c, fm):
    m = c.model
    f = m.db.find_method(fm.worker, "wake")
    t = m.tree(f, fm.worker, fm)
    c.seen(t)
    key = "C03:%s:wake" % fm.worker
    M, C = mk("F", THIS, "mutex"), mk("F", THIS, "cond")
    at, ends, thr, probs = locks_at(t[0])
    arg = t[0].args[0]
    sts = stores(t[0], lambda n: n.lv is mk("F", THIS, "state"))
    c.check(bool(sts) and all(n.val is arg for n, a in sts), "wake", key + ":state", f["q"], "the worker's state is not set to the requested phase")
    for n, a in sts:
        c.check(all(M in ls for ls in at[id(n)][1]), "wake", key + ":lock", loc(n), "the worker's state is written without the lock its wait holds")
    res = []

    def leaf(n, v):
        s, g = v
        if n.kind == "store" and n.lv is mk("F", THIS, "state"):
            return [(True, False)]
        if n.kind == "call" and n.name in ("pthread_cond_signal", "pthread_cond_broadcast") and n.args[0] is C:
            return [(s, s)]
        return None
    fl = Flow(leaf)
    ends = fl.core(fl.run(t[0], [(False, False)]))
    c.check(bool(ends) and all(s and g for s, g in ends), "wake", key + ":signal", f["q"], "a path sets no state or does not signal the worker afterwards")


def handover_rule(c, fm):
    """a worker takes its lock between two phases, so it runs a phase only after the driver has handed it over completely;
    what the driver prepares in wake() is written under that lock or before the state is set"""
    m = c.model
    key = "C03:%s:handover" % fm.worker
    st = m.db.find_method(fm.worker, "start")
    t = m.tree(st, fm.worker, fm)
    cr = [n for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_create"]
    cb = m.db.fn.get(cr[0].args[2].a[0]) if cr and cr[0].args[2].op == "fn" else None
    if cb is None:
        raise AnalysisBroken("thread entry point of %s not found" % fm.worker)
    W = sym("worker")
    I = Interp(m.db, elemcls=m.hints(fm), opaque=lambda f: f["n"] in ("run", "bind2node_id") and f.get("cls") or f["q"].startswith("cxxopts::"))
    root, env, ret = I.entry(cb, args=[W])
    M = mk("F", W, "mutex")
    bad = []

    def leaf(n, v):
        if n.kind == "call" and n.name == "run":
            if not v:
                bad.append(n)
            return [False]
        if n.kind == "call" and n.name == "pthread_mutex_lock" and n.args[0] is M:
            return [True]
        return None
    Flow(leaf, corr=False).run(root, [False])
    for n in bad[:1]:
        c.bad(key, loc(n), "the worker can start a phase without having taken its lock since the last one: it may see a phase whose hand-over is still under way", "handover")
    if not bad:
        c.ok("handover", key)
    f = m.db.find_method(fm.worker, "wake")
    t = m.tree(f, fm.worker, fm)
    TM = mk("F", THIS, "mutex")
    at, ends, thr, probs = locks_at(t[0])
    late = []

    def leaf2(n, v):
        if n.kind == "store" and n.lv is mk("F", THIS, "state"):
            return [True]
        if v and n.kind in ("store", "fill", "copy", "push", "assign", "new", "clear", "erase", "resize"):
            l = n.get("lv") or n.get("base") or n.get("dst") or n.get("obj")
            if l is not None and rootof(l) is THIS and not all(TM in ls for ls in at.get(id(n), (n, [()]))[1]):
                late.append(n)
        return None
    Flow(leaf2).run(t[0], [False])
    for n in late[:1]:
        c.bad(key + ":wake", loc(n), "part of the hand-over is written after the phase is visible to the worker and without its lock", "handover")
    if not late:
        c.ok("handover", key + ":wake")


def wait_rule(c, fm):
    m = c.model
    f = m.db.find_method(fm.worker, "wait")
    t = m.tree(f, fm.worker, fm)
    c.seen(t)
    key = "C03:%s:wait" % fm.worker
    M, C = mk("F", THIS, "mutex"), mk("F", THIS, "cond")
    ws = [(n, a) for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_cond_wait"]
    if not ws:
        c.bad(key, f["q"], "an idle worker does not block", "wait")
        return
    at, ends, thr, probs = locks_at(t[0])
    for n, a in ws:
        lp = [x for x in a if x.kind == "loop"]
        cd = None
        if lp:
            cd = lp[-1].cond if lp[-1].lkind != "do" else lp[-1].latch
        okp = cd is not None and cd.op == "==" and any(x.op == "e" and x.a[0] == "WAIT" for x in cd.a) and any(fieldname(x) == "state" or (x.op in ("mu", "hv") and "state" in fieldchain(x.a[-1] if x.op == "mu" else x.a[0])) for x in cd.a)
        if lp and cd is TRUE and lp[-1].nbreaks:
            okp = any(x.kind == "if" and "state" in repr(x.cond) for x, _ in allnodes(lp[-1]))
        c.check(okp, "wait", key + ":predicate", loc(n), "the wait does not re-test the worker's state in a loop")
        c.check(n.args[0] is C and n.args[1] is M and all(M in ls for ls in at[id(n)][1]), "wait", key + ":lock", loc(n),
                "waits without holding the worker's lock, or on another condition")


def report_rule(c, fm):
    """the completion report: count down and signal under the driver's lock"""
    m = c.model
    seen = set()
    for st in sorted(states_requested(m, fm)):
        if st == "EXIT":
            continue
        t = m.work(fm, st)
        if t[1].dead:
            continue
        at, ends, thr, probs = locks_at(t[0])
        PM = mk("ld", mk("F", THIS, "parent_mutex"))
        own = mk("F", THIS, "mutex")
        nullpm = terms.eq(PM, NULL)
        for n, a in allnodes(t[0]):
            if not completion(n):
                continue
            key = "C03:%s:report" % fm.worker
            # a worker without a driver lock (stand-alone use) is outside the protocol
            lss = [ls for ls in lock_with_guard(t[0], n, nullpm)]
            c.check(lss and all(PM in ls for ls in lss), "report", key + ":lock", loc(n),
                    "the pending count is decremented without holding the lock the driver waits under: the wake-up can be lost")
            c.check(lss and all(own in ls for ls in lss), "report", key + ":ownlock", loc(n),
                    "the worker reports completion without its own lock: the next wake-up can be overwritten")
        # after the count reaches zero the driver is signalled, still under the lock
        sig = [(n, a) for n, a in allnodes(t[0]) if n.kind == "call" and n.name in ("pthread_cond_signal", "pthread_cond_broadcast")
               and n.args[0] is mk("ld", mk("F", THIS, "parent_cond"))]
        key = "C03:%s:signal" % fm.worker
        if any(completion(n) for n, a in allnodes(t[0])):
            good = bool(sig)
            for n, a in sig:
                gs = [x for x in a if x.kind == "if"]
                rel = [g for g in gs if is_pending(g.cond)]
                # either unconditional, or exactly when the count is zero (on the branch taken)
                for g in rel:
                    pos = any(n is x for y in g.then for x, _ in allnodes(y))
                    cd = g.cond if pos else terms.not_(g.cond)
                    z = cd.op == "==" and FALSE in cd.a or cd.op == "<=" and cd.a[1] is FALSE or cd.op == "==" and terms.c(1) in cd.a and any(x.op == "ald" for x in cd.a)
                    good = good and z
                for ls in lock_with_guard(t[0], n, nullpm):
                    good = good and PM in ls
            c.check(good, "report", key, t[0].q, "the last worker to finish does not signal the driver under its lock")


def lock_with_guard(root, target, nullpm):
    out = set()

    def leaf(n, v):
        if n is target:
            out.add(v)
        if n.kind == "call" and n.name == "pthread_mutex_lock":
            return [v | frozenset([n.args[0]])]
        if n.kind == "call" and n.name == "pthread_mutex_unlock":
            return [v - frozenset([n.args[0]])]
        return None

    def guard(cond, pos, v):
        x = cond if pos else terms.not_(cond)
        return not (x is nullpm or (x.op == "&" and nullpm in x.a))
    Flow(leaf, None, None, guard).run(root, [frozenset()])
    return out


def setup_rule(c, fm):
    """before any phase is dispatched every worker is started and given the driver's condition, count and lock"""
    m = c.model
    key = "C03:%s:setup" % fm.coord
    want = {"parent_cond": mk("F", THIS, "cond"), "parent_pending_threads": mk("F", THIS, "pending_threads"), "parent_mutex": mk("F", THIS, "mutex")}
    found = {k: False for k in want}
    started = False
    tr = []
    for ctor in [g for g in m.db.fn.values() if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None]:
        tr.append(m.tree(ctor, fm.coord, fm))
    for nme in ("build_thread_state", "set_global_ptrs", "wake4run"):
        f = m.db.find_method(fm.coord, nme)
        if f is not None:
            tr.append(m.tree(f, fm.coord, fm))
    for t in tr:
        c.seen(t)
        for n, a in allnodes(t[0]):
            if n.kind == "store" and n.lv.op == "F" and n.lv.a[1] in want and n.val is want[n.lv.a[1]]:
                lp = [x for x in a if x.kind == "loop"]
                if lp and all_workers(lp[-1], t):
                    found[n.lv.a[1]] = True
            if n.kind == "store" and n.lv.op == "F" and n.lv.a[1] in want and n.val is not want[n.lv.a[1]] and not isnull(n.val) and n.val.op != "undef":
                c.bad(key + ":" + n.lv.a[1] + ":wrong", loc(n), "worker is given %s instead of the driver's own" % show(n.val)[:60], "setup")
            if n.kind == "call" and n.name == "pthread_create":
                lp = [x for x in a if x.kind == "loop"]
                started = started or bool(lp) and all_workers(lp[-1], t)
    for k in want:
        c.check(found[k], "setup", key + ":" + k, fm.coord, "not every worker is given the driver's %s" % k.replace("parent_", ""))
    c.check(started, "setup", key + ":started", fm.coord, "not every worker's thread is started")


def all_workers(lp, t):
    """the loop goes through all workers, or as often as there are to be workers"""
    THR = mk("F", THIS, "threads")
    if covers_all(lp, THR) or builds(lp):
        return True
    tr = trip_of(lp.cond, lp.iv) if lp.cond is not None and not lp.nbreaks else None
    vals = [n.val for n, a in allnodes(t[0]) if n.kind == "store" and n.lv is mk("F", THIS, "nthreads")]
    return tr is not None and any(tr is v or tr is mk("ld", v) or tr.op == "ld" and tr.a[0] is v for v in vals[-1:])


def builds(lp):
    """loop counting 0..nthreads"""
    tr = trip_of(lp.cond, lp.iv) if lp.cond is not None else None
    return tr is not None and not lp.nbreaks and "nthreads" in (fieldchain(tr) or ("",))[-1]


# ------------------------------------------------------------------ C04
LOCKFN = ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait")


def direct_calls(f, names):
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "call" and x.get("n") in names:
                out.add(x["n"])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(f.get("body"))
    return out


def lockclass(m, t):
    """which kind of lock a term denotes: owner field chain, with the driver's lock identified through its setter"""
    ch = fieldchain(t)
    if not ch:
        return show(t)
    if ch[-1] == "parent_mutex" or t is mk("F", THIS, "mutex") and False:
        return "driver"
    return ".".join(ch[-2:]) if ch[-1] != "mutex" else ("worker" if "threads" in ch else "own")


def c04(c):
    m = c.model
    n = 0
    edges = {}
    fams = {}
    for fm in m.fams:
        for b in m.db.bases(fm.worker):
            fams.setdefault(b, fm)
        for b in m.db.bases(fm.coord):
            fams.setdefault(b, fm)
        fams[fm.worker] = fm
        fams[fm.coord] = fm
    roots = []
    for f in m.db.fn.values():
        if f.get("body") is None:
            continue
        if direct_calls(f, LOCKFN):
            roots.append((f, f.get("cls"), fams.get(f.get("cls")), None))
    cg = callees(m)
    lockers = {f["m"] for f, _, _, _ in roots}
    for fm in m.fams:
        for st in states_requested(m, fm):
            if st != "EXIT":
                roots.append((m.db.find_method(fm.worker, "run"), fm.worker, fm, st))
    for f, cls, fm, st in roots:
        if st is not None:
            t = m.work(fm, st)
        else:
            t = m.tree(f, cls, fm)
        c.seen(t)
        n += 1
        at, ends, thr, probs = locks_at(t[0])
        key = "C04:%s%s" % (f["q"], ":" + st if st else "")
        init = frozenset()
        bad = False
        for kind, nd, v in probs:
            bad = True
            what = {"double": "locks a mutex it already holds", "notheld": "unlocks a mutex it does not hold",
                    "waitnolock": "waits on a condition without holding its mutex", "destroyheld": "destroys a held mutex"}[kind]
            c.bad("%s:%s" % (key, kind), loc(nd), "%s: %s (%s)" % (f["q"], what, show(nd.args[-1])[:60]), "balance")
        for e in ends:
            if e:
                bad = True
                c.bad("%s:leak" % key, f["q"], "a path returns still holding %s" % ", ".join(show(x)[:60] for x in e), "balance")
        for nd, v in thr:
            if v and not inheld(nd, v):
                bad = True
                c.bad("%s:throw" % key, loc(nd), "a path throws still holding %s" % ", ".join(show(x)[:60] for x in v), "balance")
        if not bad:
            c.ok("balance", key)
        # order
        owner = "worker" if cls and WORKER in m.db.bases(cls) else "driver" if cls and COORD in m.db.bases(cls) else (cls or "fn")
        for nid, (nd, lss) in at.items():
            if nd.kind == "call" and nd.name == "pthread_mutex_lock":
                for ls in lss:
                    for h in ls:
                        a, b = lname(h, owner), lname(nd.args[0], owner)
                        edges.setdefault((a, b), nd)
    for (a, b), nd in sorted(edges.items(), key=lambda x: x[0]):
        if a == b:
            c.bad("C04:order:%s:%s" % (a, b), loc(nd), "acquires a second lock of the same kind (%s) while holding one: two workers can deadlock" % a, "order")
        elif (b, a) in edges:
            c.bad("C04:order:%s:%s" % tuple(sorted((a, b))), loc(nd), "locks %s and %s are acquired in both orders" % (a, b), "order")
        else:
            c.ok("order", "C04:order:%s->%s" % (a, b))
    vector_mutexes(c)
    c.need(8, "balance")


def inheld(nd, v):
    return False


def lname(t, owner):
    ch = fieldchain(t)
    if ch and ch[-1] == "parent_mutex":
        return "driver"
    if ch and ch[-1] == "mutex":
        if len(ch) == 1:
            return owner
        return "worker" if "threads" in ch or "workers" in ch else ".".join(ch)
    if t.op == "F" and t.a[1] == "mutex":
        return "worker"
    return ".".join(ch) or show(t)


def vector_mutexes(c):
    pass
