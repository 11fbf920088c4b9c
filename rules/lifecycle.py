"""The life of a worker's hardware thread: started once, told to exit, joined once before what it uses goes away."""
from rows import *
from flow import Flow
import terms
import protocol
from protocol import covers_all

DESTROY = ("pthread_mutex_destroy", "pthread_cond_destroy")


def c17(cx):
    m = cx.model
    done = set()
    for fm in m.fams:
        if fm.worker not in done:
            done.add(fm.worker)
            started(cx, fm)
            protocol.loop_rule(cx, fm)
            leaves(cx, fm)
            protocol.wake_rule(cx, fm)
            protocol.wait_rule(cx, fm)
            joined(cx, fm)
        built(cx, fm)
        told(cx, fm)
    marks(cx)
    cx.need(8, "started")
    cx.need(8, "joined before its lock goes")
    cx.need(8, "told to exit")


def started(cx, fm):
    m = cx.model
    f = m.db.find_method(fm.worker, "start")
    t = m.tree(f, fm.worker, fm)
    cx.seen(t)
    key = "C17:%s:start" % fm.worker
    ns = [(n, a) for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_create"]
    H = mk("F", THIS, "hw_thd")
    for n, a in ns:
        cx.check(n.args[0] is H, "handle kept", key + ":handle", loc(n), "the thread's handle is not kept where the join looks for it but in %s" % show(n.args[0])[:80])
        cx.check(isnull(n.args[1]), "joinable", key + ":attr", loc(n), "the thread is created with attributes of its own (%s), it may not be joinable" % show(n.args[1])[:60])
    rets = {n.ret for n, a in ns}

    def leaf(n, v):
        if n.kind == "call" and n.name == "pthread_create":
            return [min(v + 1, 2)]
        if n.kind == "call" and n.name == "pthread_detach":
            return [3]
        return None
    fl = Flow(leaf)
    ends = set(fl.core(fl.run(t[0], [0])))
    cx.check(ends == {1}, "started", key + ":once", f["q"], "starting a worker creates %s hardware threads" % sorted(ends))
    for n, a in allnodes(t[0]):
        if n.kind == "store" and n.lv is H:
            cx.bad(key + ":lost", loc(n), "the thread's handle is overwritten", "handle kept")
    # a thread that could not be created is not taken for a running one
    ok = all(any(x.kind == "if" and any(y in rets for y in walk(x.cond)) and any(z.kind == "throw" for z, _ in allnodes(x)) for x, _ in allnodes(t[0])) for n, a in ns)
    cx.check(ok, "failure reported", key + ":fail", f["q"], "a worker whose thread could not be created is taken for a running one")


def leaves(cx, fm):
    """after it was told to exit a worker touches nothing any more"""
    m = cx.model
    st = m.db.find_method(fm.worker, "start")
    t = m.tree(st, fm.worker, fm)
    cr = [n for n, a in allnodes(t[0]) if n.kind == "call" and n.name == "pthread_create" and n.args[2].op == "fn"]
    for c in cr[:1]:
        cb = m.db.fn.get(c.args[2].a[0])
        W = sym("worker")
        I = Interp(m.db, elemcls=m.hints(fm), opaque=lambda f: f["n"] in ("run", "bind2node_id") and f.get("cls") or f["q"].startswith("cxxopts::"))
        root, env, ret = I.entry(cb, args=[W])
        bad = []

        def guard(cond, pos, v):
            for x in (cond.a if cond.op == "&" and pos else [cond]):
                p = pos
                if x.op == "!":
                    x, p = x.a[0], not p
                if x.op == "==" and p and any(y.op == "e" and y.a[0] == "EXIT" for y in x.a):
                    v = "exit"
            return v

        def leaf(n, v):
            if v == "exit" and (n.kind == "call" and n.name not in ("pthread_exit", "pthread_mutex_lock", "pthread_mutex_unlock") or n.kind in ("store", "free", "push") and not n.d.get("local")):
                bad.append(n)
            return None

        class F2(Flow):
            def filt(self, cond, pos, S):
                return frozenset(guard(cond, pos, v) for v in S)
        F2(leaf, corr=False).run(root, ["run"])
        cx.check(not bad, "leaves at once", "C17:%s:leaves" % fm.worker, loc(bad[0]) if bad else cb["q"], "a worker told to exit still does something else: %s" % (bad[0].d.get("name") or bad[0].kind if bad else ""))


def built(cx, fm):
    """every worker that is kept is started exactly once"""
    m = cx.model
    key = "C17:%s" % fm.coord
    THR = mk("F", THIS, "threads")
    life = []
    for g in m.db.fn.values():
        if g.get("ctor") and g.get("cls") == fm.coord and g.get("body") is not None and len(g["params"]) > 1:
            life.append(("ctor", g, m.tree(g, fm.coord, fm)))
    for meth in ("run", "mb_run"):
        f = m.db.find_method(fm.coord, meth)
        if f is not None and f.get("body") is not None and (meth == "run" or fm.name == "kmeans_task"):
            life.append((meth, f, m.drive(fm, meth)))
    counts = {}
    for what, f, t in life:
        cx.seen(t)
        for n, a in allnodes(t[0]):
            if n.kind != "call" or n.name != "pthread_create":
                continue
            counts.setdefault(what, []).append(n)
            lp = [x for x in a if x.kind == "loop"]
            ok = len(lp) == 1 and not [x for x in a if x.kind == "if" and any(y is x for y, _ in allnodes(lp[0]))]
            cx.check(ok, "each is started", key + ":each", loc(n), "not every worker that is built is started exactly once")
            if ok:
                ok2 = protocol.all_workers(lp[0], t)
                cx.check(ok2, "each is started", key + ":all", loc(n), "not every worker that is built is started")
                own = [x for x in walk(n.args[0]) if x.op == "I" and fieldname(x.a[0]) == "threads"]
                cx.check(bool(own) and all(x.a[1] is lp[0].iv for x in own) or n.args[0].a[0].op in ("new", "objaddr", "ret"), "each is started", key + ":which", loc(n), "the worker that is started is not the one just built")
        ps = [(n, a) for n, a in allnodes(t[0]) if n.kind == "push" and n.obj is THR]
        for n, a in ps:
            lp = [x for x in a if x.kind == "loop"]
            cx.check(len(lp) == 1 and protocol.all_workers(lp[0], t), "each is started", key + ":kept", loc(n), "workers are not built one per worker number")
        if what in ("run", "mb_run") and counts.get(what) and counts.get("ctor"):
            cx.bad(key + ":again", loc(counts[what][0]), "workers started by the constructor are started again by %s" % what, "each is started")
        cx.check(len(counts.get(what, ())) <= 1, "each is started", key + ":twice:" + what, loc(counts[what][0]) if counts.get(what) else f["q"], "workers are started in %d places" % len(counts.get(what, ())))
    cx.check(bool(counts), "each is started", key + ":none", fm.coord, "no worker is ever started")


def dtors(m, cls):
    """the destructor bodies that run when an object of the class goes away, in order"""
    out = []
    for b in m.db.bases(cls):
        n = b.split("<")[0].split("::")[-1]
        for f in m.db.byq.get(b + "::~" + n, ()):
            if f.get("body") is not None:
                out.append((b, f))
                break
    return out


def told(cx, fm):
    m = cx.model
    key = "C17:%s:exit" % fm.coord
    THR = mk("F", THIS, "threads")
    state = [frozenset(["no"])]
    S = ["no"]
    early = []
    where = fm.coord
    for b, f in dtors(m, fm.coord):
        t = m.tree(f, fm.coord if b in m.db.bases(fm.coord) else b, fm)
        cx.seen(t)
        where = f["q"]
        good = set()
        for n, a in allnodes(t[0]):
            if n.kind == "enter" and n.d.get("name") == "wake" and n.args and n.args[0].op == "e" and n.args[0].a[0] == "EXIT":
                lp = [x for x in a if x.kind == "loop"]
                ifs = [x for x in a if x.kind == "if" and lp and any(y is x for y, _ in allnodes(lp[0]))]
                if len(lp) == 1 and covers_all(lp[0], THR) and not ifs and n.obj is not None and n.obj is mk("ld", mk("I", THR, lp[0].iv)):
                    good.add(id(lp[0]))

        class F2(Flow):
            def node(self, nd, S):
                if nd.kind == "loop" and id(nd) in good:
                    return frozenset(["yes"])
                return Flow.node(self, nd, S)

        def leaf(n, v):
            if v == "no" and n.kind in ("clear", "resize", "erase", "pop", "assign", "free") and any(x is THR for t2 in terms_of(n) for x in walk(t2)) and not any(x.op == "F" and x.a[1] != "threads" and terms.contains(x, THR) for t2 in terms_of(n) for x in walk(t2)):
                early.append(n)
            return None
        fl = F2(leaf, corr=False)
        S = list(set(fl.run(t[0], S)))
    cx.check(S and set(S) == {"yes"}, "told to exit", key, where, "a path through the destruction of %s does not tell every worker to exit (its join then never ends)" % fm.coord)
    cx.check(not early, "told before dropped", key + ":dropped", loc(early[0]) if early else where, "workers are dropped before they are told to exit")


def idtest(x):
    """+1: says the worker's number is the invalid one, -1: says it is not"""
    s = 1
    if x.op == "!":
        x, s = x.a[0], -1
    if x.op == "==" and any(terms.is_c(y) and y.a[0] in (-1, 2**32 - 1) for y in x.a) and any(fieldname(y) == "thd_id" for y in x.a):
        return s
    if x.op == "<" and fieldname(x.a[0]) == "thd_id" and x.a[1] is c(0):
        return s
    return 0


def joined(cx, fm):
    m = cx.model
    key = "C17:%s:join" % fm.worker
    H = mk("F", THIS, "hw_thd")
    MINE = (mk("F", THIS, "mutex"), mk("F", THIS, "cond"))
    S = [("valid", False)]
    bad = {}
    where = fm.worker
    for b, f in dtors(m, fm.worker):
        t = m.tree(f, b, fm)
        cx.seen(t)
        where = f["q"]

        class F2(Flow):
            def filt(self, cond, pos, S):
                out = set()
                for v in S:
                    for x in (cond.a if cond.op == "&" and pos else [terms.not_(y) for y in cond.a] if cond.op == "|" and not pos else [cond if pos else terms.not_(cond)]):
                        k = idtest(x)
                        if k == 1 and v[0] == "valid":
                            v = ("never", v[1])
                        elif k == 1 and v[0] == "known" or k == -1 and v[0] in ("never", "joined"):
                            v = None
                            break
                        elif k == -1 and v[0] == "valid":
                            v = ("known", v[1])
                    if v is not None:
                        out.add(v)
                return frozenset(out)

        def leaf(n, v):
            if n.kind == "call" and n.name == "pthread_join":
                if strip_ld(n.args[0]) is not H:
                    bad.setdefault("other", (n, "joins %s instead of the worker's thread" % show(n.args[0])[:60]))
                if v[1]:
                    bad.setdefault("late", (n, "joins the thread only after what it uses was destroyed"))
                if v[0] == "joined":
                    bad.setdefault("twice", (n, "joins the thread a second time"))
                if v[0] == "never":
                    bad.setdefault("never", (n, "joins a thread that was never started"))
                return [("joined", v[1])]
            if n.kind == "call" and n.name == "pthread_detach":
                bad.setdefault("detach", (n, "lets go of the thread without waiting for it"))
            if n.kind == "call" and n.name in DESTROY and n.args[0] in MINE:
                if v[0] in ("valid", "known"):
                    bad.setdefault("early", (n, "destroys what the hardware thread waits on before the thread was joined"))
                return [(v[0], True)]
            return None
        fl = F2(leaf, corr=False)
        S = list(set(fl.run(t[0], S)))
    if any(v[0] in ("valid", "known") for v in S):
        bad.setdefault("not", (None, "can go away without its hardware thread having been joined"))
    for k, (n, msg) in bad.items():
        cx.bad("%s:%s" % (key, k), loc(n) if n is not None else where, "the destruction of %s %s" % (fm.worker, msg), "joined before its lock goes")
    if not bad:
        cx.ok("joined before its lock goes", key)


def strip_ld(x):
    while x.op in ("ld", "mu"):
        x = x.a[-1] if x.op == "mu" else x.a[0]
    return x


def assigns(x, name):
    if isinstance(x, dict):
        if x.get("k") in ("asg", "bin", "assign") and x.get("op") == "=" and isinstance(x.get("a"), (dict, list)):
            l = x["a"][0] if isinstance(x["a"], list) else x["a"]
            if isinstance(l, dict) and l.get("k") == "mem" and l.get("n") == name:
                return True
        return any(assigns(v, name) for v in x.values() if isinstance(v, (dict, list)))
    return isinstance(x, list) and any(assigns(v, name) for v in x)


def marks(cx):
    """the number that says there is a thread to join is only taken back by the join"""
    m = cx.model
    D = mk("F", THIS, "thd_id")
    for f in list(m.db.fn.values()):
        q = f.get("cls")
        if not q or protocol.WORKER not in m.db.bases(q) or f.get("body") is None:
            continue
        if "thd_id" not in repr(f["body"]) and "thd_id" not in repr(f.get("inits")):
            continue
        try:
            t = m.tree(f, q)
        except AnalysisBroken:
            continue
        if not any(n.kind == "store" and n.lv is D for n, a in allnodes(t[0])):
            continue
        cx.seen(t)
        bad = []

        def leaf(n, v):
            if n.kind == "call" and n.name == "pthread_join":
                return [True]
            if n.kind == "store" and n.lv is D and not v and not n.d.get("init"):
                if terms.is_c(n.val):
                    bad.append(n)
            return None
        Flow(leaf, corr=False).run(t[0], [False])
        cx.check(not bad, "mark", "C17:%s:mark" % f["q"], loc(bad[0]) if bad else f["q"], "the worker is marked as having no thread although it was not joined")
