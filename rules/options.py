from terms import *


class Options(object):
    """what the option parser does with the variables it is given: the bound variable takes the option's text when the option is given and keeps its value otherwise"""

    def __init__(self):
        self.bound = []         # (name, location)
        self.names = set()
        self.positional = []

    def text(self, I, e, env, fr):
        v = I.ev(e, env, fr)
        return v.a[0] if isinstance(v, T) and v.op == "str" else None

    def __call__(self, I, e, name, q, obj, env, fr):
        if not q.startswith("cxxopts::"):
            return None
        if name == "value":
            return ("val", mk("optval", I.lv(e["a"][0], env, fr)) if e["a"] else mk("optval"))
        if name == "operator()" and "OptionAdder" in q:
            I.ev(obj, env, fr)
            n = (self.text(I, e["a"][0], env, fr) or "?").split(",")[-1].strip()
            self.names.add(n)
            v = I.ev(e["a"][2], env, fr) if len(e["a"]) > 2 and e["a"][2].get("k") != "defarg" else None
            if v is not None and v.op == "optval" and v.a:
                self.bound.append((n, v.a[0]))
            return ("val", mk("adder"))
        if name == "add_options":
            return ("val", mk("adder"))
        if name == "parse_positional":
            def strs(x):
                if isinstance(x, dict):
                    if x.get("k") == "str":
                        yield x["v"]
                    for y in x.values():
                        yield from strs(y)
                elif isinstance(x, list):
                    for y in x:
                        yield from strs(y)
            self.positional = list(dict.fromkeys(strs(e["a"])))
            return ("val", NULL)
        if name == "parse":
            for n, loc in self.bound:
                old = I.load(env, loc)
                I.do_store(env, loc, phi(mk("call", "given", mk("str", n)), mk("call", "opt", mk("str", n)), old), e, fr, old=old)
            return ("val", NULL)
        if name == "operator[]":
            return ("val", mk("optref", mk("str", self.text(I, e["a"][0], env, fr) or "?")))
        if name == "as":
            v = I.ev(obj, env, fr)
            if v.op == "optref":
                return ("val", mk("call", "opt", v.a[0]))
            return None
        if name == "count":
            return ("val", phi(mk("call", "given", mk("str", self.text(I, e["a"][0], env, fr) or "?")), c(1), c(0)))
        return None


# ------------------------------------------------------------------ C23
import math
import re
import numval
from interp import *
from canon import Closer, allnodes
from rulebase import loc
from model import AnalysisBroken

STOP = object()
SEEN = ("run", "soft_run", "mb_run", "write", "read", "compute_kmeans", "compute_min_kmeans", "kmeansPP", "build_thread_state", "filesize", "is_file_exist", "assert_msg")
CONV = ("atol", "atoi", "atoll", "atof", "stod", "stof", "stoi", "stol", "stoul", "stoull", "strtol", "strtoul", "strtod")
ENV = {"hardware_concurrency": 16, "numa_num_task_nodes": 2, "numa_num_configured_nodes": 2, "max": 4294967295, "min": 0, "omp_get_max_threads": 16, "lowest": 0}
LETTER = {"i": "iters", "l": "tol", "t": "init", "T": "num_thread", "d": "dist", "C": "centersfn", "P": "prune", "N": "nnodes", "o": "outdir"}


def opaque(f):
    return f["q"].startswith("cxxopts::") or f["q"].split("::")[-1] in SEEN


class Setting(object):
    """one way the program is started: which options are given, and what the files are like"""

    def __init__(self, given, sizes, letters=False):
        self.given, self.sizes, self.letters = given, sizes, letters
        self.argv = {}
        if letters:
            for i, n in enumerate(("datafn", "nsamples", "dim", "nclust")):
                self.argv[i + 1] = given[n]
            self.seq = [(ord(l), given[n]) for l, n in LETTER.items() if n in given]


class Start(object):
    """the effects of main under a setting: which happen, on what, with which values"""

    def __init__(self, I, nodes, s):
        self.s, self.ret, self.heap, self.events, self.stop, self.turn, self.slots, self.where = s, {}, {}, [], None, None, [], None
        self.opened, self.unknown, self.room = {}, [], {}
        for n, pc, x in nodes:
            try:
                if not all(numval.num(p, self.atom) for p in pc):
                    continue
            except numval.Unknown as u:
                self.unknown.append((n, str(u)))
                continue
            if n.kind in ("exit", "throw", "terminate") or n.kind == "call" and n.get("noret"):
                self.stop = n
                return
            if n.kind == "assert":
                if self.try_(x["cond"]) in (0, False):
                    self.stop = n
                    return
            if n.kind == "call":
                self.callnode(n, x)
                if self.stop is not None:
                    return
            elif n.kind == "store":
                self.heap[x["lv"]] = (self.value(x["rhs"]) if n.get("op") in ("=", None, "==") else numval.Unknown, n)
            elif n.kind == "alloc" and n.get("arr"):
                self.room[x["obj"]] = self.value(x["n"])
            elif n.kind == "fill" and n.get("fresh") and x["lo"] is c(0):
                self.room[x["base"]] = self.value(x["hi"])
            elif n.kind in ("copy", "assign", "veccopy"):
                self.events.append((n.kind, n, x["dst"], [self.value(x[k]) for k in ("src", "n") if k in x]))
            elif n.kind == "enter" and n.get("name") == "bin_io" and len(n.get("args")) >= 3:
                self.opened[n.get("obj")] = [self.value(a) for a in x["args"][:3]]

    def try_(self, t):
        try:
            return numval.num(t, self.atom)
        except (numval.Unknown, TypeError, ValueError, AttributeError, RecursionError):
            return None

    def value(self, t):
        """a number, a text, or the place a pointer points to"""
        if not isinstance(t, T):
            return t
        v = self.try_(t)
        return t if v is None else v

    def callnode(self, n, x):
        nm, args = n.get("name"), [self.value(a) for a in x["args"]]
        r = n.get("ret")
        if nm == "is_file_exist":
            self.ret[r] = int(args[0] in self.s.sizes)
        elif nm == "filesize":
            self.ret[r] = self.s.sizes.get(args[0], -1)
        elif nm == "fopen":
            self.ret[r] = 1 if args[0] in self.s.sizes else 0
        elif nm == "assert_msg":
            if args[0] in (0, False):
                self.stop = n
        elif nm in ENV and not args:
            self.ret[r] = ENV[nm]
        elif nm == "set_mini_batch_size":
            self.events.append((nm, n, x.get("obj"), args))
        elif nm in SEEN:
            self.events.append((nm, n, x.get("obj"), args))

    def atom(self, t):
        o, a = t.op, t.a
        if o == "str":
            return a[0]
        if o == "e":
            return show(t)
        if o in ("new", "I", "L", "objaddr", "tmp", "F"):
            if o == "I" and a[0].op == "sym" and a[0].a[0] == "argv" or o == "I" and a[0].op == "null":
                return None if a[0].op == "sym" else 0
            return t
        if t in self.ret:
            return self.ret[t]
        if o == "ret":
            nm = str(a[1]) if len(a) > 1 else ""
            if nm == "getopt":
                return self.turn[0] if self.turn else -1
            if nm in ENV:
                return ENV[nm]
            return 0 if nm.startswith("MPI_") else None
        if o == "sym" and a[0] == "argc":
            return 30
        if o == "ld":
            l = a[0]
            if l.op == "I" and l.a[0].op == "sym" and l.a[0].a[0] == "argv":
                return self.s.argv.get(int(numval.num(l.a[1], self.atom)), "")
            if l.op == "G" and l.a[0] == "optarg":
                return self.turn[1] if self.turn else ""
        if o in ("ld", "hv"):
            w = show(t)
            if re.search(r"\bmpi_rank'*$", w):
                return 0
            if re.search(r"\bnprocs'*$", w):
                return 1
        if o == "trunc":
            return int(numval.num(a[0], self.atom))
        if o == "pdiff":
            p, q = [z if isinstance(z, T) and z.op == "I" else mk("I", z, c(0)) if isinstance(z, T) else None for z in (numval.num(a[0], self.atom), numval.num(a[1], self.atom))]
            if p is None or q is None or p.a[0] is not q.a[0]:
                raise numval.Unknown("pointer difference")
            return numval.num(sub(p.a[1], q.a[1]), self.atom)
        if o == "slot":
            return self.slots[-1][a[1]]
        if o == "wfold":
            return self.wfold(t)
        if o == "call":
            f = str(a[0]).split("::")[-1]
            if f == "given":
                return int(a[1].a[0] in self.s.given)
            if f == "opt":
                if a[1].a[0] not in self.s.given:
                    return ""
                return self.s.given[a[1].a[0]]
            if f in ("size", "length", "strlen") and len(a) == 2:
                v = numval.num(a[1], self.atom)
                return len(v) if isinstance(v, str) else None
            if f in CONV:
                v = numval.num(a[1], self.atom)
                if isinstance(v, str):
                    raise numval.Unknown("a number from the text %r" % v)
                return v if f in ("atof", "stod", "stof", "strtod") or isinstance(v, T) else int(v)
            if f in ENV and len(a) == 1:
                return ENV[f]
        return None

    def wfold(self, t):
        """a loop over the options that were given"""
        pairs = [x for x in t.a[3:] if isinstance(x, T)]
        if len(pairs) % 2:
            raise numval.Unknown("loop")
        acc = [numval.num(pairs[i], self.atom) for i in range(0, len(pairs), 2)]
        if any(isinstance(x, T) and x.op == "getopt" for x in pairs):
            raise numval.Unknown("loop")
        saved = self.turn
        todo = list(getattr(self.s, "seq", [])) if self.s.letters else []
        if not any(y.op == "ret" and len(y.a) > 1 and y.a[1] == "getopt" for y in walk(t.a[0])):
            # a loop that counts
            for i in range(4096):
                self.slots.append(acc)
                try:
                    if not numval.num(t.a[0], self.atom):
                        return acc[0]
                    acc = [numval.num(pairs[i], self.atom) for i in range(1, len(pairs), 2)]
                finally:
                    self.slots.pop()
            raise numval.Unknown("loop")
        try:
            for self.turn in todo + [(-1, "")]:
                self.slots.append(acc)
                try:
                    if not numval.num(t.a[0], self.atom):
                        break
                    acc = [numval.num(pairs[i], self.atom) for i in range(1, len(pairs), 2)]
                finally:
                    self.slots.pop()
        finally:
            self.turn = saved
        return acc[0]

    def field(self, obj, name):
        return self.heap.get(mk("F", obj, name), (None, None))


VAL = {"num_thread": 3, "iters": 77, "nnodes": 5, "tol": 0.125, "min_clust_size": 9, "strictness": 3, "fuzzindex": 7, "srate": 0.5, "cov_reg": 0.25, "mb_size": 33, "num_starts": 6}
INIT = {"random": "RANDOM", "forgy": "FORGY", "kmeanspp": "PLUSPLUS", "none": "NONE"}
DIST = {"eucl": "EUCL", "cos": "COS", "taxi": "TAXI", "sqeucl": "SQEUCL"}
FIELD = {"num_thread": "nthreads", "iters": "max_iters", "nnodes": "nnodes", "tol": "tolerance", "min_clust_size": "min_clust_size", "strictness": "strictness",
         "fuzzindex": "fuzzindex", "srate": "sample_rate", "cov_reg": "cov_regularizer", "mb_size": "mb_size"}
COMMON = ["num_thread", "iters", "centersfn", "nnodes", "dist", "tol", "outdir"]
PROGRAM = {
    "knori": ("nclust", COMMON + ["init", "prune", "omp"]),
    "mb_knori": ("nclust", COMMON + ["init", "mb_size"]),
    "knord": ("nclust", COMMON + ["init", "prune"]),
    "skmeans": ("nclust", COMMON),
    "fcm": ("nclust", COMMON + ["fuzzindex"]),
    "gmm": ("nclust", COMMON + ["init", "cov_reg"]),
    "medoids": ("nclust", COMMON + ["srate"]),
    "hmeans": ("kmax", COMMON + ["min_clust_size"]),
    "xmeans": ("kmax", COMMON + ["min_clust_size"]),
    "gmeans": ("kmax", COMMON + ["min_clust_size", "strictness"]),
    "kmeanspp": ("nclust", ["num_thread", "num_starts", "dist", "outdir"]),
}
HIER = ("hmeans", "xmeans", "gmeans")
NROW, NCOL, KK = 1000, 6, 64
CONSTR = {"skmeans": "knor::skmeans_coordinator", "fcm": "knor::fcm_coordinator", "gmm": "knor::gmm_coordinator", "medoids": "knor::medoid_coordinator",
          "hmeans": "knor::hclust_coordinator", "xmeans": "knor::xmeans_coordinator", "gmeans": "knor::gmeans_coordinator", "mb_knori": "knor::prune::kmeans_task_coordinator"}


def cls_of(prog, g):
    if prog == "knori":
        return "knor::kmeans_coordinator" if "prune" in g else "knor::prune::kmeans_task_coordinator"
    if prog == "knord":
        return "knor::dist::dist_coordinator" if "prune" in g else "knor::prune::dist_task_coordinator"
    return CONSTR[prog]


def settings(prog, kname, opts):
    base = {"datafn": "D", "nsamples": NROW, "dim": NCOL, kname: KK}
    sizes = {"D": 8 * NROW * NCOL, "C": 8 * (2 if prog in HIER else KK) * NCOL}
    def val(o):
        return {"centersfn": "C", "outdir": "OUT", "dist": "cos", "init": "random", "prune": 1, "omp": 1}.get(o, VAL.get(o))
    out = [("no option", dict(base), sizes)]
    for o in opts:
        if o == "dist":
            for d in DIST:
                out.append(("metric %s" % d, dict(base, dist=d), sizes))
        elif o == "init":
            for d in INIT:
                if d != "none":
                    out.append(("initialisation %s" % d, dict(base, init=d), sizes))
            out.append(("initialisation none and centres", dict(base, init="none", centersfn="C"), sizes))
            out.append(("initialisation forgy and centres", dict(base, init="forgy", centersfn="C"), sizes))
        else:
            out.append(("option %s" % o, dict(base, **{o: val(o)}), sizes))
    rest = {o: val(o) for o in opts}
    for flags in [()] + [(f,) for f in ("prune", "omp") if f in opts] + ([("prune", "omp")] if "prune" in opts and "omp" in opts else []):
        g = dict(base, **{k: v for k, v in rest.items() if k not in ("prune", "omp") or k in flags})
        out.append(("all options" + "".join(" with " + f for f in flags), g, sizes))
        g2 = {k: v for k, v in g.items() if k not in ("centersfn",)}
        out.append(("all options but centres" + "".join(" with " + f for f in flags), g2, sizes))
    return out, base, sizes


def same(a, b):
    return type(a) is not type and not isinstance(a, T) and a == b


def place(v):
    """the memory a value points to, as a start"""
    if isinstance(v, T) and v.op == "I":
        return v.a[0] if v.a[1] is c(0) else None
    return v if isinstance(v, T) else None


class Prog(object):
    def __init__(self, ctx, prog):
        self.c, self.prog = ctx, prog
        db = ctx.model.db
        self.f = db.main.get("exec-%s.cpp" % prog)
        if self.f is None:
            raise AnalysisBroken("no program %s" % prog)
        self.o = Options()
        KEEP.append(self.o)
        self.t = ctx.model.tree(self.f, None, None, ext=self.o, opaque=opaque)
        cl = Closer(self.t[0])
        self.nodes = []
        for n, anc in allnodes(self.t[0]):
            if any(a.kind == "loop" for a in anc):
                continue
            x = {k: (cl.close(v) if isinstance(v, T) else [cl.close(y) if isinstance(y, T) else y for y in v] if k == "args" else v)
                 for k, v in n.d.items() if k in ("lv", "rhs", "dst", "src", "n", "obj", "args", "cond", "lo", "hi", "base")}
            self.nodes.append((n, [cl.close(p) for p in n.pc], x))
        self.kname, self.opts = PROGRAM[prog]
        self.main = "exec/%s.cpp (main)" % prog

    def start(self, g, sizes):
        return Start(self.t[3], self.nodes, Setting(g, sizes, self.prog == "knord"))

    def key(self, what):
        return "C23:%s:%s" % (self.prog, what)

    def check(self, good, what, how, msg, n=None):
        self.c.check(good, "an option reaches the run", self.key(what), loc(n) if n is not None else self.main, "%s, with %s: %s" % (self.prog, how, msg))

    def run(self):
        if self.prog != "knord":
            for o in self.opts + ["datafn", "nsamples", "dim", self.kname]:
                self.check(o in self.o.names, "accepts:" + o, "any options", "the option %s is not accepted" % o)
            self.check(self.o.positional[:4] == ["datafn", "nsamples", "dim", self.kname], "positional", "four plain arguments",
                       "they are taken as %s instead of data file, rows, columns and clusters" % ", ".join(self.o.positional))
        sets, base, sizes = settings(self.prog, self.kname, self.opts)
        for how, g, sz in sets:
            self.one(how, g, self.start(g, sz))
        # started with something that cannot be right
        bad = [("a data file that is too short", base, dict(sizes, D=8 * NROW * NCOL - 8)), ("a data file that is too long", base, dict(sizes, D=8 * NROW * NCOL + 8)),
               ("a data file of half the size", base, dict(sizes, D=4 * NROW * NCOL)), ("rows and columns that multiply to another size", dict(base, nsamples=NCOL), sizes),
               ("no data file", base, {k: v for k, v in sizes.items() if k != "D"})]
        if "centersfn" in self.opts and self.prog != "knord":
            bad.append(("a centre file that does not exist", dict(base, centersfn="C"), {k: v for k, v in sizes.items() if k != "C"}))
        if self.prog != "kmeanspp":     # there the metric is looked up inside the run
            bad.append(("an unknown metric", dict(base, dist="other"), sizes))
        if "init" in self.opts:
            bad.append(("initialisation none but no centres", dict(base, init="none"), sizes))
            if self.prog != "knord":
                bad.append(("an unknown initialisation", dict(base, init="other"), sizes))
        for i, (how, g, sz) in enumerate(bad):
            r = self.start(g, sz)
            ran = [e for e in r.events if e[0] in ("run", "soft_run", "mb_run", "compute_kmeans", "compute_min_kmeans", "kmeansPP")]
            self.check(r.stop is not None and not ran, "refused:%d" % i, how, "the run is started instead of refused", ran[0][1] if ran else None)

    def one(self, how, g, r):
        if r.stop is not None:
            self.check(False, "starts:" + how, how, "the program ends before the run", r.stop)
            return
        names = ("compute_kmeans", "compute_min_kmeans", "kmeansPP", "run", "soft_run", "mb_run")
        ran = [e for e in r.events if e[0] in names]
        if len(ran) != 1:
            self.check(False, "runs", how, "%d runs are made instead of one" % len(ran), ran[1][1] if ran else None)
            return
        nm, n, obj, args = ran[0]
        at = r.events.index(ran[0])
        self.check(True, "runs", how, "")
        for e in r.events:
            if e[0] == "read" and e[3] and e[2] in r.opened:
                self.fits(r, how, e[3][0], r.opened[e[2]][1:], e[1])
        if nm == "kmeansPP":
            exp = ["D", NROW, NCOL, KK, g.get("num_starts"), g.get("num_thread"), g.get("dist")]
            for i, (w, e) in enumerate(zip(("the data file", "the number of rows", "the number of columns", "the number of clusters", "num_starts", "num_thread", "dist"), exp)):
                if e is not None:
                    self.check(len(args) > i and same(args[i], e), "arg:%s" % w, how, "the run gets %s for %s" % (word(args[i]) if len(args) > i else "nothing", w), n)
        elif nm.startswith("compute"):
            self.check(self.prog == "knori" and "omp" in g and (nm == "compute_kmeans") == ("prune" in g), "engine", how, "the run is made by %s" % nm, n)
            src = self.source(r, at, args[0])
            self.check(src == ["D", NROW, NCOL], "data", how, "the rows of the run are %s" % (word(src)), n)
            for i, need in enumerate(((NROW, NCOL), (KK, NCOL), (NROW,), (KK,))):
                self.fits(r, how, args[i], need, n)
            exp = {4: ("the number of rows", NROW), 5: ("the number of columns", NCOL), 6: ("the number of clusters", KK), 7: ("iters", g.get("iters")), 8: ("num_thread", g.get("num_thread")),
                   9: ("init", "none" if "centersfn" in g else g.get("init")), 10: ("tol", g.get("tol")), 11: ("dist", g.get("dist"))}
            for i, (w, e) in exp.items():
                if e is not None:
                    self.check(len(args) > i and same(args[i], e), "omp:%s" % w, how, "the run gets %s for %s" % (word(args[i]) if len(args) > i else "nothing", w), n)
            if "centersfn" in g:
                src = self.source(r, at, args[1])
                self.check(src == ["C", KK, NCOL], "centres", how, "the centres of the run are %s" % word(src), n)
        else:
            cls = obj.a[2] if isinstance(obj, T) and obj.op == "new" else None
            self.check("omp" not in g and cls == cls_of(self.prog, g) and nm == {"gmm": "soft_run", "mb_knori": "mb_run"}.get(self.prog, "run"), "engine", how, "the run is made by %s::%s" % (cls, nm), n)
            if cls is None:
                return
            self.fields(how, g, r, obj)
            fn = r.field(obj, "fn")[0]
            pos = 0
            given = args[pos] if args and self.prog != "knord" else 0
            if isinstance(given, T):
                src = self.source(r, at, given)
                self.check(src == ["D", NROW, NCOL], "data", how, "the rows of the run are %s" % word(src), n)
            else:
                self.check(same(fn, "D") and given in (0, None), "data", how, "the rows of the run are taken from %s" % word(fn), r.field(obj, "fn")[1])
            if "centersfn" in g and self.prog != "medoids":
                kk = 2 if self.prog in HIER else KK
                got = [(self.source(r, r.events.index(e), e[3][0]), e) for e in r.events if e[0] == "copy" and len(e[3]) == 2 and isinstance(e[3][0], T) and self.source(r, len(r.events), e[3][0])]
                good = [e for s, e in got if s == ["C", kk, NCOL] and same(e[3][1], kk * NCOL)]
                self.check(len(good) >= 1, "centres", how, "the given centres do not all become the first centres of the run" + (" (%s)" % word(got[0][0]) if got else ""), got[0][1][1] if got else n)
        self.saved(how, g, r, at, ran[0])

    def fields(self, how, g, r, obj):
        for nm, e in (("nrow" if self.prog != "knord" else "g_nrow", NROW), ("ncol", NCOL), ("k", KK // 2 if self.prog in HIER else KK)):
            v, n = r.field(obj, nm)
            self.check(same(v, e), "size:" + nm, how, "the run's %s is %s" % ({"nrow": "number of rows", "g_nrow": "number of rows", "ncol": "number of columns", "k": "number of clusters"}[nm], word(v)), n)
        for o in self.opts:
            if o == "dist" and o in g:
                v, n = r.field(obj, "_dist_t")
                self.check(same(v, DIST[g[o]]), "field:dist", how, "the metric %s runs as %s" % (g[o], word(v)), n)
            elif o in FIELD and o in g:
                v, n = r.field(obj, FIELD[o])
                self.check(same(v, g[o]), "field:" + o, how, "the option %s=%s reaches the run as %s" % (o, g[o], word(v)), n)
        want = "NONE" if "centersfn" in g else INIT[g["init"]] if "init" in g else None
        if want:
            v, n = r.field(obj, "_init_t")
            self.check(same(v, want), "field:init", how, "the first centres are chosen as %s instead of %s" % (word(v), want), n)

    def fits(self, r, how, v, need, n):
        """the memory is as large as what is put in it"""
        room = r.room.get(place(v))
        if isinstance(room, (int, float)) and all(isinstance(x, (int, float)) for x in need):
            self.check(room >= math.prod(need), "room", how, "%d numbers are put in room for %d" % (math.prod(need), room), n)

    def source(self, r, upto, v):
        """the file (and shape) that was read into the memory v points to"""
        p = place(v)
        for nm, n, obj, args in reversed(r.events[:upto]):
            if nm == "read" and args and place(args[0]) is not None and place(args[0]) is p:
                return r.opened.get(obj)
        return None

    def saved(self, how, g, r, at, ran):
        w = [e for e in r.events if e[0] == "write"]
        if self.prog == "knord":
            self.check(len(ran[3]) > 1 and same(ran[3][1], g.get("outdir", "")), "saved", how, "the result is saved in %s" % word(ran[3][1] if len(ran[3]) > 1 else None), ran[1])
            return
        if "outdir" not in g:
            self.check(not w, "unsaved", how, "a result is saved although no directory was named", w[0][1] if w else None)
            return
        self.check(len(w) == 1 and r.events.index(w[0]) > at and same(w[0][3][0], "OUT"), "saved", how,
                   "the result is %s" % ("not saved" if not w else "saved in %s" % word(w[0][3][0])), w[0][1] if w else ran[1])
        if w:
            bad = [x for x in self.sources(w[0], r) if not self.isrun(x, ran[1])]
            self.check(not bad, "saved:what", how, "what is saved is not the result of the run", w[0][1])

    def sources(self, w, r):
        """the objects the saved object's parts were last set from"""
        mine, last = base(w[2]), {}
        for k, n, dst, src in r.events[:r.events.index(w)]:
            if k in ("assign", "copy", "veccopy") and isinstance(dst, T) and base(dst) is mine:
                last[dst] = src[0]
        return [base(x) if isinstance(x, T) else x for x in last.values()] or [mine]

    def isrun(self, x, n):
        todo, done = [x], set()
        while todo:
            y = todo.pop()
            if y in done or not isinstance(y, T):
                continue
            done.add(y)
            if y is n.get("ret") or y.op in ("tmp", "ret") and y.a[0] is n.get("ret").a[0]:
                return True
            todo += [base(s) for d, s in self.t[3].copylog if base(d) is y and isinstance(s, T)]
        return False


def base(t):
    while isinstance(t, T) and t.op in ("F", "I"):
        t = t.a[0]
    return t


KEEP = []


def word(v):
    if v is None or isinstance(v, type):
        return "nothing"
    if isinstance(v, list):
        return "%s with %s x %s numbers" % tuple(word(x) for x in v)
    if isinstance(v, T):
        return show(v)[:120]
    return repr(v)


def c23(ctx):
    for prog in PROGRAM:
        Prog(ctx, prog).run()
    ctx.need(400, "an option reaches the run")
