"""Value-numbering abstract interpreter over the resolved AST.

From an entry function it produces an *effect tree*: helper calls are inlined (virtual calls resolved by the
dynamic class), locals are replaced by the values they hold (terms.py), branches are merged with gated phis and
loops are summarised by induction variables (iv) and loop-carried symbols (mu).  No path is enumerated and
nothing is executed or handed to a solver.  Rules are queries on effect trees.
"""
import re, sys
from terms import *
import terms
from db import AnalysisBroken

sys.setrecursionlimit(20000)

SCALAR_STD = ("std::shared_ptr<", "std::__shared_ptr", "std::unique_ptr<", "std::basic_string<", "__gnu_cxx::__normal_iterator",
              "std::_Bit_iterator", "std::_Bit_const_iterator", "std::_Bit_reference", "std::atomic<", "std::reverse_iterator",
              "std::__atomic_base", "std::nullptr_t", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
              "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::memory_order", "std::_Ios_Openmode",
              "std::__detail::_Node_iterator_base", "std::thread::id")
VEC = ("std::vector<", "std::array<", "std::valarray<", "std::deque<")
MAPS = ("std::unordered_map<", "std::map<", "std::unordered_set<", "std::set<")


def strip(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith("&&"):
            t = t[:-2].strip()
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.endswith(" const"):
            t = t[:-6].strip()
        else:
            return t


def isref(t):
    return t.rstrip().endswith("&")


def isptr(t):
    t = strip(t)
    return t.endswith("*") or t.endswith("*const") or t.endswith("]") or t.startswith("__gnu_cxx::__normal_iterator") or t.startswith("std::_Bit_")


def isfloat(t):
    return strip(t) in ("double", "float", "long double")


def isint(t):
    t = strip(t)
    return bool(re.match(r"^(unsigned |signed )?(int|long|short|char|long long|unsigned|bool)( int| long)?$", t)) or t == "__int128"


OWN = mk("own")
INT32 = ("unsigned int", "int", "unsigned", "short", "unsigned short")


_atom = {}


def has_atomic(t):
    r = _atom.get(t)
    if r is None:
        r = _atom[t] = any(x.op == "ald" for x in walk(t) if isinstance(x, T))
    return r


class Node(object):
    __slots__ = ("kind", "loc", "pc", "d", "fn")

    def __init__(self, kind, loc, pc, **d):
        self.kind, self.loc, self.pc, self.d = kind, loc, pc, d
        self.fn = None

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, dv=None):
        return self.d.get(k, dv)

    def bodies(self):
        if self.kind == "if":
            return [self.d["then"], self.d["els"]]
        if self.kind in ("enter", "loop", "omp", "try", "switch"):
            return [self.d["body"]] + ([h for h in self.d["handlers"]] if self.kind == "try" else [])
        return []

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.loc, {k: v for k, v in self.d.items() if k not in ("body", "then", "els", "handlers", "fnrec", "mods")})


class Env(object):
    __slots__ = ("m", "pc", "copies", "locals", "dead", "dyn", "fills")

    def __init__(self):
        self.m, self.pc, self.copies, self.locals, self.dead, self.dyn, self.fills = {}, (), {}, set(), False, {}, {}

    def copy(self):
        e = Env()
        e.m, e.pc, e.copies, e.locals, e.dead, e.dyn = dict(self.m), self.pc, dict(self.copies), set(self.locals), self.dead, dict(self.dyn)
        e.fills = dict(self.fills)
        return e

    def become(self, o):
        self.m, self.pc, self.copies, self.locals, self.dead, self.dyn, self.fills = o.m, o.pc, o.copies, o.locals, o.dead, o.dyn, o.fills


def stub(f):
    """a function that only says it is not implemented"""
    b = (f or {}).get("body")
    while isinstance(b, dict) and b.get("k") == "seq" and len(b.get("b", ())) == 1:
        b = b["b"][0]
    if isinstance(b, dict) and b.get("k") == "expr":
        b = b.get("e")
    return isinstance(b, dict) and b.get("k") == "throw"


def declared(s):
    """ids of the variables declared inside a statement"""
    out, todo = set(), [s]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if "id" in x and "n" in x and "t" in x and x.get("k") not in ("var",):
                out.add(x["id"])
            todo += x.values()
        elif isinstance(x, list):
            todo += x
    return out


class Frame(object):
    def __init__(self, fid, fn, lex=None):
        self.id, self.fn, self.lex = fid, fn, lex
        self.vars = {}
        self.this = None
        self.thiscls = None
        self.returns = []
        self.loops = []   # stack of dict(brk=[], cont=[])
        self.unit = fn.get("unit")
        self.pcbase = 0

    def lookup(self, vid):
        f = self
        while f is not None:
            if vid in f.vars:
                return f.vars[vid]
            f = f.lex
        return None


PURE = set("""sqrt log log2 log10 exp pow fabs abs floor ceil sin cos acos isnan isinf fmin fmax strcmp strlen atoi atol atof getenv
omp_get_thread_num omp_get_num_threads omp_get_max_threads omp_get_num_procs numa_num_task_nodes numa_num_configured_nodes feof ferror
upper_bound lower_bound accumulate min max min_element max_element distance get numeric_limits max_size stod stoi stoul to_string
get_num_nodes find count equal sysconf numa_max_node numa_available""".split())
IO = set("""printf fprintf puts putchar perror fflush print_usage operator<< endl vprintf sleep usleep gettimeofday ProfilerStart ProfilerStop clock""".split())
LOCKISH = ("pthread_",)
MPI = {"MPI_Allreduce": "src dst n t op _", "MPI_Reduce": "src dst n t op peer _", "MPI_Allgather": "src n t dst n2 t2 _", "MPI_Gather": "src n t dst n2 t2 peer _",
       "MPI_Bcast": "dst n t peer _", "MPI_Send": "src n t peer tag _", "MPI_Ssend": "src n t peer tag _", "MPI_Recv": "dst n t peer tag _ _", "MPI_Barrier": "_",
       "MPI_Allgatherv": "src n t dst n2 displ t2 _", "MPI_Gatherv": "src n t dst n2 displ t2 peer _", "MPI_Scan": "src dst n t op _", "MPI_Exscan": "src dst n t op _"}


class Interp(object):
    def __init__(self, db, **opts):
        self.db = db
        self.opts = opts
        self.maxdepth = opts.get("maxdepth", 60)
        self.opaque = opts.get("opaque", lambda f: f["q"].startswith("cxxopts::"))
        self.elemcls = opts.get("elemcls", {})     # static class -> dynamic class for otherwise unknown receivers
        self.nid = {}
        self.stack = []
        self.out = []
        self.rec = True
        self.warn = []
        self.inlined = {}
        self.nodes_seen = 0
        self.narrow = []        # products computed or kept in 32 bits: (value, how, location, function)
        self.rtypes = {}
        self.pure = opts.get("pure", lambda f: False)   # functions kept as uninterpreted pure terms
        self.known = {}
        self.copylog = []               # (object, object it was made from)
        self.ext = opts.get("ext")      # a rule's own meaning for calls of third-party code
        self.intlocs = set()
        self.loopseed = {}
        self.wire = {}

    # ------------------------------------------------------------ utilities
    def node_id(self, n):
        k = id(n)
        v = self.nid.get(k)
        if v is None:
            v = self.nid[k] = (len(self.nid) + 1, n)
        return v[0]

    def site(self, fr, n):
        return mk("site", fr.id, self.node_id(n))

    def emit(self, env, kind, node_, **d):
        nd = Node(kind, (node_ or {}).get("l", "") if isinstance(node_, dict) else (node_ or ""), env.pc, **d)
        nd.fn = self.stack[-1].fn["q"] if self.stack else None
        self.out.append(nd)
        return nd

    def is_class(self, t):
        t = strip(t)
        if t.endswith("*") or t.endswith("]") or t.startswith("("):
            return False
        if t.startswith(SCALAR_STD):
            return False
        if t in self.db.cls:
            return True
        if t.startswith(("std::", "__gnu_cxx::", "timeval", "bitmask", "cxxopts::", "metaunion")) and not isint(t) and "::size_type" not in t:
            return t not in ("std::size_t",)
        if t in ("timeval", "pthread_mutexattr_t", "pthread_mutex_t", "pthread_cond_t", "ompi_status_public_t", "MPI_Status"):
            return True
        return False

    # ------------------------------------------------------------ memory
    def default(self, env, loc):
        par = None
        if loc.op in ("I", "F"):
            ver = env.m.get(mk("V", loc.a[0]))
            if ver is not None and ver is not terms.FALSE:
                return mk("ld", loc, ver)
        return mk("ld", loc)

    def nonew(self, loc):
        n = 0
        while loc.op in ("F", "I", "size", "V"):
            loc = loc.a[0]
            n += 1
        return n

    def load(self, env, loc, depth=0):
        if loc.op == "phi":
            return phi(loc.a[0], self.load(env, loc.a[1], depth), self.load(env, loc.a[2], depth))
        if loc.op in ("null",):
            return mk("ld", loc)
        v = env.m.get(loc)
        if v is not None:
            return v
        if self.wire and loc.op == "F" and loc.a[1] in self.wire:
            x = loc.a[0]
            while x.op in ("ld", "ald", "I", "hv"):
                x = x.a[0]
                if x.op == "F" and x.a[1] == "threads":
                    return self.load(env, self.wire[loc.a[1]].a[0], depth + 1)
        r = self.through_copy(env, loc)
        if r is not None:
            if r.op == "ld":
                return r
            if depth > 12 or self.nonew(r) > 24:
                return self.default(env, loc)
            return self.load(env, r, depth + 1)
        if loc.op == "I" and loc.a[0] in env.fills:
            return env.fills[loc.a[0]]
        return self.default(env, loc)

    def through_copy(self, env, loc):
        """loc below a copied object -> the source path"""
        if not env.copies:
            return None
        path, x = [], loc
        while x.op in ("F", "I", "size"):
            path.append(x)
            x = x.a[0]
            if x in env.copies:
                src = env.copies[x]
                if src is OWN:
                    return None
                ver = None
                if src.op == "snap":
                    src, ver = src.a
                for p in reversed(path):
                    src = self.rebase(p, src)
                if ver is not None:
                    return mk("ld", src, ver) if ver is not FALSE else mk("ld", src)
                return src
        return None

    def snap_elems(self, env, base):
        """the elements of `base` are about to change: objects copied from it keep the values they were copied with"""
        for D, S in list(env.copies.items()):
            if S.op in ("own", "snap", "phi") or not self.under(base, S) or self.under(base, D):
                continue
            E = self.reroot(base, S, D)
            if E is not D and (E in env.copies or mk("V", E) in env.m or E in env.fills):
                continue
            for k in [k for k in env.m if k.op != "V" and self.under(k, base) and k is not base]:
                env.m.setdefault(self.reroot(k, base, E), env.m[k])
            sz = mk("size", E)
            if sz not in env.m:
                env.m[sz] = self.load(env, mk("size", base))
            if base in env.fills:
                env.fills[E] = env.fills[base]
                env.copies[E] = OWN
                continue
            r = self.through_copy(env, mk("I", base, c(0)))
            if r is not None and r.op == "I":
                env.copies[E] = r.a[0]
            elif r is not None:
                env.copies[E] = mk("snap", r.a[0].a[0], r.a[1] if len(r.a) > 1 else FALSE)
            else:
                env.copies[E] = mk("snap", base, env.m.get(mk("V", base), FALSE))

    def snap_scalar(self, env, loc):
        for D, S in list(env.copies.items()):
            if S.op in ("own", "snap", "phi") or loc is S or not self.under(loc, S) or self.under(loc, D):
                continue
            E = self.reroot(loc, S, D)
            if E not in env.m:
                env.m[E] = self.load(env, E)

    def own(self, env, base):
        """elements of a copied object are modified one by one: it stops mirroring its source"""
        if env.copies and self.through_copy(env, mk("I", base, c(0))) is not None:
            sz = mk("size", base)
            if sz not in env.m:
                env.m[sz] = self.load(env, sz)
            env.copies[base] = OWN

    def rebase(self, p, base):
        return mk(p.op, base, *p.a[1:])

    def kill_elems(self, env, base, keep=None):
        for k in [k for k in env.m if k.op == "I" and k.a[0] is base]:
            if keep is not None and k is not keep and is_c(k.a[1]) and is_c(keep.a[1]):
                continue
            if k is not keep:
                # also nested paths
                del env.m[k]
        env.fills.pop(base, None)

    def store(self, env, loc, v, site):
        if loc.op == "phi":
            for x in (loc.a[1], loc.a[2]):
                env.m[x] = phi(loc.a[0] if x is loc.a[1] else not_(loc.a[0]), v, self.load(env, x))
            return
        if loc.op == "I":
            if env.copies:
                self.snap_elems(env, loc.a[0])
                self.own(env, loc.a[0])
            self.kill_elems(env, loc.a[0], loc)
            env.m[mk("V", loc.a[0])] = mk("w", site)
        elif env.copies:
            self.snap_scalar(env, loc)
        env.m[loc] = v

    def under(self, loc, root):
        x = loc
        while True:
            if x is root:
                return True
            if x.op in ("F", "I", "size", "V"):
                x = x.a[0]
            else:
                return False

    def havoc(self, env, root, site):
        if not isinstance(root, T) or root.op in ("c", "null", "str", "e"):
            return
        if root.op == "phi":
            self.havoc(env, root.a[1], site)
            self.havoc(env, root.a[2], site)
            return
        base = root
        if root.op == "I":
            base = root.a[0]
        if env.copies:
            self.snap_elems(env, base)
            if root.op == "I":
                self.own(env, base)
        sz = mk("size", base)
        nsz = env.m.get(sz) if root.op == "I" else None
        for k in [k for k in env.m if k.op != "V" and self.under(k, base) and (root.op == "I" or k is not root or True)]:
            if k is base and root.op == "I":
                continue
            del env.m[k]
        env.fills.pop(base, None)
        if root.op != "I":
            env.copies.pop(base, None)
            env.m[sz] = mk("hv", sz, site)
        elif nsz is not None:
            env.m[sz] = nsz
        env.m[mk("V", base)] = mk("w", site)
        if root.op in ("L", "F", "G") :
            env.m[root] = mk("hv", root, site)

    def ptradd(self, p, i):
        if p.op == "phi":
            return phi(p.a[0], self.ptradd(p.a[1], i), self.ptradd(p.a[2], i))
        if p.op == "I":
            return mk("I", p.a[0], add(p.a[1], i))
        if i is FALSE:
            return p
        return mk("I", p, i)

    def elem(self, p, i):
        """p[i] for raw pointers"""
        if p.op == "phi":
            return phi(p.a[0], self.elem(p.a[1], i), self.elem(p.a[2], i))
        if p.op == "I":
            return mk("I", p.a[0], add(p.a[1], i))
        return mk("I", p, i)

    def deref(self, p, t=None):
        return p if p.op != "phi" else p

    def fieldloc(self, base, f):
        if base.op == "phi" and base.a[1].op != "null" and base.a[2].op != "null":
            return phi(base.a[0], self.fieldloc(base.a[1], f), self.fieldloc(base.a[2], f))
        return mk("F", base, f)

    def size(self, env, v):
        v2 = mk("size", v)
        return self.load(env, v2)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isbool(v) or (v.op == "c"):
            return v if v.op != "c" else terms.c(bool(v.a[0]))
        if v.op in ("new", "tmp", "objaddr", "str"):
            return TRUE
        if v.op == "null":
            return FALSE
        if v.op == "phi":
            return phi(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
        return v

    def cond(self, e, env, fr):
        v = self.ev(e, env, fr)
        return self.decide(env, self.truth(v))

    def decide(self, env, v):
        if v.op == "c":
            return v
        facts = set()
        for p in env.pc:
            # what an atomic load once returned says nothing about the next load
            for x in (p.a if p.op == "&" else (p,)):
                if not has_atomic(x):
                    facts.add(x)
            if p.op == "&" and not has_atomic(p):
                facts.add(p)
        return self.simp(v, facts)

    def simp(self, v, facts):
        if v in facts:
            return TRUE
        if not_(v) in facts:
            return FALSE
        if v.op == "==":
            a, b = v.a
            for f in facts:
                if f.op == "==":
                    for x, y in ((a, b), (b, a)):
                        for p, q in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                            if x is p and y.op in ("c", "e", "str", "null") and q.op in ("c", "e", "str", "null"):
                                return TRUE if y is q else FALSE
        if v.op == "&":
            return and_(*[self.simp(x, facts) for x in v.a])
        if v.op == "|":
            return or_(*[self.simp(x, facts) for x in v.a])
        if v.op == "phi":
            g = self.simp(v.a[0], facts)
            return phi(g, v.a[1], v.a[2])
        return v

    def lv(self, e, env, fr):
        """location of an lvalue expression"""
        k = e["k"]
        if k == "var":
            if e["s"] in ("local", "param", "other"):
                r = fr.lookup(e["id"])
                if r is not None:
                    return r
                r = mk("L", fr.id, e["id"], e["n"])
                return r
            q = e.get("q", e["n"])
            if "(anonymous" in q:
                q = q + "@" + str(fr.unit)
            return mk("G", q)
        if k == "mem":
            if e["arrow"]:
                b = self.ev(e["b"], env, fr)
            else:
                b = self.lv_or_tmp(e["b"], env, fr)
            return self.fieldloc(b, e["f"])
        if k == "this":
            return fr_this(fr)
        if k == "idx":
            a = self.ev(e["a"], env, fr)
            i = self.ev(e["b"], env, fr)
            return self.elem(a, i)
        if k == "un":
            if e["op"] == "*":
                return self.ev(e["e"], env, fr)
            if e["op"] in ("pre++", "pre--"):
                self.ev(e, env, fr)
                return self.lv(e["e"], env, fr)
            if e["op"] in ("__extension__", "__real", "__imag"):
                return self.lv(e["e"], env, fr)
        if k == "asg":
            self.ev(e, env, fr)
            return self.lv(e["a"], env, fr)
        if k == "cond":
            c_ = self.cond(e["c"], env, fr)
            if c_.op == "c":
                return self.lv(e["a"] if c_.a[0] else e["b"], env, fr)
            return phi(c_, self.lv(e["a"], env, fr), self.lv(e["b"], env, fr))
        if k == "cast":
            return self.lv(e["e"], env, fr)
        if k == "bin" and e["op"] == ",":
            self.ev(e["a"], env, fr)
            return self.lv(e["b"], env, fr)
        if k == "call":
            return self.call(e, env, fr, want="lv")
        if k == "str":
            return mk("str", e["v"])
        if k == "throw":
            self.ev(e, env, fr)
            return NULL
        # rvalue used as an lvalue: temporary
        return self.lv_or_tmp(e, env, fr, force=True)

    def lv_or_tmp(self, e, env, fr, force=False):
        k = e["k"]
        if not force and k in ("var", "mem", "this", "idx", "un", "asg", "cond", "cast", "call", "bin", "str", "throw"):
            if k == "call":
                return self.call(e, env, fr, want="lv")
            if k in ("var", "mem", "idx", "this", "str", "throw", "asg") or (k == "un" and e["op"] in ("*", "pre++", "pre--")) or k == "cond" and self.is_class(e["t"]):
                return self.lv(e, env, fr)
            if k == "cast" and self.is_class(e["t"]):
                return self.lv(e["e"], env, fr)
        loc = mk("tmp", self.site(fr, e))
        self.init(loc, e["t"], e, env, fr)
        return loc

    def init(self, loc, t, e, env, fr):
        """initialise object/scalar at loc from expression e (in place)"""
        if e is None:
            return
        if not self.is_class(t) or strip(e.get("t", t)).startswith(SCALAR_STD) and not self.is_class(t):
            k = e["k"]
            if strip(t).endswith("]"):
                if k == "list":
                    for i, x in enumerate(e["a"]):
                        env.m[mk("I", loc, c(i))] = self.ev(x, env, fr)
                return
            v = self.ev(e, env, fr)
            if not env.dead:
                env.m[loc] = v
            return
        k = e["k"]
        while k == "cast":
            e = e["e"]
            k = e["k"]
        if k == "ctor":
            self.construct(loc, e, env, fr)
            return
        if k == "list":
            if strip(t).startswith(VEC):
                env.m[mk("size", loc)] = c(len(e["a"]))
                for i, x in enumerate(e["a"]):
                    env.m[mk("I", loc, c(i))] = self.ev(x, env, fr) if not self.is_class(x["t"]) else self.lv_or_tmp(x, env, fr)
                return
            cl = self.db.cls.get(strip(t))
            if cl:
                for f, x in zip(cl["fields"], e["a"]):
                    self.init(mk("F", loc, f["n"]), f["t"], x, env, fr)
                return
            for i, x in enumerate(e["a"]):
                self.ev(x, env, fr)
            return
        if k == "zero":
            return
        if k == "cond":
            c_ = self.cond(e["c"], env, fr)
            if c_.op == "c":
                return self.init(loc, t, e["a"] if c_.a[0] else e["b"], env, fr)
            src = phi(c_, self.ev(e["a"], env, fr), self.ev(e["b"], env, fr))
            env.copies[loc] = src
            return
        src = self.ev(e, env, fr)
        if isinstance(src, T) and src is not loc:
            self.copyobj(env, loc, src)

    def copyobj(self, env, loc, src):
        self.copylog.append((loc, src))
        for k in [k for k in env.m if self.under(k, loc)]:
            del env.m[k]
        if src.op == "tmp" or src.op == "L":
            # snapshot tracked state under src
            for k in [k for k in env.m if self.under(k, src) and k is not src]:
                env.m[self.reroot(k, src, loc)] = env.m[k]
            for k in [k for k in env.copies if self.under(k, src) and k is not src]:
                env.copies[self.reroot(k, src, loc)] = env.copies[k]
            for k in [k for k in env.fills if self.under(k, src)]:
                env.fills[self.reroot(k, src, loc)] = env.fills[k]
            if src in env.copies:
                env.copies[loc] = env.copies[src]
                return
        env.copies[loc] = src
        if loc.op != "tmp":
            env.m[mk("V", loc)] = mk("w", mk("cp", src))

    def reroot(self, k, src, dst):
        if k is src:
            return dst
        return mk(k.op, self.reroot(k.a[0], src, dst), *k.a[1:])

    def construct(self, loc, e, env, fr):
        cls = e.get("cls", strip(e["t"]))
        a = [x for x in e["a"] if x["k"] != "defarg"]
        fnr = self.fnrec(e.get("m"), fr)
        if cls.startswith(VEC):
            return self.vec_ctor(loc, e, a, env, fr)
        if cls.startswith("std::pair<") or cls.startswith("std::tuple<"):
            if e.get("copy") and len(a) == 1:
                src = self.ev(a[0], env, fr)
                return self.copyobj(env, loc, src)
            if len(a) == 1 and "pair" in a[0]["t"]:
                src = self.ev(a[0], env, fr)
                return self.copyobj(env, loc, src)
            for nme, x in zip(("first", "second", "third"), a):
                if self.is_class(x["t"]):
                    self.copyobj(env, mk("F", loc, nme), self.ev(x, env, fr))
                else:
                    env.m[mk("F", loc, nme)] = self.ev(x, env, fr)
            if not a:
                env.m[mk("F", loc, "first")] = c(0)
                env.m[mk("F", loc, "second")] = c(0)
            return
        if fnr is not None and not self.opaque(fnr):
            args = self.args(fnr, a, e["a"], env, fr)
            if env.dead:
                return
            self.inline(fnr, loc, cls, args, env, fr, e)
            return
        if e.get("copy") and len(a) == 1:
            src = self.ev(a[0], env, fr)
            if isinstance(src, T):
                self.copyobj(env, loc, src)
            return
        args = [self.ev(x, env, fr) for x in a]
        if cls in self.db.cls or not cls.startswith("std::"):
            pass
        if cls.startswith(MAPS) or cls in ("std::default_random_engine",) or cls.startswith("std::"):
            env.m[mk("size", loc)] = c(0)
        if not (cls in self.db.cls and not args):
            self.emit(env, "ctor", e, cls=cls, obj=loc, args=args)

    def vec_ctor(self, loc, e, a, env, fr):
        pt = e.get("pt", [])
        vb = loc
        for k in [k for k in env.m if self.under(k, loc)]:
            del env.m[k]
        env.fills.pop(loc, None)
        if not a:
            env.m[mk("size", vb)] = c(0)
            return
        p0 = strip(pt[0]) if pt else ""
        if e.get("copy"):
            src = self.ev(a[0], env, fr)
            self.copyobj(env, loc, src)
            if loc.op == "F":
                self.emit(env, "assign", e, dst=loc, src=src)
            else:
                self.emit(env, "veccopy", e, obj=loc, src=src)
            return
        if "initializer_list" in p0:
            if a[0]["k"] == "list":
                env.m[mk("size", vb)] = c(len(a[0]["a"]))
                for i, x in enumerate(a[0]["a"]):
                    if self.is_class(x["t"]):
                        self.init(mk("I", loc, c(i)), x["t"], x, env, fr)
                    else:
                        env.m[mk("I", loc, c(i))] = self.ev(x, env, fr)
            else:
                self.ev(a[0], env, fr)
            return
        if isint(p0):
            n = self.ev(a[0], env, fr)
            env.m[mk("size", vb)] = n
            el = re.sub(r"^std::\w+<", "", strip(e["t"]))
            v = c(0)
            if len(a) > 1 and not a[1]["t"].startswith("std::allocator"):
                v = self.ev(a[1], env, fr)
                env.fills[loc] = v
            elif el.startswith(("double", "unsigned", "int", "long", "bool", "float", "size_t")):
                env.fills[loc] = v
            self.emit(env, "fill", e, base=loc, lo=c(0), hi=n, val=v, fresh=True)
            return
        if len(a) >= 2:
            lo, hi = self.ev(a[0], env, fr), self.ev(a[1], env, fr)
            n = self.ptrdiff(hi, lo)
            env.m[mk("size", vb)] = n
            self.emit(env, "copy", e, dst=mk("I", loc, c(0)), src=lo, n=n)
            env.m[mk("V", loc)] = mk("w", self.site(fr, e))
            return
        src = self.ev(a[0], env, fr)
        self.copyobj(env, loc, src)

    def ptrdiff(self, hi, lo):
        if hi.op == "I" and lo.op == "I" and hi.a[0] is lo.a[0]:
            return sub(hi.a[1], lo.a[1])
        if hi.op == "I" and hi.a[0] is lo:
            return hi.a[1]
        return mk("pdiff", hi, lo)

    def fnrec(self, m, fr):
        if m is None:
            return None
        f = self.db.fn.get(m + "@" + str(fr.unit)) or self.db.fn.get(m)
        if f is not None and f.get("body") is None:
            return None
        return f

    def ev(self, e, env, fr):
        """value of an expression; objects of class type evaluate to their location"""
        if e is None or env.dead:
            return NULL
        k = e["k"]
        self.nodes_seen += 1
        if k == "int":
            return c(int(e["v"]))
        if k == "flt":
            return c(e["v"])
        if k == "bool":
            return c(bool(e["v"]))
        if k == "str":
            return mk("str", e["v"])
        if k == "null":
            return NULL
        if k == "enum":
            return mk("e", e["sn"])
        if k == "this":
            return fr_this(fr)
        if k == "sizeof":
            return c(int(e["v"])) if "v" in e else mk("sizeof", e["of"])
        if k == "zero":
            return NULL if isptr(e["t"]) else c(0)
        if k == "defarg":
            return self.ev(e["e"], env, fr)
        if k in ("var", "mem", "idx"):
            if k == "var" and e["s"] == "global" and e.get("const"):
                pass
            loc = self.lv(e, env, fr)
            if self.is_class(e["t"]):
                return loc
            if strip(e["t"]).endswith("]"):
                return loc
            return self.load(env, loc)
        if k == "cast":
            return self.cast(e, env, fr)
        if k == "un":
            return self.unary(e, env, fr)
        if k == "bin":
            return self.binary(e, env, fr)
        if k == "asg":
            return self.assign(e, env, fr)
        if k == "cond":
            return self.condop(e, env, fr)
        if k == "call":
            return self.call(e, env, fr)
        if k == "ctor":
            t = strip(e["t"])
            if not self.is_class(t):
                return self.scalar_ctor(e, env, fr)
            loc = mk("tmp", self.site(fr, e))
            for q in [q for q in env.m if self.under(q, loc)]:
                del env.m[q]
            env.copies.pop(loc, None)
            env.fills.pop(loc, None)
            self.construct(loc, e, env, fr)
            return loc
        if k == "new":
            return self.new(e, env, fr)
        if k == "delete":
            p = self.ev(e["e"], env, fr)
            self.emit(env, "free", e, ptr=p, arr=e["arr"], how="delete", ety=e.get("ety"))
            return NULL
        if k == "lambda":
            return mk("lambda", e["m"], self.closure(fr))
        if k == "list":
            if not self.is_class(e["t"]):
                if len(e["a"]) == 1:
                    return self.ev(e["a"][0], env, fr)
                return c(0)
            loc = mk("tmp", self.site(fr, e))
            self.init(loc, e["t"], e, env, fr)
            return loc
        if k == "throw":
            what = strip(e["e"]["t"]) if e.get("e") else "rethrow"
            self.emit(env, "throw", e, what=what, site=self.site(fr, e))
            env.dead = True
            return NULL
        if k == "fn":
            if e.get("b") is not None:
                self.ev(e["b"], env, fr)
            return mk("fn", e["m"])
        if k == "other":
            vs = [self.ev(x, env, fr) for x in e.get("a", [])]
            return mk("other", e["sc"], *vs)
        return mk("unk", k)

    def closure(self, fr):
        self._clos = getattr(self, "_clos", {})
        key = len(self._clos)
        for kk, v in self._clos.items():
            if v is fr:
                return kk
        self._clos[key] = fr
        return key

    def scalar_ctor(self, e, env, fr):
        t = strip(e["t"])
        a = [x for x in e["a"] if x["k"] != "defarg"]
        if not a:
            if t.startswith("std::basic_string"):
                return mk("str", "")
            if t.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
                return NULL
            return c(0)
        v = self.ev(a[0], env, fr)
        if t.startswith("std::basic_string") and len(a) > 1 and isint(a[1]["t"]):
            return mk("call", "string", v, *[self.ev(x, env, fr) for x in a[1:]])
        for x in a[1:]:
            self.ev(x, env, fr)
        if v.op == "new" and t.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")):
            self.emit(env, "adopt", e, obj=v)
        return v

    def cast(self, e, env, fr):
        ck = e["ck"]
        if ck in ("ToVoid",):
            self.ev(e["e"], env, fr)
            return NULL
        v = self.ev(e["e"], env, fr)
        if env.dead:
            return NULL
        if ck == "FloatingToIntegral":
            if is_c(v):
                return c(int(v.a[0]))
            return mk("trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            v = self.truth(v)
            if isbool(v) or v.op == "c":
                return v
            if ck == "PointerToBoolean":
                return not_(eq(v, NULL))
            return not_(eq(v, c(0)))
        if ck == "IntegralCast":
            if (v.op in ("+", "*") or v.op in ("ld", "F") and "size" in str((v.a[0] if v.op == "ld" else v).a[-1])) and strip(e["t"]) in INT32 and strip(e["e"]["t"]) not in INT32:
                self.narrow.append((v, "kept", e.get("l", ""), self.stack[-1].fn["q"] if self.stack else ""))
            if is_c(v) and strip(e["t"]).startswith("unsigned") and v.a[0] < 0:
                bits = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "unsigned char": 8, "unsigned short": 16}.get(strip(e["t"]), 64)
                return mk("c", v.a[0] % (1 << bits))
            return v
        if ck == "NullToPointer":
            return NULL
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return v
        return v

    def isboolexpr(self, v):
        return isbool(v)

    def unary(self, e, env, fr):
        op = e["op"]
        if op == "!":
            return not_(self.truth(self.ev(e["e"], env, fr)))
        if op == "-":
            return neg(self.ev(e["e"], env, fr))
        if op == "+":
            return self.ev(e["e"], env, fr)
        if op == "&":
            return self.lv(e["e"], env, fr) if e["e"]["k"] != "fn" else mk("fn", e["e"]["m"])
        if op == "*":
            p = self.ev(e["e"], env, fr)
            if self.is_class(e["t"]) or strip(e["t"]).endswith("]"):
                return p
            if env.dead:
                return NULL
            return self.load(env, p)
        if op in ("pre++", "pre--", "post++", "post--"):
            return self.incdec(e, e["e"], op, env, fr)
        if op == "~":
            return mk("call", "~", self.ev(e["e"], env, fr))
        return self.ev(e["e"], env, fr)

    def incdec(self, n, target, op, env, fr):
        loc = self.lv(target, env, fr)
        old = self.load(env, loc)
        d = c(1) if op.endswith("++") else c(-1)
        nv = self.ptradd(old, d) if isptr(target["t"]) or old.op == "I" else add(old, d)
        self.do_store(env, loc, nv, n, fr, old=old, op="+=", rhs=d)
        return nv if op.startswith("pre") else old

    def do_store(self, env, loc, nv, n, fr, old=None, op="=", rhs=None, atomic=False):
        if env.dead:
            return
        islocal = loc.op == "L"
        nd = self.emit(env, "store", n, lv=loc, val=nv, old=old, op=op, rhs=rhs if rhs is not None else nv, local=islocal, atomic=atomic)
        nd.d["t"] = n.get("t", "") if isinstance(n, dict) else ""
        self.store(env, loc, nv, self.site(fr, n))

    def arith(self, op, a, b, t, ta, tb):
        if op == "+":
            if isptr(ta):
                return self.ptradd(a, b)
            if isptr(tb):
                return self.ptradd(b, a)
            return add(a, b)
        if op == "-":
            if isptr(ta) and isptr(tb):
                return self.ptrdiff(a, b)
            if isptr(ta):
                return self.ptradd(a, neg(b))
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isfloat(t):
                return fdiv(a, b)
            return idiv(a, b)
        if op == "%":
            return mod(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            a, b = self.cmpnorm(a, b)
            return {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: le(a, b), ">=": lambda: le(b, a),
                    "==": lambda: eq(a, b), "!=": lambda: not_(eq(a, b))}[op]()
        return mk("call", op, a, b)

    def cmpnorm(self, a, b):
        if a.op == "I" and b.op == "I" and a.a[0] is b.a[0]:
            return a.a[1], b.a[1]
        return a, b

    def binary(self, e, env, fr):
        op = e["op"]
        if op in ("&&", "||"):
            l = self.truth(self.ev(e["a"], env, fr))
            if env.dead:
                return NULL
            l = self.decide(env, l)
            if l.op == "c":
                if bool(l.a[0]) == (op == "||"):
                    return l
                return self.truth(self.ev(e["b"], env, fr))
            gate = l if op == "&&" else not_(l)
            save, self.out = self.out, []
            e2 = env.copy()
            e2.pc = env.pc + (gate,)
            r = self.truth(self.ev(e["b"], e2, fr))
            sub_, self.out = self.out, save
            if sub_:
                self.emit(env, "if", e, cond=gate, then=sub_, els=[])
            if not e2.dead:
                e1 = env.copy()
                e1.pc = env.pc + (not_(gate),)
                pc = env.pc
                env.become(self.join(e2, e1))
                env.pc = pc
            else:
                env.pc = env.pc + (not_(gate),)
                return c(op == "||")
            return and_(l, r) if op == "&&" else or_(l, r)
        if op == ",":
            self.ev(e["a"], env, fr)
            return self.ev(e["b"], env, fr)
        a = self.ev(e["a"], env, fr)
        b = self.ev(e["b"], env, fr)
        if env.dead:
            return NULL
        if op == "*" and a.op != "c" and b.op != "c" and strip(e["t"]) in INT32:
            self.narrow.append((mul(a, b), "computed", e.get("l", ""), self.stack[-1].fn["q"] if self.stack else ""))
        return self.arith(op, a, b, e["t"], e["a"]["t"], e["b"]["t"])

    def assign(self, e, env, fr):
        op = e["op"]
        if self.is_class(e["a"]["t"]):
            dst = self.lv(e["a"], env, fr)
            src = self.ev(e["b"], env, fr)
            self.emit(env, "assign", e, dst=dst, src=src)
            self.copyobj(env, dst, src)
            return dst
        if op == "=":
            v = self.ev(e["b"], env, fr)
            loc = self.lv(e["a"], env, fr)
            if env.dead:
                return NULL
            self.do_store(env, loc, v, e, fr, old=self.load(env, loc))
            return v
        loc = self.lv(e["a"], env, fr)
        b = self.ev(e["b"], env, fr)
        if env.dead:
            return NULL
        old = self.load(env, loc)
        ct = e.get("ct", e["t"])
        nv = self.arith(op[:-1], old, b, ct, e["a"]["t"], e["b"]["t"])
        if isfloat(ct) and isint(e["a"]["t"]):
            nv = mk("trunc", nv)
        if e["a"]["t"].endswith("*") and old.op in ("I", "sym", "L", "new") and nv.op == "I":
            self.do_store(env, loc, nv, e, fr, old=old)        # an address known as a whole
            return nv
        self.do_store(env, loc, nv, e, fr, old=old, op=op, rhs=b)
        return nv

    def condop(self, e, env, fr):
        g = self.cond(e["c"], env, fr)
        if env.dead:
            return NULL
        if g.op == "c":
            return self.ev(e["a"] if g.a[0] else e["b"], env, fr)
        save = self.out
        self.out = []
        e1 = env.copy()
        e1.pc = env.pc + (g,)
        v1 = self.ev(e["a"], e1, fr)
        o1 = self.out
        self.out = []
        e2 = env.copy()
        e2.pc = env.pc + (not_(g),)
        v2 = self.ev(e["b"], e2, fr)
        o2 = self.out
        self.out = save
        if o1 or o2 or e1.dead or e2.dead:
            if e2.dead and not o1 and len(o2) == 1 and o2[0].kind == "assertfail":
                self.emit(env, "assert", e, cond=g)
            else:
                self.emit(env, "if", e, cond=g, then=o1, els=o2)
        if e1.dead and e2.dead:
            env.dead = True
            return NULL
        if e1.dead or e2.dead:
            env.become(e2 if e1.dead else e1)
            return v2 if e1.dead else v1
        pc = env.pc
        env.become(self.join(e1, e2))
        env.pc = pc
        return phi(g, v1, v2)

    def new(self, e, env, fr):
        st = self.site(fr, e)
        if e.get("arr") is not None:
            n = self.ev(e["arr"], env, fr)
            loc = mk("new", st, "array", strip(e["ty"]))
            env.m.pop(mk("V", loc), None)
            self.kill_elems(env, loc)
            env.m[mk("size", loc)] = n
            if e.get("hasinit"):
                env.fills[loc] = c(0)
            self.emit(env, "alloc", e, obj=loc, n=n, ty=e["ty"], arr=True, init=bool(e.get("hasinit")))
            return loc
        loc = mk("new", st, "obj", strip(e["ty"]))
        for q in [q for q in env.m if self.under(q, loc)]:
            del env.m[q]
        env.copies.pop(loc, None)
        env.dyn[loc] = strip(e["ty"])
        self.emit(env, "alloc", e, obj=loc, n=c(1), ty=e["ty"], arr=False)
        if e.get("init") is not None:
            self.init(loc, e["ty"], e["init"], env, fr)
        return loc

    # ------------------------------------------------------------ calls
    def args(self, fnr, a, allargs, env, fr):
        """evaluate call arguments against fnr's parameters: list of ('ref', loc) / ('val', v) / ('obj', loc)"""
        out = []
        ps = fnr["params"]
        for i, x in enumerate(allargs):
            t = ps[i]["t"] if i < len(ps) else x.get("t", "")
            if x["k"] == "defarg":
                x = x["e"]
                if x is None:
                    out.append(("val", mk("unk", "defarg")))
                    continue
            if isref(t) and not (not self.is_class(t) and strip(t).startswith(("std::basic_string", "std::shared_ptr")) and "const" in t):
                if self.is_class(t):
                    out.append(("ref", self.lv_or_tmp(x, env, fr) if x["k"] != "call" else self.ev(x, env, fr)))
                elif x["k"] in ("var", "mem", "idx") or (x["k"] == "un" and x["op"] == "*") or (x["k"] == "call" and self.call_is_lv(x)):
                    out.append(("ref", self.lv(x, env, fr)))
                else:
                    out.append(("val", self.ev(x, env, fr)))
            elif self.is_class(t):
                if x["k"] == "ctor" and x.get("copy") and len(x["a"]) >= 1:
                    out.append(("obj", self.ev(x["a"][0], env, fr)))
                else:
                    out.append(("obj", self.ev(x, env, fr)))
            else:
                out.append(("val", self.ev(x, env, fr)))
        return out

    def call_is_lv(self, e):
        return isref(e.get("ret", "")) or (e.get("op") in ("[]", "*"))

    def dyncls(self, env, obj, static):
        v = env.dyn.get(obj)
        if v is None and obj.op == "new" and obj.a[1] == "obj":
            v = obj.a[2]
        if v is None:
            v = self.rtypes.get(obj)
        return v

    def call(self, e, env, fr, want="val"):
        r = self.call_(e, env, fr)
        # r: ('val', v) | ('lv', loc) | ('obj', loc)
        kind, v = r
        if env.dead:
            return NULL
        if want == "lv":
            if kind in ("lv", "obj"):
                return v
            t = e.get("t", "")
            if self.is_class(t):
                return v
            if isinstance(v, T) and not isptr(t):
                loc = mk("tmp", self.site(fr, e))
                env.m[loc] = v
                return loc
            return v
        if kind == "lv":
            if self.is_class(e["t"]) or strip(e["t"]).endswith("]"):
                return v
            return self.load(env, v)
        return v

    def call_(self, e, env, fr):
        name = e.get("n", "")
        q = e.get("f", "")
        obj = e.get("obj")
        if self.ext is not None:
            r = self.ext(self, e, name, q, obj, env, fr)
            if r is not None:
                return r
        if obj is not None:
            ot = strip(obj["t"])
            if self.is_std(ot):
                return self.stdmethod(e, name, ot, env, fr)
        if e.get("fe") is not None:
            f = self.ev(e["fe"], env, fr)
            if f.op == "lambda":
                return self.calllambda(f, e["a"], env, fr, e)
            if f.op == "fn":
                fnr = self.fnrec(f.a[0], fr)
                if fnr:
                    args = self.args(fnr, e["a"], e["a"], env, fr)
                    return self.inline(fnr, None, None, args, env, fr, e)
            args = [self.ev(x, env, fr) for x in e["a"]]
            self.emit(env, "call", e, name="?", q="?", obj=None, args=args, ret=NULL, noret=False)
            return ("val", mk("ret", self.site(fr, e)))
        if obj is not None and e.get("op") == "()" and obj["k"] in ("var", "lambda"):
            v = self.ev(obj, env, fr) if obj["k"] == "lambda" else self.load(env, self.lv(obj, env, fr))
            if v.op == "lambda":
                return self.calllambda(v, e["a"], env, fr, e)
        fnr = self.fnrec(e.get("m"), fr)
        if obj is not None:
            if e.get("arrow"):
                o = self.ev(obj, env, fr)
            else:
                o = self.lv_or_tmp(obj, env, fr)
            if env.dead:
                return ("val", NULL)
            static = e.get("cls", strip(obj["t"]))
            st2 = strip(obj["t"])
            if st2.endswith("*"):
                st2 = strip(st2[:-1])
            if st2 in self.db.cls:
                static = st2
            dyn = self.dyncls(env, o, static)
            if o is fr.this and fr.thiscls:
                dyn = fr.thiscls
            if e.get("virt"):
                d2 = dyn
                if d2 is None or d2 not in self.db.cls:
                    d2 = self.elemcls.get(static)
                    if callable(d2):
                        d2 = d2(o)
                if d2 is None:
                    # devirtualise when unique
                    cands = self.candidates(e["m"], static)
                    if len(cands) == 1:
                        fnr = self.fnrec(cands[0], fr)
                        d2 = static
                    else:
                        args = [self.ev(x, env, fr) for x in e["a"]]
                        self.emit(env, "vcall", e, name=name, q=q, obj=o, args=args, cands=cands)
                        return ("val", mk("ret", self.site(fr, e)))
                else:
                    m2 = self.db.resolve_virtual(e["m"], d2)
                    fnr = self.fnrec(m2, fr) or fnr
                    if dyn is None and stub(fnr):
                        # the call only makes sense on the one class that implements it
                        real = [x for x in self.candidates(e["m"], static) if not stub(self.fnrec(x, fr))]
                        if len(real) == 1:
                            fnr = self.fnrec(real[0], fr)
                            d2 = fnr.get("cls") or d2
                dyn = d2
            elif dyn is None:
                dyn = self.elemcls.get(static) if not callable(self.elemcls.get(static)) else None
                dyn = dyn or static
            if fnr is not None and not self.opaque(fnr):
                args = self.args(fnr, e["a"], e["a"], env, fr)
                if env.dead:
                    return ("val", NULL)
                return self.inline(fnr, o, dyn, args, env, fr, e)
            # repo method without body (defaulted) or opaque
            if e.get("op") == "=" and fnr is None and len(e["a"]) == 1:
                src = self.ev(e["a"][0], env, fr)
                self.emit(env, "assign", e, dst=o, src=src)
                self.copyobj(env, o, src)
                return ("lv", o)
            args = [self.ev(x, env, fr) for x in e["a"]]
            return self.external(e, name, q, o, args, env, fr)
        # free / static function
        if fnr is not None and not self.opaque(fnr):
            args = self.args(fnr, e["a"], e["a"], env, fr)
            if env.dead:
                return ("val", NULL)
            return self.inline(fnr, None, e.get("cls"), args, env, fr, e)
        return self.stdfree(e, name, q, env, fr)

    def candidates(self, m, static):
        out = set()
        for d in self.db.concrete(static):
            out.add(self.db.resolve_virtual(m, d))
        return sorted(out) or [m]

    def is_std(self, t):
        if t.endswith("*"):
            return False
        return t.startswith(("std::", "__gnu_cxx::"))

    def calllambda(self, f, argexprs, env, fr, n, vals=None):
        fnr = self.fnrec(f.a[0], fr)
        lex = self._clos[f.a[1]]
        if fnr is None:
            return ("val", mk("ret", self.site(fr, n)))
        args = vals if vals is not None else self.args(fnr, argexprs, argexprs, env, fr)
        return self.inline(fnr, lex.this, lex.thiscls, args, env, fr, n, lex=lex)

    def inline(self, fnr, obj, dyn, args, env, fr, n, lex=None):
        depth = len(self.stack)
        rec = sum(1 for f in self.stack if f.fn["m"] == fnr["m"])
        if depth > self.maxdepth or rec >= 1:
            vals = [a[1] for a in args]
            self.emit(env, "reccall", n, q=fnr["q"], obj=obj, args=vals)
            return ("val", mk("ret", self.site(fr, n) if fr else mk("top")))
        fid = mk("fr", fr.id if fr else mk("top"), self.node_id(n) if n is not None else 0, fnr["m"])
        nf = Frame(fid, fnr, lex)
        nf.this, nf.thiscls = obj, dyn
        if fnr["m"].startswith("_ZN12_GLOBAL") or True:
            nf.unit = fnr.get("unit")
        if fnr.get("ctor"):
            nf.thiscls = fnr.get("cls")
        self.inlined[fnr["q"]] = self.inlined.get(fnr["q"], 0) + 1
        pcl = len(env.pc)
        argv = []
        for p, a in zip(fnr["params"], args):
            kind, v = a
            loc = mk("L", fid, p["id"], p["n"] or "_")
            if kind == "ref":
                nf.vars[p["id"]] = v
            elif kind == "obj":
                for q in [q for q in env.m if self.under(q, loc)]:
                    del env.m[q]
                self.copyobj(env, loc, v)
                nf.vars[p["id"]] = loc
                env.locals.add(loc)
            else:
                env.m[loc] = v
                nf.vars[p["id"]] = loc
                env.locals.add(loc)
            argv.append(v)
        self.stack.append(nf)
        save, self.out = self.out, []
        ret = ("val", NULL)
        if fnr.get("ctor"):
            self.ctor_inits(fnr, obj, env, nf)
        end = None
        if not env.dead:
            end = self.stmt(fnr["body"], env, nf)
        body, self.out = self.out, save
        self.stack.pop()
        outs = list(nf.returns)
        if end is not None and not end.dead:
            outs.append((end, None))
        nd = self.emit(env, "enter", n, q=fnr["q"], name=fnr["n"], fnrec=fnr, obj=obj, args=argv, body=body, cls=dyn, ret=None)
        nd.pc = env.pc[:pcl]
        if not outs:
            env.dead = True
            return ("val", NULL)
        e0, v0 = outs[0]
        for e1, v1 in outs[1:]:
            g = self.gate(e0, e1)
            nv = self.joinval(g, v0, v1)
            e0 = self.join(e0, e1)
            v0 = nv
        # drop callee locals
        for k in [k for k in e0.m if self.rootloc(k).op == "L" and self.rootloc(k).a[0] is fid]:
            if v0 is not None and v0[0] == "obj" and self.under(k, v0[1]):
                continue
            del e0.m[k]
        e0.locals = {l for l in e0.locals if l.a[0] is not fid}
        env.become(e0)
        if v0 is not None:
            ret = v0
            if ret[0] == "obj":
                rl = ret[1]
                if self.rootloc(rl).op == "L" and self.rootloc(rl).a[0] is fid:
                    tmp = mk("tmp", self.site(fr, n) if fr else mk("top"))
                    self.copyobj(env, tmp, rl)
                    for k in [k for k in env.m if self.under(k, rl)]:
                        del env.m[k]
                    if rl in env.dyn:
                        env.dyn[tmp] = env.dyn[rl]
                    ret = ("obj", tmp)
        nd.d["ret"] = ret[1]
        return ret

    def joinval(self, g, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a[0] == b[0]:
            return (a[0], phi(g, a[1], b[1]))
        return ("val", phi(g, a[1], b[1]))

    def rootloc(self, x):
        while x.op in ("F", "I", "size", "V"):
            x = x.a[0]
        return x

    def ctor_inits(self, fnr, obj, env, fr):
        done = set()
        for i in fnr.get("inits", []):
            if "base" in i:
                e = i["e"]
                if e is not None and e["k"] == "ctor":
                    f2 = self.fnrec(e.get("m"), fr)
                    if f2 is not None and not self.opaque(f2):
                        if e.get("inh"):
                            args = []
                            for p in fnr["params"]:
                                pl = fr.vars.get(p["id"])
                                if pl is None:
                                    args.append(("val", mk("unk", "inh")))
                                elif self.is_class(p["t"]) and not isref(p["t"]):
                                    args.append(("obj", pl))
                                elif isref(p["t"]):
                                    args.append(("ref", pl))
                                else:
                                    args.append(("val", self.load(env, pl)))
                        else:
                            args = self.args(f2, e["a"], e["a"], env, fr)
                        if env.dead:
                            return
                        self.inline(f2, obj, i["base"], args, env, fr, e)
                    else:
                        for x in e["a"]:
                            self.ev(x, env, fr)
            elif "f" in i:
                loc = mk("F", obj, i["f"])
                t = None
                for b in self.db.bases(fnr["cls"]):
                    for f in self.db.cls.get(b, {}).get("fields", []):
                        if f["n"] == i["f"]:
                            t = f["t"]
                            break
                    if t:
                        break
                e = i["e"]
                if e is None:
                    continue
                t = t or e["t"]
                if self.is_class(t):
                    self.init(loc, t, e, env, fr)
                else:
                    v = self.ev(e, env, fr)
                    if env.dead:
                        return
                    nd = self.emit(env, "store", {"l": i["l"]}, lv=loc, val=v, old=None, op="=", rhs=v, local=False, atomic=False, init=True)
                    nd.d["t"] = t
                    self.store(env, loc, v, self.site(fr, e))
            elif i.get("deleg"):
                self.construct(obj, i["e"], env, fr)
            if env.dead:
                return

    # ------------------------------------------------------------ std:: models
    def stdmethod(self, e, name, ot, env, fr):
        obj, a = e["obj"], [x for x in e["a"] if x["k"] != "defarg"]
        op = e.get("op")
        # --- smart pointers
        if ot.startswith(("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")) :
            if name in ("operator->", "operator*", "get"):
                v = self.ev(obj, env, fr)
                if name == "operator*":
                    return ("lv", v)
                return ("val", v)
            if name == "operator bool":
                return ("val", not_(eq(self.ev(obj, env, fr), NULL)))
            if name in ("operator=", "reset"):
                v = self.ev(a[0], env, fr) if a else NULL
                loc = self.lv_or_tmp(obj, env, fr)
                self.do_store(env, loc, v, e, fr, old=self.load(env, loc))
                return ("lv", loc)
            if name == "operator[]":
                return ("lv", self.elem(self.ev(obj, env, fr), self.ev(a[0], env, fr)))
            if name == "swap":
                pass
            v = self.ev(obj, env, fr)
            return ("val", mk("call", "shared_ptr::" + name, v, *[self.ev(x, env, fr) for x in a]))
        # --- atomics
        if ot.startswith(("std::atomic", "std::__atomic_base")):
            loc = self.lv_or_tmp(obj, env, fr)
            if name in ("operator++", "operator--", "operator+=", "operator-=", "fetch_add", "fetch_sub"):
                old = mk("ald", loc)
                if name in ("operator++", "operator--"):
                    d = c(1) if name == "operator++" else c(-1)
                    post = bool(e.get("pt")) or len(e["a"]) > 0
                else:
                    d = self.ev(a[0], env, fr)
                    if name in ("operator-=", "fetch_sub"):
                        d = neg(d)
                    post = name.startswith("fetch")
                nv = add(old, d)
                self.do_store(env, loc, nv, e, fr, old=old, op="+=", rhs=d, atomic=True)
                return ("val", old if post else nv)
            if name in ("operator=", "store"):
                v = self.ev(a[0], env, fr)
                self.do_store(env, loc, v, e, fr, old=mk("ald", loc), atomic=True)
                return ("val", v)
            if name.startswith("operator ") or name == "load" or name == "operator unsigned int":
                return ("val", mk("ald", loc))
            return self.external(e, name, e.get("f", ""), loc, [self.ev(x, env, fr) for x in a], env, fr)
        # --- strings
        if ot.startswith("std::basic_string<"):
            if name in ("operator=", "operator+=", "append", "push_back"):
                loc = self.lv_or_tmp(obj, env, fr)
                b = self.ev(a[0], env, fr)
                old = self.load(env, loc)
                nv = b if name == "operator=" else mk("call", "str+", old, b)
                self.do_store(env, loc, nv, e, fr, old=old)
                return ("lv", loc)
            v = self.ev(obj, env, fr)
            if name in ("c_str", "data"):
                return ("val", v)
            if name == "empty":
                return ("val", eq(v, mk("str", "")))
            return ("val", mk("call", "string::" + name, v, *[self.ev(x, env, fr) for x in a]))
        # --- iterators
        if ot.startswith(("__gnu_cxx::__normal_iterator", "std::_Bit_iterator", "std::_Bit_const_iterator")):
            if name in ("operator++", "operator--"):
                post = bool(e["a"])
                return ("val", self.incdec(e, obj, ("post" if post else "pre") + name[-2:], env, fr))
            v = self.ev(obj, env, fr)
            if name in ("operator*",):
                return ("lv", v)
            if name in ("operator->",):
                # points at the element: an object, or a pointer-like element
                return ("val", v)
            if name == "base":
                return ("val", v)
            if name == "operator[]":
                return ("lv", self.ptradd(v, self.ev(a[0], env, fr)))
            if name in ("operator+", "operator-"):
                i = self.ev(a[0], env, fr)
                return ("val", self.ptradd(v, i if name == "operator+" else neg(i)))
            if name in ("operator+=", "operator-="):
                loc = self.lv(obj, env, fr)
                i = self.ev(a[0], env, fr)
                nv = self.ptradd(v, i if name == "operator+=" else neg(i))
                self.do_store(env, loc, nv, e, fr, old=v, op="+=", rhs=i)
                return ("lv", loc)
            if name == "operator=":
                loc = self.lv(obj, env, fr)
                nv = self.ev(a[0], env, fr)
                self.do_store(env, loc, nv, e, fr, old=v)
                return ("lv", loc)
        if ot.startswith("std::_Bit_reference"):
            loc = self.lv_or_tmp(obj, env, fr)
            if name == "operator=":
                nv = self.ev(a[0], env, fr)
                self.do_store(env, loc, nv, e, fr, old=self.load(env, loc))
                self.out[-1].d["bit"] = True
                return ("lv", loc)
            if name.startswith("operator bool") or name == "operator bool":
                return ("val", self.load(env, loc))
        # --- vectors
        if ot.startswith(VEC):
            v = self.lv_or_tmp(obj, env, fr)
            if name in ("operator[]", "at"):
                i = self.ev(a[0], env, fr)
                return ("lv", mk("I", v, i))
            if name == "front":
                return ("lv", mk("I", v, c(0)))
            if name == "back":
                return ("lv", mk("I", v, sub(self.size(env, v), c(1))))
            if name in ("data", "begin", "cbegin"):
                return ("val", mk("I", v, c(0)))
            if name in ("end", "cend"):
                return ("val", mk("I", v, self.size(env, v)))
            if name == "size":
                return ("val", self.size(env, v))
            if name == "empty":
                return ("val", eq(self.size(env, v), c(0)))
            if name in ("resize", "assign"):
                st = self.site(fr, e)
                if name == "assign" and a and (isptr(a[0]["t"])):
                    lo, hi = self.ev(a[0], env, fr), self.ev(a[1], env, fr)
                    n = self.ptrdiff(hi, lo)
                    self.emit(env, "copy", e, dst=mk("I", v, c(0)), src=lo, n=n, sized=True)
                    self.havoc(env, v, st)
                    env.m[mk("size", v)] = n
                    return ("val", NULL)
                n = self.ev(a[0], env, fr)
                old = self.size(env, v)
                val = self.ev(a[1], env, fr) if len(a) > 1 else c(0)
                if name == "assign" or old is FALSE:
                    self.havoc(env, v, st)
                    env.m.pop(v, None)
                    env.fills[v] = val
                    env.m[mk("size", v)] = n
                    self.emit(env, "fill", e, base=v, lo=c(0), hi=n, val=val, fresh=True)
                else:
                    self.havoc(env, v, st)
                    env.m.pop(v, None)
                    env.m[mk("size", v)] = n
                    self.emit(env, "resize", e, obj=v, n=n, val=val, old=old)
                return ("val", NULL)
            if name in ("push_back", "emplace_back"):
                s = self.size(env, v)
                loc = mk("I", v, s)
                if a and self.is_class(a[0]["t"]):
                    val = self.ev(a[0], env, fr)
                    self.copyobj(env, loc, val)
                else:
                    val = self.ev(a[0], env, fr) if a else NULL
                    if env.copies:
                        self.snap_elems(env, v)
                        self.own(env, v)
                    self.kill_elems(env, v, loc)
                    env.m[loc] = val
                    dc = self.dyncls(env, val, None)
                    if dc:
                        env.dyn[mk("ld", loc)] = dc
                env.m[mk("size", v)] = add(s, c(1))
                self.emit(env, "push", e, obj=v, val=val, at=s)
                return ("val", NULL)
            if name == "clear":
                self.havoc(env, v, self.site(fr, e))
                env.m.pop(v, None)
                env.m[mk("size", v)] = c(0)
                self.emit(env, "clear", e, obj=v)
                return ("val", NULL)
            if name == "operator=":
                src = self.ev(a[0], env, fr)
                self.emit(env, "assign", e, dst=v, src=src)
                self.havoc(env, v, self.site(fr, e))
                env.m.pop(v, None)
                self.copyobj(env, v, src)
                return ("lv", v)
            if name in ("reserve", "shrink_to_fit", "capacity"):
                for x in a:
                    self.ev(x, env, fr)
                return ("val", NULL)
            args = [self.ev(x, env, fr) for x in a]
            self.havoc(env, v, self.site(fr, e))
            env.m.pop(v, None)
            self.emit(env, "vecop", e, name=name, obj=v, args=args)
            return ("val", mk("ret", self.site(fr, e)))
        # --- maps
        if ot.startswith(MAPS):
            v = self.lv_or_tmp(obj, env, fr)
            args = [self.ev(x, env, fr) for x in a]
            if name in ("operator[]", "at"):
                if name == "operator[]":
                    self.emit(env, "mapslot", e, obj=v, key=args[0])
                return ("lv", mk("I", v, args[0]))
            if e.get("const") or name in ("find", "begin", "end", "count", "size", "empty"):
                ver = env.m.get(mk("V", v))
                return ("val", mk("call", "map::" + name, v, *(args + ([ver] if ver is not None else []))))
            self.havoc(env, v, self.site(fr, e))
            env.m.pop(v, None)
            self.emit(env, "mapop", e, name=name, obj=v, args=args)
            return ("val", mk("ret", self.site(fr, e)))
        # --- random engines / distributions
        if ("_distribution" in ot or "_engine" in ot) and name in ("operator()",):
            o = self.lv_or_tmp(obj, env, fr)
            gens = [self.lv_or_tmp(x, env, fr) for x in a]
            st = self.site(fr, e)
            ver = env.m.get(mk("rng", gens[0] if gens else o), c(0))
            r = mk("rand", st, o, gens[0] if gens else o)
            self.emit(env, "draw", e, dist=o, gen=gens[0] if gens else o, ret=r)
            env.dyn[r] = ot
            return ("val", r)
        if (ot.startswith("std::pair") or "_distribution" in ot or "_engine" in ot) and name == "operator=":
            dst = self.lv_or_tmp(obj, env, fr)
            src = self.ev(a[0], env, fr)
            self.emit(env, "assign", e, dst=dst, src=src)
            self.copyobj(env, dst, src)
            return ("lv", dst)
        if "stream" in ot or ot.startswith(("std::basic_os", "std::basic_is", "std::basic_ifs", "std::basic_ofs")):
            o = self.lv_or_tmp(obj, env, fr)
            args = [self.ev(x, env, fr) for x in a]
            if name.startswith("operator<<"):
                self.emit(env, "io", e, name=name, obj=o, args=args)
                return ("lv", o)
            self.emit(env, "call", e, name="stream::" + name, q=e.get("f", ""), obj=o, args=args, ret=mk("ret", self.site(fr, e)), noret=False)
            return ("val", mk("ret", self.site(fr, e)))
        o = self.lv_or_tmp(obj, env, fr)
        args = [self.ev(x, env, fr) for x in a]
        return self.external(e, name, e.get("f", ""), o, args, env, fr)

    def stdfree(self, e, name, q, env, fr):
        a = [x for x in e["a"] if x["k"] != "defarg"]
        st = self.site(fr, e)
        if name in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast"):
            v = self.ev(a[0], env, fr)
            mt = re.match(r"(?:std::)?shared_ptr<(.*)>$", strip(e["t"]).replace("std::", "", 1) if strip(e["t"]).startswith("std::shared") else strip(e["t"]))
            if mt and self.dyncls(env, v, None) is None:
                t = mt.group(1)
                if t in self.db.cls and not self.db.cls[t]["abstract"]:
                    env.dyn.setdefault(v, t)
            return ("val", v)
        if name in ("move", "forward"):
            return ("lv", self.lv_or_tmp(a[0], env, fr)) if self.call_is_lv(e) or e["t"].endswith("&&") else ("val", self.ev(a[0], env, fr))
        if name in ("make_shared", "make_unique"):
            mt = re.match(r"std::(?:shared|unique)_ptr<(.*?)>?>$", strip(e["t"]))
            t = strip(e["t"])[strip(e["t"]).index("<") + 1:-1]
            loc = mk("new", st, "obj", t)
            env.dyn[loc] = t
            args = [self.ev(x, env, fr) for x in a]
            self.emit(env, "alloc", e, obj=loc, n=c(1), ty=t, arr=False)
            self.emit(env, "adopt", e, obj=loc)
            self.emit(env, "ctor", e, cls=t, obj=loc, args=args)
            return ("val", loc)
        if name in ("fill", "fill_n") and len(a) == 3:
            lo = self.ev(a[0], env, fr)
            x1 = self.ev(a[1], env, fr)
            v = self.ev(a[2], env, fr)
            hi = self.ptradd(lo, x1) if name == "fill_n" else x1
            base = lo.a[0] if lo.op == "I" else lo
            l0 = lo.a[1] if lo.op == "I" else c(0)
            n = self.ptrdiff(hi, lo)
            self.havoc(env, lo if lo.op == "I" else mk("I", lo, c(0)), st)
            full = l0 is FALSE
            if full:
                env.fills[base] = v
                env.m.pop(mk("V", base), None)
            self.emit(env, "fill", e, base=base, lo=l0, hi=add(l0, n), val=v, fresh=False)
            return ("val", NULL)
        if name in ("copy", "copy_n"):
            s0 = self.ev(a[0], env, fr)
            s1 = self.ev(a[1], env, fr)
            d = self.ev(a[2], env, fr)
            n = self.ptrdiff(s1, s0) if name == "copy" else s1
            if name == "copy_n":
                n, d = s1, d
            self.havoc(env, d if d.op == "I" else mk("I", d, c(0)), st)
            self.emit(env, "copy", e, dst=d, src=s0, n=n)
            return ("val", self.ptradd(d, n))
        if name in ("memcpy", "memmove", "__builtin_memcpy", "__builtin_memmove"):
            d, s, n = [self.ev(x, env, fr) for x in a]
            self.havoc(env, d if d.op == "I" else mk("I", d, c(0)), st)
            self.emit(env, "copy", e, dst=d, src=s, n=n, bytes=True)
            return ("val", d)
        if name in ("memset", "__builtin_memset"):
            d, v, n = [self.ev(x, env, fr) for x in a]
            self.havoc(env, d if d.op == "I" else mk("I", d, c(0)), st)
            self.emit(env, "fill", e, base=d.a[0] if d.op == "I" else d, lo=d.a[1] if d.op == "I" else c(0), hi=n, val=v, bytes=True, fresh=False)
            return ("val", d)
        if name == "swap" and len(a) == 2 and not self.is_class(a[0]["t"]):
            la, lb = self.lv(a[0], env, fr), self.lv(a[1], env, fr)
            va, vb = self.load(env, la), self.load(env, lb)
            self.do_store(env, la, vb, e, fr, old=va)
            self.do_store(env, lb, va, dict(e), fr, old=vb)
            return ("val", NULL)
        if name == "make_pair" or name == "make_tuple":
            loc = mk("tmp", st)
            for nme, x in zip(("first", "second", "third"), a):
                env.m[mk("F", loc, nme)] = self.ev(x, env, fr)
            return ("obj", loc)
        if name == "for_each" and len(a) == 3:
            lo, hi, f = [self.ev(x, env, fr) for x in a]
            if f.op == "lambda":
                self.foreach(e, lo, hi, f, env, fr)
                return ("val", NULL)
        if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=", "operator-", "operator+", "operator*", "operator/") and len(a) == 2:
            x, y = self.ev(a[0], env, fr), self.ev(a[1], env, fr)
            if env.dead:
                return ("val", NULL)
            if name == "operator+" and strip(e["t"]).startswith("std::basic_string"):
                return ("val", mk("call", "str+", x, y))
            return ("val", self.arith(name[8:], x, y, e["t"], a[0]["t"], a[1]["t"]))
        if name in ("sqrt", "fabs", "abs", "log", "log2", "log10", "exp", "pow", "floor", "ceil", "sin", "cos", "acos", "isnan", "isinf", "fmin", "fmax", "min", "max"):
            args = [self.ev(x, env, fr) for x in a]
            if name == "pow" and len(args) == 2 and is_c(args[1]) and args[1].a[0] in (2, 2.0):
                return ("val", mul(args[0], args[0]))
            if name in ("min", "max", "fmin", "fmax"):
                if len(args) == 2:
                    return ("val", mk("call", name[-3:], *sorted(args, key=lambda x: x.id)))
                return ("val", mk("call", q if q.startswith("std::numeric_limits") else name, *args))
            return ("val", mk("call", {"fabs": "abs"}.get(name, name), *args))
        if name in IO or q.startswith("std::operator<<"):
            args = [self.ev(x, env, fr) for x in a]
            if name == "gettimeofday":
                self.havoc(env, args[0], st)
            self.emit(env, "io", e, name=name, obj=None, args=args)
            if q.startswith("std::operator<<") or "stream" in e["t"]:
                return ("lv", args[0])
            return ("val", mk("ret", st))
        if name == "__assert_fail":
            self.emit(env, "assertfail", e)
            env.dead = True
            return ("val", NULL)
        if name in ("exit", "_exit", "abort", "terminate", "pthread_exit") or e.get("noret"):
            args = [self.ev(x, env, fr) for x in a]
            self.emit(env, "exit", e, name=name, args=args)
            env.dead = True
            return ("val", NULL)
        args = []
        pt = e.get("pt", [])
        for i, x in enumerate(a):
            t = pt[i] if i < len(pt) else x["t"]
            if isref(t) and not strip(t).startswith("std::basic_string") and (x["k"] in ("var", "mem", "idx") or (x["k"] == "un" and x["op"] == "*")) and "const" not in t:
                args.append(self.lv(x, env, fr))
            else:
                args.append(self.ev(x, env, fr))
        if name == "distance" and q.startswith("std::") and len(args) == 2:
            return ("val", self.ptrdiff(args[1], args[0]))
        if name in PURE or q.startswith("std::numeric_limits"):
            v = mk("call", q if q.startswith("std::numeric_limits") else name, *args)
            if name in ("accumulate", "max_element", "min_element", "find", "count", "upper_bound", "lower_bound"):
                b = args[0].a[0] if args and args[0].op == "I" else (args[0] if args else None)
                if b is not None:
                    ver = env.m.get(mk("V", b))
                    if ver is not None:
                        v = mk("call", name, *(args + [ver]))
                # the element type of accumulate's seed matters (int seed truncates)
                if name == "accumulate":
                    v = mk("call", "accumulate<%s>" % strip(e["t"]), *v.a[1:])
                    self.emit(env, "pure", e, name=name, args=args, ret=v, ty=strip(e["t"]))
            return ("val", v)
        return self.external(e, name, q, None, args, env, fr)

    def external(self, e, name, q, obj, args, env, fr):
        if env.dead:
            return ("val", NULL)
        st = self.site(fr, e)
        if e.get("noret"):
            self.emit(env, "exit", e, name=name, args=args)
            env.dead = True
            return ("val", NULL)
        if name.startswith("knor_"):
            # a stand-in's open question about an object
            while obj in env.copies:
                obj = env.copies[obj]
            return ("val", mk("call", name[5:], obj, *args))
        ret = mk("ret", st, name)
        t = strip(e.get("t", ""))
        if q.startswith("MPI::") and name.startswith("operator ") and isinstance(obj, T) and not args:
            return ("val", mk("sym", "MPI::" + show(obj).split("::")[-1].rstrip(")")))   # an MPI handle object used as a C handle
        self.emit(env, "call", e, name=name, q=q, obj=obj, args=args, ret=ret, noret=False)
        if name in MPI:
            # what is sent, from where, to where, how much of it, and how it is combined
            x = dict(zip(MPI[name].split(), args))
            src = x.get("src")
            if isinstance(src, T) and src.op in ("L", "F", "G"):
                x["v"] = self.load(env, src)
            x["comm"] = args[-2] if name == "MPI_Recv" else args[-1]
            self.emit(env, "mpi", e, name=name, ret=ret, **{k: v for k, v in x.items() if k != "_"})
        pt = e.get("pt", [])
        if name in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_timedwait"):
            # other threads may have written what the lock guards
            for v in args:
                if v.op == "F":
                    for f in self.opts.get("async", ("state",)):
                        env.m[mk("F", v.a[0], f)] = mk("hv", mk("F", v.a[0], f), st)
        if not name.startswith(LOCKISH):
            for i, v in enumerate(args):
                ty_ = pt[i] if i < len(pt) else ""
                if (ty_.rstrip().endswith("*") or isref(ty_)) and not ty_.startswith("const ") and isinstance(v, T):
                    self.havoc(env, v, st)
        if obj is not None and not e.get("const"):
            self.havoc(env, obj, st)
        if self.is_class(t):
            tmp = mk("tmp", st)
            return ("obj", tmp)
        return ("val", ret)

    def foreach(self, e, lo, hi, f, env, fr):
        n = self.ptrdiff(hi, lo)
        fnr = self.fnrec(f.a[0], fr)

        def body(env_, fr_, iv):
            loc = self.ptradd(lo, iv) if lo.op == "I" else mk("I", lo, iv)
            p = fnr["params"][0]
            arg = ("ref", loc) if isref(p["t"]) or self.is_class(p["t"]) else ("val", self.load(env_, loc))
            self.calllambda(f, None, env_, fr_, e, vals=[arg])
            return env_ if not env_.dead else None
        self.loop(e, env, fr, counted=n, cbody=body)

    # ------------------------------------------------------------ statements
    def stmt(self, s, env, fr):
        """returns the env at normal completion or None"""
        if s is None:
            return env
        if env.dead:
            return None
        k = s["k"]
        if k == "expr":
            self.ev(s["e"], env, fr)
            return None if env.dead else env
        if k == "seq":
            for x in s["b"]:
                env = self.stmt(x, env, fr)
                if env is None:
                    return None
            return env
        if k == "decl":
            for v in s["v"]:
                self.declare(v, env, fr)
                if env.dead:
                    return None
            return env
        if k == "if":
            if s.get("init"):
                env = self.stmt(s["init"], env, fr)
                if env is None:
                    return None
            if s.get("cv"):
                self.declare(s["cv"], env, fr)
            g = self.cond(s["c"], env, fr)
            if env.dead:
                return None
            return self.branch(s, g, lambda en: self.stmt(s["t"], en, fr), lambda en: self.stmt(s["e"], en, fr), env)
        if k == "loop":
            return self.loop(s, env, fr)
        if k == "rfor":
            return self.rfor(s, env, fr)
        if k == "return":
            val = None
            if s["e"] is not None:
                e = s["e"]
                rt = fr.fn["ret"]
                if isref(rt):
                    val = ("lv", self.lv_or_tmp(e, env, fr))
                elif self.is_class(rt):
                    if e["k"] == "ctor" and e.get("copy") and len(e["a"]) == 1:
                        e = e["a"][0]
                    val = ("obj", self.ev(e, env, fr))
                else:
                    val = ("val", self.ev(e, env, fr))
            if env.dead:
                return None
            self.emit(env, "return", s, val=val[1] if val else None, depth=len(self.stack))
            fr.returns.append((env, val))
            return None
        if k == "break":
            self.emit(env, "break", s)
            fr.loops[-1]["brk"].append(env)
            return None
        if k == "continue":
            self.emit(env, "continue", s)
            for l in reversed(fr.loops):
                if l["kind"] == "loop":
                    l["cont"].append(env)
                    break
            return None
        if k == "nop":
            return env
        if k == "switch":
            return self.switch(s, env, fr)
        if k == "try":
            return self.try_(s, env, fr)
        if k == "omp":
            return self.omp(s, env, fr)
        if k == "label":
            return self.stmt(s["b"], env, fr)
        self.warn.append("unhandled statement %s at %s" % (k, s.get("l")))
        return env

    def declare(self, v, env, fr):
        loc = mk("L", fr.id, v["id"], v["n"])
        t = v["t"]
        if v.get("static"):
            loc = mk("G", "static:" + fr.fn["q"] + "::" + v["n"])
            fr.vars[v["id"]] = loc
            return
        if isref(t):
            e = v.get("init")
            if e is None:
                fr.vars[v["id"]] = loc
                return
            if self.is_class(t):
                l = self.lv_or_tmp(e, env, fr) if e["k"] != "call" else self.ev(e, env, fr)
            elif e["k"] in ("var", "mem", "idx") or e["k"] == "un" and e["op"] == "*" or (e["k"] == "call" and self.call_is_lv(e)) or e["k"] == "cond":
                l = self.lv(e, env, fr)
            else:
                l = loc
                val = self.ev(e, env, fr)
                env.m[loc] = val
                env.locals.add(loc)
            fr.vars[v["id"]] = l
            return
        fr.vars[v["id"]] = loc
        env.locals.add(loc)
        if isint(t) or t.rstrip().endswith(("*", "*const")):
            self.intlocs.add(loc)
        for q in [q for q in env.m if self.under(q, loc)]:
            del env.m[q]
        env.copies.pop(loc, None)
        env.fills.pop(loc, None)
        if v.get("init") is not None:
            self.init(loc, t, v["init"], env, fr)
            if not self.is_class(t) and not env.dead and loc in env.m:
                nd = self.emit(env, "store", v, lv=loc, val=env.m[loc], old=None, op="=", rhs=env.m[loc], local=True, atomic=False, init=True)
                nd.d["t"] = t
        else:
            if not self.is_class(t):
                env.m[loc] = mk("undef", loc)

    def branch(self, s, g, th, el, env):
        if g.op == "c":
            return th(env) if g.a[0] else el(env)
        save = self.out
        e1, e2 = env.copy(), env
        e2 = env.copy()
        e1.pc = env.pc + (g,)
        e2.pc = env.pc + (not_(g),)
        nd = Node("if", s.get("l", ""), env.pc, cond=g, then=[], els=[])
        nd.fn = self.stack[-1].fn["q"]
        self.out = nd.d["then"]
        r1 = th(e1)
        if r1 is not None and r1.dead:
            r1 = None
        nd.d["then"] = self.out
        self.out = nd.d["els"]
        r2 = el(e2)
        if r2 is not None and r2.dead:
            r2 = None
        nd.d["els"] = self.out
        self.out = save
        self.out.append(nd)
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        j = self.join(r1, r2)
        return j

    def gate(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        if n < len(a.pc):
            return and_(*a.pc[n:])
        if n < len(b.pc):
            return not_(and_(*b.pc[n:]))
        return mk("sym", "?join")

    def join(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        g = self.gate(a, b)
        r = Env()
        sa, sb = a.pc[n:], b.pc[n:]
        r.pc = a.pc[:n]
        if sa and sb:
            o = or_(and_(*sa), and_(*sb))
            if o.op != "c" and sum(1 for _ in walk(o)) < 60:
                if not (len(sa) == 1 and len(sb) == 1 and not_(sa[0]) is sb[0]):
                    r.pc = r.pc + (o,)
        am, bm = a.m, b.m
        for k, va in am.items():
            vb = bm.get(k)
            if vb is va:
                r.m[k] = va
                continue
            if vb is None:
                rt = self.rootloc(k)
                if rt.op in ("L", "tmp"):
                    if rt.op == "L" and rt not in b.locals:
                        continue
                    vb = self.load(b, k)
                elif k.op == "V":
                    vb = FALSE
                elif k.op == "size":
                    vb = self.load(b, k)
                else:
                    vb = self.load(b, k)
            r.m[k] = phi(g, va, vb)
        for k, vb in bm.items():
            if k in am:
                continue
            rt = self.rootloc(k)
            if rt.op in ("L", "tmp"):
                if rt.op == "L" and rt not in a.locals:
                    continue
                va = self.load(a, k)
            elif k.op == "V":
                va = FALSE
            else:
                va = self.load(a, k)
            r.m[k] = phi(g, va, vb)
        for k, v in a.copies.items():
            w = b.copies.get(k)
            if w is None or w is v:
                r.copies[k] = v
            elif v is OWN or w is OWN:
                r.copies[k] = OWN
            elif v.op == "snap" and v.a[0] is w:
                r.copies[k] = v
            elif w.op == "snap" and w.a[0] is v:
                r.copies[k] = w
            else:
                r.copies[k] = phi(g, v, w)
        for k, v in b.copies.items():
            if k not in r.copies:
                r.copies[k] = v
        for k, v in a.fills.items():
            if k in b.fills:
                r.fills[k] = phi(g, v, b.fills[k])
        r.locals = a.locals & b.locals
        r.dyn = dict(a.dyn)
        for k, v in b.dyn.items():
            if r.dyn.get(k, v) == v:
                r.dyn[k] = v
        return r

    def switch(self, s, env, fr):
        v = self.ev(s["c"], env, fr)
        if env.dead:
            return None
        items = s["b"]
        groups = []   # (labels, index)
        i = 0
        while i < len(items):
            if items[i]["k"] in ("case", "default"):
                labs = []
                while i < len(items) and items[i]["k"] in ("case", "default"):
                    labs.append(items[i])
                    i += 1
                groups.append((labs, i))
            else:
                i += 1
        lc = {"kind": "switch", "brk": [], "cont": []}
        outs = []

        def run_from(en, idx):
            fr.loops.append(lc)
            for it in items[idx:]:
                if it["k"] in ("case", "default"):
                    continue
                en = self.stmt(it, en, fr)
                if en is None:
                    break
            fr.loops.pop()
            return en

        conds = []
        dflt = None
        for labs, idx in groups:
            cs = []
            for l in labs:
                if l["k"] == "default":
                    dflt = idx
                else:
                    cs.append(eq(v, self.ev(l["v"], env, fr)))
            conds.append((self.decide(env, or_(*cs)) if cs else FALSE, idx, labs))

        def chain(i, en):
            if i == len(conds):
                if dflt is None:
                    return en
                return run_from(en, dflt)
            g, idx, labs = conds[i]
            g = self.decide(en, g)
            return self.branch({"l": labs[0].get("l", s["l"])}, g, lambda x: run_from(x, idx), lambda x: chain(i + 1, x), en)
        save, self.out = self.out, []
        r = chain(0, env)
        body, self.out = self.out, save
        nd = Node("switch", s.get("l", ""), env.pc, body=body, on=v)
        nd.fn = self.stack[-1].fn["q"]
        self.out.append(nd)
        envs = lc["brk"] + ([r] if r is not None and not r.dead else [])
        return self.joinall(envs)

    def joinall(self, envs):
        envs = [e for e in envs if e is not None and not e.dead]
        if not envs:
            return None
        # join neighbours with the longest common path condition first
        r = envs[-1]
        for e in reversed(envs[:-1]):
            r = self.join(e, r)
        return r

    def try_(self, s, env, fr):
        save = self.out
        e0 = env.copy()
        self.out = []
        r = self.stmt(s["b"], env, fr)
        body = self.out
        hs, outs = [], []
        if r is not None and not r.dead:
            outs.append(r)
        x = mk("exc", self.site(fr, s))
        for h in s["h"]:
            e1 = e0.copy()
            e1.pc = e0.pc + (x,)
            self.out = []
            if h.get("v"):
                loc = mk("L", fr.id, h["v"]["id"], h["v"]["n"])
                fr.vars[h["v"]["id"]] = loc
            r1 = self.stmt(h["b"], e1, fr)
            hs.append(self.out)
            if r1 is not None and not r1.dead:
                outs.append(r1)
        self.out = save
        self.emit(env if r is None else r, "try", s, body=body, handlers=hs, htypes=[strip(h["v"]["t"]) if h.get("v") else "..." for h in s["h"]])
        return self.joinall(outs)

    def omp(self, s, env, fr):
        save, self.out = self.out, []
        cl = s["cl"]
        outs = {}
        vars_ = {}
        for x in cl:
            for v in x["vars"]:
                if "id" in v:
                    vars_.setdefault(x["c"], []).append((fr.lookup(v["id"]) or mk("L", fr.id, v["id"], v["n"]), x.get("op")))
        if "critical" not in s["d"] and "atomic" not in s["d"]:
            for kind in ("private",):
                for loc, _ in vars_.get(kind, []):
                    env.m[loc] = mk("undef", loc)
        outer_locals = set(env.locals)
        r = self.stmt(s.get("b"), env, fr)
        body, self.out = self.out, save
        self.emit(r if r is not None else env, "omp", s, dir=s["d"], clauses=vars_, body=body, locals=outer_locals, frame=fr.id, decls=declared(s.get("b")),
                  ncollapse=[x["n"] for x in cl if x["c"] == "collapse"])
        return r

    def rfor(self, s, env, fr):
        rt = strip(s["rt"])
        base = self.lv_or_tmp(s["r"], env, fr)
        if env.dead:
            return None
        v = s["v"]
        if rt.startswith(VEC):
            n = self.size(env, base)
        else:
            n = mk("call", "rangesize", base)

        def body(env_, fr_, iv):
            el = mk("I", base, iv)
            loc = mk("L", fr_.id, v["id"], v["n"])
            if isref(v["t"]):
                fr_.vars[v["id"]] = el
            else:
                fr_.vars[v["id"]] = loc
                env_.locals.add(loc)
                if self.is_class(v["t"]):
                    self.copyobj(env_, loc, el)
                else:
                    env_.m[loc] = self.load(env_, el)
            return self.stmt(s["b"], env_, fr_)
        return self.loop(s, env, fr, counted=n, cbody=body)

    def loop(self, s, env, fr, counted=None, cbody=None):
        if counted is None and s.get("init") is not None:
            env = self.stmt(s["init"], env, fr)
            if env is None:
                return None
        kind = s.get("kind", "for")
        lid = mk("lid", fr.id, self.node_id(s))
        iv = mk("iv", lid)
        mods, banned, retried = {}, set(), set()
        seed = self.loopseed.get(lid)
        if seed is not None:
            # start from what an earlier visit of this loop (an outer pass) settled on
            for k, md in seed[0].items():
                rt = self.rootloc(k)
                if rt.op == "L" and rt not in env.locals:
                    continue
                mods[k] = list(md)
            banned, retried = set(seed[1]), set(seed[2])
        entry = env
        result = None
        for it in range(12):
            if mods and entry.copies:
                entry = entry.copy()
                for k in mods:
                    if k.op == "V":
                        self.snap_elems(entry, k.a[0])
                    else:
                        self.snap_scalar(entry, k)
            res = self.iterate(s, entry, fr, lid, iv, mods, counted, cbody, kind)
            back, head = res["back"], res["head"]
            changed = False
            if back is not None:
                keys = set(back.m) | set(head.m)
                for k in keys:
                    rt = self.rootloc(k)
                    if rt.op == "L" and rt not in entry.locals:
                        continue
                    if rt.op == "tmp":
                        continue
                    vh = head.m[k] if k in head.m else (FALSE if k.op == "V" else self.load(head, k))
                    vb = back.m[k] if k in back.m else (FALSE if k.op == "V" else self.load(back, k))
                    if k.op == "I" and k not in entry.m and k not in mods:
                        # element facts established inside the body: forget at the head
                        continue
                    if k not in mods:
                        if vh is not vb:
                            mods[k] = ["mu", None]
                            changed = True
                    else:
                        md = mods[k]
                        mu = mk("mu", lid, k)
                        if md[0] == "mu" and k not in banned and k.op != "V":
                            stp = self.step(vb, mu, lid, iv)
                            if stp is not None:
                                md[0], md[1] = "iv", stp
                                changed = True
                        elif md[0] == "iv":
                            if vb is not self.advance(vh, md[1]):
                                md[0], md[1] = "mu", None
                                banned.add(k)
                                changed = True
                # fills / copies that change
                for k in list(entry.fills):
                    if back.fills.get(k) is not entry.fills[k]:
                        if k not in res.get("fdrop", ()):
                            entry = entry.copy()
                            entry.fills.pop(k, None)
                            changed = True
            if not changed and back is not None:
                # keys that turned out not to change once the rest of the state was known
                for k in list(mods):
                    if mods[k][0] == "mu" and k not in retried:
                        vb = back.m[k] if k in back.m else (FALSE if k.op == "V" else self.load(back, k))
                        if vb is mk("mu", lid, k):
                            retried.add(k)
                            del mods[k]
                            changed = True
            result = res
            if not changed:
                break
        self.loopseed[lid] = (mods, banned, retried)
        # record final pass
        res = result
        body = res["body"]
        mrec = {}
        back = res["back"]
        for k, md in mods.items():
            init = entry.m[k] if k in entry.m else (FALSE if k.op == "V" else self.load(entry, k))
            mrec[k] = dict(mode=md[0], step=md[1], init=init, head=res["head"].m.get(k), back=(back.m.get(k) if back is not None else None))
        nd = Node("loop", s.get("l", ""), entry.pc, lid=lid, iv=iv, cond=res["cond"], body=body, mods=mrec, lkind=kind, depth=len(self.stack),
                  nbreaks=len(res["brk"]), latch=res.get("latch"))
        nd.fn = self.stack[-1].fn["q"]
        self.out.append(nd)
        # exit environment
        outs = []
        condexit = res["exit"]
        ends = {}
        trip = self.trip(res["cond"], iv)
        for en, isbrk in [(condexit, False)] + [(b, True) for b in res["brk"]]:
            if en is None:
                continue
            outs.append(en)
        if not outs:
            return None
        ex = self.joinall(outs)
        ivend = mk("ivend", lid)
        if trip is not None and not res["brk"] and kind != "do":
            ivend = trip
        mp = {iv: ivend}
        for k, md in mods.items():
            if md[0] == "mu":
                mp[mk("mu", lid, k)] = mk("muend", lid, k)
        memo = {}
        for k in list(ex.m):
            rt = self.rootloc(k)
            if rt.op == "L" and rt not in entry.locals:
                del ex.m[k]
                continue
            k2 = subst(k, mp, memo)
            v2 = subst(ex.m[k], mp, memo)
            if k2 is not k:
                del ex.m[k]
                if k2 in ex.m:
                    continue
            ex.m[k2] = v2
        pc = ex.pc[len(entry.pc):] if ex.pc[:len(entry.pc)] == entry.pc else ()
        ex.pc = entry.pc + tuple(x for x in (subst(p, mp, memo) for p in pc) if x.op != "c")
        ex.locals = entry.locals & ex.locals if ex.locals else set(entry.locals)
        ex.locals = {l for l in entry.locals}
        ex.copies = {k: subst(v, mp, memo) for k, v in ex.copies.items()}
        ex.fills = {k: v for k, v in ex.fills.items() if k in entry.fills or not contains(v, iv)}
        return ex

    def step(self, vb, mu, lid, iv):
        if vb is None:
            return None
        inv = lambda d: is_c(d) or mu.a[1] in self.intlocs and not any(x is iv or x.op in ("mu", "muend") and x.a[0] == lid or x.op in ("hv", "ald", "call") for x in walk(d))
        if vb.op == "I" and vb.a[0] is mu and inv(vb.a[1]):
            return mk("I", vb.a[1])     # a pointer
        d = sub(vb, mu) if vb.op in ("+", "mu", "c", "*") else None
        if d is not None and inv(d) and d is not c(0):
            return d
        return None

    def advance(self, vh, step, n=None):
        if step.op == "I":
            return self.ptradd(vh, step.a[0] if n is None else mul(step.a[0], n))
        if n is not None:
            step = mul(step, n)
        if vh.op == "I":
            return self.ptradd(vh, step)
        return add(vh, step)

    def trip(self, cond, iv):
        """number of iterations if the loop is controlled by a plain counter test"""
        if cond is None:
            return None
        if cond.op == "<" and not contains(cond.a[1], iv):
            d = sub(cond.a[0], iv)
            if not contains(d, iv):
                return sub(cond.a[1], d)
        if cond.op == "<=" and not contains(cond.a[1], iv):
            d = sub(cond.a[0], iv)
            if not contains(d, iv):
                return add(sub(cond.a[1], d), c(1))
        if cond.op == "!" and cond.a[0].op == "==":
            x, y = cond.a[0].a
            if not contains(x, iv):
                x, y = y, x
            d = sub(x, iv)
            if not contains(d, iv) and not contains(y, iv):
                return sub(y, d)
            d = add(x, iv)      # counting down
            if not contains(d, iv) and not contains(y, iv):
                return sub(d, y)
        if cond.op == "<" and not contains(cond.a[0], iv):
            d = add(cond.a[1], iv)   # lo < hi - iv
            if not contains(d, iv):
                return sub(d, cond.a[0])
        if cond.op == "<=" and not contains(cond.a[0], iv):
            d = add(cond.a[1], iv)
            if not contains(d, iv):
                return add(sub(d, cond.a[0]), c(1))
        return None

    def iterate(self, s, entry, fr, lid, iv, mods, counted, cbody, kind):
        save, self.out = self.out, []
        head = entry.copy()
        for k, md in mods.items():
            if md[0] == "mu":
                head.m[k] = mk("mu", lid, k)
            else:
                init = entry.m[k] if k in entry.m else self.load(entry, k)
                head.m[k] = self.advance(init, md[1], iv)
        # forget element facts of arrays whose contents change in the loop
        for k in list(head.m):
            if k.op == "I" and mk("V", k.a[0]) in mods and k not in mods:
                del head.m[k]
        for k in list(head.fills):
            if mk("V", k) in mods:
                del head.fills[k]
        for k in list(head.copies):
            if mk("V", k) in mods:
                del head.copies[k]
        h0 = head.copy()
        lc = {"kind": "loop", "brk": [], "cont": []}
        fr.loops.append(lc)
        cur = head.copy()
        exit_ = None
        g = None
        if kind != "do":
            if counted is not None:
                g = lt(iv, counted)
            elif s.get("c") is not None:
                g = self.cond(s["c"], cur, fr)
            else:
                g = TRUE
            if g.op != "c":
                exit_ = cur.copy()
                exit_.pc = cur.pc + (not_(g),)
                cur.pc = cur.pc + (g,)
            elif not g.a[0]:
                exit_ = cur
                cur = None
        if cur is not None and cur.dead:
            cur = None
        end = None
        if cur is not None:
            if cbody is not None:
                end = cbody(cur, fr, iv)
            else:
                end = self.stmt(s["b"], cur, fr)
        fr.loops.pop()
        back = self.joinall(lc["cont"] + ([end] if end is not None and not end.dead else []))
        latch = None
        if back is not None and s.get("inc") is not None and cbody is None:
            self.ev(s["inc"], back, fr)
            if back.dead:
                back = None
        if kind == "do" and back is not None:
            latch = self.cond(s["c"], back, fr)
            if latch.op != "c":
                exit_ = back.copy()
                exit_.pc = back.pc + (not_(latch),)
            elif not latch.a[0]:
                exit_ = back
                back = None
        body, self.out = self.out, save
        return dict(back=back, head=h0, body=body, cond=g, exit=exit_, brk=lc["brk"], latch=latch)

    # ------------------------------------------------------------ entry
    def entry(self, fnr, this=None, thiscls=None, args=None, pre=None, pc=()):
        """interpret fnr; returns (root enter-node, env, ret)"""
        env = Env()
        env.pc = tuple(pc)
        for k, v in (pre or {}).items():
            env.m[k] = v
        this = this if this is not None else sym("this")
        al = []
        for i, p in enumerate(fnr["params"]):
            if args is not None and i < len(args) and args[i] is not None:
                al.append(args[i] if isinstance(args[i], tuple) else ("val", args[i]))
            else:
                s_ = sym(p["n"] or "arg%d" % i)
                if self.is_class(p["t"]):
                    al.append(("ref", s_))
                elif isref(p["t"]):
                    al.append(("ref", mk("G", "arg:" + (p["n"] or str(i)))))
                else:
                    al.append(("val", s_))
        self.out = []
        self.stack = []
        obj = None if (fnr.get("static") or not fnr.get("cls")) else this
        r = self.inline(fnr, obj, thiscls or fnr.get("cls"), al, env, None, None)
        root = self.out[-1]
        return root, env, r[1]


def fr_this(fr):
    f = fr
    while f is not None:
        if f.this is not None:
            return f.this
        f = f.lex
    return sym("this")


# ------------------------------------------------------------------ effect tree helpers
def allnodes(root):
    """pre-order walk over an effect tree: (node, ancestors)"""
    st = [(root, ())]
    while st:
        n, anc = st.pop()
        yield n, anc
        kids = []
        for b in n.bodies():
            for x in b:
                kids.append((x, anc + (n,)))
        st += reversed(kids)


def cut(x, n=160):
    x = show(x) if isinstance(x, T) else str(x)
    return x if len(x) <= n else x[:n] + "~"


def dump(n, ind=0, out=None, maxd=99):
    out = out if out is not None else []
    p = "  " * ind
    d = n.d
    if n.kind == "enter":
        out.append("%s%s(%s) obj=%s  [%s]" % (p, d["q"], ", ".join(cut(x) for x in d["args"] if isinstance(x, T)), cut(d["obj"]) if d["obj"] is not None else "-", n.loc))
    elif n.kind == "if":
        out.append("%sif %s  [%s]" % (p, cut(d["cond"]), n.loc))
    elif n.kind == "loop":
        out.append("%sloop %s while %s [%s] mods={%s}" % (p, cut(d["iv"]), cut(d["cond"]) if d["cond"] is not None else "-", n.loc,
                   "; ".join("%s:%s %s->%s" % (cut(k), v["mode"], cut(v["init"]), cut(v["back"]) if v["back"] is not None else "-") for k, v in d["mods"].items() if k.op != "V")))
    else:
        out.append("%s%s %s [%s]" % (p, n.kind, " ".join("%s=%s" % (k, cut(v) if isinstance(v, T) else ([cut(y) if isinstance(y, T) else y for y in v] if isinstance(v, list) else v)) for k, v in d.items() if k not in ("body", "handlers", "t", "local", "atomic") and v is not None), n.loc))
    if ind < maxd:
        if n.kind == "if":
            for x in d["then"]:
                dump(x, ind + 1, out, maxd)
            if d["els"]:
                out.append(p + "else")
                for x in d["els"]:
                    dump(x, ind + 1, out, maxd)
        else:
            for b in n.bodies():
                for x in b:
                    dump(x, ind + 1, out, maxd)
    return out
