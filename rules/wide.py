"""Positions in the data are computed in 64 bits."""
from rows import *
import terms

SIZED = ("fseek", "fseeko", "fread", "fwrite", "numa_alloc_onnode", "numa_alloc_local", "numa_alloc", "malloc", "calloc", "numa_free")


def iscol(x):
    x = x.a[0] if x.op in ("ld", "ald", "hv") else x
    if x.op == "F":
        return x.a[1] in ("ncol", "g_ncol")
    return x.op == "sym" and str(x.a[0]).lower() in ("ncol", "num_cols", "ncols", "m", "dim")


def databases(i):
    b = i.a[0]
    while b.op in ("ld", "ald", "hv", "I"):
        b = b.a[0]
    if b.op == "F":
        return b.a[1] in ("local_data", "data", "dense_data", "mat")
    return b.op == "sym" and any(s in str(b.a[0]).lower() for s in ("data", "matrix"))


def big(t):
    """monomials with a row-like and the column factor"""
    return [m for m, k in terms.poly(t).items() if any(isblock(x) for x in m) or len(m) >= 2 and any(iscol(x) for x in m) and not all(iscol(x) for x in m)]


def isblock(x):
    """the byte size of a block of rows"""
    x = x.a[0] if x.op in ("ld", "ald", "hv") else x
    return x.op == "F" and x.a[1] == "data_size"


def trees(cx):
    m = cx.model
    for fm in m.fams:
        for meth in ("run", "mb_run"):
            if fm.name == "gmm" or meth == "mb_run" and fm.name != "kmeans_task":
                continue
            yield fm.name + "::" + meth, m.drive(fm, meth)
        for ph in PHASES.get(fm.name, ()) + ("ALLOC_DATA",):
            yield fm.name + ":" + ph, m.work(fm, ph)
        f = m.db.find_method(fm.coord, "get_thd_data")
        if f is not None:
            yield fm.name + "::get_thd_data", m.tree(f, fm.coord, fm)
        if "task" in fm.name:
            yield fm.name + "::get_task", m.tree(m.db.find_method("knor::task_queue", "get_task"), "knor::task_queue", fm)
    for q, fs in sorted(m.db.byq.items()):
        if "::bin_io<" in q or q.endswith("::store_cluster") or "::dense_matrix<" in q and not q.endswith("::print"):
            for f in fs:
                yield q, m.tree(f, None if q.endswith("store_cluster") else q.rsplit("::", 1)[0])


def c27(cx):
    n = 0
    for name, t in list(trees(cx)) + [(nm, t) for nm, t, L, b in __import__("kmeans").autos(cx)]:
        cx.seen(t)
        I = t[3]
        small = {}
        for v, how, l, fn in I.narrow:
            for m in big(v):
                small.setdefault(frozenset_(m), (how, l, fn))
        used = {}

        def use(m, where):
            used.setdefault(frozenset_(m), where)
        for nd, a in allnodes(t[0]):
            for v in terms_of(nd):
                for x in walk(v):
                    if x.op == "I" and databases(x):
                        for m in big(x.a[1]):
                            use(m, loc(nd))
            if nd.kind == "call" and nd.name in SIZED:
                for v in nd.args:
                    if isinstance(v, T):
                        for m in big(v):
                            use(m, loc(nd))
            if nd.kind == "store" and fieldname(nd.lv) == "data_size":
                for m in big(nd.val):
                    use(m, loc(nd))
        if isinstance(t[2], T):
            for x in walk(t[2]):
                if x.op == "I" and databases(x):
                    for m in big(x.a[1]):
                        use(m, name)
        n += len(used)
        for m, where in used.items():
            s = small.get(m)
            cx.check(s is None, "position in 64 bits", "C27:%s:%s" % (s[2], "*".join(sorted(cshow(x) for x in m))[:80]) if s else "", s[1] + " (" + s[2] + ")" if s else where,
                     "the product %s is %s in 32 bits although it is a position in the data (used at %s)" % ("*".join(sorted(cshow(x) for x in m)), s[0] if s else "", where))
    if n < 30:
        raise AnalysisBroken("only %d positions found" % n)


def frozenset_(m):
    return tuple(sorted(m, key=lambda x: x.id))
