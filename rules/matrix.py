"""Matrix and vector operations: each computes its definition over all its entries, whatever the sizes."""
from kmeans import *
from metric import returned
from canon import *
from spec import *
import terms

DM, LA = "knor::base::dense_matrix<double>", "knor::base::linalg"
MSG = "a matrix operation does not compute its definition"


def find(c, cls, name, *types):
    """the function of that name whose parameter types contain the given words, in order"""
    out = []
    for f in c.model.db.fn.values():
        if f.get("body") is None or f.get("cls") != cls and f["q"].rsplit("::", 1)[0] != cls or short(f["q"]).split("<")[0] != name:
            continue
        P = f["params"]
        if len(P) == len(types) and all(re.search(t, p["t"]) for t, p in zip(types, P)):
            out.append(f)
    return out


def summ(c, f, names, consts=None, locals_=False, mac=True):
    """summary of f with its parameters called by the given names (or fixed to a constant)"""
    args = []
    for p, n in zip(f["params"], names):
        if consts and n in consts:
            args.append(("val", terms.c(consts[n])))
            continue
        s_ = terms.sym(n)
        ty = p["t"]
        if "vector" in ty or "dense_matrix" in ty and "&" in ty:
            args.append(("ref", s_))
        elif ty.rstrip().endswith("&"):
            args.append(("ref", mk("G", "arg:" + n)))
        else:
            args.append(("val", s_))
    t = c.model.tree(f, f.get("cls"), args=args, key="named:%s:%s" % (",".join(names), sorted((consts or {}).items())))
    s = Sum(c, t, locals_=locals_)
    s.f, s.t = f, t
    if mac:
        norm(s)
    return s


def norm(s):
    for n in ("n", "N"):
        s.rx(r"!\(%s <= 1\)|!\(%s < 2\)|\(1 < %s\)|\(2 <= %s\)" % (n, n, n, n), "!(1 == %s)" % n)
        s.rx(r"\(%s <= 1\)|\(%s < 2\)" % (n, n), "(1 == %s)" % n)


def two(r, cn):
    """loops over the columns q0 < cn and rows q1 < r"""
    if cn < r:
        return "for q0<%s for q1<%s" % (cn, r), "q0", "q1"
    return "for q0<%s for q1<%s" % (r, cn), "q1", "q0"


def at(m, row, col, ncol, brk=True):
    a = sorted(["%s" % col, "*".join(sorted([row, ncol]))])
    return "%s[(%s)]" % (m, " + ".join(a))


def every(op, r="this.nrow", cn="this.ncol", guard=""):
    """alternatives for an element-wise effect: op(entry index text, other index) over all entries"""
    n = "*".join(sorted([r, cn]))
    hd, col, row = two(r, cn)
    g = " if %s" % guard if guard else ""
    i = " + ".join(sorted([col, "*".join(sorted([row, cn]))]))
    out = []
    for h, x in (("for q0<%s%s : " % (n, g), "[q0]"), ("%s%s : " % (hd, g), "[(%s)]" % i)):
        o = op(x)
        out.append(tuple(h + y for y in o) if isinstance(o, tuple) else h + o)
    return out


def same(s):
    """the operands of an element-wise operation have the same size"""
    s.rx(r"\[\(o\.ncol\*(q\d) \+ (q\d)\)\]", r"[(\2 + \1*this.ncol)]")
    s.rx(r"\bo\.(nrow|ncol)\b", r"this.\1")
    s.rx(r"\bthis\.nrow\*this\.ncol\b", "this.ncol*this.nrow")


def total(v):
    """a sum over all entries, in one loop or in two"""
    out = ["sum(%s, j0, %s)" % (n, v.replace("@", "j0")) for n in ("this.ncol*this.nrow", "size(this.mat)")]
    for a, b, i in (("nrow", "ncol", "(j0 + j1*this.ncol)"), ("ncol", "nrow", "(j0*this.ncol + j1)")):
        out.append("sum(this.%s, j1, sum(this.%s, j0, %s))" % (a, b, v.replace("@", i)))
    return out


def ret(c, s):
    return set(returned(c, s, s.t, lambda x: x))


def value(c, key, s, want, what):
    got = ret(c, s)
    c.check(got in [set([w]) if isinstance(w, str) else set(w) for w in want], "returned value", key, s.f["q"], "%s: %s returns %s" % (MSG, what, sorted(got)[:3]))


NEW = "new<%s>" % DM


def sized(s, r, cn, M=NEW):
    return [": %s.nrow = %s" % (M, r), ": %s.ncol = %s" % (M, cn)]


def c31(c):
    n0 = 0
    U, V, D, M = r"^(const )?unsigned|size_t|unsigned long", "vector", r"^(const )?double$", "dense_matrix"
    R, C = "this.nrow", "this.ncol"
    hd, col, row = two(R, C)
    ent = lambda r_, c_, cn=C: " + ".join(sorted([c_, "*".join(sorted([r_, cn]))]))
    E = "this.mat[(%s)]" % ent(row, col)

    def op(cls, name, types, names, required, fields, what, consts=None, drop=None, locals_=False, seq=(), allowed=()):
        nonlocal n0
        fs = find(c, cls, name, *types)
        for f in fs:
            n0 += 1
            s = summ(c, f, names, consts, locals_)
            if drop:
                drop(s)
            s.check("C31:%s%s" % (what, sorted((consts or {}).items()) if consts else ""), "operation " + what, required, fields=fields, where=f["q"],
                    msg="%s: %s" % (MSG, what), seq=seq, allowed=allowed)
        return fs

    # entries
    for f in find(c, DM, "get", U, U):
        n0 += 1
        s = summ(c, f, ["row", "col"])
        value(c, "C31:get", s, ["this.mat[(col + row*this.ncol)]"], "an entry")
    op(DM, "set", (U, U, D), ["row", "col", "val"], [": this.mat[(col + row*this.ncol)] = val"], ("mat",), "set entry")
    op(DM, "peq", (U, U, D), ["row", "col", "val"], [": this.mat[(col + row*this.ncol)] += val"], ("mat",), "add to entry")
    op(DM, "set", (r"\*",), ["d"], [[": copy dst=this.mat[0] src=d[0] n=this.ncol*this.nrow"] + every(lambda i: "this.mat%s = d%s" % (i, i))], ("mat",), "set all")
    op(DM, "set_row", (r"\*", U), ["d", "rid"], [[": copy dst=this.mat[rid*this.ncol] src=d[0] n=this.ncol",
        "for q0<this.ncol : this.mat[(q0 + rid*this.ncol)] = d[q0]"]], ("mat",), "set row")
    op(DM, "zero", (), [], [[": fill base=this.mat lo=0 hi=size(this.mat) val=0", ": fill base=this.mat lo=0 hi=this.ncol*this.nrow val=0",
        "for q0<size(this.mat) : this.mat[q0] = 0"] + every(lambda i: "this.mat%s = 0" % i)], ("mat",), "zero")
    op(DM, "resize", (U, U), ["r", "k"], [": resize obj=this.mat n=k*r val=0", ": this.nrow = r", ": this.ncol = k"], ("mat", "nrow", "ncol"), "resize")
    op(DM, "copy_from", (M,), ["dm"], [": resize obj=this.mat n=dm.ncol*dm.nrow val=0", ": this.nrow = dm.nrow", ": this.ncol = dm.ncol",
        [": copy dst=this.mat[0] src=dm.mat[0] n=dm.ncol*dm.nrow", "for q0<dm.ncol*dm.nrow : this.mat[q0] = dm.mat[q0]"]], ("mat", "nrow", "ncol"), "copy")
    op(DM, "create", (M,), ["o"], sized(None, "o.nrow", "o.ncol") + [[": copy dst=%s.mat[0] src=o.mat[0] n=o.ncol*o.nrow" % NEW,
        "for q0<o.ncol*o.nrow : %s.mat[q0] = o.mat[q0]" % NEW]], ("nrow", "ncol"), "copy of a matrix")
    for z in (0, 1):
        op(DM, "create", (U, U, "bool"), ["r", "k", "z"], sized(None, "r", "k") + [[": fill base=%s.mat lo=0 hi=k*r val=0" % NEW,
            ": resize obj=%s.mat n=k*r val=0" % NEW]], ("nrow", "ncol"), "create", consts={"z": z})

    # element-wise
    for sgn, o, ds in (("operator-", "(-1*o.mat%s + this.mat%s)", ("+= (-1*o.mat%s)", "+= -1*o.mat%s", "-= o.mat%s")), ("operator+", "(o.mat%s + this.mat%s)", ("+= o.mat%s",))):
        steps = [y for d in ds for y in every(lambda i: ("%s.mat%s = this.mat%s" % (NEW, i, i), "%s.mat%s " % (NEW, i) + d % i))]
        steps += [y for d in ds for y in [(": copy dst=%s.mat[0] src=this.mat[0] n=this.ncol*this.nrow" % NEW, x) for x in every(lambda i: "%s.mat%s " % (NEW, i) + d % i)]]
        op(DM, sgn, (M,), ["o"], sized(None, R, C) + [every(lambda i: "%s.mat%s = " % (NEW, i) + o % (i, i)) + steps], ("mat", "nrow", "ncol"), sgn, drop=same, allowed=(": fill base=%s.mat lo=0 hi=this.ncol*this.nrow val=0" % NEW,))
    op(DM, "operator+=", (M,), ["o"], [every(lambda i: "this.mat%s += o.mat%s" % (i, i))], ("mat",), "operator+=", drop=same)
    op(DM, "operator/=", (D,), ["x"], [every(lambda i: "this.mat%s /= x" % i) + every(lambda i: "this.mat%s = 1/(x)*this.mat%s" % (i, i))
                                       + every(lambda i: "this.mat%s *= 1/(x)" % i)], ("mat",), "division by a number")
    op(DM, "pow_eq", (D,), ["x"], [every(lambda i: "this.mat%s = pow(this.mat%s, x)" % (i, i))], ("mat",), "power of every entry")

    def by(vi, g):
        return [hd + (" if %s" % x if x else "") + " : " + y for x in g for y in
                ("%s /= v[%s]" % (E, vi), "%s *= 1/(v[%s])" % (E, vi), "%s = 1/(v[%s])*%s" % (E, vi, E))]
    isr, isc = "(size(v) == this.nrow)", "(size(v) == this.ncol)"
    op(DM, "operator/=", (V,), ["v"], [by(row, [isr, isr + " && !" + isc, "!%s && %s" % (isc, isr), "!" + isc]),
                                       by(col, ["!" + isr, isc, "!%s && %s" % (isr, isc), "%s && !%s" % (isc, isr)])], ("mat",), "division by a vector")

    for ax, vi in ((0, col), (1, row)):
        op(DM, "div_eq", (V, U), ["v", "axis"], [by(vi, [""])], ("mat",), "division along an axis", consts={"axis": ax}, drop=lambda s: axis(c, s, ax, isr, isc))
        op(DM, "div_eq_pow", (V, U, U), ["v", "axis", "x"], [["%s : %s = pow(1/(v[%s])*%s, x)" % (hd, E, vi, E)]], ("mat",), "division and power along an axis",
           consts={"axis": ax}, drop=lambda s: axis(c, s, ax, isr, isc))
    for f in find(c, DM, "operator-", V):
        n0 += 1
        s = summ(c, f, ["v"])
        N = "%s.mat[(%s)]" % (NEW, ent(row, col))
        line = lambda g, vi: ["%s%s : %s%s" % (hd, " if " + g if g else "", N, y) for y in (" += (-1*v[%s])" % vi, " -= v[%s]" % vi)]
        cp = [": copy dst=%s.mat[0] src=this.mat[0] n=this.ncol*this.nrow" % NEW, "for q0<this.ncol*this.nrow : %s.mat[q0] = this.mat[q0]" % NEW]
        s.check("C31:minus vector", "operation difference with a vector", sized(None, R, C) + [cp, line(isr, row) + line("", row) + line("!" + isc, row)],
                where=f["q"], msg="%s: difference with a vector" % MSG)

    # product
    loops = sorted([("o.ncol", "c"), ("o.nrow", "k"), ("this.nrow", "r")])
    q = {v: "q%d" % i for i, (b, v) in enumerate(loops)}
    op(DM, "operator*", (M,), ["o"], sized(None, R, "o.ncol") + [[": fill base=%s.mat lo=0 hi=o.ncol*this.nrow val=0" % NEW]] +
       [["for q0<o.ncol for q1<o.nrow for q2<this.nrow : %s.mat[(%s)] += %s" % (NEW, ent(q["r"], q["c"], "o.ncol"), "*".join(sorted(
           ["o.mat[(%s)]" % ent(q["k"], q["c"], "o.ncol"), "this.mat[(%s)]" % ent(q["r"], q["k"], C)]))),
         "for q0<o.ncol for q1<this.ncol for q2<this.nrow : %s.mat[(%s)] += %s" % (NEW, ent("q2", "q0", "o.ncol"), "*".join(sorted(
           ["o.mat[(%s)]" % ent("q1", "q0", "o.ncol"), "this.mat[(%s)]" % ent("q2", "q1", C)]))),
         "for q0<o.ncol for q1<this.nrow : %s.mat[(%s)] = sum(o.nrow, j0, o.mat[(j0*o.ncol + q0)]*this.mat[(j0 + q1*this.ncol)])" % (NEW, "o.ncol*q1 + q0"),
         "for q0<o.ncol for q1<this.nrow : %s.mat[(%s)] = sum(this.ncol, j0, o.mat[(j0*o.ncol + q0)]*this.mat[(j0 + q1*this.ncol)])" % (NEW, "o.ncol*q1 + q0")]],
       ("mat", "nrow", "ncol"), "product", seq=[[2, 3]])

    # reductions
    zero = lambda v, n: [": fill base=%s lo=0 hi=%s val=0" % (v, n), "for q0<%s : %s[q0] = 0" % (n, v)]
    tot = lambda v, i: ["%s : %s[%s] += %s" % (hd, v, i, E)]
    op(DM, "sum", (U, V), ["axis", "res"], [[(": copy dst=res[0] src=this.mat[0] n=this.ncol",
        "for q0<(-1 + this.nrow) for q1<this.ncol : res[q1] += this.mat[(q0*this.ncol + q1 + this.ncol)]"), (zero("res", C)[0], tot("res", col)[0])]], ("res",), "column sums",
       consts={"axis": 0})
    op(DM, "sum", (U, V), ["axis", "res"], [zero("res", R), tot("res", row)], ("res",), "row sums", consts={"axis": 1}, seq=[[0, 1]])
    for dim, n, i, other in ((1, C, col, R), (0, R, row, C)):
        op(DM, "mean", (V, U), ["mean", "dim"], [zero("mean", n), tot("mean", i), ["for q0<%s : mean[q0] /= %s" % (b, other) for b in (n, "size(mean)")]
           + ["for q0<%s : mean[q0] = 1/(%s)*mean[q0]" % (n, other), "for q0<%s : mean[q0] *= 1/(%s)" % (n, other)]], ("mean",), "mean", consts={"dim": dim}, seq=[[0, 1, 2]])
    for f in find(c, DM, "sum"):
        n0 += 1
        value(c, "C31:sum", summ(c, f, []), total("this.mat[@]"), "the total")
    for f in find(c, DM, "frobenius_norm"):
        n0 += 1
        value(c, "C31:frob", summ(c, f, []), ["sqrt(%s)" % x for x in total("this.mat[@]*this.mat[@]")], "the norm")
    for f in find(c, LA, "frobenius_norm", r"\*", U):
        n0 += 1
        value(c, "C31:frob2", summ(c, f, ["v", "n"]), ["sqrt(sum(n, j0, v[j0]*v[j0]))"], "the norm")
    for f in find(c, LA, "dot", r"\*", r"\*", U):
        n0 += 1
        value(c, "C31:dot", summ(c, f, ["v", "w", "n"]), ["sum(n, j0, v[j0]*w[j0])"], "the inner product")
    for f in find(c, LA, "dot", V, V):
        n0 += 1
        value(c, "C31:dotv", summ(c, f, ["v", "w"]), ["sum(size(v), j0, v[j0]*w[j0])", "sum(size(w), j0, v[j0]*w[j0])"], "the inner product")
    op(LA, "dot", (r"\*", r"\*", U, U, V), ["v", "mat", "nrow", "ncol", "res"], [zero("res", "ncol"), ["for q0<ncol for q1<nrow : res[q0] += mat[(ncol*q1 + q0)]*v[q1]"]],
       ("res",), "vector times matrix", seq=[[0, 1]])
    for f in find(c, DM, "operator==", M):
        n0 += 1
        equal(c, summ(c, f, ["o"]))

    # largest entry
    for ax, n, i, j in ((0, R, row, col), (1, C, col, row)):
        for f in find(c, DM, "argmax", U, V):
            n0 += 1
            s = summ(c, f, ["axis", "idx"], {"axis": ax}, locals_=True)
            s.rx(r"\$\w*(?=\[q)|(?<=base=)\$\w+", "B")
            better = "(B[%s] < %s)" % (i, E)
            direct = "(this.mat[(%s)] < %s)" % (ent(row, "idx[%s]" % i) if ax == 0 else ent("idx[%s]" % i, col), E)
            best = [(": fill base=B lo=0 hi=%s val=%s" % (n, lo), "%s if %s : B[%s] = %s" % (hd, better, i, E), "%s if %s : idx[%s] = %s" % (hd, better, i, j))
                    for lo in lows(s)] + [("%s if %s : idx[%s] = %s" % (hd, direct, i, j),)]
            s.check("C31:argmax:%d" % ax, "operation largest entry", [zero("idx", n), best], fields=("idx",), where=f["q"], msg="%s: position of the largest entry" % MSG, seq=[[0, 1]])

    # determinant, adjoint, inverse
    linear(c)
    op(LA, "vdiff", (r"\*", r"\*", U, V), ["a", "b", "n", "res"], ["for q0<n : res[q0] = (-1*b[q0] + a[q0])", [
        "if (0 == size(res)) : resize obj=res n=n val=0", ": resize obj=res n=n val=0"]], ("res",), "difference of vectors", seq=[[1, 0]])
    for name, val, names, types in (("scale", "f*v[q0]", ["v", "f", "res"], (V, D, V)), ("pow", "pow(v[q0], f)", ["v", "res", "f"], (V, V, D))):
        op(LA, name, types, names, [[("for q0<size(v) if (0 == size(res)) : push obj=res val=%s" % val, "for q0<size(v) if !(0 == size(res)) : res[q0] = %s" % val),
            ("for q0<size(v) : res[q0] = %s" % val, "if (0 == size(res)) : resize obj=res n=size(v) val=0"),
            ("for q0<size(v) : res[q0] = %s" % val, ": resize obj=res n=size(v) val=0")]], ("res",), "every entry of a vector: " + name)
    for f in find(c, LA, "scale", r"\*", U):
        n0 += 1
        s = summ(c, f, ["v", "n"])
        for x in ("accumulate<double>(v, v[n], 0)", "sum(n, j0, v[j0])", "sum(n, j1, v[j1])"):
            s.macro(x, "S")
        s.rx(r"\bj1\b", "j0")
        sd = "sqrt(1/(n)*sum(n, j0, (-2*1/(n)*S*v[j0] + 1/(n)*1/(n)*S*S + v[j0]*v[j0])))"
        s.macro(sd, "SD")
        s.check("C31:standardise", "operation standardise", [["for q0<n : v[q0] = (-1*%s*S + 1/(SD)*v[q0])" % x for x in ("1/(SD)*1/(n)", "1/(n)*1/(SD)")]], fields=("v",), where=f["q"], msg="%s: scaling" % MSG)
    if n0 < 30:
        raise AnalysisBroken("only %d matrix operations found" % n0)


def axis(c, s, ax, isr, isc):
    """division along an axis happens for a vector of that length"""
    s.rx(r" if (%s|!%s|!%s && %s)(?= : )" % ((re.escape(isc), re.escape(isr), re.escape(isr), re.escape(isc)) if ax == 0 else
                                           (re.escape(isr), re.escape(isc), re.escape(isc), re.escape(isr))), "")


def lows(s):
    """values no entry is below, used to start a search for the largest"""
    out = []
    for l in s.lines():
        m = re.match(r"^: fill base=B lo=0 hi=\S+ val=(.*)$", l)
        if m and (m.group(1) == "lowest()" or re.search(r"^-1\*(max|infinity)\(\)$", m.group(1))):
            out.append(m.group(1))
    return out or ["the lowest value"]


def equal(c, s):
    """matrices are equal exactly when their sizes and all their entries are"""
    got = []
    for n, a in allnodes(s.t[0]):
        if n.kind == "return" and n.val is not None and n.depth == min(x.depth for x, _ in allnodes(s.t[0]) if x.kind == "return"):
            g = [cshow(s.nf.k(s.nf.cl.close(p))) for p in n.pc]
            got.append((cshow(s.nf.k(s.nf.cl.close(n.val))), g))
    dim = r"\((o.(nrow|ncol) == this.\2|this.(nrow|ncol) == o.\3)\)"
    ok = {"size": set(), "entry": 0, "same": 0}
    bad = []
    for v, g in got:
        t = " ".join(g)
        loop = any(re.match(r"^\(iv\(#\) < (this.ncol\*this.nrow|o.ncol\*o.nrow|size\(\w+.mat\))\)$", x) for x in g)
        pos = set(x[1] or x[2] for x in re.findall(r"(?<!!)" + dim, t))
        neg = set(x[1] or x[2] for x in re.findall(r"!" + dim, t))
        both = re.search(r"!%s && !" % dim, t)
        if v == "0" and neg and not both and not loop:
            ok["size"] |= {frozenset(neg)}
        elif v == "0" and loop and not neg and re.search(r"!\((o.mat\[iv\(#\)\] == this.mat\[iv\(#\)\]|this.mat\[iv\(#\)\] == o.mat\[iv\(#\)\])\)", t):
            ok["entry"] = 1
        elif v == "1" and not loop and not neg and pos == {"nrow", "ncol"}:
            ok["same"] = 1
        else:
            bad.append((v, g))
    c.check(not bad and all(ok.values()) and set(y for x in ok["size"] for y in x) == {"nrow", "ncol"}, "operation equality", "C31:equal", s.f["q"], "%s: equality (%s)" % (MSG, str(bad or ok)[:300]))


DET = "fold(%s, j0, 0, (?()*%s[j0]%s*acc0_1 + acc0_0), 1, (-1*acc0_1))"
SIGN = ["((((q0 + q1) % 2) == 0) ? 1 : -1)", "((0 == ((q0 + q1) % 2)) ? 1 : -1)", "(!(((q0 + q1) % 2) == 0) ? -1 : 1)", "((((q0 + q1) % 2) == 1) ? -1 : 1)",
        "((1 == ((q0 + q1) % 2)) ? -1 : 1)", "(((q0 + q1) % 2) ? -1 : 1)", "pow(-1, (q0 + q1))", "(1 + -2*((q0 + q1) % 2))", "(-2*((q0 + q1) % 2) + 1)"]


def linear(c):
    for f in find(c, LA, "determinant", r"\*", "", ""):
        s = summ(c, f, ["A", "n", "N"], locals_=True)
        value(c, "C31:det", s, [("A[0]", DET % ("n", "A", ""))], "the determinant")
        minors(c, "C31:det", s, "A")
    for f in find(c, LA, "getCofactor", r"\*", r"\*", "", "", "", ""):
        s = summ(c, f, ["A", "T", "p", "q", "n", "N"], locals_=True)
        minor(c, "C31:cofactor", s, "A", "n", want=("p", "q"))
    for f in find(c, LA, "adjoint", r"\*", r"\*", ""):
        adjoint(c, summ(c, f, ["A", "J", "N"], locals_=True), "C31:adjoint", r"J")
    for f in find(c, LA, "inverse", r"\*", r"\*", ""):
        s = summ(c, f, ["A", "J", "N"], locals_=True)
        s.macro("((1 == N) ? A[0] : %s)" % (DET % ("N", "A", "")), "D")
        s.rx(r"\$(\w+)(?=\[)", r"$\1")
        s.check("C31:inverse", "operation inverse", [["for q0<N*N if !(D == 0) : J[q0] = $adj[q0]'*1/(D)", "for q0<N for q1<N if !(D == 0) : J[(N*q0 + q1)] = $adj[(N*q0 + q1)]'*1/(D)"]]
                if not inv(s) else [inv(s)], fields=("J",), where=f["q"], msg="%s: inverse" % MSG)
        v = inv(s)
        s.rx(r"!\(D == 0\) && | && !\(D == 0\)", "")
        s.rx(r" if !\(D == 0\)(?= : )", "")
        adjoint(c, s, "C31:inverse:adjoint", r"\$" + (re.search(r"= \$(\w+)\[", v).group(1) if v else "adj"), 2)


def inv(s):
    for l in s.lines():
        if re.match(r"^for q0<N\*N if !\(D == 0\) : J\[q0\] = \$\w+\[q0\]'*\*1/\(D\)$|^for q0<N for q1<N if !\(D == 0\) : J\[\(N\*q0 \+ q1\)\] = \$\w+\[\(N\*q0 \+ q1\)\]'*\*1/\(D\)$", l):
            return l
    return None


def adjoint(c, s, key, J, count=1):
    """adj[j][i] is the signed minor without row i and column j"""
    what = "%s: adjoint" % MSG
    T = r"\$\w+"
    one = [l for l in s.lines() if re.match(r"^if \(1 == N\) : %s\[0\] = 1$" % J, l)]
    c.check(bool(one), "operation adjoint", key + ":1", s.f["q"], what + ": a matrix of one entry")
    det = re.compile(r"\((2 == N|1 == \(-1 \+ N\)|\(-1 \+ N\) == 1)\) \? (%s)\[0\]'* : fold\(\(-1 \+ N\), j0, 0, \((%s)\[j0\]'*\*\?\(\)\*acc0_1 \+ acc0_0\), 1, \(-1\*acc0_1\)\)" % (T, T))
    hit = None
    for l, e in s.items:
        m = re.match(r"^for q0<N for q1<N if !\(1 == N\) : %s\[\(N\*q0 \+ q1\)\] = (.*)$" % J, l)
        if m:
            v = m.group(1)
            d = det.search(v)
            if d and d.group(2) == d.group(3):
                r = v.replace("(" + d.group(0) + ")", "D")
                if any(r in (g + "*D", "D*" + g) for g in SIGN):
                    hit = e
            if hit is None:
                c.bad(key + ":value", loc(e.n), what + ": an entry is %s" % v[:300], "operation adjoint")
                return
    c.check(hit is not None, "operation adjoint", key + ":value", s.f["q"], what + ": no entry is stored")
    if hit is None:
        return
    ms = [x for x in minor(c, key, s, "A", "N") if len(x["loops"]) == 4]
    ix = strip(str(s.nf.cl.close(hit.n.lv)))
    ok = [x for x in ms if ix in index("N", x["Y"], x["X"])]
    c.check(bool(ok), "operation adjoint", key + ":transposed", loc(hit.n), what + ": the minor without row i and column j is not what entry (j, i) is made of")
    for x in ok:
        order(c, key, s, x["n"], hit.n)
    minors(c, key + ":det", s, None, count)


def strip(t):
    m = re.match(r"^.*?\[(.*)\]'*$", t)
    return m.group(1) if m else t


def index(n, r, k):
    return ("(%s*%s + %s)" % (n, r, k), "(%s*%s + %s)" % (r, n, k), "(%s + %s*%s)" % (k, n, r), "(%s + %s*%s)" % (k, r, n))


def order(c, key, s, a, b):
    pos = {id(n): i for i, (n, _) in enumerate(allnodes(s.t[0]))}
    c.check(pos[id(a)] < pos[id(b)], "minors before use", key + ":order", loc(b), "%s: a minor is used before it is filled" % MSG)


def minor(c, key, s, src, n, want=None):
    """the stores that copy all entries of a matrix but one row and one column, in order"""
    out = []
    for nd, a in allnodes(s.t[0]):
        if nd.kind != "store":
            continue
        v = str(s.nf.cl.close(nd.val))
        m = re.match(r"^(\w+)\[\((?:N\*(\w+) \+ (\w+)|(\w+) \+ N\*(\w+))\)\]'*$", v)
        d = re.match(r"^(\w+)\[\(N\*mu\((\w+)\) \+ mu\((\w+)\)\)\]", str(nd.lv)) or re.match(r"^(\w+)\[\(mu\((\w+)\) \+ N\*mu\((\w+)\)\)\]", str(nd.lv))
        if not m or not d or (src and m.group(1) != src):
            continue
        r, k = (m.group(2), m.group(3)) if m.group(2) else (m.group(5), m.group(4))
        i, j = (d.group(2), d.group(3)) if "N*mu(%s)" % d.group(2) in str(nd.lv) else (d.group(3), d.group(2))
        ne = re.findall(r"!\((\w+) == (\w+)\)", " ".join(str(s.nf.cl.close(p)) for p in nd.pc))
        X = [y if x == r else x for x, y in ne if r in (x, y) and k not in (x, y)]
        Y = [y if x == k else x for x, y in ne if k in (x, y) and r not in (x, y)]
        loops = [x for x in a if x.kind == "loop"]
        text = next((l for l, e in s.items if e.n is nd), None)
        if len(X) != 1 or len(Y) != 1 or text is None or len(loops) < 2:
            c.bad(key + ":minor", loc(nd), "%s: a minor leaves out %s" % (MSG, ne), "minor")
            continue
        if want:
            c.check((X[0], Y[0]) == want, "minor", key + ":left out", loc(nd), "%s: a minor leaves out row %s and column %s" % (MSG, X[0], Y[0]))
        hd = cut(text)[0]
        g = set(gset(text))
        ls = [l for l in s.lines() if l.endswith(" : $%s += 1" % j) and cut(l)[0] == hd]
        c.check(len(ls) == 1, "minor", key + ":count", loc(nd), "%s: a minor's columns are not counted" % MSG)
        q = re.findall(r"q\d<(\([^()]*\)|\S+)", hd)[-1]
        full = {"n": "((2 + mu(#, $%s)) == n)", "N": "((2 + mu(#, $%s)) == N)", "(-1 + N)": "((3 + mu(#, $%s)) == N)"}.get(q, "?%s")  % j
        for eff in ("$%s = 0" % j, "$%s += 1" % i):
            ok = [l for l in s.lines() if l.endswith(" : " + eff) and set(gset(l)) - g == {full} and g <= set(gset(l)) and l.split(" if ")[0] == hd.split(" if ")[0]]
            c.check(len(ok) == 1, "minor", key + ":wrap:" + eff[-4:], loc(nd), "%s: a minor's row does not end after its last column" % MSG)
        for v_ in (i, j):
            ok = [l for l in s.lines() if l.endswith(": $%s = 0" % v_) and len(re.findall(r"for q\d", l)) == len(loops) - 2 and full not in l]
            c.check(bool(ok), "minor", key + ":start", loc(nd), "%s: a minor is not filled from its start" % MSG)
        out.append({"n": nd, "X": X[0], "Y": Y[0], "loops": loops, "to": d.group(1), "from": m.group(1), "bound": q})
    return out


def minors(c, key, s, src, count=1):
    """the determinant's expansion: the minor without row 0 and column f, one size down, for entry f"""
    recs = [(x, a) for x, a in allnodes(s.t[0]) if x.kind == "reccall"]
    ms = [x for x in minor(c, key, s, src, None) if x["X"] == "0"]
    c.check(len(recs) == count, "expansion", key + ":rec", s.f["q"], "%s: %d smaller determinants are taken" % (MSG, len(recs)))
    for x, a in recs:
        lp = [y for y in a if y.kind == "loop"]
        ar = [cshow(s.nf.k(s.nf.cl.close(y))) for y in x.args]
        m = [y for y in ms if len(y["loops"]) == len(lp) + 2 and y["loops"][:len(lp)] == lp and y["Y"] == str(s.nf.cl.close(lp[-1].iv))] if lp else []
        c.check(len(m) == 1, "expansion", key + ":minor of", loc(x), "%s: the minor of entry f leaves out another row or column" % MSG)
        less = {"n": "(-1 + n)", "N": "(-1 + N)", "(-1 + N)": "(-2 + N)"}.get(m[0]["bound"] if m else "")
        c.check(len(ar) == 3 and ar[1] == less and ar[2] == "N" and (not m or ar[0].strip("$") in (m[0]["to"] + "[0]", m[0]["to"])), "expansion", key + ":arguments", loc(x),
                "%s: a minor's determinant is taken of %s" % (MSG, ar))
        for y in m:
            order(c, key, s, y["n"], x)
