"""Hash-consed value terms: the abstract domain of the value-numbering interpreter.

Integers and floats are polynomials over opaque atoms (+ and * are associative/commutative), division by
a float is multiplication with ('inv', d), integer division and remainder are opaque 'idiv'/'mod' atoms.
"""

_tab = {}


class T(object):
    __slots__ = ("op", "a", "id", "_s")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.op,) + self.a)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._s = None
        _tab[k] = t
    return t


def c(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == int(v) if not (isinstance(v, float) and (v != v or v in (float("inf"), -float("inf")))) else False:
        v = int(v)
    # distinguish from tuple-equality 1 == 1.0 == True
    return mk("c", v)


TRUE = c(1)
FALSE = c(0)
NULL = mk("null")


def sym(n):
    return mk("sym", n)


def is_c(t):
    return t.op == "c"


# ---------------------------------------------------------------- polynomials
def poly(t):
    """dict monomial(tuple of atoms sorted by id) -> coefficient"""
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "+":
        return dict((m, k) for m, k in t.a)
    if t.op == "*":
        return {t.a: 1}
    return {(t,): 1}


def unpoly(p):
    p = {m: k for m, k in p.items() if k != 0}
    if not p:
        return c(0)
    if len(p) == 1:
        (m, k), = p.items()
        if m == ():
            return c(k)
        if k == 1:
            return m[0] if len(m) == 1 else mk("*", *m)
    return mk("+", *sorted(p.items(), key=lambda mk_: ([x.id for x in mk_[0]], mk_[1])))


def add(a, b):
    p = poly(a)
    for m, k in poly(b).items():
        p[m] = p.get(m, 0) + k
    return unpoly(p)


def neg(a):
    return unpoly({m: -k for m, k in poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 64:
        return mk("*", *sorted((a, b), key=lambda x: x.id))
    r = {}
    for m, k in pa.items():
        for n, l in pb.items():
            mm = _mono(m + n)
            r[mm] = r.get(mm, 0) + k * l
    return unpoly(r)


def _mono(m):
    l = sorted(m, key=lambda x: x.id)
    # cancel x * inv(x)
    invs = [x for x in l if x.op == "inv"]
    for i in invs:
        if i.a[0] in l and i in l:
            l.remove(i)
            l.remove(i.a[0])
    return tuple(l)


def fdiv(a, b):
    if is_c(b) and b.a[0] != 0:
        if is_c(a):
            return c(a.a[0] / b.a[0])
        return mul(a, c(1.0 / b.a[0]))
    return mul(a, inv(b))


def inv(b):
    if b.op == "inv":
        return b.a[0]
    if b.op == "*":
        r = c(1)
        for x in b.a:
            r = mul(r, inv(x))
        return r
    return mk("inv", b)


def idiv(a, b):
    if is_c(a) and is_c(b) and b.a[0]:
        return c(int(a.a[0] / b.a[0]))
    if b is c(1):
        return a
    return mk("idiv", a, b)


def mod(a, b):
    if is_c(a) and is_c(b) and b.a[0]:
        return c(a.a[0] % b.a[0])
    return mk("mod", a, b)


# ---------------------------------------------------------------- booleans
def _ptrs(a, b):
    """indices of two positions in the same array"""
    if a.op == "I" or b.op == "I":
        x, i = (a.a[0], a.a[1]) if a.op == "I" else (a, FALSE)
        y, j = (b.a[0], b.a[1]) if b.op == "I" else (b, FALSE)
        if x is y:
            return i, j
    return None


def lt(a, b):
    if a is b:
        return FALSE
    pq = _ptrs(a, b)
    if pq:
        return lt(*pq)
    if is_c(a) and is_c(b):
        return c(a.a[0] < b.a[0])
    return mk("<", a, b)


def le(a, b):
    if a is b:
        return TRUE
    pq = _ptrs(a, b)
    if pq:
        return le(*pq)
    if is_c(a) and is_c(b):
        return c(a.a[0] <= b.a[0])
    return mk("<=", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    pq = _ptrs(a, b)
    if pq:
        return eq(*pq)
    for x, y in ((a, b), (b, a)):
        if x.op == "call" and str(x.a[0]).split("::")[-1] in ("compare", "strcmp") and len(x.a) == 3 and y is FALSE:
            return eq(x.a[1], x.a[2])
    cs = ("c", "e", "str", "null", "objaddr")
    if a.op in cs and b.op in cs:
        return FALSE
    if a.op == "new" and b.op == "null" or b.op == "new" and a.op == "null":
        return FALSE
    if a.op == "phi" and (b.op in cs):
        # decide through merges of constants: phi(c, K, x) == K
        x, y = eq(a.a[1], b), eq(a.a[2], b)
        if x.op == "c" or y.op == "c":
            return phi(a.a[0], x, y)
    if b.op == "phi" and (a.op in cs):
        return eq(b, a)
    # a loop counter is never negative
    d = poly(sub(a, b)) if a.op == "+" or b.op == "+" or a.op == "iv" or b.op == "iv" else None
    if d:
        k0 = d.get((), 0)
        if k0 and len(d) > 1 and all(m == () or len(m) == 1 and m[0].op == "iv" for m in d):
            if all(k > 0 for k in d.values()) or all(k < 0 for k in d.values()):
                return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("==", a, b)


def not_(a):
    if a.op == "c":
        return c(not a.a[0])
    if a.op == "!":
        return a.a[0]
    if a.op == "<":
        return le(a.a[1], a.a[0])
    if a.op == "<=":
        return lt(a.a[1], a.a[0])
    if a.op == "&":
        return or_(*[not_(x) for x in a.a])
    if a.op == "|":
        return and_(*[not_(x) for x in a.a])
    if a.op == "phi":
        return phi(a.a[0], not_(a.a[1]), not_(a.a[2]))
    return mk("!", a)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out += list(x.a)
        else:
            out.append(x)
    u = []
    for x in out:
        if x not in u:
            u.append(x)
    return u


def _absorb(l, inner):
    """inner '&' inside an '|' list (or dually): drop literals decided by the other members"""
    plain = set(x for x in l if x.op != inner)
    negs = set(not_(x) for x in plain)
    out, ch = [], False
    for x in l:
        if x.op == inner:
            if any(y in plain for y in x.a):
                ch = True
                continue
            k = [y for y in x.a if y not in negs]
            if len(k) != len(x.a):
                ch = True
                x = (and_ if inner == "&" else or_)(*k)
        out.append(x)
    # (p op q) (p op !q) -> p
    cp = [x for x in out if x.op == inner]
    if len(cp) < 12:
        for i, x in enumerate(cp):
            for y in cp[i + 1:]:
                sx, sy = set(x.a), set(y.a)
                dx, dy = sx - sy, sy - sx
                if len(dx) == 1 and len(dy) == 1 and not_(next(iter(dx))) is next(iter(dy)):
                    r = (and_ if inner == "&" else or_)(*(sx & sy))
                    return [z for z in out if z is not x and z is not y] + [r], True
    return out, ch


def and_(*xs):
    l = _flat("&", xs)
    l = [x for x in l if not (x.op == "c" and x.a[0])]
    while True:
        for x in l:
            if x.op == "c" and not x.a[0] or not_(x) in l:
                return FALSE
        l, ch = _absorb(l, "|")
        if not ch:
            break
        l = [x for x in _flat("&", l) if not (x.op == "c" and x.a[0])]
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return mk("&", *sorted(l, key=lambda x: x.id))


def or_(*xs):
    l = _flat("|", xs)
    l = [x for x in l if not (x.op == "c" and not x.a[0])]
    while True:
        for x in l:
            if x.op == "c" and x.a[0] or not_plain(x) in l or x.op == "<=" and mk("<=", x.a[1], x.a[0]) in l:
                return TRUE
        l, ch = _absorb(l, "&")
        if not ch:
            break
        l = [x for x in _flat("|", l) if not (x.op == "c" and not x.a[0])]
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return mk("|", *sorted(l, key=lambda x: x.id))


def not_plain(a):
    if a.op in ("&", "|"):
        return mk("!", a)
    return not_(a)


def phi(cd, a, b):
    if a is b:
        return a
    if cd.op == "c":
        return a if cd.a[0] else b
    if cd.op == "!":
        return phi(cd.a[0], b, a)
    if a.op == "c" and b.op == "c" and isboolish(cd):
        if a.a[0] == 1 and b.a[0] == 0:
            return cd
        if a.a[0] == 0 and b.a[0] == 1:
            return not_(cd)
    if b is FALSE and isbool(a):
        return and_(cd, a)
    if a is TRUE and isbool(b):
        return or_(cd, b)
    if a is FALSE and isbool(b):
        return and_(not_(cd), b)
    if b is TRUE and isbool(a):
        return or_(not_(cd), a)
    return mk("phi", cd, a, b)


def isbool(t):
    return t.op in ("<", "<=", "==", "!", "&", "|")


isboolish = isbool


# ---------------------------------------------------------------- structure helpers
def walk(t):
    """every subterm of t, t first"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st += children(x)


def children(x):
    if x.op == "+":
        return [y for m, _ in x.a for y in m]
    return [y for y in x.a if isinstance(y, T)]


def contains(t, x):
    return any(y is x for y in walk(t))


def subst(t, mp, memo=None):
    """replace subterms (map T->T), renormalising"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
    elif t.op == "+":
        r = c(0)
        for m, k in t.a:
            q = c(k)
            for y in m:
                q = mul(q, subst(y, mp, memo))
            r = add(r, q)
    elif t.op == "*":
        r = c(1)
        for y in t.a:
            r = mul(r, subst(y, mp, memo))
    elif not any(isinstance(y, T) for y in t.a):
        r = t
    else:
        a = [subst(y, mp, memo) if isinstance(y, T) else y for y in t.a]
        r = rebuild(t.op, a)
    memo[t] = r
    return r


def rebuild(op, a):
    f = {"idiv": idiv, "mod": mod, "<": lt, "<=": le, "==": eq, "!": not_, "&": and_, "|": or_, "phi": phi,
         "inv": inv}.get(op)
    return f(*a) if f else mk(op, *a)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is None:
        t._s = _show(t)
    return t._s


def _show(t):
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o in ("sym",):
        return a[0]
    if o == "e":
        return a[0]
    if o == "str":
        return repr(a[0])
    if o == "null":
        return "null"
    if o == "L":
        return a[2]
    if o == "F":
        return "%s.%s" % (show(a[0]), a[1])
    if o == "I":
        return "%s[%s]" % (show(a[0]), show(a[1]))
    if o == "ald":
        return "~" + show(a[0])
    if o == "ld":
        return show(a[0]) + ("" if len(a) == 1 else "'")
    if o == "iv":
        return "i%d" % (a[0] if isinstance(a[0], int) else t.id)
    if o == "mu":
        return "mu(%s)" % show(a[1])
    if o == "+":
        out = []
        for m, k in a:
            s = "*".join(show(x) for x in m)
            if not m:
                s = str(k)
            elif k != 1:
                s = "%s*%s" % (k, s)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o == "*":
        return "*".join(show(x) for x in a)
    if o in ("<", "<=", "=="):
        return "(%s %s %s)" % (show(a[0]), o, show(a[1]))
    if o in ("&", "|"):
        return "(" + (" %s%s " % (o, o)).join(show(x) for x in a) + ")"
    if o == "!":
        return "!" + show(a[0])
    if o == "phi":
        return "(%s ? %s : %s)" % tuple(show(x) for x in a)
    if o == "inv":
        return "1/(%s)" % show(a[0])
    if o == "idiv":
        return "(%s / %s)" % (show(a[0]), show(a[1]))
    if o == "mod":
        return "(%s %% %s)" % (show(a[0]), show(a[1]))
    if o in ("muend",):
        return "end(%s)" % show(a[1])
    if o == "ivend":
        return "iend%d" % t.id
    if o in ("w", "site", "fr", "lid"):
        return "#%d" % t.id
    if o == "ret":
        return "%s()#%d" % (a[1] if len(a) > 1 else "?", t.id)
    if o == "rand":
        return "rand#%d" % t.id
    if o == "call":
        return "%s(%s)" % (str(a[0]).split("::")[-1], ", ".join(show(x) for x in a[1:]))
    if o == "new":
        return "new#%s<%s>" % (t.id, a[-1])
    if o == "tmp":
        return "tmp#%s" % t.id
    return "%s(%s)" % (o, ", ".join(show(x) for x in a))
