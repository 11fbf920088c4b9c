"""Forward typestate / dataflow over an effect tree (all paths; loops to a fixpoint; no path enumeration)."""
import terms
from interp import allnodes


class Flow(object):
    """state: a frozenset of abstract values (hashable).  `leaf(node, value) -> iterable of values` transfers one
    abstract value through one event; `enter(node, value)` / `leave(node, value)` likewise for inlined calls
    (return None from enter to descend with the value unchanged, or an iterable to skip the body).
    `guard(cond, positive, value) -> bool` may prune a branch for a value.  """

    def __init__(self, leaf, enter=None, leave=None, guard=None, loopenter=None, corr=True):
        """corr: values are paired with the outcomes of conditions tested at several places (branch correlation)"""
        self.leaf0, self.en0, self.le0, self.guard0, self.loopenter = leaf, enter, leave, guard, loopenter
        self.corr = corr
        if corr:
            self.leaf = lambda n, v: self._lift(leaf, n, v)
            self.en = (lambda n, v: self._lift(enter, n, v)) if enter else None
            self.le = (lambda n, v: self._lift(leave, n, v)) if leave else None
            self.guard = self._guard
        else:
            self.leaf, self.en, self.le, self.guard = leaf, enter, leave, guard
        self.ends = {"throw": [], "exit": [], "assertfail": []}

    def _lift(self, f, n, v):
        r = f(n, v[0])
        return None if r is None else [(x, v[1]) for x in r]

    def _guard(self, cond, pos, v):
        core, asm = v
        if self.guard0 and not self.guard0(cond, pos, core):
            return None
        lits = []
        for l in (cond.a if (pos and cond.op == "&") else [cond]):
            lits.append((l, pos))
        if not pos and cond.op == "|":
            lits = [(l, False) for l in cond.a]
        for l, p in lits:
            if l.op == "!":
                l, p = l.a[0], not p
            if l not in self.multi:
                nl = terms.not_(l)
                if nl in self.multi:
                    l, p = nl, not p
                else:
                    continue
            if (l, not p) in asm:
                return None
            asm = asm | frozenset([(l, p)])
        return (core, asm)

    def run(self, root, init):
        if self.corr:
            seen, self.multi = {}, set()
            for n, anc in allnodes(root):
                if n.kind != "if" or any(a.kind == "loop" for a in anc) and False:
                    continue
                for l in list(n.cond.a) + [n.cond] if n.cond.op in ("&", "|") else [n.cond]:
                    if l.op == "!":
                        l = l.a[0]
                    if any(x.op in ("iv", "mu", "muend", "ivend", "ald") for x in terms.walk(l)):
                        continue
                    nl = terms.not_(l)
                    k = l if l in seen else nl if nl in seen else l
                    seen[k] = seen.get(k, 0) + 1
            self.multi = {k for k, v in seen.items() if v > 1}
            init = [(v, frozenset()) for v in init]
        self.ret = [set()]
        self.brk = [set()]
        self.cont = [set()]
        self.swi = [set()]
        return self.node(root, frozenset(init))

    def seq(self, nodes, S):
        for n in nodes:
            if not S:
                break
            S = self.node(n, S)
        return S

    def tr(self, n, S):
        out = set()
        for v in S:
            r = self.leaf(n, v)
            if r is None:
                out.add(v)
            else:
                out.update(r)
        return frozenset(out)

    def filt(self, cond, pos, S):
        if self.guard is None:
            return S
        out = set()
        for v in S:
            r = self.guard(cond, pos, v)
            if r is None or r is False:
                continue
            out.add(v if r is True else r)
        return frozenset(out)

    def core(self, S):
        return {v[0] for v in S} if self.corr else set(S)

    def node(self, n, S):
        k = n.kind
        if k == "enter":
            S2, skipped = set(), set()
            for v in S:
                r = self.en(n, v) if self.en else None
                if r is None:
                    S2.add(v)
                else:
                    skipped.update(r)
            out = set(skipped)
            if S2:
                self.ret.append(set())
                sb, sc, ss = self.brk, self.cont, self.swi
                self.brk, self.cont, self.swi = [set()], [set()], [set()]
                e = self.seq(n.body, frozenset(S2))
                self.brk, self.cont, self.swi = sb, sc, ss
                e = set(e) | self.ret.pop()
                if self.le:
                    e2 = set()
                    for v in e:
                        r = self.le(n, v)
                        e2.update([v] if r is None else r)
                    e = e2
                out |= e
            return frozenset(out)
        if k == "if":
            a = self.seq(n.then, self.filt(n.cond, True, S))
            b = self.seq(n.els, self.filt(n.cond, False, S))
            return a | b
        if k == "switch":
            self.brk.append(set())
            e = self.seq(n.body, S)
            return e | frozenset(self.brk.pop())
        if k == "loop":
            head = S
            if self.loopenter:
                head = frozenset(x for v in head for x in (self.loopenter(n, v) or [v]))
            exits = set()
            for _ in range(40):
                self.brk.append(set())
                self.cont.append(set())
                H = head
                if n.lkind != "do" and n.cond is not None and n.cond.op != "c":
                    exits |= self.filt(n.cond, False, H)
                    H = self.filt(n.cond, True, H)
                elif n.lkind != "do" and n.cond is not None and not n.cond.a[0]:
                    exits |= H
                    H = frozenset()
                e = self.seq(n.body, H)
                e = e | frozenset(self.cont.pop())
                exits |= self.brk.pop()
                if n.lkind == "do":
                    if n.latch is None or n.latch.op != "c" or not n.latch.a[0]:
                        exits |= e
                    if n.latch is not None and n.latch.op == "c" and not n.latch.a[0]:
                        e = frozenset()
                nh = head | e
                if nh == head:
                    break
                head = nh
            return frozenset(exits)
        if k == "omp":
            S = self.tr(n, S)
            return self.seq(n.body, S)
        if k == "try":
            saved = self.ends["throw"]
            self.ends["throw"] = []
            a = self.seq(n.body, S)
            thrown = self.ends["throw"]
            self.ends["throw"] = saved
            hs = set()
            for nd, T in thrown:
                hs |= T
            for h in n.handlers:
                a = a | self.seq(h, S | frozenset(hs))
            return a
        if k == "return":
            S = self.tr(n, S)
            self.ret[-1] |= S
            return frozenset()
        if k == "break":
            self.brk[-1] |= S
            return frozenset()
        if k == "continue":
            self.cont[-1] |= S
            return frozenset()
        if k in ("throw", "exit", "assertfail"):
            S = self.tr(n, S)
            self.ends[k].append((n, S))
            return frozenset()
        return self.tr(n, S)
