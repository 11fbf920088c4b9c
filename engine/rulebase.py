"""What every rule shares: obligations, violations, evidence, known findings."""
import os, sys, json, time, hashlib
from db import AnalysisBroken, VERIF
from interp import *
import terms


class Ctx(object):
    def __init__(self, pid, model, tier="quick"):
        self.pid, self.model, self.tier = pid, model, tier
        self.viol = {}
        self.obl = {}
        self.samples = []
        self.functions = set()
        self.notes = {}

    # one obligation = one construct decided by one rule
    def ok(self, rule, what=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        if what and len(self.samples) < 40:
            self.samples.append("%s: %s" % (rule, what))

    def bad(self, key, where, msg, rule=None):
        """key: stable identity of the construct (no line numbers)"""
        if rule:
            self.obl[rule] = self.obl.get(rule, 0) + 1
        self.viol.setdefault(key, {"key": key, "where": where, "message": msg})

    def check(self, cond, rule, key, where, msg):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(key, where, msg, rule)
        return cond

    def seen(self, *trees):
        for t in trees:
            self.functions |= set(t[3].inlined)

    def need(self, n, what):
        """anti-vacuity: the rule must have met at least n of these"""
        if self.obl.get(what, 0) < n:
            raise AnalysisBroken("%s: rule %r met %d constructs, expected at least %d" % (self.pid, what, self.obl.get(what, 0), n))


def loc(n):
    return "%s (%s)" % (n.loc, n.fn)


# ------------------------------------------------------------------ term helpers
def fieldname(t):
    """last field name of a location / load"""
    while t is not None and t.op in ("ld", "ald", "hv"):
        t = t.a[0]
    while t is not None and t.op in ("I", "size", "V"):
        t = t.a[0]
        while t is not None and t.op in ("ld", "ald", "hv"):
            t = t.a[0]
    return t.a[1] if t is not None and t.op == "F" else None


def rootof(t):
    while t is not None and t.op in ("F", "I", "size", "V", "ld", "ald", "hv"):
        t = t.a[0]
    return t


def fieldchain(t):
    out = []
    while t.op in ("F", "I", "size", "V", "ld", "ald", "hv"):
        if t.op == "F":
            out.append(t.a[1])
        t = t.a[0]
    return tuple(reversed(out))


def nodeterms(n):
    out = []
    for k, v in n.d.items():
        if k in ("body", "then", "els", "handlers", "mods"):
            continue
        if isinstance(v, T):
            out.append(v)
        elif isinstance(v, (list, tuple)):
            out += [x for x in v if isinstance(x, T)]
    return out


def stores(root, pred=None):
    return [(n, a) for n, a in allnodes(root) if n.kind == "store" and (pred is None or pred(n))]


def enters(root, pred):
    return [(n, a) for n, a in allnodes(root) if n.kind == "enter" and pred(n)]


def isnull(t):
    return t.op == "null"
