"""Symbolic values for the abstract interpreter: linear forms over named symbols and opaque terms.

Comparisons are decided by an abstract state that orders the symbols (a finite set of states covers every relative order), sets are
represented by their membership bit of one arbitrary element or by an order/inclusion state."""
from .interp import UNK, Obj


class Sym(object):
    """immutable: ("lin", ((name, coef)...), const) | ("term", op, args...) | ("inf", sign) | ("set", name)"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        k = self.k
        if k[0] == "lin":
            s = " + ".join("%s%s" % ("" if c == 1 else "-" if c == -1 else "%s*" % c, n) for n, c in k[1])
            return s + (" + %s" % k[2] if k[2] or not s else "")
        if k[0] == "inf":
            return "infinity" if k[1] > 0 else "-infinity"
        return "%s(%s)" % (k[1], ", ".join(map(repr, k[2:])))


def sym(name):
    return Sym("lin", ((name, 1),), 0)


def lin(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return Sym("lin", (), v)
    if isinstance(v, Sym) and v.k[0] == "lin":
        return v
    return None


def comb(a, b, s):
    d = dict(a.k[1])
    for n, c in b.k[1]:
        d[n] = d.get(n, 0) + s * c
    return Sym("lin", tuple(sorted((n, c) for n, c in d.items() if c)), a.k[2] + s * b.k[2])


def scale(a, f):
    if f == 0:
        return Sym("lin", (), 0)
    return Sym("lin", tuple((n, c * f) for n, c in a.k[1]), a.k[2] * f)


def term(op, *a):
    return Sym("term", op, *a)


class Algebra(object):
    """rank: {symbol name: number} gives the relative order of the symbols in this state (None: unknown)"""

    def __init__(self, rank=None, setstate=None):
        self.rank = rank
        self.setstate = setstate     # ("order", "subset") of two named sets

    def plain(self, v):
        l = lin(v)
        if l is not None and not l.k[1]:
            return l.k[2]
        return v

    def diff(self, a, b):
        """sign of a - b in this state, or None"""
        if isinstance(a, Sym) and a.k[0] == "inf" or isinstance(b, Sym) and b.k[0] == "inf":
            x = a.k[1] if isinstance(a, Sym) and a.k[0] == "inf" else 0
            y = b.k[1] if isinstance(b, Sym) and b.k[0] == "inf" else 0
            return (x > y) - (x < y)
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return 0 if a == b else None
        d = comb(la, lb, -1)
        if not d.k[1]:
            return (d.k[2] > 0) - (d.k[2] < 0)
        if self.rank is not None and all(n in self.rank for n, c in d.k[1]):
            cs = d.k[1]
            if len(cs) == 1:
                v = cs[0][1] * self.rank[cs[0][0]] + d.k[2]
                return (v > 0) - (v < 0)
            v = sum(c * self.rank[n] for n, c in cs) + d.k[2]
            if sum(c for n, c in cs) == 0 and d.k[2] == 0 and len(cs) == 2:
                return (v > 0) - (v < 0)
            return None
        return None

    def bin(self, op, a, b):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            s = self.diff(a, b)
            if s is None:
                return UNK
            return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if op in ("+", "-"):
                return self.plain(comb(la, lb, 1 if op == "+" else -1))
            if op == "*" and (not la.k[1] or not lb.k[1]):
                return self.plain(scale(lb, la.k[2]) if not la.k[1] else scale(la, lb.k[2]))
        if op in ("*", "+"):
            a, b = sorted((a, b), key=repr)
        return term(op, a, b)

    def un(self, op, a):
        if op == "+":
            return a
        if op == "-":
            if isinstance(a, Sym) and a.k[0] == "inf":
                return Sym("inf", -a.k[1])
            l = lin(a)
            if l is not None:
                return self.plain(scale(l, -1))
        if op == "!":
            return UNK
        return term(op, a)
