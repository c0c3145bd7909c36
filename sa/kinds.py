"""Which kinds a node may have at a program point: forward may-analysis over the CFG.

State: canonical form of a node expression -> set of kinds it may have (absent: any). Sets come from the edges of switches over the
kind, from isa<T>, comparisons of the kind with a constant, and successful or failed dynamic casts, and die when the variable is written."""
import re
from .flow import strip, canon
from . import must
from .nonzero import NonZero

EXPR = "MiniZinc::Expression"
ITEM = "MiniZinc::Item"
TARG = re.compile(r"(isa|cast|dynamicCast)<(?:const )?([\w:]+?)>?$")


class Universe(object):
    def __init__(self, prog, kinds):
        """kinds: class -> kind value"""
        self.prog = prog
        self.byclass = kinds
        ex = set(v for c, v in kinds.items() if c in prog.derived(EXPR))
        it = set(v for c, v in kinds.items() if c in prog.derived(ITEM))
        self.all = {"E": frozenset(ex), "I": frozenset(it)}

    def cast_of(self, n):
        """(operation, class, node operand, universe) of isa/cast/dynamicCast"""
        if n.k not in ("call", "mcall"):
            return None
        q = n.cq or ""
        i = q.find("<")
        if i < 0:
            return None
        m = re.match(r"^(.*)::(isa|cast|dynamicCast)<(.*)>$", q)
        if not m:
            return None
        owner, op, cls = m.groups()
        cls = cls.replace("const ", "").strip()
        if cls not in self.byclass:
            return None
        if owner == EXPR and n.k == "call" and len(n.c) == 1:
            return op, cls, n.c[0], "E"
        if owner == ITEM and n.k == "mcall":
            return op, cls, n.c[0], "I"
        return None

    def kind_of(self, n):
        """(node operand, universe) when n reads the kind of a node"""
        n = strip(n)
        if n.k == "call" and n.cq == EXPR + "::eid" and len(n.c) == 1:
            return n.c[0], "E"
        if n.k == "mcall" and n.mname == "iid" and (n.cq or "").startswith(ITEM):
            return n.c[0], "I"
        return None


def nkey(n, u):
    n = strip(n)
    while n is not None and n.k == "mcall" and (n.mname or "").startswith("operator") and len(n.c) == 1 and "*" in (n.type or ""):
        n = strip(n.c[0])
    return u + ":" + canon(n)


class Kinds(object):
    def __init__(self, uni, fn):
        self.u = uni
        self.fn = fn
        self.at = {}
        self.nz = NonZero.__new__(NonZero)
        self.nz.prog = uni.prog
        self.nz.fn = fn
        self.defs = {}
        for n in fn.walk():
            if n.k == "var" and len(n.x) > 1:
                self.defs.setdefault(n.x[1], []).append(n.c[0] if n.c else None)
            elif n.k == "bin" and n.x[0] == "=":
                t = strip(n.c[0])
                if t.k == "ref" and t.x[0] == "v":
                    self.defs.setdefault(t.x[2], []).append(None)
        self._run()

    # ---- conditions
    def restrict(self, n, truth, depth=0):
        """list of (key, set) implied by condition n being truth"""
        n = strip(n)
        if n is None or depth > 8:
            return []
        u = self.u
        if n.k == "un" and n.x[0] == "!":
            return self.restrict(n.c[0], not truth, depth + 1)
        if n.k == "bin" and n.x[0] in ("&&", "||"):
            if (n.x[0] == "&&") == truth:
                return self.restrict(n.c[0], truth, depth + 1) + self.restrict(n.c[1], truth, depth + 1)
            a = dict(self.restrict(n.c[0], truth, depth + 1))
            b = dict(self.restrict(n.c[1], truth, depth + 1))
            return [(k, a[k] | b[k]) for k in a if k in b]
        if n.k == "bin" and n.x[0] in ("==", "!="):
            eq = (n.x[0] == "==") == truth
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                k = u.kind_of(a)
                c = strip(b)
                if k and c.k == "ref" and c.x[0] == "e":
                    v = int(c.x[3])
                    al = u.all[k[1]]
                    return [(nkey(k[0], k[1]), frozenset([v]) if eq else al - {v})]
                if strip(b).k in ("nullptr",) or (strip(b).k == "int" and str(strip(b).x[0]) == "0"):
                    return self.restrict(a, not eq, depth + 1)
            return []
        if n.k == "bin" and n.x[0] == "=":
            return self.restrict(n.c[1], truth, depth + 1)
        c = u.cast_of(n)
        if c and c[0] in ("isa", "dynamicCast"):
            v = u.byclass[c[1]]
            key = nkey(c[2], c[3])
            if truth:
                return [(key, frozenset([v]))]
            if c[0] == "isa":
                return [(key, u.all[c[3]] - {v})]
            return []          # a failed dynamic cast may also mean there is no node
        if n.k == "ref" and n.x[0] == "v":
            d = self.defs.get(n.x[2], [])
            if len(d) == 1 and d[0] is not None and ("*" in n.type or n.type.replace("const ", "") == "bool"):
                return self.restrict(d[0], truth, depth + 1)
        return []

    @staticmethod
    def meet(st, rs):
        st = dict(st)
        for k, s in rs:
            st[k] = st[k] & s if k in st else s
        return st

    def _edge(self, b, i, st):
        t = b.term
        if not t or t[2] < 0:
            return st
        if t[0] == "SwitchStmt":
            k = self.u.kind_of(self.fn.nodes[t[2]])
            if not k:
                return st
            key = nkey(k[0], k[1])
            labs = []
            for s in b.succs:
                l = self.fn.nodes[self.fn.cfg[s].label] if s >= 0 and self.fn.cfg[s].label >= 0 else None
                labs.append(int(l.x[0]) if l is not None and l.k == "case" and l.x[0] is not None else None)
            if labs[i] is not None:
                return self.meet(st, [(key, frozenset([labs[i]]))])
            return self.meet(st, [(key, self.u.all[k[1]] - set(x for x in labs if x is not None))])
        ec = must.edge_cond(self.fn, b, i)
        if ec is None:
            return st
        return self.meet(st, self.restrict(ec[0], ec[1]))

    def _transfer(self, b, st, record):
        st = dict(st)
        for el in b.elems:
            if isinstance(el, list):
                continue
            n = self.fn.nodes[el]
            if record:
                o = self.at.get(n.id)
                self.at[n.id] = dict(st) if o is None else dict((k, o[k] | st[k]) for k in o if k in st)
            if not st and n.k != "decl":
                continue
            for w in self.nz._writes(n):
                r = NonZero._root(w)
                if r:
                    st = dict((k, v) for k, v in st.items() if not NonZero._mentions(k, r))
            if n.k == "decl":
                for v in n.c:
                    if v.k == "var":
                        tok = "%s#%s" % (v.x[0], v.x[1])
                        st = dict((k, s) for k, s in st.items() if not NonZero._mentions(k, tok))
        return st

    def _run(self):
        bl = self.fn.cfg
        IN = {self.fn.entry: {}}
        work = [self.fn.entry]
        it = 0
        while work and it < 80 * len(bl) + 200:
            it += 1
            b = work.pop(0)
            out = self._transfer(bl[b], IN[b], False)
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                ns = self._edge(bl[b], i, out)
                if any(not v for v in ns.values()):
                    continue                      # infeasible edge
                if s not in IN:
                    IN[s] = ns
                    work.append(s)
                else:
                    o = IN[s]
                    m = dict((k, o[k] | ns[k]) for k in o if k in ns)
                    if m != o:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        self.IN = IN
        for b in IN:
            self._transfer(bl[b], IN[b], True)

    def kinds(self, node, key):
        n = node
        while n is not None:
            if n.id in self.at:
                return self.at[n.id].get(key)
            n = n.p
        return None
