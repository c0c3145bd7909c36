"""Which numeric values are known to differ from zero: forward must-analysis over the CFG.

A fact is the canonical form of a value expression (casts, abs, unary minus and number wrappers removed). Facts come from
tests of a value against zero on the taken edge, from assignments of values that are non-zero themselves, and from calls
whose callee only returns normally when a parameter is non-zero."""
from .flow import strip, canon
from . import must

SAME = {"toInt", "toDouble", "abs", "fabs", "llabs", "labs", "operator-"}
NUM_CTOR = ("MiniZinc::IntVal", "MiniZinc::FloatVal", "IntVal", "FloatVal")


def core(n):
    """the value that decides whether n is zero"""
    while True:
        n = strip(n)
        if n is None:
            return n
        if n.k in ("icast", "cast") and n.c:
            n = n.c[-1]
        elif n.k == "un" and n.x[0] in ("-", "+") and n.c:
            n = n.c[0]
        elif n.k == "ocall" and n.mname == "operator-" and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "mcall" and n.mname in ("toInt", "toDouble") and n.c:
            n = n.c[0]
        elif n.k == "call" and n.mname in ("abs", "fabs", "llabs", "labs") and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "mem" and n.x[0] == "_v" and n.c:
            n = n.c[0]
        elif n.k == "ctor" and len(n.c) >= 1 and n.type.replace("const ", "").strip(" &").split("::")[-1] in ("IntVal", "FloatVal"):
            n = n.c[0]
        elif n.k == "ilist" and len(n.c) == 1:
            n = n.c[0]
        elif n.k == "darg" and n.c:
            n = n.c[0]
        else:
            return n


def const(n):
    """numeric value of a literal, or None"""
    neg = False
    n = strip(n)
    while n is not None:
        n = strip(n)
        if n is None:
            return None
        if n.k in ("icast", "cast") and n.c:
            n = n.c[-1]
        elif n.k == "un" and n.x[0] == "-":
            neg = not neg
            n = n.c[0]
        elif n.k == "ctor" and n.c and n.type.replace("const ", "").strip(" &").split("::")[-1] in ("IntVal", "FloatVal"):
            n = n.c[0]
        elif n.k == "ilist" and len(n.c) == 1:
            n = n.c[0]
        else:
            break
    if n is None:
        return None
    try:
        if n.k == "int":
            v = float(n.x[0])
        elif n.k == "float":
            v = float(n.x[0])
        elif n.k == "ref" and n.x[0] == "e":
            v = float(n.x[3])
        else:
            return None
    except (TypeError, ValueError):
        return None
    return -v if neg else v


def key(n):
    n = core(n)
    return canon(n) if n is not None else None


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


def compare(n):
    """(lhs, op, rhs) of a comparison node"""
    n = strip(n)
    if n.k == "bin" and n.x[0] in FLIP:
        return n.c[0], n.x[0], n.c[1]
    if n.k in ("ocall", "call") and (n.mname or "").startswith("operator") and n.mname[8:] in FLIP:
        a = n.c if n.k == "ocall" else n.args()
        if len(a) == 2:
            return a[0], n.mname[8:], a[1]
    return None


def excludes_zero(op, c):
    """does `value op c` exclude zero?"""
    return (op == "!=" and c == 0) or (op == "==" and c != 0) or (op == ">" and c >= 0) or (op == ">=" and c > 0) or \
        (op == "<" and c <= 0) or (op == "<=" and c < 0)


class NonZero(object):
    def __init__(self, prog, fn, cache, depth=0):
        self.prog = prog
        self.fn = fn
        self.cache = cache
        self.depth = depth
        self.at = {}
        self.gens = []            # (block, zero successor, key): exact equality tests with zero
        self.defs = {}
        for n in fn.walk():
            if n.k == "var" and len(n.x) > 1:
                self.defs.setdefault(n.x[1], []).append(n.c[0] if n.c else None)
            elif n.k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">="):
                t = strip(n.c[0])
                if t.k == "ref" and t.x[0] == "v":
                    self.defs.setdefault(t.x[2], []).append(n.c[1])
            elif n.k == "un" and n.x[0] in ("++", "--", "p++", "p--", "&"):
                t = strip(n.c[0])
                if t.k == "ref" and t.x[0] == "v":
                    self.defs.setdefault(t.x[2], []).append(None)
        self._run()

    # ---- conditions
    def facts_of(self, n, truth, exact=None, depth=0):
        """keys known non-zero when condition n evaluates to truth"""
        n = strip(n)
        if n is None or depth > 8:
            return set()
        if n.k == "un" and n.x[0] == "!":
            return self.facts_of(n.c[0], not truth, exact, depth + 1)
        if n.k == "bin" and n.x[0] in ("&&", "||"):
            if (n.x[0] == "&&") == truth:
                return self.facts_of(n.c[0], truth, exact, depth + 1) | self.facts_of(n.c[1], truth, exact, depth + 1)
            return self.facts_of(n.c[0], truth, exact, depth + 1) & self.facts_of(n.c[1], truth, exact, depth + 1)
        cmp = compare(n)
        out = set()
        if cmp:
            l, op, r = cmp
            if not truth:
                op = NEG[op]
            for a, o, b in ((l, op, r), (r, FLIP[op], l)):
                c = const(b)
                if c is None:
                    continue
                x = core(a)
                out |= self._value(x, o, c, a)
            return out
        if n.k == "ref" and n.x[0] == "v" and n.type.replace("const ", "") == "bool":
            d = self.defs.get(n.x[2], [])
            if len(d) == 1 and d[0] is not None:
                return self.facts_of(d[0], truth, exact, depth + 1)
            return set()
        if n.is_call() and n.type.replace("const ", "") == "bool":
            for t in self.prog.targets(n):
                g = self.prog.F.get(t) if isinstance(t, str) else t
                if g is None or g.body is None:
                    continue
                rets = [x for x in g.walk() if x.k == "return"]
                if len(rets) != 1 or not rets[0].c or self.depth > 3:
                    continue
                s = self.sub(g)
                inner = s.facts_of(rets[0].c[0], truth, None, depth + 1)
                m = self.argmap(n, g)
                out |= set(self.rename(k, m) for k in inner if self.rename(k, m))
            return out
        if truth and n.type.replace("const ", "") in ("int", "long long", "double", "long", "unsigned int"):
            return {key(n)}
        return out

    def _value(self, x, op, c, orig):
        """facts from `x op c` (x already stripped of abs: only sign-insensitive tests apply to those)"""
        out = set()
        plain = strip(orig)
        wrapped = False
        q = plain
        while q is not None and q is not x:
            if (q.k == "call" and q.mname in ("abs", "fabs", "llabs", "labs")):
                wrapped = True
            if (q.k == "un" and q.x[0] == "-") or (q.k == "ocall" and q.mname == "operator-"):
                op = FLIP[op]
                c = -c
            if not q.c:
                break
            q = strip(q.c[-1] if q.k in ("icast", "cast") else q.c[0])
        if excludes_zero(op, c):
            out.add(canon(x))
            # a product that is not zero has no zero factor
            f = [x]
            while f:
                y = core(f.pop())
                if y.k == "bin" and y.x[0] == "*":
                    f += y.c
                elif y.k == "ocall" and y.mname == "operator*" and len(y.c) == 2:
                    f += y.c
                elif y is not x:
                    out.add(canon(y))
        # logarithm of something that is not one
        if (op == "!=" and c == 1) or (op == ">" and c >= 1) or (op == "<" and c <= 1):
            out.add("log:" + canon(x))
        return out

    # ---- values
    def value_nonzero(self, n, facts, depth=0):
        c = const(n)
        if c is not None:
            return c != 0
        x = core(n)
        if x is None or depth > 6:
            return False
        c = const(x)
        if c is not None:
            return c != 0
        if canon(x) in facts:
            return True
        if x.k == "?:":
            t = facts | self.facts_of(x.c[0], True)
            e = facts | self.facts_of(x.c[0], False)
            return self.value_nonzero(x.c[1], t, depth + 1) and self.value_nonzero(x.c[2], e, depth + 1)
        if x.k == "bin" and x.x[0] == "*" or x.k == "ocall" and x.mname == "operator*" and len(x.c) == 2:
            return all(self.value_nonzero(y, facts, depth + 1) for y in x.c)
        if x.k == "call" and x.mname in ("log", "log2", "log10") and x.c:
            a = const(x.c[-1])
            if a is not None:
                return a != 1 and a > 0
            return "log:" + key(x.c[-1]) in facts
        if x.k == "sizeof":
            return True
        if x.k in ("mcall", "call", "ocall"):
            # remainder of a range difference that takes out zero
            if x.k == "mcall" and x.mname in ("min", "max") and x.c and self._without_zero(x.c[0]):
                return True
            tg = list(self.prog.targets(x))
            if tg and self.depth < 4:
                ok = True
                for t in tg:
                    g = self.prog.F.get(t) if isinstance(t, str) else t
                    if g is None or g.body is None or g.cfg is None:
                        ok = False
                        break
                    m = self.argmap(x, g)
                    back = dict((v, k) for k, v in m.items())
                    entry = set()
                    for i, p in enumerate(g.params):
                        pk = self.pkey(g, i)
                        if pk in m and m[pk] is not None and self.value_nonzero(m[pk], facts, depth + 1):
                            entry.add(pk)
                    s = self.sub(g, frozenset(entry))
                    if s is None:
                        ok = False
                        break
                    rets = [y for y in g.walk() if y.k == "return" and y.c]
                    if not rets or not all(s.value_nonzero(y.c[0], s.facts(y), depth + 1) for y in rets):
                        ok = False
                        break
                if ok:
                    return True
        return False

    def _without_zero(self, n):
        n = strip(n)
        if n.k != "ref" or n.x[0] != "v":
            return False
        d = self.defs.get(n.x[2], [])
        if len(d) != 1 or d[0] is None or "Ranges::Diff" not in n.type:
            return False
        d = strip(d[0])
        if d.k not in ("ctor", "ilist") or not d.c:
            return False
        z = strip(d.c[-1])
        if z.k == "ref" and z.x[0] == "v":
            zd = self.defs.get(z.x[2], [])
            if len(zd) != 1 or zd[0] is None:
                return False
            z = strip(zd[0])
        if z.k not in ("ctor", "ilist") or len(z.c) != 2:
            return False
        lo, hi = const(z.c[0]), const(z.c[1])
        return lo is not None and hi is not None and lo <= 0 <= hi

    # ---- interprocedural helpers
    @staticmethod
    def pkey(g, i):
        for n in g.walk():
            if n.k == "ref" and n.x[0] == "p" and n.x[1] == g.params[i][0]:
                return canon(n)
        return None

    def argmap(self, call, g):
        m = {}
        args = call.args() if call.k != "ocall" else list(call.c)
        if call.k == "ocall" and len(args) == len(g.params) + 1:
            args = args[1:]
        for i in range(min(len(args), len(g.params))):
            k = self.pkey(g, i)
            if k:
                m[k] = args[i]
        return m

    @staticmethod
    def rename(k, m):
        pre = ""
        if k.startswith("log:"):
            pre, k = "log:", k[4:]
        if k in m:
            return pre + key(m[k])
        return None

    def sub(self, g, entry=frozenset()):
        if self.depth > 4 or g.cfg is None:
            return None
        ck = (g.key, entry)
        if ck not in self.cache:
            self.cache[ck] = None
            self.cache[ck] = NonZero.__new__(NonZero)
            o = self.cache[ck]
            o.entry = entry
            o.__init__(self.prog, g, self.cache, self.depth + 1)
        return self.cache[ck]

    # ---- dataflow
    @staticmethod
    def _root(n):
        n = strip(n)
        while n is not None:
            if n.k == "ref" and n.x[0] in ("v", "p", "s"):
                return "%s#%s" % (n.x[1], n.x[2])
            if n.k == "mem":
                b = strip(n.c[0]) if n.c else None
                if b is None or b.k == "this":
                    return "." + n.x[0]
                n = b
            elif n.k in ("idx", "mcall", "ocall", "un") and n.c:
                n = strip(n.c[0])
            else:
                return None
        return None

    @staticmethod
    def _mentions(s, tok):
        i = s.find(tok)
        while i >= 0:
            j = i + len(tok)
            if j >= len(s) or not (s[j].isalnum() or s[j] == "_"):
                return True
            i = s.find(tok, j)
        return False

    def _writes(self, n):
        out = []
        if n.k == "bin" and n.x[0].endswith("=") and n.x[0] not in ("==", "!=", "<=", ">="):
            out.append(n.c[0])
        elif n.k == "un" and n.x[0] in ("++", "--", "p++", "p--"):
            out.append(n.c[0])
        elif n.k == "ocall" and (n.mname in ("operator++", "operator--", "operator>>") or
                                 (n.mname.endswith("=") and n.mname[8:] not in FLIP)):
            out.append(n.c[0])
        elif n.is_call() or n.k == "ctor":
            g = self.prog.F.get(n.callee) if n.callee else None
            if g is not None:
                args = n.args() if n.k != "ctor" else n.c
                for i, a in enumerate(args):
                    if i < len(g.params):
                        t = g.params[i][1]
                        if t.rstrip().endswith("&") and not t.lstrip().startswith("const ") and "const &" not in t:
                            out.append(a)
                        elif t.rstrip().endswith("*") and strip(a).k == "un" and strip(a).x[0] == "&":
                            out.append(strip(a).c[0])
        return out

    def _transfer(self, b, facts, record):
        facts = set(facts)
        for el in b.elems:
            if isinstance(el, list):
                continue
            n = self.fn.nodes[el]
            if record:
                self.at[n.id] = self.at[n.id] & facts if n.id in self.at else frozenset(facts)
            ws = self._writes(n)
            # value before the kill
            val = None
            if n.k == "bin" and n.x[0] == "=" or n.k == "ocall" and n.mname == "operator=":
                if len(n.c) == 2 and self.value_nonzero(n.c[1], facts):
                    val = n.c[0]
            elif (n.k == "un" and n.x[0] == "-"):
                pass
            for w in ws:
                r = self._root(w)
                if r:
                    facts = set(f for f in facts if not self._mentions(f, r))
            if val is not None:
                facts.add(key(val))
            if n.k == "decl":
                for v in n.c:
                    if v.k != "var":
                        continue
                    tok = "%s#%s" % (v.x[0], v.x[1])
                    pre = set(facts)
                    facts = set(f for f in facts if not self._mentions(f, tok))
                    if v.c and v.c[0] is not None and self.value_nonzero(v.c[0], pre):
                        facts.add(tok)
                    # copies of a pair/struct keep what is known about its members
                    if v.c and v.c[0] is not None:
                        src = key(v.c[0])
                        if src and src != tok:
                            for f in list(pre):
                                if f.startswith(src + "."):
                                    facts.add(tok + f[len(src):])
            if n.is_call() and n.k != "icall" and n.type == "void" and self.depth < 3:
                for t in self.prog.targets(n):
                    g = self.prog.F.get(t) if isinstance(t, str) else t
                    if g is None or g.cfg is None or len(g.nodes) > 200 or not any(x.k == "throw" for x in g.walk()):
                        continue
                    s = self.sub(g)
                    if s is None or not hasattr(s, "exit_facts"):
                        continue
                    m = self.argmap(n, g)
                    for f in s.exit_facts:
                        r = self.rename(f, m)
                        if r:
                            facts.add(r)
        return facts

    def _run(self):
        bl = self.fn.cfg
        self.exit_facts = frozenset()
        if bl is None:
            return
        IN = {self.fn.entry: frozenset(getattr(self, "entry", frozenset()))}
        work = [self.fn.entry]
        n = 0
        while work and n < 80 * len(bl) + 200:
            n += 1
            b = work.pop(0)
            out = self._transfer(bl[b], IN[b], False)
            for i, s in enumerate(bl[b].succs):
                if s < 0:
                    continue
                nf = set(out)
                ec = must.edge_cond(self.fn, bl[b], i)
                if ec:
                    nf |= self.facts_of(ec[0], ec[1])
                t = bl[b].term
                if t and t[0] == "SwitchStmt" and t[2] >= 0:
                    lab = bl[s].label
                    if lab >= 0 and self.fn.nodes[lab].k == "case" and self.fn.nodes[lab].x[0] not in (None, 0, "0") and \
                            len([p for p in bl[s].preds if p >= 0]) == 1:
                        nf.add(key(self.fn.nodes[t[2]]))
                nf = frozenset(nf)
                if s not in IN:
                    IN[s] = nf
                    work.append(s)
                else:
                    m = IN[s] & nf
                    if m != IN[s]:
                        IN[s] = m
                        if s not in work:
                            work.append(s)
        self.IN = IN
        for b in IN:
            self._transfer(bl[b], IN[b], True)
        # facts on normal exits
        norm = None
        for b in IN:
            if self.fn.exit in bl[b].succs and not bl[b].noret and \
                    not any(not isinstance(e, list) and self.fn.nodes[e].k == "throw" for e in bl[b].elems):
                o = frozenset(self._transfer(bl[b], IN[b], False))
                norm = o if norm is None else norm & o
        self.exit_facts = norm or frozenset()

    def facts(self, node):
        n = node
        while n is not None:
            if n.id in self.at:
                return self.at[n.id]
            n = n.p
        return frozenset()

    # ---- the other edge of the tests
    def zero_edges(self, k):
        """(block, successor) taken when the value k is zero, for tests whose other edge makes it non-zero"""
        out = []
        bl = self.fn.cfg
        for b in bl.values():
            for i, s in enumerate(b.succs):
                ec = must.edge_cond(self.fn, b, i)
                if not ec or s < 0:
                    continue
                cmp = compare(ec[0])
                if not cmp:
                    continue
                l, op, r = cmp
                if not ec[1]:
                    op = NEG[op]
                for a, c in ((l, const(r)), (r, const(l))):
                    if c == 0 and op == "==" and key(a) == k:
                        out.append((b.id, s))
        return out
