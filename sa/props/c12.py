"""C12: text written inside JSON strings is escaped."""
import re

from ..charmap import CharMap
from ..exc import clean
from ..facts import last_name
from ..flow import strip

EXPLANATION = (
    "Every chain of stream output in the program is read as a sequence of literals and operands, and the quotes of the literals are "
    "counted, across the statements that write to the same stream, to decide which operands stand inside a JSON string. Functions that write "
    "JSON are recognised by keys or brackets in their own literals, or because what they write is put into the output of such a function. "
    "An operand inside a string must be a number, a constant text, or the result of an escaping function; concatenations of texts with "
    "quotes are judged in the same way. For every escaping function the effect on each of the 256 characters is computed from its control "
    "flow and compared with what JSON requires.")

NUM = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "double", "float", "bool", "short", "unsigned short",
       "size_t", "std::size_t"}
EVID = re.compile(r'"[\w ]+"\s*:|^"\s*:|\{\s*"|"\s*:\s*[\[{"]|^\s*"X"\s*:')
PROSE = re.compile(r'[A-Za-z0-9.;)]\s+"$|[A-Za-z]"$')
CASTS = ("icast", "temp", "bind", "mat", "cast", "scast", "paren", "cleanup", "bindtemp")


def under(n):
    n = strip(n)
    while n is not None and n.k in CASTS and n.c:
        n = strip(n.c[-1])
    return n


def chain(n):
    if n.k == "ocall" and n.mname == "operator<<" and len(n.c) == 2:
        return chain(under(n.c[0])) + [n.c[1]]
    return [n]


def concat(n):
    n = under(n)
    if n is not None and n.k == "ctor" and len([c for c in n.c if c is not None and c.k != "darg"]) == 1 and "string" in (n.type or ""):
        return concat(n.c[0])
    if n is not None and n.k == "ocall" and n.mname == "operator+" and len(n.c) == 2:
        return concat(n.c[0]) + concat(n.c[1])
    return [n]


def root(n):
    """what a stream expression denotes, as text"""
    n = under(n)
    if n is None:
        return None
    if n.k == "ref":
        return ("r",) + tuple(map(str, n.x[:3]))
    if n.k == "mem":
        b = root(n.c[0]) if n.c else ("this",)
        return None if b is None else b + (n.x[0],)
    if n.k == "this":
        return ("this",)
    if n.is_call():
        return ("c", n.callee) + ((root(n.c[0]),) if n.k in ("mcall", "ocall") and n.c else ())
    return (n.k,)


class C12(object):
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.esc = {}
        self.lits = {}

    def evidence(self, f):
        """does the function write JSON: its own literals, those of functions it is local to"""
        if f.key not in self.lits:
            t = [n.x[0] for n in f.walk() if n.k == "str" and isinstance(n.x[0], str)]
            for n in f.walk():
                if n.k == "ocall" and n.mname == "operator<<" and len(n.c) == 2 and not (n.p is not None and n.p.k == "ocall" and n.p.mname == "operator<<"):
                    t.append("".join(a.x[0] if a is not None and a.k == "str" and isinstance(a.x[0], str) else "X" for a in map(under, chain(n)[1:])))
            self.lits[f.key] = any(EVID.search(x) for x in t)
        return self.lits[f.key]

    def json(self, f):
        if self.evidence(f):
            return True
        # local classes, lambdas and visitors: the function they are part of, or other members of the class
        for g in self.byname.get(f.q.rsplit("::", 1)[0], ()):
            if self.evidence(g):
                return True
        if f.cls:
            for g in self.bycls.get(f.cls, ()):
                if self.evidence(g):
                    return True
            enclosing = f.cls.rsplit("::", 1)[0] if "::" in f.cls else f.cls
            for g in self.byname.get(enclosing.split("(")[0], ()):
                if self.evidence(g):
                    return True
        return any(self.evidence(self.prog.F[k]) for k in self.encl.get(f.key, ()))

    def index(self):
        self.byname, self.bycls, self.encl = {}, {}, {}
        for f in self.prog.F.values():
            self.byname.setdefault(f.q.split("(")[0], []).append(f)
            if f.cls:
                self.bycls.setdefault(f.cls, []).append(f)
            for n in f.walk():
                if n.k == "lambda" and n.x and n.x[0] in self.prog.F:
                    self.encl.setdefault(n.x[0], set()).add(f.key)
                if n.k in ("ctor", "var", "temp") and n.type:
                    pass
        # members of classes defined inside functions: any function in the same file that constructs one
        loc = {}
        for f in self.prog.F.values():
            for n in f.walk():
                if n.k == "ctor" and n.x[0]:
                    loc.setdefault(clean(n.type or ""), set()).add(f.key)
        for f in self.prog.F.values():
            if f.cls and ("(" in f.q or f.cls not in self.prog.C or "::" not in f.cls):
                self.encl.setdefault(f.key, set()).update(loc.get(clean(f.cls), ()))

    # ------------------------------------------------------------- escaping functions
    def escaper(self, f):
        if f.key not in self.esc:
            self.esc[f.key] = None
            if f.body is not None and f.cfg is not None and len(f.params) in (1, 2) and any(n.k in ("for", "rfor", "while") for n in f.nodes):
                if any(n.k in ("int", "char", "case") and n.x and n.x[0] == 34 for n in f.walk()):
                    try:
                        self.esc[f.key] = CharMap(self.prog, f).table()
                    except Exception:        # an idiom the character analysis does not read
                        self.esc[f.key] = None
        return self.esc[f.key]

    def escapes(self, n, d=0):
        """is the value of the call the escaped form of a text"""
        for t in self.prog.targets(n):
            if self.escaper(t) is not None:
                self.used[t.key] = t
                return True
            if t.body is None or d > 2:
                continue
            rs = [m for m in t.walk() if m.k == "return" and m.c]
            if rs and all(self.safe(m.c[0], t, d + 1) for m in rs):
                return True
        return False

    @staticmethod
    def truths(n):
        """flags that are known to be (true, false) where n is evaluated"""
        t, e = set(), set()
        c, p = n, n.p
        while p is not None:
            if p.k in ("if", "?:", "cond"):
                k = under(p.c[2] if p.k == "if" else p.c[0])
                neg = False
                while k is not None and k.k == "un" and k.x[0] == "!":
                    k, neg = under(k.c[0]), not neg
                if k is not None and k.k == "mem":
                    th, el = (p.c[3], p.c[4] if len(p.c) > 4 else None) if p.k == "if" else (p.c[1], p.c[2])
                    if c is th:
                        (e if neg else t).add(k.x[1])
                    elif el is not None and c is el:
                        (t if neg else e).add(k.x[1])
            c, p = p, p.p
        return t, e

    def safe(self, n, f, d=0, known=None):
        """may the value stand inside a JSON string as it is"""
        if known is None and n is not None:
            known = self.truths(n)
        n = under(n)
        if n is None:
            return True
        ty = clean(n.type or "").replace("const ", "").strip()
        if ty in NUM or ty in self.prog.E or n.k in ("str", "int", "float", "bool"):
            return True
        if ty == "char" or ty == "const char":
            return n.k in ("int", "char") and n.x[0] not in (34, 92) and not (isinstance(n.x[0], int) and n.x[0] < 32)
        if n.k in ("?:", "cond"):
            k = under(n.c[0])
            if known and k is not None and k.k == "mem" and k.x[1] in known[0]:
                return self.safe(n.c[1], f, d, known)
            if known and k is not None and k.k == "mem" and k.x[1] in known[1]:
                return self.safe(n.c[2], f, d, known)
            return all(self.safe(c, f, d, known) for c in n.c[1:])
        if n.k == "ocall" and n.mname == "operator+":
            return all(self.safe(c, f, d) for c in n.c)
        if n.k == "ctor":
            return all(self.safe(c, f, d) for c in n.c if c is not None and c.k != "darg")
        if n.is_call():
            if n.mname in ("endl", "setprecision", "setw", "setfill", "flush", "fixed", "to_string"):
                return True
            if n.mname in ("c_str", "substr") and n.c:
                return self.safe(n.c[0], f, d)
            return self.escapes(n, d)
        if n.k == "ref" and n.x[0] == "f":
            return True
        if d < 4 and n.k == "ref" and n.x[0] == "v" and f is not None:
            src = []
            for m in f.walk():
                if m.k == "var" and m.x[1] == n.x[2]:
                    src += [c for c in m.c if c is not None]
                elif m.k in ("bin", "ocall") and (m.x[0] in ("=", "+=") or m.mname in ("operator=", "operator+=")) and len(m.c) >= 2:
                    l = under(m.c[-2] if m.k == "ocall" else m.c[0])
                    if l is not None and l.k == "ref" and l.x[0] == "v" and l.x[2] == n.x[2]:
                        src.append(m.c[-1])
            if known:
                src = [s for s in src if not self.truths(s)[0] & known[1] and not self.truths(s)[1] & known[0]]
            return bool(src) and all(self.safe(s, f, d + 1, known) for s in src)
        if d < 3 and n.k == "ref" and n.x[0] == "p" and f is not None:
            cs = self.prog.callers.get(f.key, ())
            sites = [(g, m) for k in cs for g in [self.prog.F[k]] for m in g.walk() if m.is_call() and m.callee == f.key]
            return bool(sites) and all(len(m.args()) > n.x[2] and self.safe(m.args()[n.x[2]], g, d + 1) for g, m in sites)
        if d < 3 and n.k == "mem":
            w = self.written(n.x[1])
            return bool(w) and all(self.safe(e, g, d + 1) for g, e in w)
        return False

    def written(self, q):
        if not hasattr(self, "_w"):
            self._w = {}
            for f in self.prog.F.values():
                for n in f.walk():
                    if n.k == "init" and n.x and n.x[0] and n.c:
                        self._w.setdefault(n.x[0], []).append((f, n.c[0]))
                    elif n.k in ("bin", "ocall") and (n.x[0] == "=" or n.mname == "operator=") and len(n.c) >= 2:
                        l = under(n.c[0] if n.k == "bin" else n.c[-2])
                        if l is not None and l.k == "mem":
                            self._w.setdefault(l.x[1], []).append((f, n.c[-1]))
        return self._w.get(q, ())

    # ------------------------------------------------------------- chains
    @staticmethod
    def quotes(s, inside):
        i = 0
        while i < len(s):
            if inside and s[i] == "\\":
                i += 2
                continue
            if s[i] == '"':
                inside = not inside
            i += 1
        return inside

    def judge(self, f, ops, inside, where):
        """operands inside quotes; returns whether the text ends inside a string"""
        ctx = self.ctx
        prose = False
        for i, o in enumerate(ops):
            a = under(o)
            if a is None:
                continue
            if a.k == "str" and isinstance(a.x[0], str):
                was = inside
                inside = self.quotes(a.x[0], inside)
                if inside and (not was or a.x[0].count('"') > 1):
                    prose = bool(PROSE.search(a.x[0]))
                continue
            if not inside:
                continue
            if prose:
                continue
            if a.k == "ref" and a.x[0] == "f":
                continue
            ctx.count("texts inside JSON strings")
            ctx.check(self.safe(a, f), "raw:%s:%s" % (f.q.split("<")[0].split("(")[0], self.describe(a)), f.loc(a),
                      "%s writes %s inside a JSON string without escaping it" % (last_name(f.q), self.describe(a)), "escaped or plain")
        return inside and not prose

    @staticmethod
    def describe(a):
        if a.is_call():
            return "the result of %s" % a.mname
        if a.k in ("ref", "mem"):
            return str(a.x[1] if a.k == "ref" else a.x[0])
        if a.k == "un" and a.c:
            return "*" + C12.describe(under(a.c[0]))
        return a.k

    def scan(self):
        ctx = self.ctx
        self.used = {}
        self.index()
        for f in self.prog.F.values():
            if f.body is None:
                continue
            tops = []
            cats = []
            q = False
            for n in f.walk():
                if n.k == "str" and isinstance(n.x[0], str) and '"' in n.x[0]:
                    q = True
                if n.k == "ocall" and n.mname == "operator<<" and len(n.c) == 2 and "ostream" in (n.type or "") and not (
                        n.p is not None and n.p.k == "ocall" and n.p.mname == "operator<<" and under(n.p.c[0]) is n):
                    tops.append(n)
                if n.k == "ocall" and n.mname == "operator+" and "string" in (n.type or "") and not self.inner(n):
                    cats.append(n)
            if not q or not tops and not cats or not self.json(f):
                continue
            ctx.count("functions that write JSON")
            state = {}
            for n in sorted(tops, key=lambda n: (n.line, n.id)):
                ops = chain(n)
                r = root(ops[0])
                lits = [under(o) for o in ops[1:]]
                first = next((o for o in lits if o is not None), None)
                st = state.get(r, False)
                if first is not None and first.k == "str" and st and not re.match(r'\s*[\w/\\.%]*"|[^"]*$', first.x[0]):
                    st = False
                state[r] = self.judge(f, ops[1:], st, n)
            for n in cats:
                ops = concat(n)
                if any(o is not None and o.k == "str" and isinstance(o.x[0], str) and '"' in o.x[0] for o in ops):
                    self.judge(f, ops, False, n)

    @staticmethod
    def inner(n):
        p = n.p
        while p is not None and (p.k in CASTS or p.k == "ctor"):
            p = p.p
        return p is not None and p.k == "ocall" and p.mname == "operator+"

    def tables(self):
        ctx = self.ctx
        for k, f in sorted(self.used.items()):
            tab = self.escaper(f)
            ctx.count("escaping functions")
            for b in range(1, 128):
                t = tab[b]
                if t is None:
                    if b in (34, 92):
                        ctx.skip("escape of character %d in %s" % (b, f.q[:60]))
                    continue
                c = chr(b)
                if b == 34 or b == 92:
                    ok = t <= {"\\" + c, "\\u%04x" % b, "\\u%04X" % b}
                elif b < 32:
                    names = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}
                    ok = all(x in (names.get(b), "\\u%04x" % b, "\\u%04X" % b) for x in t)
                else:
                    ok = t <= {c, "\\u%04x" % b, "\\u%04X" % b} | ({"\\/"} if c == "/" else set())
                key = "escape:control" if b < 32 and b not in (9, 10) else "escape:%d" % b
                ctx.check(ok, key, f.loc(), "%s writes character %d as %s, which is not allowed in a JSON string" % (last_name(f.q.split("<")[0]), b, sorted(t)),
                          "character %d" % b)


def check(ctx):
    c = C12(ctx)
    c.scan()
    c.tables()
    ctx.need("functions that write JSON", 15)
    ctx.need("texts inside JSON strings", 40)
    ctx.need("escaping functions", 1)
