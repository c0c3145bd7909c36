"""Finite-domain abstract interpretation of a function over abstract objects whose kind and operator are known.

Values are constants, abstract objects (kind plus the accessor values that are known) or unknown; a branch on an unknown
value is followed both ways (bounded), so the result is the set of possible output texts. Used to derive what a printer
writes for each nesting of node kinds."""
import re

from .facts import last_name
from .flow import strip


class Unknown(object):
    def __repr__(self):
        return "UNK"


UNK = Unknown()


class Obj(object):
    def __init__(self, kind, **at):
        self.kind = kind
        self.at = at

    def __repr__(self):
        return "<%s>" % self.kind


class Stream(object):
    def __init__(self):
        self.out = []


class Ref(object):
    """reference to a variable of a frame"""

    def __init__(self, env, key):
        self.env, self.key = env, key

    def get(self):
        return self.env.get(self.key, UNK)

    def set(self, v):
        self.env[self.key] = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Throw(Exception):
    pass


class GiveUp(Exception):
    pass


class Interp(object):
    MAXSTEPS = 20000

    def __init__(self, prog, consts, members=None, fnhook=None):
        self.prog = prog
        self.consts = consts          # qualified static member / variable -> value
        self.members = members or {}  # fields of `this`
        self.fnhook = fnhook
        self.alg = None               # algebra of symbolic values
        self.refhook = None           # value of a variable that has not been assigned
        self.ctorhook = None
        self.ocallhook = None
        self.decisions = []
        self.pos = 0
        self.steps = 0
        self.forked = 0

    # ---- nondeterminism: replay with a list of decisions
    def runs(self, start, limit=64):
        """all results of start(interp) over the undecided branches: list of (result, number of undecided branches)"""
        out = []
        todo = [[]]
        while todo:
            if len(out) >= limit:
                raise GiveUp("too many undecided branches")
            self.decisions = todo.pop()
            self.pos = 0
            self.steps = 0
            self.forked = 0
            pre = len(self.decisions)
            try:
                r = start(self)
            except Throw:
                r = None
            for i in range(pre, self.pos):
                alt = self.decisions[:i] + [not self.decisions[i]]
                todo.append(alt)
            out.append((r, self.pos))
        return out

    def decide(self, v):
        if v is UNK or isinstance(v, (Unknown,)):
            if self.pos >= 40:
                raise GiveUp("too many undecided branches on one path")
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]
            else:
                d = False
                self.decisions.append(d)
            self.pos += 1
            return d
        if isinstance(v, Ref):
            return self.decide(v.get())
        if v is None:
            return False
        if isinstance(v, (Obj, Stream)):
            return True
        return bool(v)

    def tick(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise GiveUp("does not end")

    # ---- calls
    def call(self, fn, args, this=None, depth=0, cap=None):
        if depth > 60:
            raise GiveUp("recursion")
        env = {}
        if cap is not None:
            env["cap"] = cap
        for i, p in enumerate(fn.params):
            if i < len(args):
                env[("p", i)] = args[i]
        env["this"] = this
        env["depth"] = depth
        try:
            self.stmt(fn.body, env, fn)
        except Return as r:
            return r.v
        except (Break, Continue):
            raise GiveUp("break outside")
        return UNK

    # ---- statements
    def stmt(self, n, env, fn):
        self.tick()
        k = n.k
        if k == "{":
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "decl":
            for v in n.c:
                if v.k == "var":
                    key = ("v", v.x[1])
                    if v.c:
                        val = self.ev(v.c[0], env, fn)
                        t = v.type or ""
                        if v.c[0].k == "ctor" and "stringstream" in (v.c[0].cq or ""):
                            val = Stream()
                        env[key] = self.rv(val)
                    else:
                        env[key] = Stream() if "stringstream" in (v.type or "") else UNK
        elif k == "if":
            if n.c[0] is not None and n.c[0].k != "null":
                self.stmt(n.c[0], env, fn)
            if n.c[1] is not None and n.c[1].k != "null":
                self.stmt(n.c[1], env, fn)
                c = None
            c = self.decide(self.ev(n.c[2], env, fn))
            b = n.c[3] if c else n.c[4]
            if b.k != "null":
                self.stmt(b, env, fn)
        elif k == "for":
            if n.c[0].k != "null":
                self.stmt(n.c[0], env, fn)
            it = 0
            while True:
                it += 1
                if it > 12:
                    raise GiveUp("loop")
                if n.c[2].k != "null" and not self.decide(self.ev(n.c[2], env, fn)):
                    break
                try:
                    self.stmt(n.c[4], env, fn)
                except Break:
                    break
                except Continue:
                    pass
                if n.c[3].k != "null":
                    self.ev(n.c[3], env, fn)
        elif k in ("while", "do"):
            it = 0
            cond = n.c[1]
            body = n.c[2] if k == "while" else n.c[0]
            while True:
                it += 1
                if it > 12:
                    raise GiveUp("loop")
                if k == "while" and not self.decide(self.ev(cond, env, fn)):
                    break
                try:
                    self.stmt(body, env, fn)
                except Break:
                    break
                except Continue:
                    pass
                if k == "do" and not self.decide(self.ev(cond, env, fn)):
                    break
        elif k == "rfor":
            rng = self.rfor_range(n, env, fn)
            var = None
            for c in n.c:
                if c.k == "decl":
                    for v in c.c:
                        if v.k == "var" and not v.x[0].startswith("__"):
                            var = v
            body = n.c[-1]
            if isinstance(rng, Obj) and isinstance(rng.at.get("items"), (list, tuple)):
                rng = rng.at["items"]
            if rng is UNK or var is None or not isinstance(rng, (list, tuple)):
                raise GiveUp("range loop over an unknown container")
            for x in rng:
                env[("v", var.x[1])] = x
                try:
                    self.stmt(body, env, fn)
                except Break:
                    break
                except Continue:
                    continue
        elif k == "switch":
            v = self.rv(self.ev(n.c[2], env, fn))
            self.switch(n, v, env, fn)
        elif k in ("case", "default"):
            for c in n.c:
                self.stmt(c, env, fn)
        elif k == "break":
            raise Break()
        elif k == "continue":
            raise Continue()
        elif k == "return":
            raise Return(self.rv(self.ev(n.c[0], env, fn)) if n.c and n.c[0].k != "null" else UNK)
        elif k == "try":
            self.stmt(n.c[0], env, fn)
        elif k == "throw":
            self.ev(n, env, fn)
        elif k in ("null", "nullstmt", ";"):
            pass
        else:
            self.ev(n, env, fn)

    def rfor_range(self, n, env, fn):
        for c in n.c:
            if c.k == "decl":
                for v in c.c:
                    if v.k == "var" and v.x[0].startswith("__range") and v.c:
                        return self.rv(self.ev(v.c[0], env, fn))
        for c in n.c[:-1]:
            if c.k not in ("decl", "null"):
                return self.rv(self.ev(c, env, fn))
        return UNK

    def switch(self, n, v, env, fn):
        body = n.c[3]
        seq = body.c if body.k == "{" else [body]
        if v is UNK or isinstance(v, Obj):
            raise GiveUp("switch on an unknown value at %s" % fn.loc(n))
        start = None
        dflt = None

        def labels(s):
            r = []
            while s is not None and s.k in ("case", "default"):
                r.append(s)
                s = s.c[0] if s.c and s.c[0].k in ("case", "default") else None
            return r
        for i, s in enumerate(seq):
            for l in labels(s):
                if l.k == "default":
                    dflt = i
                elif l.x[0] == v or (isinstance(l.x[1], int) and l.x[0] <= v <= l.x[1]):
                    start = i
            if start is not None:
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for s in seq[start:]:
                self.stmt(s, env, fn)
        except Break:
            pass

    # ---- expressions
    def rv(self, v):
        return v.get() if isinstance(v, Ref) else v

    def val(self, n, env, fn):
        return self.rv(self.ev(n, env, fn))

    def ev(self, n, env, fn):
        self.tick()
        k = n.k
        if k in ("icast", "cast", "cleanup", "darg", "mat", "bindtemp", "temp", "paren") and len(n.c) == 1:
            v = self.ev(n.c[0], env, fn)
            if k in ("icast", "cast") and isinstance(self.rv(v), bool):
                return int(self.rv(v))
            return v
        if k == "int":
            return n.x[0] if isinstance(n.x[0], int) else UNK
        if k in ("float", "flt", "fp"):
            try:
                return float(n.x[0])
            except (TypeError, ValueError):
                return UNK
        if k == "char":
            return n.x[0]
        if k == "bool":
            return bool(n.x[0])
        if k == "str":
            return n.x[0]
        if k == "nullptr":
            return None
        if k == "this":
            return env["this"]
        if k == "ref":
            w = n.x[0]
            if w == "e":
                return n.x[3]
            if w == "p":
                if ("p", n.x[2]) not in env and n.x[1] in env.get("cap", ()):
                    return env["cap"][n.x[1]]
                if ("p", n.x[2]) not in env and self.refhook is not None:
                    v = self.refhook(n, env, fn)
                    if v is not None:
                        env[("p", n.x[2])] = v
                return Ref(env, ("p", n.x[2]))
            if w in ("v", "s"):
                if ("v", n.x[2]) in env:
                    return Ref(env, ("v", n.x[2]))
                if n.x[1] in env.get("cap", ()):
                    return env["cap"][n.x[1]]
                if self.refhook is not None:
                    v = self.refhook(n, env, fn)
                    if v is not None:
                        env[("v", n.x[2])] = v
                        return Ref(env, ("v", n.x[2]))
            for c in n.x[1:]:
                if isinstance(c, str) and c in self.consts:
                    return self.consts[c]
            return UNK
        if k == "mem":
            name = n.x[0]
            o = self.val(n.c[0], env, fn) if n.c else env["this"]
            short = name.split("::")[-1]
            if name in self.consts:
                return self.consts[name]
            if o == "this" or (isinstance(o, str) and o == "this"):
                if short in self.members:
                    return self.members[short]
                return UNK
            if isinstance(o, Obj):
                if short in o.at:
                    return o.at[short]
                if short.startswith("_") and short[1:] in o.at and not callable(o.at[short[1:]]):
                    return o.at[short[1:]]
            return UNK
        if k == "un":
            op = n.x[0]
            if op == "*" or op == "&":
                r = self.ev(n.c[0], env, fn)
                v = self.rv(r)
                if op == "*" and isinstance(v, Obj) and v.kind == "iter":
                    return v.at["seq"][v.at["pos"]] if v.at["pos"] < len(v.at["seq"]) else UNK
                return r
            if op in ("++", "p++", "--", "p--"):
                r = self.ev(n.c[0], env, fn)
                v = self.rv(r)
                if isinstance(r, Ref) and self.alg is not None and self.issym(v):
                    nv = self.alg.bin("+" if "+" in op else "-", v, 1)
                    r.set(nv)
                    return v if op.startswith("p") else nv
                if isinstance(r, Ref) and isinstance(v, int):
                    nv = v + (1 if "+" in op else -1)
                    r.set(nv)
                    return v if op.startswith("p") else nv
                if isinstance(r, Ref):
                    r.set(UNK)
                return UNK
            v = self.val(n.c[0], env, fn)
            if self.alg is not None and self.issym(v):
                return self.alg.un(op, v)
            if op == "!":
                return UNK if v is UNK else (not self.truth(v))
            if v is UNK or not isinstance(v, int):
                return UNK
            return {"-": -v, "+": v, "~": ~v}.get(op, UNK)
        if k == "bin":
            return self.binop(n, env, fn)
        if k == "?:":
            c = self.decide(self.ev(n.c[0], env, fn))
            return self.ev(n.c[1] if c else n.c[2], env, fn)
        if k == "idx":
            return self.index(self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))
        if k == "throw":
            raise Throw()
        if k == "ocall":
            return self.ocall(n, env, fn)
        if k in ("call", "mcall"):
            return self.fcall(n, env, fn)
        if k == "ctor":
            a = [c for c in n.c if c.k != "darg"]
            if self.ctorhook is not None:
                r = self.ctorhook(self, n, a, env, fn)
                if r is not None:
                    return r[0]
            if "stringstream" in (n.cq or ""):
                return Stream()
            if len(a) == 1:
                return self.ev(a[0], env, fn)
            if "basic_string" in (n.cq or "") and a:
                return self.ev(a[0], env, fn)
            return UNK
        if k == "new":
            r = UNK
            for c in n.c:
                r = self.ev(c, env, fn)
            return self.rv(r) if self.ctorhook is not None else UNK
        if k == "lambda":
            f = self.prog.F.get(n.x[0])
            if f is None or f.cfg is None:
                return UNK
            cap = {}
            for i, c in enumerate(n.x[1] or []):
                if i < len(n.c):
                    cap[c[0]] = self.ev(n.c[i], env, fn)
            return Obj("lambda", fn=f, cap=cap, this=env["this"], depth=env["depth"])
        if k == "ilist":
            return [self.val(c, env, fn) for c in n.c]
        if k in ("sizeof", "lambda", "null"):
            return UNK
        for c in n.c:
            if c.k not in ("decl", "{"):
                self.ev(c, env, fn)
        return UNK

    @staticmethod
    def issym(v):
        return type(v).__name__ == "Sym"

    @staticmethod
    def truth(v):
        if v is None:
            return False
        if isinstance(v, (Obj, Stream)):
            return True
        return bool(v)

    def index(self, o, i):
        if isinstance(o, Obj) and "elems" in o.at:
            o = o.at["elems"]
        if isinstance(o, (list, tuple)) and isinstance(i, int) and 0 <= i < len(o):
            return o[i]
        if isinstance(o, str) and isinstance(i, int):
            return ord(o[i]) if i < len(o) else 0
        return UNK

    def binop(self, n, env, fn):
        op = n.x[0]
        if op in ("&&", "||"):
            a = self.val(n.c[0], env, fn)
            if a is UNK:
                a = self.decide(a)
            a = self.truth(a)
            if op == "&&" and not a:
                return False
            if op == "||" and a:
                return True
            b = self.val(n.c[1], env, fn)
            return b if b is UNK else self.truth(b)
        if op == "=":
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if isinstance(r, Ref):
                r.set(v)
            return v
        if op == ",":
            self.ev(n.c[0], env, fn)
            return self.ev(n.c[1], env, fn)
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self.ev(n.c[0], env, fn)
            v = self.arith(op[:-1], self.rv(r), self.val(n.c[1], env, fn))
            if isinstance(r, Ref):
                r.set(v)
            return v
        return self.arith(op, self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))

    def arith(self, op, x, y):
        if x is UNK or y is UNK:
            return UNK
        if self.alg is not None and (self.issym(x) or self.issym(y)) and x is not None and y is not None:
            if op in ("^", "&", "|") and isinstance(x, bool) and isinstance(y, bool):
                pass
            else:
                return self.alg.bin(op, x, y)
        if op in ("==", "!=") and isinstance(x, Obj) and isinstance(y, Obj) and x.kind == y.kind == "iter":
            return (x.at["pos"] == y.at["pos"]) == (op == "==")
        if op in ("==", "!="):
            if isinstance(x, Obj) or isinstance(y, Obj) or x is None or y is None:
                if isinstance(x, Obj) and isinstance(y, Obj) and x is not y and x.kind == y.kind and x.at.get("cmp") is not None:
                    r = x.at["cmp"] == y.at.get("cmp")
                else:
                    r = x is y
            else:
                r = x == y
            return r if op == "==" else not r
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and op in ("<", "<=", ">", ">="):
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if not isinstance(x, (int, bool)) or not isinstance(y, (int, bool)):
            return UNK
        try:
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "+": lambda: x + y,
                    "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                    "<<": lambda: x << y, ">>": lambda: x >> y, "%": lambda: x % y, "/": lambda: x // y}[op]()
        except (KeyError, ZeroDivisionError):
            return UNK

    def text(self, v):
        if isinstance(v, bool):
            return "1" if v else "0"
        if isinstance(v, (str, int)):
            return str(v)
        if isinstance(v, Obj) and "text" in v.at:
            return v.at["text"]
        return None

    def ocall(self, n, env, fn):
        m = n.mname
        if m == "operator<<" and len(n.c) == 2:
            s = self.val(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if isinstance(s, Stream):
                t = self.text(v)
                if t is not None and n.c[1].type and re.match(r"^(const )?char$", n.c[1].type.replace("&", "").strip()) and isinstance(v, int):
                    t = chr(v)
                if t is None:
                    if strip(n.c[1]).k == "ref" and strip(n.c[1]).x[1] in ("endl",):
                        t = "\n"
                s.out.append(t if t is not None else UNK)
                return s
            return UNK
        if m == "operator()" and n.c:
            o = self.val(n.c[0], env, fn)
            if isinstance(o, Obj) and o.kind == "lambda":
                return self.call(o.at["fn"], [self.val(a, env, fn) for a in n.c[1:]], o.at["this"], env["depth"] + 1, o.at["cap"])
        if m in ("operator->", "operator*") and len(n.c) == 1:
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            if isinstance(v, Obj) and v.kind == "iter":
                sq, ps = v.at["seq"], v.at["pos"]
                return sq[ps] if ps < len(sq) else UNK
            return r
        if m in ("operator==", "operator!=") and len(n.c) == 2:
            return self.arith(m[8:], self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))
        if self.ocallhook is not None:
            r = self.ocallhook(self, n, env, fn)
            if r is not None:
                return r[0]
        if m in ("operator<", "operator<=", "operator>", "operator>=") and len(n.c) == 2:
            x, y = self.val(n.c[0], env, fn), self.val(n.c[1], env, fn)
            if isinstance(x, Obj):
                x = x.at.get("cmp", UNK)
            if isinstance(y, Obj):
                y = y.at.get("cmp", UNK)
            return self.arith(m[8:], x, y)
        if m in ("operator[]", "operator()") and len(n.c) == 2:
            return self.index(self.val(n.c[0], env, fn), self.val(n.c[1], env, fn))
        if m == "operator+" and len(n.c) == 2:
            x, y = self.val(n.c[0], env, fn), self.val(n.c[1], env, fn)
            if isinstance(x, str) and isinstance(y, str):
                return x + y
            return self.arith("+", x, y)
        if m == "operator=" and len(n.c) == 2:
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            if isinstance(r, Ref):
                r.set(v)
            return v
        if m == "operator+=" and len(n.c) == 2:
            r = self.ev(n.c[0], env, fn)
            v = self.val(n.c[1], env, fn)
            o = self.rv(r)
            if isinstance(r, Ref):
                r.set(o + v if isinstance(o, str) and isinstance(v, str) else UNK)
            return r
        if m == "operator!" and len(n.c) == 1:
            v = self.val(n.c[0], env, fn)
            return UNK if v is UNK else not self.truth(v)
        if m == "operator++" and n.c:
            r = self.ev(n.c[0], env, fn)
            v = self.rv(r)
            if isinstance(v, Obj) and v.kind == "iter":
                nv = Obj("iter", seq=v.at["seq"], pos=v.at["pos"] + 1)
                if isinstance(r, Ref):
                    r.set(nv)
                return nv
        for c in n.c:
            self.ev(c, env, fn)
        return UNK

    def isa(self, o, t):
        """is an abstract object of class t"""
        if not isinstance(o, Obj):
            return UNK if o is UNK else False
        q = "MiniZinc::" + o.kind
        t = t.split("::")[-1]
        ks = [b.split("::")[-1] for b in self.prog.bases(q)] + [o.kind]
        return t in ks

    def fcall(self, n, env, fn):
        m = n.mname
        cq = n.cq or ""
        mm = re.search(r"::(isa|cast|dynamicCast|dynCast)<(.*)>$", cq)
        if mm:
            args = n.args()
            o = self.val(args[0], env, fn) if args else (self.val(n.c[0], env, fn) if n.c else UNK)
            t = mm.group(2).strip()
            if mm.group(1) == "cast":
                return o
            r = self.isa(o, t)
            if mm.group(1) == "isa":
                return r
            if r is UNK:
                return UNK
            return o if r else None
        if self.fnhook is not None:
            r = self.fnhook(self, n, env, fn)
            if r is not None:
                return r[0]
        # static accessor Class::x(obj)
        args = n.args()
        recv = None
        if n.k == "mcall":
            recv = self.val(n.c[0], env, fn)
            if recv == "this" and isinstance(recv, str):
                return self.enter(n, args, env, fn, "this")
            if isinstance(recv, Stream):
                if m == "str" and not args:
                    if any(x is UNK for x in recv.out):
                        return UNK
                    return "".join(recv.out)
                if m == "str" and args:
                    recv.out[:] = []
                return UNK
            if isinstance(recv, str):
                if m in ("c_str", "str", "data"):
                    return recv
                if m in ("size", "length"):
                    return len(recv)
                if m == "empty":
                    return not recv
                if m in ("operator basic_string",):
                    return recv
            if isinstance(recv, (list, tuple)):
                if m in ("size", "length"):
                    return len(recv)
                if m == "empty":
                    return not recv
                if m in ("at",) and args:
                    return self.index(recv, self.val(args[0], env, fn))
                if m == "begin":
                    return Obj("iter", seq=recv, pos=0)
                if m == "end":
                    return Obj("iter", seq=recv, pos=len(recv))
            if isinstance(recv, Obj):
                if m in recv.at:
                    v = recv.at[m]
                    if callable(v):
                        return v(*[self.val(a, env, fn) for a in args])
                    return v
                return UNK
            return UNK
        if n.k == "call" and args:
            o = self.val(args[0], env, fn)
            if isinstance(o, Obj) and m in o.at and "::" in cq:
                v = o.at[m]
                if callable(v):
                    return v(*[self.val(a, env, fn) for a in args[1:]])
                return v
            if m in ("move", "forward", "addressof", "as_const") and cq.startswith("std::"):
                return o
        if n.k == "call" or n.k == "mcall":
            return self.enter(n, args, env, fn, None)
        return UNK

    def enter(self, n, args, env, fn, this):
        ts = [t for t in self.prog.targets(n) if t.cfg is not None and t.file and not t.file.startswith("/")]
        av = []
        for a in args:
            av.append(self.val(a, env, fn) if a.k != "darg" or a.c else UNK)
        if len(ts) != 1:
            return UNK
        t = ts[0]
        if this is None and t.cls is not None and not t.static:
            return UNK
        return self.call(t, av, this if this is not None else None, env["depth"] + 1)
